"""Library models, continued: formatting, io, crypto crates, time, environment, logging, nom leaves."""
from models import *
from models import _panic
import models

BIG = 1 << 200


def fixed_seq(name, n, *args):
    t = app(name, None, *args)
    set_elem_range(t, (0, 255))
    return span(t, I(0), I(n))


def atom(name, *args):
    """an unconstrained truth value identified by its arguments"""
    return var(mkT("bit", app(name, (0, 1), *args), 0))


def selfty(c):
    t = targ(c, 0)
    return c.ip.TY[t]["s"] if t is not None else ""


def site(c):
    """identifies the calling instance"""
    return I(hash_str("|".join(str(x) for x in c.fr.chain) + "@" + str(getattr(c.fr, "cur", ""))))


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


# ---------------------------------------------------------------- formatting
def lit_bytes(s):
    if s.op != "seq":
        return None
    out = bytearray()
    for g in s.a[0]:
        if g.op == "e" and g.a[0].op == "int":
            out.append(g.a[0].a[0])
        elif g.op == "rep" and g.a[0].op == "int" and g.a[1].op == "int":
            out += bytes([g.a[0].a[0]]) * g.a[1].a[0]
        else:
            return None
    return bytes(out)


@mre(r"core::fmt::rt::Argument::<'_>::new_(\w+)", r"core::fmt::rt::Argument::<'_>::(from_usize|none)")
def _fmtarg(c):
    kind = (c.f.get("rpath") or c.f["path"]).rsplit("::", 1)[1]
    v = c.a[0] if c.a else UNIT
    if has_mref(v):
        v = c.ip.deref(c.st, v) if v.op == "mref" else strip(c, v)
    ty = ty_of(c, 0)
    s = c.ip.TY[ty]["s"] if ty is not None else ""
    return agg("fmtarg", 0, (app("kind:" + kind + ":" + s, None), v))


@mre(r"core::fmt::Arguments::<'a>::(new|from_str|from_str_nonconst|new_const|new_v1|new_v1_formatted)")
def _fmtargs(c):
    n = (c.f.get("rpath") or c.f["path"]).rsplit("::", 1)[1]
    if n.startswith("from_str"):
        return agg("fmtargs", 0, (UNIT, c.s(0)))
    return agg("fmtargs", 0, (c.s(0), c.s(1) if len(c.a) > 1 else EMPTY))


def fmt_text(c, v):
    """the text a format_args!() value produces"""
    v = strip(c, v)
    if v.op == "mux":
        return mapt(v, lambda x: fmt_text(c, x))
    if v.op != "agg" or v.a[0] != "fmtargs":
        return opaque_seq("fmt", (0, 255), v)
    tpl, args = v.a[2]
    if tpl is UNIT:
        return args
    t = lit_bytes(tpl)
    items = []
    if args.op == "seq":
        for g in args.a[0]:
            if g.op != "e":
                items = None
                break
            items.append(g.a[0])
    else:
        items = None
    if t is None or items is None:
        return opaque_seq("fmt", (0, 255), v)
    out = []
    i = 0
    nx = 0
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(seq_of([I(x) for x in t[i:i + b]]))
            i += b
        elif b == 0x80:
            n = t[i] | t[i + 1] << 8
            i += 2
            out.append(seq_of([I(x) for x in t[i:i + n]]))
            i += n
        elif b >= 0xC0:
            opts = b & 0x3F
            spec = []
            if opts & 1:
                spec.append(int.from_bytes(t[i:i + 4], "little"))
                i += 4
            if opts & 2:
                spec.append(int.from_bytes(t[i:i + 2], "little"))
                i += 2
            if opts & 4:
                spec.append(int.from_bytes(t[i:i + 2], "little"))
                i += 2
            if opts & 8:
                nx = int.from_bytes(t[i:i + 2], "little")
                i += 2
            if nx >= len(items):
                return opaque_seq("fmt", (0, 255), v)
            out.append(fmt_one(c, items[nx], tuple(spec)))
            nx += 1
        else:
            return opaque_seq("fmt", (0, 255), v)
    return cat(*out) if out else EMPTY


def fmt_one(c, a, spec):
    if a.op != "agg" or a.a[0] != "fmtarg":
        return opaque_seq("fmt1", (0, 255), a)
    kind = a.a[2][0].a[0]
    v = strip(c, a.a[2][1])
    if not spec and kind.split(":")[1] == "new_display":
        s = kind.split(":", 2)[2].lstrip("&")
        if s in ("str", "std::string::String", "alloc::string::String", "String") or v.op == "seq":
            return c.ip.seqof(v)
    return opaque_seq("fmt1", (0, 255), a, *[I(x) for x in spec])


@m("alloc::fmt::format", "alloc::fmt::format::format_inner")
def _format(c):
    return fmt_text(c, c.a[0])


@mre(r"<.* as alloc::string::(Spec)?ToString>::(spec_)?to_string")
def _to_string(c):
    v = strip(c, c.a[0])
    if v.op == "seq" or v.op == "mux" and all(x.op == "seq" for x in terminals(v)):
        return c.ip.seqof(v)
    if has_mref(v):
        return FALL
    ty = targ(c, 0)
    return opaque_seq("tostring", (0, 255), app("ty:" + (c.ip.TY[ty]["s"] if ty is not None else ""), None), v)


@m("<alloc::string::String as core::fmt::Write>::write_str", "<alloc::string::String as core::fmt::Write>::write_char")
def _sw(c):
    s = c.s(0)
    x = c.s(1) if c.f["path"].endswith("str") else models.utf8_of_char(c.a[1])
    c.write(0, cat(s, x))
    return ok(UNIT)


@m("core::fmt::Write::write_fmt", "<alloc::string::String as core::fmt::Write>::write_fmt")
def _sfmt(c):
    ty = targ(c, 0)
    if ty is not None and c.ip.TY[ty].get("path") == "alloc::string::String":
        c.write(0, cat(c.s(0), fmt_text(c, c.a[1])))
        return ok(UNIT)
    return FALL


def fmt_res(c):
    return ite(atom("fmterr"), err(agg("core::fmt::Error", 0, ())), ok(UNIT))


@mre(r"core::fmt::Formatter::<'a>::(write_str|write_fmt|write_char|pad|pad_integral|debug_\w+_finish|debug_c_like_enum_write_str)", r"core::fmt::builders::Debug\w+::<'a, 'b>::(finish|finish_non_exhaustive)",
     r"<core::fmt::Formatter<.*> as core::fmt::Write>::(write_str|write_char|write_fmt)",
     r"(<.* as core::fmt::(Debug|Display|LowerHex|UpperHex)>|core::fmt::num::.*|core::fmt::impls::.*|core::(array|tuple|slice|str|bool|char|ops)::.*fmt.*)::fmt", r"core::fmt::(Debug|Display|LowerHex|UpperHex|Octal|Binary|Pointer)::fmt")
def _formatter(c):
    i = c.f.get("inst")
    if i is not None and "body" in c.ip.IN[i] and c.ip.IN[i].get("local"):
        return FALL
    return fmt_res(c)


@mre(r"core::fmt::Formatter::<'a>::(debug_struct|debug_tuple|debug_list|debug_set|debug_map)")
def _builder(c):
    return agg("fmtbuilder", 0, ())


@mre(r"core::fmt::builders::Debug\w+::<'a, 'b>::(field|entry|entries|key|value|field_with|entry_with)")
def _builder2(c):
    return c.a[0]


@mre(r"core::fmt::Formatter::<'a>::(alternate|sign_plus|sign_minus|sign_aware_zero_pad)")
def _fmtflag(c):
    return atom("fmtflag:" + c.f["path"].rsplit("::", 1)[1])


# ---------------------------------------------------------------- io
IOERR = "core::io::error::Error"


def io_err(c, name, *args):
    return err(app(name, None, *args))


def wr(c, data, done):
    c.write(0, cat(c.s(0), data))


def is_vec_writer(c):
    t = targ(c, 0)
    if t is None:
        return False
    ty = c.ip.TY[t]
    while ty["k"] == "ref":
        ty = c.ip.TY[ty["elem"]]
    return ty.get("path") == "alloc::vec::Vec"


def wdepth(c):
    """writers may be handed over as references to references"""
    r = c.a[0]
    n = 0
    v = c.ip.deref(c.st, r)
    while n < 6 and v.op in ("mref", "mux") and all(x.op == "mref" for x in terminals(v)):
        r = v
        v = c.ip.deref(c.st, r)
        n += 1
    return r, v


@mre(r"(alloc|std)::io::impls::<impl (core|std)::io::(write::)?Write for alloc::vec::Vec<u8, A>>::(write|write_all|flush|write_vectored)", r"(core|std)::io::(write::)?Write::(write|write_all|flush|write_fmt|by_ref)",
     r"(core|alloc|std)::io::impls::<impl (core|std)::io::(write::)?Write for &mut W>::(write|write_all|flush|write_fmt)",
     r"<(core|std)::io::cursor::Cursor<.*> as (core|std)::io::(write::)?Write>::(write|write_all|flush|write_fmt)")
def _write(c):
    n = c.f["path"].rsplit("::", 1)[1]
    vec = is_vec_writer(c)
    if n == "by_ref":
        return c.a[0]
    if n == "write_vectored":
        return FALL
    r, old = wdepth(c)
    if old.op == "agg" and old.a[0] == CUR:
        return cursor_write(c, n, r, old)
    if old.op == "agg" and not vec:
        return FALL
    s = c.ip.seqof(old)
    wf = c.ip.cfg.get("wfail") and not vec
    here = (I(hash_str(str(c.fr.chain))), seq_len(s))
    failed = atom("wfail:" + n, *here) if wf else FALSE
    if wf:
        c.ev("wfail", n, (), failed)
    if n == "flush":
        return ite(failed, io_err(c, "ioerr"), ok(UNIT)) if wf else ok(UNIT)
    data = fmt_text(c, c.a[1]) if n == "write_fmt" else c.s(1)
    L = seq_len(data)
    if n == "write" and wf:
        k = app("wshort", (0, LENMAX), *here)
        k = min_(k, L)
        c.ev("wshort", n, (k, L), lt(k, L))
        c.ip.rwrite(c.fr, c.st, r, cat(s, seq_slice(data, I(0), k)))
        return ite(failed, io_err(c, "ioerr"), ok(k))
    c.ip.rwrite(c.fr, c.st, r, cat(s, data))
    if n == "write":
        return ok(L)
    return ite(failed, io_err(c, "ioerr"), ok(UNIT)) if wf else ok(UNIT)


CUR = "core::io::cursor::Cursor"


@mre(r"(core|std)::io::cursor::Cursor::<T>::(new|into_inner|get_ref|get_mut|position|set_position)")
def _cursor(c):
    n = c.f["path"].rsplit("::", 1)[1]
    if n == "new":
        # kept as the distance to the end, which stays 0 while things are appended
        return agg(CUR, 0, (c.a[0], seq_len(c.ip.seqof(cursor_inner(c, c.a[0])[1]))))
    if n == "into_inner":
        return c.ip.fld(c.a[0], 0)
    if n == "get_mut":
        return FALL
    if n == "get_ref":
        return c.ip.subref(c.a[0], ("f", 0, None))
    cur = c.d(0)
    inner = c.ip.fld(cur, 0)
    ln = seq_len(c.ip.seqof(cursor_inner(c, inner)[1]))
    if n == "position":
        return sub(ln, c.ip.fld(cur, 1))
    c.write(0, agg(CUR, 0, (inner, sub(ln, c.a[1]))))
    return UNIT


def cursor_inner(c, inner):
    ir = None
    while inner.op == "mref":
        ir, inner = inner, c.ip.deref(c.st, inner)
    return ir, inner


def cursor_write(c, n, r, old):
    """a cursor overwrites from its position on; over a vector it grows, over a slice it is bounded"""
    if old.op != "agg" or n not in ("write", "write_all", "write_fmt", "flush"):
        return FALL
    if n == "flush":
        return ok(UNIT)
    ir, inner = cursor_inner(c, old.a[2][0])
    s = c.ip.seqof(inner)
    pos = sub(seq_len(s), old.a[2][1])
    t = c.ip.TY[targ(c, 0)]
    while t["k"] == "ref":
        t = c.ip.TY[t["elem"]]
    t = c.ip.TY[t["args"][0]]
    while t["k"] == "ref":
        t = c.ip.TY[t["elem"]]
    grows = t.get("path") == "alloc::vec::Vec"
    data = fmt_text(c, c.a[1]) if n == "write_fmt" else c.s(1)
    full, ln = seq_len(data), seq_len(s)
    if not grows:
        data = seq_slice(data, I(0), min_(full, max0(sub(ln, pos))))
    k = seq_len(data)
    head = seq_slice(s, I(0), min_(pos, ln))
    gap = max0(sub(pos, ln))
    new = cat(head, rep(I(0), gap), data, seq_slice(s, min_(add(pos, k), ln), max0(sub(ln, add(pos, k)))))
    nl = seq_len(new)
    if ir is not None:
        c.ip.rwrite(c.fr, c.st, ir, new)
        new = old.a[2][0]
    c.ip.rwrite(c.fr, c.st, r, agg(CUR, 0, (new, sub(nl, add(pos, k)))))
    if n == "write":
        return ok(k)
    return ok(UNIT) if grows else ite(eq(k, full), ok(UNIT), io_err(c, "ioerr"))


# ---------------------------------------------------------------- digests, macs, ciphers
def hname(s):
    for k, n, l in (("Md4", "md4", 16), ("Md5", "md5", 16), ("Sha1", "sha1", 20), ("Sha256", "sha256", 32)):
        if k in s:
            return n, l
    return None


def dstate(name, s):
    return agg("digest:" + name, 0, (s,))


@mre(r"<.* as digest::(digest::)?Digest>::(\w+)", r"digest::digest::Digest::(\w+)", r"<.* as digest::(FixedOutput|Update|FixedOutputReset|Reset)>::(\w+)")
def _digest(c):
    n = c.f["path"].rsplit("::", 1)[1]
    h = hname(selfty(c))
    if h is None:
        return FALL
    name, ln = h
    hs = lambda s: fixed_seq(name, ln, s)
    if n == "new":
        return dstate(name, EMPTY)
    if n == "new_with_prefix":
        return dstate(name, c.s(0))
    if n == "digest":
        return hs(c.s(0))
    if n == "output_size":
        return I(ln)
    ref = c.a[0].op in ("mref",) or c.a[0].op == "mux" and all(x.op == "mref" for x in terminals(c.a[0]))
    st = c.d(0) if ref else c.a[0]
    cur = c.ip.fld(st, 0)
    if n == "update":
        c.write(0, dstate(name, cat(cur, c.s(1))))
        return UNIT
    if n == "chain_update" or n == "chain":
        return dstate(name, cat(cur, c.s(1)))
    if n in ("finalize", "finalize_fixed"):
        return hs(cur)
    if n in ("finalize_reset", "finalize_fixed_reset"):
        c.write(0, dstate(name, EMPTY))
        return hs(cur)
    if n in ("finalize_into", "finalize_into_reset"):
        if n.endswith("reset"):
            c.write(0, dstate(name, EMPTY))
        c.write(1, hs(cur))
        return UNIT
    if n == "reset":
        c.write(0, dstate(name, EMPTY))
        return UNIT
    return FALL


@mre(r"<.* as digest::mac::Mac>::(\w+)", r"digest::mac::Mac::(\w+)", r"<hmac::.* as (crypto_common|digest)::.*>::(new|new_from_slice|update|finalize_fixed)", r"<digest::core_api::wrapper::CoreWrapper<.*> as crypto_common::KeyInit>::(new|new_from_slice)")
def _mac(c):
    n = c.f["path"].rsplit("::", 1)[1]
    s = selfty(c)
    h = hname(s)
    if h is None or "mac" not in s.lower():
        return FALL
    name, ln = "hmac_" + h[0], h[1]
    stt = lambda k, d: agg("mac:" + name, 0, (k, d))
    if n in ("new", "new_from_slice"):
        v = stt(c.s(0), EMPTY)
        return v if n == "new" else ok(v)
    ref = c.a[0].op == "mref" or c.a[0].op == "mux" and all(x.op == "mref" for x in terminals(c.a[0]))
    st = c.d(0) if ref else c.a[0]
    key, cur = c.ip.fld(st, 0), c.ip.fld(st, 1)
    out = lambda: fixed_seq(name, ln, key, cur)
    if n == "update":
        c.write(0, stt(key, cat(cur, c.s(1))))
        return UNIT
    if n == "chain_update":
        return stt(key, cat(cur, c.s(1)))
    if n == "finalize":
        return agg("ctout", 0, (out(),))
    if n == "finalize_fixed":
        return out()
    if n == "finalize_reset":
        c.write(0, stt(key, EMPTY))
        return agg("ctout", 0, (out(),))
    if n == "reset":
        c.write(0, stt(key, EMPTY))
        return UNIT
    if n in ("verify_slice", "verify"):
        good = c.ip.seq_eq(out(), c.s(1))
        return ite(good, ok(UNIT), err(app("macerr", None)))
    return FALL


@mre(r"digest::mac::CtOutput::<T>::(into_bytes|new)", r"<digest::mac::CtOutput<.*>.* as core::convert::From<.*>>::from")
def _ctout(c):
    if c.f["path"].endswith("::new"):
        return agg("ctout", 0, (c.a[0],))
    v = c.a[0]
    return c.ip.fld(v, 0)


@mre(r"<.* as (crypto_common|cipher)::.*KeyInit>::(new|new_from_slice|new_from_slices)", r"crypto_common::KeyInit::(new|new_from_slice)")
def _keyinit(c):
    s = selfty(c)
    n = c.f["path"].rsplit("::", 1)[1]
    k = c.s(0)
    if "rc4" in s.lower():
        v = agg("rc4", 0, (k, I(0)))
        need = None
    elif "des" in s.lower() and "tdes" not in s.lower():
        v = agg("des", 0, (k,))
        need = 8
    else:
        return FALL
    if n == "new":
        return v
    if need is None:
        t = c.ip.TY[targ(c, 0)]
        good = rc4_keylen(c)
        if good is None:
            return FALL
        good = eq(seq_len(k), I(good))
    else:
        good = eq(seq_len(k), I(need))
    return ite(good, ok(v), err(agg("crypto_common::InvalidLength", 0, ())))


def rc4_keylen(c):
    s = selfty(c)
    import re
    bits = re.findall(r"typenum::(?:bit::)?B([01])", s)
    if not bits:
        return None
    v = 0
    for b in bits:
        v = v * 2 + int(b)
    return v


@mre(r"cipher::stream::StreamCipher::(apply_keystream|try_apply_keystream|apply_keystream_b2b)", r"<.* as cipher::stream::StreamCipher>::(apply_keystream|try_apply_keystream)")
def _rc4(c):
    if not c.f["path"].endswith("apply_keystream") or "rc4" not in selfty(c).lower():
        return FALL
    st = c.d(0)
    key, pos = c.ip.fld(st, 0), c.ip.fld(st, 1)
    data = c.s(1)
    t = app("rc4", None, key, pos, data)
    set_elem_range(t, (0, 255))
    L = seq_len(data)
    c.write(1, span(t, I(0), L))
    c.write(0, agg("rc4", 0, (key, add(pos, L))))
    if c.f["path"].endswith("try_apply_keystream"):
        return ok(UNIT)
    return UNIT


def des_key(k):
    """DES ignores the low bit of every key byte: clear it"""
    n = seq_len(k)
    if n.op != "int":
        return k
    return seq_of([frombits((FALSE,) + tuple(tobits(seq_at(k, I(i)), 8)[1:])) for i in range(n.a[0])])


@mre(r"cipher::block::BlockEncrypt::(encrypt_block)", r"<des::.* as cipher::block::BlockEncrypt>::encrypt_block", r"cipher::block::BlockDecrypt::decrypt_block")
def _des(c):
    if "des" not in selfty(c).lower() or "tdes" in selfty(c).lower():
        return FALL
    k = c.ip.fld(c.d(0), 0)
    b = c.s(1)
    name = "des" if "encrypt" in c.f["path"] else "undes"
    c.write(1, fixed_seq(name, 8, des_key(k), b))
    return UNIT


# ---------------------------------------------------------------- time
NS = 10 ** 9
TMAX = (2 ** 63 - 1) * NS + NS - 1
TMIN = -(2 ** 63) * NS
DMAX = (2 ** 64 - 1) * NS + NS - 1
D = r"core::time::Duration::"


def mul2(x, y):
    return mul(x, y)


@mre(D + r"(from_secs|from_millis|from_micros|from_nanos|from_mins|from_hours)")
def _dfrom(c):
    k = {"from_secs": NS, "from_millis": 10 ** 6, "from_micros": 1000, "from_nanos": 1, "from_mins": 60 * NS, "from_hours": 3600 * NS}[c.f["path"].rsplit("::", 1)[1]]
    return mulc(c.a[0], k)


@mre(D + r"new")
def _dnew(c):
    v = add(mulc(c.a[0], NS), c.a[1])
    c.panic(lt(I(DMAX), v), "overflow in Duration::new")
    return v


@mre(D + r"(as_secs|as_millis|as_micros|as_nanos|subsec_nanos|subsec_micros|subsec_millis)")
def _das(c):
    n = c.f["path"].rsplit("::", 1)[1]
    v = c.d(0) if c.a[0].op in ("vref", "mref") else c.a[0]
    v = dexp(v)
    if n.startswith("as_"):
        return mapt(v, lambda x: div_c(x, {"as_secs": NS, "as_millis": 10 ** 6, "as_micros": 1000, "as_nanos": 1}[n]))
    r = mapt(v, lambda x: rem_c(x, NS))
    return mapt(r, lambda x: div_c(x, {"subsec_nanos": 1, "subsec_micros": 1000, "subsec_millis": 10 ** 6}[n]))


def dexp(v):
    return v


def dval(c, i):
    v = c.a[i]
    while v.op in ("vref", "mref"):
        v = c.ip.deref(c.st, v)
    return v


@mre(D + r"(checked_add|checked_sub|checked_mul|checked_div|saturating_sub|saturating_add|saturating_mul|is_zero|abs_diff)")
def _dops(c):
    n = c.f["path"].rsplit("::", 1)[1]
    a = dval(c, 0)
    if n == "is_zero":
        return eq(a, I(0))
    b = dval(c, 1)
    if n == "checked_div":
        if b.op == "int" and b.a[0] > 0:
            return some(div_c(a, b.a[0]))
        return FALL
    v = {"add": add, "sub": sub, "mul": mul2, "abs_diff": sub}[n.split("_")[-1] if n != "abs_diff" else n](a, b)
    if n == "abs_diff":
        return ite(ge0(v), v, sub(I(0), v))
    if n.startswith("saturating"):
        return ite(lt(v, I(0)), I(0), ite(lt(I(DMAX), v), I(DMAX), v))
    return ite(AND(ge0(v), le_(v, I(DMAX))), some(v), NONE)


@mre(r"<core::time::Duration as core::ops::arith::(Add|Sub|Mul<u32>|Div<u32>|AddAssign|SubAssign)>::\w+", r"<u32 as core::ops::arith::Mul<core::time::Duration>>::mul")
def _darith(c):
    n = c.f["path"].rsplit("::", 1)[1]
    a, b = dval(c, 0), dval(c, 1)
    if n == "div":
        if b.op == "int" and b.a[0] > 0:
            return div_c(a, b.a[0])
        return FALL
    v = {"add": add, "sub": sub, "mul": mul2}[n.split("_")[0]](a, b)
    c.panic(OR(lt(v, I(0)), lt(I(DMAX), v)), "overflow in a Duration operation")
    if n.endswith("assign"):
        c.write(0, v)
        return UNIT
    return v


@mre(r"<core::time::Duration as core::cmp::.*>::(\w+)", r"<std::time::SystemTime as core::cmp::.*>::(\w+)")
def _dcmp(c):
    n = c.f["path"].rsplit("::", 1)[1]
    a, b = dval(c, 0), dval(c, 1)
    r = {"eq": lambda: eq(a, b), "ne": lambda: NOT(eq(a, b)), "lt": lambda: lt(a, b), "le": lambda: le_(a, b), "gt": lambda: lt(b, a), "ge": lambda: le_(b, a),
         "max": lambda: ite(lt(a, b), b, a), "min": lambda: ite(lt(b, a), b, a)}.get(n)
    if r:
        return r()
    o = ite(lt(a, b), agg(ORD, 0, ()), ite(eq(a, b), agg(ORD, 1, ()), agg(ORD, 2, ())))
    return some(o) if n == "partial_cmp" else o if n == "cmp" else FALL


@m("<core::time::Duration as core::default::Default>::default")
def _ddef(c):
    return I(0)


@m("std::time::SystemTime::now")
def _now(c):
    t = c.ip.fresh("now", (0, TMAX))
    c.ev("clock", "SystemTime::now", [t])
    return t


def st_err(v):
    return err(agg("std::time::SystemTimeError", 0, (v,)))


@mre(r"std::time::SystemTime::(duration_since|elapsed|checked_add|checked_sub|saturating_\w+)")
def _systime(c):
    n = c.f["path"].rsplit("::", 1)[1]
    a = dval(c, 0)
    if n == "elapsed":
        t = c.ip.fresh("now", (0, TMAX))
        c.ev("clock", "SystemTime::elapsed", [t])
        v = sub(t, a)
        return ite(ge0(v), ok(v), st_err(sub(I(0), v)))
    b = dval(c, 1)
    if n == "duration_since":
        v = sub(a, b)
        return ite(ge0(v), ok(v), st_err(sub(I(0), v)))
    v = add(a, b) if n == "checked_add" else sub(a, b)
    if n.startswith("checked"):
        return ite(AND(le_(I(TMIN), v), le_(v, I(TMAX))), some(v), NONE)
    return FALL


@m("std::time::SystemTimeError::duration")
def _sterr(c):
    return c.ip.fld(c.d(0), 0)


@mre(r"<std::time::SystemTime as core::ops::arith::(Add|Sub|AddAssign|SubAssign)<core::time::Duration>>::\w+")
def _starith(c):
    n = c.f["path"].rsplit("::", 1)[1]
    a, b = dval(c, 0), dval(c, 1)
    v = add(a, b) if n.startswith("add") else sub(a, b)
    c.panic(OR(lt(v, I(TMIN)), lt(I(TMAX), v)), "overflow when computing a SystemTime")
    if n.endswith("assign"):
        c.write(0, v)
        return UNIT
    return v


# ---------------------------------------------------------------- environment, files, output, logging, randomness
def pathkey(c, i):
    try:
        return c.s(i)
    except Exception:
        return strip(c, c.a[i])


@m("std::env::var", "std::env::var_os")
def _env(c):
    k = pathkey(c, 0)
    name = c.f["path"]
    c.ev("env", name, (k,))
    good = atom("env_ok", k)
    v = opaque_seq("env", (0, 255), k)
    if name.endswith("os"):
        return ite(good, some(v), NONE)
    return ite(good, ok(v), err(app("env_err", None, k)))


@mre(r"std::fs::(read_to_string|read)")
def _read(c):
    k = pathkey(c, 0)
    c.ev("fsread", c.f["path"], (k,))
    return ite(atom("fs_ok", k), ok(opaque_seq("file", (0, 255), k)), err(app("fs_err", None, k)))


@mre(r"std::io::stdio::_(eprint|print)")
def _print(c):
    c.ev("print", c.f["path"], (fmt_text(c, c.a[0]), fmt_raw(c, c.a[0])))
    return UNIT


def fmt_raw(c, v):
    return strip(c, v)


@m("log::max_level")
def _maxlevel(c):
    r = UNDEF
    t = app("log_max_level", (0, 5))
    for i in reversed(range(6)):
        a = agg("log::LevelFilter", i, ())
        r = a if r is UNDEF else ite(eq(t, I(i)), a, r)
    return r


@mre(r"<log::(Level|LevelFilter) as core::cmp::(PartialOrd|PartialEq)<log::(Level|LevelFilter)>>::(\w+)", r"<log::(Level|LevelFilter) as core::cmp::(PartialOrd|PartialEq|Ord)>::(\w+)")
def _levelcmp(c):
    n = c.f["path"].rsplit("::", 1)[1]

    def num(i):
        v = strip(c, c.a[i])
        return mapt(v, lambda x: I(x.a[1] + (1 if x.a[0] == "log::Level" else 0)) if x.op == "agg" else app("lvl", (0, 5), x))
    a, b = num(0), num(1)
    r = {"eq": lambda: eq(a, b), "ne": lambda: NOT(eq(a, b)), "lt": lambda: lt(a, b), "le": lambda: le_(a, b), "gt": lambda: lt(b, a), "ge": lambda: le_(b, a)}.get(n)
    if r:
        return r()
    o = ite(lt(a, b), agg(ORD, 0, ()), ite(eq(a, b), agg(ORD, 1, ()), agg(ORD, 2, ())))
    return some(o) if n == "partial_cmp" else o if n == "cmp" else FALL


@mre(r"log::__private_api::log(_impl)?")
def _log(c):
    c.ev("log", "log", tuple(strip(c, a) for a in c.a))
    return UNIT


@mre(r"log::__private_api::(loc|enabled)")
def _logx(c):
    if c.f["path"].endswith("enabled"):
        return atom("log_enabled")
    return agg("loc", 0, ())


@mre(r"<rand_core::os::OsRng as rand_core::RngCore>::(fill_bytes|try_fill_bytes|next_u32|next_u64)")
def _osrng(c):
    n = c.f["path"].rsplit("::", 1)[1]
    if n.startswith("next"):
        w = int(n[6:])
        t = c.ip.fresh("rand", (0, (1 << w) - 1))
        c.ev("fresh", "OsRng", (t,))
        return t
    L = seq_len(c.s(1))
    t = c.ip.fresh("rand")
    set_elem_range(t, (0, 255))
    c.ev("fresh", "OsRng", (t, L))
    c.write(1, span(t, I(0), L))
    return ok(UNIT) if n.startswith("try") else UNIT


# ---------------------------------------------------------------- generic parameters of the library itself
@m("NtlmVersion::version")
def _version(c):
    v = c.ip.cfg.get("version")
    if v is None:
        return app("version", c.ip.trange(c.dty))
    return I(v)


@mre(r"messages::Wire::(serialize_into|serialize)", r"messages::Wire::deserialize")
def _wire(c):
    if "inst" in c.f:
        return FALL
    n = c.f["path"].rsplit("::", 1)[1]
    if n == "deserialize":
        inp = c.s(0)
        ety = None
        good = atom("gen_ok", inp)
        used = app("gen_used", (0, LENMAX), inp)
        c.st.pc = c.st.pc
        u = min_(used, seq_len(inp))
        tt = targ(c, 0)
        v = app("gen_val", c.ip.trange(tt) if tt is not None else None, inp)
        return ite(good, ok(agg("tuple", 0, (vref(seq_slice(inp, u, sub(seq_len(inp), u))), v))), err(agg("nom::internal::Err", 1, (app("nomE", None),))))
    v = strip(c, c.a[0])
    data = opaque_seq("wire", (0, 255), v)
    if n == "serialize":
        return ok(data)
    r = c.a[1]
    cur = c.ip.deref(c.st, r)
    k = 0
    while k < 6 and cur.op == "mref":
        r, cur = cur, c.ip.deref(c.st, cur)
        k += 1
    s = c.ip.seqof(cur)
    wf = c.ip.cfg.get("wfail")
    failed = atom("wfail:gen", I(hash_str(str(c.fr.chain))), seq_len(s)) if wf else FALSE
    if wf:
        c.ev("wfail", "serialize_into", (), failed)
    c.ip.rwrite(c.fr, c.st, r, cat(s, data))
    return ite(failed, io_err(c, "ioerr"), ok(seq_len(data)))


@mre(r"core::convert::(Into::into|From::from|AsRef::as_ref|TryInto::try_into)", r"core::clone::Clone::clone", r"alloc::string::ToString::to_string", r"alloc::borrow::ToOwned::to_owned", r"core::borrow::Borrow::borrow")
def _generic(c):
    if "inst" in c.f:
        return FALL
    v = strip(c, c.a[0])
    if has_mref(v):
        return FALL
    t = targ(c, 0)
    if c.f["path"].endswith("clone"):
        return v
    if c.dty is not None and c.ip.TY[c.dty].get("s") == (c.ip.TY[t]["s"] if t is not None else None):
        return c.a[0]
    n = c.f["path"]
    d = c.ip.TY[c.dty]
    if d["k"] == "ref":
        return vref(c.ip.expand(d["elem"], app("gen:" + n, None, v)))
    return c.ip.expand(c.dty, app("gen:" + n + ":" + d["s"], c.ip.trange(c.dty), v))


# ---------------------------------------------------------------- nom leaves
@mre(r"nom::error::(ParseError|ContextError|FromExternalError)::(from_error_kind|append|or|add_context|from_char|from_external_error)")
def _nomerr(c):
    if "inst" in c.f and "body" in c.ip.IN[c.f["inst"]]:
        return FALL
    return app("nomE", None)


NERR = "nom::internal::Err"


def nom_err():
    return err(agg(NERR, 1, (app("nomE", None),)))


@mre(r"nom::number::complete::((le|be)_[ui](8|16|24|32|64|128)|[ui]8)")
def _nomnum(c):
    n = (c.f.get("rpath") or c.f["path"]).rsplit("::", 1)[1]
    e, w = (n.split("_") if "_" in n else ("le", n))
    signed = w[0] == "i"
    nb = int(w[1:]) // 8
    inp = c.s(0)
    L = seq_len(inp)
    good = le_(I(nb), L)
    et = None
    d = c.ip.TY[c.dty]
    e_ = err(agg(NERR, 1, (nomE(c),)))
    if AND(good, c.st.pc) is FALSE:
        return e_
    bs = [seq_at(inp, I(i)) for i in range(nb)]
    if e == "be":
        bs = bs[::-1]
    v = le_of(seq_of(bs))
    if signed:
        v = c.ip.wrap(v, nb * 8, True)
    return ite(good, ok(agg("tuple", 0, (vref(seq_slice(inp, I(nb), sub(L, I(nb)))), v))), e_)


def nomE(c):
    """the error value: unit for E = (), one opaque value otherwise (its content never matters)"""
    for t in c.f.get("targs") or []:
        if c.ip.TY[t]["k"] == "tuple" and not c.ip.TY[t]["fields"]:
            return UNIT
    return app("nomE", None)


@mre(r"<&(?:'a )?(\[u8\]|str) as nom::traits::Compare<.*>>::compare")
def _nomcmp(c):
    a, b = c.s(0), c.s(1)
    lb = seq_len(b)
    if lb.op != "int":
        return FALL
    la = seq_len(a)
    mism = OR(*[AND(lt(I(i), la), NOT(eq(seq_at(a, I(i)), seq_at(b, I(i))))) for i in range(lb.a[0])]) if lb.a[0] else FALSE
    CR = "nom::traits::CompareResult"
    return ite(mism, agg(CR, 2, ()), ite(le_(lb, la), agg(CR, 0, ()), agg(CR, 1, ())))


@m("core::slice::memchr::memchr")
def _memchr(c):
    s = c.s(1)
    k = fresh_k()
    n = seq_len(s)
    b = eq(seq_at(s, k), c.a[0])
    cond = any_(k, n, b)
    return ite(cond, some(first_(k, n, b)), NONE)
