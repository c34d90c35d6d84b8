"""What the standard library and the crypto crates do, for functions whose body is not interpreted."""
import re
from terms import *
import terms
from interp import OPT, RES, NONE, UNIT, some, ok, err, agg, RAW, St, merge, Ctx, Unsupported, under, has_mref


class _Fall:
    pass


FALL = _Fall()
EXACT = {}
PATTERNS = []
ORD = "core::cmp::Ordering"


def m(*paths):
    def deco(fn):
        for p in paths:
            EXACT[p] = fn
        return fn
    return deco


def mre(*pats):
    def deco(fn):
        for p in pats:
            PATTERNS.append((re.compile(p + r"\Z"), fn))
        return fn
    return deco


_cache = {}


def find(ip, f, path, rpath):
    key = (path, rpath)
    r = _cache.get(key, 0)
    if r != 0:
        return r
    r = None
    for p in (rpath, path):
        if p is None:
            continue
        r = EXACT.get(p)
        if r is None:
            for rx, fn in PATTERNS:
                if rx.match(p):
                    r = fn
                    break
        if r is not None:
            break
    _cache[key] = r
    return r


def ty_of(c, i):
    return c.at[i] if c.at and i < len(c.at) else None


def targ(c, i):
    t = c.f.get("targs") or []
    return t[i] if i < len(t) else None


def size_of(ip, ty, align=False):
    """size (or alignment) of a type in bytes, None if unknown"""
    t = ip.TY[ty]
    k = t["k"]
    if "size" in t and t["size"] is not None and not align:
        return t["size"]
    if k in ("uint", "int"):
        return t["bits"] // 8
    if k == "bool":
        return 1
    if k == "char":
        return 4
    if k == "array" and t["len"] is not None:
        s = size_of(ip, t["elem"], align)
        return s if align or s is None else s * t["len"]
    if k in ("ref", "ptr"):
        e = ip.TY[t["elem"]]["k"]
        return 8 if align else 16 if e in ("slice", "str") else 8
    if k == "tuple" or k == "adt" and t.get("kind") == "struct" and "variants" in t:
        fs = t["fields"] if k == "tuple" else [f["t"] for f in t["variants"][0]["f"]]
        al, tot = 1, 0
        for f in fs:
            a, s = size_of(ip, f, True), size_of(ip, f)
            if a is None or s is None:
                return None
            al = max(al, a)
            tot += s
        if align:
            return al
        return (tot + al - 1) // al * al
    return None


# ---------------------------------------------------------------- unknown things
def opaque_const(ip, fr, st, c):
    n = c.get("n") or c.get("name") or c.get("d") or ""
    ty = c.get("t")
    s = ip.TY[ty]["s"] if ty is not None else ""
    if "UNIX_EPOCH" in str(c.get("n", "")) or "UNIX_EPOCH" in n:
        return I(0)
    if "IS_ZST" in n:
        return FALSE
    t = ip.TY[ty] if ty is not None else None
    if t is not None and t.get("path") == OPT and "0x0" in str(c.get("d", "")) and "Scalar(0x0000000000000000)" in str(c.get("d", "")):
        return NONE
    if t is not None and t["k"] == "ref" and ip.TY[t["elem"]].get("path", "").startswith("log::LevelFilter"):
        return vref(agg("log::LevelFilter", 5, ()))
    if t is not None and t["k"] == "tuple" and not t["fields"]:
        return UNIT
    if t is not None and t["k"] == "adt" and t.get("kind") == "struct" and t.get("variants") and not t["variants"][0]["f"]:
        return agg(t["path"], 0, ())
    ip.event(fr, st, "unknown", "constant %s: %s" % (s, str(n)[:60]))
    return ip.expand(ty, app("const:" + str(n), ip.trange(ty))) if ty is not None else app("const:" + str(n), None)


def unknown_call(c):
    ip = c.ip
    name = c.f.get("rpath") or c.f.get("path") or "?"
    c.ev("unknown", "call " + name)
    args = []
    for i, a in enumerate(c.a):
        if a.op == "mref" or has_mref(a):
            v = ip.deref(c.st, a) if a.op in ("mref", "vref", "mux") else a
            args.append(v)
        else:
            args.append(a)
    args = [a for a in args if not has_mref(a)]
    for i, a in enumerate(c.a):
        havoc(c, a, name, args, i)
    d = ip.TY[c.dty] if c.dty is not None else None
    if d is not None and d["k"] == "never":
        c.panic(TRUE, "call " + name)
        return None
    if d is not None and d["k"] == "tuple" and not d["fields"]:
        return UNIT
    r = app("call:" + name, ip.trange(c.dty) if c.dty is not None else None, *args)
    return ip.expand(c.dty, r) if c.dty is not None else r


def havoc(c, a, name, args, i):
    if a.op == "mref":
        old = c.ip.deref(c.st, a)
        new = app("upd:%s#%d" % (name, i), None, *args)
        if old.op == "seq" or old.op == "mux" and any(x.op == "seq" for x in terminals(old)):
            new = c.ip.as_seq(new)
        c.ip.rwrite(c.fr, c.st, a, new)
    elif a.op == "mux":
        for x in terminals(a):
            havoc(c, x, name, args, i)
    elif a.op == "agg":
        for x in a.a[2]:
            havoc(c, x, name, args, i)


def drop_impls(ip):
    r = getattr(ip, "_drops", None)
    if r is None:
        r = set()
        for x in ip.P.roots:
            if x.get("trait") == "core::ops::drop::Drop" and x.get("self") is not None:
                r.add(ip.TY[x["self"]].get("path"))
        ip._drops = r
    return r


def ptr_cast(ip, fr, st, v, sty, ty):
    """pointer to pointer cast; sequences of integers are reinterpreted little-endian when the width changes"""
    a = ip.TY[sty] if sty is not None else None
    b = ip.TY[ty]
    if a is None:
        return v
    return recast(ip, fr, st, v, a.get("elem"), b.get("elem"))


def scalar_bits(ip, ty):
    t = ip.TY[ty]
    if t["k"] in ("slice", "array"):
        return scalar_bits(ip, t["elem"])
    if t["k"] == "str":
        return 8
    if t["k"] in ("uint", "int"):
        return t["bits"]
    return None


def recast(ip, fr, st, v, e1, e2):
    if e1 is None or e2 is None or e1 == e2:
        return v
    w1, w2 = scalar_bits(ip, e1), scalar_bits(ip, e2)
    if w1 is None or w2 is None or w1 == w2:
        return v
    if v.op == "mux":
        return mapt(v, lambda x: recast(ip, fr, st, x, e1, e2))
    if v.op == "mref":
        ip.event(fr, st, "unknown", "mutable pointer reinterpretation")
        return v
    s = ip.seqof(ip.deref(st, v))
    if w1 > 8 and w2 == 8:
        return vref(units_to_bytes(s, w1 // 8))
    ip.event(fr, st, "unknown", "pointer reinterpretation %d -> %d bits" % (w1, w2))
    return vref(ip.as_seq(app("reinterpret%d" % w2, None, s)))


def units_to_bytes(s, w):
    """little-endian bytes of a sequence of w-byte integers"""
    n = seq_len(s)
    if n.op == "int" and n.a[0] <= 64:
        out = []
        for i in range(n.a[0]):
            x = seq_at(s, I(i))
            out += [byte(x, j) for j in range(w)]
        return seq_of(out)
    parts = []
    for g in s.a[0] if s.op == "seq" else ():
        one = mkT("seq", (g,))
        if g.op == "e":
            parts.append(seq_of([byte(g.a[0], j) for j in range(w)]))
        else:
            k = fresh_k()
            x = seq_at(one, k)
            parts.append(flat(k, seq_len(one), seq_of([byte(x, j) for j in range(w)])))
    return cat(*parts)


def transmute(ip, fr, st, v, sty, ty):
    if sty is None:
        return v
    a, b = ip.TY[sty], ip.TY[ty]
    if v is UNDEF:
        return v
    if a["k"] == "array" and b["k"] in ("uint", "int"):
        s = ip.seqof(v)
        if scalar_bits(ip, sty) == 8:
            r = le_of(seq_of([seq_at(s, I(i)) for i in range(b["bits"] // 8)]))
            return r if b["k"] == "uint" else ip.wrap(r, b["bits"], True)
    if a["k"] in ("uint", "int") and b["k"] == "array" and scalar_bits(ip, ty) == 8:
        return seq_of([byte(v, i) for i in range(a["bits"] // 8)])
    if a["k"] in ("uint", "char", "bool") and b["k"] in ("uint", "char"):
        return v
    if a["k"] == "uint" and b["k"] == "bool":
        return bit(v, 0)
    if b["k"] == "adt" and b.get("kind") == "struct" and b.get("variants") and len(b["variants"][0]["f"]) == 1 and a["k"] != "adt":
        f = b["variants"][0]["f"][0]["t"]
        return agg(b["path"], 0, (transmute(ip, fr, st, v, sty, f),))
    if a["k"] == "adt" and a.get("kind") == "struct" and a.get("variants") and len(a["variants"][0]["f"]) == 1 and b["k"] != "adt":
        f = a["variants"][0]["f"][0]["t"]
        return transmute(ip, fr, st, ip.fld(v, 0, None, f), f, ty)
    if a["k"] in ("ref", "ptr") and b["k"] in ("ref", "ptr"):
        return recast(ip, fr, st, v, a["elem"], b["elem"])
    if a["k"] == "array" and b["k"] == "array":
        return v
    if a["k"] == "uint" and b["k"] == "adt" and b.get("kind") == "enum":
        vs = b["variants"]
        r = agg(b["path"], 0, ())
        for i, x in enumerate(vs):
            r = ite(eq(v, I(x["d"])), agg(b["path"], i, ()), r)
        return r
    return v


# ---------------------------------------------------------------- core: mem, hint, intrinsics
@mre(r".*::precondition_check", r"core::hint::(assert_unchecked|black_box)|core::intrinsics::(assume|assert_inhabited|assert_zero_valid|cold_path).*")
def _nop(c):
    if c.f.get("path", "").endswith("black_box"):
        return c.a[0]
    return UNIT


@m("core::hint::must_use", "core::convert::identity")
def _id(c):
    return c.a[0]


@m("core::intrinsics::likely", "core::intrinsics::unlikely", "core::hint::likely", "core::hint::unlikely")
def _likely(c):
    return c.a[0]


@m("core::mem::replace")
def _replace(c):
    old = c.d(0)
    c.write(0, c.a[1])
    return old


@m("core::mem::take")
def _take(c):
    old = c.d(0)
    ty = targ(c, 0)
    new = default_of(c, ty)
    if new is None:
        return FALL
    c.write(0, new)
    return old


@m("core::mem::swap")
def _swap(c):
    a, b = c.d(0), c.d(1)
    c.write(0, b)
    c.write(1, a)
    return UNIT


@m("core::mem::drop", "core::mem::forget")
def _drop(c):
    return UNIT


def default_of(c, ty):
    ip = c.ip
    t = ip.TY[ty]
    k = t["k"]
    if k in ("uint", "int", "char"):
        return I(0)
    if k == "bool":
        return FALSE
    if k == "adt":
        if t["path"] in ("alloc::vec::Vec", "alloc::string::String"):
            return EMPTY
        if t["path"] == OPT:
            return NONE
    if k == "tuple":
        fs = [default_of(c, f) for f in t["fields"]]
        if all(f is not None for f in fs):
            return agg("tuple", 0, tuple(fs))
    if k == "array" and t["len"] is not None:
        e = default_of(c, t["elem"])
        if e is not None:
            return rep(e, I(t["len"]))
    if k == "ref" and ip.TY[t["elem"]]["k"] in ("slice", "str"):
        return vref(EMPTY)
    return None


@m("core::mem::size_of", "core::intrinsics::size_of")
def _size_of(c):
    n = size_of(c.ip, targ(c, 0))
    return I(n) if n is not None else app("sizeof:" + c.ip.TY[targ(c, 0)]["s"], (0, LENMAX))


@m("core::mem::size_of_val", "core::intrinsics::size_of_val")
def _size_of_val(c):
    t = c.ip.TY[targ(c, 0)]
    if t["k"] in ("slice", "str"):
        e = size_of(c.ip, t["elem"]) if t["k"] == "slice" else 1
        return mulc(seq_len(c.s(0)), e)
    n = size_of(c.ip, targ(c, 0))
    return I(n) if n is not None else app("sizeof:" + t["s"], (0, LENMAX))


@m("core::mem::align_of", "core::intrinsics::align_of")
def _align_of(c):
    n = size_of(c.ip, targ(c, 0), True)
    return I(n) if n is not None else app("alignof:" + c.ip.TY[targ(c, 0)]["s"], (1, 64))


@m("core::intrinsics::raw_eq")
def _raw_eq(c):
    return c.ip.val_eq(c.d(0), c.d(1))


@m("core::intrinsics::compare_bytes")
def _compare_bytes(c):
    a, b, n = c.s(0), c.s(1), c.a[2]
    e = c.ip.seq_eq(seq_slice(a, I(0), n), seq_slice(b, I(0), n))
    return ite(e, I(0), app("cmpbytes", (-255, 255), a, b, n))


@m("core::intrinsics::integer_min", "core::cmp::min", "core::cmp::Ord::min")
def _min(c):
    if not (isint(c.a[0]) and isint(c.a[1])):
        return FALL
    return ite(le_(c.a[0], c.a[1]), c.a[0], c.a[1])


@m("core::intrinsics::integer_max", "core::cmp::max", "core::cmp::Ord::max")
def _max(c):
    if not (isint(c.a[0]) and isint(c.a[1])):
        return FALL
    return ite(le_(c.a[0], c.a[1]), c.a[1], c.a[0])


@m("core::ptr::const_ptr::<impl *const T>::cast", "core::ptr::mut_ptr::<impl *mut T>::cast")
def _cast(c):
    return recast(c.ip, c.fr, c.st, c.a[0], targ(c, 0), targ(c, 1))


@m("core::ptr::const_ptr::<impl *const T>::cast_mut", "core::ptr::mut_ptr::<impl *mut T>::cast_const")
def _cast_mut(c):
    return c.a[0]


@m("core::ptr::slice_from_raw_parts", "core::slice::raw::from_raw_parts")
def _from_raw_parts(c):
    s = c.s(0)
    n = seq_len(s)
    c.ev("rawview", "from_raw_parts", (s, c.a[1], n))
    return vref(seq_slice(s, I(0), c.a[1]))


@m("core::ptr::slice_from_raw_parts_mut", "core::slice::raw::from_raw_parts_mut")
def _from_raw_parts_mut(c):
    s = c.s(0)
    c.ev("rawview", "from_raw_parts_mut", (s, c.a[1], seq_len(s)))
    if c.a[0].op == "vref":
        return vref(seq_slice(s, I(0), c.a[1]))
    return c.ip.subref(c.a[0], ("s", I(0), c.a[1]))


@m("core::slice::<impl [T]>::align_to")
def _align_to(c):
    a, b = targ(c, 0), targ(c, 1)
    if scalar_bits(c.ip, b) != 8 or scalar_bits(c.ip, a) is None:
        return FALL
    return agg("tuple", 0, (vref(EMPTY), recast(c.ip, c.fr, c.st, vref(c.s(0)), a, b), vref(EMPTY)))


# ---------------------------------------------------------------- panics
@mre(r"core::panicking::(panic|panic_fmt|panic_nounwind.*|panic_display|panic_explicit|unreachable_display|panic_str_2015|panic_bounds_check|assert_failed|assert_matches_failed|unreachable_default_msg|const_panic_fmt|panic_const.*|panic_.*)",
     r"std::rt::begin_panic.*", r"core::option::(unwrap_failed|expect_failed)", r"core::result::unwrap_failed(::unwrap_failed_inner)?", r"core::slice::index::slice_.*fail.*",
     r"core::slice::.*copy_from_slice::len_mismatch_fail.*", r"core::str::slice_error_fail.*", r"core::cell::panic_.*", r"alloc::.*::assert_failed", r"std::process::(abort|exit)", r"core::intrinsics::abort")
def _panic(c):
    msg = ""
    for a in c.a:
        x = a
        while x.op == "vref":
            x = x.a[0]
        if x.op == "seq" and all(g.op == "e" and g.a[0].op == "int" for g in x.a[0]):
            msg = bytes(g.a[0].a[0] for g in x.a[0]).decode("utf-8", "replace")
            break
    c.panic(TRUE, "%s%s" % (c.f.get("rpath") or c.f.get("path"), (": " + msg) if msg else ""))
    return None


# ---------------------------------------------------------------- numbers
NUM = re.compile(r"core::num::(?:\w+::)?<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::(\w+)\Z")


def numty(p):
    mm = NUM.match(p or "")
    if not mm:
        return None
    n, op = mm.groups()
    w = 64 if n.endswith("size") else int(n[1:])
    return w, n[0] == "i", op


def wrap_range(w, signed):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)


def over(r, w, signed):
    lo, hi = wrap_range(w, signed)
    bad = FALSE
    if rng(r)[0] < lo:
        bad = OR(bad, ge0(sub(I(lo - 1), r)))
    if rng(r)[1] > hi:
        bad = OR(bad, ge0(add(r, I(-hi - 1))))
    return bad


@mre(r"core::num::(?:\w+::)?<impl \w+>::\w+")
def _num(c):
    info = numty(c.f.get("rpath")) or numty(c.f.get("path"))
    if info is None:
        return FALL
    w, sg, op = info
    a = c.a
    ip = c.ip
    if op in ("to_le_bytes", "to_ne_bytes"):
        return seq_of([byte(a[0], i) for i in range(w // 8)]) if not sg else FALL
    if op == "to_be_bytes":
        return seq_of([byte(a[0], i) for i in reversed(range(w // 8))])
    if op in ("from_le_bytes", "from_ne_bytes"):
        s = ip.seqof(a[0])
        r = le_of(seq_of([seq_at(s, I(i)) for i in range(w // 8)]))
        return ip.wrap(r, w, sg)
    if op == "from_be_bytes":
        s = ip.seqof(a[0])
        r = le_of(seq_of([seq_at(s, I(i)) for i in reversed(range(w // 8))]))
        return ip.wrap(r, w, sg)
    if op in ("to_le", "from_le"):
        return a[0]
    if op in ("swap_bytes", "to_be", "from_be"):
        return le_of(seq_of([byte(a[0], i) for i in reversed(range(w // 8))]))
    if sg and op not in ("checked_add", "checked_sub", "checked_mul", "wrapping_add", "wrapping_sub"):
        return FALL
    mm = re.match(r"(checked|wrapping|saturating|overflowing|unchecked|strict|carrying)_(add|sub|mul|shl|shr|neg|div|rem|add_signed|pow|div_euclid|rem_euclid)\Z", op)
    if mm:
        how, base = mm.groups()
        if base in ("add", "sub", "mul"):
            r = {"add": add, "sub": sub, "mul": mul}[base](a[0], a[1])
            bad = over(r, w, sg)
            if how == "checked":
                return ite(bad, NONE, some(r))
            if how == "wrapping":
                return ip.wrap(r, w, sg)
            if how == "unchecked":
                return r
            if how == "overflowing":
                return agg("tuple", 0, (ip.wrap(r, w, sg), bad))
            if how == "strict":
                c.panic(bad, "attempt to %s with overflow" % base)
                return r
            if how == "saturating":
                lo, hi = wrap_range(w, sg)
                x = r
                if rng(r)[1] > hi:
                    x = ite(ge0(add(r, I(-hi - 1))), I(hi), x)
                if rng(r)[0] < lo:
                    x = ite(ge0(sub(I(lo - 1), r)), I(lo), x)
                return x
        if base in ("shl", "shr"):
            r = ip.binop(c.fr, c.st, "Shl" if base == "shl" else "Shr", a[0], a[1], _uty(ip, w))
            bad = NOT(lt(a[1], I(w)))
            if how == "checked":
                return ite(bad, NONE, some(r))
            if how in ("wrapping", "unchecked"):
                return r
            if how == "overflowing":
                return agg("tuple", 0, (r, bad))
        if base in ("div", "rem", "div_euclid", "rem_euclid") and how in ("checked", "wrapping"):
            z = eq(a[1], I(0))
            if a[1].op == "int" and a[1].a[0] != 0:
                r = (div_c if base.startswith("div") else rem_c)(a[0], a[1].a[0])
            else:
                r = app(base[:3], wrap_range(w, sg), a[0], a[1])
            if how == "checked":
                return ite(z, NONE, some(r))
            c.panic(z, "attempt to divide by zero")
            return r
        return FALL
    if op == "count_ones":
        return sum_terms([(b if isint(b) else ite(b, I(1), I(0)), 1) for b in tobits(a[0], w)])
    if op == "count_zeros":
        return sum_terms([(I(w), 1)] + [(ite(b, I(1), I(0)), -1) for b in tobits(a[0], w)])
    if op == "reverse_bits":
        return frombits(tuple(reversed(tobits(a[0], w))))
    if op in ("rotate_left", "rotate_right") and a[1].op == "int":
        k = a[1].a[0] % w
        if op == "rotate_right":
            k = (w - k) % w
        b = tobits(a[0], w)
        return frombits(tuple(b[(i - k) % w] for i in range(w)))
    if op == "is_power_of_two":
        bs = tobits(a[0], w)
        n = sum_terms([(ite(b, I(1), I(0)), 1) for b in bs])
        return eq(n, I(1))
    if op == "abs_diff":
        return ite(lt(a[0], a[1]), sub(a[1], a[0]), sub(a[0], a[1]))
    if op == "pow" and a[1].op == "int":
        r = I(1)
        for _ in range(a[1].a[0]):
            r = mul(r, a[0])
        c.panic(over(r, w, sg), "attempt to multiply with overflow")
        return r
    if op == "div_ceil" and a[1].op == "int" and a[1].a[0]:
        return div_c(add(a[0], I(a[1].a[0] - 1)), a[1].a[0])
    if op == "next_multiple_of" and a[1].op == "int" and a[1].a[0]:
        return mulc(div_c(add(a[0], I(a[1].a[0] - 1)), a[1].a[0]), a[1].a[0])
    if op == "is_multiple_of" and a[1].op == "int" and a[1].a[0]:
        return eq(rem_c(a[0], a[1].a[0]), I(0))
    if op in ("is_ascii",):
        return lt(c.d(0), I(128))
    if op in ("to_ascii_uppercase", "to_ascii_lowercase"):
        return ascii_case(c.d(0), op.endswith("uppercase"))
    if op.startswith("is_ascii_"):
        return FALL
    if op in ("min_value", "max_value"):
        return I(wrap_range(w, sg)[0 if op == "min_value" else 1])
    return FALL


def _uty(ip, w):
    return ip.P.by_s.get("u%d" % w)


def ascii_case(x, up):
    if x.op == "mux":
        return mapt(x, lambda y: ascii_case(y, up))
    lo, hi = (97, 122) if up else (65, 90)
    d = -32 if up else 32
    return ite(AND(le_(I(lo), x), le_(x, I(hi))), add(x, I(d)), x)


@m("core::num::nonzero::NonZero::<T>::new")
def _nz_new(c):
    t = c.ip.TY[c.dty]
    nz = t["args"][0]
    p = c.ip.TY[nz].get("path", "core::num::nonzero::NonZero")
    return ite(eq(c.a[0], I(0)), NONE, some(agg(p, 0, (c.a[0],))))


@m("core::num::nonzero::NonZero::<T>::get")
def _nz_get(c):
    v = c.a[0]
    return c.ip.fld(v, 0, None, c.dty)


@mre(r"core::convert::num::.*::try_from", r"core::convert::num::ptr_try_from_impls::.*::try_from")
def _int_try_from(c):
    t = c.ip.TY[c.dty]
    w, sg = c.ip.width(t["args"][0])
    lo, hi = wrap_range(w, sg)
    bad = OR(ge0(add(c.a[0], I(-hi - 1))), ge0(sub(I(lo - 1), c.a[0])))
    return ite(bad, err(agg("core::num::error::TryFromIntError", 0, (UNIT,))), ok(c.a[0]))


@mre(r"core::convert::num::<impl core::convert::From<\w+> for \w+>::from")
def _int_from(c):
    v = c.a[0]
    if isbool(v) and not v.op == "int":
        return v
    return v


# ---------------------------------------------------------------- primitive trait impls
@mre(r"core::clone::impls::<impl core::clone::Clone for .*>::clone", r"<alloc::string::String as core::clone::Clone>::clone",
     r"<alloc::vec::Vec<T, A> as core::clone::Clone>::clone", r"core::clone::impls::.*::clone")
def _clone(c):
    # element types are plain data: a derived or library clone yields an equal value
    return c.d(0)


@m("core::default::Default::default")
def _default(c):
    rp = c.f.get("rpath") or ""
    inst = c.f.get("inst")
    if inst is not None and "body" in c.ip.IN[inst]:
        return FALL
    r = default_of(c, c.dty)
    return r if r is not None else FALL


@mre(r"core::tuple::<impl core::default::Default for .*>::default", r"core::array::.*Default.*::default")
def _default2(c):
    r = default_of(c, c.dty)
    return r if r is not None else FALL


@m("<T as core::borrow::Borrow<T>>::borrow", "<T as core::borrow::BorrowMut<T>>::borrow_mut", "core::borrow::<impl core::borrow::Borrow<T> for &T>::borrow")
def _borrow(c):
    return c.a[0]


@mre(r"<T as alloc::borrow::ToOwned>::to_owned", r"alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned", r"alloc::slice::<impl alloc::borrow::ToOwned for \[T\]>::to_owned",
     r"alloc::slice::<impl \[T\]>::(to_vec|into_vec)", r"<alloc::string::String as core::convert::From<&.*>>::from", r"<alloc::vec::Vec<T.*> as core::convert::From<&.*>>::from",
     r"alloc::slice::.*::to_vec", r"alloc::string::<impl alloc::string::ToString for str>::to_string", r"<str as alloc::string::(Spec)?ToString>::(spec_)?to_string",
     r"<alloc::boxed::Box<.*> as core::convert::From<&.*>>::from", r"alloc::str::<impl str>::into_string", r"alloc::string::String::from_str")
def _to_owned(c):
    v = c.a[0]
    v = c.ip.deref(c.st, v, ty_of(c, 0)) if v.op in ("vref", "mref", "mux") or v.op in RAW else v
    while v.op == "vref":
        v = v.a[0]
    if c.dty is not None and c.ip.is_seq(c.dty):
        return c.ip.seqof(v)
    return v


@mre(r"<alloc::vec::Vec<.*> as core::convert::From<\[.*\]>>::from", r"<alloc::vec::Vec<.*> as core::convert::From<alloc::(boxed|string).*>>::from", r"<alloc::string::String as core::convert::From<(char|alloc::.*)>>::from",
     r"<alloc::boxed::Box<.*> as core::convert::From<.*>>::from", r"alloc::string::String::into_(bytes|boxed_str)", r"alloc::vec::Vec::<T, A>::into_boxed_slice", r"alloc::slice::<impl \[T\]>::into_vec",
     r"alloc::boxed::Box::<T>::new", r"alloc::boxed::box_new", r"alloc::boxed::.*::into_(vec|string)", r"alloc::(slice|boxed)::box_assume_init_into_vec_unsafe", r"alloc::boxed::Box::<.*>::(write|assume_init|new_uninit.*)")
def _into_seq(c):
    v = c.a[-1] if c.a else UNDEF
    p = c.f.get("rpath") or ""
    if "From<char>" in p:
        return utf8_of_char(c, v)
    if "new_uninit" in p:
        # a cell of its own: vec![..] writes through a pointer to it
        c.ip.nfresh += 1
        key = (c.fr.depth, "box%d" % c.ip.nfresh)
        c.st.set(key, UNDEF)
        c.ip.keyty[key] = c.ip.TY[c.dty]["args"][0]
        return mkT("mref", key[0], key[1], ())
    if v.op == "mref" and str(v.a[1]).startswith("box"):
        v = c.ip.deref(c.st, v)
        while v.op == "agg" and v.a[0].endswith(("::MaybeUninit", "::ManuallyDrop", "::MaybeDangling")):
            v = v.a[2][-1]
    while v.op == "vref":
        v = v.a[0]
    return v


@mre(r"core::cmp::impls::<impl core::cmp::PartialEq.*>::(eq|ne)", r"<alloc::string::String as core::cmp::PartialEq.*>::(eq|ne)", r"alloc::vec::partial_eq::.*::(eq|ne)",
     r"alloc::string::<impl core::cmp::PartialEq.*>::(eq|ne)", r"core::slice::cmp::<impl core::cmp::PartialEq.*>::(eq|ne)", r"core::array::equality::.*::(eq|ne)", r"core::str::traits::<impl core::cmp::PartialEq.*>::(eq|ne)",
     r"core::slice::cmp::.*SlicePartialEq.*::equal", r"<\w+ as core::cmp::PartialEq>::(eq|ne)", r"core::tuple::<impl core::cmp::PartialEq.*>::(eq|ne)", r"<core::cmp::Ordering as core::cmp::PartialEq>::eq")
def _eq(c):
    t = ty_of(c, 0)
    t = c.ip.TY[t] if t is not None else {}
    while t.get("k") == "ref":
        t = c.ip.TY[t["elem"]]
    if t.get("local") and "for &" in (c.f.get("rpath") or ""):
        return FALL
    r = deep_eq(c, c.a[0], c.a[1])
    return NOT(r) if (c.f.get("rpath") or "").endswith("::ne") else r


def deep_eq(c, a, b):
    ip, st = c.ip, c.st
    a, b = strip(c, a), strip(c, b)
    return ip.val_eq(a, b)


def strip(c, a):
    n = 0
    while n < 8 and (a.op in ("vref", "mref") or a.op == "mux" and all(x.op in ("vref", "mref") for x in terminals(a))):
        a = c.ip.deref(c.st, a)
        n += 1
    return a


@mre(r"core::cmp::impls::<impl core::cmp::(PartialOrd|Ord) for .*>::(lt|le|gt|ge|cmp|partial_cmp)")
def _ord(c):
    op = (c.f.get("rpath") or "").rsplit("::", 1)[1]
    a, b = strip(c, c.a[0]), strip(c, c.a[1])
    if not (isint(a) and isint(b)):
        return FALL
    if op in ("cmp", "partial_cmp"):
        r = ite(lt(a, b), agg(ORD, 0, ()), ite(eq(a, b), agg(ORD, 1, ()), agg(ORD, 2, ())))
        return some(r) if op == "partial_cmp" else r
    return {"lt": lt(a, b), "le": le_(a, b), "gt": lt(b, a), "ge": le_(b, a)}[op]


# ---------------------------------------------------------------- Vec / String / slices
V = r"alloc::vec::Vec::<T(?:, A)?>::"
S = r"alloc::string::String::"
SL = r"(?:core|alloc)::slice::(?:\w+::)?<impl \[T\]>::"
STR = r"(?:core|alloc)::str::(?:\w+::)?<impl str>::"


@mre(V + r"(new|with_capacity|new_in|with_capacity_in)", S + r"(new|with_capacity)", r"<alloc::(string::String|vec::Vec<.*>) as core::default::Default>::default")
def _vnew(c):
    return EMPTY


@mre(V + r"len", S + r"len", SL + r"len", STR + r"len", r"core::ptr::.*::len")
def _vlen(c):
    return seq_len(c.s(0))


@mre(V + r"is_empty", S + r"is_empty", SL + r"is_empty", STR + r"is_empty")
def _vempty(c):
    return eq(seq_len(c.s(0)), I(0))


@mre(V + r"(as_slice|as_ptr|deref)", S + r"(as_str|as_bytes|deref)", STR + r"(as_bytes|as_ptr)", SL + r"(as_ptr|as_slice)", r"<alloc::(string::String|vec::Vec<.*>) as core::ops::deref::Deref>::deref",
     r"<alloc::(string::String|vec::Vec<.*>|boxed::Box<.*>) as core::(convert::AsRef|borrow::Borrow)<.*>>::(as_ref|borrow)", r"alloc::slice::<impl core::borrow::Borrow<.*>::borrow", r"alloc::str::<impl core::borrow::Borrow<.*>::borrow",
     r"core::array::<impl core::(convert::AsRef|borrow::Borrow)<.*>::(as_ref|borrow)", r"core::array::<impl \[T; N\]>::as_slice", r"core::slice::<impl core::convert::AsRef<.*>::as_ref", r"core::str::.*<impl core::convert::AsRef<.*>::as_ref", r"core::convert::impls::.*AsRef.*::as_ref",
     r"<\[T\] as core::convert::AsRef<\[T\]>>::as_ref", r"<str as core::convert::AsRef<.*>>::as_ref", r"generic_array::GenericArray::<T, N>::as_slice", r"<generic_array::GenericArray<T, N> as core::ops::deref::Deref>::deref",
     r"generic_array::impls::<impl core::(convert::AsRef|borrow::Borrow)<.*>::(as_ref|borrow)", r"generic_array::hex::.*|generic_array::GenericArray::<T, N>::from_slice", r"generic_array::.*::as_ref")
def _view(c):
    a = c.a[0]
    if a.op in ("mref", "mux") or a.op in RAW:
        return vref(c.s(0))
    return vref(c.s(0)) if a.op == "vref" else a


@mre(V + r"(as_mut_slice|as_mut_ptr)", r"<alloc::(string::String|vec::Vec<.*>) as core::ops::deref::DerefMut>::deref_mut", SL + r"as_mut_ptr", r"<alloc::vec::Vec<.*> as core::(convert::AsMut|borrow::BorrowMut)<.*>>::(as_mut|borrow_mut)",
     r"core::array::<impl core::(convert::AsMut|borrow::BorrowMut)<.*>::(as_mut|borrow_mut)", r"core::array::<impl \[T; N\]>::as_mut_slice", r"generic_array::GenericArray::<T, N>::(as_mut_slice)", r"<generic_array::GenericArray<T, N> as core::ops::deref::DerefMut>::deref_mut",
     r"core::slice::<impl core::convert::AsMut<.*>::as_mut", r"<\[T\] as core::convert::AsMut<\[T\]>>::as_mut", r"generic_array::.*::as_mut")
def _viewm(c):
    return c.a[0]


@m("generic_array::GenericArray::<T, N>::from_mut_slice")
def _ga_from_mut(c):
    return c.a[0]


@mre(r"generic_array::impls::<impl core::convert::From<\[T; \d+\]> for .*>::from", r"generic_array::impls::<impl core::convert::From<&.*>::from", r"generic_array::GenericArray::<T, N>::(clone_from_slice)", r"generic_array::impls::<impl core::convert::From<generic_array.*::from", r"generic_array::impls::.*Into<.*>::into", r"<generic_array::GenericArray<.*> as core::convert::From<.*>>::from")
def _ga_from(c):
    p = c.f.get("rpath") or ""
    if p.endswith("clone_from_slice"):
        n = ga_len(c, c.dty)
        s = c.s(0)
        if n is not None:
            c.panic(NOT(eq(seq_len(s), I(n))), "GenericArray::clone_from_slice of a slice of the wrong length")
        return s
    v = c.a[0]
    if v.op in ("vref", "mref") and c.ip.TY[c.dty]["k"] != "ref":
        return c.s(0)
    return v


def typenum(s):
    """value of a typenum type name"""
    mm = re.fullmatch(r"(?:\w+::)*(UTerm|B0|B1|UInt<(.*)>)", s)
    if not mm:
        return None
    if mm.group(1) == "UTerm":
        return 0
    if mm.group(1) in ("B0", "B1"):
        return int(mm.group(1)[1])
    inner = mm.group(2)
    d = 0
    for i, ch in enumerate(inner):
        d += ch == "<"
        d -= ch == ">"
        if ch == "," and d == 0:
            a, b = typenum(inner[:i].strip()), typenum(inner[i + 1:].strip())
            return None if a is None or b is None else a * 2 + b
    return None


def ga_len(c, ty):
    t = c.ip.TY[ty]
    while t["k"] in ("ref", "ptr"):
        t = c.ip.TY[t["elem"]]
    if t.get("path") == "generic_array::GenericArray":
        return typenum(c.ip.TY[t["args"][1]]["s"])
    return None


@mre(r"generic_array::.*Default.*::default", r"<generic_array::GenericArray<.*> as core::default::Default>::default")
def _ga_default(c):
    n = ga_len(c, c.dty)
    return rep(I(0), I(n)) if n is not None else FALL


@mre(V + r"push", S + r"push")
def _push(c):
    s = c.s(0)
    if (c.f.get("rpath") or "").startswith("alloc::string"):
        c.write(0, cat(s, utf8_of_char(c, c.a[1])))
    else:
        c.write(0, cat(s, seq_of([c.a[1]])))
    return UNIT


@mre(V + r"push_mut")
def _push_mut(c):
    s = c.s(0)
    c.write(0, cat(s, seq_of([c.a[1]])))
    return c.ip.subref(c.a[0], ("i", seq_len(s)))


@mre(V + r"(extend_from_slice|append)", S + r"push_str", r"alloc::vec::Vec::<T, A>::spec_extend.*", r"alloc::vec::.*SpecExtend<&.*slice::.*Iter.*>>::spec_extend")
def _extend_slice(c):
    if (c.f.get("rpath") or "").endswith("spec_extend"):
        return FALL
    x = c.s(1)
    c.write(0, cat(c.s(0), x))
    if (c.f.get("rpath") or "").endswith("::append"):
        c.write(1, EMPTY)
    return UNIT


@mre(V + r"extend_from_within", )
def _extend_within(c):
    s = c.s(0)
    r = range_of(c, c.a[1], seq_len(s))
    if r is None:
        return FALL
    lo, hi, bad = r
    c.panic(bad, "range out of bounds")
    c.write(0, cat(s, seq_slice(s, lo, sub(hi, lo))))
    return UNIT


@mre(V + r"clear", S + r"clear")
def _vclear(c):
    c.write(0, EMPTY)
    return UNIT


@mre(V + r"(reserve|reserve_exact|shrink_to_fit|shrink_to|set_capacity)", S + r"(reserve|reserve_exact|shrink_to_fit)")
def _vreserve(c):
    return UNIT


@mre(V + r"try_reserve(_exact)?", S + r"try_reserve(_exact)?")
def _vtryreserve(c):
    return ok(UNIT)


@mre(V + r"capacity", S + r"capacity")
def _vcap(c):
    n = seq_len(c.s(0))
    return add(n, app("spare", (0, LENMAX), n))


@mre(V + r"set_len")
def _set_len(c):
    s = c.s(0)
    c.ev("set_len", "Vec::set_len", (s, c.a[1]))
    n = seq_len(s)
    c.write(0, cat(seq_slice(s, I(0), min_(n, c.a[1])), c.ip.as_seq(app("uninit", None, s), None, max0(sub(c.a[1], n)))))
    return UNIT


@mre(V + r"truncate", S + r"truncate")
def _vtruncate(c):
    s = c.s(0)
    n = seq_len(s)
    if c.a[1] is I(0):
        c.write(0, EMPTY)
        return UNIT
    c.write(0, ite_seq(lt(c.a[1], n), seq_slice(s, I(0), min_(c.a[1], n)), s))
    return UNIT


@mre(V + r"resize")
def _vresize(c):
    s = c.s(0)
    n = seq_len(s)
    new = c.a[1]
    grow = cat(s, rep(c.a[2], max0(sub(new, n))))
    c.write(0, ite_seq(le_(n, new), grow, seq_slice(s, I(0), min_(new, n))))
    return UNIT


@mre(V + r"insert")
def _vinsert(c):
    s = c.s(0)
    n = seq_len(s)
    c.panic(lt(n, c.a[1]), "insertion index out of bounds")
    c.write(0, cat(seq_slice(s, I(0), c.a[1]), seq_of([c.a[2]]), seq_slice(s, c.a[1], sub(n, c.a[1]))))
    return UNIT


@mre(S + r"insert(_str)?")
def _sinsert(c):
    s = c.s(0)
    n = seq_len(s)
    x = c.s(2) if (c.f.get("rpath") or "").endswith("_str") else utf8_of_char(c, c.a[2])
    c.panic(NOT(char_boundary(c, s, c.a[1])), "insertion index is not a character boundary")
    c.write(0, cat(seq_slice(s, I(0), c.a[1]), x, seq_slice(s, c.a[1], sub(n, c.a[1]))))
    return UNIT


@mre(V + r"(remove|swap_remove)")
def _vremove(c):
    s = c.s(0)
    n = seq_len(s)
    c.panic(le_(n, c.a[1]), "removal index out of bounds")
    x = c.ip.elem(s, c.a[1], ty_of(c, 0))
    if (c.f.get("rpath") or "").endswith("swap_remove"):
        return FALL
    c.write(0, cat(seq_slice(s, I(0), c.a[1]), seq_slice(s, add(c.a[1], I(1)), sub(add(n, I(-1)), c.a[1]))))
    return x


@mre(V + r"pop")
def _vpop(c):
    s = c.s(0)
    n = seq_len(s)
    e = eq(n, I(0))
    x = c.ip.elem(s, add(n, I(-1)), ty_of(c, 0))
    c.write(0, ite_seq(e, EMPTY, seq_slice(s, I(0), max0(add(n, I(-1))))))
    return ite(e, NONE, some(x))


@mre(V + r"(split_off)")
def _vsplit_off(c):
    s = c.s(0)
    n = seq_len(s)
    c.panic(lt(n, c.a[1]), "split_off index out of bounds")
    c.write(0, seq_slice(s, I(0), c.a[1]))
    return seq_slice(s, c.a[1], sub(n, c.a[1]))


@mre(V + r"drain")
def _vdrain(c):
    s = c.s(0)
    n = seq_len(s)
    r = range_of(c, c.a[1], n)
    if r is None:
        return FALL
    lo, hi, bad = r
    c.panic(bad, "drain range out of bounds")
    c.write(0, cat(seq_slice(s, I(0), lo), seq_slice(s, hi, sub(n, hi))))
    return mkiter(seq_slice(s, lo, sub(hi, lo)), 1)


def range_of(c, r, n):
    """(start, end, out of bounds) of a range value"""
    if r.op != "agg":
        return None
    p = r.a[0]
    f = r.a[2]
    if p == "core::ops::range::Range" or p == "core::range::Range":
        lo, hi = f
    elif p in ("core::ops::range::RangeFrom", "core::range::RangeFrom"):
        lo, hi = f[0], n
    elif p == "core::ops::range::RangeTo":
        lo, hi = I(0), f[0]
    elif p == "core::ops::range::RangeFull":
        lo, hi = I(0), n
    elif p in ("core::ops::range::RangeInclusive", "core::range::RangeInclusive"):
        lo, hi = f[0], add(f[1], I(1))
    elif p in ("core::ops::range::RangeToInclusive", "core::range::RangeToInclusive"):
        lo, hi = I(0), add(f[0], I(1))
    else:
        return None
    bad = OR(lt(n, hi), lt(hi, lo))
    return lo, hi, bad


def index_common(c, str_, mutable, get, how=None):
    """slice indexing: returns the reference (or Option of it)"""
    s = c.s(0)
    n = seq_len(s)
    ix = c.a[1]
    if isint(ix):
        bad = le_(n, ix)
        step = ("i", ix)
        if mutable and c.a[0].op != "vref":
            v = c.ip.subref(c.a[0], step)
        else:
            v = vref(c.ip.elem(s, ix, ty_of(c, 0)))
    else:
        r = range_of(c, ix, n)
        if r is None:
            return FALL
        lo, hi, bad = r
        if str_:
            bad = OR(bad, NOT(char_boundary(c, s, lo)), NOT(char_boundary(c, s, hi)))
        if mutable and c.a[0].op != "vref":
            v = c.ip.subref(c.a[0], ("s", lo, sub(hi, lo)))
        else:
            v = vref(under_len(s, lo, sub(hi, lo), bad))
    if get:
        return ite(bad, NONE, some(v))
    c.panic(bad, how or ("str" if str_ else "slice") + " index out of range")
    return v


def under_len(s, lo, n, bad):
    return under(seq_slice(s, lo, n), NOT(bad)) if bad is not TRUE else EMPTY


@mre(r"<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index", r"core::slice::index::<impl core::ops::index::Index<I> for \[T\]>::index", r"core::array::<impl core::ops::index::Index<I> for \[T; N\]>::index")
def _index(c):
    return index_common(c, False, False, False)


@mre(r"<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut", r"core::slice::index::<impl core::ops::index::IndexMut<I> for \[T\]>::index_mut", r"core::array::<impl core::ops::index::IndexMut<I> for \[T; N\]>::index_mut")
def _index_mut(c):
    return index_common(c, False, True, False)


@mre(SL + r"get")
def _get(c):
    return index_common(c, False, False, True)


@mre(SL + r"get_mut")
def _get_mut(c):
    return index_common(c, False, True, True)


@mre(SL + r"get_unchecked(_mut)?")
def _get_unchecked(c):
    return index_common(c, False, (c.f.get("rpath") or "").endswith("_mut"), False, "get_unchecked outside the slice")


@mre(r"<alloc::string::String as core::ops::index::Index<.*>>::index", r"core::str::traits::<impl core::ops::index::Index<I> for str>::index")
def _sindex(c):
    return index_common(c, True, False, False)


@mre(STR + r"get")
def _sget(c):
    return index_common(c, True, False, True)


STRS = {}


def char_boundary(c, s, i):
    """is byte offset i of the string s a character boundary"""
    n = seq_len(s)
    t = OR(eq(i, I(0)), eq(i, n))
    if t is TRUE:
        return t
    # offsets produced by a search are boundaries
    if i.op in ("First",) or i in STRS:
        return TRUE
    pos = I(0)
    for g in (s.a[0] if s.op == "seq" else ()):
        if pos is i:
            return TRUE
        pos = add(pos, seg_len(g))
    c0, d = lin_parts(i)
    for x in d:
        if x in STRS:
            return TRUE
    b = None
    if s.op == "seq":
        x = seq_at(s, i)
        if rng(x)[1] < 128:
            return OR(t, lt(i, n))
        if x.op == "int":
            return OR(t, AND(lt(i, n), TRUE if (x.a[0] & 0xC0) != 0x80 else FALSE))
        b = tobits(x, 8)
        return OR(t, AND(lt(i, n), NOT(AND(b[7], NOT(b[6])))))
    return OR(t, var(mkT("bit", app("boundary", (0, 1), s, i), 0)))


@mre(STR + r"is_char_boundary")
def _is_cb(c):
    return char_boundary(c, c.s(0), c.a[1])


@mre(SL + r"(first|last)", )
def _first_last(c):
    s = c.s(0)
    n = seq_len(s)
    i = I(0) if (c.f.get("rpath") or "").endswith("first") else add(n, I(-1))
    return ite(eq(n, I(0)), NONE, some(vref(c.ip.elem(s, i, ty_of(c, 0)))))


@mre(SL + r"(first|last)_mut", )
def _first_last_m(c):
    s = c.s(0)
    n = seq_len(s)
    i = I(0) if (c.f.get("rpath") or "").endswith("first_mut") else add(n, I(-1))
    return ite(eq(n, I(0)), NONE, some(c.ip.subref(c.a[0], ("i", i))))


@mre(SL + r"split_(first|last)(_mut)?", )
def _split_first(c):
    s = c.s(0)
    n = seq_len(s)
    p = c.f.get("rpath") or ""
    mut_ = p.endswith("_mut")
    r = c.a[0] if mut_ else vref(s)
    m1 = add(n, I(-1))
    if "first" in p.rsplit("::", 1)[1]:
        a, b = c.ip.subref(r, ("i", I(0))), c.ip.subref(r, ("s", I(1), m1))
    else:
        a, b = c.ip.subref(r, ("i", m1)), c.ip.subref(r, ("s", I(0), m1))
    return ite(eq(n, I(0)), NONE, some(agg("tuple", 0, (a, b))))


@mre(SL + r"split_at(_mut)?(_checked|_unchecked)?", STR + r"split_at(_mut)?(_checked|_unchecked)?")
def _split_at(c):
    s = c.s(0)
    n = seq_len(s)
    p = (c.f.get("rpath") or "")
    bad = lt(n, c.a[1])
    if "str>" in p:
        bad = OR(bad, NOT(char_boundary(c, s, c.a[1])))
    if "_mut" in p:
        r = agg("tuple", 0, (c.ip.subref(c.a[0], ("s", I(0), c.a[1])), c.ip.subref(c.a[0], ("s", c.a[1], sub(n, c.a[1])))))
    else:
        r = agg("tuple", 0, (vref(under_len(s, I(0), c.a[1], bad)), vref(under_len(s, c.a[1], sub(n, c.a[1]), bad))))
    if p.endswith("_checked"):
        return ite(bad, NONE, some(r))
    c.panic(bad, "split_at_unchecked outside the slice" if p.endswith("_unchecked") else "split_at index out of range")
    return r


@mre(SL + r"(copy_from_slice|clone_from_slice)")
def _copy_from(c):
    a, b = c.s(0), c.s(1)
    c.panic(NOT(eq(seq_len(a), seq_len(b))), "copy_from_slice: slices of different lengths")
    if c.st.pc is FALSE:
        return None
    c.write(0, b)
    return UNIT


@mre(SL + r"copy_within")
def _copy_within(c):
    s = c.s(0)
    n = seq_len(s)
    r = range_of(c, c.a[1], n)
    if r is None:
        return FALL
    lo, hi, bad = r
    k = sub(hi, lo)
    c.panic(OR(bad, lt(n, add(c.a[2], k))), "copy_within out of range")
    c.write(0, seq_splice_n(s, c.a[2], k, seq_slice(s, lo, k)))
    return UNIT


@mre(SL + r"fill")
def _fill(c):
    s = c.s(0)
    c.write(0, rep(c.a[1], seq_len(s)))
    return UNIT


@mre(SL + r"swap")
def _sswap(c):
    s = c.s(0)
    n = seq_len(s)
    c.panic(OR(le_(n, c.a[1]), le_(n, c.a[2])), "swap index out of range")
    x, y = seq_at(s, c.a[1]), seq_at(s, c.a[2])
    c.write(0, seq_splice(seq_splice(s, c.a[1], seq_of([y])), c.a[2], seq_of([x])))
    return UNIT


@mre(SL + r"reverse")
def _srev(c):
    s = c.s(0)
    n = seq_len(s)
    if n.op == "int" and n.a[0] <= 256:
        c.write(0, seq_of([seq_at(s, I(i)) for i in reversed(range(n.a[0]))]))
        return UNIT
    k = fresh_k()
    c.write(0, flat(k, n, seq_of([seq_at(s, sub(add(n, I(-1)), k))])))
    return UNIT


@mre(SL + r"(starts_with|ends_with)", SL + r"(strip_prefix|strip_suffix)")
def _starts(c):
    s, x = c.s(0), c.s(1)
    return mapt(s, lambda y: starts1(c, y, x)) if s.op == "mux" else starts1(c, s, x)


def starts1(c, s, x):
    n, k = seq_len(s), seq_len(x)
    p = (c.f.get("rpath") or "").rsplit("::", 1)[1]
    st_ = p in ("starts_with", "strip_prefix")
    fits = le_(k, n)
    lo = I(0) if st_ else sub(n, k)
    e = AND(fits, c.ip.seq_eq(under_len(s, lo, k, NOT(fits)), x)) if fits is not FALSE else FALSE
    if p.startswith("strip"):
        r = under_len(s, k if st_ else I(0), sub(n, k), NOT(fits))
        return ite(e, some(vref(r)), NONE)
    return e


@mre(SL + r"contains")
def _contains(c):
    s, x = c.s(0), c.d(1)
    n = seq_len(s)
    k = fresh_k()
    return any_(k, n, c.ip.val_eq(c.ip.elem(s, k, ty_of(c, 0)), x))


@mre(SL + r"(concat|join)", r"<\[V\] as alloc::slice::Concat<T>>::concat", r"<\[.*\] as alloc::slice::(Concat|Join)<.*>>::(concat|join)", r"alloc::slice::<impl \[T\]>::concat", r"alloc::(slice|str)::<impl alloc::slice::(Concat|Join)<.*> for \[.*\]>::(concat|join)")
def _concat(c):
    s = c.s(0)
    n = seq_len(s)
    sep = None
    if (c.f.get("rpath") or "").endswith("join"):
        sep = strip(c, c.a[1])
        sep = sep if sep.op in ("seq", "mux") else seq_of([sep])
    if n.op != "int" or n.a[0] > 64:
        if sep is not None:
            return FALL
        k = fresh_k()
        return flat(k, n, c.ip.seqof(strip(c, seq_at(s, k))))
    out = []
    for i in range(n.a[0]):
        if i and sep is not None:
            out.append(sep)
        out.append(c.ip.seqof(strip(c, seq_at(s, I(i)))))
    return cat(*out)


@mre(SL + r"repeat", STR + r"repeat")
def _repeat(c):
    s = c.s(0)
    n = seq_len(s)
    if n.op == "int" and n.a[0] == 1:
        return rep(seq_at(s, I(0)), c.a[1])
    k = fresh_k()
    return flat(k, c.a[1], s)


@mre(r"core::array::<impl core::convert::TryFrom<&(mut )?\[T\]> for \[T; N\]>::try_from", r"core::array::.*TryFrom<&.*\[T\]> for .*\[T; N\]>::try_from", r"alloc::vec::.*TryFrom<alloc::vec::Vec<T, A>> for \[T; N\]>::try_from", r"<\[T; N\] as core::convert::TryFrom<.*>>::try_from", r"core::array::<impl core::convert::TryFrom<.*>::try_from")
def _arr_try_from(c):
    t = c.ip.TY[c.dty]
    n = c.ip.TY[t["args"][0]]
    refd = n["k"] == "ref"
    if refd:
        n = c.ip.TY[n["elem"]]
    if n.get("len") is None:
        return FALL
    s = c.s(0) if c.a[0].op in ("vref", "mref") else c.ip.seqof(strip(c, c.a[0]))
    good = eq(seq_len(s), I(n["len"]))
    s2 = under_len(s, I(0), I(n["len"]), NOT(good))
    return ite(good, ok(vref(s2) if refd else s2), err(agg("core::array::TryFromSliceError", 0, (UNIT,))))


@mre(SL + r"(as_array|first_chunk|split_first_chunk|last_chunk|as_chunks)")
def _chunk1(c):
    p = (c.f.get("rpath") or "").rsplit("::", 1)[1]
    if p not in ("as_array", "first_chunk", "last_chunk", "split_first_chunk"):
        return FALL
    N = None
    t = c.ip.TY[c.dty]
    a = c.ip.TY[t["args"][0]]
    if a["k"] == "tuple":
        a = c.ip.TY[a["fields"][0]]
    N = c.ip.TY[a["elem"]]["len"]
    s = c.s(0)
    n = seq_len(s)
    good = eq(n, I(N)) if p == "as_array" else le_(I(N), n)
    lo = sub(n, I(N)) if p == "last_chunk" else I(0)
    x = vref(under_len(s, lo, I(N), NOT(good)))
    if p == "split_first_chunk":
        x = agg("tuple", 0, (x, vref(under_len(s, I(N), sub(n, I(N)), NOT(good)))))
    return ite(good, some(x), NONE)


@mre(r"alloc::vec::from_elem", r"<T as alloc::vec::spec_from_elem::SpecFromElem>::from_elem")
def _from_elem(c):
    return rep(c.a[0], c.a[1])


# ---------------------------------------------------------------- iterators
def mkiter(s, mode):
    return agg("iter", 0, (s, I(0), seq_len(s), I(mode)))


def mkiterm(ref, n):
    return agg("iterm", 0, (ref, I(0), n, I(0)))


ITERS = ("iter", "iterm", "iterz", "iterc", "itercm")


def is_iter(v):
    return v.op == "agg" and v.a[0] in ITERS


def it_has(v):
    if v.a[0] == "iterz":
        return AND(any_has(v.a[2][0]), any_has(v.a[2][1]))
    return lt(v.a[2][1], v.a[2][2])


RANGE = "core::ops::range::Range"
RANGEFROM = "core::ops::range::RangeFrom"


def any_has(v):
    if v.op == "agg" and v.a[0] == RANGE:
        return lt(v.a[2][0], v.a[2][1])
    if v.op == "agg" and v.a[0] == RANGEFROM:
        return TRUE
    return it_has(v)


def usable(v):
    return is_iter(v) or v.op == "agg" and v.a[0] in (RANGE, RANGEFROM)


def it_item(c, v, ity, back=False, off=None):
    """current item of an iterator value; ity: item type (or None)"""
    ip = c.ip
    if v.a[0] == RANGE or v.a[0] == RANGEFROM:
        return v.a[2][0] if off is None else add(v.a[2][0], off)
    if v.a[0] == "iterz":
        fs = ip.TY[ity]["fields"] if ity is not None and ip.TY[ity]["k"] == "tuple" else [None, None]
        return agg("tuple", 0, tuple(it_item(c, x, t, back, off) for x, t in zip(v.a[2][:2], fs)))
    s, pos, end, mode = v.a[2]
    i = add(end, I(-1)) if back else pos
    if off is not None:
        i = sub(i, off) if back else add(i, off)
    if v.a[0] == "iterm":
        return ip.subref(s, ("i", i))
    if v.a[0] in ("iterc", "itercm"):
        kind, size = mode.a[0], mode.a[1]
        total = seq_len(s) if v.a[0] == "iterc" else mode.a[2]
        lo = mul(i, size)
        if kind == "chunks":
            n = min_(size, sub(total, lo))
        elif kind == "rchunks":
            hi = sub(total, lo)
            lo = max0(sub(hi, size))
            n = sub(hi, lo)
        elif kind == "rchunks_exact":
            lo, n = sub(sub(total, lo), size), size
        else:
            n = size
        if kind == "windows":
            lo = i
        return ip.subref(s, ("s", lo, n)) if v.a[0] == "itercm" else vref(seq_slice(s, lo, n))
    x = seq_at(s, i)
    if mode is I(0):
        et = ip.TY[ity]["elem"] if ity is not None and ip.TY[ity]["k"] in ("ref", "ptr") else None
        return vref(ip.expand(et, x) if et is not None else x)
    return ip.expand(ity, x) if ity is not None else x


def it_step(v, has, back=False, by=None):
    by = I(1) if by is None else by
    if v.a[0] == RANGE:
        return agg(RANGE, 0, (ite(has, add(v.a[2][0], by), v.a[2][0]), v.a[2][1]))
    if v.a[0] == RANGEFROM:
        return agg(RANGEFROM, 0, (ite(has, add(v.a[2][0], by), v.a[2][0]),))
    if v.a[0] == "iterz":
        return agg("iterz", 0, (it_step(v.a[2][0], has, back, by), it_step(v.a[2][1], has, back, by)) + v.a[2][2:])
    s, pos, end, mode = v.a[2]
    if back:
        end = ite(has, sub(end, by), end)
    else:
        pos = ite(has, add(pos, by), pos)
    return agg(v.a[0], 0, (s, pos, end, mode))


def it_len(v):
    if v.a[0] == RANGE:
        return max0(sub(v.a[2][1], v.a[2][0]))
    if v.a[0] == RANGEFROM:
        return I(LENMAX)
    if v.a[0] == "iterz":
        return min_(it_len(v.a[2][0]), it_len(v.a[2][1]))
    return max0(sub(v.a[2][2], v.a[2][1]))


def item_ty(c):
    """item type of the iterator from an Option<Item> return type"""
    t = c.ip.TY[c.dty] if c.dty is not None else None
    if t is not None and t.get("path") == OPT:
        return t["args"][0]
    return None


def self_iter(c, i=0):
    """the iterator value an argument holds or points to, or None"""
    v = c.a[i]
    n = 0
    while v.op in ("vref", "mref") and n < 4:
        v = c.ip.deref(c.st, v)
        n += 1
    return v if is_iter(v) else None


ITN = r"(?:<.* as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator|exact_size::ExactSizeIterator)>|core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator|exact_size::ExactSizeIterator)|core::.*<impl core::iter::traits::(?:iterator|double_ended|exact_size).*>)::"


@mre(ITN + r"(next|next_back)")
def _next(c):
    v = self_iter(c)
    back = (c.f.get("path") or "").endswith("_back")
    if v is None:
        v = strip(c, c.a[0])
        if not (v.op == "agg" and v.a[0] == RANGE and isint(v.a[2][0]) and isint(v.a[2][1])) or c.a[0].op != "mref":
            return FALL
        has = lt(v.a[2][0], v.a[2][1])
        if back:
            x = add(v.a[2][1], I(-1))
            write_deep(c, 0, agg(RANGE, 0, (v.a[2][0], ite(has, x, v.a[2][1]))))
        else:
            x = v.a[2][0]
            write_deep(c, 0, it_step(v, has))
        return ite(has, some(x), NONE)
    has = it_has(v)
    ity = item_ty(c)
    write_deep(c, 0, it_step(v, has, back))
    if has is FALSE:
        return NONE
    return ite(has, some(it_item(c, v, ity, back)), NONE)


def write_deep(c, i, nv):
    """write through nested references down to the iterator"""
    r = c.a[i]
    n = 0
    while n < 4:
        v = c.ip.deref(c.st, r)
        if v.op in ("mref", "vref"):
            r = v
            n += 1
        else:
            break
    c.ip.rwrite(c.fr, c.st, r, nv)


@mre(ITN + r"(size_hint|len|count|is_empty)")
def _it_len(c):
    v = self_iter(c)
    if v is None:
        return FALL
    n = it_len(v)
    p = (c.f.get("path") or "").rsplit("::", 1)[1]
    if p == "size_hint":
        return agg("tuple", 0, (n, some(n)))
    if p == "is_empty":
        return eq(n, I(0))
    return n


@mre(ITN + r"(nth|nth_back)")
def _it_nth(c):
    v = self_iter(c)
    if v is None:
        return FALL
    back = (c.f.get("path") or "").endswith("_back")
    n = it_len(v)
    has = lt(c.a[1], n)
    item = it_item(c, v, item_ty(c), back, c.a[1])
    write_deep(c, 0, it_step(v, TRUE, back, ite(has, add(c.a[1], I(1)), n)))
    return ite(has, some(item), NONE) if has is not FALSE else NONE


@mre(ITN + r"(last)")
def _it_last(c):
    v = self_iter(c)
    if v is None:
        return FALL
    n = it_len(v)
    has = lt(I(0), n)
    return ite(has, some(it_item(c, v, item_ty(c), False, add(n, I(-1)))), NONE)


@mre(ITN + r"(__iterator_get_unchecked)")
def _it_getunchecked(c):
    v = self_iter(c)
    if v is None:
        return FALL
    return it_item(c, v, c.dty, False, c.a[1])


@mre(ITN + r"(skip|take|copied|cloned|rev|zip|step_by|chain|flat_map|flatten|fuse|by_ref|inspect|into_iter|peekable)", r"core::iter::adapters::zip::zip")
def _it_adapt(c):
    p = (c.f.get("path") or "").rsplit("::", 1)[1]
    if p in ("by_ref", "peekable", "inspect", "into_iter"):
        return FALL
    v = c.a[0]
    if p in ("flat_map", "flatten"):
        return flat_map(c, p)
    if p == "zip":
        a = v if usable(v) else as_iter(c, v, targ(c, 0))
        b = c.a[1]
        if not usable(b):
            b = into_iter_of(c, b, targ(c, 1))
        if a is None or b is None:
            return FALL
        return agg("iterz", 0, (a, b, I(0), I(0)))
    if p == "chain":
        a = as_iter(c, v, targ(c, 0))
        b = into_iter_of(c, c.a[1], targ(c, 1))
        if a is None or b is None or a.a[0] != "iter" or b.a[0] != "iter" or a.a[2][3] is not b.a[2][3]:
            return FALL
        return agg("iter", 0, (lambda s: (s, I(0), seq_len(s), a.a[2][3]))(cat(rest_seq(a), rest_seq(b))))
    if p == "rev" and v.op == "agg" and v.a[0] == RANGE and isint(v.a[2][0]):
        n = it_len(v)
        k = fresh_k()
        if n.op == "int" and n.a[0] <= 512:
            return mkiter(seq_of([add(v.a[2][0], I(i)) for i in reversed(range(n.a[0]))]), 1)
        return mkiter(flat(k, n, seq_of([sub(add(v.a[2][1], I(-1)), k)])), 1)
    if p == "step_by" and v.op == "agg" and v.a[0] == RANGE and c.a[1].op == "int" and c.a[1].a[0] > 0:
        d = c.a[1].a[0]
        n = it_len(v)
        m_ = div_c(add(n, I(d - 1)), d)
        if m_.op == "int" and m_.a[0] <= 512:
            return mkiter(seq_of([add(v.a[2][0], I(i * d)) for i in range(m_.a[0])]), 1)
        k = fresh_k()
        return mkiter(flat(k, m_, seq_of([add(v.a[2][0], mulc(k, d))])), 1)
    if not is_iter(v):
        return FALL
    n = it_len(v)
    if p == "fuse":
        return v
    if p == "skip":
        return it_step(v, TRUE, False, min_(c.a[1], n))
    if p == "take":
        if v.a[0] == "iterz":
            return agg("iterz", 0, (_take_it(v.a[2][0], c.a[1]), v.a[2][1], I(0), I(0)))
        return _take_it(v, c.a[1])
    if p in ("copied", "cloned"):
        if v.a[0] == "iter" and v.a[2][3] is I(0):
            return agg("iter", 0, v.a[2][:3] + (I(1),))
        return FALL
    if p == "rev":
        if v.a[0] == "iter":
            s = rest_seq(v)
            if n.op == "int" and n.a[0] <= 512:
                r = seq_of([seq_at(s, I(i)) for i in reversed(range(n.a[0]))])
            else:
                k = fresh_k()
                r = flat(k, n, seq_of([seq_at(s, sub(add(n, I(-1)), k))]))
            return agg("iter", 0, (r, I(0), n, v.a[2][3]))
        return FALL
    if p == "step_by" and v.a[0] == "iter" and c.a[1].op == "int" and c.a[1].a[0] > 0:
        d = c.a[1].a[0]
        s = rest_seq(v)
        m_ = div_c(add(n, I(d - 1)), d)
        if m_.op == "int" and m_.a[0] <= 512:
            r = seq_of([seq_at(s, I(i * d)) for i in range(m_.a[0])])
        else:
            k = fresh_k()
            r = flat(k, m_, seq_of([seq_at(s, mulc(k, d))]))
        return agg("iter", 0, (r, I(0), m_, v.a[2][3]))
    return FALL


def _take_it(v, n):
    if v.a[0] == RANGE:
        return agg(RANGE, 0, (v.a[2][0], add(v.a[2][0], min_(n, it_len(v)))))
    if v.a[0] == RANGEFROM:
        return agg(RANGE, 0, (v.a[2][0], add(v.a[2][0], n)))
    s, pos, end, mode = v.a[2]
    return agg(v.a[0], 0, (s, pos, add(pos, min_(n, it_len(v))), mode))


def rest_seq(v):
    s, pos, end, mode = v.a[2]
    return seq_slice(s, pos, sub(end, pos))


def next_info(c, ty):
    """callee description of <ty as Iterator>::next"""
    t = c.ip.TY[ty] if ty is not None else None
    if t is None:
        return None
    inst = t.get("next")
    oty = t.get("next_out")
    if inst is None:
        return None
    return {"path": "core::iter::traits::iterator::Iterator::next", "rpath": c.ip.IN[inst]["path"], "inst": inst, "targs": [ty]}, oty


def counted(v):
    """an iterator of which it is known whether another item follows, and that something short is gone through"""
    if not isinstance(v, T) or v.op != "agg" or v.a[0] == RANGEFROM:
        return False
    if usable(v):
        return any_has(v) is TRUE
    # an adapter around one
    return ".adapters." in v.a[0].replace("::", ".") and any(counted(x) for x in v.a[2])


def drive(c, itv, ity, cells, step, names=()):
    """loop over an iterator: step(state, cells keys, item) -> [(tag or None, state)]
    returns [(tag, state, values)]; tag 'end' when the iterator is exhausted"""
    ip, fr = c.ip, c.fr
    cl = dict(cells)
    cl["__it"] = (itv, ity)
    info = None
    if not usable(itv):
        info = next_info(c, ity)
        if info is None:
            raise Unsupported("iteration over " + (ip.TY[ity]["s"] if ity is not None else "?"))

    def body(s, keys):
        k = keys["__it"]
        v = s.get(k)
        if usable(v):
            has = any_has(v)
            it = ip.TY[ity].get("item") if ity is not None else None
            out = []
            h = AND(s.pc, has)
            e = AND(s.pc, NOT(has))
            item = it_item(c, v, it) if h is not FALSE else None
            if e is not FALSE:
                s2 = s.copy(e)
                out.append(("end", s2))
            if h is not FALSE:
                s.pc = h
                s.set(k, it_step(v, TRUE))
                out += step(s, keys, item)
            return out
        f, oty = info
        r = ip.call(fr, s, f, [mkT("mref", k[0], k[1], ())], [None], oty)
        if r is None or s.pc is FALSE:
            return []
        isn = ip.is_variant(r, 0, 2)
        out = []
        e = AND(s.pc, isn)
        if e is not FALSE and feasible(e):
            out.append(("end", s.copy(e)))
        h = AND(s.pc, NOT(isn))
        if h is not FALSE and feasible(h):
            s.pc = h
            it = ip.TY[oty]["args"][0] if oty is not None else None
            item = ip.fld(under(r, h), 0, 1, it)
            out += step(s, keys, item)
        return out
    outs = ip.py_loop(fr, c.st, cl, body)
    return outs


def finish_loop(c, outs, pick):
    """merge loop exits into c.st; pick(tag, vals) -> return value"""
    sts = []
    for t, s, vals in outs:
        s.set((c.fr.depth, "lret"), pick(t, vals))
        sts.append(s)
    mm = merge(sts, c.fr.depth, None)
    if mm is None:
        c.st.pc = FALSE
        return None
    c.st.pc, c.st.mem = mm.pc, mm.mem
    return c.st.mem.pop((c.fr.depth, "lret"))


def collect_seq(c, itv, ity, f=None, acc_ty=None, init=EMPTY):
    """append f(item) for every item"""
    if itv.op == "agg" and itv.a[0] == "iter" and itv.a[2][3] is I(1) and f is None:
        return cat(init, rest_seq(itv))
    f = f or (lambda s, x: seq_of([x]))

    def step(s, keys, item):
        s.set(keys["acc"], cat(c.ip.seqof(s.get(keys["acc"])), f(s, item)))
        return [(None, s)] if s.pc is not FALSE else []
    outs = drive(c, itv, ity, {"acc": (init, acc_ty)}, step)
    return finish_loop(c, outs, lambda t, v: v["acc"])


def as_iter(c, v, ty):
    """materialise an iterator value as an 'iter' over its items"""
    if is_iter(v):
        return v
    if v.op == "agg" and v.a[0] == RANGE and isint(v.a[2][0]):
        n = it_len(v)
        if n.op == "int" and n.a[0] <= 512:
            return mkiter(seq_of([add(v.a[2][0], I(i)) for i in range(n.a[0])]), 1)
        k = fresh_k()
        return mkiter(flat(k, n, seq_of([add(v.a[2][0], k)])), 1)
    if next_info(c, ty) is None:
        return None
    s = collect_seq(c, v, ty)
    return None if s is None else mkiter(s, 1)


def into_iter_val(c, v, ty):
    """value of IntoIterator::into_iter(v), and the iterator type"""
    if usable(v):
        return v, ty
    t = c.ip.TY[ty] if ty is not None else None
    if v.op in ("seq",) or t is not None and t["k"] != "ref" and c.ip.is_seq(ty):
        return mkiter(c.ip.seqof(v), 1), (t or {}).get("into_ty")
    if t is not None and t["k"] == "ref" and c.ip.is_seq(t["elem"]):
        if t["mut"]:
            return mkiterm(v, seq_len(c.ip.seqof(c.ip.deref(c.st, v)))), t.get("into_ty")
        return mkiter(c.ip.seqof(c.ip.deref(c.st, v, ty)), 0), t.get("into_ty")
    if v.op == "vref" and v.a[0].op == "seq":
        return mkiter(v.a[0], 0), (t or {}).get("into_ty")
    if t is not None and t.get("next") is not None:
        return v, ty
    if t is not None and t.get("into_iter") is not None:
        inst = t["into_iter"]
        f = {"path": "core::iter::traits::collect::IntoIterator::into_iter", "rpath": c.ip.IN[inst]["path"], "inst": inst, "targs": [ty]}
        r = c.ip.call(c.fr, c.st, f, [v], [ty], t["into_ty"])
        return r, t["into_ty"]
    return None, None


def into_iter_of(c, v, ty):
    r, t = into_iter_val(c, v, ty)
    if r is None:
        return None
    return as_iter(c, r, t) if not usable(r) else r


def flat_map(c, p):
    ip = c.ip
    v, ty = c.a[0], targ(c, 0)
    if p == "flat_map":
        fty = targ(c, 2)
        uty = targ(c, 1)

        def f(s, x):
            c2 = Ctx(ip, c.fr, s, c.f, c.a, c.at, c.dty)
            r = ip.call_value(c.fr, s, c.a[1], fty, [x], uty)
            if r is None:
                return EMPTY
            return expand_items(c2, r, uty)
    else:
        uty = ip.TY[ty].get("item") if ty is not None else None

        def f(s, x):
            c2 = Ctx(ip, c.fr, s, c.f, c.a, c.at, c.dty)
            return expand_items(c2, x, uty)
    s = collect_seq(c, v, ty, f)
    return None if s is None else mkiter(s, 1)


def expand_items(c, r, uty):
    """items of an IntoIterator value as a sequence"""
    if uty is not None and c.ip.TY[uty].get("path") == OPT:
        return ite_seq(c.ip.is_variant(r, 1, 2), seq_of([c.ip.fld(under(r, c.ip.is_variant(r, 1, 2)), 0, 1, c.ip.TY[uty]["args"][0])]), EMPTY)
    iv, ity = into_iter_val(c, r, uty)
    if iv is None:
        raise Unsupported("flat_map over " + (c.ip.TY[uty]["s"] if uty is not None else "?"))
    if iv.op == "agg" and iv.a[0] == "iter" and iv.a[2][3] is I(1):
        return rest_seq(iv)
    s = collect_seq(c, iv, ity)
    return s if s is not None else EMPTY


@mre(ITN + r"(fold|rfold|for_each|all|any|find|find_map|position|try_fold|try_for_each|try_rfold|rposition|max|min|sum|reduce)")
def _it_consume(c):
    ip = c.ip
    v = self_iter(c)
    p = (c.f.get("path") or "").rsplit("::", 1)[1]
    if v is None or p in ("rfold", "try_rfold", "rposition", "max", "min", "sum", "reduce"):
        return FALL
    ity = targ(c, 0)
    t = ip.TY[ity] if ity is not None else {}
    while t.get("k") == "ref":
        ity = t["elem"]
        t = ip.TY[ity]
    it_t = t.get("item")
    byref = c.a[0].op == "mref"
    D = c.dty

    def call(s, fn, args):
        return ip.call_value(c.fr, s, fn, None, args, None)

    cells = {}
    fn = c.a[-1]
    # a closure passed by value lives in a cell so that it may change its captures
    if p == "fold" or p == "try_fold":
        cells["acc"] = (c.a[1], ty_of(c, 1))
    cells["fn"] = (fn, ty_of(c, len(c.a) - 1))
    if p == "position":
        cells["i"] = (I(0), ip.P.by_s.get("usize"))

    def step(s, keys, item):
        fr_ = mkT("mref", keys["fn"][0], keys["fn"][1], ())
        if not (fn.op == "agg" and str(fn.a[0]).startswith("closure#")):
            fr_ = fn
        if p == "fold":
            r = call(s, fr_, [s.get(keys["acc"]), item])
            if r is None or s.pc is FALSE:
                return []
            s.set(keys["acc"], r)
            return [(None, s)]
        if p == "for_each":
            r = call(s, fr_, [item])
            return [(None, s)] if r is not None and s.pc is not FALSE else []
        if p in ("all", "any", "position", "find"):
            arg = vref(item) if p == "find" else item
            r = call(s, fr_, [arg])
            if r is None or s.pc is FALSE:
                return []
            stop = NOT(r) if p == "all" else r
            out = []
            a = AND(s.pc, stop)
            b = AND(s.pc, NOT(stop))
            if a is not FALSE:
                s2 = s.copy(a)
                if p == "find":
                    s2.set((c.fr.depth, "found"), item)
                out.append(("stop", s2))
            if b is not FALSE:
                s.pc = b
                if p == "position":
                    s.set(keys["i"], add(s.get(keys["i"]), I(1)))
                out.append((None, s))
            return out
        if p == "find_map":
            r = call(s, fr_, [item])
            if r is None or s.pc is FALSE:
                return []
            some_ = NOT(ip.is_variant(r, 0, 2))
            out = []
            a = AND(s.pc, some_)
            b = AND(s.pc, NOT(some_))
            if a is not FALSE:
                s2 = s.copy(a)
                s2.set((c.fr.depth, "found"), under(r, a))
                out.append(("stop", s2))
            if b is not FALSE:
                s.pc = b
                out.append((None, s))
            return out
        if p in ("try_fold", "try_for_each"):
            r = call(s, fr_, [s.get(keys["acc"]), item] if p == "try_fold" else [item])
            if r is None or s.pc is FALSE:
                return []
            cont, val = try_branch(c, r, D)
            out = []
            a = AND(s.pc, NOT(cont))
            b = AND(s.pc, cont)
            if a is not FALSE:
                s2 = s.copy(a)
                s2.set((c.fr.depth, "found"), under(r, a))
                out.append(("stop", s2))
            if b is not FALSE:
                s.pc = b
                if p == "try_fold":
                    s.set(keys["acc"], under(val, b))
                out.append((None, s))
            return out
        raise Unsupported(p)
    if it_t is None:
        it_ty = ity
    outs = drive(c, v, ity, cells, step)
    if byref:
        for tag, s, vals in outs:
            old = c.st
            c.st = s
            write_deep(c, 0, vals["__it"])
            c.st = old

    def pick(tag, vals):
        if p == "fold":
            return vals["acc"]
        if p == "for_each":
            return UNIT
        if p == "all":
            return TRUE if tag == "end" else FALSE
        if p == "any":
            return FALSE if tag == "end" else TRUE
        if p == "position":
            return NONE if tag == "end" else some(vals["i"])
        return None
    if p in ("find", "find_map", "try_fold", "try_for_each"):
        sts = []
        for tag, s, vals in outs:
            if tag == "end":
                if p in ("find", "find_map"):
                    r = NONE
                elif p == "try_fold":
                    r = try_output(c, vals["acc"], D)
                else:
                    r = try_output(c, UNIT, D)
            else:
                r = s.mem.pop((c.fr.depth, "found"))
                if p == "find":
                    r = some(r)
            s.set((c.fr.depth, "lret"), r)
            sts.append(s)
        mm = merge(sts, c.fr.depth, None)
        if mm is None:
            c.st.pc = FALSE
            return None
        c.st.pc, c.st.mem = mm.pc, mm.mem
        return c.st.mem.pop((c.fr.depth, "lret"))
    return finish_loop(c, outs, pick)


CF = "core::ops::control_flow::ControlFlow"


def try_branch(c, r, ty):
    """(continue condition, continue value) of a Try value"""
    ip = c.ip
    x = r
    while x.op == "mux":
        x = x.a[1]
    p = x.a[0] if x.op == "agg" else (ip.TY[ty].get("path") if ty is not None else None)
    if p == RES:
        return ip.is_variant(r, 0, 2), ip.fld(r, 0, 0)
    if p == OPT:
        return ip.is_variant(r, 1, 2), ip.fld(r, 0, 1)
    if p == CF:
        return ip.is_variant(r, 0, 2), ip.fld(r, 0, 0)
    if x.op == "agg" and x.a[0].endswith("NeverShortCircuit"):
        return TRUE, ip.fld(r, 0)
    raise Unsupported("Try value " + str(p))


def try_output(c, v, ty):
    p = c.ip.TY[ty].get("path") if ty is not None else None
    if p == RES:
        return ok(v)
    if p == OPT:
        return some(v)
    if p == CF:
        return agg(CF, 0, (v,))
    if p and p.endswith("NeverShortCircuit"):
        return agg(p, 0, (v,))
    raise Unsupported("Try type " + str(p))


# ---- sources
@mre(SL + r"iter", V + r"iter")
def _siter(c):
    return mkiter(c.s(0), 0)


@mre(SL + r"iter_mut", V + r"iter_mut")
def _siterm(c):
    return mkiterm(c.a[0], seq_len(c.s(0)))


@mre(r"<alloc::vec::Vec<.*> as core::iter::traits::collect::IntoIterator>::into_iter", r"core::array::iter::<impl core::iter::traits::collect::IntoIterator for \[T; N\]>::into_iter", r"<&'a (mut )?alloc::vec::Vec<.*> as core::iter::traits::collect::IntoIterator>::into_iter",
     r"core::array::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T; N\]>::into_iter", r"core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T\]>::into_iter", r"alloc::vec::.*IntoIterator.*::into_iter")
def _into_iter(c):
    a = c.a[0]
    if usable(a):
        return a
    p = c.f.get("rpath") or ""
    if "&'a mut" in p:
        return mkiterm(a, seq_len(c.s(0)))
    if "&'a" in p:
        return mkiter(c.s(0), 0)
    return mkiter(c.ip.seqof(a), 1)


@mre(SL + r"(chunks|chunks_exact|rchunks|rchunks_exact|windows)", SL + r"r?(chunks|chunks_exact)_mut")
def _chunks(c):
    s = c.s(0)
    n = seq_len(s)
    k = c.a[1]
    c.panic(eq(k, I(0)), "chunk size must be non-zero")
    p = (c.f.get("rpath") or "").rsplit("::", 1)[1]
    if k.op != "int":
        return FALL
    K = k.a[0]
    mut = p.endswith("_mut")
    p = p[:-4] if mut else p
    if p in ("chunks", "rchunks"):
        cnt = div_c(add(n, I(K - 1)), K)
    elif p in ("chunks_exact", "rchunks_exact"):
        cnt = div_c(n, K)
    else:
        cnt = max0(add(n, I(1 - K)))
    if mut:
        return agg("itercm", 0, (c.a[0], I(0), cnt, mkT("chunkinfo", p, k, n)))
    return agg("iterc", 0, (s, I(0), cnt, mkT("chunkinfo", p, k)))


@mre(r"core::slice::iter::.*ChunksExact.*::(remainder|into_remainder)")
def _chunks_rem(c):
    v = c.a[0]
    if v.op in ("vref", "mref", "ref"):
        v = c.ip.deref(c.st, v) if hasattr(c.ip, "deref") else v
    if v.op != "agg" or v.a[0] != "iterc":
        return FALL
    s, info = v.a[2][0], v.a[2][3]
    K, n = info.a[1].a[0], seq_len(v.a[2][0])
    whole = mulc(div_c(n, K), K)
    if info.a[0] != "chunks_exact":
        return vref(seq_slice(s, I(0), sub(n, whole)))
    return vref(seq_slice(s, whole, sub(n, whole)))


@m("core::iter::sources::repeat::repeat")
def _iter_repeat(c):
    # longer than anything else is
    return mkiter(rep(c.a[0], I(1 << 50)), 1)


@m("core::iter::sources::repeat_n::repeat_n")
def _iter_repeat_n(c):
    return mkiter(rep(c.a[0], c.a[1]), 1)


@mre(STR + r"encode_utf16")
def _enc16(c):
    return mkiter(utf16(c.ip, c.s(0)), 1)


@mre(STR + r"chars")
def _chars(c):
    return mkiter(chars(c.ip, c.s(0)), 1)


@mre(STR + r"bytes")
def _bytes(c):
    return mkiter(c.s(0), 1)


@mre(r"core::array::<impl \[T; N\]>::(each_ref)")
def _each_ref(c):
    s = c.s(0)
    n = seq_len(s)
    return seq_of([vref(seq_at(s, I(i))) for i in range(n.a[0])])


@mre(r"core::array::<impl \[T; N\]>::map")
def _arr_map(c):
    s = c.ip.seqof(c.a[0])
    n = seq_len(s)
    if n.op != "int":
        return FALL
    out = []
    for i in range(n.a[0]):
        r = c.ip.call_value(c.fr, c.st, c.a[1], ty_of(c, 1), [seq_at(s, I(i))], None)
        if r is None:
            return None
        out.append(r)
    return seq_of(out)


@mre(r"core::array::from_fn")
def _from_fn(c):
    t = c.ip.TY[c.dty]
    if t.get("len") is None:
        return FALL
    out = []
    c.ip.nfresh += 1
    key = (c.fr.depth, "fromfn%d" % c.ip.nfresh)
    c.st.set(key, c.a[0])
    fn = mkT("mref", key[0], key[1], ()) if c.a[0].op == "agg" else c.a[0]
    for i in range(t["len"]):
        r = c.ip.call_value(c.fr, c.st, fn, ty_of(c, 0), [I(i)], t["elem"])
        if r is None:
            return None
        out.append(r)
    return seq_of(out)


# ---- collecting
@mre(r"<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter", r"<alloc::vec::Vec<T, I> as .*from_iter", r"<alloc::string::String as core::iter::traits::collect::FromIterator<.*>>::from_iter", r"<alloc::boxed::Box<\[.*\]> as core::iter::traits::collect::FromIterator<.*>>::from_iter")
def _from_iter(c):
    f = None
    if "String as" in (c.f.get("rpath") or ""):
        f = string_item(c)
    v, ty = into_iter_val(c, c.a[0], ty_of(c, 0) if ty_of(c, 0) is not None else targ(c, 2))
    if v is None:
        return FALL
    return collect_seq(c, v, ty if ty is not None else targ(c, 2), f)


def string_item(c):
    def f(s, x):
        while x.op == "vref":
            x = x.a[0]
        if isint(x):
            return utf8_of_char(c, x)
        return c.ip.seqof(x)
    return f


@mre(r"<alloc::vec::Vec<.*> as core::iter::traits::collect::Extend<.*>>::(extend|extend_one)", r"<alloc::string::String as core::iter::traits::collect::Extend<.*>>::(extend|extend_one)")
def _extend(c):
    p = c.f.get("rpath") or ""
    f = None
    if "String as" in p:
        f = string_item(c)
    elif "Extend<&" in p:
        f = lambda s, x: seq_of([x.a[0] if x.op == "vref" else c.ip.deref(s, x)])
    if p.endswith("extend_one"):
        c.write(0, cat(c.s(0), (f or (lambda s, x: seq_of([x])))(c.st, c.a[1])))
        return UNIT
    ity = ty_of(c, 1) if ty_of(c, 1) is not None else targ(c, 2)
    v, ty = into_iter_val(c, c.a[1], ity)
    if v is None:
        return FALL
    if "Extend<&" in p and v.op == "agg" and v.a[0] == "iter" and v.a[2][3] is I(0):
        r = rest_seq(v)
    else:
        r = collect_seq(c, v, ty, f)
    if r is None:
        return None
    c.write(0, cat(c.s(0), r))
    return UNIT


# ---------------------------------------------------------------- strings
def const_bytes(s):
    """bytes of a constant sequence, or None"""
    if s.op != "seq":
        return None
    out = []
    for g in s.a[0]:
        if g.op == "e" and g.a[0].op == "int":
            out.append(g.a[0].a[0])
        elif g.op == "rep" and g.a[0].op == "int" and g.a[1].op == "int" and g.a[1].a[0] < 4096:
            out += [g.a[0].a[0]] * g.a[1].a[0]
        else:
            return None
    return bytes(out)


def str_map(ip, s, whole, const, ascii_, name, r):
    """apply a character-wise string function that distributes over concatenation at character boundaries"""
    if s.op == "mux":
        return mapt(s, lambda x: str_map(ip, x, whole, const, ascii_, name, r))
    out = []
    run = []

    def flush():
        if run:
            b = const_bytes(seq_of(run))
            out.append(const(b) if b is not None else cat(*[ascii_(x) for x in run]))
            run.clear()
    for g in s.a[0]:
        if g.op == "e":
            if g.a[0].op == "int" or rng(g.a[0])[1] < 128:
                if run and (run[0].op == "int") != (g.a[0].op == "int"):
                    flush()
                run.append(g.a[0])
            else:
                flush()
                return whole(s)
        elif g.op == "mx":
            flush()
            out.append(ite_seq(g.a[0], *(str_map(ip, x, whole, const, ascii_, name, r) for x in (g.a[1], g.a[2]))))
        elif g.op == "rep" and g.a[0].op == "int" and g.a[0].a[0] < 128:
            flush()
            k = fresh_k()
            out.append(flat(k, g.a[1], const(bytes([g.a[0].a[0]]))) if len(const(bytes([g.a[0].a[0]])).a[0]) != 1 else rep(seq_at(const(bytes([g.a[0].a[0]])), I(0)), g.a[1]))
        elif g.op == "sp":
            flush()
            out.append(whole(mkT("seq", (g,))))
        else:
            flush()
            return whole(s)
    flush()
    return cat(*out)


def opaque_seq(name, r, *args):
    t = app(name, None, *args)
    set_elem_range(t, r)
    return span(t, I(0), mkT("len", t))


def utf16(ip, s):
    def const(b):
        try:
            e = b.decode("utf-8").encode("utf-16-le")
        except UnicodeDecodeError:
            return opaque_seq("utf16", (0, 65535), seq_of([I(x) for x in b]))
        return seq_of([I(e[i] | e[i + 1] << 8) for i in range(0, len(e), 2)])

    def whole(x):
        # a text that came from decoding UTF-16 without loss encodes back to the same units
        g = x.a[0][0] if x.op == "seq" and len(x.a[0]) == 1 else None
        if g is not None and g.op == "sp" and g.a[0].op == "app" and g.a[0].a[0] == "dec16":
            if g.a[1] is I(0) and g.a[2] is mkT("len", g.a[0]):
                return g.a[0].a[2][0]
        return opaque_seq("utf16", (0, 65535), x)
    return str_map(ip, s, whole, const, lambda x: seq_of([x]), "utf16", (0, 65535))


def chars(ip, s):
    def const(b):
        try:
            return seq_of([I(ord(ch)) for ch in b.decode("utf-8")])
        except UnicodeDecodeError:
            return opaque_seq("chars", (0, 0x10FFFF), seq_of([I(x) for x in b]))
    return str_map(ip, s, lambda x: opaque_seq("chars", (0, 0x10FFFF), x), const, lambda x: seq_of([x]), "chars", (0, 0x10FFFF))


def recase(ip, s, up):
    n = "upper" if up else "lower"

    def const(b):
        try:
            t = b.decode("utf-8")
        except UnicodeDecodeError:
            return opaque_seq(n, (0, 255), seq_of([I(x) for x in b]))
        return seq_of([I(x) for x in (t.upper() if up else t.lower()).encode("utf-8")])

    def whole(x):
        g = x.a[0][0] if x.op == "seq" and len(x.a[0]) == 1 else None
        if g is not None and g.op == "sp" and g.a[0].op == "app" and g.a[0].a[0] == n and g.a[1] is I(0) and g.a[2] is mkT("len", g.a[0]):
            return x
        return opaque_seq(n, (0, 255), x)
    return str_map(ip, s, whole, const, lambda x: seq_of([ascii_case(x, up)]), n, (0, 255))


@mre(STR + r"(to_uppercase|to_lowercase)")
def _to_upper(c):
    return recase(c.ip, c.s(0), (c.f.get("rpath") or "").endswith("uppercase"))


@mre(STR + r"(to_ascii_uppercase|to_ascii_lowercase)", SL + r"(to_ascii_uppercase|to_ascii_lowercase)", r"core::slice::ascii::.*::(to_ascii_uppercase|to_ascii_lowercase)", r"alloc::slice::<impl \[u8\]>::(to_ascii_uppercase|to_ascii_lowercase)")
def _to_ascii_upper(c):
    s = c.s(0)
    up = (c.f.get("rpath") or "").endswith("uppercase")
    n = seq_len(s)
    if n.op == "int" and n.a[0] <= 64:
        return seq_of([ascii_case(seq_at(s, I(i)), up) for i in range(n.a[0])])
    k = fresh_k()
    return flat(k, n, seq_of([ascii_case(seq_at(s, k), up)]))


@mre(STR + r"(make_ascii_uppercase|make_ascii_lowercase)", SL + r"(make_ascii_uppercase|make_ascii_lowercase)", r"core::slice::ascii::.*::(make_ascii_uppercase|make_ascii_lowercase)")
def _mk_ascii_upper(c):
    c.write(0, _to_ascii_upper(Ctx(c.ip, c.fr, c.st, {"rpath": (c.f.get("rpath") or "")}, c.a, c.at, c.dty)))
    return UNIT


def utf8_of_char(c, x):
    if x.op == "mux":
        return mapt(x, lambda y: utf8_of_char(c, y))
    if x.op == "int":
        try:
            return seq_of([I(b) for b in chr(x.a[0]).encode("utf-8")])
        except UnicodeEncodeError:
            pass
    if rng(x)[1] < 128:
        return seq_of([x])
    return opaque_seq("utf8", (0, 255), x)


@mre(r"core::char::methods::<impl char>::(len_utf8|len_utf16)")
def _len_utf(c):
    x = c.a[0]
    if (c.f.get("rpath") or "").endswith("16"):
        return ite(lt(x, I(0x10000)), I(1), I(2))
    return ite(lt(x, I(0x80)), I(1), ite(lt(x, I(0x800)), I(2), ite(lt(x, I(0x10000)), I(3), I(4))))


@mre(r"core::char::methods::<impl char>::(is_ascii)")
def _char_is_ascii(c):
    return lt(c.d(0), I(128))


@mre(r"core::char::methods::<impl char>::(to_ascii_uppercase|to_ascii_lowercase)")
def _char_asc(c):
    return ascii_case(c.d(0), (c.f.get("rpath") or "").endswith("uppercase"))


@mre(r"core::char::methods::<impl char>::(from_u32|from_digit)", r"core::char::(convert::)?from_u32")
def _from_u32(c):
    if "digit" in (c.f.get("rpath") or ""):
        return FALL
    x = c.a[0]
    bad = OR(lt(I(0x10FFFF), x), AND(le_(I(0xD800), x), lt(x, I(0xE000))))
    return ite(bad, NONE, some(x))


@mre(r"core::char::methods::<impl char>::from_u32_unchecked", r"core::char::(convert::)?from_u32_unchecked")
def _from_u32u(c):
    return c.a[0]


@mre(r"core::char::methods::<impl char>::(is_whitespace|is_control|is_alphanumeric|is_alphabetic|is_numeric|is_uppercase|is_lowercase)")
def _char_class(c):
    x = c.a[0]
    if x.op == "int":
        ch = chr(x.a[0])
        p = (c.f.get("rpath") or "").rsplit("::", 1)[1]
        r = {"is_whitespace": ch.isspace(), "is_control": ord(ch) < 32 or 127 <= ord(ch) < 160, "is_alphanumeric": ch.isalnum(), "is_alphabetic": ch.isalpha(), "is_numeric": ch.isnumeric(), "is_uppercase": ch.isupper(), "is_lowercase": ch.islower()}[p]
        return TRUE if r else FALSE
    return bit(app((c.f.get("rpath") or "").rsplit("::", 1)[1], (0, 1), x), 0)


def pattern(c, i):
    """(kind, value) of a string pattern argument"""
    v = c.a[i]
    v = strip(c, v) if v.op in ("vref", "mref") else v
    if isint(v):
        return "char", v
    if v.op == "seq":
        et = None
        ty = ty_of(c, i)
        if ty is not None:
            t = c.ip.TY[ty]
            while t["k"] == "ref":
                t = c.ip.TY[t["elem"]]
            if t["k"] in ("slice", "array"):
                return "set", v
        return "str", v
    if v.op == "agg" and (str(v.a[0]).startswith("closure#") or str(v.a[0]).startswith("fn#")):
        return "fn", v
    return None, v


def find_pat(c, s, i, back=False):
    """(found, index, length of match) for a pattern"""
    kind, v = pattern(c, i)
    n = seq_len(s)
    if kind == "str":
        b = const_bytes(v)
        if b is not None and len(b) == 1:
            kind, v = "char", I(b[0])
    k = fresh_k()
    cond = None
    if kind == "char" and v.op == "int" and v.a[0] < 128:
        x = seq_at(s, sub(add(n, I(-1)), k) if back else k)
        cond = eq(x, v)
    elif kind == "set":
        b = [seq_at(v, I(j)) for j in range(seq_len(v).a[0])] if seq_len(v).op == "int" else None
        if b and all(x.op == "int" and x.a[0] < 128 for x in b):
            x = seq_at(s, sub(add(n, I(-1)), k) if back else k)
            cond = OR(*[eq(x, y) for y in b])
    if cond is not None:
        found = any_(k, n, cond)
        F = first_(k, n, cond)
        c.ip.note_first(F, n)
        idx = sub(add(n, I(-1)), F) if back else F
        STRS[F] = True
        return found, idx, I(1)
    if kind == "fn":
        return None
    t = app("rfind" if back else "find", (0, LENMAX), s, v)
    plen = seq_len(v) if kind == "str" else app("matchlen", (1, 4), s, v)
    terms.add_fact(t, sub(sub(n, t), plen))
    STRS[t] = True
    if plen.op != "int":
        STRS[plen] = True
    return var(mkT("bit", app("has", (0, 1), s, v), 0)), t, plen


@mre(STR + r"(find|rfind|split_once|rsplit_once)", STR + r"contains")
def _sfind(c):
    s = c.s(0)
    p = (c.f.get("rpath") or "").rsplit("::", 1)[1]
    r = find_pat(c, s, 1, p.startswith("r"))
    if r is None:
        return FALL
    found, idx, ln = r
    if p == "contains":
        return found
    if found is FALSE:
        return NONE
    if p in ("find", "rfind"):
        return ite(found, some(idx), NONE)
    n = seq_len(s)
    a = seq_slice(s, I(0), idx)
    b = seq_slice(s, add(idx, ln), sub(n, add(idx, ln)))
    return ite(found, some(agg("tuple", 0, (vref(a), vref(b)))), NONE)


@mre(STR + r"(starts_with|ends_with|strip_prefix|strip_suffix)")
def _sstarts(c):
    s = c.s(0)
    kind, v = pattern(c, 1)
    p = (c.f.get("rpath") or "").rsplit("::", 1)[1]
    if kind == "char":
        v = utf8_of_char(c, v)
    elif kind != "str":
        return FALL
    c2 = Ctx(c.ip, c.fr, c.st, c.f, [vref(s), vref(v)], None, c.dty)
    return _starts(c2)


@mre(STR + r"(trim|trim_start|trim_end|trim_matches|trim_start_matches|trim_end_matches|trim_left|trim_right)")
def _trim(c):
    s = c.s(0)
    p = (c.f.get("rpath") or "").rsplit("::", 1)[1]
    b = const_bytes(s)
    if b is not None and p in ("trim", "trim_start", "trim_end"):
        t = b.decode("utf-8", "replace")
        t = {"trim": t.strip(), "trim_start": t.lstrip(), "trim_end": t.rstrip()}[p]
        return vref(seq_of([I(x) for x in t.encode()]))
    args = [s] + [strip(c, a) for a in c.a[1:]]
    if any(has_mref(a) for a in args):
        return FALL
    return vref(opaque_seq("str." + p, (0, 255), *args))


@mre(STR + r"(lines|split_whitespace|split|rsplit|splitn|rsplitn|split_terminator|split_inclusive|char_indices|split_ascii_whitespace)")
def _lines(c):
    s = c.s(0)
    p = (c.f.get("rpath") or "").rsplit("::", 1)[1]
    args = [s] + [strip(c, a) for a in c.a[1:]]
    if p == "char_indices":
        return FALL
    if p in ("splitn", "rsplitn") and c.a[1] is I(2):
        r = find_pat(c, s, 2, p == "rsplitn")
        if r is not None:
            found, idx, ln = r
            a, b = vref(seq_slice(s, I(0), idx)), vref(seq_slice(s, add(idx, ln), sub(seq_len(s), add(idx, ln))))
            two = seq_of([a, b] if p == "splitn" else [b, a])
            return mkiter(ite(found, two, seq_of([vref(s)])) if found is not FALSE else seq_of([vref(s)]), 1)
    if any(has_mref(a) for a in args):
        return FALL
    t = app("str." + p, None, *args)
    # items are strings
    it = mkT("iteritems", t)
    n = app("count", (0, LENMAX), t)
    k = fresh_k()
    item = app("piece", None, t, k)
    set_elem_range(item, (0, 255))
    if p in ("split", "rsplit", "splitn", "rsplitn"):
        terms.add_fact(n, add(n, I(-1)))
    return mkiter(span(t, I(0), n), 2)


@mre(r"core::str::converts::from_utf8", r"alloc::string::String::from_utf8", r"core::str::<impl str>::from_utf8")
def _from_utf8(c):
    s = c.s(0) if c.a[0].op in ("vref", "mref") else c.ip.seqof(c.a[0])
    own = "String" in (c.f.get("rpath") or "")
    good = utf8_good(s)
    e = err(agg("core::str::error::Utf8Error", 0, (app("validupto", (0, LENMAX), s), NONE))) if not own else err(agg("alloc::string::FromUtf8Error", 0, (s, agg("core::str::error::Utf8Error", 0, (app("validupto", (0, LENMAX), s), NONE)))))
    return ite(good, ok(s if own else vref(s)), e)


def utf8_good(s):
    """the condition under which a byte sequence is valid UTF-8"""
    b = const_bytes(s)
    if b is not None:
        try:
            b.decode("utf-8")
            return TRUE
        except UnicodeDecodeError:
            return FALSE
    if s.op == "seq" and all(is_text_seg(g) for g in s.a[0]):
        return TRUE
    return var(mkT("bit", app("isutf8", (0, 1), s), 0))


def is_text_seg(g):
    if g.op == "e":
        return rng(g.a[0])[1] < 128
    if g.op == "rep":
        return rng(g.a[0])[1] < 128
    if g.op == "sp":
        return g.a[0].op == "app" and g.a[0].a[0] in ("upper", "lower", "utf8", "dec16", "declossy") and g.a[1] is I(0) and g.a[2] is mkT("len", g.a[0])
    return False


@mre(r"core::str::converts::from_utf8_unchecked", r"alloc::string::String::from_utf8_unchecked")
def _from_utf8u(c):
    s = c.s(0) if c.a[0].op in ("vref", "mref") else c.ip.seqof(c.a[0])
    c.ev("rawtext", "from_utf8_unchecked", (s, utf8_good(s)))
    if c.a[0].op in ("vref", "mref"):
        return vref(s)
    return c.a[0]


@mre(r"alloc::string::String::from_utf8_lossy")
def _from_utf8l(c):
    s = c.s(0)
    return agg("alloc::borrow::Cow", 1, (opaque_seq("utf8lossy", (0, 255), s),))


@mre(r"<alloc::borrow::Cow<.*> as core::ops::deref::Deref>::deref", r"<alloc::borrow::Cow<.*> as core::convert::AsRef<.*>>::as_ref")
def _cow_deref(c):
    v = c.d(0)
    return mapt(v, lambda x: x.a[2][0] if x.a[1] == 0 else vref(x.a[2][0])) if v.op in ("mux", "agg") else FALL


@mre(r"alloc::borrow::Cow::<'_, B>::(into_owned|to_owned)", r"<alloc::borrow::Cow<.*> as alloc::string::(Spec)?ToString>::(spec_)?to_string")
def _cow_own(c):
    v = strip(c, c.a[0])
    return mapt(v, lambda x: strip(c, x.a[2][0])) if v.op in ("mux", "agg") else FALL


def dec16_parts(c, s):
    good = var(mkT("bit", app("isutf16", (0, 1), s), 0))
    return good


@mre(r"alloc::string::String::from_utf16")
def _from_utf16(c):
    return from_utf16(c.s(0), "alloc::string::FromUtf16Error")


def from_utf16(s, e):
    if s.op == "seq" and len(s.a[0]) == 1 and s.a[0][0].op == "sp" and s.a[0][0].a[0].op == "app" and s.a[0][0].a[0].a[0] == "utf16" and s.a[0][0].a[1] is I(0):
        return ok(s.a[0][0].a[0].a[2][0])
    return ite(dec16_parts(None, s), ok(opaque_seq("dec16", (0, 255), s)), err(agg(e, 0, (UNIT,))))


@mre(r"alloc::string::String::from_utf16_lossy")
def _from_utf16l(c):
    s = c.s(0)
    return ite(dec16_parts(c, s), opaque_seq("dec16", (0, 255), s), opaque_seq("declossy", (0, 255), s))


@mre(r"<core::result::Result<V, E> as core::iter::traits::collect::FromIterator<core::result::Result<(A|T), E>>>::from_iter")
def _result_from_iter(c):
    """decode_utf16(units).collect::<Result<String, _>>() is String::from_utf16"""
    v, ty = c.a[0], ty_of(c, 0)
    t = c.ip.TY[ty] if ty is not None else {}
    if not str(t.get("path", "")).endswith("DecodeUtf16") or c.ip.TY[c.dty].get("path") != RES or v.op != "agg":
        return FALL
    if c.ip.TY[c.ip.field_tys(c.dty, 0, 1)[0]].get("path") != "alloc::string::String":
        return FALL
    if c.ip.is_variant(v.a[2][1], 0, 2) is not TRUE:
        return FALL
    s = collect_seq(c, v.a[2][0], c.ip.field_tys(ty, 0, 2)[0], None)
    return None if s is None else from_utf16(s, "core::char::DecodeUtf16Error")


import libs  # noqa: E402,F401
