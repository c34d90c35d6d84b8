"""C22: text is carried whole, as little-endian UTF-16 or as its own bytes."""
from base import *
import spec

US, OEM = "messages::unicode_string::UnicodeString", "messages::unicode_string::OEMString"
PAIR = S + "avid::AvPair"
NAMES = [(NEG, "domain_name", OEM), (NEG, "workstation", OEM), (CHAL, "target_name", US), (AUTH, "domain", US), (AUTH, "user", US), (AUTH, "workstation", US)]


def check(R):
    R.explanation = ("The encoders of the two string types, of the textual attributes and of the three messages are interpreted over an arbitrary text; the bytes "
                     "they write for it must be the term 'little-endian bytes of the UTF-16 units of the text' (or the bytes of the text for the names of "
                     "a negotiate message). The decoders are interpreted on exactly those bytes and must yield the text again; interpreted over arbitrary "
                     "bytes, they may accept only well-formed ones and must yield the text those carry. The conversions of the string types must keep the "
                     "text, and the password and user hashes must be taken over these same bytes.")
    R.rule = "obligation: one per text-carrying type, name or hash input, direction and clause"
    todo = [lambda R, t=t: string(R, t) for t in (US, OEM)] + [attributes] + [lambda R, m=m: names(R, *m) for m in NAMES] + [hashes, lambda R: conversions(R)]
    R.each(todo, lambda R, f: f(R))
    R.need(len(R.obl), 50, "obligations")


def bytes_of(ip, t, s):
    return utf16le(ip, s) if t != OEM else s


def string(R, t):
    nm = short(t)
    ip = R.interp()
    res, v, c, n, out = encode(R, ip, t)
    s = text(ip, t, v)
    R.ob(not feasible(NOT(c)), "encode-some:" + nm, "some text cannot be encoded as %s: %s" % (nm, show(NOT(c))[:200]), nm)
    d = same(out, bytes_of(ip, t, s), c)
    R.ob(d is None, "encode:" + nm, "the bytes of an encoded %s are not those of the whole text: %s" % (nm, d), nm)
    # arbitrary bytes
    ip = R.interp()
    inp = symseq("in")
    res, c, val, rest = decode(R, ip, t, inp)
    R.ob(feasible(c), "decode-none:" + nm, "nothing is accepted as %s" % nm, nm)
    got = text(ip, t, val)
    if t == OEM:
        # what it accepts is kept byte for byte, and the bytes of every text are accepted
        import models
        bad = AND(models.utf8_good(inp), NOT(c))
        R.ob(not feasible(bad), "decode-some:" + nm, "some text is refused as %s: %s" % (nm, show(bad)[:200]), nm)
        d = same(got, inp, c)
        R.ob(d is None, "decode:" + nm, "the text read as %s is not the bytes sent: %s" % (nm, d), nm)
        return
    even = evenly(seq_len(inp))
    u = units(inp, div_c(seq_len(inp), 2))
    good, want = dec16(u)
    bad = AND(c, even, NOT(good))
    R.ob(not feasible(bad), "decode-wellformed:" + nm, "units that are not well-formed are accepted as %s (and replaced or dropped)" % nm, nm)
    bad = AND(even, good, NOT(c))
    R.ob(not feasible(bad), "decode-some:" + nm, "some text is refused as %s: %s" % (nm, show(bad)[:200]), nm)
    bad = AND(c, even, lt(I(0), seq_len(seq_of_rest(ip, rest))))
    R.ob(not feasible(bad), "decode-rest:" + nm, "reading %s leaves bytes over: %s" % (nm, show(bad)[:200]), nm)
    d = same(got, want, AND(c, even, good))
    R.ob(d is None, "decode:" + nm, "the text read as %s is not the one sent: %s" % (nm, d), nm)


def evenly(n):
    return AND(eq(n, mulc(div_c(n, 2), 2)), eq(rem_c(n, 2), I(0)))


def text(ip, t, v):
    return ip.seqof(ip.fld(v, 0, None, fty(ip.P, t, "0")))


def attributes(R):
    ip = R.interp()
    P = ip.P
    T = P.T[ty_by_path(P, PAIR)]
    texts = [(i, v["n"], v["f"][0]["t"]) for i, v in enumerate(T["variants"]) if v["f"] and P.T[v["f"][0]["t"]].get("path") == "alloc::string::String"]
    R.need(len(texts), 6, "textual attributes")
    res, v, c, n, out = encode(R, ip, PAIR)
    for i, nm, ft in texts:
        cv = AND(c, ip.is_variant(v, i, len(T["variants"])))
        s = ip.seqof(ip.fld(under(v, cv), 0, i, ft))
        want = utf16le(ip, s)
        o = under(out, cv)
        d = same(seq_slice(o, I(4), max0(sub(seq_len(o), I(4)))), want, cv)
        R.ob(d is None, "attribute:" + nm, "the value of an encoded %s is not the whole text: %s" % (nm, d), nm)
    ip = R.interp()
    inp = symseq("in")
    ident, ln = le_of(seq_slice(inp, I(0), I(2))), le_of(seq_slice(inp, I(2), I(2)))
    res, c, val, rest = decode(R, ip, PAIR, inp)
    whole = AND(le_(I(4), seq_len(inp)), le_(add(ln, I(4)), seq_len(inp)), evenly(ln))
    good, want = dec16(units(seq_slice(inp, I(4), ln), div_c(ln, 2)))
    for i, nm, ft in texts:
        # the value is read as text under this attribute's variant, whichever id selects it
        cv = AND(c, ip.is_variant(val, i, len(T["variants"])))
        R.ob(feasible(cv), "attribute-read-none:" + nm, "%s is never read" % nm, nm)
        bad = AND(cv, whole, NOT(good))
        R.ob(not feasible(bad), "attribute-wellformed:" + nm, "units that are not well-formed are accepted in %s (and replaced or dropped)" % nm, nm)
        d = same(ip.seqof(ip.fld(under(val, cv), 0, i, ft)), want, AND(cv, whole, good))
        R.ob(d is None, "attribute-read:" + nm, "the text read as %s is not the one sent: %s" % (nm, d), nm)
        ids = [k for k in range(len(T["variants"])) if feasible(AND(cv, eq(ident, I(k))))]
        bad = AND(whole, good, OR(*[eq(ident, I(k)) for k in ids]), NOT(c))
        R.ob(ids and not feasible(bad), "attribute-some:" + nm, "some text is refused in %s: %s" % (nm, show(bad)[:200]), nm)


def names(R, path, name, t):
    nm = "%s:%s" % (short(path), name)
    ip = R.interp()
    off = [o for o, x in SLOTS[path] if x == name][0]
    res, v, c, n, out = encode(R, ip, path)
    ft = fty(ip.P, path, name)
    some, ty, val = slot_value(R, ip, path, name, v)
    if ip.P.T[ty].get("path") != t:
        raise Undecided("%s of %s is a %s" % (name, short(path), ip.P.T[ty]["s"]))
    cp = AND(c, some)
    R.ob(feasible(cp), "sent-none:" + nm, "no %s can be sent with a %s" % (short(path), name), nm)
    want = under(bytes_of(ip, t, text(ip, t, under(val, cp))), cp)
    ln, st = (unsplit([under(seq_at(out, I(off + o + i)), cp) for i in range(w)]) for o, w in ((0, 2), (4, 4)))
    d = same(ln, seq_len(want), cp)
    if not R.ob(d is None, "sent-length:" + nm, "the %s of a %s is not sent whole: %s" % (name, short(path), d), nm):
        return
    d = same(seq_slice(under(out, cp), st, seq_len(want)), want, cp)
    R.ob(d is None, "sent:" + nm, "the %s of a %s is not sent as the text itself: %s" % (name, short(path), d), nm)


def hashes(R):
    for lv in (1, 2, 3):
        c = Client(R, lv)
        ip = c.ip
        user, domain, password = (ip.seqof(c.args[k]) for k in ("user", "domain", "password"))
        for f, want in (("nt_hash", spec.nt_hash(ip, password)), ("ntlmv2_hash", spec.ntlmv2_hash(ip, user, domain, password))):
            got = ip.seqof(c.field(f))
            d = same(got, want, c.new.rc)
            R.ob(d is None, "hash:%s:%d" % (f, lv), "the %s is not taken over the UTF-16 of the whole text: %s" % (f, d), "Client::new_with_domain")


def conversions(R):
    P = R.prog()
    n = 0
    for r in P.roots:
        inst = P.I[r["inst"]]
        if "body" not in inst or r["trait"] not in ("core::convert::From", "core::ops::deref::Deref", "core::ops::deref::DerefMut", "core::clone::Clone"):
            continue
        ip = R.interp()
        tys, out = body_tys(ip, r)
        if len(tys) != 1:
            continue

        def strip(ty):
            t = ip.TY[ty]
            return strip(t["elem"]) if t["k"] == "ref" else ty

        def kind(ty):
            t = ip.TY[strip(ty)]
            return t.get("path") if t["k"] == "adt" else t["k"]
        a, b = kind(tys[0]), kind(out)
        if not ({a, b} & {US, OEM}) or not {a, b} <= {US, OEM, "str", "alloc::string::String"}:
            continue
        n += 1

        def inner(v, ty):
            v = ip.deref(None, v) if ip.TY[ty]["k"] == "ref" else v
            return text(ip, kind(ty), v) if kind(ty) in (US, OEM) else ip.seqof(v)
        t0 = ip.TY[tys[0]]
        objs = {}
        if t0["k"] == "ref" and t0.get("mut"):
            continue
        if t0["k"] == "ref":
            x = vref(symseq("s")) if ip.TY[t0["elem"]]["k"] == "str" else vref(sym(ip, t0["elem"], "s"))
        else:
            x = sym(ip, tys[0], "s")
        res = run(R, ip, r, [x], objs)
        key = "convert:%s:%s:%s" % (r["trait"].split("::")[-1], short(a or "?"), short(b or "?"))
        R.ob(not feasible(NOT(res.rc)), key + ":some", "a conversion between strings can fail to return", inst["name"])
        d = same(inner(res.val, out), inner(x, tys[0]), res.rc)
        R.ob(d is None, key, "%s does not keep the text: %s" % (inst["name"], d), inst["name"])
    R.need(n, 6, "conversions of the string types")
