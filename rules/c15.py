"""C15: a flag announces an optional part exactly when the part is present."""
from base import *
from spec import *

# message, optional part, announcing bit (MS-NLMP 2.2.2.5), whether the decoder may look for the part without the flag
PAIRS = [(NEG, "domain_name", "OEM_DOMAIN", True), (NEG, "workstation", "OEM_WORKSTATION", True), (CHAL, "target_name", "REQUEST_TARGET", True),
         (AUTH, "encrypted_random_session_key", "KEY_EXCH", False)]
LISTS = [(CHAL, "target_infos", "TARGET_INFO")]
BITNO = {"OEM_DOMAIN": 12, "OEM_WORKSTATION": 13, "REQUEST_TARGET": 2, "KEY_EXCH": 30, "TARGET_INFO": 23, "VERSION": 25}


def iff(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


def flag(ip, t, m, nm):
    return bit(fget(ip, FLAGS, fget(ip, t, m, "negotiate_flags"), "0"), BITNO[nm])


def present(ip, t, m, part):
    if (t, part) in [x[:2] for x in LISTS]:
        return lt(I(0), seq_len(ip.seqof(fget(ip, t, m, part))))
    return ip.is_variant(fget(ip, t, m, part), 1, 2)


def mutators(R, t):
    """methods of a message that can change it: instance, receiver type, other argument types"""
    P = R.prog()
    out = []
    for r in P.roots:
        p = P.I[r["inst"]]["path"]
        b = P.I[r["inst"]].get("body")
        if r["trait"] is not None or b is None or not (p.startswith(t + "::")) or r.get("vis") != "Public":
            continue
        tys = b["locals"][1:b["argc"] + 1]
        T0 = P.T[tys[0]] if tys else {}
        if T0.get("k") == "ref" and T0.get("mut") and P.T[T0["elem"]].get("path") == t:
            out.append((r, T0["elem"], tys[1:]))
    return out


def check(R):
    R.explanation = ("Every public method that can change a message is interpreted over an arbitrary message and arbitrary arguments: afterwards each optional "
                     "part and its flag are either both as before or agree; by induction this covers every sequence of calls. The messages of a client, "
                     "driven symbolically at each level, are compared with the flags they carry, and the decoders' conditions with the same flags.")
    R.rule = "obligation: one per method and part, per level and part of a sent message, and per decoder and part"
    for n, b in BITNO.items():
        if n in FLAG and FLAG[n] != b:
            raise Undecided("flag table")
    todo = []
    n = 0
    for t in (NEG, CHAL, AUTH):
        for m in mutators(R, t):
            n += 1
            todo.append(lambda R, t=t, m=m: setter(R, t, *m))
        todo.append(lambda R, t=t: fresh(R, t))
        todo.append(lambda R, t=t: decoder(R, t))
    R.need(n, 5, "methods that change a message")
    todo += [lambda R, lv=lv: sent(R, lv) for lv in range(6)]
    R.each(todo, lambda R, f: f(R))


def setter(R, t, r, sty, rest):
    ip = R.interp()
    nm = r["name"]
    w = short(t) + "::" + nm
    pre = sym(ip, sty, "m")
    a = [sym(ip, x, "a%d" % i) for i, x in enumerate(rest)]
    res = run(R, ip, r, [mkT("mref", -1, "m", ())] + a, {"m": (pre, sty)})
    post = res.fin["m"]
    ctx = res.rc
    if not R.ob(feasible(ctx), "returns:" + w, "%s never returns" % w, w):
        return
    for mt, part, fl in [p[:3] for p in PAIRS] + LISTS:
        if mt != t:
            continue
        b0, b1 = flag(ip, t, pre, fl), flag(ip, t, post, fl)
        p0, p1 = present(ip, t, pre, part), present(ip, t, post, part)
        kept = AND(iff(b0, b1), iff(p0, p1))
        bad = AND(ctx, NOT(kept), NOT(iff(b1, p1)))
        R.ob(not feasible(bad), "agree:%s:%s" % (w, part), "after %s the part %s and its flag disagree: %s" % (w, part, show(bad)[:300]), w)
        if nm == "set_" + part:
            if len(a) != 1 or ip.P.T[rest[0]].get("path") != OPT:
                raise Undecided("%s does not take one optional value" % w)
            given = ip.is_variant(a[0], 1, 2)
            bad = AND(ctx, NOT(iff(b1, given)))
            R.ob(not feasible(bad), "follows:%s:flag" % w, "%s does not make the flag of %s follow the value given: %s" % (w, part, show(bad)[:300]), w)
            bad = AND(ctx, NOT(iff(p1, given)))
            R.ob(not feasible(bad), "follows:%s:part" % w, "%s does not keep the value given: %s" % (w, show(bad)[:300]), w)
            c = AND(ctx, given, p1)
            if feasible(c):
                got = some_of(ip, t, part, under(post, c))[1]
                v = ip.fld(under(a[0], c), 0, 1, ip.P.T[rest[0]]["args"][0])
                same_text(R, ip, ip.P.T[fty(ip.P, t, part)]["args"][0], got, ip.P.T[rest[0]]["args"][0], v, c, "value:" + w, "%s does not keep the value given" % w, w)


def inner(ip, ty, v):
    """the content of a value behind single-field wrappers"""
    while ip.P.T[ty].get("path", "").startswith("messages::") and len(ip.P.T[ty]["variants"]) == 1 and len(ip.P.T[ty]["variants"][0]["f"]) == 1:
        ty = ip.P.T[ty]["variants"][0]["f"][0]["t"]
        v = ip.fld(v, 0, None, ty)
    return v


def same_text(R, ip, gty, got, vty, v, c, key, msg, w):
    """the value kept is the one given; a text may be wrapped, or converted by the Into implementation of the caller's type"""
    x = inner(ip, gty, got)
    d = same(x, inner(ip, vty, v), c)
    if d is not None and x.op == "seq" and len(x.a[0]) == 1 and x.a[0][0].op == "sp" and x.a[0][0].a[1] is I(0):
        y = x.a[0][0].a[0]
        while y.op == "proj":
            y = y.a[0]
        if y.op == "app" and "Into::into" in str(y.a[0]) and len(y.a[2]) == 1 and same(y.a[2][0], v, c) is None:
            d = None
    R.ob(d is None, key, "%s: %s" % (msg, d), w)


def fresh(R, t):
    """a message starts with no part and no flag announcing one"""
    ip = R.interp()
    P = ip.P
    rs = [r for r in P.roots if r["name"] == "default" and "body" in P.I[r["inst"]] and P.T[P.I[r["inst"]]["body"]["locals"][0]].get("path") == t]
    if len(rs) != 1:
        raise Undecided("no default value of %s" % t)
    res = run(R, ip, rs[0], [])
    for mt, part, fl in [p[:3] for p in PAIRS] + LISTS + [(t, "version", "VERSION")]:
        if mt == t:
            bad = AND(res.rc, NOT(iff(flag(ip, t, res.val, fl), present(ip, t, res.val, part))))
            R.ob(not feasible(bad), "default:%s:%s" % (short(t), part), "in a default %s the part %s and its flag disagree" % (short(t), part), short(t))


def sent(R, lv):
    for h in rounds(R, lv, ("later",)):
        sent_by(R, lv, h)


def sent_by(R, lv, h):
    ip, P = h.ip, h.ip.P

    def message(obj, t, ok):
        """the message the client keeps, as long as it is the one sent"""
        st = fget(ip, "client::Client", obj, "state")
        vs = P.T[ty_by_path(P, "client::ClientState")]["variants"]
        for vi, v in reversed(list(enumerate(vs))):
            for j, f in enumerate(v["f"]):
                if P.T[f["t"]].get("path") == t:
                    c = AND(ok, ip.is_variant(st, vi, len(vs)))
                    if feasible(c) and not feasible(AND(ok, NOT(c))):
                        return under(ip.fld(under(st, c), j, vi, f["t"]), c)
        return None
    for t, obj, out in ((NEG, h.obj1, h.neg), (AUTH, h.obj3, h.out)):
        fl = le_of(seq_slice(out, I(12 if t == NEG else 60), I(4)))
        m = message(obj, t, h.ok)
        if m is not None:
            c, b = enc_term(R, ip, P_ty(P, t), m)
            if same(b, out, AND(h.ok, c)) is not None:
                m = None
        R.notes.append("level %d, %s: parts looked for in %s" % (lv, short(t), "the bytes sent" if m is None else "the value sent"))
        at_ = lambda o, w: unsplit([under(seq_at(out, I(o + i)), h.ok) for i in range(w)])
        for mt, part, nm in [p[:3] for p in PAIRS if p[0] == t] + [(t, "version", "VERSION")]:
            if m is not None:
                there = present(ip, t, m, part)
            elif part != "version":
                there = length(out, [o for o, n in SLOTS[t] if n == part][0], bit(fl, BITNO[nm]), h.ok)
            else:
                # the first payload starts right after the version when there is one
                base = HEADER[t] + (16 if t == AUTH else 0)
                first = [at_(o + 4, 4) for o, n in SLOTS[t]]
                some = [AND(lt(I(0), at_(o, 2)), eq(x, I(base + 8))) for (o, n), x in zip(SLOTS[t], first)]
                none = [AND(lt(I(0), at_(o, 2)), eq(x, I(base))) for (o, n), x in zip(SLOTS[t], first)]
                yes, no = FALSE, FALSE
                for x, y in zip(some, none):
                    yes, no = OR(yes, x), OR(no, y)
                if feasible(AND(h.ok, AND(NOT(yes), NOT(no)))):
                    # no payload: the length tells
                    empty = TRUE
                    for o, n in SLOTS[t]:
                        empty = AND(empty, eq(at_(o, 2), I(0)))
                    yes, no = OR(yes, AND(empty, eq(seq_len(out), I(base + 8)))), OR(no, AND(empty, eq(seq_len(out), I(base))))
                bad = AND(h.ok, OR(AND(yes, NOT(bit(fl, BITNO[nm]))), AND(no, bit(fl, BITNO[nm]))))
                R.ob(not feasible(bad), "announced:%s:%s:%d" % (short(t), part, lv), "in the %s sent at level %d the version and its flag disagree: %s" % (
                    short(t), lv, show(bad)[:300]), "client.rs")
                continue
            bad = FALSE
            for on in (bit(fl, BITNO[nm]), NOT(bit(fl, BITNO[nm]))):
                # the flag first: it decides most of what the length depends on
                t2 = under(under(there, on), AND(h.ok, on))
                bad = OR(bad, AND(AND(h.ok, on), NOT(iff(bit(fl, BITNO[nm]), t2))))
            R.ob(not feasible(bad), "announced:%s:%s:%d" % (short(t), part, lv), "in the %s sent at level %d the part %s and its flag disagree: %s" % (
                short(t), lv, part, show(bad)[:300]), "client.rs")


def length(out, o, on, ok):
    """(a payload is there), its descriptor's length being taken apart by the flag first"""
    r = FALSE
    for v in (on, NOT(on)):
        c = AND(ok, v)
        n = unsplit([under(under(seq_at(out, I(o + i)), v), c) for i in range(2)])
        r = OR(r, AND(v, lt(I(0), n)))
    return r


def P_ty(P, t):
    return ty_by_path(P, t)


def decoder(R, t):
    ip = R.interp()
    inp = symseq("in")
    res, c, val, rest = decode(R, ip, t, inp)
    w = short(t) + "::deserialize"
    foff = [o for o, n, k, f in HEADS if n == t][0]
    fl = le_of(seq_slice(inp, I(foff), I(4)))
    hv = flag_of(fl, "VERSION")
    bad = AND(c, NOT(iff(hv, present(ip, t, val, "version"))))
    R.ob(not feasible(bad), "decode:%s:version" % short(t), "the decoder of %s looks for the version under another condition than its flag: %s" % (short(t), show(bad)[:300]), w)
    for mt, part, nm, loose in PAIRS:
        if mt != t:
            continue
        off = [o for o, n in SLOTS[t] if n == part][0]
        ln = le_of(seq_slice(inp, I(off), I(2)))
        b, p, some = flag_of(fl, nm), present(ip, t, val, part), lt(I(0), ln)
        bad = AND(c, b, NOT(iff(some, p)))
        R.ob(not feasible(bad), "decode:%s:%s" % (short(t), part), "with its flag set, the part %s of %s is not decoded as announced: %s" % (part, short(t), show(bad)[:300]), w)
        bad = AND(c, NOT(b), p) if not loose else AND(c, NOT(b), NOT(iff(some, p)), p)
        R.ob(not feasible(bad), "decode-unannounced:%s:%s" % (short(t), part), "the part %s of %s is decoded without its flag: %s" % (part, short(t), show(bad)[:300]), w)


def flag_of(x, nm):
    return bit(x, BITNO[nm])


HEADS = [(12, NEG, 4, None), (20, CHAL, 4, None), (60, AUTH, 4, None)]
