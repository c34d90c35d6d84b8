"""C19: encoders neither swallow write errors nor accept short writes."""
from base import *


def check(R):
    R.explanation = ("Each encoder is interpreted over an arbitrary value with a writer any of whose operations may fail, and whose plain write may accept "
                     "any part of the data. Whenever an operation fails the encoder must return an error, neither success nor a panic; whenever a write is "
                     "partial and the encoder still succeeds, the bytes written must be those of an unhindered run.")
    R.rule = "obligation: one per encoder and writing operation (failure, partial write), with the call path to the operation"
    P = R.prog()
    ts = wire_types(P)
    R.need(len(ts), 30, "encoders")
    R.each(ts, one)


def one(R, t):
    ip = R.interp(wfail=True)
    res, v, c, n, out = encode(R, ip, t)
    w = short(t) + "::serialize_into"
    fails = [e for e in res.evs if e.kind == "wfail"]
    R.ob(fails, "writes:" + short(t), "%s writes nothing" % w, w)
    seen = {}
    for e in fails:
        at = where(ip, e)
        key = "failure:%s:%s" % (short(t), at)
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 1:
            key += "#%d" % seen[key]
        bad = instances(e.cond, c)
        if not R.ob(not feasible(bad), key, "%s succeeds although writing fails in %s: %s" % (w, at, show(bad)[:200]), at):
            continue
        bad = instances(e.cond, NOT(res.rc))
        R.ob(not feasible(bad), key + ":panic", "%s panics when writing fails in %s: %s" % (w, at, show(bad)[:200]), at)
    shorts = [e for e in res.evs if e.kind == "wshort"]
    if shorts:
        ip2 = R.interp()
        res2, v2, c2, n2, out2 = encode(R, ip2, t)
        for e in shorts:
            at = where(ip, e)
            bad = AND(e.cond, c)
            if feasible(bad):
                d = same(out, out2, bad)
                R.ob(d is None, "short:%s:%s" % (short(t), at), "%s succeeds although only a part is written in %s: %s" % (w, at, d), at)
            else:
                R.obl.append(("short:%s:%s" % (short(t), at), True))


def atoms_of(t):
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x in seen or x.op != "mux":
            continue
        seen.add(x)
        out.append(x.a[0])
        st += [x.a[1], x.a[2]]
    return out


def instances(one, c, depth=0):
    """conjunction of a condition on one iteration k of a loop and another, with what 'for some / no iteration' says of k"""
    bad = AND(one, c)
    if not feasible(bad):
        return bad
    ks = {k for a in atoms_of(one) for k in a.fv if k.op == "k"}
    for a in atoms_of(c):
        if a.op == "Any":
            for k in ks:
                if not implies(one, lt(k, a.a[0])):
                    continue
                inst = AND(lt(k, a.a[0]), subst(a.a[1], {bvar(a.h): k}))
                # a loop inside the body of that loop
                no = instances(one, NOT(inst), depth + 1) if depth < 3 else AND(one, NOT(inst))
                if not feasible(no):
                    bad = AND(bad, var(a))
                else:
                    bad = AND(bad, OR(var(a), NOT(inst)))
                if not feasible(bad):
                    return bad
    return bad


def where(ip, e):
    """the function of the crate that performs the operation"""
    local = [x for x in e.chain if not str(x).startswith(("std::", "core::", "alloc::"))]
    return local[-1] if local else str(e.what)
