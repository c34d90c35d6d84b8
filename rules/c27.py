"""C27: producing the messages of a handshake does not panic."""
from base import *
import c11

LIMIT = 60000          # a bound compared with at least this much is a size limit of the wire format (or of the clock)


def too_big(a):
    """does the atom say that some size reaches a limit of the wire format"""
    if a.op != "ge0":
        return False
    k, d = lin_parts(a.a[0])
    return k <= -LIMIT and all(c > 0 and a_size(t) for t, c in d.items())


def a_size(t):
    """a length, a sum or count over a sequence, or the time of day; never a value a message carries"""
    if t.op == "app" and t.a[0] in ("div", "rem"):
        return all(a_size(x) for x in t.a[1:] if isinstance(x, T) and x.op != "int")
    if t.op == "lin":
        return all(a_size(x) for x in lin_parts(t)[1])
    if t.op == "sym":
        return str(t.a[0]).startswith("now#")
    return t.op in ("len", "Sum", "lv")


def small(c, memo):
    """the condition with every such size below its limit"""
    if c.op != "mux":
        return c
    r = memo.get(c)
    if r is None:
        r = memo[c] = small(c.a[2], memo) if too_big(c.a[0]) else ite(var(c.a[0]), small(c.a[1], memo), small(c.a[2], memo))
    return r


def check(R):
    R.explanation = ("Each method of the client that takes part in a handshake is interpreted, at each level, from a client whose every field and handshake state "
                     "is arbitrary (any credentials, any challenge). Each panicking operation met contributes its failure condition; with every compared size "
                     "below its limit of at least %d, the condition has to be infeasible. send_authenticate is judged where a challenge has been accepted." % LIMIT)
    R.rule = "obligation: one (level, method, panicking operation) met; discharged when its condition is infeasible within the sizes"
    R.assumptions = R.assumptions + ["no text, list or message is as long as the limit its length is compared with (65,535 bytes and above), and the clock is before that of FILETIME"]
    R.each(range(6), level)
    R.need(len(R.obl), 60, "panicking operations")


def level(R, lv):
    a = c11.Any(R, lv)
    for meth, args in (("send_negociate", ()), ("recv_challenge", ("chal",)), ("send_authenticate", ())):
        a.c.obj = a.pre
        before = set(a.ip.stats["obligations"])
        r = a.c.call(meth, *args)
        ctx = OR(a.is_(a.pre, "challenge received"), a.is_(a.pre, "authenticate sent")) if meth == "send_authenticate" else TRUE
        bad = {}
        memo = {}
        for e in r.of("panic"):
            c = small(AND(e.cond, ctx), memo)
            if c is not FALSE and feasible(c):
                bad.setdefault((e.data[0] if e.data else "?", e.what), []).append((c, e))
        for k in a.ip.stats["obligations"]:
            if k not in bad and k not in before:
                R.obl.append(("%d:%s:%s:%s" % ((lv, meth) + tuple(k)), True))
        for k, es in bad.items():
            c, e = es[0]
            R.ob(False, "panic:%d:%s:%s:%s" % (lv, meth, k[0], k[1].replace(" ", "_")), "%s can panic at level %d: %s in %s when %s" % (
                meth, lv, k[1], k[0], show(c)[:300]), " > ".join(e.chain[-5:]))
        done = AND(r.rc, ctx)
        R.ob(feasible(done), "never-returns:%d:%s" % (lv, meth), "%s never returns at level %d" % (meth, lv), meth)
