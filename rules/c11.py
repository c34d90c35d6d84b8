"""C11: the handshake state machine."""
from base import *
from spec import *

STEPS = (("new", ()), ("negotiate sent", (NEG,)), ("challenge received", (NEG, CHAL)), ("authenticate sent", (NEG, CHAL, AUTH)))


def states(P):
    """variant number of each step, told by the messages it carries"""
    vs = P.T[ty_by_path(P, "client::ClientState")]["variants"]
    out = {}
    for nm, want in STEPS:
        c = [i for i, v in enumerate(vs) if tuple(P.T[f["t"]].get("path") for f in v["f"]) == want]
        if len(c) != 1:
            raise Undecided("the client has no single state '%s'" % nm)
        out[nm] = c[0]
    return out, vs


def check(R):
    R.explanation = ("Each public method of the client is interpreted from a client whose every field, the handshake state included, is arbitrary; the state "
                     "after the call is compared, field by field, with the one the handshake order prescribes for every state before it. By induction "
                     "over the calls this covers every history.")
    R.rule = "obligation: one per level, method, state before and part of the state after"
    R.each(range(6), level)


class Any:
    """a client in an arbitrary state"""

    def __init__(self, R, lv):
        self.c = c = Client(R, lv)
        self.ip = ip = c.ip
        self.new = c.obj
        T = ip.P.T[c.ty]["variants"][0]["f"]
        self.names = [f["n"] for f in T]
        c.obj = self.pre = agg(c.obj.a[0], c.obj.a[1], tuple(ip.expand(f["t"], sym(ip, f["t"], "client." + f["n"])) for f in T))
        self.sv, self.vs = states(ip.P)

    def state(self, o):
        return fget(self.ip, "client::Client", o, "state")

    def is_(self, o, step):
        return self.ip.is_variant(self.state(o), self.sv[step], len(self.vs))

    def part(self, o, step, j, ctx):
        i = self.sv[step]
        return self.ip.fld(under(self.state(o), ctx), j, i, self.vs[i]["f"][j]["t"])


def level(R, lv):
    w = "client.rs"
    # creation
    a = Any(R, lv)
    R.ob(not feasible(AND(a.c.new.rc, NOT(a.is_(a.new, "new")))), "created:%d" % lv, "a new client is not in the initial state", w)
    # challenge
    r = a.c.call("recv_challenge", "chal")
    post, ch = a.c.obj, r.args[0]
    sent = a.is_(a.pre, "negotiate sent")
    ctx = AND(r.rc, sent)
    R.ob(not feasible(AND(sent, NOT(r.rc))), "accept-returns:%d" % lv, "recv_challenge can fail after a negotiate message", w)
    R.ob(not feasible(AND(ctx, NOT(a.is_(post, "challenge received")))), "accepted:%d" % lv, "a challenge received after a negotiate message is not taken into account: %s" % show(
        AND(ctx, NOT(a.is_(post, "challenge received"))))[:200], w)
    c2 = AND(ctx, a.is_(post, "challenge received"))
    if feasible(c2):
        d = same(a.part(post, "challenge received", 0, c2), a.part(a.pre, "negotiate sent", 0, c2), c2)
        R.ob(d is None, "accept-negotiate:%d" % lv, "recv_challenge changes the negotiate message kept: %s" % d, w)
        d = same(a.part(post, "challenge received", 1, c2), ch, c2)
        R.ob(d is None, "accept-challenge:%d" % lv, "the challenge kept is not the one received: %s" % d, w)
    other = AND(r.rc, NOT(sent))
    R.ob(feasible(other), "ignore-reach:%d" % lv, "recv_challenge never returns outside its turn", w)
    d = same(a.state(post), a.state(a.pre), other)
    R.ob(d is None, "ignored:%d" % lv, "a challenge received at another moment changes the state: %s" % d, w)
    R.ob(not feasible(AND(NOT(sent), NOT(r.rc))), "ignore-returns:%d" % lv, "recv_challenge can fail at another moment: %s" % show(AND(NOT(sent), NOT(r.rc)))[:200], w)
    # negotiate
    a = Any(R, lv)
    r = a.c.call("send_negociate")
    post = a.c.obj
    for step, _ in STEPS:
        ctx = AND(r.rc, a.is_(a.pre, step))
        k = "%s:%d" % (step.replace(" ", "-"), lv)
        if not R.ob(feasible(ctx), "negotiate-reach:" + k, "no negotiate message can be sent in state '%s'" % step, w):
            continue
        bad = AND(ctx, NOT(a.is_(post, "negotiate sent")))
        if not R.ob(not feasible(bad), "negotiate-state:" + k, "sending a negotiate message in state '%s' does not start a new handshake: %s" % (step, show(bad)[:200]), w):
            continue
        m = under(a.part(post, "negotiate sent", 0, ctx), ctx)
        c, b = enc_term(R, a.ip, ty_by_path(a.ip.P, NEG), m)
        seq = a.ip.seqof(a.ip.deref(None, r.val)) if r.val.op in ("vref", "mref") else a.ip.seqof(r.val)
        d = same(seq, b, AND(ctx, c))
        R.ob(d is None, "negotiate-kept:" + k, "the negotiate message kept is not the one sent: %s" % d, w)
    # authenticate
    a = Any(R, lv)
    # the random values and hashes do not matter here
    r = a.c.call("send_authenticate")
    post = a.c.obj
    for step in ("new", "negotiate sent"):
        bad = AND(r.rc, a.is_(a.pre, step))
        R.ob(not feasible(bad), "early:%s:%d" % (step.replace(" ", "-"), lv), "an authenticate message is produced in state '%s', before a challenge: %s" % (step, show(bad)[:200]), w)
    for step in ("challenge received", "authenticate sent"):
        ctx = AND(r.rc, a.is_(a.pre, step))
        k = "%s:%d" % (step.replace(" ", "-"), lv)
        if step == "challenge received":
            R.ob(feasible(ctx), "authenticate-reach:" + k, "no authenticate message can be sent once a challenge is accepted", w)
        if not feasible(ctx):
            continue
        bad = AND(ctx, NOT(a.is_(post, "authenticate sent")))
        if not R.ob(not feasible(bad), "authenticate-state:" + k, "after an authenticate message sent in state '%s' the client is not in the final state: %s" % (step, show(bad)[:200]), w):
            continue
        for j, nm in enumerate(("negotiate message", "challenge")):
            d = same(a.part(post, "authenticate sent", j, ctx), a.part(a.pre, step, j, ctx), ctx)
            R.ob(d is None, "%s-kept:%s" % (nm.split()[0], k), "the %s of the handshake changes when an authenticate message is sent: %s" % (nm, d), w)
