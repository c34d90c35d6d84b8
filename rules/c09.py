"""C09: fresh random values."""
from base import *
from spec import *
from c14 import client_challenge


def check(R):
    R.explanation = ("The client is driven symbolically through negotiate and challenge at every level; then every field of the client other than the handshake "
                     "state is replaced by an arbitrary value (whatever earlier use left there) and send_authenticate is analysed. Every byte of the client "
                     "challenge and of the exchanged session key in the transmitted message must be a byte of a draw from the operating system's random "
                     "source made during that call, each from its own position of the draws.")
    R.rule = "obligation: one per level, message case and random value, naming the byte that does not come from the random source"
    R.each(range(6), level)


def level(R, lv):
    for h in rounds(R, lv, ("resent",), any_state=True):
        handshake(R, lv, h)


def handshake(R, lv, h):
    f = lambda n: bit(h.cflags, FLAG[n])
    draws = {e.data[0] for e in h.fresh}
    R.ob(draws, "draw:%d" % lv, "at level %d send_authenticate never draws from the operating system's random source" % lv)
    cases = [("exchanged", exchanged(h.cflags)), ("kept", NOT(exchanged(h.cflags)))]
    for nm, v in cases:
        if lv <= 2:
            v = AND(v, f("ESS"))
        ctx = AND(h.ok, v)
        if not feasible(ctx):
            raise Undecided("no handshake in case " + nm)
        _, _, lmr = h.slot("lm_challenge_response", ctx)
        at_ = 0 if lv <= 2 else 16
        vals = [("client challenge", [under(under(seq_at(lmr, I(at_ + i)), v), ctx) for i in range(8)])]
        if lv >= 3:
            _, _, ntr = h.slot("nt_challenge_response", ctx)
            head = seq_slice(under(under(ntr, v), ctx), I(0), I(2))
            o = 16 if all(x is I(1) for x in elems(ntr, v, ctx, 0, 2)) else 32
            vals.append(("client challenge of the blob", elems(ntr, v, ctx, o, 8)))
        if nm == "exchanged":
            n, o, enc = h.slot("encrypted_random_session_key", ctx)
            a = whole_app(under(under(enc, v), ctx), "rc4")
            if not R.ob(a is not None, "key-form:%d" % lv, "at level %d the encrypted session key is not the encryption of a random key: %s" % (lv, show(under(under(enc, v), ctx))[:300])):
                continue
            vals.append(("session key", [seq_at(a[2], I(i)) for i in range(16)]))
            R.ob(same(seq_len(a[2]), I(16), ctx) is None, "key-length:%d" % lv, "at level %d the session key is not 16 bytes long" % lv)
        used = {}
        for what, bs in vals:
            for i, b in enumerate(bs):
                s = source(b)
                key = "%s:%d:%s" % (what.replace(" ", "-"), lv, nm)
                if s is None or s[0] not in draws:
                    R.ob(False, key, "at level %d (key %s), byte %d of the %s is not drawn from the operating system's random source: %s" % (
                        lv, nm, i, what, show(b)[:160]), where(h))
                    break
                role = what.split(" of ")[0]
                if used.setdefault(s, (role, i)) != (role, i):
                    R.ob(False, key, "at level %d (key %s), byte %d of the %s is also byte %d of the %s" % ((lv, nm, i, what) + used[s][::-1]), where(h))
                    break
            else:
                R.ob(True, key, "")


def elems(s, v, ctx, o, n):
    s = under(under(s, v), ctx)
    return [under(seq_at(s, I(o + i)), ctx) for i in range(n)]


def source(b):
    """(draw, position) a byte is taken from"""
    if b.op == "at" and b.a[1].op == "int":
        return b.a[0], b.a[1].a[0]
    if b.op == "byte":
        return b.a[0], b.a[1]
    return None


def where(h):
    return "client.rs, Client::send_authenticate"
