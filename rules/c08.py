"""C08: the integrity code covers the handshake as sent."""
from base import *
from spec import *

LEVELS = range(6)


def check(R):
    R.explanation = ("The client is driven symbolically through its public methods at each level (arbitrary credentials, workstation, version, challenge and "
                     "random values). The sixteen bytes at the place of the code in the transmitted authenticate message are required to be either all "
                     "zero or the term HMAC-MD5(exported key, transmitted negotiate ++ encoding of the accepted challenge ++ transmitted message with the "
                     "code zeroed); the exported key is the key that, encrypted under the key exchange key, is in the message, or that key itself.")
    R.rule = "obligation: one per level and version presence"
    R.each(LEVELS, level)


def level(R, lv):
    for h in rounds(R, lv):
        handshake(R, lv, h)


def handshake(R, lv, h):
    hasv = bit(h.flags, FLAG["VERSION"])
    for ver in (0, 1):
        v = hasv if ver else NOT(hasv)
        ctx = AND(h.ok, v)
        if not feasible(ctx):
            continue
        pos = 72 if ver else 64
        out = under(under(h.out, v), ctx)
        mic = seq_slice(out, I(pos), I(16))
        if same(mic, zeros(16), ctx) is None:
            R.obl.append(("level %d: no code" % lv, True))
            continue
        R.notes.append("level %d carries a code, version %s" % (lv, "present" if ver else "absent"))
        cc, chal = h.chal_bytes()
        ctx = AND(ctx, cc)
        covered = cat(h.neg, chal, seq_splice(out, I(pos), zeros(16)))
        g = mic.a[0][0] if mic.op == "seq" and len(mic.a[0]) == 1 else None
        if not R.ob(g is not None and g.op == "sp" and g.a[0].op == "app" and g.a[0].a[0] == "hmac_md5" and g.a[1] is I(0), "code:%d" % lv,
                    "at level %d the code is not an HMAC-MD5: %s" % (lv, show(mic)[:300])):
            continue
        key, data = g.a[0].a[2][0], g.a[0].a[2][1]
        d = same(data, covered, ctx)
        R.ob(d is None, "covers:%d" % lv, "at level %d the code is not computed over the negotiate message, the challenge and the authenticate message as sent: %s" % (lv, d))
        want = exported(h, ctx)
        if want is not None:
            d = same(key, want, ctx)
            R.ob(d is None, "key:%d" % lv, "at level %d the code is not keyed with the exported session key: %s" % (lv, d))
