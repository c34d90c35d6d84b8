"""C20: what the strict feature refuses, and what is accepted without it."""
from base import *

RESERVED = {"R1": 28, "R2": 27, "R3": 26, "R4": 24, "R5": 21, "R6": 18, "R7": 14, "R8": 10, "R9": 8, "R10": 3}
UNICODE, OEM, LM_KEY, DOMAIN, SERVER, ESS, VERSION = 0, 1, 7, 16, 17, 19, 25
WHERE = {FLAGS: 0, NEG: 12, CHAL: 20, AUTH: 60}
RESERVED_AT = (32, 40)


def forbidden(inp, at):
    """[(key, what, condition)]: the flags words MS-NLMP 2.2.2.5 rules out, for the word at an offset"""
    def b(n):
        return bit(seq_at(inp, I(at + n // 8)), n % 8)
    out = [(nm, "reserved bit %s (%d) is set" % (nm, n), b(n)) for nm, n in RESERVED.items()]
    out.append(("target-types", "both a server and a domain target type are named", AND(b(DOMAIN), b(SERVER))))
    out.append(("character-set", "neither character set is selected", AND(NOT(b(UNICODE)), NOT(b(OEM)))))
    out.append(("ess-lm-key", "both extended session security and the LM key are requested", AND(b(ESS), b(LM_KEY))))
    return out


def long_enough(inp, n):
    return le_(I(n), seq_len(inp))


def check(R):
    R.explanation = ("The decoders of the flags word and of the messages are interpreted over an arbitrary input once per feature setting. With strict on, the "
                     "condition of success must exclude each forbidden flags word and each nonzero reserved byte; with strict off, the flags word must be "
                     "accepted whenever four bytes are there, the decoded word must be the one sent, and the condition under which a message is accepted may "
                     "not mention a reserved byte nor any flag bit but the ones that select parts.")
    R.rule = "obligation: one per feature setting, decoder and forbidden content"
    R.each([strict, lax_flags] + [lambda R, p=p: lax(R, p) for p in (NEG, CHAL, AUTH)], lambda R, f: f(R))
    R.need(len(R.obl), 60, "feature settings, decoders and forbidden contents")


def strict(R):
    for path, at in WHERE.items():
        ip = R.interp(("strict",))
        inp = symseq("in")
        res, c, val, rest = decode(R, ip, path, inp)
        R.ob(feasible(c), "strict-none:" + short(path), "with strict no %s is accepted" % short(path))
        for k, what, f in forbidden(inp, at):
            bad = AND(c, long_enough(inp, at + 4), f)
            R.ob(not feasible(bad), "strict:%s:%s" % (short(path), k), "with strict, a %s is accepted in which %s: %s" % (short(path), what, show(bad)[:300]),
                 P_where(R, ("strict",), path))
        if path == CHAL:
            for i in range(*RESERVED_AT):
                bad = AND(c, long_enough(inp, i + 1), NOT(eq(seq_at(inp, I(i)), I(0))))
                R.ob(not feasible(bad), "strict:reserved", "with strict, a challenge is accepted with a nonzero reserved byte at %d: %s" % (i, show(bad)[:300]),
                     P_where(R, ("strict",), path))


def P_where(R, feats, path):
    return "the decoder of %s%s" % (short(path), " with strict" if feats else "")


def mentions(t, byte):
    """the ways a condition looks at an input byte: set of bit numbers, or None for the byte as a whole"""
    seen, out = set(), set()

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "bit" and x.a[0] is byte:
            out.add(x.a[1])
            return
        if x is byte:
            out.add(None)
            return
        for y in x.a:
            for z in (y if isinstance(y, tuple) else (y,)):
                for q in (z if isinstance(z, tuple) else (z,)):
                    if isinstance(q, T):
                        walk(q)
    walk(t)
    return out


def lax_flags(R):
    ip = R.interp()
    inp = symseq("in")
    res, c, val, rest = decode(R, ip, FLAGS, inp)
    want = long_enough(inp, 4)
    bad = AND(want, NOT(c))
    w = P_where(R, (), FLAGS)
    R.ob(not feasible(bad), "lax:flags", "without strict, a flags word is refused: %s" % show(bad)[:300], w)
    for k, what, f in forbidden(inp, 0):
        R.ob(feasible(AND(c, f)), "lax:flags:" + k, "without strict, a flags word is refused in which " + what, w)
    got = fget(ip, FLAGS, val, "0")
    for i in range(32):
        d = same(bit(got, i), bit(seq_at(inp, I(i // 8)), i % 8), c)
        R.ob(d is None, "lax:value", "without strict, bit %d of a flags word is not kept: %s" % (i, d), w)


# the flags that decide which parts a message has, and so whether it decodes
SELECT = {NEG: {12, 13, VERSION}, CHAL: {2, 23, VERSION}, AUTH: {VERSION, 30, 4, 5}}


def lax(R, path):
    ip = R.interp()
    inp = symseq("in")
    at = WHERE[path]
    res, c, val, rest = decode(R, ip, path, inp)
    w = P_where(R, (), path)
    R.ob(feasible(c), "lax-none:" + short(path), "no %s is accepted" % short(path))
    for k, what, f in forbidden(inp, at):
        R.ob(feasible(AND(c, f)), "lax:%s:%s" % (short(path), k), "without strict, no %s is accepted in which %s" % (short(path), what), w)
    got = fget(ip, FLAGS, fget(ip, path, val, "negotiate_flags"), "0")
    for i in range(32):
        b = seq_at(inp, I(at + i // 8))
        if i not in SELECT[path]:
            v = bit(b, i % 8)
            bad = AND(c, FALSE) if i % 8 not in mentions(c, b) else [AND(subst(c, {v.a[0]: x}), NOT(subst(c, {v.a[0]: y}))) for x, y in ((TRUE, FALSE), (FALSE, TRUE))]
            for z in bad if isinstance(bad, list) else [bad]:
                R.ob(not feasible(z), "lax:%s:flag" % short(path), "without strict, whether a %s is accepted depends on flag bit %d: %s" % (short(path), i, show(z)[:300]), w)
        R.ob(None not in mentions(c, b), "lax:%s:flags-byte" % short(path), "without strict, whether a %s is accepted depends on flags byte %d as a whole" % (short(path), i // 8), w)
        d = same(bit(got, i), bit(b, i % 8), c)
        R.ob(d is None, "lax:%s:value" % short(path), "without strict, flag bit %d of a %s is not kept: %s" % (i, short(path), d), w)
    if path == CHAL:
        for i in range(*RESERVED_AT):
            b = seq_at(inp, I(i))
            R.ob(not mentions(c, b), "lax:reserved", "without strict, whether a challenge is accepted depends on its reserved byte at %d" % i, w)
            R.ob(not mentions(val, b), "lax:reserved", "without strict, the challenge read depends on its reserved byte at %d" % i, w)
