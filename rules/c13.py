"""C13: NTLMv1 responses and the key schedule."""
from base import *
from spec import *


def check(R):
    R.explanation = ("The client is driven symbolically at every level over arbitrary credentials, flags, challenge and random values. At levels 0 to 2 the two "
                     "responses in the transmitted message are compared, for both values of the extended-session-security flag, with the terms MS-NLMP 3.3.1 "
                     "prescribes; at every level the exported key and the encrypted key in the message are compared with the key schedule of 3.4.5 for each "
                     "combination of the flags it depends on. Hash and cipher functions are uninterpreted; DES key expansion is compared bit by bit.")
    R.rule = "obligation: one per level, flag case and derived value"
    R.each(range(6), level)


def level(R, lv):
    for h in rounds(R, lv):
        handshake(R, lv, h)


def handshake(R, lv, h):
    ip = h.ip
    lm, nt = lm_hash(ip, h.password), nt_hash(ip, h.password)
    f = lambda n: bit(h.cflags, FLAG[n])
    if lv <= 2:
        for ess in (1, 0):
            v = f("ESS") if ess else NOT(f("ESS"))
            ctx = AND(h.ok, v)
            n1, o1, lmr = h.slot("lm_challenge_response", ctx)
            n2, o2, ntr = h.slot("nt_challenge_response", ctx)
            cc = seq_slice(lmr, I(0), I(8))
            if ess:
                wlm = cat(cc, zeros(16))
                wnt = desl(nt, seq_slice(md5(cat(h.server, cc)), I(0), I(8)))
            else:
                wnt = desl(nt, h.server)
                wlm = desl(lm, h.server) if lv == 0 else wnt
            for nm, got, want in (("LM", lmr, wlm), ("NT", ntr, wnt)):
                d = same(got, want, ctx)
                R.ob(d is None, "%s:%d:ess%d" % (nm, lv, ess), "at level %d, extended session security %s, the %s response is not the one prescribed: %s" % (
                    lv, "on" if ess else "off", nm, d))
        sbk = md4(nt)
    else:
        nx = NOT(exchanged(h.cflags))
        base = exported(h, nx)
        if base is None:
            raise Undecided("no exported key at level %d" % lv)
        base = under(base, AND(h.ok, nx))
    cases = [("exchanged", exchanged(h.cflags)), ("not exchanged", NOT(exchanged(h.cflags)))]
    for nm, v in cases:
        subs = [("", TRUE)]
        if lv <= 2:
            subs = [("ess", f("ESS")), ("lmkey", AND(NOT(f("ESS")), f("LM_KEY"))), ("non-nt", AND(NOT(f("ESS")), AND(NOT(f("LM_KEY")), f("NON_NT")))),
                    ("plain", AND(NOT(f("ESS")), AND(NOT(f("LM_KEY")), NOT(f("NON_NT")))))]
        for sn, sv in subs:
            cv = AND(v, sv)
            ctx = AND(h.ok, cv)
            tag = "%d:%s%s" % (lv, nm.replace(" ", "-"), ":" + sn if sn else "")
            say = "at level %d, key %s%s, " % (lv, nm, ", case " + sn if sn else "")
            if not feasible(ctx):
                raise Undecided("no handshake with " + say)
            if lv <= 2:
                _, _, lmr = h.slot("lm_challenge_response", ctx)
                kx = under(kxkey_v1(h.cflags, sbk, seq_slice(lmr, I(0), I(8)), lm, h.server), cv)
            else:
                # the base key: what is exported when no key is exchanged (C14 proves what it is)
                kx = under(under(base, cv), ctx)
            exp = exported(h, cv)
            if exp is not None:
                exp = under(exp, ctx)
            n3, o3, enc = h.slot("encrypted_random_session_key", AND(ctx, TRUE))
            enc = under(under(enc, cv), ctx)
            if nm == "exchanged":
                a = whole_app(enc, "rc4")
                if not R.ob(a is not None and same(n3, I(16), ctx) is None, "encrypted:" + tag, say + "the message does not carry an RC4-encrypted key: %s" % show(enc)[:200]):
                    continue
                key, pos, data = a
                d = same(key, kx, ctx)
                R.ob(d is None, "encrypting:" + tag, say + "the session key is not encrypted under the key exchange key: %s" % d)
                R.ob(pos is I(0), "stream:" + tag, say + "the session key is not encrypted with the start of the key stream")
                if exp is not None:
                    d = same(data, exp, ctx)
                    R.ob(d is None, "exported:" + tag, say + "the encrypted key is not the exported one: %s" % d)
            else:
                if exp is not None:
                    d = same(exp, kx, ctx)
                    R.ob(d is None, "exported:" + tag, say + "the exported key is not the key exchange key: %s" % d)
