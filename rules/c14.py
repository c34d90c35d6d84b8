"""C14: NTLMv2 proof, responses and key."""
from base import *
from spec import *
from c07 import PAIR


def check(R):
    R.explanation = ("The client is driven symbolically at levels 3 to 5 over arbitrary credentials, challenge (attribute list included) and random values. The "
                     "blob MS-NLMP 2.2.2.7 prescribes is built as a term from the challenge's attributes and timestamp and the client challenge in the LMv2 "
                     "response; the LMv2 response, the NT response and the session base key (the exported key when none is exchanged) are compared with the "
                     "terms of 3.3.2 over that blob.")
    R.rule = "obligation: one per level and derived value (timestamp source, LMv2 response, NT response, session base key)"
    R.each((3, 4, 5), level)


def level(R, lv):
    for h in rounds(R, lv):
        handshake(R, lv, h)


def handshake(R, lv, h):
    ip = h.ip
    v2 = ntlmv2_hash(ip, h.user, h.domain, h.password)
    cc = client_challenge(h)
    n1, o1, lmr = h.slot("lm_challenge_response")
    want = cat(hmac(v2, cat(h.server, cc)), cc)
    d = same(lmr, want, h.ok)
    R.ob(d is None, "lmv2:%d" % lv, "at level %d the LMv2 response is not HMAC(hash, server challenge ++ client challenge) ++ client challenge: %s" % (lv, d))
    # timestamp
    has, ts = server_time(h)
    n2, o2, ntr = h.slot("nt_challenge_response")
    ce, attrs = enc_term(R, ip, fty(ip.P, CHAL, "target_infos"), fget(ip, CHAL, h.chal, "target_infos"))
    ctx = AND(h.ok, ce)
    got = None
    for case, v in (("server-time", has), ("own-time", NOT(has))):
        cx = AND(ctx, v)
        if not feasible(cx):
            raise Undecided("no handshake " + case)
        nt = under(under(ntr, v), cx)
        if case == "server-time":
            t = under(ts, v)
        else:
            # the current time as transmitted, whatever the form of the response
            t = own_time(h, cx, R)
            if t is None:
                R.ob(False, "clock:%d" % lv, "at level %d, without a server timestamp, the time is not the current time" % lv)
                continue
        b0 = cat(seq_of([I(1), I(1)]), zeros(6), t, cc, zeros(4), attrs)
        blob = cat(b0, zeros(4))
        proof = hmac(v2, cat(h.server, blob))
        d = same(nt, cat(proof, blob), cx)
        if d is not None:
            d2 = same(nt, b0, cx)
            R.ob(False, "nt-response:" + ("blob-alone" if d2 is None else "%d:%s" % (lv, case)),
                 "at level %d (%s) the NT response is not the proof followed by the blob%s" % (
                     lv, case, " but the blob alone, without its trailing zeros" if d2 is None else ": %s" % d))
        else:
            R.ob(True, "nt-response:%d:%s" % (lv, case), "")
        nx = NOT(exchanged(h.cflags))
        c3 = AND(cx, nx)
        k = exported(h, nx)
        if k is not None:
            d = same(under(under(k, v), c3), hmac(v2, proof), c3)
            R.ob(d is None, "key:%d:%s" % (lv, case), "at level %d (%s) the session base key is not HMAC(hash, proof) for the proof over server challenge ++ blob: %s" % (lv, case, d))


def client_challenge(h):
    """the client challenge as the LMv2 response carries it"""
    n, o, lm = h.slot("lm_challenge_response")
    return seq_slice(lm, I(16), I(8))


def server_time(h):
    """(the challenge carries a timestamp, the eight bytes of the first one)"""
    ip = h.ip
    T = ip.P.T[ty_by_path(ip.P, PAIR)]
    i = [j for j, v in enumerate(T["variants"]) if v["n"].endswith("Timestamp")][0]
    ety = ip.P.T[fty(ip.P, CHAL, "target_infos")]["args"][0]
    k = fresh_k()
    is_ = lambda x: ip.is_variant(ip.expand(ety, seq_at(h.attrs, x)), i, len(T["variants"]))
    n = seq_len(h.attrs)
    has = any_(k, n, is_(k))
    at_ = first_(k, n, is_(k))
    v = ip.fld(ip.expand(ety, seq_at(h.attrs, at_)), 0, i, T["variants"][i]["f"][0]["t"])
    c, b = enc_term(h.R, ip, T["variants"][i]["f"][0]["t"], v)
    return has, b


def own_time(h, ctx, R):
    """bytes of FileTime::try_from(the clock value read by send_authenticate)"""
    ip = h.ip
    ev = [e for e in h.res[3].evs if e.kind == "clock"]
    if len(ev) != 1:
        return None
    for r in ip.P.roots:
        if r["self"] is not None and ip.P.T[r["self"]].get("path") == FT and r["name"] == "try_from" and "body" in ip.P.I[r["inst"]]:
            tys, _ = body_tys(ip, r)
            if "SystemTime" in ip.TY[tys[0]]["s"]:
                res = run(R, ip, r, [ev[0].data[0]])
                c, v = ok_of(ip, res.val)
                return enc_term(R, ip, ty_by_path(ip.P, FT), under(v, c))[1]
    raise Undecided("no conversion from SystemTime to FileTime")
