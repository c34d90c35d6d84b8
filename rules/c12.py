"""C12: no downgrade below the configured level."""
from base import *
from spec import *
from c10 import values, sources, ONEWAY


def reached(t, name):
    """applications of a function whose result t carries, arguments of one-way functions left out"""
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and x.a[0] in ONEWAY:
            if x.a[0] == name:
                out.append(x)
            continue
        st.extend(values(x))
    return out


def check(R):
    R.explanation = ("The authenticate message of a symbolic handshake (arbitrary credentials, challenge, attribute list and server flags) is searched, over every "
                     "alternative its bytes are selected from, for DES applications: none may occur at levels 3 to 5, where the LM response must have "
                     "the form HMAC ++ client challenge keyed with the NTLMv2 hash and the NT response the form of the NTLMv2 client challenge; at levels "
                     "1 and 2 none may be keyed with bits of the LM hash.")
    R.rule = "obligation: one per level and response form"
    R.each(range(6), level)


def level(R, lv):
    for h in rounds(R, lv):
        handshake(R, lv, h)


def handshake(R, lv, h):
    w = "client.rs, Client::send_authenticate"
    ip = h.ip
    lmh = lm_hash(ip, h.password)
    lm_apps = sources(lmh)
    try:
        lm_apps = lm_apps | {x for x in sources(ip.seqof(h.c.field("lm_hash", h.initial))) if x.op == "app"}
    except Undecided:
        pass
    des = reached(h.out, "des")
    if lv >= 3:
        R.ob(not des, "des:%d" % lv, "at level %d the authenticate message carries a DES response: %s" % (lv, show(des[0])[:200] if des else ""), w)
        v2 = ntlmv2_hash(ip, h.user, h.domain, h.password)
        n, o, lmr = h.slot("lm_challenge_response")
        d = same(n, I(24), h.ok)
        R.ob(d is None, "lm-length:%d" % lv, "at level %d the LM response is not 24 bytes: %s" % (lv, d), w)
        a = whole_app(seq_slice(lmr, I(0), I(16)), "hmac_md5") if d is None else None
        ok = a is not None and same(a[0], v2, h.ok) is None
        R.ob(ok, "lm-form:%d" % lv, "at level %d the LM response is not an LMv2 response: %s" % (lv, show(lmr)[:200]), w)
        n, o, ntr = h.slot("nt_challenge_response")
        x = [seq_at(ntr, I(i)) for i in range(2)]
        y = [seq_at(ntr, I(i)) for i in (16, 17)]
        ok = any(all(same(b, I(1), h.ok) is None for b in p) for p in (x, y))
        R.ob(ok, "nt-form:%d" % lv, "at level %d the NT response is not an NTLMv2 response: %s" % (lv, show(ntr)[:200]), w)
        R.ob(not feasible(AND(h.ok, lt(n, I(28)))), "nt-length:%d" % lv, "at level %d the NT response can be shorter than an NTLMv2 response" % lv, w)
    elif lv >= 1:
        for x in des:
            k = sources(x.a[2][0])
            R.ob(not (k & lm_apps), "lm-des:%d" % lv, "at level %d the message carries a DES response derived from the LM hash: %s" % (lv, show(x)[:200]), w)
        R.ob(des, "nt-des:%d" % lv, "at level %d the message carries no NTLM response" % lv, w)
    else:
        R.ob(any(sources(x.a[2][0]) & lm_apps for x in des), "lm-des:0", "at level 0 no response derived from the LM hash is recognised", w)
