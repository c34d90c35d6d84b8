"""C17: identity strings and hashes reach the roles they belong to."""
from base import *
from spec import *
from c10 import sources
from c12 import reached


def check(R):
    R.explanation = ("The client made from one name is compared, as a whole, with the client made from the user and domain that the name designates (before "
                     "and after the first backslash, else the first at sign, else no domain). Symbolic handshakes from explicit names at each level must "
                     "carry exactly this domain, user and workstation, each in its field and nowhere else, and the responses must be keyed with the hash "
                     "MS-NLMP 3.3 defines for them, computed from this user, domain and password.")
    R.rule = "obligation: one per form of name and part of the client, and per level and message field or response"
    R.each([names] + [lambda R, lv=lv: level(R, lv) for lv in range(6)] + [lambda R, lv=lv: fallback(R, lv) for lv in (0,)], lambda R, f: f(R))


def position(s, ch):
    k = fresh_k()
    c = eq(seq_at(s, k), I(ch))
    return any_(k, seq_len(s), c), first_(k, seq_len(s), c)


def names(R):
    ip = R.interp((), version=3)
    r = client_root(ip.P, "new")
    r2 = client_root(ip.P, "new_with_domain")
    tys, cty = body_tys(ip, r)
    if len(tys) != 3:
        raise Undecided("Client::new takes %d arguments" % len(tys))
    name, password, target = [sym(ip, t, n) for t, n in zip(tys, ("name", "password", "target"))]
    res = run(R, ip, r, [name, password, target])
    w = "Client::new"
    R.ob(not feasible(NOT(res.rc)), "returns", "Client::new can fail: %s" % show(NOT(res.rc))[:200], w)
    s = ip.seqof(name)
    n = seq_len(s)
    bs, bi = position(s, 92)
    at, ai = position(s, 64)
    take = lambda i: (seq_slice(s, I(0), i), seq_slice(s, add(i, I(1)), sub(sub(n, i), I(1))))
    forms = [("DOMAIN\\user", bs) + take(bi), ("user@domain", AND(NOT(bs), at)) + take(ai)[::-1], ("user", AND(NOT(bs), NOT(at)), EMPTY, s)]
    for form, c, dom, user in forms:
        ctx = AND(res.rc, c)
        if not R.ob(feasible(ctx), "form:" + form, "no client from a name of the form %s" % form, w):
            continue
        r2s = run(R, ip, r2, [user, dom, password, target])
        T = ip.P.T[cty]["variants"][0]["f"]
        for i, f in enumerate(T):
            a = under(ip.fld(under(res.val, ctx), i, None, f["t"]), ctx)
            b = under(ip.fld(r2s.val, i, None, f["t"]), ctx)
            d = same(a, b, AND(ctx, r2s.rc))
            R.ob(d is None, "name:%s:%s" % (form, f["n"]), "from a name of the form %s the part '%s' of the client is not that of its user and domain: %s" % (form, f["n"], d), w)


def key_of(x):
    return x.a[2][0]


def level(R, lv):
    for h in rounds(R, lv, any_workstation=True):
        handshake(R, lv, h)


def handshake(R, lv, h):
    ip = h.ip
    w = "client.rs, level %d" % lv
    # negotiate
    ctx = AND(h.ok, lt(I(0), seq_len(h.domain)))
    ln, st = (unsplit([under(seq_at(h.neg, I(16 + o + i)), ctx) for i in range(k)]) for o, k in ((0, 2), (4, 4)))
    d = same(under(seq_slice(under(h.neg, ctx), st, ln), ctx), h.domain, ctx)
    R.ob(d is None, "negotiate:domain:%d" % lv, "the negotiate message does not carry the domain: %s" % d, w)
    ctx = AND(h.ok, eq(seq_len(h.domain), I(0)))
    for what, off, c in (("domain", 16, ctx), ("workstation", 24, h.ok)):
        ln = unsplit([under(seq_at(h.neg, I(off + i)), c) for i in range(2)])
        if what == "domain":
            R.ob(not feasible(AND(c, lt(I(0), ln))), "negotiate:no-%s:%d" % (what, lv), "the negotiate message carries a %s although there is none" % what, w)
        else:
            st = unsplit([under(seq_at(h.neg, I(off + 4 + i)), c) for i in range(4)])
            x = under(seq_slice(under(h.neg, c), st, ln), c)
            bad = AND(c, lt(I(0), ln))
            if feasible(bad):
                cw, ws = workstation(h, bad)
                d = same(x, ws, AND(bad, cw)) if ws is not None else "there is no workstation name"
                R.ob(d is None, "negotiate:workstation:%d" % lv, "the workstation name of the negotiate message is something else: %s" % d, w)
    # authenticate
    for what, text in (("domain", h.domain), ("user", h.user)):
        n, o, got = h.slot(what)
        d = same(got, utf16le(ip, text), h.ok)
        R.ob(d is None, "authenticate:%s:%d" % (what, lv), "the %s of the authenticate message is not the client's: %s" % (what, d), w)
    cw, ws = workstation(h, h.ok)
    n, o, got = h.slot("workstation")
    ctx = AND(h.ok, cw)
    if R.ob(feasible(ctx), "workstation-reach:%d" % lv, "a client never has a workstation name", w):
        d = same(under(got, ctx), utf16le(ip, ws), ctx)
        R.ob(d is None, "authenticate:workstation:%d" % lv, "the workstation of the authenticate message is not the client's: %s" % d, w)
    bad = AND(h.ok, NOT(cw), lt(I(0), n))
    R.ob(not feasible(bad), "authenticate:no-workstation:%d" % lv, "a workstation name is sent although there is none: %s" % show(bad)[:200], w)
    # hashes
    lmh, nth, v2 = lm_hash(ip, h.password), nt_hash(ip, h.password), ntlmv2_hash(ip, h.user, h.domain, h.password)
    for f, want in (("lm_hash", lmh), ("nt_hash", nth), ("ntlmv2_hash", v2)):
        try:
            v = h.c.field(f, h.initial)
        except Undecided:
            R.notes.append("no field " + f)
            continue
        d = same(ip.seqof(ip.fld(v, 0) if v.op != "seq" else v), want, h.c.new.rc)
        R.ob(d is None, "hash:%s:%d" % (f, lv), "the %s of the client is not that of its user, domain and password: %s" % (f, d), w)
    lm, nt = h.slot("lm_challenge_response")[2], h.slot("nt_challenge_response")[2]
    if lv >= 3:
        for nm, s in (("lm", lm), ("nt", nt)):
            ap = reached(s, "hmac_md5")
            bad = [x for x in ap if same(key_of(x), v2, h.ok) is not None]
            R.ob(not bad, "keyed:%s:%d" % (nm, lv), "the %s response is keyed with something else than the NTLMv2 hash: %s" % (nm, show(key_of(bad[0]))[:200] if bad else ""), w)
            # (that each response has its NTLMv2 form is C12 and C14)
        R.ob(reached(lm, "hmac_md5"), "keyed-some:%d" % lv, "no response is keyed with the NTLMv2 hash", w)
        return
    own = {"lm": [x for x in sources(lmh) if x.op == "app"], "nt": [x for x in sources(nth) if x.op == "app"]}
    for nm, s in (("lm", lm), ("nt", nt)):
        ap = reached(s, "des")
        for x in ap:
            k = sources(key_of(x))
            allowed = own["nt"] + (own["lm"] if nm == "lm" and lv == 0 else [])
            bad = [y for y in k if (y.op == "app" and y not in allowed and all(same(y, z, h.ok) is not None for z in allowed)) or y.op == "sym"]
            R.ob(not bad, "keyed:%s:%d" % (nm, lv), "the %s response of level %d is keyed with something else than its hash: %s" % (nm, lv, show(bad[0])[:200] if bad else ""), w)
    R.ob(reached(nt, "des"), "keyed-some:%d" % lv, "the NT response is not keyed with the NT hash", w)


def workstation(h, ctx):
    """(condition that the client has a workstation name, the name)"""
    try:
        v = h.c.field("workstation", h.initial)
    except Undecided:
        raise Undecided("the client keeps no workstation name")
    i = fidx(h.ip.P, "client::Client", "workstation")
    t = h.ip.P.T[h.c.ty]["variants"][0]["f"][i]["t"]
    c = h.ip.is_variant(v, 1, 2)
    return c, h.ip.seqof(h.ip.fld(under(v, c), 0, 1, h.ip.P.T[t]["args"][0]))


def fallback(R, lv):
    """where the workstation name comes from"""
    h = Handshake(R, lv)
    ip = h.ip
    c, ws = workstation(h, h.ok)
    env = [e for e in h.c.new.evs if e.kind in ("env", "fsread")]
    R.ob(env, "workstation-source", "the workstation name is not read from the system", "Client::get_workstation_name")
