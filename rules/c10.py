"""C10: confinement of passwords, hashes and session keys."""
from base import *
from spec import *

ONEWAY = ("md4", "md5", "hmac_md5", "rc4", "des")


def sources(t, out=None):
    """what a key is made of: values outside any one-way function, and the results of those"""
    out = set() if out is None else out
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and x.a[0] in ONEWAY or x.op == "sym" or x.op == "app" and x.a[0].startswith("rand"):
            out.add(x)
            continue
        st.extend(values(x))
    return out


def values(x):
    """the parts of a term its value is copied from; deciding a branch copies nothing, but a bit used as a number does"""
    if x.op == "mux":
        v = x.a[0]
        return ([v.a[0]] if v.op == "bit" else []) + [x.a[1], x.a[2]]
    if x.op == "mx":
        return [x.a[1], x.a[2]]
    if x.op in ("ge0", "eq0", "isv", "len", "Any", "First"):
        return []
    if x.op == "fl":
        return [x.a[1]]
    if x.op == "at":
        return [x.a[0]]
    if x.op == "sp":
        return [x.a[0]]
    if x.op == "rep":
        return [x.a[0]]
    if x.op in ("lin", "app", "agg", "seq", "bits", "byte", "le", "vref", "e", "proj", "loop"):
        return list(kids(x.a))
    return list(kids(x.a))


def kids(a):
    for x in a:
        if isinstance(x, tuple):
            yield from kids(x)
        elif hasattr(x, "op"):
            yield x


def leak(t, secret):
    """a secret that t carries outside one-way functions, or None"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in secret:
            return x
        if x.op == "app" and x.a[0] in ONEWAY:
            continue
        st.extend(values(x))
    return None


def keys_of(t):
    """every key of a one-way function inside t, the data of the stream cipher included"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and x.a[0] == "rc4":
            yield "session key", x.a[2][2]
            yield "key exchange key", x.a[2][0]
        elif x.op == "app" and x.a[0] in ("hmac_md5", "des"):
            yield "key", x.a[2][0]
        st.extend(kids(x.a))


def check(R):
    R.explanation = ("Information flow over the value terms of a whole handshake, at every level and from both constructors. The secrets are the password, the "
                     "three hashes, the keys found as keys of the one-way functions in the messages, the data of the stream cipher and the exported key. A "
                     "transmitted message, log record or output must not carry a secret other than inside an argument of MD4, MD5, HMAC, DES or RC4; the "
                     "client object must not carry the password so.")
    R.rule = "obligation: one per level and sink (message, log record, output, client state)"
    R.assumptions = R.assumptions + ["branches taken on a secret (its length, say) are not counted as carrying it"]
    R.each(range(6), level)
    R.each([0], encoder)


def level(R, lv):
    for h in rounds(R, lv, ("later",)):
        handshake(R, lv, h)


def handshake(R, lv, h):
    ip = h.ip
    where = "client.rs"
    pw = sources(h.password) | {s for s in sources(h.c.args["password"]) if s.op == "sym" and show(s).startswith("password")}
    pw = {x for x in pw if "password" in show(x)}
    if not pw:
        raise Undecided("no password argument")
    secret = {x: "password" for x in pw}

    def add_(what, s):
        for x in sources(s):
            if x.op == "app" and x not in secret:
                secret[x] = what
    add_("LM hash", lm_hash(ip, h.password))
    add_("NT hash", nt_hash(ip, h.password))
    add_("NTLMv2 hash", ntlmv2_hash(ip, h.user, h.domain, h.password))
    for nm in ("lm_hash", "nt_hash", "ntlmv2_hash"):
        try:
            add_(nm, ip.seqof(h.c.field(nm, h.initial)))
        except (Undecided, StopIteration, KeyError, IndexError):
            pass
    # the same client goes on: a second authenticate message, then a new handshake
    seq = lambda v: ip.seqof(ip.deref(None, v)) if v.op in ("vref", "mref") else ip.seqof(v)
    more = []
    draws = {e.data[0] for e in h.fresh}
    outs = [h.out]
    for nm in ("send_authenticate", "send_negociate"):
        r = h.c.call(nm)
        more.append(r)
        draws |= {e.data[0] for e in r.evs if e.kind == "fresh"}
        if feasible(r.rc):
            outs.append(under(seq(r.val), r.rc))
    for what, k in [p for o in outs for p in keys_of(o)]:
        for x in sources(k):
            if x.op == "app" or x in draws:
                secret.setdefault(x, what)
    for v in (exchanged(h.cflags), NOT(exchanged(h.cflags))):
        k = exported(h, v)
        if k is not None:
            for x in sources(k):
                secret.setdefault(x, "exported session key")
    cc = {x for x in secret if x.op == "sym" and not show(x).startswith("password")}
    for x in cc:
        if x not in draws:
            del secret[x]
    sinks = [("the negotiate message", h.neg, ""), ("the authenticate message", h.out, "")]
    sinks += [("a later message", o, "") for o in outs[1:]]
    for r in list(h.res) + more:
        for e in r.evs:
            if e.kind in ("log", "print"):
                for i, d in enumerate(e.data):
                    if hasattr(d, "op"):
                        sinks.append(("a log record" if e.kind == "log" else "the output", d, " > ".join(e.chain[-4:])))
    for nm, t, w in sinks:
        x = leak(t, secret)
        R.ob(x is None, "sink:%s:%d" % (nm.replace(" ", "-"), lv), "at level %d, %s carries the %s in the clear: %s" % (
            lv, nm, secret.get(x), show(x)[:200] if x is not None else ""), w or where)
    for nm, o in (("created", h.initial), ("after negotiate", h.obj1), ("after the challenge", h.obj2), ("after authenticate", h.c.obj)):
        x = leak(o, pw)
        R.ob(x is None, "kept:%s:%d" % (nm.replace(" ", "-"), lv), "at level %d the client, %s, keeps the password" % (lv, nm), where)
    c = Client(R, lv, "new")
    pw2 = {s for s in sources(c.args["password"]) if "password" in show(s)}
    x = leak(c.obj, pw2)
    R.ob(x is None and pw2, "kept:new:%d" % lv, "at level %d the client made by new keeps the password" % lv, where)
    for e in c.new.evs:
        if e.kind in ("log", "print"):
            for d in e.data:
                if hasattr(d, "op"):
                    x = leak(d, pw2)
                    R.ob(x is None, "sink:new:%d" % lv, "Client::new writes the password to %s" % e.what, " > ".join(e.chain[-4:]))


def encoder(R, _):
    """an authenticate message keeps the exported key beside what it transmits"""
    ip = R.interp()
    res, v, c, n, out = encode(R, ip, AUTH)
    cond, k = some_of(ip, AUTH, "exported_session_key", v)
    secret = {x for x in sources(ip.seqof(ip.fld(k, 0)))}
    own = {x: "exported session key" for x in secret if "exported_session_key" in show(x) or x.op == "sym"}
    s = ip.seqof(ip.fld(k, 0))
    own = {g.a[0] for g in s.a[0] if g.op == "sp"}
    if not own:
        raise Undecided("exported key of an authenticate message not found")
    sinks = [("an encoded authenticate message", out, "")] + [("a log record", d, " > ".join(e.chain[-4:])) for e in res.evs
                                                              if e.kind in ("log", "print") for d in e.data if hasattr(d, "op")]
    for nm, t, w in sinks:
        R.ob(leak(t, own) is None, "encode:" + nm.replace(" ", "-"), "%s carries the exported session key" % nm, w)
