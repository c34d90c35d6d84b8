"""The MS-NLMP formulas, as terms, and the client's handshake they are compared with."""
from base import *
import libs
import models

fixed = libs.fixed_seq


def md4(s):
    return fixed("md4", 16, s)


def md5(s):
    return fixed("md5", 16, s)


def hmac(k, s):
    return fixed("hmac_md5", 16, k, s)


def des7(k7, block):
    """DES under a 7-byte key: the 56 bits spread over 8 bytes, parity ignored"""
    bits = []
    for i in range(7):
        bits += list(reversed(tobits(seq_at(k7, I(i)), 8)))
    key = []
    for i in range(8):
        key.append(frombits(tuple([FALSE] + list(reversed(bits[7 * i:7 * i + 7])))))
    return fixed("des", 8, seq_of(key), block)


def zeros(n):
    return seq_of([I(0)] * n)


def desl(k, d):
    z = cat(k, zeros(5))
    return cat(*[des7(seq_slice(z, I(7 * i), I(7)), d) for i in range(3)])


def upper(ip, s):
    return models.recase(ip, s, True)


def lm_hash(ip, password):
    u = upper(ip, password)
    n = seq_len(u)
    p = ite_seq(le_(I(14), n), seq_slice(u, I(0), I(14)), cat(u, rep(I(0), max0(sub(I(14), n)))))
    m = b"KGS!@#$%"
    return cat(*[des7(seq_slice(p, I(7 * i), I(7)), seq_of([I(x) for x in m])) for i in range(2)])


def nt_hash(ip, password):
    return md4(utf16le(ip, password))


def ntlmv2_hash(ip, user, domain, password):
    return hmac(nt_hash(ip, password), cat(utf16le(ip, upper(ip, user)), utf16le(ip, domain)))


FLAG = {"UNICODE": 0, "OEM": 1, "SIGN": 4, "SEAL": 5, "LM_KEY": 7, "NTLM": 9, "OEM_DOMAIN": 12, "OEM_WORKSTATION": 13, "ESS": 19, "NON_NT": 22,
        "TARGET_INFO": 23, "VERSION": 25, "KEY_EXCH": 30}


def kxkey_v1(flags, sbk, lm8, lmhash, server):
    """3.4.5.1"""
    f = lambda n: bit(flags, FLAG[n])
    lmk = cat(des7(seq_slice(lmhash, I(0), I(7)), lm8), des7(cat(seq_of([seq_at(lmhash, I(7))]), seq_of([I(0xbd)] * 6)), lm8))
    plain = ite_seq(f("LM_KEY"), lmk, ite_seq(f("NON_NT"), cat(seq_slice(lmhash, I(0), I(8)), zeros(8)), sbk))
    return ite_seq(f("ESS"), hmac(sbk, cat(server, lm8)), plain)


def exchanged(flags):
    f = lambda n: bit(flags, FLAG[n])
    return AND(f("KEY_EXCH"), OR(f("SIGN"), f("SEAL")))


class Handshake:
    """negotiate, challenge and authenticate of an arbitrary client at one level"""

    def __init__(self, R, level, any_version=True, any_state=False, any_workstation=False):
        self.level, self.R, self.how = level, R, "first"
        c = self.c = Client(R, level)
        ip = self.ip = c.ip
        if any_version:
            i, t = fidx(ip.P, "client::Client", "version"), fty(ip.P, "client::Client", "version")
            fs = list(c.obj.a[2])
            fs[i] = sym(ip, t, "cver")
            c.obj = agg(c.obj.a[0], c.obj.a[1], tuple(fs))
        if any_workstation:
            i = fidx(ip.P, "client::Client", "workstation")
            t = ip.P.T[c.ty]["variants"][0]["f"][i]["t"]
            c.obj = agg(c.obj.a[0], c.obj.a[1], tuple(sym(ip, t, "client.workstation") if j == i else v for j, v in enumerate(c.obj.a[2])))
        self.initial = c.obj
        self.user, self.domain, self.password = (ip.seqof(c.args[n]) for n in ("user", "domain", "password"))
        self.any_state = any_state
        self.go()

    def seq(self, v):
        return self.ip.seqof(self.ip.deref(None, v)) if v.op in ("vref", "mref") else self.ip.seqof(v)

    def fields(self):
        return self.ip.P.T[self.c.ty]["variants"][0]["f"]

    def replace(self, obj, names, but=()):
        """obj with an arbitrary value in each field named"""
        return agg(obj.a[0], obj.a[1], tuple(sym(self.ip, f["t"], "client." + f["n"]) if f["n"] in names and f["n"] not in but else v
                                             for f, v in zip(self.fields(), obj.a[2])))

    def go(self, chal="chal"):
        """negotiate, challenge and authenticate from the client as it is"""
        c, ip = self.c, self.ip
        r1 = c.call("send_negociate")
        self.neg = self.seq(r1.val)
        self.obj1 = c.obj
        r2 = c.call("recv_challenge", chal)
        self.obj2 = c.obj
        self.chal = r2.args[0]
        if self.any_state:
            # whatever earlier calls left in the client, the handshake state and the workstation name (fixed at creation) aside
            c.obj = self.obj2 = self.replace(c.obj, [f["n"] for f in self.fields()], ("state", "workstation"))
        self.r = (c.new, r1, r2)
        self.ok0 = AND(AND(c.new.rc, r1.rc), r2.rc)
        self.finish()

    def finish(self):
        c, ip = self.c, self.ip
        r3 = c.call("send_authenticate")
        self.obj3 = c.obj
        self.res = self.r + (r3,)
        self.ok = AND(self.ok0, r3.rc)
        self.out = under(self.seq(r3.val), self.ok)
        self.neg = under(self.neg, self.ok)
        if not feasible(self.ok):
            raise Undecided("the client never completes a handshake at level %d" % self.level)
        self.cflags = fget(ip, FLAGS, fget(ip, CHAL, self.chal, "negotiate_flags"), "0")
        self.server = ip.seqof(ip.fld(fget(ip, CHAL, self.chal, "server_challenge"), 0))
        self.attrs = ip.seqof(fget(ip, CHAL, self.chal, "target_infos"))
        self.flags = le_of(seq_slice(self.out, I(60), I(4)))
        self.fresh = [e for e in r3.evs if e.kind == "fresh"]
        self._chalb = None

    def copy(self, how, obj):
        import copy
        g = copy.copy(self)
        g.c = copy.copy(self.c)
        g.c.obj, g.c.evs, g.how = obj, list(self.c.evs), how
        return g

    def chal_bytes(self):
        if self._chalb is None:
            ce, b = enc_term(self.R, self.ip, ty_by_path(self.ip.P, CHAL), self.chal)
            self._chalb = (AND(self.ok, ce), b)
        return self._chalb

    def slot(self, name, ctx=None):
        """(length, offset, bytes) of a payload of the authenticate message"""
        off = [o for o, n in SLOTS[AUTH] if n == name][0]
        ctx = self.ok if ctx is None else ctx
        ln, st = (unsplit([under(seq_at(self.out, I(off + o + i)), ctx) for i in range(w)]) for o, w in ((0, 2), (4, 4)))
        return ln, st, under(seq_slice(under(self.out, ctx), st, ln), ctx)


HOW = {"first": "", "resent": " (when the authenticate message is asked for again)", "later": " (in a later handshake of the same client)"}


def told(evs):
    return [(e.kind, e.cond, tuple(d for d in e.data if hasattr(d, "op"))) for e in evs if e.kind in ("log", "print")]


def rounds(R, lv, hows=("resent", "later"), **kw):
    """The first handshake of a client; then its authenticate message asked for again, and a later handshake of the same client, unless
    they are shown to be the same function of the challenge and of the random draws, whatever earlier calls left in the client."""
    h = Handshake(R, lv, **kw)
    R.suffix = ""
    yield h
    ip = h.ip
    changed = [f["n"] for f, a, b, c, d in zip(h.fields(), h.initial.a[2], h.obj1.a[2], h.obj2.a[2], h.obj3.a[2]) if not (a is b and b is c and c is d)]
    if "state" not in changed:
        raise Undecided("the handshake state of the client is not in its field 'state'")
    P = ip.P
    vs = P.T[ty_by_path(P, "client::ClientState")]["variants"]
    num = lambda want: [i for i, v in enumerate(vs) if tuple(P.T[f["t"]].get("path") for f in v["f"]) == want]
    rec, sent = num((NEG, CHAL)), num((NEG, CHAL, AUTH))

    def equal(g, how_):
        """the message and what else leaves the client are those of the first handshake, its draws and clock readings by another name"""
        de, dh = ([(e.kind, e.data[0]) for r in x.res[1:] for e in r.evs if e.kind in ("fresh", "clock")] for x in (g, h))
        if how_ == "resent":
            de, dh = ([(e.kind, e.data[0]) for e in x.res[3].evs if e.kind in ("fresh", "clock")] for x in (g, h))
        if [k for k, _ in de] != [k for k, _ in dh]:
            return False
        m = {a: b for (_, a), (_, b) in zip(de, dh) if a is not b}
        if m:
            g.out, g.neg, g.ok = subst(g.out, m), subst(g.neg, m), subst(g.ok, m)
        if [[x[:1] + tuple(subst(d, m) for d in (x[1],) + x[2]) for x in told(r.evs)] for r in g.res[1:]] != [
                [x[:1] + (x[1],) + x[2] for x in told(r.evs)] for r in h.res[1:]]:
            return False
        if g.out is h.out and g.neg is h.neg:
            return True
        if feasible(AND(h.ok, NOT(g.ok))) or feasible(AND(g.ok, NOT(h.ok))):
            return False
        return same(g.out, h.out, h.ok) is None and same(g.neg, h.neg, h.ok) is None

    def general(how):
        if how == "resent":
            if len(rec) != 1 or len(sent) != 1:
                return False
            st = under(fget(ip, "client::Client", h.obj2, "state"), h.ok0)
            i = fidx(P, "client::Client", "state")
            f = vs[sent[0]]["f"]
            part = lambda j: ip.fld(st, j, rec[0], f[j]["t"])
            st = agg(agg_name(st, rec[0]), sent[0], (part(0), part(1), sym(ip, f[2]["t"], "client.last")))
            o = h.replace(h.obj2, changed, ("state",))
            g = h.copy(how, agg(o.a[0], o.a[1], tuple(st if j == i else v for j, v in enumerate(o.a[2]))))
            g.finish()
        else:
            g = h.copy(how, h.replace(h.initial, changed))
            g.any_state = False
            g.go()
        return equal(g, how)

    for how in hows:
        try:
            ok = general(how)
        except (Undecided, AttributeError, IndexError, KeyError, AssertionError):
            ok = False
        if ok:
            R.obl.append(("level %d: %s, as the first" % (lv, how), True))
            continue
        R.notes.append("level %d: %s handshake analysed on its own" % (lv, how))
        g = h.copy(how, h.obj3)
        g.any_state = False
        try:
            if how == "resent":
                g.finish()
            else:
                g.go("chal2")
        except Undecided:
            if not feasible(g.ok):
                continue
            raise
        R.suffix = HOW[how]
        yield g
        R.suffix = ""


def agg_name(st, variant):
    """the type tag of the alternative of a state that has this variant"""
    todo, seen = [st], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "agg" and x.a[1] == variant:
            return x.a[0]
        if x.op == "mux":
            todo += [y for y in x.a if hasattr(y, "op")]
    raise Undecided("no such state")


def exported(h, ctx):
    """the exported session key the client keeps after the handshake, or None when it keeps none"""
    if h.how == "resent":
        return None
    st = fget(h.ip, "client::Client", h.c.obj, "state")
    P = h.ip.P
    for vi, v in enumerate(P.T[ty_by_path(P, "client::ClientState")]["variants"]):
        for j, f in enumerate(v["f"]):
            if P.T[f["t"]].get("path") == AUTH:
                a = h.ip.fld(under(st, ctx), j, vi, f["t"])
                c, k = some_of(h.ip, AUTH, "exported_session_key", under(a, ctx))
                return h.ip.seqof(h.ip.fld(under(k, ctx), 0))
    return None


def whole_app(s, name):
    """arguments of the application a sequence is the whole result of, or None"""
    g = s.a[0][0] if s.op == "seq" and len(s.a[0]) == 1 else None
    if g is not None and g.op == "sp" and g.a[0].op == "app" and g.a[0].a[0] == name and g.a[1] is I(0):
        return g.a[0].a[2]
    return None
