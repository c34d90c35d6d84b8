"""Shared machinery of the rules: program access, symbolic roots, obligations, evidence and verdicts."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.setrecursionlimit(200000)
import load                                        # noqa: E402
import terms
from terms import *                                # noqa: E402,F401,F403
from interp import Interp, Unsupported, Ev, under  # noqa: E402

M = "messages::"
S = "messages::structures::"
NEG, CHAL, AUTH = M + "negotiate::Negotiate", M + "challenge::Challenge", M + "authenticate::Authenticate"
FLAGS, FIELD = M + "flags::Flags", M + "field::Field"
FT, VER = S + "filetime::FileTime", S + "version::Version"
OPT = "core::option::Option"


class Undecided(Exception):
    pass


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[8:].split(None, 2)[:2])
                d["text"] = l[8:].split(None, 2)[2]
                out.append(d)
    return out


class Past:
    """what an analysis run in another process leaves"""

    def __init__(self, stats, unknown):
        self.stats, self.unknown = stats, unknown


class Rule:
    """one run of one property's check"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.violations = []      # (key, message, where)
        self.obl = []             # (what, discharged?)
        self.roots = []
        self.interps = []
        self.progs = {}
        self.notes = []
        self.samples = []
        self.unknown = {}

    # ---- program
    def prog(self, features=()):
        p = self.progs.get(features)
        if p is None:
            p = self.progs[features] = load.dump(features)
        return p

    def interp(self, features=(), **cfg):
        cfg.setdefault("version", 3)
        ip = Interp(self.prog(features), cfg)
        self.interps.append(ip)
        return ip

    # ---- obligations
    suffix = ""

    def ob(self, ok, key, msg, where=""):
        """one obligation; a failed one is a violation"""
        self.obl.append((key, bool(ok)))
        if not ok:
            self.violations.append((key, msg + self.suffix, where))
        return ok

    def each(self, items, fn):
        """fn(self, item) for every item, each in a process of its own: the analysis of one does not depend on the others"""
        import pickle
        self.prog()
        items, running, done, fail = list(items), {}, {}, None
        todo = list(enumerate(items))
        while todo or running:
            while todo and len(running) < 8:
                i, it = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self.violations, self.obl, self.roots, self.interps, self.notes, self.samples = [], [], [], [], [], []
                    self.unknown = {}
                    err = None
                    try:
                        fn(self, it)
                    except (Undecided, Unsupported) as e:
                        err = ("undecided", str(e))
                    except BaseException:
                        import traceback
                        err = ("crash", traceback.format_exc())
                    st = [(ip.stats, ip.unknown) for ip in self.interps]
                    with os.fdopen(w, "wb") as f:
                        pickle.dump((self.violations, self.obl, self.roots, self.notes, self.samples, st, self.unknown, err), f)
                    os._exit(0)
                os.close(w)
                running[r] = (i, pid, [])
            import select
            for r in select.select(list(running), [], [])[0]:
                b = os.read(r, 1 << 16)
                i, pid, buf = running[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                done[i] = pickle.loads(b"".join(buf)) if buf else None
        for i in range(len(items)):
            d = done[i]
            if d is None:
                raise RuntimeError("the process analysing %s died" % (items[i],))
            v, o, ro, no, sa, st, un, err = d
            for k, n in un.items():
                self.unknown[k] = self.unknown.get(k, 0) + n
            self.violations += v
            self.obl += o
            self.roots += ro
            self.notes += no
            self.samples += sa
            for s_, u in st:
                self.interps.append(Past(s_, u))
            if err and err[0] == "crash":
                raise RuntimeError(err[1])
            fail = fail or err
        if fail:
            raise Undecided(fail[1])

    def need(self, n, least, what):
        if n < least:
            raise Undecided("only %d %s found, at least %d expected: the code no longer has the shape this rule reads" % (n, what, least))

    # ---- verdict
    def finish(self):
        known = {k["key"]: k for k in known_findings() if k.get("property") == self.prop}
        bad, kn = [], []
        for key, msg, where in self.violations:
            (kn if key in known else bad).append((key, msg, where))
        funcs = set()
        stats = {}
        for ip in self.interps:
            funcs |= ip.stats["functions"]
            for k, v in ip.stats.items():
                if isinstance(v, int):
                    stats[k] = stats.get(k, 0) + v
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": self.explanation,
                "rule": self.rule,
                "roots_analysed": len(set(self.roots)), "functions_analysed": sorted(funcs),
                "function_activations": stats.get("calls", 0), "basic_blocks": stats.get("blocks", 0),
                "call_sites": stats.get("call_sites", 0), "loops": stats.get("loops", 0),
                "obligations": len(self.obl), "discharged": sum(1 for _, ok in self.obl if ok),
                "samples": (self.samples or [k for k, _ in self.obl])[:12],
                "unmodelled": sorted(self.unknown)[:40],
                "notes": self.notes,
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(bad),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for key in dict.fromkeys(k for k, _, _ in kn):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[key]["text"]))
        if bad:
            d = os.path.join(VERIF, ".build", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, self.prop + ".json")
            json.dump([{"key": k, "violation": m, "where": w} for k, m, w in bad], open(p, "w"), indent=1)
            for k, m, w in bad[:8]:
                print("  [%s] %s%s" % (k, m[:700], (" at " + w[:200]) if w else ""))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("%s: held on %d obligations over %d functions, %d call sites (%.1f s)" % (
            self.prop, len(self.obl), len(funcs), stats.get("call_sites", 0), time.time() - self.t0))
        return 0

    explanation = ""
    rule = ""
    assumptions = ["rustc's front end and MIR construction (the analysed program is the one rustc builds, opt level 0, debug assertions on)",
                   "the models of std, nom and the cipher crates in /verif/engine/{models,libs}.py describe those libraries",
                   "x86-64 little-endian target; allocation does not fail; loops over finite input terminate"]


# ---------------------------------------------------------------- lookups
def ty_by_path(P, path):
    for n, t in enumerate(P.T):
        if t.get("path") == path and t["k"] == "adt" and t.get("local"):
            return n
    raise Undecided("type %s not found" % path)


def short(path):
    return path.rsplit("::", 1)[-1]


def wire_types(P):
    """paths of the local types with a Wire implementation"""
    out = []
    for r in P.roots:
        if r["trait"] == "messages::Wire" and r["name"] in ("serialize_into", "deserialize") and r["self"] is not None:
            t = P.T[r["self"]]
            if t.get("local") and t["k"] == "adt" and t["path"] not in out:
                out.append(t["path"])
    return out


def wire_root(P, path, name):
    for r in P.roots:
        if r["trait"] == "messages::Wire" and r["name"] == name and r["self"] is not None and P.T[r["self"]].get("path") == path \
                and "body" in P.I[r["inst"]]:
            return r
    raise Undecided("no %s for %s" % (name, path))


def method(P, path, name):
    """inherent method by type path and name"""
    suf = "::" + name
    out = []
    for r in P.roots:
        p = P.I[r["inst"]]["path"]
        if r["name"] == name and r["trait"] is None and (p == path + suf or p.startswith(path + "::<") and p.endswith(suf)) and "body" in P.I[r["inst"]]:
            out.append(r)
    if len(out) != 1:
        raise Undecided("method %s::%s not found (%d candidates)" % (path, name, len(out)))
    return out[0]


def fidx(P, path, name, variant=0):
    t = P.T[ty_by_path(P, path)]
    for i, f in enumerate(t["variants"][variant]["f"]):
        if f["n"] == name:
            return i
    raise Undecided("%s has no field %s" % (path, name))


def fty(P, path, name, variant=0):
    t = P.T[ty_by_path(P, path)]
    for f in t["variants"][variant]["f"]:
        if f["n"] == name:
            return f["t"]
    raise Undecided("%s has no field %s" % (path, name))


def fget(ip, path, v, name, variant=0):
    P = ip.P
    return ip.fld(v, fidx(P, path, name, variant), variant if P.T[ty_by_path(P, path)]["kind"] == "enum" else None, fty(P, path, name, variant))


def some_of(ip, path, name, v):
    """(condition that the Option field name of a path value is Some, its payload)"""
    o = fget(ip, path, v, name)
    c = ip.is_variant(o, 1, 2)
    return c, ip.fld(under(o, c), 0, 1, ip.TY[fty(ip.P, path, name)]["args"][0])


def sym(ip, ty, name):
    return ip.expand(ty, mkT("sym", name, ip.trange(ty)))


def symseq(name, r=(0, 255)):
    x = mkT("sym", name, None)
    set_elem_range(x, r)
    return span(x, I(0), mkT("len", x))


# ---------------------------------------------------------------- running
class Result:
    def __init__(self, rc, val, fin, evs):
        self.rc, self.val, self.fin, self.evs = rc, val, fin, evs

    def of(self, kind):
        return [e for e in self.evs if e.kind == kind]


def run(rule, ip, r, args, objs=None):
    inst = r["inst"] if isinstance(r, dict) else r
    rule.roots.append(ip.IN[inst]["name"])
    rc, v, fin, evs = ip.run_root(inst, args, objs or {})
    for e in evs:
        if e.kind == "unknown":
            rule.unknown[e.what] = rule.unknown.get(e.what, 0) + 1
            if e.what.startswith("control flow"):
                raise Undecided("control flow of %s is not fully understood" % ip.IN[inst]["name"])
    return Result(rc, v, fin, evs)


def body_tys(ip, r):
    b = ip.IN[r["inst"]]["body"]
    return b["locals"][1:b["argc"] + 1], b["locals"][0]


def ok_of(ip, v):
    """(condition that a Result is Ok, its value)"""
    c = ip.is_variant(v, 0, 2)
    return c, (ip.fld(under(v, c), 0, 0) if c is not FALSE else UNDEF)


def decode(rule, ip, path, inp=None):
    """symbolic decoding: (Result, condition of success, value, rest)"""
    P = ip.P
    r = wire_root(P, path, "deserialize")
    inp = symseq("in") if inp is None else inp
    res = run(rule, ip, r, [vref(inp)])
    c, t = ok_of(ip, res.val)
    if c is FALSE:
        return res, c, UNDEF, UNDEF
    rest, val = ip.fld(t, 0), ip.fld(t, 1)
    return res, c, val, rest


def encode(rule, ip, path, val=None, base="v"):
    """symbolic encoding: (Result, value encoded, condition of success, returned size, bytes written)"""
    P = ip.P
    r = wire_root(P, path, "serialize_into")
    tys, _ = body_tys(ip, r)
    ty = ip.TY[tys[0]]["elem"]
    if val is None:
        val = sym(ip, ty, base)
    wty = ip.TY[tys[1]]["elem"]
    res = run(rule, ip, r, [vref(val), mkT("mref", -1, "w", ())], {"w": (EMPTY, wty)})
    c, n = ok_of(ip, res.val) if res.val is not UNDEF and res.val is not None else (FALSE, UNDEF)
    return res, val, AND(res.rc, c), n, ip.seqof(res.fin["w"])


def well_formed(rule, ip, path, b):
    """the condition under which bytes b, of the right number, are a value of a fixed-size structure a decoder has to accept"""
    S_ = "messages::structures::"
    if path == S_ + "single_host_data::SingleHostData":
        return eq(le_of(seq_slice(b, I(4), I(4))), I(0))
    if path == S_ + "signature::MessageSignature":
        return eq(le_of(seq_slice(b, I(0), I(4))), I(1))
    if path == S_ + "version::Version":
        return AND(*[eq(seq_at(b, I(i)), I(k)) for i, k in ((4, 0), (5, 0), (6, 0), (7, 15))])
    if path == S_ + "filetime::FileTime":
        # unless the system cannot represent the time at all
        r = method(ip.P, path, "to_system_time")
        fs = ip.TY[ty_by_path(ip.P, path)]["variants"][0]["f"]
        v = agg(path, 0, tuple(le_of(seq_slice(b, I({"low": 0, "high": 4}[f["n"]]), I(4))) for f in fs))
        res = run(rule, ip, r, [vref(v)])
        return AND(res.rc, ip.is_variant(res.val, 1, 2))
    return TRUE


def le_bytes(x, n):
    return [byte_of(x, i) for i in range(n)]


def byte_of(x, i):
    if x.op == "int":
        return I((x.a[0] >> (8 * i)) & 255)
    t = byte(x, i)
    return t


def unsplit(bs):
    """the integer whose little-endian bytes the terms bs are; an integer wider than the bytes is returned whole"""
    ats = [first_atom(b) for b in bs if b.op == "mux"]
    if ats:
        v = min(ats, key=lambda x: x.ord)
        return ite(var(v), unsplit([restrict(b, v, 1) for b in bs]), unsplit([restrict(b, v, 0) for b in bs]))
    for b in bs:
        if b.op == "byte":
            x = b.a[0]
            if all(byte(x, i) is y for i, y in enumerate(bs)):
                return x
    return le_of(seq_of(bs))


def same(a, b, ctx=TRUE):
    """None when a and b are the same value whenever ctx holds, else a description of a difference"""
    try:
        w = equal(under(a, ctx), under(b, ctx), ctx, feasible)
    except Budget:
        return "could not be shown equal within the budget"
    if w is None:
        return None
    return "; ".join(("%s = %s" % (show(x)[:160], y)) if not isinstance(x, str) else "%s differs from %s" % (show(y)[:300], show(z)[:300])
                     for x, y, z in [(p + (None,))[:3] for p in w[-3:]])


def possible(c, depth=10):
    """feasible, with the conditions inside the terms that the atoms of c are about told apart"""
    if not feasible(c):
        return False
    if depth:
        seen, todo, inner = set(), [(c, False)], set()
        while todo:
            x, deep = todo.pop()
            if (x, deep) in seen:
                continue
            seen.add((x, deep))
            if x.op == "mux" and deep:
                v = x.a[0]
                if not any(str(k.a[0]).startswith(("mv", "bv")) for k in v.fv):
                    inner.add(v)
            if x.op == "mux" and not deep:
                todo += [(x.a[1], False), (x.a[2], False)] + [(y, True) for y in terms._kids(x.a[0].a)]
            elif deep and not (x.op == "app" and x.a[0] == "loop"):
                todo += [(y, True) for y in terms._kids(x.a)]
        if inner:
            v = min(inner, key=lambda v: v.ord)
            return any(possible(AND(terms.restrict(c, v, val), var(v) if val else NOT(var(v))), depth - 1) for val in (1, 0))
    return True


# ---------------------------------------------------------------- payload descriptors (MS-NLMP 2.2.1)
HEADER = {NEG: 32, CHAL: 48, AUTH: 64}
SLOTS = {
    NEG: [(16, "domain_name"), (24, "workstation")],
    CHAL: [(12, "target_name"), (40, "target_infos")],
    AUTH: [(12, "lm_challenge_response"), (20, "nt_challenge_response"), (28, "domain"), (36, "user"), (44, "workstation"),
           (52, "encrypted_random_session_key")],
}


def wire_inst(P, ty, name):
    """the Wire method instance of a type (by type number)"""
    path = P.T[ty].get("path")
    return wire_root(P, path, name)


def enc_term(R, ip, ty, val):
    """(condition of success, bytes) of encoding a value of a type alone; Vec<T> is the concatenation of its elements"""
    P = ip.P
    if P.T[ty].get("path") == "alloc::vec::Vec":
        ety = P.T[ty]["args"][0]
        s = ip.seqof(val)
        k = fresh_k()
        c, b = enc_term(R, ip, ety, ip.expand(ety, seq_at(s, k)))
        return NOT(any_(k, seq_len(s), NOT(c))), flat(k, seq_len(s), b)
    r = wire_inst(P, ty, "serialize_into")
    tys, _ = body_tys(ip, r)
    res = run(R, ip, r, [vref(val), mkT("mref", -1, "w", ())], {"w": (EMPTY, ip.TY[tys[1]]["elem"])})
    c, n = ok_of(ip, res.val)
    return AND(res.rc, c), ip.seqof(res.fin["w"])


def slot_value(R, ip, path, name, val):
    """(condition that the value of a payload slot is present, type, value) -- a list is present when it is not empty"""
    P = ip.P
    ft = fty(P, path, name)
    if P.T[ft].get("path") == OPT:
        c, v = some_of(ip, path, name, val)
        return c, P.T[ft]["args"][0], v
    v = fget(ip, path, val, name)
    return lt(I(0), seq_len(ip.seqof(v))), ft, v


# ---------------------------------------------------------------- the client
def client_root(P, name):
    """method of Client<V>, V left generic"""
    out = [r for r in P.roots if r["name"] == name and r["trait"] is None and P.I[r["inst"]]["path"].startswith("client::Client")
           and "body" in P.I[r["inst"]]]
    if len(out) != 1:
        raise Undecided("method Client::%s not found (%d candidates)" % (name, len(out)))
    return out[0]


class Client:
    """a client driven through its public methods; arguments are arbitrary"""

    def __init__(self, R, version, ctor="new_with_domain", features=(), preset=None, **cfg):
        self.R, self.v = R, version
        self.ip = R.interp(features, version=version, **cfg)
        r = client_root(self.ip.P, ctor)
        tys, self.ty = body_tys(self.ip, r)
        names = {4: ("user", "domain", "password", "target"), 3: ("user", "password", "target")}.get(len(tys))
        if names is None:
            raise Undecided("Client::%s takes %d arguments" % (ctor, len(tys)))
        self.args = dict(zip(names, [sym(self.ip, t, n) for n, t in zip(names, tys)]))
        self.new = run(R, self.ip, r, list(self.args.values()))
        self.obj = self.new.val
        self.evs = list(self.new.evs)

    def field(self, name, v=None):
        return fget(self.ip, "client::Client", self.obj if v is None else v, name)

    def call(self, name, *args):
        r = client_root(self.ip.P, name)
        tys, _ = body_tys(self.ip, r)
        a = [mkT("mref", -1, "client", ())]
        for t, n in zip(tys[1:], args):
            a.append(sym(self.ip, t, n) if isinstance(n, str) else n)
        res = run(self.R, self.ip, r, a, {"client": (self.obj, self.ty)})
        self.obj = res.fin["client"]
        self.evs += res.evs
        if len(a) > 1:
            res.args = a[1:]
        return res


# ---------------------------------------------------------------- text
def utf16le(ip, s):
    """the little-endian UTF-16 bytes of a text"""
    import models
    u = models.utf16(ip, s)
    k = fresh_k()
    x = seq_at(u, k)
    return flat(k, seq_len(u), seq_of([byte(x, 0), byte(x, 1)]))


def units(s, n):
    """n little-endian 16-bit units of a byte sequence"""
    k = fresh_k()
    return flat(k, n, seq_of([le_of(seq_slice(s, mulc(k, 2), I(2)))]))


def dec16(u):
    """(condition that the units are well-formed, the text they carry)"""
    import models
    return var(mkT("bit", app("isutf16", (0, 1), u), 0)), models.opaque_seq("dec16", (0, 255), u)


def seq_of_rest(ip, rest):
    """the bytes a decoder left"""
    return ip.seqof(ip.deref(None, rest)) if rest.op != "seq" else rest
