"""C24: the Windows client and the security interface."""
import shutil
from base import *
import load
import models as M
from interp import some, ok, err

WIN = "win::WinClient"


def opt(ip, v):
    """(present, payload) of an argument that may be an Option"""
    return ip.is_variant(v, 1, 2), ip.fld(v, 0, 1, None)


def foreign(ip, name):
    """the type of the windows crate with that name"""
    for n, t in enumerate(ip.TY):
        if t["k"] == "adt" and t["path"].startswith("windows::") and t["path"].endswith("::" + name) and "variants" in t:
            return n
    raise Undecided("type %s of the windows crate not found" % name)


def handle(ip, name):
    return mkT("sym", name, None)


def holds(v, c, inits, out):
    """does the handle value v, taken under c, come from the interface (or from the client as it was)"""
    if v is UNDEF:
        out.append((c, "nothing"))
    elif v.op == "mux":
        holds(v.a[1], AND(c, var(v.a[0])), inits, out)
        holds(v.a[2], AND(c, NOT(var(v.a[0]))), inits, out)
    elif v.op == "agg":
        for x in v.a[2]:
            holds(x, c, inits, out)
    else:
        r = root_sym(v)
        k = inits.get(r)
        bad = c if k is None else AND(c, NOT(k))
        if bad is not FALSE and feasible(bad):
            out.append((bad, show(v)[:60]))


def root_sym(v):
    while v.op in ("proj", "at", "byte") and isinstance(v.a[0], T):
        v = v.a[0]
    return v.a[0] if v.op == "sym" else show(v)[:60]


class Calls:
    """what the interface was asked for and answered"""

    def __init__(self, ip):
        self.ip, self.calls = ip, []
        self.inits = {}


def status(c):
    return c.ip.fresh("status", (-(1 << 31), (1 << 31) - 1))


def use(c, w, v, what):
    out = []
    holds(v, c.st.pc, w.inits, out)
    c.ev("sspi-use", what, (tuple(out),))


def write_if(c, ref, cond, new, ty=None):
    old = c.ip.deref(c.st, ref, ty)
    c.ip.rwrite(c.fr, c.st, ref, ite(cond, new, old))


def put(c, ref, new):
    c.ip.rwrite(c.fr, c.st, ref, new)


def install(ip):
    """transfer functions of the interface: any status; on success, and only then, handles and buffers are written"""
    w = ip.sspi = Calls(ip)

    def new_handle(c, ref, st, kind):
        h = handle(ip, "%s#%d" % (kind, len(w.calls)))
        good = ge0(st)
        w.inits[h.a[0]] = good
        # on failure it may hold anything: nothing may rely on what was there unless it was a handle before
        write_if(c, ref, good, h)
        return h

    def acquire(c):
        st = status(c)
        w.calls.append(("AcquireCredentialsHandle", st, c.st.pc, None))
        new_handle(c, c.a[-2], st, "credentials")
        p, ref = opt(ip, c.a[-1])
        c.ev("sspi", "AcquireCredentialsHandle", (st,))
        return result(ip, c, st)

    def names(t):
        return [f["n"] for f in ip.TY[foreign(ip, t)]["variants"][0]["f"]]

    def initialize(c):
        st = status(c)
        n = len(w.calls)
        p, ref = opt(ip, c.a[0])
        if p is not FALSE:
            use(c, w, c.ip.deref(c.st, ref), "credentials of InitializeSecurityContext")
        p, ref = opt(ip, c.a[1])
        if p is not FALSE:
            use(c, w, c.ip.deref(c.st, ref), "context of InitializeSecurityContext")
        p, ref = opt(ip, c.a[6])
        if p is not FALSE:
            desc = c.ip.deref(c.st, ref)
            buf = c.ip.deref(c.st, ip.fld(desc, names("SecBufferDesc").index("pBuffers"), None, None))
            bn = names("SecBuffer")
            c.ev("sspi-input", "input of InitializeSecurityContext", (c.st.pc, p, ip.fld(buf, bn.index("cbBuffer"), None, None), ip.fld(buf, bn.index("pvBuffer"), None, None)))
        else:
            c.ev("sspi-input", "input of InitializeSecurityContext", (c.st.pc, p, None, None))
        p, ref = opt(ip, c.a[8])
        if p is not FALSE:
            new_handle(c, ref, st, "context")
        p, ref = opt(ip, c.a[9])
        cb = ip.fresh("written", (0, (1 << 32) - 1))
        pv = None
        if p is not FALSE:
            desc = c.ip.deref(c.st, ref)
            bufs = ip.fld(desc, names("SecBufferDesc").index("pBuffers"), None, None)
            bn = names("SecBuffer")
            buf = c.ip.deref(c.st, bufs)
            pv = ip.fld(buf, bn.index("pvBuffer"), None, None)
            write_field(c, bufs, buf, bn.index("cbBuffer"), cb)
        w.calls.append(("InitializeSecurityContext", st, c.st.pc, (cb, pv)))
        c.ev("sspi", "InitializeSecurityContext", (st, cb, pv))
        return agg(ip.TY[c.dty]["path"], 0, (st,))

    def write_field(c, ref, v, i, x):
        v = ip.expand(foreign(ip, "SecBuffer"), v)
        fs = list(v.a[2])
        fs[i] = x
        put(c, ref, agg(v.a[0], v.a[1], tuple(fs)))

    def complete(c):
        st = status(c)
        w.calls.append(("CompleteAuthToken", st, c.st.pc, None))
        use(c, w, c.ip.deref(c.st, c.a[0]), "context of CompleteAuthToken")
        c.ev("sspi", "CompleteAuthToken", (st,))
        return result(ip, c, st)

    mine = {"AcquireCredentialsHandleA": acquire, "AcquireCredentialsHandleW": acquire, "InitializeSecurityContextA": initialize,
            "InitializeSecurityContextW": initialize, "CompleteAuthToken": complete}

    def code(c, v):
        if v.op in ("mref", "vref"):
            v = c.ip.deref(c.st, v)
        return ip.fld(v, 0, 0, None)

    def hr_ok(c):
        return ite(ge0(code(c, c.a[0])), ok(M.UNIT), err(mkT("sym", "winerror", None)))

    hresult = {"ok": hr_ok, "is_ok": lambda c: ge0(code(c, c.a[0])), "is_err": lambda c: NOT(ge0(code(c, c.a[0]))),
               "eq": lambda c: eq(code(c, c.a[0]), code(c, c.a[1])), "ne": lambda c: NOT(eq(code(c, c.a[0]), code(c, c.a[1])))}

    def find(path):
        if "windows::core::hresult::HRESULT" in path and path.rsplit("::", 1)[1] in hresult:
            return hresult[path.rsplit("::", 1)[1]]
        if path.startswith("windows::"):
            return mine.get(path.rsplit("::", 1)[1])
        u = path.startswith("core::mem::maybe_uninit::MaybeUninit::<T>::") and path.rsplit("::", 1)[1]
        if u == "uninit":
            return lambda c: mkT("sym", "uninitialized memory", None)
        if u in ("as_mut_ptr", "as_ptr", "assume_init", "assume_init_mut", "assume_init_ref", "new", "write"):
            return (lambda c: c.a[0]) if u != "write" else (lambda c: (put(c, c.a[0], c.a[1]), c.a[0])[1])
        return None

    ip.local_models = find
    return w


def result(ip, c, st):
    return ite(ge0(st), ok(M.UNIT), err(mkT("sym", "winerror%d" % len(ip.sspi.calls), None)))


def check(R):
    R.explanation = ("The module for Windows is type-checked on this host, in a copy of the working tree without its condition, against the declarations of the "
                     "windows crate; nothing is linked or run. Each of its functions is interpreted over arbitrary arguments and, for methods, an arbitrary "
                     "client whose handles are valid. The interface is a transfer function: any status, and only on success a handle and the count of bytes "
                     "written. The obligations relate statuses, results, handles and lengths.")
    R.rule = ("obligation: one per function and clause (each status that can be an error leads to an error result; each handle passed or kept was written by a "
              "successful call; each length exposed is at most the count a successful call reported)")
    d = load.windows_copy(load.REPO)
    try:
        P = R.progs[("windows",)] = load.dump(repo=d, tag="windows")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    roots = [r for r in P.roots if r["path"].startswith("win::") and "body" in P.I[r["inst"]] and not r.get("trait")]
    R.need(len(roots), 3, "functions of the Windows client")
    wt = ty_by_path(P, WIN)
    n = 0
    for r in roots:
        n += function(R, P, r, wt)
    R.need(n, 3, "calls of the security interface")


def handles(ip, wt, obj):
    """(name, condition of presence, value) of each handle in a client"""
    out = []
    obj = ip.expand(wt, obj)
    for i, f in enumerate(ip.TY[wt]["variants"][0]["f"]):
        t = ip.TY[f["t"]]
        v = ip.fld(obj, i, 0, f["t"])
        if t.get("path", "").endswith("::SecHandle"):
            out.append((f["n"], TRUE, v))
        elif t.get("path") == "core::option::Option" and ip.TY[t["args"][0]].get("path", "").endswith("::SecHandle"):
            out.append((f["n"], ip.is_variant(v, 1, 2), ip.fld(v, 0, 1, None)))
    return out


def function(R, P, r, wt):
    ip = R.interp(("windows",))
    w = install(ip)
    nm = P.I[r["inst"]]["name"]
    tys, ret = body_tys(ip, r)
    objs, args = {}, []
    for i, t in enumerate(tys):
        T_ = ip.TY[t]
        if T_["k"] in ("ref", "ptr") and T_["elem"] == wt:
            obj = sym(ip, wt, "client")
            for _, p, v in handles(ip, wt, obj):
                init_leaves(v, w)
            objs["client"] = (obj, wt)
            args.append(mkT("mref", -1, "client", ()))
        else:
            args.append(sym(ip, t, "arg%d" % i))
    res = run(R, ip, r, args, objs)
    message(R, ip, nm, tys, args, res)
    T_ = ip.TY[ret]
    fallible = T_.get("path") == "core::result::Result"
    good = AND(res.rc, ip.is_variant(res.val, 0, 2)) if fallible else res.rc
    for name, st, pc, _ in w.calls:
        bad = AND(pc, NOT(ge0(st)))
        R.ob(not feasible(AND(good, bad)), "status:%s:%s" % (nm, name), "%s succeeds although %s reported an error: %s" % (nm, name, show(AND(good, bad))[:200]), nm)
        for e in res.of("panic"):
            c = AND(e.cond, bad)
            R.ob(not feasible(c), "status-panic:%s:%s" % (nm, name), "%s panics (%s) when %s reported an error" % (nm, e.what, name), " > ".join(e.chain))
    for e in res.of("sspi-use"):
        R.ob(not e.data[0], "handle:%s:%s" % (nm, e.what), "%s: the %s can be a handle the interface did not write (%s)" % (
            nm, e.what, e.data[0][0][1] if e.data[0] else ""), " > ".join(e.chain))
    # what is kept
    kept = res.fin["client"] if objs else None
    ctx = TRUE
    if kept is None and fallible and ip.TY[T_["args"][0]].get("path") == WIN:
        kept, ctx = ip.fld(res.val, 0, 0, T_["args"][0]), good
        kept = under(kept, ctx)
    if kept is not None:
        for f, p, v in handles(ip, wt, kept):
            out = []
            c = AND(ctx, p)
            if feasible(c):
                holds(under(v, c), c, w.inits, out)
            R.ob(not out, "kept:%s:%s" % (nm, f), "after %s the client keeps in %s a handle the interface did not write (%s) when %s" % (
                nm, f, out[0][1] if out else "", show(out[0][0])[:200] if out else ""), nm)

    def written(n):
        return OR(*[AND(pc, ge0(st), ge0(sub(x[0], n))) for name, st, pc, x in w.calls if x is not None])

    for e in res.of("set_len"):
        s, n = e.data
        c = AND(e.cond, NOT(written(n)), ge0(sub(n, add(seq_len(s), I(1)))))
        R.ob(not feasible(c), "length:%s" % nm, "%s takes bytes as written that the interface did not report: %s" % (nm, show(c)[:200]), " > ".join(e.chain))
    if fallible and ip.TY[T_["args"][0]]["k"] == "ref":
        v = under(ip.fld(res.val, 0, 0, T_["args"][0]), good)
        v = ip.deref(None, v) if v.op == "vref" else v
        n = seq_len(ip.seqof(v))
        c = AND(good, NOT(written(n)), NOT(eq(n, I(0))))
        R.ob(not feasible(c), "exposed:%s" % nm, "%s hands out bytes the interface did not report as written: %s" % (nm, show(c)[:200]), nm)
        R.ob(feasible(good), "reach:%s" % nm, "%s never succeeds" % nm, nm)
    R.samples.append("%s: %d calls of the interface" % (nm, len(w.calls)))
    return len(w.calls)


def message(R, ip, nm, tys, args, res):
    """the bytes passed on are those the caller gave"""
    given = None
    for t, a in zip(tys, args):
        if octets(ip, t):
            given = (TRUE, bytes_at(ip, a))
        elif ip.TY[t].get("path") == "core::option::Option" and octets(ip, ip.TY[t]["args"][0]):
            given = (ip.is_variant(a, 1, 2), bytes_at(ip, ip.fld(a, 0, 1, ip.TY[t]["args"][0])))
    for e in res.of("sspi-input"):
        pc, p, cb, pv = e.data
        at = " > ".join(e.chain)
        if given is None:
            c = AND(pc, p)
            R.ob(not feasible(c), "input:%s" % nm, "%s passes a message although it was given none" % nm, at)
            continue
        n = seq_len(given[1])
        c = OR(AND(pc, p, NOT(given[0])), AND(pc, given[0], NOT(p)))
        R.ob(not feasible(c), "input:%s" % nm, "%s passes a message just when it was given one: not when %s" % (nm, show(c)[:200]), at)
        c = AND(pc, p, given[0], ge0(sub(I((1 << 32) - 1), n)))
        if p is FALSE or not feasible(c):
            continue
        R.ob(same(cb, n, c) is None or same(cb, trunc(n, 32), c) is None, "input-length:%s" % nm, "%s passes a message of length %s for one of length %s" % (
            nm, show(cb)[:120], show(n)[:60]), at)
        try:
            d = same(bytes_at(ip, under(pv, c)), given[1], c)
        except (AttributeError, IndexError, TypeError, ValueError):
            d = "%s is passed" % show(pv)[:120]
        R.ob(d is None, "input-bytes:%s" % nm, "%s passes other bytes than it was given: %s" % (nm, d), at)


def bytes_at(ip, v):
    for _ in range(4):
        if v.op == "vref":
            v = ip.deref(None, v)
    return ip.seqof(v)


def octets(ip, t):
    T_ = ip.TY[t]
    return T_["k"] == "ref" and ip.TY[T_["elem"]]["k"] == "slice" and ip.TY[ip.TY[T_["elem"]]["elem"]]["k"] == "uint"


def init_leaves(v, w):
    if v.op == "mux":
        init_leaves(v.a[1], w)
        init_leaves(v.a[2], w)
    elif v.op == "agg":
        for x in v.a[2]:
            init_leaves(x, w)
    elif v is not UNDEF:
        w.inits[root_sym(v)] = TRUE
