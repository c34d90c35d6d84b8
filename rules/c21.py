"""C21: raw views stay inside live buffers of their element type."""
from base import *

VIEWS = {"core::slice::raw::from_raw_parts": False, "core::ptr::slice_from_raw_parts": False,
         "core::slice::raw::from_raw_parts_mut": True, "core::ptr::slice_from_raw_parts_mut": True}
# unsafe functions whose use by macros of the standard library is sound by construction
SOUND = ("core::fmt::Arguments", "core::fmt::rt::")
# unsafe functions that are sound for plain integers of whatever width
ALIGN = ("core::slice::<impl [T]>::align_to",)
# unsafe functions whose requirement the interpreter turns into an event
EVENTS = ("get_unchecked", "get_unchecked_mut", "split_at_unchecked", "from_utf8_unchecked", "set_len")


def callee(t):
    f = t.get("f") or {}
    return f.get("rpath") or f.get("path") or ""


def check(R):
    R.explanation = ("Every body of the crate is scanned for unsafe operations. Each function that makes a raw view is interpreted on its own over arbitrary "
                     "arguments: the length asked for may not exceed the length of the memory the pointer came from. A dataflow analysis over the same "
                     "bodies, and over the callers of functions that hand a view out, tracks which local owns the memory each raw pointer and view points "
                     "into: no use of a view may follow a drop, move, end of storage, reassignment or mutable borrow of its owner, and the element type "
                     "of the view must be bytes of integers or the element type of the owner.")
    R.rule = "obligation: one per raw view and clause (length, element type, use after the end of the owner), and per unsafe operation for its kind"
    total = 0
    for feats in ((), ("strict",)):
        total += program(R, feats)
    if not total:
        R.notes.append("no unsafe operation is left in the crate")


def program(R, feats):
    P = R.prog(feats)
    local = [n for n, i in enumerate(P.I) if i.get("local") and i.get("body")]
    R.need(len(local), 200, "functions")
    users, seen, n = [], set(), 0
    for k in local:
        inst = P.I[k]
        ops = unsafe_ops(P, inst)
        if not ops:
            continue
        if inst["name"] in seen:
            continue
        seen.add(inst["name"])
        for kind, what, sp in ops:
            n += 1
            nm = what.split("::")[-1]
            if kind == "call" and (what in VIEWS or what in ALIGN or nm in EVENTS or P_local(P, what)):
                R.obl.append(("unsafe:%s:%s" % (inst["path"], nm), True))
                continue
            raise Undecided("%s in %s (%s) is an unsafe operation this rule has no requirement for" % (what, inst["path"], sp))
        users.append(k)
    for k in users:
        standalone(R, feats, P, k)
    lifetimes(R, P, local)
    return n


def P_local(P, path):
    return any(i.get("local") and i["path"] == path for i in P.I)


def unsafe_ops(P, inst):
    out = []
    b = inst["body"]
    L = b["locals"]
    made = {}
    for bl in b["blocks"]:
        for st in bl["s"]:
            if isinstance(st[0], list) and len(st[0]) == 1:
                made.setdefault(st[0][0], []).append(st[1])
    # the compiler's own dereference of a box
    boxes = {x for x, rs in made.items() if all(isinstance(r, list) and r[:2] == ["cast", "BoxDerefTransmute"] for r in rs)}

    def place(p, sp):
        if isinstance(p, list) and p and isinstance(p[0], int) and not isinstance(p[0], bool) and p[0] < len(L):
            t = P.T[L[p[0]]]
            if len(p) > 1 and p[1] == "*" and t["k"] == "ptr" and p[0] not in boxes:
                out.append(("deref", "dereference of a raw pointer", sp))
            if len(p) > 1 and t.get("kind") == "union":
                out.append(("union", "access to a union field", sp))

    for bl in b["blocks"]:
        for st in bl["s"]:
            for p in places(st):
                place(p, st[2] if len(st) > 2 else "")
        t = bl["t"]
        sp = t.get("sp") or ""
        for p in places([t.get("a"), t.get("dst"), t.get("f")]):
            place(p, sp)
        if t.get("k") in ("call", "tailcall"):
            f = t.get("f") or {}
            if f.get("unsafe") and not callee(t).startswith(SOUND):
                out.append(("call", callee(t), sp))
            elif callee(t) in VIEWS:
                out.append(("call", callee(t), sp))
        elif t.get("k") == "asm" or "InlineAsm" in str(t.get("d", ""))[:40]:
            out.append(("asm", "inline assembly", sp))
    return out


def places(x):
    """the places of a statement: lists headed by a local, as operands or targets"""
    out = []
    if isinstance(x, list):
        if len(x) == 3 and isinstance(x[0], list) and isinstance(x[1], list) and (x[0] and isinstance(x[0][0], int)):
            out.append(x[0])
            x = x[1]
        if x and x[0] in ("cp", "mv") and len(x) == 2:
            return out + [x[1]]
        if x and x[0] == "ref":
            return out + [x[2]]
        if x and x[0] == "rawptr":
            return out + [x[2]]
        if x and isinstance(x[0], int) and all(isinstance(y, (int, str, list)) for y in x) and len(x) <= 6 and (len(x) == 1 or x[1] == "*" or isinstance(x[1], list)):
            return out + [x]
        for y in x:
            out += places(y)
    elif isinstance(x, dict):
        for y in x.values():
            if isinstance(y, (list, dict)):
                out += places(y)
    return out


# ---------------------------------------------------------------- lengths
def standalone(R, feats, P, k):
    inst = P.I[k]
    if "{closure" in inst["path"]:
        raise Undecided("an unsafe operation inside the closure %s" % inst["path"])
    ip = R.interp(feats)
    b = inst["body"]
    args, objs = [], {}
    for n, ty in enumerate(b["locals"][1:b["argc"] + 1]):
        args.append(argument(ip, ty, "a%d" % n, objs))
    res = run(R, ip, k, args, objs)
    nm = inst["path"]
    for e in res.evs:
        if e.kind == "rawview":
            s, want, have = e.data[:3]
            bad = AND(e.cond, lt(have, want))
            R.ob(not feasible(bad), "length:" + nm, "a raw view made in %s can cover %s elements of a buffer of %s" % (nm, show(want)[:80], show(have)[:80]), at(e))
        elif e.kind == "rawtext":
            s, good = e.data[:2]
            bad = AND(e.cond, NOT(good))
            R.ob(not feasible(bad), "text:" + nm, "%s takes bytes for a string without knowing that they are one" % nm, at(e))
        elif e.kind == "set_len":
            s, n = e.data[:2]
            bad = AND(e.cond, lt(seq_len(s), n))
            R.ob(not feasible(bad), "set_len:" + nm, "%s can extend a vector over memory that is not initialized" % nm, at(e))
        elif e.kind == "panic" and "_unchecked" in e.what:
            R.ob(not feasible(e.cond), "unchecked:" + nm, "in %s: %s when %s" % (nm, e.what, show(e.cond)[:200]), at(e))


def at(e):
    return " > ".join(str(x) for x in e.chain[-4:])


def argument(ip, ty, name, objs):
    t = ip.TY[ty]
    if t["k"] in ("ref", "ptr"):
        el = ip.TY[t["elem"]]
        if t["k"] == "ref" and t.get("mut"):
            objs[name] = (sym(ip, t["elem"], name), t["elem"])
            return mkT("mref", -1, name, ())
        if el["k"] in ("slice", "str"):
            r = ip.trange(el["elem"]) if el["k"] == "slice" else (0, 255)
            return vref(symseq(name, r))
        if t["k"] == "ptr":
            return vref(symseq(name, ip.trange(t["elem"])))
        return vref(sym(ip, t["elem"], name))
    return sym(ip, ty, name)


# ---------------------------------------------------------------- lifetimes
OWNING = ("alloc::vec::Vec", "alloc::string::String", "alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc", "std::io::error::Error", "alloc::collections::",
          "std::collections::", "core::cell::", "std::sync::", "core::alloc::", "alloc::alloc::")


def may_borrow(P, ty, memo, depth=0):
    """can a value of this type point into memory it does not own"""
    if ty in memo:
        return memo[ty]
    memo[ty] = False
    t = P.T[ty]
    k = t["k"]
    if k in ("ref", "ptr"):
        r = True
    elif k in ("int", "uint", "bool", "char", "float", "never", "str", "fndef"):
        r = False
    elif k in ("slice", "array"):
        r = may_borrow(P, t["elem"], memo)
    elif k == "adt" and (t.get("path") or "").startswith(OWNING):
        r = any(may_borrow(P, a, memo) for a in t.get("args", ()) if isinstance(a, int))
    elif k == "adt":
        r = any(may_borrow(P, f["t"], memo) for v in t.get("variants") or () for f in v["f"]) or any(
            may_borrow(P, a, memo) for a in t.get("args", ()) if isinstance(a, int))
    elif k == "tuple":
        r = any(may_borrow(P, a, memo) for a in t.get("elems") or t.get("args") or ())
    elif k == "closure":
        r = True
    else:
        r = True
    memo[ty] = r
    return r


class Views:
    """which locals hold raw pointers or views, and whose memory they point into"""

    def __init__(self, P, inst, summaries, memo):
        self.P, self.inst, self.memo = P, inst, memo
        self.b = b = inst["body"]
        self.L = b["locals"]
        self.own = [set() for _ in self.L]
        self.raw = [False] * len(self.L)
        self.orig = [set() for _ in self.L]
        self.made = []
        for i in range(1, b["argc"] + 1):
            if may_borrow(P, self.L[i], memo):
                self.own[i].add(("arg", i))
        ch = True
        while ch:
            before = ([len(x) for x in self.own], list(self.raw), [len(x) for x in self.orig])
            for bl in b["blocks"]:
                for st in bl["s"]:
                    if st[0]:
                        self.assign(st[0][0], st[1])
                t = bl["t"]
                if t.get("k") == "call" and t.get("dst"):
                    self.call(t, summaries)
            ch = before != ([len(x) for x in self.own], list(self.raw), [len(x) for x in self.orig])

    def ty(self, l):
        return self.P.T[self.L[l]]

    def put(self, d, own, raw, orig=()):
        if not may_borrow(self.P, self.L[d], self.memo):
            return
        self.own[d] |= own
        self.raw[d] |= raw
        self.orig[d] |= set(orig)

    def src(self, p, taken):
        """(owners, raw, origin) of the address of a place (taken) or of its value"""
        l = p[0]
        if taken and "*" not in p[1:]:
            return {l}, False, ()
        return self.own[l], self.raw[l], self.orig[l]

    def assign(self, d, rv):
        k = rv[0] if rv else None
        if k in ("ref", "rawptr"):
            o, r, g = self.src(rv[2], True)
            if k == "rawptr":
                r, g = True, g or {self.pointee(d)}
            self.put(d, o, r, g)
            return
        for p in places(rv):
            o, r, g = self.src(p, False)
            if self.ty(d)["k"] == "ptr" and self.ty(p[0])["k"] == "ref":
                r, g = True, {self.pointee(p[0])}
            self.put(d, set(o), r, g)

    def pointee(self, l):
        e = self.ty(l)["elem"]
        while self.P.T[e]["k"] in ("slice", "array"):
            e = self.P.T[e]["elem"]
        return (e, bool(self.ty(l).get("mut")))

    def call(self, t, summaries):
        d = t["dst"][0]
        f = t.get("f") or {}
        o, r, g = set(), False, set()
        for a in t["a"]:
            for p in places(a):
                x = self.src(p, False)
                o |= x[0]
                r |= x[1]
                g |= set(x[2])
        if self.ty(d)["k"] == "ptr" and not r:
            r, g = True, {self.pointee(d)}
        s = summaries.get(f.get("inst"))
        if s:
            r = True
        self.put(d, o, r, g)


def uses(x):
    return [p[0] for p in places(x)]


def moved(x):
    """locals moved as a whole"""
    out = []
    if isinstance(x, list):
        if x and x[0] == "mv" and len(x) == 2:
            return [x[1][0]] if len(x[1]) == 1 else []
        for y in x:
            out += moved(y)
    elif isinstance(x, dict):
        for y in x.values():
            out += moved(y)
    return out


def mutably(rv):
    if rv and rv[0] == "ref" and rv[1] and "*" not in rv[2][1:]:
        return [rv[2][0]]
    if rv and rv[0] == "rawptr" and "Mut" in str(rv[1]) and "*" not in rv[2][1:]:
        return [rv[2][0]]
    return []


def lifetimes(R, P, local):
    memo, summaries = {}, {}
    bodies = [k for k in local]
    # functions that return a view of memory they were lent
    while True:
        n = len(summaries)
        for k in bodies:
            if k in summaries or not interesting(P, k, summaries):
                continue
            v = Views(P, P.I[k], summaries, memo)
            if v.raw[0] and may_borrow(P, v.L[0], memo):
                summaries[k] = True
        if len(summaries) == n:
            break
    seen = set()
    for k in bodies:
        if not interesting(P, k, summaries) or P.I[k]["name"] in seen:
            continue
        seen.add(P.I[k]["name"])
        v = Views(P, P.I[k], summaries, memo)
        elements(R, P, v)
        dangling(R, P, v)


def interesting(P, k, summaries):
    for bl in P.I[k]["body"]["blocks"]:
        t = bl["t"]
        if t.get("k") == "call":
            if callee(t) in VIEWS or (t.get("f") or {}).get("inst") in summaries:
                return True
    return False


def scalar(P, ty):
    return P.T[ty]["k"] in ("int", "uint")


def elements(R, P, v):
    nm = v.inst["path"]
    for bl in v.b["blocks"]:
        t = bl["t"]
        if t.get("k") != "call" or callee(t) not in VIEWS:
            continue
        mut = VIEWS[callee(t)]
        e = (t["f"].get("targs") or [None])[0]
        if e is None:
            raise Undecided("element type of a view in " + nm)
        src = uses(t["a"][0])
        orig = set().union(*[v.orig[l] for l in src]) if src else set()
        if not orig:
            raise Undecided("origin of the pointer viewed in %s" % nm)
        for o, m in orig:
            good = o == e or (scalar(P, o) and scalar(P, e) and P.T[e].get("bits") == 8)
            R.ob(good, "element:" + nm, "a view of %s is made of a buffer of %s in %s" % (P.T[e]["s"], P.T[o]["s"], nm), t.get("sp") or "")
            R.ob(m or not mut, "mutable:" + nm, "a mutable view is made of a shared buffer in %s" % nm, t.get("sp") or "")


def dangling(R, P, v):
    nm, B = v.inst["path"], v.b["blocks"]
    tracked = {l for l in range(len(v.L)) if v.raw[l]}
    owners = set().union(*[v.own[l] for l in tracked]) if tracked else set()
    state = {0: frozenset()}
    work = [0]
    bad = {}
    n = 0

    def kill(s, x):
        return s | {l for l in tracked if x in v.own[l]}

    while work:
        i = work.pop()
        s = set(state[i])
        bl = B[i]
        dead = {}
        for at_, l in bl.get("dead", ()):
            dead.setdefault(at_, []).append(l)

        def use(ls, sp):
            for l in ls:
                if l in s:
                    bad[(l, sp)] = True

        def define(d, ls):
            s.discard(d)
            if d in tracked and any(l in s for l in ls):
                s.add(d)
        for j, st in enumerate(bl["s"]):
            for x in dead.get(j, ()):
                if x in owners:
                    s = kill(s, x)
            if not st[0]:
                continue
            ls = uses(st[1])
            use(ls, st[2] or "")
            for x in moved(st[1]) + mutably(st[1]):
                if x in owners:
                    s = kill(s, x)
            if len(st[0]) == 1:
                if st[0][0] in owners and st[0][0] not in ls:
                    s = kill(s, st[0][0])
                define(st[0][0], ls)
        for x in dead.get(len(bl["s"]), ()):
            if x in owners:
                s = kill(s, x)
        t = bl["t"]
        k = t.get("k")
        succ = [t[x] for x in ("to",) if isinstance(t.get(x), int)]
        if k == "drop":
            x = t["p"][0]
            if x in owners and "*" not in t["p"][1:]:
                s = kill(s, x)
        elif k == "call":
            ls = uses(t["a"])
            use(ls, t.get("sp") or "")
            for x in moved(t["a"]):
                if x in owners:
                    s = kill(s, x)
            if t.get("dst") and len(t["dst"]) == 1:
                if t["dst"][0] in owners:
                    s = kill(s, t["dst"][0])
                define(t["dst"][0], ls)
        elif k == "return":
            if v.raw[0]:
                n += 1
                loc = [x for x in v.own[0] if not isinstance(x, tuple)]
                if loc or 0 in s:
                    bad[(0, t.get("sp") or "")] = True
        else:
            succ = succs(t)
        for q in succ:
            old = state.get(q)
            new = frozenset(s) | (old or frozenset())
            if old is None or new != old:
                state[q] = new
                work.append(q)
    names = dict((a, b) for a, b in v.b.get("names", ()))
    for (l, sp) in bad:
        R.ob(False, "dangling:%s" % nm, "in %s a raw view (%s) is used after the buffer it views has been released, moved or changed" % (nm, names.get(l, "_%d" % l)), sp)
    R.obl.extend(("alive:%s:_%d" % (nm, l), True) for l in tracked if not bad)


def succs(t):
    out = [t[k] for k in ("to", "else") if isinstance(t.get(k), int)]
    if t.get("k") == "switch":
        out += [b for _, b in t["t"]]
    return out
