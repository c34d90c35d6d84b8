"""Gated value-flow analysis over MIR.

Every function is evaluated once per calling context into terms (see terms.py): at every control-flow
join the values of the incoming edges are merged into a gated (ite) term, so no paths are enumerated.
Loops are summarised: the values that change are widened to symbols, their step functions are solved to
closed forms of the iteration number where possible, and stay opaque otherwise.
Effects (panics, writes, log records, random draws ...) are collected as events under their condition.
"""
import sys
from terms import *
import terms

OPT = "core::option::Option"
RES = "core::result::Result"
NONE = agg(OPT, 0, ())
UNIT = agg("tuple", 0, ())
RAW = {"sym", "proj", "at", "app", "k"}
SOME_U64 = (1 << 64) - 1


def some(v):
    return agg(OPT, 1, (v,))


def ok(v):
    return agg(RES, 0, (v,))


def err(v):
    return agg(RES, 1, (v,))


class Unsupported(Exception):
    pass


class Ev:
    __slots__ = ("kind", "cond", "what", "data", "chain")

    def __init__(self, kind, cond, what, data=(), chain=()):
        self.kind, self.cond, self.what, self.data, self.chain = kind, cond, what, data, chain

    def rebase(self, c):
        if c is TRUE:
            return self
        n = AND(c, self.cond)
        if n is FALSE:
            return None
        return Ev(self.kind, n, self.what, self.data, self.chain)


class St:
    """state inside one activation: path condition relative to its entry, and the memory cells it wrote"""
    __slots__ = ("pc", "mem", "parent")

    def __init__(self, pc, mem, parent):
        self.pc, self.mem, self.parent = pc, mem, parent

    def copy(self, pc=None):
        return St(self.pc if pc is None else pc, dict(self.mem), self.parent)

    def get(self, key):
        s = self
        while s is not None:
            v = s.mem.get(key)
            if v is not None:
                return v
            s = s.parent
        return UNDEF

    def set(self, key, v):
        self.mem[key] = v


def merge(states, depth, live=None):
    states = [s for s in states if s.pc is not FALSE]
    if not states:
        return None
    if len(states) == 1:
        s = states[0]
        if live is not None:
            for k in [k for k in s.mem if k[0] == depth and k[1] not in live and not isinstance(k[1], str)]:
                del s.mem[k]
        return s
    parent = states[0].parent
    keys = []
    seen = set()
    for s in states:
        for k in s.mem:
            if k not in seen:
                seen.add(k)
                if live is not None and k[0] == depth and k[1] not in live and not isinstance(k[1], str):
                    continue
                keys.append(k)
    total = states[0].pc
    mem = {}

    def val(s, k):
        v = s.mem.get(k)
        if v is None:
            if k[0] >= depth:
                return UNDEF
            return parent.get(k) if parent is not None else UNDEF
        return v
    for k in keys:
        mem[k] = val(states[0], k)
    for s in states[1:]:
        nt = OR(total, s.pc)
        c = gcof(s.pc, nt)
        if c is FALSE:
            total = nt
            continue
        for k in keys:
            a, b = mem[k], val(s, k)
            if a is not b:
                mem[k] = ite(c, b, a) if c is not TRUE else b
        total = nt
    return St(total, mem, parent)


_und = {}


def under(t, pc):
    """simplify a value knowing pc"""
    if pc is TRUE or pc is FALSE or not isinstance(t, T):
        return t
    op = t.op
    if op in ("int", "undef", "sym", "k", "at", "proj", "byte", "le", "len"):
        return t
    key = (t, pc)
    r = _und.get(key)
    if r is not None:
        return r
    if op == "mux":
        r = gcof(t, pc)
        if r.op != "mux":
            r = under(r, pc)
    elif op == "lin":
        if any(x.op == "mux" for x, _ in t.a[1]):
            r = sum_terms([(I(t.a[0]), 1)] + [(gcof(x, pc) if x.op == "mux" else x, k) for x, k in t.a[1]])
        else:
            r = t
    elif op == "agg":
        r = agg(t.a[0], t.a[1], tuple(under(x, pc) for x in t.a[2]))
    elif op == "vref":
        r = vref(under(t.a[0], pc))
    elif op == "seq":
        out = []
        for g in t.a[0]:
            if g.op == "e":
                out.append(seq_of([under(g.a[0], pc)]))
            elif g.op == "mx":
                c = gcof(g.a[0], pc)
                out.append(ite_seq(c, under(g.a[1], pc), under(g.a[2], pc)))
            elif g.op == "sp":
                out.append(span(g.a[0], under(g.a[1], pc), under(g.a[2], pc)))
            elif g.op == "rep":
                out.append(rep(under(g.a[0], pc), under(g.a[1], pc)))
            else:
                out.append(mkT("seq", (g,)))
        r = cat(*out)
    elif op == "bits":
        r = frombits(tuple(gcof(b, pc) for b in t.a[0]))
    else:
        r = t
    _und[key] = r
    return r


_hm = {}


def has_mref(t):
    r = _hm.get(t)
    if r is None:
        if t.op == "mref":
            r = True
        else:
            r = any(has_mref(x) for x in terms._kids(t.a))
        _hm[t] = r
    return r


class Loop:
    __slots__ = ("header", "blocks")


class Fn:
    """a body with its control-flow structure"""

    def __init__(self, body, name):
        self.body = body
        self.name = name
        B = body["blocks"]
        n = len(B)
        self.succ = [self._succ(b["t"]) for b in B]
        # reverse postorder
        seen = [False] * n
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            u, it = stack[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = True
                    stack.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        order.reverse()
        self.order = order
        self.pos = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                preds[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.pos[x] > self.pos[y]:
                                    x = idom[x]
                                while self.pos[y] > self.pos[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.pos[s] <= self.pos[b]:
                    if not dom(s, b):
                        raise Unsupported("irreducible loop in " + name)
                    blocks = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in blocks:
                            blocks.add(x)
                            st.extend(preds[x])
        self.inloop = {}
        # liveness
        borrowed = set()
        use = {}
        deff = {}
        for b in order:
            u, d = set(), set()
            blk = B[b]

            def rd(l):
                if l not in d:
                    u.add(l)

            def place_read(p):
                rd(p[0])
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == "i":
                        rd(e[1])

            def operand(o):
                if o[0] in ("cp", "mv"):
                    place_read(o[1])

            def place_write(p):
                if len(p) == 1:
                    d.add(p[0])
                else:
                    place_read(p)
            for pl, rv, _ in blk["s"]:
                k = rv[0]
                if k == "use":
                    operand(rv[1])
                elif k == "repeat":
                    operand(rv[1])
                elif k in ("ref", "rawptr"):
                    p = rv[2]
                    place_read(p)
                    if (rv[1] if k == "ref" else True) and "*" not in p[1:]:
                        borrowed.add(p[0])
                elif k == "cast":
                    operand(rv[2])
                    if rv[1] == "BoxDerefTransmute" and rv[2][0] in ("cp", "mv"):
                        borrowed.add(rv[2][1][0])
                elif k == "bin":
                    operand(rv[2])
                    operand(rv[3])
                elif k == "un":
                    operand(rv[2])
                elif k == "discr":
                    place_read(rv[1])
                elif k == "agg":
                    for o in rv[4]:
                        operand(o)
                if pl is not None:
                    if k == "setdiscr":
                        place_read(pl)
                    else:
                        place_write(pl)
            t = blk["t"]
            k = t["k"]
            if k == "switch":
                operand(t["d"])
            elif k == "call":
                for o in t["a"]:
                    operand(o)
                if "fop" in t:
                    operand(t["fop"])
                place_write(t["dst"])
            elif k == "assert":
                operand(t["c"])
                for o in t["ops"]:
                    operand(o)
            elif k == "return":
                rd(0)
            use[b], deff[b] = u, d
        live = {b: set(use[b]) for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = {b: live[b] | borrowed for b in order}
        self.borrowed = borrowed

    @staticmethod
    def _succ(t):
        k = t["k"]
        if k == "goto" or k == "drop" or k == "assert":
            return [t["to"]]
        if k == "switch":
            r = []
            for _, b in t["t"]:
                if b not in r:
                    r.append(b)
            if t["else"] not in r:
                r.append(t["else"])
            return r
        if k == "call":
            return [t["to"]] if t["to"] is not None else []
        return []


class Frame:
    __slots__ = ("fn", "depth", "types", "chain", "events", "inst")

    def __init__(self, fn, depth, chain, inst):
        self.fn, self.depth, self.chain, self.inst = fn, depth, chain, inst
        self.types = fn.body["locals"]
        self.events = []


class Interp:
    count = 0

    local_models = None  # transfer functions a rule brings along

    def __init__(self, prog, config=None):
        self.P = prog
        self.TY = prog.T
        self.IN = prog.I
        self.fns = {}
        self.memo = {}
        self.cfg = {"failing_writer": False, "version": None}
        if config:
            self.cfg.update(config)
        Interp.count += 1
        self.nfresh = Interp.count * 1000000      # symbols are unique across interpreters: the term tables are shared
        self.unknown = {}
        self.keyty = {}
        self.stats = {"functions": set(), "blocks": 0, "calls": 0, "loops": 0, "unrolled": 0, "call_sites": 0,
                      "obligations": set()}
        import models
        self.models = models
        self.expmemo = {}
        self.frames = {}
        self.maxdepth = 160

    # ---------------------------------------------------------------- types
    def trange(self, ty):
        if ty is None:
            return None
        t = self.TY[ty]
        k = t["k"]
        if k == "uint":
            return (0, (1 << t["bits"]) - 1)
        if k == "int":
            return (-(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1)
        if k == "char":
            return (0, 0x10FFFF)
        if k == "bool":
            return (0, 1)
        return None

    def mkproj(self, base, variant, idx, ty):
        if base is UNDEF:
            return UNDEF
        return mkT("proj", base, variant, idx, self.trange(ty))

    def elem_ty(self, ty):
        t = self.TY[ty]
        k = t["k"]
        if k in ("array", "slice"):
            return t["elem"]
        if k in ("ref", "ptr"):
            return self.elem_ty(t["elem"])
        if k == "adt":
            if t["path"] in ("alloc::vec::Vec", "alloc::boxed::Box"):
                if t["path"] == "alloc::boxed::Box":
                    return self.elem_ty(t["args"][0])
                return t["args"][0]
        return None

    def is_seq(self, ty):
        t = self.TY[ty]
        return t["k"] in ("array", "slice", "str") or t["k"] == "adt" and t["path"] in ("alloc::vec::Vec", "alloc::string::String")

    def as_seq(self, term, ty=None, n=None):
        """sequence view of an opaque term"""
        if term.op in ("seq", "mux"):
            return cat(term) if term.op == "mux" else term
        if ty is not None:
            et = self.elem_ty(ty) if ty is not None else None
            r = self.trange(et) if et is not None else ((0, 255) if self.TY[ty]["k"] == "str" or self.TY[ty].get("path") == "alloc::string::String" else None)
            if r:
                set_elem_range(term, r)
        return span(term, I(0), mkT("len", term) if n is None else n)

    def expand(self, ty, t):
        """give an opaque term the structure of its type"""
        if t.op == "mux":
            if all(x.op not in RAW for x in terminals(t)):
                return t
            return mapt(t, lambda x: self.expand(ty, x))
        if t.op not in RAW or ty is None:
            return t
        key = (ty, t)
        r = self.expmemo.get(key)
        if r is None:
            r = self._expand(ty, t)
            self.expmemo[key] = r
        return r

    def _expand(self, ty, t):
        d = self.TY[ty]
        k = d["k"]
        if k in ("int", "uint", "char"):
            if rng(t) == (-INF, INF) and t.op in ("sym", "proj", "k"):
                return mkT(t.op, *(t.a[:-1] + (self.trange(ty),))) if t.op != "at" else t
            return t
        if k == "bool":
            return bit(t, 0)
        if k == "ref" or k == "ptr":
            if d["mut"] and k == "ref":
                return t
            return vref(self.expand(d["elem"], t))
        if k in ("slice", "str"):
            return self.as_seq(t, ty)
        if k == "array":
            return self.as_seq(t, ty, I(d["len"])) if d["len"] is not None else self.as_seq(t, ty)
        if k == "tuple":
            return agg("tuple", 0, tuple(self.expand(f, self.mkproj(t, 0, i, f)) for i, f in enumerate(d["fields"])))
        if k == "adt":
            p = d["path"]
            if p in ("alloc::vec::Vec", "alloc::string::String"):
                return self.as_seq(t, ty)
            if p == "alloc::boxed::Box":
                return self.expand(d["args"][0], t)
            if d["kind"] == "struct" and "variants" in d and not p.startswith("std::time"):
                fs = d["variants"][0]["f"]
                return agg(p, 0, tuple(self.expand(f["t"], self.mkproj(t, 0, i, f["t"])) for i, f in enumerate(fs)))
        return t

    def expand_enum(self, ty, t):
        """diagram of constructor applications for an opaque enum value"""
        if t.op == "mux":
            return mapt(t, lambda x: self.expand_enum(ty, x))
        if t.op not in RAW:
            return t
        d = self.TY[ty]
        vs = d["variants"]
        r = UNDEF
        for i in reversed(range(len(vs))):
            a = agg(d["path"], i, tuple(self.expand(f["t"], self.mkproj(t, i, j, f["t"])) for j, f in enumerate(vs[i]["f"])))
            r = a if r is UNDEF else ite(isv(t, i, len(vs)), a, r)
        return r

    def discr(self, ty, v):
        if v.op == "mux":
            return mapt(v, lambda x: self.discr(ty, x))
        if v is UNDEF:
            return UNDEF
        d = self.TY[ty]
        vs = d.get("variants")
        if v.op == "agg":
            if vs is None:
                return I(v.a[1])
            return I(vs[v.a[1]]["d"])
        if vs is None:
            return app("discr", None, v)
        r = I(vs[-1]["d"])
        n = len(vs)
        for i in reversed(range(n - 1)):
            r = ite(isv(v, i, n), I(vs[i]["d"]), r)
        return r

    def is_variant(self, v, i, n):
        if v.op == "mux":
            return mapt(v, lambda x: self.is_variant(x, i, n))
        if v is UNDEF:
            return UNDEF
        if v.op == "agg":
            return TRUE if v.a[1] == i else FALSE
        return isv(v, i, n)

    def fld(self, v, i, variant=None, ty=None):
        """field i of a value"""
        if v.op == "mux":
            return mapt(v, lambda x: self.fld(x, i, variant, ty))
        if v.op == "agg":
            if variant is not None and v.a[1] != variant:
                return UNDEF
            return v.a[2][i] if i < len(v.a[2]) else UNDEF
        if v is UNDEF:
            return UNDEF
        if v.op == "seq":
            return UNDEF
        return self.expand(ty, self.mkproj(v, variant or 0, i, ty))

    def seqof(self, v):
        if v.op == "mux":
            return seq_from_mux(v)
        if v.op == "seq" or v is UNDEF:
            return v
        return self.as_seq(v)

    # ---------------------------------------------------------------- places
    def key_ty(self, key):
        d, l = key
        if isinstance(l, str):
            return self.keyty.get(key)
        fr = self.frames.get(d)
        if fr is not None and isinstance(l, int):
            return fr.types[l]
        return None

    def read_key(self, st, key, path, ty=None):
        v = st.get(key)
        if ty is None:
            ty = self.key_ty(key)
        return self.read_path(st, v, path, ty)

    def read_path(self, st, v, path, ty):
        var = None
        for e in path:
            k = e[0]
            if k == "f":
                v = self.fld(v, e[1], var, e[2])
                ty = e[2]
                var = None
            elif k == "v":
                var = e[1]
            elif k == "i":
                v = self.elem(v, e[1], ty)
                ty = self.elem_ty(ty) if ty is not None else None
            elif k == "s":
                v = seq_slice(self.seqof(v), e[1], e[2])
        return v

    def elem(self, v, i, ty):
        et = self.elem_ty(ty) if ty is not None else None
        r = seq_at(self.seqof(v), i)
        return self.expand(et, r) if et is not None else r

    def deref(self, st, v, ty=None):
        """value a reference points to"""
        if v.op == "mux":
            return mapt(v, lambda x: self.deref(st, x, ty))
        if v.op == "vref":
            return v.a[0]
        if v.op == "mref":
            return self.read_key(st, (v.a[0], v.a[1]), v.a[2])
        if v is UNDEF:
            return v
        if ty is not None and v.op in RAW:
            t = self.TY[ty]
            if t["k"] in ("ref", "ptr"):
                return self.expand(t["elem"], v)
            if t["k"] == "adt" and t["path"] == "alloc::boxed::Box":
                return self.expand(t["args"][0], v)
        return v

    def walk(self, fr, st, place):
        """yields the list of (cond, root, path, ty, value-root?) lvalues of a place; a value root is read-only"""
        d = fr.depth
        cur = [(TRUE, ("key", (d, place[0])), ())]
        ty = fr.types[place[0]]
        for e in place[1:]:
            if e == "*":
                nxt = []
                for c, root, path in cur:
                    v = self.lread(st, root, path)
                    t = self.TY[ty]
                    if t["k"] == "adt":   # Box
                        nxt.append((c, root, path))
                        continue
                    self._deref_lv(c, v, ty, nxt)
                cur = nxt
                t = self.TY[ty]
                ty = t["elem"] if t["k"] in ("ref", "ptr") else (t["args"][0] if t.get("args") else ty)
            else:
                k = e[0]
                if k == "f":
                    step = ("f", e[1], e[2])
                    nty = e[2]
                elif k == "v":
                    step = ("v", e[1])
                    nty = ty
                elif k == "i":
                    idx = st.get((d, e[1]))
                    step = ("i", idx)
                    nty = self.elem_ty(ty)
                elif k == "c":
                    if e[3]:
                        n = seq_len(self.seqof(self.lread(st, cur[0][1], cur[0][2])))
                        step = ("i", add(n, I(-e[1])))
                    else:
                        step = ("i", I(e[1]))
                    nty = self.elem_ty(ty)
                elif k == "s":
                    n = seq_len(self.seqof(self.lread(st, cur[0][1], cur[0][2])))
                    if e[3]:
                        step = ("s", I(e[1]), add(n, I(-e[1] - e[2])))
                    else:
                        step = ("s", I(e[1]), I(e[2] - e[1]))
                    nty = ty
                else:
                    raise Unsupported("projection %r" % (e,))
                cur = [(c, r, p + (step,)) for c, r, p in cur]
                ty = nty
        return cur, ty

    def _deref_lv(self, c, v, ty, out):
        if v.op == "mux":
            for val, sub_ in ((1, v.a[1]), (0, v.a[2])):
                a = var(v.a[0])
                cc = AND(c, a if val else NOT(a))
                if cc is not FALSE:
                    self._deref_lv(cc, sub_, ty, out)
            return
        if v.op == "mref":
            out.append((c, ("key", (v.a[0], v.a[1])), v.a[2]))
        elif v is UNDEF:
            return
        else:
            out.append((c, ("val", self.deref(None, v, ty)), ()))

    def lread(self, st, root, path):
        if root[0] == "key":
            return self.read_key(st, root[1], path)
        return self.read_path(st, root[1], path, None)

    def read_place(self, fr, st, place):
        # fast path
        if len(place) == 1:
            v = st.get((fr.depth, place[0]))
            ty = fr.types[place[0]]
            if v.op in RAW:
                return self.expand(ty, v)
            return v
        v = st.get((fr.depth, place[0]))
        ty = fr.types[place[0]]
        variant = None
        for e in place[1:]:
            if e == "*":
                t = self.TY[ty]
                if t["k"] == "adt":
                    ty = t["args"][0]
                    continue
                v = self.deref(st, v, ty)
                ty = t["elem"] if t["k"] in ("ref", "ptr") else ty
                if v.op in RAW:
                    v = self.expand(ty, v)
            else:
                k = e[0]
                if k == "f":
                    v = self.fld(v, e[1], variant, e[2])
                    ty = e[2]
                    variant = None
                elif k == "v":
                    variant = e[1]
                elif k == "i":
                    v = self.elem(v, st.get((fr.depth, e[1])), ty)
                    ty = self.elem_ty(ty)
                elif k == "c":
                    i = add(seq_len(self.seqof(v)), I(-e[1])) if e[3] else I(e[1])
                    v = self.elem(v, i, ty)
                    ty = self.elem_ty(ty)
                elif k == "s":
                    n = seq_len(self.seqof(v))
                    m = add(n, I(-e[1] - e[2])) if e[3] else I(e[2] - e[1])
                    v = seq_slice(self.seqof(v), I(e[1]), m)
                else:
                    raise Unsupported("projection %r" % (e,))
        return v

    def write_place(self, fr, st, place, val):
        if len(place) == 1:
            st.set((fr.depth, place[0]), val)
            return
        lvs, _ = self.walk(fr, st, place)
        self.write_lvs(fr, st, lvs, val)

    def write_lvs(self, fr, st, lvs, val):
        for c, root, path in lvs:
            if root[0] != "key":
                self.event(fr, st, "unknown", "write through a shared reference")
                continue
            old = st.get(root[1])
            new = self.update(old, path, 0, val, self.key_ty(root[1]))
            st.set(root[1], ite(c, new, old) if c is not TRUE else new)

    def update(self, v, path, i, val, ty, variant=None):
        if i == len(path):
            return val
        e = path[i]
        k = e[0]
        if k == "v":
            if v.op in RAW and ty is not None and self.TY[ty].get("variants"):
                v = self.expand_enum(ty, v)
            return self.update(v, path, i + 1, val, ty, e[1])
        if k == "f":
            if v.op == "mux":
                return mapt(v, lambda x: self.update(x, path, i, val, ty, variant))
            if v.op in RAW and ty is not None:
                v = self.expand(ty, v)
            if v is UNDEF and ty is not None:
                t = self.TY[ty]
                if t["k"] == "tuple":
                    v = agg("tuple", 0, tuple(UNDEF for _ in t["fields"]))
                elif t.get("variants"):
                    v = agg(t["path"], variant or 0, tuple(UNDEF for _ in t["variants"][variant or 0]["f"]))
                elif str(t.get("path")).endswith(("::MaybeUninit", "::ManuallyDrop", "::MaybeDangling")):
                    v = agg(t["path"], 0, ())
            if v.op != "agg":
                if v is UNDEF:
                    return UNDEF
                raise Unsupported("field update of %s" % v.op)
            if variant is not None and v.a[1] != variant:
                return UNDEF
            fs = list(v.a[2])
            while len(fs) <= e[1]:
                fs.append(UNDEF)
            fs[e[1]] = self.update(fs[e[1]], path, i + 1, val, e[2])
            return agg(v.a[0], v.a[1], tuple(fs))
        s = self.seqof(v)
        if k == "i":
            if i + 1 == len(path):
                nv = val
            else:
                et = self.elem_ty(ty) if ty is not None else None
                nv = self.update(self.elem(s, e[1], ty), path, i + 1, val, et)
            return seq_splice(s, e[1], seq_of([nv]))
        if k == "s":
            if i + 1 == len(path):
                return seq_splice_n(s, e[1], e[2], self.seqof(val))
            sub_ = seq_slice(s, e[1], e[2])
            return seq_splice_n(s, e[1], e[2], self.update(sub_, path, i + 1, val, ty))
        raise Unsupported("update " + k)

    # reads/writes through a reference value (used by models)
    def rread(self, st, ref, ty=None):
        return self.deref(st, ref, ty)

    def rwrite(self, fr, st, ref, val):
        out = []
        self._deref_lv(TRUE, ref, None, out)
        self.write_lvs(fr, st, out, val)

    def subref(self, ref, *steps):
        """reference to a part of what ref points to"""
        if ref.op == "mux":
            return mapt(ref, lambda x: self.subref(x, *steps))
        if ref.op == "mref":
            return mkT("mref", ref.a[0], ref.a[1], ref.a[2] + tuple(steps))
        if ref is UNDEF:
            return ref
        v = self.deref(None, ref)
        return vref(self.read_path(None, v, steps, None))

    # ---------------------------------------------------------------- events
    def event(self, fr, st, kind, what, data=(), cond=TRUE):
        c = AND(st.pc, cond)
        if c is FALSE:
            return
        if kind == "unknown":
            self.unknown[what] = self.unknown.get(what, 0) + 1
        fr.events.append(Ev(kind, c, what, data, fr.chain))

    def fresh(self, name, r=None):
        self.nfresh += 1
        return mkT("sym", "%s#%d" % (name, self.nfresh), r)

    # ---------------------------------------------------------------- constants and operands
    def const(self, fr, st, c):
        k = c["k"]
        if k == "int":
            return I(c["v"])
        if k == "str":
            return vref(seq_of([I(b) for b in c["v"].encode("utf-8")]))
        if k == "bytes":
            return vref(seq_of([I(b) for b in c["v"]]))
        if k == "fn":
            return agg("fn#%d" % c["t"], 0, ())
        if k == "refslice":
            return vref(seq_of([self.const(fr, st, x) for x in c["v"]]))
        if k == "refto":
            return vref(self.const(fr, st, c["v"]))
        if k == "agg":
            t = self.TY[c["t"]]
            fs = [self.const(fr, st, x) for x in c["f"]]
            if t.get("path") in ("std::time::SystemTime", "core::time::Duration"):
                xs = []

                def ints(x):
                    if x.op == "agg":
                        for y in x.a[2]:
                            ints(y)
                    else:
                        xs.append(x)
                for x in fs:
                    ints(x)
                if len(xs) == 2 and all(x.op == "int" for x in xs):
                    return I(xs[0].a[0] * 10 ** 9 + xs[1].a[0])
            if t["k"] == "array":
                return seq_of(fs)
            if t["k"] == "tuple":
                return agg("tuple", 0, tuple(fs))
            if t.get("path") in ("alloc::vec::Vec", "alloc::string::String"):
                return EMPTY
            return agg(t["path"], c["variant"], tuple(fs))
        if k == "promoted":
            return self.promoted(fr, st, c)
        if k == "opaque":
            return self.models.opaque_const(self, fr, st, c)
        raise Unsupported("const " + k)

    def promoted(self, fr, st, c):
        fn = self.fns.get(id(c))
        if fn is None:
            fn = self.fns[id(c)] = Fn(c["body"], "promoted")
        f2 = Frame(fn, fr.depth + 1, fr.chain, None)
        old = self.frames.get(f2.depth)
        self.frames[f2.depth] = f2
        s2 = St(TRUE, {}, st)
        outs = self.run_region(f2, None, {0: [s2]}, None)
        r = UNDEF
        for t, s in outs:
            if t == "ret":
                r = s.get((f2.depth, 0))
        self.frames[f2.depth] = old
        # promoteds hold `&const`; references to their locals become values
        return self.snapshot(f2, outs, r)

    def snapshot(self, f2, outs, v):
        if v.op == "mref" and v.a[0] == f2.depth:
            return vref(self.read_key(outs[0][1], (v.a[0], v.a[1]), v.a[2]))
        return v

    def operand(self, fr, st, o):
        k = o[0]
        if k == "cp" or k == "mv":
            return self.read_place(fr, st, o[1])
        if k == "k":
            return self.const(fr, st, o[1])
        if k == "rtc":
            return FALSE if "UbChecks" in o[1] or "Contract" in o[1] else TRUE
        raise Unsupported("operand " + k)

    def operand_ty(self, fr, o):
        if o[0] in ("cp", "mv"):
            ty = fr.types[o[1][0]]
            for e in o[1][1:]:
                if e == "*":
                    t = self.TY[ty]
                    ty = t["elem"] if t["k"] in ("ref", "ptr") else t["args"][0]
                elif e[0] == "f":
                    ty = e[2]
                elif e[0] in ("i", "c"):
                    ty = self.elem_ty(ty)
            return ty
        if o[0] == "k":
            return o[1]["t"]
        return None

    def place_ty(self, fr, p):
        return self.operand_ty(fr, ["cp", p])

    def width(self, ty):
        if ty is None:
            return 64, False
        t = self.TY[ty]
        if t["k"] == "uint":
            return t["bits"], False
        if t["k"] == "int":
            return t["bits"], True
        if t["k"] == "bool":
            return 1, False
        if t["k"] == "char":
            return 32, False
        return 64, False

    def wrap(self, v, w, signed):
        if signed:
            lo, hi = rng(v)
            if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                return v
            if v.op == "int":
                x = v.a[0] & ((1 << w) - 1)
                return I(x - (1 << w) if x >> (w - 1) else x)
            return app("wraps%d" % w, (-(1 << (w - 1)), (1 << (w - 1)) - 1), v)
        lo, hi = rng(v)
        if lo >= 0 and hi < (1 << w):
            return v
        if v.op == "mux":
            return mapt(v, lambda x: self.wrap(x, w, signed))
        if v.op == "int":
            return I(v.a[0] & ((1 << w) - 1))
        if lo >= -(1 << w) and hi < (1 << (w + 1)):
            # one conditional correction
            r = v
            if lo < 0:
                r = ite(ge0(v), r, add(v, I(1 << w)))
            if hi >= (1 << w):
                r = ite(ge0(add(v, I(-(1 << w)))), add(v, I(-(1 << w))), r)
            return r
        return trunc(v, w)

    def binop(self, fr, st, op, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return agg("tuple", 0, (UNDEF, UNDEF)) if op.endswith("WithOverflow") else UNDEF
        w, signed = self.width(ty)
        ov = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            if base == "Add":
                r = add(a, b)
            elif base == "Sub":
                r = sub(a, b)
            else:
                r = mul(a, b)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if ov:
                bad = FALSE
                if rng(r)[0] < lo:
                    bad = OR(bad, ge0(sub(I(lo - 1), r)))
                if rng(r)[1] > hi:
                    bad = OR(bad, ge0(add(r, I(-hi - 1))))
                return agg("tuple", 0, (r, bad))
            if op.endswith("Unchecked"):
                return r
            return self.wrap(r, w, signed)
        if base in ("Div", "Rem"):
            if b.op == "int" and b.a[0] != 0 and not (signed and rng(a)[0] < 0):
                return div_c(a, b.a[0]) if base == "Div" else rem_c(a, b.a[0])
            return app(base.lower() + ("s" if signed else ""), self.trange(ty), a, b)
        if base in ("BitAnd", "BitOr", "BitXor"):
            o = {"BitAnd": "&", "BitOr": "|", "BitXor": "^"}[base]
            if w == 1:
                a, b = asbool(a), asbool(b)
                return AND(a, b) if o == "&" else OR(a, b) if o == "|" else ite(a, NOT(b), b)
            if signed:
                return app(o, self.trange(ty), a, b)
            return bitop(o, a, b, w)
        if base in ("Shl", "Shr"):
            if b.op == "int" and not signed:
                k = b.a[0]
                if ov or op == "ShlUnchecked" or op == "ShrUnchecked" or True:
                    k = k % w
                r = shl(a, k, w) if base == "Shl" else shr(a, k, w)
            elif b.op == "mux" and not signed and all(t.op == "int" for t in terminals(b)):
                f = shl if base == "Shl" else shr
                r = mapt(b, lambda t: f(a, t.a[0] % w, w))
            elif not signed and b.op != "mux" and w <= 64:
                # symbolic distance: case split on its value (the language masks it to the width)
                lo, hi = rng(b)
                f = shl if base == "Shl" else shr
                bb = tobits(b, max(1, (w - 1).bit_length()))
                r = a
                for i, c in enumerate(bb):
                    r = ite(c, f(r, 1 << i, w) if (1 << i) < w else I(0), r)
            else:
                r = app(base.lower(), self.trange(ty), a, b)
            if ov:
                return agg("tuple", 0, (r, NOT(lt(b, I(w)))))
            return r
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(base, a, b, ty)
        if base == "Cmp":
            p = "core::cmp::Ordering"
            l, e = lt(a, b), eq(a, b)
            return ite(l, agg(p, 0, ()), ite(e, agg(p, 1, ()), agg(p, 2, ())))
        if base == "Offset":
            return app("ptroffset", None, a, b)
        raise Unsupported("binop " + op)

    def compare(self, base, a, b, ty=None):
        if base == "Eq":
            return self.val_eq(a, b)
        if base == "Ne":
            return NOT(self.val_eq(a, b))
        if base == "Lt":
            return lt(a, b)
        if base == "Le":
            return le_(a, b)
        if base == "Gt":
            return lt(b, a)
        return le_(b, a)

    def val_eq(self, a, b):
        """boolean: structural equality of two values"""
        if a is b:
            return TRUE
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a.op == "vref" and b.op == "vref":
            return self.val_eq(a.a[0], b.a[0])
        if isbool(a) and isbool(b):
            return ite(a, b, NOT(b))
        if a.op == "mux" and not isint(a):
            return mapt(a, lambda x: self.val_eq(x, b))
        if b.op == "mux" and not isint(b):
            return mapt(b, lambda x: self.val_eq(a, x))
        if a.op == "agg" and b.op == "agg":
            if a.a[1] != b.a[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.a[2], b.a[2]):
                r = AND(r, self.val_eq(x, y))
            return r
        if a.op == "seq" or b.op == "seq":
            return self.seq_eq(self.seqof(a), self.seqof(b))
        if isint(a) and isint(b):
            return eq(a, b)
        if (a.op == "agg") != (b.op == "agg"):
            # an opaque value against a value of a known enum
            g, o = (a, b) if a.op == "agg" else (b, a)
            ty = self.enum_ty(g.a[0])
            if ty is not None and o.op in RAW:
                x = self.expand_enum(ty, o)
                if x is not o and x.op in ("agg", "mux"):
                    return self.val_eq(x, g)
        x, y = (a, b) if a.id < b.id else (b, a)
        return var(mkT("bit", app("eq", (0, 1), x, y), 0))

    def enum_ty(self, path):
        """the type of the enum of that path, if there is but one"""
        if not hasattr(self, "_enums"):
            self._enums = {}
            for n, t in enumerate(self.TY):
                if t.get("kind") == "enum" and t.get("local"):
                    self._enums[t["path"]] = None if t["path"] in self._enums else n
        return self._enums.get(path)

    def seq_eq(self, a, b):
        if a is b:
            return TRUE
        la, lb = seq_len(a), seq_len(b)
        le = eq(la, lb)
        if le is FALSE:
            return FALSE
        n = la if la.op == "int" else lb if lb.op == "int" else None
        if n is not None and n.a[0] <= 64:
            r = le
            for i in range(n.a[0]):
                if r is FALSE:
                    break
                r = AND(r, self.val_eq(seq_at(a, I(i)), seq_at(b, I(i))))
            return r
        x, y = (a, b) if a.id < b.id else (b, a)
        return AND(le, var(mkT("bit", app("seqeq", (0, 1), x, y), 0)))

    # ---------------------------------------------------------------- statements
    def rvalue(self, fr, st, rv, dst):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "ref" or k == "rawptr":
            mut = rv[1] if k == "ref" else rv[1] not in ("Const", "FakeForPtrMetadata")
            p = rv[2]
            if not mut:
                # reborrow of a place
                if len(p) == 2 and p[1] == "*":
                    v = st.get((fr.depth, p[0]))
                    if v.op == "vref":
                        return v
                return vref(self.read_place(fr, st, p))
            lvs, _ = self.walk(fr, st, p)
            r = UNDEF
            for c, root, path in lvs:
                x = mkT("mref", root[1][0], root[1][1], path) if root[0] == "key" else vref(self.read_path(st, root[1], path, None))
                r = x if r is UNDEF else ite(c, x, r)
            return r
        if k == "bin":
            a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            ty = self.operand_ty(fr, rv[2])
            return self.binop(fr, st, rv[1], a, b, ty)
        if k == "un":
            a = self.operand(fr, st, rv[2])
            ty = self.operand_ty(fr, rv[2])
            if rv[1] == "Not":
                w, s = self.width(ty)
                if w == 1:
                    return NOT(asbool(a)) if a is not UNDEF else UNDEF
                return mapt(a, lambda x: bnot(x, w)) if not s else app("not", self.trange(ty), a)
            if rv[1] == "Neg":
                return mulc(a, -1)
            if rv[1] == "PtrMetadata":
                v = self.deref(st, a, ty)
                return seq_len(self.seqof(v))
            raise Unsupported("unop " + rv[1])
        if k == "cast":
            if rv[1] == "BoxDerefTransmute" and rv[2][0] in ("cp", "mv") and len(rv[2][1]) > 1:
                # the pointer behind a box: to the cell it was made with, or to the box's own place
                v = self.read_place(fr, st, rv[2][1][:-1])
                if v.op == "mref":
                    return v
                return self.rvalue(fr, st, ["ref", True, rv[2][1][:-1]], dst)
            return self.cast(fr, st, rv)
        if k == "discr":
            v = self.read_place(fr, st, rv[1])
            return self.discr(self.place_ty(fr, rv[1]), v)
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in rv[4]]
            if rv[1] == "array":
                return seq_of(ops)
            if rv[1] == "tuple":
                return agg("tuple", 0, tuple(ops))
            if rv[1] == "closure":
                return agg("closure#%d" % rv[2], 0, tuple(ops))
            if rv[1] == "adt":
                t = self.TY[rv[2]]
                if t.get("path") == "alloc::vec::Vec":
                    return ops[0] if ops else EMPTY
                if t.get("kind") == "union":
                    return ops[0]
                return agg(t["path"], rv[3], tuple(ops))
            if rv[1] == "rawptr":
                return ops[0]
            raise Unsupported("aggregate " + rv[1])
        if k == "repeat":
            v = self.operand(fr, st, rv[1])
            if rv[2] is None:
                return self.as_seq(app("repeat", None, v))
            return rep(v, I(rv[2]))
        if k == "other":
            if rv[1].startswith("Len"):
                return seq_len(self.seqof(self.read_place(fr, st, rv[2])))
            raise Unsupported("rvalue " + str(rv[1])[:80])
        raise Unsupported("rvalue " + k)

    def cast(self, fr, st, rv):
        kind, o, ty = rv[1], rv[2], rv[3]
        v = self.operand(fr, st, o)
        t = self.TY[ty]
        if v is UNDEF:
            return v
        if kind == "IntToInt":
            sty = self.operand_ty(fr, o)
            s = self.TY[sty] if sty is not None else None
            if s is not None and s["k"] == "adt":
                v = self.discr(sty, v)
            w, signed = self.width(ty)
            if t["k"] == "char" or not isint(v):
                return v
            if signed:
                return self.wrap(v, w, True)
            lo, hi = rng(v)
            if lo >= 0:
                return trunc(v, w)
            return self.wrap(v, w, False)
        if kind.startswith("Unsize") or kind in ("MutToConstPointer", "ArrayToPointer", "PtrToPtr", "ReifyFnPointer", "ClosureFnPointer") or kind.startswith("Reify") or kind.startswith("Closure"):
            if kind == "PtrToPtr":
                return self.models.ptr_cast(self, fr, st, v, self.operand_ty(fr, o), ty)
            return v
        if kind == "Transmute":
            sty = self.operand_ty(fr, o)
            return self.models.transmute(self, fr, st, v, sty, ty)
        return app("cast:" + kind, self.trange(ty), v)

    def exec_stmts(self, fr, st, stmts):
        for pl, rv, sp in stmts:
            if pl is None:
                self.event(fr, st, "unknown", rv[0])
                continue
            if rv[0] == "setdiscr":
                ty = self.place_ty(fr, pl)
                v = self.read_place(fr, st, pl)
                t = self.TY[ty]
                n = len(t["variants"][rv[1]]["f"])
                fs = v.a[2] if v.op == "agg" and len(v.a[2]) == n else tuple(UNDEF for _ in range(n))
                self.write_place(fr, st, pl, agg(t["path"], rv[1], fs))
                continue
            v = self.rvalue(fr, st, rv, pl)
            self.write_place(fr, st, pl, v)

    def exec_block(self, fr, b, st):
        """returns [(target, state)]; target 'ret' at return"""
        self.stats["blocks"] += 1
        blk = fr.fn.body["blocks"][b]
        self.exec_stmts(fr, st, blk["s"])
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "return":
            return [("ret", st)]
        if k == "drop":
            self.drop(fr, st, t)
            return [(t["to"], st)]
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "assert":
            c = self.operand(fr, st, t["c"])
            if c is UNDEF:
                c = var(mkT("bit", self.fresh("undef", (0, 1)), 0))
                self.unknown["undef assert in " + fr.fn.name] = 1
            good = c if t["e"] else NOT(c)
            if t["m"].startswith("ub-check") or self.panic(fr, st, NOT(good), t["m"]):
                st.pc = AND(st.pc, good)
                if st.pc is FALSE or not feasible(st.pc):
                    return []
            return [(t["to"], st)]
        if k == "call":
            return self.call_term(fr, st, t)
        if k in ("unreachable", "unwind"):
            return []
        raise Unsupported("terminator %s %s" % (k, t.get("d", "")[:60]))

    def panic(self, fr, st, cond, what):
        """record a way to panic; False when it cannot happen here (nothing to exclude from the path condition)"""
        self.stats["obligations"].add((fr.fn.name, what))
        if cond is FALSE:
            return False
        c = AND(st.pc, cond)
        if c is FALSE or not feasible(c):
            return False
        fr.events.append(Ev("panic", c, what, (fr.fn.name,), fr.chain))
        return True

    def drop(self, fr, st, t):
        ty = self.TY[t["t"]]
        if ty.get("local") and ty.get("path") in self.models.drop_impls(self):
            self.event(fr, st, "drop", ty["path"], (self.read_place(fr, st, t["p"]),))

    def switch(self, fr, st, t):
        d = self.operand(fr, st, t["d"])
        out = []
        if d is UNDEF:
            self.event(fr, st, "unknown", "switch on an undefined value in " + fr.fn.name)
            raise Unsupported("switch on undef in " + fr.fn.name)
        rest = st.pc
        by_target = {}
        orderd = []
        ty = self.operand_ty(fr, t["d"])
        w, signed = self.width(ty) if ty is not None and self.TY[ty]["k"] == "int" else (0, False)
        for v, b in t["t"]:
            if signed and v >= 1 << (w - 1):
                v -= 1 << w
            if isbool(d) and v in (0, 1):
                c = d if v == 1 else NOT(d)
            else:
                c = eq(d, I(v))
            cc = AND(rest, c)
            rest = AND(rest, NOT(c))
            if b not in by_target:
                orderd.append(b)
                by_target[b] = cc
            else:
                by_target[b] = OR(by_target[b], cc)
        b = t["else"]
        if b not in by_target:
            orderd.append(b)
            by_target[b] = rest
        else:
            by_target[b] = OR(by_target[b], rest)
        live = [(b, by_target[b]) for b in orderd if by_target[b] is not FALSE]
        if len(live) > 1:
            live = [(b, c) for b, c in live if feasible(c)]
        for i, (b, c) in enumerate(live):
            s = st if i == len(live) - 1 else st.copy()
            s.pc = c
            out.append((b, s))
        return out

    # ---------------------------------------------------------------- control flow
    def run_region(self, fr, region, pending, header):
        fn = fr.fn
        outs = []
        for b in fn.order:
            if region is not None and b not in region:
                continue
            sts = pending.pop(b, None)
            if not sts:
                continue
            st = merge(sts, fr.depth, fn.live[b])
            if st is None:
                continue
            if b in fn.loops and b != header:
                res = self.do_loop_mir(fr, b, st)
            else:
                res = self.exec_block(fr, b, st)
            for t, s in res:
                if s.pc is FALSE:
                    continue
                if t == "ret":
                    outs.append(("ret", s))
                elif t == header:
                    outs.append(("back", s))
                elif region is not None and t not in region:
                    outs.append((t, s))
                else:
                    pending.setdefault(t, []).append(s)
        return outs

    def do_loop_mir(self, fr, h, st):
        region = fr.fn.loops[h]
        live = fr.fn.live[h]

        def body(s):
            outs = self.run_region(fr, region, {h: [s]}, h)
            backs = [s2 for t, s2 in outs if t == "back"]
            back = merge(backs, fr.depth, live)
            ex = {}
            for t, s2 in outs:
                if t != "back":
                    ex.setdefault(t, []).append(s2)
            exits = [(t, merge(l, fr.depth, None)) for t, l in ex.items()]
            return back, exits
        return self.do_loop(fr, st, body, "%s#%d" % (fr.fn.name, h))

    # ---------------------------------------------------------------- loops
    def do_loop(self, fr, st0, body, name):
        """summarise a loop; body(state) -> (back state or None, [(tag, exit state)]); returns [(tag, state)]"""
        self.stats["loops"] += 1
        base_pc = st0.pc
        nev = len(fr.events)
        r = self.unroll(fr, st0, body, nev, base_pc, True)
        if r is not None:
            return r
        H0 = St(TRUE, dict(st0.mem), st0.parent)
        # 1. find what changes
        tmpl = dict(H0.mem)
        mus = {}
        for attempt in range(12):
            del fr.events[nev:]
            H = St(TRUE, dict(tmpl), st0.parent)
            back, exits = body(H)
            if back is None or not feasible(back.pc):
                if attempt == 0:
                    # the body never comes back: no loop at all
                    return self.rebase_exits(fr, nev, base_pc, exits)
                break
            changed = False
            steps = {}
            for key in set(back.mem) | set(tmpl):
                bv = back.mem.get(key)
                if bv is None:
                    continue
                hv = tmpl.get(key)
                if hv is None:
                    if key[0] >= fr.depth:
                        if isinstance(key[1], int) or key[0] > fr.depth:
                            continue
                        continue
                    hv = st0.get(key)
                bv = under(bv, back.pc)
                nv = self.widen(hv, bv, self.key_ty(key), mus, steps, (key,))
                if nv is not hv:
                    changed = True
                tmpl[key] = nv
            if not changed:
                break
        else:
            raise Unsupported("loop does not stabilise in " + name)
        # init values of the symbols
        k = fresh_k()
        inits = {m: info["init"] for m, info in mus.items()}
        closed = self.solve(k, mus, inits, steps)
        sub_ = {m: c for m, c in closed.items()}
        # 2. run once more with closed forms
        del fr.events[nev:]
        H = St(TRUE, {key: (subst(v, sub_) if sub_ else v) for key, v in tmpl.items()}, st0.parent)
        hmem = dict(H.mem)
        back, exits = body(H)
        exits = [(t, s) for t, s in exits if s is not None and feasible(s.pc)]
        if back is None:
            return self.rebase_exits(fr, nev, base_pc, exits)
        # 3. number of iterations
        ns = []
        for t, s in exits:
            n = self.exhaust(s.pc, k)
            ns.append(n)
        exh = [n for n in ns if n is not None]
        N = None
        for n in exh:
            N = n if N is None else min_(N, n)
        if N is not None and N.op == "int" and N.a[0] <= 300:
            r = self.unroll(fr, st0, body, nev, base_pc)
            if r is not None:
                return r
        out = []
        brk = [(t, s) for (t, s), n in zip(exits, ns) if n is None]
        exhs = [(t, s) for (t, s), n in zip(exits, ns) if n is not None]
        b = OR(*[s.pc for _, s in brk]) if brk else FALSE

        def sub_state(s, m, cond):
            mem = {}
            for key, v in s.mem.items():
                v = under(v, s.pc)
                mem[key] = subst(v, m)
            return St(AND(base_pc, cond), mem, s.parent)
        if N is not None:
            bb = b
            anyb = any_(k, N, bb) if bb is not FALSE else FALSE
            for t, s in exhs:
                c = NOT(anyb)
                if len(exhs) > 1:
                    c = AND(c, subst(s.pc, {k: N}))
                if c is not FALSE:
                    out.append((t, sub_state(s, {k: N}, c)))
            if brk and anyb is not FALSE:
                F = first_(k, N, bb)
                self.note_first(F, N)
                left = anyb
                for i, (t, s) in enumerate(brk):
                    c = AND(left, subst(s.pc, {k: F})) if i + 1 < len(brk) else left
                    left = AND(left, NOT(c))
                    if c is not FALSE:
                        out.append((t, sub_state(s, {k: F}, c)))
        else:
            if not exits:
                return []
            desc = close("loop", k, I(0), *([s.pc for _, s in exits] + [back.pc]))
            K = app("loopK", (0, LENMAX), desc)
            # K is the iteration that leaves the loop: exactly one of the exits is taken there
            left = TRUE
            for i, (t, s) in enumerate(exits):
                c = AND(left, subst(s.pc, {k: K})) if i + 1 < len(exits) else left
                left = AND(left, NOT(c))
                if c is not FALSE:
                    out.append((t, sub_state(s, {k: K}, c)))
        self.rebase_events(fr, nev, base_pc)
        return [(t, s) for t, s in out if s.pc is not FALSE]

    def note_first(self, F, N):
        if F.op == "First":
            terms.add_fact(F, sub(add(N, I(-1)), F))

    def rebase_events(self, fr, nev, pc):
        ev = fr.events[nev:]
        del fr.events[nev:]
        for e in ev:
            e = e.rebase(pc)
            if e is not None:
                fr.events.append(e)

    def rebase_exits(self, fr, nev, base_pc, exits):
        self.rebase_events(fr, nev, base_pc)
        out = []
        for t, s in exits:
            if s is None:
                continue
            s.pc = AND(base_pc, s.pc)
            if s.pc is not FALSE:
                out.append((t, s))
        return out

    def unroll(self, fr, st0, body, nev, base_pc, plain=False):
        """run the loop step by step; plain: only if every step but the last has no way out"""
        del fr.events[nev:]
        outs = []
        st = St(TRUE, dict(st0.mem), st0.parent)
        pc = TRUE
        for i in range(66 if plain else 310):
            n2 = len(fr.events)
            st.pc = TRUE
            before = dict(st.mem) if plain else None
            back, exits = body(st)
            if plain and back is not None and back.pc is not FALSE and any(s is not None and feasible(s.pc) for t, s in exits):
                # ways out are fine while something of a known length is gone through
                if not any(self.models.counted(v) and back.mem.get(k) is not v for k, v in before.items()):
                    return None
            self.rebase_events(fr, n2, pc)
            for t, s in exits:
                if s is None:
                    continue
                s.pc = AND(pc, s.pc)
                if s.pc is not FALSE:
                    outs.append((t, s))
            if back is None:
                break
            npc = AND(pc, back.pc)
            if npc is FALSE or not feasible(npc):
                break
            for key, v in list(back.mem.items()):
                back.mem[key] = under(v, back.pc)
            st, pc = back, npc
        else:
            return None
        self.stats["unrolled"] += 1
        # merge exits per tag in order
        by = {}
        for t, s in outs:
            by.setdefault(t, []).append(s)
        res = []
        for t, l in by.items():
            s = merge(l, fr.depth, None)
            if s is not None:
                res.append((t, s))
        return self.rebase_exits(fr, nev, base_pc, res)

    def newmu(self, mus, init, ty, key):
        info = {"init": init, "ty": ty}
        r = self.trange(ty) if ty is not None else None
        if r is None and isint(init) and not isbool(init):
            r = None
        n = len(mus)
        self.nfresh += 1
        m = mkT("k", "mu#%d" % self.nfresh, r)
        mus[m] = info
        return m

    def widen(self, h, b, ty, mus, steps, path):
        """template value generalising h so that it also covers b; steps: symbol -> next value"""
        if h is b:
            # value unchanged; symbols inside keep their value
            for m in self.mus_in(h, mus):
                steps[m] = m if mus[m]["kind"] != "seq" else cat(m)
                if mus[m]["kind"] == "bool":
                    steps[m] = bit(m, 0)
            return h
        if h is UNDEF:
            return UNDEF
        mu = self.is_mu(h, mus)
        if mu is not None:
            steps[mu] = b
            return h
        if h.op == "agg" and b.op == "agg" and h.a[0] == b.a[0] and h.a[1] == b.a[1] and len(h.a[2]) == len(b.a[2]):
            tys = self.field_tys(ty, h.a[1], len(h.a[2]))
            fs = [self.widen(x, y, t, mus, steps, path + (i,)) for i, (x, y, t) in enumerate(zip(h.a[2], b.a[2], tys))]
            if all(x is y for x, y in zip(fs, h.a[2])):
                return h
            return agg(h.a[0], h.a[1], tuple(fs))
        if h.op == "vref" and b.op == "vref":
            t = None
            if ty is not None and self.TY[ty]["k"] in ("ref", "ptr"):
                t = self.TY[ty]["elem"]
            x = self.widen(h.a[0], b.a[0], t, mus, steps, path + ("*",))
            return h if x is h.a[0] else vref(x)
        if h.op == "seq" and b.op == "seq" and len(h.a[0]) == 1 and h.a[0][0].op == "sp":
            g = h.a[0][0]
            gmu = [m for m in mus if m in g.a[0].fv]
            bs = b.a[0]
            if not gmu and (len(bs) == 0 or len(bs) == 1 and bs[0].op == "sp" and bs[0].a[0] is g.a[0]):
                hend = add(g.a[1], g.a[2])
                if len(bs) == 0:
                    bstart, bend = hend, hend
                else:
                    bstart, bend = bs[0].a[1], add(bs[0].a[1], bs[0].a[2])
                if bend is hend or not any(m in hend.fv for m in mus):
                    ns = self.widen(g.a[1], bstart, "usize", mus, steps, path + ("start",))
                    if bend is hend:
                        end = hend
                    else:
                        end = self.widen(hend, bend, "usize", mus, steps, path + ("end",))
                    if ns is g.a[1] and end is hend:
                        return h
                    n = sub(end, ns)
                    for m in mus:
                        if m in ns.fv or m in end.fv:
                            terms.add_fact(m, n)
                    return span(g.a[0], ns, n)
        # replace h by a fresh symbol
        init = h
        for m in self.mus_in(h, mus):
            init = subst(init, {m: mus[m]["init"]})
        return self.mk_mu(init, b, ty, mus, steps)

    def mk_mu(self, init, b, ty, mus, steps):
        if ty == "usize":
            r = (0, SOME_U64)
            self.nfresh += 1
            m = mkT("k", "mu#%d" % self.nfresh, r)
            mus[m] = {"init": init, "kind": "int", "ty": None}
            steps[m] = b
            return m
        d = self.TY[ty] if ty is not None else None
        if init.op == "seq" or b.op == "seq" or (d is not None and self.is_seq(ty)):
            self.nfresh += 1
            m = mkT("k", "mu#%d" % self.nfresh, None)
            mus[m] = {"init": init, "kind": "seq", "ty": ty}
            steps[m] = b
            et = self.elem_ty(ty) if ty is not None else None
            r = self.trange(et) if et is not None else (0, 255) if ty is not None and (d["k"] == "str" or d.get("path") == "alloc::string::String") else None
            if r:
                set_elem_range(m, r)
                mus[m]["er"] = r
            if d is not None and d["k"] == "array" and d["len"] is not None:
                return span(m, I(0), I(d["len"]))
            return span(m, I(0), mkT("len", m))
        if d is not None and d["k"] == "bool" or (d is None and isbool(init) and isbool(b) and not (init.op == "int" and b.op == "int")):
            self.nfresh += 1
            m = mkT("k", "mu#%d" % self.nfresh, None)
            mus[m] = {"init": init, "kind": "bool", "ty": ty}
            steps[m] = b
            return bit(m, 0)
        r = self.trange(ty) if ty is not None else None
        self.nfresh += 1
        m = mkT("k", "mu#%d" % self.nfresh, r)
        mus[m] = {"init": init, "kind": "int" if (isint(init) and isint(b)) else "val", "ty": ty}
        steps[m] = b
        return m

    def is_mu(self, h, mus):
        if h in mus and mus[h]["kind"] in ("int", "val"):
            return h
        if h.op == "seq" and len(h.a[0]) == 1 and h.a[0][0].op == "sp" and h.a[0][0].a[0] in mus and h.a[0][0].a[1] is I(0):
            m = h.a[0][0].a[0]
            if mus[m]["kind"] == "seq":
                return m
        if h.op == "mux" and h.a[1] is TRUE and h.a[2] is FALSE and h.a[0].op == "bit" and h.a[0].a[0] in mus and mus[h.a[0].a[0]]["kind"] == "bool":
            return h.a[0].a[0]
        return None

    def mus_in(self, t, mus):
        return [m for m in mus if m in t.fv]

    def field_tys(self, ty, variant, n):
        if ty is not None and ty != "usize":
            d = self.TY[ty]
            if d["k"] == "tuple":
                return d["fields"]
            if d["k"] == "closure":
                return d["upvars"]
            if d.get("variants") and variant < len(d["variants"]) and len(d["variants"][variant]["f"]) == n:
                return [f["t"] for f in d["variants"][variant]["f"]]
        return [None] * n

    def mu_value(self, m, info, closed):
        """what to substitute for the symbol itself given the closed value"""
        return closed

    def solve(self, k, mus, inits, steps):
        closed = {}
        pend = [m for m in mus]
        for m in pend:
            steps.setdefault(m, m)
        progress = True
        kinds = {m: mus[m]["kind"] for m in mus}

        def rep_of(m, v):
            return v
        while pend and progress:
            progress = False
            for m in list(pend):
                B = steps[m]
                if closed:
                    B = self.msubst(B, closed, kinds)
                others = [x for x in pend if x is not m and x in B.fv]
                if others:
                    continue
                c = self.solve1(k, m, kinds[m], mus[m]["init"], B)
                if c is not None:
                    closed[m] = c
                    pend.remove(m)
                    progress = True
        if pend:
            desc_items = []
            ren = {m: mkT("k", "mv%d" % i, m.a[1]) for i, m in enumerate(pend)}
            for m in pend:
                B = steps[m]
                if closed:
                    B = self.msubst(B, closed, kinds)
                desc_items.append(subst(B, ren))
            L = close("loop", k, I(0), *([mus[m]["init"] for m in pend] + desc_items))
            for i, m in enumerate(pend):
                t = app("lv", m.a[1], L, I(i), k)
                if "er" in mus[m]:
                    set_elem_range(t, mus[m]["er"])
                closed[m] = t
                if m in terms.FACTS:
                    self._pending_facts = True
            for m in pend:
                for f in terms.FACTS.get(m, ()):
                    g = self.msubst(f, closed, kinds)
                    terms.add_fact(closed[m], g)
        return {m: c for m, c in closed.items()}

    def msubst(self, t, closed, kinds):
        return subst(t, closed)

    def solve1(self, k, m, kind, init, B):
        if kind == "int":
            if B.op in ("int", "lin", "mux") or isint(B):
                d = sub(B, m)
                if m not in d.fv:
                    if k not in d.fv:
                        return add(init, mul(k, d))
                    kk = fresh_k()
                    return add(init, sum_over(k, subst(d, {k: kk}), None, kk))
        if kind == "seq" and B.op == "seq":
            segs = B.a[0]
            if segs and segs[0].op == "sp" and segs[0].a[0] is m and segs[0].a[1] is I(0) and segs[0].a[2] is mkT("len", m):
                rest = mkT("seq", segs[1:])
                if m not in rest.fv:
                    kk = fresh_k()
                    return cat(init, flat(kk, k, subst(rest, {k: kk})))
            if segs and segs[-1].op == "sp" and segs[-1].a[0] is m and segs[-1].a[1] is I(0) and segs[-1].a[2] is mkT("len", m):
                rest = mkT("seq", segs[:-1])
                if m not in rest.fv and k not in rest.fv:
                    kk = fresh_k()
                    return cat(flat(kk, k, rest), init)
            r = self.solve_inplace(k, m, init, segs)
            if r is not None:
                return r
        if m not in B.fv:
            prev = subst(B, {k: add(k, I(-1))})
            if prev is init:
                return init
            return ite(ge0(add(k, I(-1))), prev, init)
        if kind == "bool" and isbool(B):
            at_ = mkT("bit", m, 0)
            b1, b0 = mapcof(B, at_, 1), mapcof(B, at_, 0)
            kk = fresh_k()
            if b1 is TRUE and m not in b0.fv:
                return OR(init, any_(kk, k, subst(b0, {k: kk})))
            if b0 is FALSE and m not in b1.fv:
                return AND(init, NOT(any_(kk, k, NOT(subst(b1, {k: kk})))))
        return None

    def solve_inplace(self, k, m, init, segs):
        """each step overwrites the next piece of the sequence"""
        if len(segs) < 3 or any(g.op != "sp" or g.a[0] is not m for g in (segs[0], segs[-1])):
            return None
        o, w = segs[0].a[2], seq_len(mkT("seq", segs[1:-1]))
        total = add(segs[-1].a[1], segs[-1].a[2])
        if segs[0].a[1] is not I(0) or segs[-1].a[1] is not add(o, w) or w.op != "int" or w.a[0] <= 0:
            return None
        d = sub(o, mulc(k, w.a[0]))
        if k in d.fv or m in d.fv or m in total.fv and total is not mkT("len", m):
            return None
        if m in total.fv or total is not seq_len(init):
            if total is not mkT("len", m):
                return None
            total = seq_len(init)
        mid = mkT("seq", segs[1:-1])
        if m in mid.fv:
            # a step may look at what it overwrites: still the initial content
            for i in range(w.a[0]):
                x = seq_at(mkT("seq", (mkT("sp", m, I(0), mkT("len", m)),)), add(o, I(i)))
                mid = subst(mid, {x: seq_at(init, add(o, I(i)))})
            if m in mid.fv:
                return None
        kk = fresh_k()
        done = mulc(k, w.a[0])
        return cat(seq_slice(init, I(0), d), flat(kk, k, subst(mid, {k: kk})), seq_slice(init, add(d, done), sub(sub(total, d), done)))

    def exhaust(self, e, k):
        """N such that the exit condition e(k) is (k >= N), or None"""
        if e is TRUE:
            return I(0)
        if e.op != "mux":
            return None
        v, hi, lo = e.a
        if k not in v.fv:
            if hi is FALSE or lo is FALSE:
                return None
            a, b = self.exhaust(hi, k), self.exhaust(lo, k)
            return None if a is None or b is None else ite(var(v), a, b)
        if v.op == "ge0":
            l = v.a[0]
            c, d = lin_parts(l)
            ck = d.get(k)
            if ck is None or any(k in x.fv for x in d if x is not k):
                return None
            r = sub(l, mulc(k, ck))
            if ck > 0 and hi is TRUE:
                n = self.ceil_div(mulc(r, -1), ck)
                if lo is FALSE:
                    return n
                n2 = self.exhaust(lo, k)
                return min_(n, n2) if n2 is not None else None
            if ck < 0 and lo is TRUE:
                # exits when  r - |ck| k < 0  <=>  |ck| k >= r + 1
                n = self.ceil_div(add(r, I(1)), -ck)
                if hi is FALSE:
                    return n
                n2 = self.exhaust(hi, k)
                return min_(n, n2) if n2 is not None else None
        if v.op == "eq0" and hi is TRUE and lo is FALSE:
            l = v.a[0]
            c, d = lin_parts(l)
            ck = d.get(k)
            if ck in (1, -1) and not any(k in x.fv for x in d if x is not k):
                r = mulc(sub(l, mulc(k, ck)), -ck)
                if rng(r)[0] >= 0:
                    return r
        return None

    def ceil_div(self, x, c):
        if c == 1:
            return max0(x)
        return max0(div_c(max0(add(x, I(c - 1))), c))

    def py_loop(self, fr, st, cells, step):
        """a loop written in Python: cells = {name: (value, type)}; step(state, get, set) -> [(tag or None, state)]
        (tag None = next iteration).  Returns [(tag, state, cell values)]"""
        self.nfresh += 1
        pre = "py%d:" % self.nfresh
        keys = {n: (fr.depth, pre + n) for n in cells}
        for n, (v, ty) in cells.items():
            st.set(keys[n], v)
            self.keyty[keys[n]] = ty

        def body(s):
            res = step(s, keys)
            back = merge([x for t, x in res if t is None], fr.depth, None)
            ex = {}
            for t, x in res:
                if t is not None:
                    ex.setdefault(t, []).append(x)
            return back, [(t, merge(l, fr.depth, None)) for t, l in ex.items()]
        outs = self.do_loop(fr, st, body, pre)
        res = []
        for t, s in outs:
            vals = {n: s.get(keys[n]) for n in cells}
            for n in cells:
                s.mem.pop(keys[n], None)
            res.append((t, s, vals))
        return res

    # ---------------------------------------------------------------- calls
    def call_term(self, fr, st, t):
        f = t["f"]
        self.stats["call_sites"] += 1
        args = [self.operand(fr, st, o) for o in t["a"]]
        if "fop" in t and "fnptr" in f:
            fv = self.operand(fr, st, t["fop"])
            v = self.call_value(fr, st, fv, None, args, t["dt"])
        else:
            v = self.call(fr, st, f, args, t["at"], t["dt"])
        if v is None or st.pc is FALSE:
            return []
        if not feasible(st.pc):
            return []
        if t["to"] is None:
            return []
        ty = t["dt"]
        if v.op in RAW or v.op == "mux":
            v = self.expand(ty, v)
        self.write_place(fr, st, t["dst"], v)
        return [(t["to"], st)]

    def call(self, fr, st, f, args, atys, dty):
        """evaluate a call; returns the value, or None when it does not return"""
        path = f.get("path")
        rpath = f.get("rpath", path)
        m = self.models.find(self, f, path, rpath) if self.local_models is None else self.local_models(path or "") or self.models.find(self, f, path, rpath)
        if m is not None:
            r = m(Ctx(self, fr, st, f, args, atys, dty))
            if r is not self.models.FALL:
                return r
        inst = f.get("inst")
        if inst is not None:
            i = self.IN[inst]
            if "body" in i:
                if i["body"]["argc"] != len(args) or i["body"].get("spread") is not None or (
                        path is not None and path.startswith("core::ops::function::Fn") and rpath != path):
                    args = self.untuple(fr, st, i, args)
                return self.run_inst(fr, st, inst, args)
            if i["kind"].startswith("shim") and path is not None and path.startswith("core::ops::function::Fn"):
                return self.call_value(fr, st, args[0], f["targs"][0], self.tuple_items(args[1]), dty)
            if f.get("path", "").startswith("core::ops::function::Fn"):
                return self.call_value(fr, st, args[0], f["targs"][0], self.tuple_items(args[1]), dty)
        elif path is not None and path.startswith("core::ops::function::Fn"):
            return self.call_value(fr, st, args[0], f["targs"][0], self.tuple_items(args[1]), dty)
        return self.models.unknown_call(Ctx(self, fr, st, f, args, atys, dty))

    def tuple_items(self, t):
        if t.op == "agg":
            return list(t.a[2])
        if t.op == "mux":
            ts = [x for x in terminals(t)]
            if all(x.op == "agg" for x in ts):
                n = len(ts[0].a[2])
                return [self.fld(t, i) for i in range(n)]
        raise Unsupported("call arguments are not a tuple")

    def untuple(self, fr, st, i, args):
        n = i["body"]["argc"]
        if i["body"].get("spread") is not None and len(args) == n:
            return args
        if len(args) == 2:
            xs = [args[0]] + self.tuple_items(args[1])
            if len(xs) == n:
                return self.fix_self(fr, st, i, xs)
        raise Unsupported("argument count of " + i["path"])

    def fix_self(self, fr, st, i, xs):
        """closure self passed by value where the body takes a reference"""
        t = self.TY[i["body"]["locals"][1]]
        if t["k"] == "ref" and xs[0].op == "agg":
            if t["mut"]:
                self.nfresh += 1
                key = (fr.depth, "self%d" % self.nfresh)
                st.set(key, xs[0])
                self.keyty[key] = t["elem"]
                xs = [mkT("mref", key[0], key[1], ())] + xs[1:]
            else:
                xs = [vref(xs[0])] + xs[1:]
        elif t["k"] != "ref" and xs[0].op in ("mref", "vref"):
            xs = [self.deref(st, xs[0])] + xs[1:]
        return xs

    def call_value(self, fr, st, fv, fty, args, dty):
        """call a function value (closure, fn item, fn pointer)"""
        v = fv
        seen = 0
        while v.op in ("vref", "mref") and seen < 6:
            nv = self.deref(st, v)
            if nv.op == "agg" and str(nv.a[0]).startswith("closure#"):
                ty = int(nv.a[0][8:])
                return self.call_closure(fr, st, ty, nv, v, args)
            v = nv
            seen += 1
        if v.op == "mux":
            return self.mux_call(fr, st, v, fv, args, dty)
        if v.op == "agg" and str(v.a[0]).startswith("closure#"):
            return self.call_closure(fr, st, int(v.a[0][8:]), v, v, args)
        if v.op == "agg" and str(v.a[0]).startswith("fn#"):
            return self.call_fnty(fr, st, int(v.a[0][3:]), args, dty)
        if fty is not None:
            t = self.TY[fty]
            while t["k"] == "ref":
                fty = t["elem"]
                t = self.TY[fty]
            if t["k"] == "fndef":
                return self.call_fnty(fr, st, fty, args, dty)
            if t["k"] == "closure" and not t["upvars"]:
                return self.call_closure(fr, st, fty, agg("closure#%d" % fty, 0, ()), agg("closure#%d" % fty, 0, ()), args)
        self.event(fr, st, "unknown", "call of an unknown function value")
        return self.expand(dty, app("callunk", self.trange(dty), fv, *args))

    def mux_call(self, fr, st, v, fv, args, dty):
        a = var(v.a[0])
        s1, s2 = st.copy(AND(st.pc, a)), st.copy(AND(st.pc, NOT(a)))
        outs = []
        vals = []
        for s, x in ((s1, v.a[1]), (s2, v.a[2])):
            if s.pc is FALSE:
                continue
            r = self.call_value(fr, s, x, None, args, dty)
            if r is None or s.pc is FALSE:
                continue
            s.set((fr.depth, "muxcall"), r)
            outs.append(s)
        m = merge(outs, fr.depth, None)
        if m is None:
            st.pc = FALSE
            return None
        st.pc, st.mem = m.pc, m.mem
        return st.mem.pop((fr.depth, "muxcall"))

    def call_closure(self, fr, st, ty, v, ref, args):
        t = self.TY[ty]
        inst = t["inst"]
        i = self.IN[inst]
        if "body" not in i:
            raise Unsupported("closure without body " + i["path"])
        xs = self.fix_self(fr, st, i, [ref] + args)
        if i["body"]["argc"] != len(xs):
            raise Unsupported("closure arguments of " + i["path"])
        return self.run_inst(fr, st, inst, xs)

    def call_fnty(self, fr, st, ty, args, dty):
        t = self.TY[ty]
        if "ctor_ty" in t:
            return agg(self.TY[t["ctor_ty"]]["path"], t["ctor_variant"], tuple(args))
        f = {"path": t["path"], "targs": t["args"]}
        if "inst" in t:
            f["inst"] = t["inst"]
            f["rpath"] = self.IN[t["inst"]]["path"]
        return self.call(fr, st, f, args, [None] * len(args), dty)

    def run_inst(self, fr, st, inst, args):
        i = self.IN[inst]
        self.stats["calls"] += 1
        pure = not any(has_mref(a) for a in args)
        key = (inst, tuple(args))
        if pure:
            r = self.memo.get(key)
            if r is not None:
                rpc, val, evs, _ = r
                return self.finish(fr, st, rpc, val, evs, {})
        fn = self.fns.get(inst)
        if fn is None:
            fn = self.fns[inst] = Fn(i["body"], i["path"])
        if i.get("local"):
            self.stats["functions"].add(i["path"])
        depth = fr.depth + 1
        if depth > self.maxdepth:
            raise Unsupported("recursion in " + i["path"])
        f2 = Frame(fn, depth, fr.chain + (i["path"],), i)
        s2 = St(TRUE, {(depth, n + 1): a for n, a in enumerate(args)}, st)
        old = self.frames.get(depth)
        self.frames[depth] = f2
        nf = self.nfresh
        try:
            outs = self.run_region(f2, None, {0: [s2]}, None)
        finally:
            self.frames[depth] = old
        m = merge([s for t, s in outs if t == "ret"], depth, {0})
        if m is None:
            rpc, val, writes = FALSE, UNDEF, {}
        else:
            rpc = m.pc
            val = under(m.get((depth, 0)), rpc)
            val = self.escape(m, depth, val)
            writes = {k: v for k, v in m.mem.items() if k[0] < depth}
        evs = f2.events
        if pure and not any(e.kind == "fresh" for e in evs):
            self.memo[key] = (rpc, val, evs, None)
        return self.finish(fr, st, rpc, val, evs, writes)

    def escape(self, m, depth, v):
        """a returned reference into the callee frame can only be to promoted/temporary data"""
        if v.op == "mref" and v.a[0] == depth:
            return vref(self.read_key(m, (v.a[0], v.a[1]), v.a[2]))
        return v

    def finish(self, fr, st, rpc, val, evs, writes):
        may_panic = False
        for e in evs:
            e = e.rebase(st.pc)
            if e is not None:
                if e.kind == "panic":
                    may_panic = True
                    if not feasible(e.cond):
                        continue
                fr.events.append(e)
        if may_panic and rpc is not TRUE and not feasible(AND(st.pc, NOT(rpc))):
            rpc = TRUE
        if rpc is FALSE:
            st.pc = FALSE
            return None
        for k, v in writes.items():
            st.mem[k] = v
        st.pc = AND(st.pc, rpc)
        return val

    # ---------------------------------------------------------------- roots
    def run_root(self, inst, args, objs=None, config=None):
        """args: terms; objs: {name: (value, type)} root objects that mref(-1, name) denotes.
        returns (return condition, return value, {name: final value}, events)"""
        st = St(TRUE, {}, None)
        objs = objs or {}
        for n, (v, ty) in objs.items():
            st.set((-1, n), v)
            self.keyty[(-1, n)] = ty
        fr = Frame(_EmptyFn(), 0, (), None)
        self.frames[0] = fr
        v = self.run_inst(fr, st, inst, args)
        fin = {n: under(st.get((-1, n)), st.pc) for n in objs}
        lost = AND(NOT(st.pc), NOT(OR(*[e.cond for e in fr.events if e.kind in ("panic", "diverge")])))
        if feasible(lost):
            fr.events.append(Ev("unknown", lost, "control flow neither returns nor panics", (), ("root",)))
        return st.pc, v, fin, fr.events


class _EmptyFn:
    body = {"locals": [], "argc": 0, "blocks": []}
    name = "root"
    loops = {}
    order = []


class Ctx:
    """what a model sees of a call"""
    __slots__ = ("ip", "fr", "st", "f", "a", "at", "dty")

    def __init__(self, ip, fr, st, f, args, at, dty):
        self.ip, self.fr, self.st, self.f, self.a, self.at, self.dty = ip, fr, st, f, args, at, dty

    def d(self, i):
        """pointee of argument i"""
        return self.ip.deref(self.st, self.a[i], self.at[i] if self.at and i < len(self.at) else None)

    def s(self, i):
        v = self.d(i)
        n = 0
        while n < 6 and (v.op in ("vref", "mref") or v.op == "mux" and all(x.op in ("vref", "mref") for x in terminals(v))):
            v = self.ip.deref(self.st, v)
            n += 1
        return self.ip.seqof(v)

    def panic(self, cond, what):
        if self.ip.panic(self.fr, self.st, cond, what):
            self.st.pc = AND(self.st.pc, NOT(cond))

    def ev(self, kind, what, data=(), cond=TRUE):
        self.ip.event(self.fr, self.st, kind, what, data, cond)

    def write(self, i, v):
        self.ip.rwrite(self.fr, self.st, self.a[i], v)

    def T(self, i):
        return self.ip.TY[i]
