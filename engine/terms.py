"""Hash-consed value terms of the gated value-flow analysis.

A value is a term.  Branch joins build decision diagrams ("mux") over branch atoms, so a value is
a total function of the analysed inputs; integers are linear forms or bit vectors, byte strings and
vectors are sequences of segments.  Constructors normalise, so two ways of writing the same
computation usually give the same term; equal() decides the rest by cofactoring on atoms.
"""
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "a", "id", "ord", "fv", "h", "_rng")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]
NOFV = frozenset()


def mkT(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    _n[0] += 1
    t.id = _n[0]
    t.ord = _n[0] + (1 << 40 if op == "bit" else 0)
    fv = NOFV
    h = 0
    for x in _kids(a):
        if x.fv:
            fv = fv | x.fv if fv else x.fv
        if x.h > h:
            h = x.h
    if op == "k":
        fv = fv | {t}
    elif op == "fl" or op == "Sum" or op == "First" or op == "Any" or op == "loop":
        h += 1
    t.fv = fv
    t.h = h
    t._rng = 0
    _tab[key] = t
    return t


def _kids(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _kids(x)


def I(n):
    return mkT("int", n)


TRUE = I(1)
FALSE = I(0)
UNDEF = mkT("undef")
INF = float("inf")
LENMAX = 1 << 47  # user address space: no slice in memory is longer


# ------------------------------------------------------------------ ranges
def rng(t):
    r = t._rng
    if r == 0:
        r = _rngc(t)
        t._rng = r
    return r


def _rngc(t):
    op = t.op
    if op == "int":
        return (t.a[0], t.a[0])
    if op == "sym" or op == "proj" or op == "at" or op == "k":
        r = t.a[-1]
        return r if isinstance(r, tuple) else (-INF, INF)
    if op == "byte":
        return (0, 255)
    if op == "le":
        return (0, (1 << (8 * t.a[1])) - 1)
    if op == "bits":
        return (0, (1 << len(t.a[0])) - 1)
    if op == "lin":
        lo = hi = t.a[0]
        for x, c in t.a[1]:
            a, b = rng(x)
            if c < 0:
                a, b = b, a
            lo += a * c
            hi += b * c
        if len(t.a[1]) == 2:
            # x - c*div(x, c) is a remainder
            for (x, p), (y, q) in (t.a[1], tuple(reversed(t.a[1]))):
                if y.op == "app" and y.a[0] == "div" and y.a[2][0] is x and y.a[2][1].op == "int" and q == -p * y.a[2][1].a[0] and rng(x)[0] >= 0:
                    e = p * (y.a[2][1].a[0] - 1)
                    return (max(lo, t.a[0] + min(0, e)), min(hi, t.a[0] + max(0, e)))
        return (lo, hi)
    if op == "mux":
        a, b = rng(t.a[1]), rng(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == "len":
        return (0, LENMAX)
    if op == "Sum":
        return (0, 1 << 56) if rng(t.a[1])[0] >= 0 else (-INF, INF)
    if op == "max0":
        r = rng(t.a[0])
        return (max(0, r[0]), max(0, r[1]))
    if op == "min":
        a, b = rng(t.a[0]), rng(t.a[1])
        return (min(a[0], b[0]), min(a[1], b[1]))
    if op == "First":
        return (0, LENMAX)
    if op == "app":
        r = t.a[1]
        return r if isinstance(r, tuple) else (-INF, INF)
    return (-INF, INF)


# ------------------------------------------------------------------ decision diagrams
_ite = {}


def top(t):
    return t.a[0] if t.op == "mux" else None


def cof(t, v, val):
    """cofactor of a diagram whose atoms are >= v"""
    if t.op == "mux" and t.a[0] is v:
        return t.a[1] if val else t.a[2]
    return t


def _excl(v):
    """atoms that are false when v is true"""
    if v.op == "isv":
        return ("isv", v.a[0])
    return None


_dr = {}


def drestrict_excl(t, grp, keep):
    """set every atom isv(grp, x) other than keep to false at diagram level"""
    if t.op != "mux":
        return t
    key = (t, grp, keep)
    r = _dr.get(key)
    if r is None:
        v, hi, lo = t.a
        if v.op == "isv" and v.a[0] is grp and v is not keep:
            r = drestrict_excl(lo, grp, keep)
        else:
            r = _mk0(v, drestrict_excl(hi, grp, keep), drestrict_excl(lo, grp, keep))
        _dr[key] = r
    return r


def _mk0(v, hi, lo):
    if hi is lo or lo is UNDEF:
        return hi
    if hi is UNDEF:
        return lo
    return mkT("mux", v, hi, lo)


def exclusive(t):
    """a condition without the tests of variants that its tests of the others already exclude"""
    if t.op != "mux":
        return t
    v, hi, lo = t.a[0], exclusive(t.a[1]), exclusive(t.a[2])
    if v.op == "isv" and lo.op == "mux" and hi is drestrict_excl(lo, v.a[0], v):
        return lo
    return _mk0(v, hi, lo)


def mk(v, hi, lo):
    if v.op == "isv" and hi.op == "mux":
        hi = drestrict_excl(hi, v.a[0], v)
    return _mk0(v, hi, lo)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if b is UNDEF:
        return a
    if a is UNDEF:
        return b
    key = (c, a, b)
    r = _ite.get(key)
    if r is not None:
        return r
    r = _ite1(c, a, b)
    _ite[key] = r
    return r


def _ite1(c, a, b):
    assert c.op == "mux" and c.a[0] is not None, ("bad cond", c)
    ao, bo = a.op, b.op
    if ao == bo:
        if ao == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return mkT("agg", a.a[0], a.a[1], tuple(ite(c, x, y) for x, y in zip(a.a[2], b.a[2])))
        if ao == "vref":
            return vref(ite(c, a.a[0], b.a[0]))
        if ao == "iter" and a.a[1:] == b.a[1:] and False:
            return a
        if ao == "seq":
            return seq_ite(c, a, b)
        if ao == "bits" and len(a.a[0]) == len(b.a[0]):
            return frombits(tuple(ite(c, x, y) for x, y in zip(a.a[0], b.a[0])))
    if (ao == "bits" or bo == "bits") and isint(a) and isint(b):
        n = len((a if ao == "bits" else b).a[0])
        return frombits(tuple(ite(c, x, y) for x, y in zip(tobits(a, n), tobits(b, n))))
    if (ao == "lin" or bo == "lin") and isint(a) and isint(b):
        da, db = lin_parts(a), lin_parts(b)
        common = {}
        for x, k in da[1].items():
            k2 = db[1].get(x)
            if k2 is not None:
                if k > 0 and k2 > 0:
                    common[x] = min(k, k2)
                elif k < 0 and k2 < 0:
                    common[x] = max(k, k2)
        if common:
            ra = mklin(da[0], {x: k - common.get(x, 0) for x, k in da[1].items()})
            rb = mklin(db[0], {x: k - common.get(x, 0) for x, k in db[1].items()})
            m = ite(c, ra, rb)
            return add(mklin(0, common), m)
    return _apply_ite(c, a, b)


def _apply_ite(c, a, b):
    v = c.a[0]
    ta, tb = top(a), top(b)
    if ta is not None and ta.ord < v.ord:
        v = ta
    if tb is not None and tb.ord < v.ord:
        v = tb
    hi = ite(cof(c, v, 1), cof(a, v, 1), cof(b, v, 1))
    lo = ite(cof(c, v, 0), cof(a, v, 0), cof(b, v, 0))
    return mk2(v, hi, lo)


def mk2(v, hi, lo):
    """mk, but merges structured terminals under the single atom v"""
    if hi is lo:
        return hi
    if hi.op == lo.op and hi.op in ("agg", "vref", "seq", "bits") or (hi.op == "lin" or lo.op == "lin"):
        key = ("mk2", v, hi, lo)
        r = _ite.get(key)
        if r is None:
            _ite[key] = mk(v, hi, lo)  # guard against recursion
            c = mk(v, TRUE, FALSE)
            if hi.op == "agg" and not (hi.a[0] == lo.a[0] and hi.a[1] == lo.a[1]):
                r = mk(v, hi, lo)
            elif hi.op == lo.op and hi.op in ("agg", "vref", "seq", "bits"):
                r = _ite1(c, hi, lo)
            elif isint(hi) and isint(lo) and hi.op != "mux" and lo.op != "mux":
                r = _lin_ite(v, c, hi, lo)
            else:
                r = mk(v, hi, lo)
            _ite[key] = r
        return r
    return mk(v, hi, lo)


def _lin_ite(v, c, a, b):
    da, db = lin_parts(a), lin_parts(b)
    common = {}
    for x, k in da[1].items():
        k2 = db[1].get(x)
        if k2 is not None:
            if k > 0 and k2 > 0:
                common[x] = min(k, k2)
            elif k < 0 and k2 < 0:
                common[x] = max(k, k2)
    if common:
        ra = mklin(da[0], {x: k - common.get(x, 0) for x, k in da[1].items()})
        rb = mklin(db[0], {x: k - common.get(x, 0) for x, k in db[1].items()})
        return add(mklin(0, common), mk(v, ra, rb))
    return mk(v, a, b)


def var(atom):
    """boolean diagram of an atom"""
    return mk(atom, TRUE, FALSE)


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def asbool(t):
    if t.op == "int" or t.op == "mux":
        return t
    if t is UNDEF:
        return FALSE
    return var(t)


def isbool(t):
    return t.op == "int" and t.a[0] in (0, 1) or t.op == "mux" and isbool(t.a[1]) and isbool(t.a[2])


_gc = {}
_small = {}


def small(c, lim=80):
    """the diagram has at most lim nodes"""
    r = _small.get(c)
    if r is None:
        seen = set()
        st = [c]
        while st and len(seen) <= lim:
            x = st.pop()
            if x.op == "mux" and x not in seen:
                seen.add(x)
                st.append(x.a[1])
                st.append(x.a[2])
        r = _small[c] = len(seen) <= lim
    return r


def gcof(f, c):
    """generalised cofactor (restrict): simplify f knowing c holds"""
    if c is TRUE or f.op != "mux":
        return f
    if c is FALSE:
        return f
    key = (f, c)
    r = _gc.get(key)
    if r is not None:
        return r
    v, cv = f.a[0], top(c)
    if cv is None:
        r = f
    elif cv.ord < v.ord:
        if c.a[1] is FALSE:
            r = gcof(f, c.a[2])
        elif c.a[2] is FALSE:
            r = gcof(f, c.a[1])
        elif small(c.a[1]) and small(c.a[2]):
            r = gcof(f, OR(c.a[1], c.a[2]))
        else:
            # too large to join: keep what both sides simplify to
            r = gcof(f, c.a[1])
            if r is not f and gcof(f, c.a[2]) is not r:
                r = f
    elif cv is v:
        if c.a[1] is FALSE:
            r = gcof(f.a[2], c.a[2])
        elif c.a[2] is FALSE:
            r = gcof(f.a[1], c.a[1])
        else:
            r = mk2(v, gcof(f.a[1], c.a[1]), gcof(f.a[2], c.a[2]))
    else:
        r = mk2(v, gcof(f.a[1], c), gcof(f.a[2], c))
    _gc[key] = r
    return r


def atoms_of_dd(c, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if c.op == "mux" and c not in seen:
        seen.add(c)
        if c.a[0] not in acc:
            acc.append(c.a[0])
        atoms_of_dd(c.a[1], acc, seen)
        atoms_of_dd(c.a[2], acc, seen)
    return acc


def terminals(t, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op == "mux":
        terminals(t.a[1], acc, seen)
        terminals(t.a[2], acc, seen)
    elif t not in acc:
        acc.append(t)
    return acc


def mapt(t, f, memo=None):
    """apply f to the terminals of a diagram"""
    if t.op != "mux":
        return f(t)
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        v = t.a[0]
        hi, lo = mapt(t.a[1], f, memo), mapt(t.a[2], f, memo)
        r = ite(var(v), hi, lo)
        memo[t] = r
    return r


# ------------------------------------------------------------------ integers
_INTOPS = {"int", "lin", "bits", "mux", "sym", "proj", "at", "byte", "le", "len", "Sum", "app", "max0", "min", "First", "k", "mu", "loop"}


def isint(t):
    if t.op == "mux":
        return isint(t.a[1]) and isint(t.a[2])
    return t.op in _INTOPS


def lin_parts(t):
    if t.op == "int":
        return (t.a[0], {})
    if t.op == "lin":
        return (t.a[0], dict(t.a[1]))
    return (0, {t: 1})


def _lomost(t):
    while t.op == "mux":
        t = t.a[2]
    return t


def mklin(c, d):
    d2 = {}
    muxes = {}
    for x, k in d.items():
        if k == 0:
            continue
        if x.op == "int":
            c += k * x.a[0]
        elif x.op == "lin":
            raise AssertionError("lin in lin")
        elif x.op == "mux":
            # shift so that the low-most terminal has constant part 0
            lm = _lomost(x)
            lc = lm.a[0] if lm.op == "int" else 0
            if lm.op == "lin":
                lc = lm.a[0]
            if lc:
                x = mapt(x, lambda t: add(t, I(-lc)))
                c += k * lc
            if x.op != "mux":
                cc, dd = lin_parts(x)
                c += k * cc
                for y, m in dd.items():
                    d2[y] = d2.get(y, 0) + k * m
            else:
                muxes.setdefault(x.a[0], []).append((x, k))
        else:
            d2[x] = d2.get(x, 0) + k
    for v, xs in muxes.items():
        if len(xs) == 1:
            x, k = xs[0]
            d2[x] = d2.get(x, 0) + k
        else:
            hi = sum_terms([(x.a[1], k) for x, k in xs])
            lo = sum_terms([(x.a[2], k) for x, k in xs])
            m = _lin_ite_any(v, hi, lo)
            cc, dd = lin_parts(m)
            c += cc
            for y, q in dd.items():
                d2[y] = d2.get(y, 0) + q
    d2 = {x: k for x, k in d2.items() if k}
    if not d2:
        return I(c)
    if len(d2) == 1:
        (x, k), = d2.items()
        if x.op == "mux":
            if k == 1 and c == 0:
                return x
            if all(t.op == "int" for t in terminals(x)):
                return mapt(x, lambda t: I(t.a[0] * k + c))
        if k == 1 and c == 0:
            return x
    return mkT("lin", c, tuple(sorted(d2.items(), key=lambda p: p[0].id)))


def _lin_ite_any(v, hi, lo):
    if hi is lo:
        return hi
    if hi.op != "mux" and lo.op != "mux":
        return _lin_ite(v, None, hi, lo)
    return ite(var(v), hi, lo)


def sum_terms(l):
    c = 0
    d = {}
    for t, k in l:
        cc, dd = lin_parts(t)
        c += k * cc
        for x, q in dd.items():
            d[x] = d.get(x, 0) + k * q
    return mklin(c, d)


def add(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.op == "int" and a.a[0] == 0:
        return b
    if b.op == "int" and b.a[0] == 0:
        return a
    return sum_terms([(a, 1), (b, 1)])


def sub(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return sum_terms([(a, 1), (b, -1)])


def mulc(a, k):
    return sum_terms([(a, k)])


def mul(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.op == "int":
        return mulc(b, a.a[0])
    if b.op == "int":
        return mulc(a, b.a[0])
    if a.op == "mux" and isbool(a) or (a.op == "mux" and all(t.op == "int" for t in terminals(a))):
        return mapt(a, lambda t: mul(t, b))
    if b.op == "mux" and all(t.op == "int" for t in terminals(b)):
        return mapt(b, lambda t: mul(t, a))
    if a.id > b.id:
        a, b = b, a
    ra, rb = rng(a), rng(b)
    r = None
    if ra[0] >= 0 and rb[0] >= 0:
        r = (0, ra[1] * rb[1])
    return app("mul", r, a, b)


def app(name, r, *args):
    return mkT("app", name, r, tuple(args))


def lmuxes(t):
    """mux atoms inside a linear form"""
    if t.op == "lin":
        return [x for x, k in t.a[1] if x.op == "mux"]
    return []


_ge = {}


def _le_ge(x, v):
    """little-endian integer x >= constant v, byte by byte"""
    if v <= 0:
        return TRUE
    if v >= 1 << (8 * x.a[1]):
        return FALSE
    r = TRUE
    for i in range(x.a[1]):
        b, w = seq_at(x.a[0], I(i)), I((v >> (8 * i)) & 255)
        r = OR(ge0(sub(b, add(w, I(1)))), AND(eq(b, w), r))
    return r


def _split_max0(l, f):
    """f(l) with the first max0(x) of the linear form resolved by the sign of x"""
    for x, k in (l.a[1] if l.op == "lin" else [(l, 1)]):
        if x.op == "max0":
            rest = sub(l, mulc(x, k))
            return ite(ge0(x.a[0]), f(add(rest, mulc(x.a[0], k))), f(rest))
    return None


def ge0(l):
    """boolean: l >= 0"""
    if l is UNDEF:
        return UNDEF
    r = _ge.get(l)
    if r is not None:
        return r
    lo, hi = rng(l)
    if lo >= 0:
        r = TRUE
    elif hi < 0:
        r = FALSE
    elif l.op == "mux":
        r = mapt(l, ge0)
    else:
        m = lmuxes(l)
        if m:
            v = min((x.a[0] for x in m), key=lambda x: x.ord)
            r = ite(var(v), ge0(restrict_top(l, v, 1)), ge0(restrict_top(l, v, 0)))
        else:
            # max0(x) >= c  (c > 0)  <=>  x >= c
            r = None
            if l.op == "lin" and len(l.a[1]) == 1 and l.a[1][0][0].op == "max0":
                x, k = l.a[1][0]
                if k == 1 and l.a[0] < 0:
                    r = ge0(add(x.a[0], I(l.a[0])))
                elif k == -1 and l.a[0] >= 0:
                    r = ge0(add(mulc(x.a[0], -1), I(l.a[0])))
            if r is None:
                r = _split_max0(l, ge0)
            if r is None and l.op == "lin" and len(l.a[1]) == 1 and l.a[1][0][0].op == "le":
                x, k = l.a[1][0]
                if k > 0:
                    r = _le_ge(x, -(l.a[0] // k))
                else:
                    r = NOT(_le_ge(x, l.a[0] // -k + 1))
            if r is None:
                r = var(mkT("ge0", l))
    _ge[l] = r
    return r


def restrict_top(t, v, val):
    """cofactor on atom v of a linear form / diagram (top-level muxes only)"""
    if t.op == "mux":
        return mapcof(t, v, val)
    if t.op == "lin":
        return sum_terms([(I(t.a[0]), 1)] + [(mapcof(x, v, val) if x.op == "mux" else x, k) for x, k in t.a[1]])
    return t


_mc = {}


def mapcof(t, v, val):
    if t.op != "mux":
        return t
    key = (t, v, val)
    r = _mc.get(key)
    if r is None:
        if t.a[0] is v:
            r = t.a[1] if val else t.a[2]
        elif val and v.op == "isv" and t.a[0].op == "isv" and t.a[0].a[0] is v.a[0]:
            r = mapcof(t.a[2], v, val)
        else:
            r = mk2(t.a[0], mapcof(t.a[1], v, val), mapcof(t.a[2], v, val))
        _mc[key] = r
    return r


def le_(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(add(sub(b, a), I(-1)))


def eq(a, b):
    """boolean: integers a == b"""
    if a is b:
        return TRUE
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isbool(a) and isbool(b):
        return ite(a, b, NOT(b))
    if a.op == "bits" or b.op == "bits":
        n = len((a if a.op == "bits" else b).a[0])
        ra, rb = rng(a), rng(b)
        if ra[1] < rb[0] or rb[1] < ra[0]:
            return FALSE
        r = TRUE
        for x, y in zip(tobits(a, n), tobits(b, n)):
            r = AND(r, ite(x, y, NOT(y)))
            if r is FALSE:
                break
        return r
    # enum discriminant of an opaque value
    for x, y in ((a, b), (b, a)):
        if x.op == "discr" and y.op == "int":
            return isv(x.a[0], y.a[0], x.a[1])
    l = sub(a, b)
    return eq0(l)


def eq0(l):
    if l.op == "int":
        return TRUE if l.a[0] == 0 else FALSE
    lo, hi = rng(l)
    if lo > 0 or hi < 0:
        return FALSE
    if l.op == "mux":
        return mapt(l, eq0)
    m = lmuxes(l)
    if m:
        v = min((x.a[0] for x in m), key=lambda x: x.ord)
        return ite(var(v), eq0(restrict_top(l, v, 1)), eq0(restrict_top(l, v, 0)))
    r = _split_max0(l, eq0)
    if r is not None:
        return r
    c, d = lin_parts(l)
    if len(d) == 1:
        x, k = next(iter(d.items()))
        if x.op == "le" and c % k == 0:
            v, r = -c // k, TRUE
            for i in reversed(range(x.a[1])):
                r = AND(eq(seq_at(x.a[0], I(i)), I((v >> (8 * i)) & 255)), r)
            return r
    first = min(d.items(), key=lambda p: p[0].id)
    if first[1] < 0:
        l = mulc(l, -1)
        lo, hi = -hi, -lo
    if lo == 0:   # x >= 0: x == 0 iff not x >= 1
        return NOT(ge0(add(l, I(-1))))
    if hi == 0:
        return NOT(ge0(add(mulc(l, -1), I(-1))))
    return var(mkT("eq0", l))


def isv(t, v, n):
    """boolean: opaque enum value t (n variants) is variant v"""
    if n == 1:
        return TRUE
    if v < 0 or v >= n:
        return FALSE
    if v == n - 1:
        return NOT(OR(*[var(mkT("isv", t, i)) for i in range(n - 1)]))
    return var(mkT("isv", t, v))


# ------------------------------------------------------------------ bits
_tb = {}


def bit(t, i):
    if t.op == "le":
        return bit(seq_at(t.a[0], I(i // 8)), i % 8) if i < 8 * t.a[1] else FALSE
    if t.op in ("int", "bits", "mux", "byte"):
        return tobits(t, i + 1)[i]
    return var(mkT("bit", t, i))


def tobits(t, w):
    key = (t, w)
    r = _tb.get(key)
    if r is None:
        r = _tobits(t, w)
        _tb[key] = r
    return r


def _tobits(t, w):
    if t.op == "int":
        return tuple(TRUE if (t.a[0] >> i) & 1 else FALSE for i in range(w))
    if t.op == "bits":
        b = t.a[0]
        return tuple(b[i] if i < len(b) else FALSE for i in range(w))
    if isbool(t):
        return tuple(t if i == 0 else FALSE for i in range(w))
    if t.op == "mux":
        v = var(t.a[0])
        return tuple(ite(v, x, y) for x, y in zip(tobits(t.a[1], w), tobits(t.a[2], w)))
    if t.op == "byte":
        x = tobits(t.a[0], 8 * t.a[1] + 8)
        return tuple(x[8 * t.a[1] + i] if i < 8 else FALSE for i in range(w))
    if t.op == "le":
        out = []
        for k in range(t.a[1]):
            out.extend(tobits(seq_at(t.a[0], I(k)), 8))
        out = out[:w]
        return tuple(out + [FALSE] * (w - len(out)))
    hi = rng(t)[1]
    n = w
    if hi != INF:
        n = min(w, max(1, int(hi).bit_length()))
    return tuple(bit(t, i) if i < n else FALSE for i in range(w))


def frombits(bs):
    n = 0
    if all(b.op == "int" for b in bs):
        return I(sum(b.a[0] << i for i, b in enumerate(bs)))
    if all(b is FALSE for b in bs[1:]):
        return bs[0]
    # whole value of one term?
    b0 = next(b for b in bs if b is not FALSE)
    if b0.op == "mux" and b0.a[1] is TRUE and b0.a[2] is FALSE and b0.a[0].op == "bit":
        x = b0.a[0].a[0]
        if tobits(x, len(bs)) == bs:
            h = rng(x)[1]
            if h != INF and h < (1 << len(bs)):
                return x
        # bytes of one or several terms
        if len(bs) == 8:
            k = b0.a[0].a[1] // 8
            if b0.a[0].a[1] % 8 == 0 and tobits(x, 8 * k + 8)[8 * k:8 * k + 8] == bs:
                return byte(x, k)
    if len(bs) % 8 == 0 and len(bs) > 8:
        gs = [frombits(bs[i:i + 8]) for i in range(0, len(bs), 8)]
        if all(g.op in ("byte", "int", "at") for g in gs) and any(g.op != "int" for g in gs):
            r = le_of(seq_of(gs))
            if r.op != "bits":
                return r
    bs2 = bs
    return mkT("bits", bs2)


def byte(x, k):
    if x is UNDEF:
        return UNDEF
    if x.op == "int":
        return I((x.a[0] >> (8 * k)) & 255)
    if x.op == "bits":
        b = x.a[0][8 * k:8 * k + 8]
        if not b:
            return FALSE
        return frombits(tuple(b) + (FALSE,) * (8 - len(b)))
    if x.op == "le":
        return seq_at(x.a[0], I(k)) if k < x.a[1] else I(0)
    if x.op == "mux":
        return mapt(x, lambda t: byte(t, k))
    lo, hi = rng(x)
    if lo >= 0 and hi < (1 << (8 * k)):
        return I(0)
    if k == 0 and lo >= 0 and hi <= 255:
        return x
    if x.op == "byte":
        return x if k == 0 else I(0)
    return mkT("byte", x, k)


def le_of(s):
    """integer from a little-endian byte sequence of constant length"""
    n = seq_len(s)
    assert n.op == "int"
    n = n.a[0]
    bs = [seq_at(s, I(i)) for i in range(n)]
    if all(b.op == "int" for b in bs):
        return I(sum(b.a[0] << (8 * i) for i, b in enumerate(bs)))
    if n == 1:
        return bs[0]
    m = n
    while m > 1 and bs[m - 1].op == "int" and bs[m - 1].a[0] == 0:
        m -= 1
    if m == 1:
        return bs[0]
    if bs[0].op == "byte" and bs[0].a[1] == 0:
        x = bs[0].a[0]
        if all(byte(x, i) is bs[i] for i in range(n)) and rng(x)[1] < (1 << (8 * n)):
            return x
    if any(b.op == "mux" or b.op == "bits" for b in bs):
        out = []
        for b in bs:
            out.extend(tobits(b, 8))
        r = _frombits_nole(tuple(out))
        return r
    if m < n:
        return mkT("le", seq_slice(s, I(0), I(m)), m)
    return mkT("le", s, n)


def _frombits_nole(bs):
    if all(b.op == "int" for b in bs):
        return I(sum(b.a[0] << i for i, b in enumerate(bs)))
    b0 = next(b for b in bs if b is not FALSE)
    if b0.op == "mux" and b0.a[1] is TRUE and b0.a[2] is FALSE and b0.a[0].op == "bit":
        x = b0.a[0].a[0]
        if tobits(x, len(bs)) == bs and rng(x)[1] < (1 << len(bs)):
            return x
    return mkT("bits", bs)


def trunc(t, w):
    if t is UNDEF:
        return t
    lo, hi = rng(t)
    if lo >= 0 and hi < (1 << w):
        return t
    if t.op == "int":
        return I(t.a[0] & ((1 << w) - 1))
    if t.op == "mux":
        return mapt(t, lambda x: trunc(x, w))
    return frombits(tobits(t, w))


def bitop(op, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if op == "&":
        for c, m in ((a, b), (b, a)):
            if m.op == "int" and is_count(c) and rng(c)[0] >= 0:
                v = m.a[0]
                if v & (v + 1) == 0:
                    return rem_c(c, v + 1)
                g = ((1 << w) - 1) ^ v
                if g & (g + 1) == 0:
                    return mulc(div_c(c, g + 1), g + 1)
    f = {"&": lambda x, y: AND(x, y), "|": lambda x, y: OR(x, y), "^": lambda x, y: ite(x, NOT(y), y)}[op]
    x, y = tobits(a, w), tobits(b, w)
    return frombits(tuple(f(p, q) for p, q in zip(x, y)))


def is_count(a):
    """a linear term over lengths: shifts of it are multiplications and divisions"""
    return isint(a) and a.op != "int" and any(x.op in ("len", "Sum", "First") for x in (lin_parts(a)[1] if a.op == "lin" else {a: 1}))


def shl(a, k, w):
    if is_count(a) and (rng(a)[1] << k) < (1 << w):
        return mulc(a, 1 << k)
    x = tobits(a, w)
    return frombits(((FALSE,) * k + x)[:w])


def shr(a, k, w):
    if is_count(a) and rng(a)[0] >= 0:
        return div_c(a, 1 << k)
    x = tobits(a, w)
    return frombits((x[k:] + (FALSE,) * k)[:w])


def bnot(a, w):
    return frombits(tuple(NOT(x) for x in tobits(a, w)))


def div_c(a, c):
    if a is UNDEF:
        return a
    if a.op == "int":
        return I(a.a[0] // c)
    if a.op == "mux":
        return mapt(a, lambda t: div_c(t, c))
    if c == 1:
        return a
    k, d = lin_parts(a)
    if d and all(q % c == 0 for q in d.values()) and k % c == 0:
        return mklin(k // c, {x: q // c for x, q in d.items()})
    lo, hi = rng(a)
    if lo >= 0 and c & (c - 1) == 0 and hi < (1 << 128):
        pass
    return app("div", (max(0, lo) // c if lo >= 0 else -INF, hi // c if hi != INF else INF) if lo >= 0 else None, a, I(c))


def rem_c(a, c):
    if a is UNDEF:
        return a
    if a.op == "int":
        return I(a.a[0] % c)
    if a.op == "mux":
        return mapt(a, lambda t: rem_c(t, c))
    lo, hi = rng(a)
    if lo >= 0 and hi < c:
        return a
    if lo >= 0 and c > 1 and c & (c - 1) == 0 and (a.op == "le" or is_count(a)):
        return add(a, mulc(div_c(a, c), -c))
    return app("rem", (0, c - 1), a, I(c))


# ------------------------------------------------------------------ references
def vref(v):
    return mkT("vref", v)


def agg(ty, variant, fields):
    return mkT("agg", ty, variant, tuple(fields))


# ------------------------------------------------------------------ sequences
EMPTY = mkT("seq", ())


def el(t):
    return mkT("e", t)


def span(src, start, n):
    if n.op == "int" and n.a[0] == 0:
        return EMPTY
    return mkT("seq", (mkT("sp", src, start, n),))


def _seg_of_elem(t):
    if t.op == "at":
        return mkT("sp", t.a[0], t.a[1], I(1))
    return mkT("e", t)


def at(src, i, r=None):
    return mkT("at", src, i, r)


_elr = {}


def elem_range(src):
    return _elr.get(src)


def set_elem_range(src, r):
    _elr[src] = r


def _norm_segs(segs):
    out = []
    for s in segs:
        if out:
            p = out[-1]
            if p.op == "sp" and s.op == "sp" and p.a[0] is s.a[0] and add(p.a[1], p.a[2]) is s.a[1]:
                out[-1] = mkT("sp", p.a[0], p.a[1], add(p.a[2], s.a[2]))
                continue
            if p.op == "rep" and s.op == "rep" and p.a[0] is s.a[0]:
                out[-1] = mkT("rep", p.a[0], add(p.a[1], s.a[1]))
                continue
            if p.op == "rep" and s.op == "e" and p.a[0] is s.a[0]:
                out[-1] = mkT("rep", p.a[0], add(p.a[1], I(1)))
                continue
            if p.op == "e" and s.op == "rep" and p.a[0] is s.a[0]:
                out[-1] = mkT("rep", p.a[0], add(s.a[1], I(1)))
                continue
            if p.op == "e" and s.op == "e" and p.a[0] is s.a[0]:
                out[-1] = mkT("rep", p.a[0], I(2))
                continue
            if p.op == "mx" and s.op == "mx" and p.a[0] is s.a[0]:
                out[-1] = mkT("mx", p.a[0], cat(p.a[1], s.a[1]), cat(p.a[2], s.a[2]))
                continue
        if s.op == "rep" and s.a[1].op == "int":
            if s.a[1].a[0] <= 0:
                continue
            if s.a[1].a[0] == 1:
                out.append(_seg_of_elem(s.a[0]))
                continue
        if s.op == "sp" and s.a[2].op == "int" and s.a[2].a[0] == 0:
            continue
        out.append(s)
    return mkT("seq", tuple(out))


def seq_of(elems):
    return _norm_segs([_seg_of_elem(e) for e in elems])


def rep(e, n):
    return _norm_segs([mkT("rep", e, n)])


_cat = {}


def cat(*ss):
    segs = []
    for s in ss:
        if s is UNDEF:
            return UNDEF
        if s.op == "mux":
            # a diagram of sequences: turn into a segment
            s = seq_from_mux(s)
        if s.op != "seq":
            s = mkT("seq", (mkT("sp", s, I(0), mkT("len", s)),))
        segs.extend(s.a[0])
    key = tuple(segs)
    r = _cat.get(key)
    if r is None:
        r = _norm_segs(segs)
        _cat[key] = r
    return r


def seq_from_mux(t):
    if t.op != "mux":
        return t
    hi, lo = seq_from_mux(t.a[1]), seq_from_mux(t.a[2])
    if hi is UNDEF:
        return lo
    if lo is UNDEF:
        return hi
    if hi.op != "seq":
        hi = mkT("seq", (mkT("sp", hi, I(0), mkT("len", hi)),))
    if lo.op != "seq":
        lo = mkT("seq", (mkT("sp", lo, I(0), mkT("len", lo)),))
    return seq_ite(var(t.a[0]), hi, lo)


def seg_len(s):
    if s.op == "e":
        return I(1)
    if s.op == "sp":
        return s.a[2]
    if s.op == "rep":
        return s.a[1]
    if s.op == "mx":
        return ite(s.a[0], seq_len(s.a[1]), seq_len(s.a[2]))
    if s.op == "fl":
        n, body = s.a
        l = seq_len(body)
        return sum_over(n, l, s)
    raise AssertionError(s.op)


_sl = {}


def seq_len(s):
    r = _sl.get(s)
    if r is None:
        if s.op == "mux":
            r = mapt(s, seq_len)
        elif s is UNDEF:
            r = UNDEF
        elif s.op == "seq":
            r = sum_terms([(seg_len(x), 1) for x in s.a[0]])
        else:
            r = mkT("len", s)
        _sl[s] = r
    return r


def seq_ite(c, a, b):
    if a is b:
        return a
    x, y = list(a.a[0]), list(b.a[0])
    pre = []
    while x and y:
        if x[0] is y[0]:
            pre.append(x.pop(0))
            y.pop(0)
            continue
        # rep vs shorter rep of the same element
        p, q = x[0], y[0]
        if p.op in ("rep", "e") and q.op in ("rep", "e") and p.a[0] is q.a[0]:
            n, m = seg_len(p), seg_len(q)
            if n.op == "int" and m.op == "int":
                k = min(n.a[0], m.a[0])
                pre.append(mkT("rep", p.a[0], I(k)))
                if n.a[0] > k:
                    x[0] = mkT("rep", p.a[0], I(n.a[0] - k))
                else:
                    x.pop(0)
                if m.a[0] > k:
                    y[0] = mkT("rep", p.a[0], I(m.a[0] - k))
                else:
                    y.pop(0)
                continue
        break
    post = []
    while x and y and x[-1] is y[-1]:
        post.insert(0, x.pop())
        y.pop()
    mid = []
    if x or y:
        A, B = _norm_segs(x), _norm_segs(y)
        mid = mx_segs(c, A, B)
    return _norm_segs(pre + list(mid) + post)


def mx_segs(c, A, B):
    """segments for ite(c, A, B); canonical polarity: diagram over c with sequence leaves"""
    if c is TRUE:
        return A.a[0]
    if c is FALSE:
        return B.a[0]
    # element-wise when both are short literals of the same length
    if A.a[0] and len(A.a[0]) == len(B.a[0]) and all(p.op == "e" for p in A.a[0] + B.a[0]):
        return tuple(mkT("e", ite(c, p.a[0], q.a[0])) for p, q in zip(A.a[0], B.a[0]))
    # nested mx on the same condition
    if len(A.a[0]) == 1 and A.a[0][0].op == "mx" and A.a[0][0].a[0] is c:
        A = A.a[0][0].a[1]
    if len(B.a[0]) == 1 and B.a[0][0].op == "mx" and B.a[0][0].a[0] is c:
        B = B.a[0][0].a[2]
    if A is B:
        return A.a[0]
    return (mkT("mx", c, A, B),)


def seq_at(s, i):
    if s is UNDEF or i is UNDEF:
        return UNDEF
    if s.op == "mux":
        return mapt(s, lambda t: seq_at(t, i))
    if i.op == "mux":
        return mapt(i, lambda t: seq_at(s, t))
    if s.op != "seq":
        return at(s, i, elem_range(s))
    off = I(0)
    for g in s.a[0]:
        n = seg_len(g)
        rel = sub(i, off)
        end = sub(n, rel)          # n - rel > 0 ?
        if rng(rel)[0] >= 0 or rel.op == "int" and rel.a[0] >= 0 or rel.fv or True:
            lo, hi = rng(end)
            inside = lo > 0
            only = len(s.a[0]) == 1
            if (inside or only) and (rng(rel)[0] >= 0 or only):
                if g.op == "e":
                    return g.a[0]
                if g.op == "sp":
                    return at(g.a[0], add(g.a[1], rel), elem_range(g.a[0]))
                if g.op == "rep":
                    return g.a[0]
                if g.op == "mx":
                    return ite(g.a[0], seq_at(g.a[1], rel), seq_at(g.a[2], rel))
                if g.op == "fl":
                    n2, body = g.a
                    bl = seq_len(body)
                    if bl.op == "int" and bl.a[0] == 1:
                        return subst(seq_at(body, I(0)), {bvar(g.h): rel})
                    if bl.op == "int" and bl.a[0] > 1 and rel.op == "int":
                        q, r = divmod(rel.a[0], bl.a[0])
                        return subst(seq_at(body, I(r)), {bvar(g.h): I(q)})
                    break
            if hi <= 0:
                off = add(off, n)
                continue
            if i.op == "int" and g.op in ("sp", "rep") and rng(rel)[0] >= 0 and len(s.a[0]) <= 4:
                # which piece a fixed position falls in depends on a length
                here = g.a[0] if g.op == "rep" else at(g.a[0], add(g.a[1], rel), elem_range(g.a[0]))
                k = s.a[0].index(g)
                return ite(ge0(add(end, I(-1))), here, seq_at(mkT("seq", s.a[0][k + 1:]), sub(rel, n)))
        break
    return at(s, i, elem_range(s))


def seq_slice(s, start, n):
    """s[start .. start+n], assuming it is in bounds"""
    if s is UNDEF or start is UNDEF or n is UNDEF:
        return UNDEF
    if n.op == "int" and n.a[0] == 0:
        return EMPTY
    if s.op == "mux":
        return seq_from_mux(mapt(s, lambda t: seq_slice(t, start, n)))
    if s.op != "seq":
        return span(s, start, n)
    if start.op == "int" and start.a[0] == 0 and n is seq_len(s):
        return s
    if len(s.a[0]) == 1 and s.a[0][0].op == "sp":
        g = s.a[0][0]
        return span(g.a[0], add(g.a[1], start), n)
    if len(s.a[0]) == 1 and s.a[0][0].op == "rep":
        return rep(s.a[0][0].a[0], n)
    out = []
    need_start = start   # remaining to skip
    need = n
    segs = list(s.a[0])
    i = 0
    # skip
    while i < len(segs):
        if need_start.op == "int" and need_start.a[0] == 0:
            break
        g = segs[i]
        l = seg_len(g)
        d = sub(need_start, l)
        if d.op == "int" and d.a[0] >= 0 or rng(d)[0] >= 0:
            need_start = d
            i += 1
            continue
        # split inside g
        if i + 1 < len(segs):
            past = ge0(d)
            if past is not FALSE and feasible(past):
                if not feasible(NOT(past)):
                    need_start = d
                    i += 1
                    continue
                A = seq_slice(mkT("seq", tuple(segs[i + 1:])), d, n)
                r = _seg_drop(g, need_start, l)
                if r is None:
                    return span(s, start, n)
                B = seq_slice(_norm_segs(list(r if isinstance(r, tuple) else (r,)) + segs[i + 1:]), I(0), n)
                return seq_ite(past, A, B)
        rest = _seg_drop(g, need_start, l)
        if rest is None:
            return span(s, start, n)
        segs[i] = rest
        if isinstance(rest, tuple):
            segs[i:i + 1] = list(rest)
        need_start = I(0)
        break
    if not (need_start.op == "int" and need_start.a[0] == 0):
        return span(s, start, n)
    total = sum_terms([(seg_len(g), 1) for g in segs[i:]])
    if total is need:
        return _norm_segs(segs[i:])
    while i < len(segs):
        if need.op == "int" and need.a[0] == 0:
            break
        g = segs[i]
        l = seg_len(g)
        d = sub(need, l)
        if rng(d)[0] >= 0:
            out.append(g)
            need = d
            i += 1
            continue
        r = _seg_take(g, need, l)
        if r is None:
            return span(s, start, n)
        if i + 1 < len(segs):
            past = ge0(d)
            if past is not FALSE and feasible(past):
                A = cat(mkT("seq", tuple(out) + (g,)), seq_slice(mkT("seq", tuple(segs[i + 1:])), I(0), d))
                if not feasible(NOT(past)):
                    return A
                return seq_ite(past, A, _norm_segs(out + list(r)))
        out.extend(r)
        need = I(0)
        break
    if not (need.op == "int" and need.a[0] == 0):
        return span(s, start, n)
    return _norm_segs(out)


def _seg_drop(g, k, l):
    """segments of g without its first k elements (0 < k < l), or None"""
    if g.op == "sp":
        return (mkT("sp", g.a[0], add(g.a[1], k), sub(l, k)),)
    if g.op == "rep":
        return (mkT("rep", g.a[0], sub(l, k)),)
    if g.op == "mx":
        la, lb = seq_len(g.a[1]), seq_len(g.a[2])
        if la is lb:
            A, B = seq_slice(g.a[1], k, sub(la, k)), seq_slice(g.a[2], k, sub(lb, k))
            return tuple(seq_ite(g.a[0], A, B).a[0])
    return None


def _seg_take(g, k, l):
    if g.op == "sp":
        return [mkT("sp", g.a[0], g.a[1], k)]
    if g.op == "rep":
        return [mkT("rep", g.a[0], k)]
    if g.op == "mx":
        la, lb = seq_len(g.a[1]), seq_len(g.a[2])
        if la is lb:
            A, B = seq_slice(g.a[1], I(0), k), seq_slice(g.a[2], I(0), k)
            return list(seq_ite(g.a[0], A, B).a[0])
    return None


def seq_splice_n(s, start, n, new):
    """replace s[start..start+n] by new (of the same length)"""
    total = seq_len(s)
    if start is I(0) and n is total:
        return new
    e = add(start, n)
    return cat(seq_slice(s, I(0), start), new, seq_slice(s, e, sub(total, e)))


def seq_splice(s, start, new):
    n = seq_len(new)
    total = seq_len(s)
    a = seq_slice(s, I(0), start)
    e = add(start, n)
    b = seq_slice(s, e, sub(total, e))
    return cat(a, new, b)


# ------------------------------------------------------------------ binders
_bv = {}


def bvar(h):
    return mkT("k", "bv%d" % h, (0, LENMAX))


_fresh = [0]


def fresh_k():
    _fresh[0] += 1
    return mkT("k", "k#%d" % _fresh[0], (0, LENMAX))


def close(op, k, n, *body):
    """binder op over index k in 0..n with the given bodies"""
    h = max([n.h] + [b.h for b in body]) + 1
    b2 = [subst(b, {k: bvar(h)}) for b in body]
    h2 = max([n.h] + [b.h for b in b2]) + 1
    if h2 != h:
        b2 = [subst(b, {k: bvar(h2)}) for b in body]
    return mkT(op, n, *b2)


def flat(k, n, body):
    """sequence: concatenation of body(k) for k in 0..n"""
    if n.op == "int":
        if n.a[0] <= 0:
            return EMPTY
        if n.a[0] <= 64:
            return cat(*[subst(body, {k: I(i)}) for i in range(n.a[0])])
    if body.op == "mux":
        body = seq_from_mux(body)
    if body.op != "seq":
        body = cat(body)
    if not body.a[0]:
        return EMPTY
    # identity: [at(src, k+c)] over 0..n  ->  span
    if len(body.a[0]) == 1:
        g = body.a[0][0]
        if g.op == "sp" and g.a[2].op == "int" and k not in g.a[0].fv:
            w = g.a[2].a[0]
            c0 = sub(g.a[1], mulc(k, w))
            if k not in c0.fv:
                return span(g.a[0], c0, mulc(n, w))
        if g.op == "e" and k not in g.fv:
            return rep(g.a[0], n)
        if g.op == "rep" and k not in g.fv:
            return rep(g.a[0], mul(n, g.a[1]))
    # elements taken from a concatenation: one part per piece of it
    for x in _read_at(body, k):
        if len(x.a[0]) > 1 and seq_len(x) is n:
            out = []
            for g in x.a[0]:
                piece = mkT("seq", (g,))
                out.append(flat(k, seg_len(g), _reread(body, x, k, piece, {})))
            return cat(*out)
    f = close("fl", k, n, body)
    return mkT("seq", (f,))


def _read_at(t, k):
    """the concatenations whose element at exactly k occurs in t"""
    seen, out, todo = set(), [], [t]
    while todo:
        y = todo.pop()
        if y in seen or k not in y.fv:
            continue
        seen.add(y)
        if y.op == "at" and y.a[1] is k and y.a[0].op == "seq" and y.a[0] not in out:
            out.append(y.a[0])
        todo.extend(_kids(y.a))
    return out


def _reread(t, x, k, piece, memo):
    if k not in t.fv:
        return t
    r = memo.get(t)
    if r is None:
        if t.op == "at" and t.a[0] is x and t.a[1] is k:
            r = seq_at(piece, k)
        else:
            r = rebuild(t, lambda y: _reread(y, x, k, piece, memo))
        memo[t] = r
    return r


def sum_over(n, body, binder=None, k=None):
    """sum of body over an index in 0..n; body uses bvar(binder.h) (or k)"""
    v = bvar(binder.h) if binder is not None else k
    if v not in body.fv:
        return mul(n, body)
    # linear: constant parts out
    c, d = lin_parts(body)
    out = [(mul(n, I(c)), 1)]
    for x, q in d.items():
        if v not in x.fv:
            out.append((mul(n, x), q))
        else:
            kk = fresh_k()
            b = subst(x, {v: kk})
            lo = rng(b)[0]
            if lo > -(1 << 62) and lo != 0:
                # keep the summand's lower bound at zero, so that the sum is known to be non-negative
                out.append((mul(n, I(lo)), q))
                b = add(b, I(-lo))
            out.append((close("Sum", kk, n, b), q))
    return sum_terms(out)


# ------------------------------------------------------------------ substitution
_sub_memo = {}


def subst(t, m):
    """replace index variables / symbols (any T with an entry in m); rebuilds normal forms"""
    keys = frozenset(m)
    return _subst(t, m, keys, {})


def _subst(t, m, keys, memo):
    r = m.get(t)
    if r is not None:
        return r
    if all(k.op == "k" for k in keys):
        if not (t.fv & keys):
            return t
    r = memo.get(t)
    if r is not None:
        return r
    r = rebuild(t, lambda x: _subst(x, m, keys, memo))
    memo[t] = r
    return r


def _map(a, f):
    return tuple(f(x) if isinstance(x, T) else (_map(x, f) if isinstance(x, tuple) else x) for x in a)


def rebuild(t, f):
    op = t.op
    if op == "int" or op == "undef":
        return t
    if op in ("sym", "k"):
        return t
    if op == "mux":
        v = f(t.a[0])
        hi, lo = t.a[1], t.a[2]
        if v is t.a[0]:
            c = var(v)
        else:
            c = asbool(v)
        return ite(c, f(hi), f(lo))
    if op == "lin":
        return sum_terms([(I(t.a[0]), 1)] + [(f(x), k) for x, k in t.a[1]])
    if op == "bits":
        return frombits(tuple(f(b) for b in t.a[0]))
    if op == "seq":
        return cat(*[seg_rebuild(g, f) for g in t.a[0]])
    if op == "ge0":
        return ge0(f(t.a[0]))
    if op == "eq0":
        return eq0(f(t.a[0]))
    if op == "isv":
        x = f(t.a[0])
        if x is t.a[0]:
            return t
        return _isv(x, t.a[1])
    if op == "bit":
        return tobits(f(t.a[0]), t.a[1] + 1)[t.a[1]]
    if op == "byte":
        return byte(f(t.a[0]), t.a[1])
    if op == "le":
        return le_of(f(t.a[0]))
    if op == "at":
        s = f(t.a[0])
        return seq_at(s, f(t.a[1])) if s.op in ("seq", "mux") else mkT("at", s, f(t.a[1]), t.a[2])
    if op == "len":
        return seq_len(f(t.a[0]))
    if op == "max0":
        return max0(f(t.a[0]))
    if op == "min":
        return min_(f(t.a[0]), f(t.a[1]))
    if op == "vref":
        return vref(f(t.a[0]))
    if op == "Sum":
        k = fresh_k()
        b = f(_open(t, 1, k))
        return sum_over(f(t.a[0]), b, None, k)
    if op == "proj":
        x = f(t.a[0])
        if x is t.a[0]:
            return t
        return _proj(x, t.a[1:])
    if op in ("First", "Any"):
        k = fresh_k()
        b = f(_open(t, 1, k))
        n = f(t.a[0])
        return first_(k, n, b) if op == "First" else any_(k, n, b)
    if op == "loop":
        k = fresh_k()
        bodies = [_open(t, i, k) for i in range(1, len(t.a))]
        return close("loop", k, f(t.a[0]), *[f(b) for b in bodies])
    if op == "app":
        hook = HOOKS.get("app")
        args = _map(t.a[2], f)
        if hook and args != t.a[2]:
            return hook(t.a[0], t.a[1], args)
        return mkT("app", t.a[0], t.a[1], args)
    return mkT(op, *_map(t.a, f))


def _isv(x, v):
    if x.op == "mux":
        return mapt(x, lambda y: _isv(y, v))
    if x.op == "agg":
        return TRUE if x.a[1] == v else FALSE
    return UNDEF if x is UNDEF else var(mkT("isv", x, v))


def _proj(x, rest):
    if x.op == "mux":
        return mapt(x, lambda y: _proj(y, rest))
    if x.op == "agg" and rest[0] == x.a[1] and rest[1] < len(x.a[2]):
        return x.a[2][rest[1]]
    return mkT("proj", x, *rest)


def _open(t, i, k):
    return subst(t.a[i], {bvar(t.h): k})


def seg_rebuild(g, f):
    if g.op == "e":
        return seq_of([f(g.a[0])])
    if g.op == "sp":
        src = f(g.a[0])
        st, n = f(g.a[1]), f(g.a[2])
        if src.op in ("seq", "mux"):
            return seq_slice(src, st, n)
        return span(src, st, n)
    if g.op == "rep":
        return rep(f(g.a[0]), f(g.a[1]))
    if g.op == "mx":
        return cat(ite_seq(f(g.a[0]), f(g.a[1]), f(g.a[2])))
    if g.op == "fl":
        k = fresh_k()
        b = f(_open(g, 1, k))
        return flat(k, f(g.a[0]), b)
    raise AssertionError(g.op)


def ite_seq(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = cat(a), cat(b)
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    return seq_ite(c, a, b)


HOOKS = {}


def max0(l):
    lo, hi = rng(l)
    if lo >= 0:
        return l
    if hi <= 0:
        return I(0)
    if l.op == "mux":
        return mapt(l, max0)
    return mkT("max0", l)


def min_(a, b):
    # min(a,b) = a - max0(a-b)
    return sub(a, max0(sub(a, b)))


def _in_range(k, n, b):
    """body of a search over k in 0..n: k < n is known there"""
    c = ge0(sub(n, add(k, I(1))))
    if c.op == "mux" and c.a[1] is TRUE and c.a[2] is FALSE:
        return restrict(b, c.a[0], 1)
    if c.op == "mux" and c.a[1] is FALSE and c.a[2] is TRUE:
        return restrict(b, c.a[0], 0)
    return b


def first_(k, n, b):
    b = exclusive(_in_range(k, n, b))
    if b is TRUE:
        return I(0)
    return close("First", k, n, b)


def any_(k, n, b):
    b = exclusive(_in_range(k, n, b))
    if b is FALSE:
        return FALSE
    if n.op == "int":
        if n.a[0] <= 0:
            return FALSE
        if n.a[0] <= 16:
            return OR(*[subst(b, {k: I(i)}) for i in range(n.a[0])])
    if k not in b.fv:
        return AND(ge0(add(n, I(-1))), b)
    return var(close("Any", k, n, b))


# ------------------------------------------------------------------ deep restriction and equality
def restrict(t, atom, val, memo=None):
    """t with the boolean atom fixed, everywhere (also below terms)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t is atom:
        r = TRUE if val else FALSE
    elif t.op == "mux":
        v = t.a[0]
        if v is atom:
            r = restrict(t.a[1] if val else t.a[2], atom, val, memo)
        elif val and v.op == "isv" and atom.op == "isv" and v.a[0] is atom.a[0]:
            r = restrict(t.a[2], atom, val, memo)
        else:
            r = rebuild(t, lambda x: restrict(x, atom, val, memo))
    elif t.op in ("isv", "ge0", "eq0", "bit") and not any(x.op == "mux" for x in _deep(t)):
        r = t
    else:
        r = rebuild(t, lambda x: restrict(x, atom, val, memo))
    memo[t] = r
    return r


def _deep(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in _kids(t.a):
        yield from _deep(x, seen)


def unbound(v):
    """v mentions the index of a binder around it (binders inside v number lower than v's own height)"""
    return any(k.a[0].startswith("bv") and int(k.a[0][2:]) > v.h for k in v.fv)


def first_atom(t, seen=None):
    """smallest decision atom occurring in t (outside binders)"""
    best = None
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "mux":
            v = x.a[0]
            if best is None or v.ord < best.ord:
                if not unbound(v):
                    best = v
        if x.op == "mx":
            for v in atoms_of_dd(x.a[0]):
                if best is None or v.ord < best.ord:
                    if not unbound(v):
                        best = v
        stack.extend(_kids(x.a))
    return best


def replace(t, old, new, memo=None):
    """t with a term replaced everywhere"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = new if t is old else rebuild(t, lambda x: replace(x, old, new, memo))
        memo[t] = r
    return r


def _pinned(v, val, ctx):
    """(x, e) when deciding the ge0 atom v that way makes an inequality an equality x = e under ctx"""
    if v.op != "ge0" or ctx is TRUE:
        return None
    l = v.a[0] if val else sub(I(-1), v.a[0])
    c, parts = lin_parts(l)
    for x, k in parts.items():
        if abs(k) == 1 and x.op not in ("mux", "max0"):
            if feasible(AND(ctx, lt(I(0), l))):
                return None
            return x, mulc(sub(l, mulc(x, k)), -k)
    return None


class Budget(Exception):
    pass


def equal(a, b, ctx=TRUE, feasible=None, budget=4000):
    """decide a == b under ctx: without, then with, the equalities that pairs of inequalities amount to"""
    if a is not b:
        a, b = settle(a, ctx), settle(b, ctx)
    b = sweep(a, b, ctx, feasible)
    if equal1(a, b, ctx, feasible, budget, False) is None:
        return None
    return equal1(a, b, ctx, feasible, budget, True)


def settle(t, ctx):
    """t with the atoms that ctx decides fixed, everywhere"""
    if ctx is TRUE:
        return t
    seen, vs, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "mux":
            vs.add(x.a[0])
        elif x.op == "mx":
            vs.update(atoms_of_dd(x.a[0]))
        todo.extend(_kids(x.a))
    for v in sorted(vs, key=lambda v: v.ord):
        if unbound(v):
            continue
        if AND(ctx, NOT(var(v))) is FALSE:
            t = restrict(t, v, 1)
        elif AND(ctx, var(v)) is FALSE:
            t = restrict(t, v, 0)
    return t


def apps(t):
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app":
            out.append(x)
        todo.extend(_kids(x.a))
    return out


def sweep(a, b, ctx, feasible):
    """b with the function values that can be shown to be ones of a replaced by these, innermost first"""
    if a is b:
        return b
    have = {x for x in apps(a) if not x.fv}
    mine = sorted((x for x in apps(b) if not x.fv and x not in have), key=lambda x: x.h)
    theirs = sorted(have - set(apps(b)), key=lambda x: x.h)
    if not mine or not theirs or len(mine) * len(theirs) > 400:
        return b
    m = {}
    for t in mine:
        t2 = subst(t, m) if m else t
        if t2 in have:
            m[t] = t2
            continue
        for s in theirs:
            if s.a[:2] == t2.a[:2] and len(s.a[2]) == len(t2.a[2]) and all(isinstance(x, T) and isinstance(y, T) for x, y in zip(s.a[2], t2.a[2])):
                try:
                    if all(equal1(x, y, ctx, feasible, 250, False) is None for x, y in zip(s.a[2], t2.a[2])):
                        m[t] = s
                        break
                except Budget:
                    pass
    return subst(b, m) if m else b


def equal1(a, b, ctx, feasible, budget, pin):
    """decide a == b under the condition ctx; returns None if equal, else a witness list of atom values"""
    left = [budget]
    memo = set()

    def go(a, b, ctx, path):
        if a is b:
            return None
        if (a, b, ctx) in memo:
            return None
        left[0] -= 1
        if left[0] < 0:
            raise Budget()
        if feasible is not None and not feasible(ctx):
            return None
        v = None
        for x in (a, b):
            w = first_atom(x)
            if w is not None and (v is None or w.ord < v.ord):
                v = w
        while v is not None:
            # an atom over an undecided term is looked at once that term is decided
            ws = [w for w in map(first_atom, _kids(v.a)) if w is not None]
            if not ws:
                break
            v = min(ws, key=lambda w: w.ord)
        if v is None:
            r = EQHOOK(a, b) if EQHOOK else False
            if r:
                return None
            return path + [("!=", a, b)]
        for val in (1, 0):
            c2 = AND(ctx, var(v) if val else NOT(var(v)))
            if c2 is FALSE:
                continue
            x, y = restrict(a, v, val), restrict(b, v, val)
            p = _pinned(v, val, ctx) if pin else None
            if p is not None:
                x, y = replace(x, *p), replace(y, *p)
            r = go(x, y, c2, path + [(v, val)])
            if r is not None:
                return r
        memo.add((a, b, ctx))
        return None
    return go(a, b, ctx, [])


EQHOOK = None


# ------------------------------------------------------------------ theory: feasibility of a condition
_feas = {}


from math import gcd


def feasible(c):
    """is the condition satisfiable in the theory of linear order over the term ranges? (may over-approximate: True)"""
    if c is TRUE:
        return True
    if c is FALSE or c is UNDEF:
        return False
    r = _feas.get(c)
    if r is None:
        r = _feasible(c, _facts(c), [100000])
        if r:
            d = bitwise(c)
            r = d is c or d is not FALSE and _feasible(d, _facts(d), [100000])
        _feas[c] = r
    return r


_ords, _bitw = {}, {}


def _byte_order(v):
    """(x, k, sign) of an order condition  sign*x + k  >= 0 or == 0  on one byte"""
    if v.op not in ("ge0", "eq0"):
        return None
    k, d = lin_parts(v.a[0])
    if len(d) != 1:
        return None
    (x, q), = d.items()
    return (x, k, q) if abs(q) == 1 and rng(x)[0] >= 0 and rng(x)[1] <= 255 and x.op not in ("mux", "bits") else None


def _byte_atoms(c):
    """bytes under order conditions and bytes under bit conditions of a diagram"""
    r = _ords.get(c)
    if r is None:
        if c.op != "mux":
            r = (frozenset(), frozenset())
        else:
            a, b = _byte_atoms(c.a[1]), _byte_atoms(c.a[2])
            o, i = a[0] | b[0], a[1] | b[1]
            v = c.a[0]
            z = _byte_order(v)
            if z:
                o |= {z[0]}
            elif v.op == "bit":
                i |= {v.a[0]}
            r = (o, i)
        _ords[c] = r
    return r


def bitwise(c):
    """the condition with the order conditions on bytes whose bits are also asked written over those bits"""
    o, i = _byte_atoms(c)
    both = o & i
    if not both:
        return c
    memo = {}

    def ge(x, n):
        if n <= 0:
            return TRUE
        if n > 255:
            return FALSE
        r = TRUE
        for j in range(8):
            b = var(mkT("bit", x, j))
            r = AND(b, r) if (n >> j) & 1 else OR(b, r)
        return r

    def conv(v):
        z = _byte_order(v)
        if not z or z[0] not in both:
            return var(v)
        x, k, q = z
        n = -k if q > 0 else k
        if v.op == "eq0":
            return AND(ge(x, n), NOT(ge(x, n + 1)))
        return ge(x, n) if q > 0 else NOT(ge(x, n + 1))

    def rec(t):
        if t.op != "mux":
            return t
        r = memo.get(t)
        if r is None:
            r = memo[t] = ite(conv(t.a[0]), rec(t.a[1]), rec(t.a[2]))
        return r
    return rec(c)


def _consistent(cons, new):
    """cons: list of linear forms known >= 0; is adding new consistent?"""
    if rng(new)[1] < 0:
        return False
    for l in cons:
        if rng(add(l, new))[1] < 0:
            return False
    n = len(cons)
    if n > 24:
        cons = cons[-24:]
        n = 24
    for i in range(n):
        s = add(cons[i], new)
        for j in range(i + 1, n):
            if rng(add(s, cons[j]))[1] < 0:
                return False
        if _scaled(s):
            for j in range(n):
                if j != i and any(rng(x)[1] < 0 for x in _elim(s, cons[j])):
                    return False
        # the same with an atom eliminated whose coefficients differ
        for s in _elim(cons[i], new):
            if rng(s)[1] < 0:
                return False
            for j in range(n):
                if j != i and rng(add(s, cons[j]))[1] < 0:
                    return False
    return True


def _scaled(l):
    """is there a coefficient so large that no bound of a sum will show what scaling does"""
    return any(abs(k) >= 10 and abs(k) & (abs(k) - 1) for k in lin_parts(l)[1].values())


def _elim(l, m):
    """combinations of two forms in which an atom of opposite, unequal coefficients cancels"""
    a, b = lin_parts(l)[1], lin_parts(m)[1]
    if len(b) < len(a):
        a, b = b, a
        l, m = m, l
    out = []
    for x, k in a.items():
        q = b.get(x)
        if q is not None and (k < 0) != (q < 0) and abs(k) != abs(q):
            g = gcd(abs(k), abs(q))
            out.append(add(mulc(l, abs(q) // g), mulc(m, abs(k) // g)))
    return out


def _lit(v, val):
    """linear facts implied by a literal"""
    if v.op == "ge0":
        return [v.a[0] if val else sub(I(-1), v.a[0])]
    if v.op == "eq0" and val:
        return [v.a[0], mulc(v.a[0], -1)]
    if v.op == "bit" and val and rng(v.a[0])[0] >= 0:
        return [sub(v.a[0], I(1 << v.a[1]))]
    return []


FACTS = {}


def add_fact(t, l):
    """the linear form l is non-negative whenever t is meaningful"""
    f = FACTS.setdefault(t, [])
    if l not in f:
        f.append(l)
        _feas.clear()


def _facts(c):
    """known linear facts (>= 0) about the symbols of a condition"""
    out = []
    seen = set()
    stack = [c]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        f = FACTS.get(x)
        if f:
            for l in f:
                if l not in out:
                    out.append(l)
                    stack.append(l)
        stack.extend(_kids(x.a))
    return out


def _feasible(c, cons, budget):
    if c is TRUE:
        return True
    if c is FALSE or c is UNDEF:
        return False
    if c.op != "mux":
        return True
    cons = _relevant(c, cons)
    key = (c, frozenset(cons))
    r = _fz.get(key)
    if r is not None:
        return r
    budget[0] -= 1
    if budget[0] < 0:
        return True
    r = _feasible1(c, cons, budget)
    if not r or budget[0] >= 0:
        _fz[key] = r
    return r


_fz = {}
_lats = {}
_latl = {}


def lat_of(l):
    """the atoms of a linear form"""
    r = _latl.get(l)
    if r is None:
        r = _latl[l] = frozenset(lin_parts(l)[1])
    return r


def lats(c):
    """atoms of the linear conditions of a diagram"""
    r = _lats.get(c)
    if r is None:
        if c.op != "mux":
            r = frozenset()
        else:
            v = c.a[0]
            r = lats(c.a[1]) | lats(c.a[2])
            if v.op in ("ge0", "eq0"):
                r |= lat_of(v.a[0])
        _lats[c] = r
    return r


_dirc, _dirl = {}, {}


def _dir(l):
    """a linear form up to constant and sign"""
    r = _dirl.get(l)
    if r is None:
        d = lin_parts(l)[1]
        if d and min(d.items(), key=lambda x: id(x[0]))[1] < 0:
            d = {x: -k for x, k in d.items()}
        r = _dirl[l] = frozenset(d.items())
    return r


def dirs(c):
    """directions of the order conditions of a diagram"""
    r = _dirc.get(c)
    if r is None:
        if c.op != "mux":
            r = frozenset()
        else:
            r = dirs(c.a[1]) | dirs(c.a[2])
            if c.a[0].op == "ge0":
                r |= {_dir(c.a[0].a[0])}
        _dirc[c] = r
    return r


def _relevant(c, cons):
    """the constraints that can interact with the conditions of c"""
    if not cons:
        return cons
    at = set(lats(c))
    todo = cons
    keep = []
    while True:
        rest = []
        hit = False
        for l in todo:
            s = lat_of(l)
            if at.isdisjoint(s):
                rest.append(l)
            else:
                keep.append(l)
                if not s <= at:
                    at |= s
                    hit = True
        todo = rest
        if not hit or not rest:
            break
    if not todo:
        return cons
    k = set(keep)
    return [l for l in cons if l in k]


def _feasible1(c, cons, budget):
    v, hi, lo = c.a
    for val, nxt in ((1, hi), (0, lo)):
        if nxt is FALSE:
            continue
        if val and v.op == "isv":
            nxt = drestrict_excl(nxt, v.a[0], v)
        lits = _lit(v, val)
        ok = True
        cc = cons
        for l in lits:
            if not _consistent(cc, l):
                ok = False
                break
            cc = cc + [l]
        if not ok:
            continue
        if v.op == "eq0" and not val:
            # contradicts an equality already known?
            l = v.a[0]
            if any(x is l for x in cons) and any(x is mulc(l, -1) for x in cons):
                continue
            # an order condition on the same form further down: below or above
            if _dir(l) in dirs(nxt) or any(_dir(x) == _dir(l) for x in cons):
                for s in (add(l, I(-1)), sub(I(-1), l)):
                    if _consistent(cc, s) and _feasible(nxt, cc + [s], budget):
                        return True
                continue
        if _feasible(nxt, cc, budget):
            return True
    return False


def implies(c, d):
    return not feasible(AND(c, NOT(d)))


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    op, a = t.op, t.a
    if d > 12:
        return "…"
    s = lambda x: show(x, d + 1)
    if op == "int":
        return str(a[0]) if abs(a[0]) < 10000 else hex(a[0])
    if op == "undef":
        return "⊥"
    if op == "sym":
        return str(a[0])
    if op == "k":
        return a[0]
    if op == "proj":
        return "%s.%s%s" % (s(a[0]), "" if a[1] in (None, 0) else "v%s." % a[1], a[2])
    if op == "lin":
        r = " + ".join((("%s*" % k) if k != 1 else "") + s(x) for x, k in a[1])
        return "(%s%s)" % (r, (" %+d" % a[0]) if a[0] else "")
    if op == "mux":
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "!" + s(a[0])
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "isv":
        return "%s is #%d" % (s(a[0]), a[1])
    if op == "bit":
        return "%s[%d]" % (s(a[0]), a[1])
    if op == "ge0":
        return "%s>=0" % s(a[0])
    if op == "eq0":
        return "%s==0" % s(a[0])
    if op == "seq":
        return "[" + ", ".join(s(x) for x in a[0]) + "]"
    if op == "e":
        return s(a[0])
    if op == "sp":
        return "%s[%s;+%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "rep":
        return "%s×%s" % (s(a[0]), s(a[1]))
    if op == "mx":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "fl":
        return "flat(bv%d<%s: %s)" % (t.h, s(a[0]), s(a[1]))
    if op == "agg":
        return "{%s#%s %s}" % (a[0], a[1], ", ".join(s(x) for x in a[2]))
    if op == "vref":
        return "&" + s(a[0])
    if op == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) if isinstance(x, T) else str(x) for x in a[2]))
    if op == "bits":
        return "bits(%s)" % ",".join(s(b) for b in reversed(a[0]))
    if op == "at":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "byte":
        return "byte%d(%s)" % (a[1], s(a[0]))
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else (str(tuple(s(y) for y in x)) if isinstance(x, tuple) else str(x)) for x in a))
