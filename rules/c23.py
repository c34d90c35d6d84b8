"""C23: file times are 100-nanosecond ticks since 1601 and convert back."""
from base import *
import terms

NS = 10 ** 9
EPOCH = 11644473600 * NS        # nanoseconds from 1601-01-01 to 1970-01-01
TICK = 100
TMIN, TMAX = -(2 ** 63) * NS, (2 ** 63 - 1) * NS + NS - 1


def check(R):
    R.explanation = ("The conversions between system time and file time are interpreted over an arbitrary time, counted in nanoseconds from 1970 (seconds "
                     "in 64 bits, signed), and an arbitrary pair of halves. With the quotients and remainders they contain replaced by the linear "
                     "inequalities that define them, the ticks produced must satisfy 100*ticks <= ns since 1601 < 100*ticks + 100, the instant read back "
                     "must be exactly 100*ticks, success must cover every time from 1970 whose ticks fit 64 bits and every file time, and no operation may overflow.")
    R.rule = "obligation: one per conversion and clause (value, halves, success, failure, panic)"
    R.each([into, back, accessor, now], lambda R, f: f(R))
    R.need(len(R.obl), 12, "obligations")


def norem(t):
    """a linear form with the remainders in it written as what their quotients leave"""
    k, d = terms.lin_parts(t)
    out = I(k)
    for x, q in d.items():
        if x.op == "app" and x.a[0] == "rem" and x.a[2][1].op == "int":
            a, c = x.a[2][0], x.a[2][1].a[0]
            x = norem(sub(a, mulc(div_c(a, c), c)))
        out = add(out, mulc(x, q))
    return out


def facts(*ts):
    """define the quotients and remainders of the terms by linear inequalities"""
    seen, st = set(), list(ts)
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x.op == "app" and x.a[0] in ("div", "rem") and x.a[2][1].op == "int":
            a, c = x.a[2][0], x.a[2][1].a[0]
            q = div_c(a, c)
            r = sub(a, mulc(q, c))
            if isint(q):
                for y in {r, norem(r)}:
                    terms.add_fact(x, y)
                    terms.add_fact(x, sub(I(c - 1), y))
                if x.a[0] == "rem":
                    terms.add_fact(x, sub(x, r))
                    terms.add_fact(x, sub(r, x))
                st.append(q)
        st.extend(terms._kids(x.a))


def conv(R, name, arg, out=None):
    """the functions of FileTime called name whose argument is of a kind"""
    P = R.prog()
    got = []
    for r in P.roots:
        if r["name"] != name or "body" not in P.I[r["inst"]]:
            continue
        b = P.I[r["inst"]]["body"]
        if b["argc"] != 1:
            continue
        a, o = P.T[b["locals"][1]], P.T[b["locals"][0]]
        if arg in a["s"] and (out is None or out in o["s"]):
            got.append(r)
    return got


def halves(ip, v):
    lo, hi = fget(ip, FT, v, "low"), fget(ip, FT, v, "high")
    return lo, hi


def whole(lo, hi):
    """the 64-bit number of a low and a high half"""
    return unsplit([byte(lo, i) for i in range(4)] + [byte(hi, i) for i in range(4)])


def into(R):
    rs = [r for n in ("try_from", "from", "try_into", "into") for r in conv(R, n, "SystemTime", "FileTime")]
    R.need(len(rs), 1, "conversions from system time")
    for r in rs:
        ip = R.interp()
        w = ip.IN[r["inst"]]["name"]
        t = mkT("sym", "time", (TMIN, TMAX))
        res = run(R, ip, r, [t])
        if "Result" in ip.TY[body_tys(ip, r)[1]]["s"]:
            c, v = ok_of(ip, res.val)
            c = AND(res.rc, c)
        elif "Option" in ip.TY[body_tys(ip, r)[1]]["s"]:
            c = AND(res.rc, ip.is_variant(res.val, 1, 2))
            v = ip.fld(under(res.val, c), 0, 1)
        else:
            c, v = res.rc, res.val
        for e in res.of("panic"):
            facts(e.cond)
            R.ob(not feasible(e.cond), "into-panic", "the conversion from system time can panic: %s when %s" % (e.what, show(e.cond)[:200]), w)
        v = under(v, c)
        lo, hi = halves(ip, v)
        facts(c, lo, hi)
        since = add(t, I(EPOCH))
        for x, nm in ((lo, "low"), (hi, "high")):
            bad = AND(c, OR(lt(x, I(0)), lt(I(2 ** 32 - 1), x)))
            R.ob(not feasible(bad), "into-width:" + nm, "the %s half does not fit 32 bits" % nm, w)
        ticks = whole(lo, hi)
        facts(ticks)
        for key, bad in (("early", lt(since, mulc(ticks, TICK))), ("late", le_(add(mulc(ticks, TICK), I(TICK)), since))):
            bad = AND(c, bad)
            R.ob(not feasible(bad), "into-value:" + key, "the file time made of a system time is not its number of 100 ns ticks since 1601: %s" % show(bad)[:300], w)
        bad = AND(NOT(c), le_(I(0), t), lt(since, I(TICK * 2 ** 64)))
        R.ob(not feasible(bad), "into-some", "a system time after 1970 whose ticks fit 64 bits is refused: %s" % show(bad)[:300], w)


def back(R):
    rs = conv(R, "to_system_time", "FileTime", "SystemTime") + [r for n in ("try_from", "from") for r in conv(R, n, "FileTime", "SystemTime")]
    R.need(len(rs), 1, "conversions to system time")
    for r in rs:
        ip = R.interp()
        w = ip.IN[r["inst"]]["name"]
        tys, out = body_tys(ip, r)
        ty = ip.TY[tys[0]]["elem"] if ip.TY[tys[0]]["k"] == "ref" else tys[0]
        v = sym(ip, ty, "ft")
        res = run(R, ip, r, [vref(v) if ip.TY[tys[0]]["k"] == "ref" else v])
        for e in res.of("panic"):
            facts(e.cond)
            R.ob(not feasible(e.cond), "back-panic", "the conversion to system time can panic: %s when %s" % (e.what, show(e.cond)[:200]), w)
        s = ip.TY[out]["s"]
        if "Option" in s:
            c = AND(res.rc, ip.is_variant(res.val, 1, 2))
            t = ip.fld(under(res.val, c), 0, 1)
        elif "Result" in s:
            c, t = ok_of(ip, res.val)
            c = AND(res.rc, c)
        else:
            c, t = res.rc, res.val
        lo, hi = halves(ip, v)
        want = sub(mulc(add(lo, mulc(hi, 1 << 32)), TICK), I(EPOCH))
        t, c = plain(under(t, c), lo, hi), plain(c, lo, hi)
        facts(t, c)
        for key, bad in (("early", lt(t, want)), ("late", lt(want, t))):
            bad = AND(c, bad)
            R.ob(not feasible(bad), "back-value:" + key, "the system time of a file time is not the same instant: %s" % show(bad)[:300], w)
        bad = AND(NOT(c), le_(I(TMIN), want), le_(want, I(TMAX)))
        R.ob(not feasible(bad), "back-some", "a file time that can be represented is refused: %s" % show(bad)[:300], w)


def plain(t, lo, hi):
    """the number composed of the bits of two halves, as a linear form"""
    bits = frombits(tuple(tobits(lo, 32)) + tuple(tobits(hi, 32)))
    lin = add(lo, mulc(hi, 1 << 32))
    return subst(t, {bits: lin}) if bits.op != "lin" else t


def accessor(R):
    P = R.prog()
    n = 0
    for r in conv(R, "as_u64", "FileTime") + [r for r in conv(R, "from", "FileTime") if P.T[P.I[r["inst"]]["body"]["locals"][0]]["s"] == "u64"]:
        n += 1
        ip = R.interp()
        tys, out = body_tys(ip, r)
        ty = ip.TY[tys[0]]["elem"] if ip.TY[tys[0]]["k"] == "ref" else tys[0]
        v = sym(ip, ty, "ft")
        res = run(R, ip, r, [vref(v) if ip.TY[tys[0]]["k"] == "ref" else v])
        lo, hi = halves(ip, v)
        for i in range(8):
            d = same(byte(res.val, i), byte(lo, i) if i < 4 else byte(hi, i - 4), res.rc)
            R.ob(d is None, "number", "byte %d of the number of ticks is not that of its halves: %s" % (i, d), ip.IN[r["inst"]]["name"])
    if not n:
        R.notes.append("no accessor for the number of ticks")


def now(R):
    """the current time is the conversion of one reading of the clock"""
    P = R.prog()
    rs = [r for r in P.roots if r["name"] == "now" and P.I[r["inst"]]["path"].startswith(FT) and "body" in P.I[r["inst"]]]
    for r in rs:
        ip = R.interp()
        w = ip.IN[r["inst"]]["name"]
        res = run(R, ip, r, [])
        ev = [e for e in res.evs if e.kind == "clock"]
        if not R.ob(len(ev) == 1, "now-reads", "FileTime::now reads the clock %d times" % len(ev), w):
            continue
        t = ev[0].data[0]
        v = under(res.val, res.rc)
        lo, hi = halves(ip, v)
        ticks = whole(lo, hi)
        facts(res.rc, ticks, lo, hi)
        for key, bad in (("early", lt(add(t, I(EPOCH)), mulc(ticks, TICK))), ("late", le_(add(mulc(ticks, TICK), I(TICK)), add(t, I(EPOCH))))):
            bad = AND(res.rc, bad)
            R.ob(not feasible(bad), "now-value:" + key, "FileTime::now is not the number of ticks of the current time: %s" % show(bad)[:300], w)
    if not rs:
        R.notes.append("no FileTime::now")
