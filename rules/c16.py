"""C16: the attribute list of a challenge stays ordered and terminated."""
from base import *
from spec import FLAG
import c07
import c15

PAIR = c07.PAIR
ADD = {"computername": "NbComputerName", "domainname": "NbDomainName", "dnscomputername": "DnsComputerName", "dnsdomainname": "DnsDomainName",
       "dnstreename": "DnsTreeName", "flags": "Flags", "timestamp": "Timestamp", "singlehost": "SingleHost", "targetname": "TargetName",
       "channelbindings": "ChannelBindings"}


def check(R):
    R.explanation = ("Every public method that can change a challenge is interpreted over an arbitrary challenge whose list is empty or terminated, and arbitrary "
                     "arguments. Afterwards the list must be the attributes it had, then the ones added, then the terminator it had (or a new one); the "
                     "attribute added must be the one the method names, with the value given. By induction this covers every sequence of calls. The "
                     "decoder is interpreted over an arbitrary input: what it accepts has an empty list or one that ends with the terminator.")
    R.rule = "obligation: one per method and clause (kept, order, terminator, value, flag), and per clause of the decoder"
    ms = c15.mutators(R, CHAL)
    names = {m[0]["name"] for m in ms}
    missing = [a for a in ADD if "target_infos_add_" + a not in names]
    if missing:
        raise Undecided("no method target_infos_add_" + missing[0])
    R.each([lambda R, m=m: mutate(R, *m) for m in ms] + [decoder, start], lambda R, f: f(R))


def eol(ip):
    vs = ip.P.T[ty_by_path(ip.P, PAIR)]["variants"]
    return [i for i, v in enumerate(vs) if v["n"] in ("MsvAvEOL", "EOL")][0], vs


def start(R):
    ip = R.interp()
    P = ip.P
    rs = [r for r in P.roots if r["name"] == "default" and "body" in P.I[r["inst"]] and P.T[P.I[r["inst"]]["body"]["locals"][0]].get("path") == CHAL]
    if len(rs) != 1:
        raise Undecided("no default challenge")
    res = run(R, ip, rs[0], [])
    bad = AND(res.rc, lt(I(0), seq_len(ip.seqof(fget(ip, CHAL, res.val, "target_infos")))))
    R.ob(not feasible(bad), "default", "a default challenge has attributes", "Challenge")


def mutate(R, r, sty, rest):
    ip = R.interp()
    P = ip.P
    nm = r["name"]
    w = "Challenge::" + nm
    EOL, vs = eol(ip)
    ety = ty_by_path(P, PAIR)
    kind = ADD.get(nm[len("target_infos_add_"):]) if nm.startswith("target_infos_add_") else None
    end = agg(PAIR, EOL, ())
    li = fidx(P, CHAL, "target_infos")
    for tag in ("empty", "terminated"):
        key = lambda x: "%s:%s:%s" % (x, nm, tag)
        a = [sym(ip, x, "a%d" % i) for i, x in enumerate(rest)]
        pre = sym(ip, sty, "m")
        had = ip.seqof(pre.a[2][li])
        m = seq_len(had) if tag == "terminated" else I(0)          # attributes before the terminator
        s0 = cat(had, seq_of([end])) if tag == "terminated" else EMPTY
        pre = agg(pre.a[0], pre.a[1], tuple(s0 if i == li else f for i, f in enumerate(pre.a[2])))
        res = run(R, ip, r, [mkT("mref", -1, "m", ())] + a, {"m": (pre, sty)})
        post = res.fin["m"]
        c = res.rc
        if not R.ob(feasible(c), key("returns"), "%s never returns on a list that is %s" % (w, tag), w):
            continue
        for c, known in cases(res.rc, fget(ip, CHAL, post, "target_infos")):
            s1 = under(ip.seqof(subst(fget(ip, CHAL, post, "target_infos"), known)), c)
            n1 = seq_len(s1)
            at = lambda i: ip.expand(ety, seq_at(s1, i))
            bad = AND(c, lt(n1, seq_len(s0)))
            if not R.ob(not feasible(bad), key("kept"), "%s removes attributes: %s" % (w, show(bad)[:300]), w):
                continue
            if tag == "terminated":
                d = same(seq_slice(s1, I(0), m), had, c)
                R.ob(d is None, key("order"), "%s changes the attributes already there or their order: %s" % (w, d), w)
            if kind is not None:
                bad = AND(c, NOT(eq(n1, add(m, I(2)))))
                if not R.ob(not feasible(bad), key("count"), "%s does not add exactly one attribute: %s" % (w, show(bad)[:300]), w):
                    continue
                vi = [i for i, v in enumerate(vs) if v["n"] in ("MsvAv" + kind, kind)][0]
                bad = AND(c, NOT(ip.is_variant(at(m), vi, len(vs))))
                if R.ob(not feasible(bad), key("kind"), "%s adds another attribute than %s, or puts it elsewhere than before the terminator: %s" % (w, kind, show(bad)[:300]), w):
                    ft = vs[vi]["f"][0]["t"]
                    c15.same_text(R, ip, ft, ip.fld(under(at(m), c), 0, vi, ft), rest[0], a[0], c, key("value"), "%s does not add the value given" % w, w)
            # whatever was added, the list is empty or ends with the only terminator
            some = AND(c, lt(I(0), n1))
            if not feasible(some):
                continue
            if tag == "empty":
                bad = AND(some, NOT(c15.flag(ip, CHAL, post, "TARGET_INFO")))
                R.ob(not feasible(bad), key("flag"), "%s adds the first attribute without setting the flag that announces the list: %s" % (w, show(bad)[:300]), w)
            s1 = under(s1, some)
            n1 = seq_len(s1)
            bad = AND(some, NOT(ip.is_variant(at(sub(n1, I(1))), EOL, len(vs))))
            R.ob(not feasible(bad), key("ends"), "after %s the list does not end with the terminator: %s" % (w, show(bad)[:300]), w)
            k = fresh_k()
            bad = AND(some, any_(k, sub(sub(n1, I(1)), m), ip.is_variant(at(add(m, k)), EOL, len(vs))))
            R.ob(not feasible(bad), key("single"), "after %s a terminator stands before the end of the list: %s" % (w, show(bad)[:300]), w)


def cases(c, t):
    """split a condition on the outcomes of external reads (environment variables) a term depends on"""
    found = []

    def walk(x, seen):
        if x in seen:
            return
        seen.add(x)
        if x.op == "mux" and x.a[0].op == "bit" and x.a[0].a[0].op == "app" and x.a[0] not in found:
            found.append(x.a[0])
        for y in x.a:
            for z in (y if isinstance(y, tuple) else (y,)):
                for q in (z if isinstance(z, tuple) else (z,)):
                    if isinstance(q, T):
                        walk(q, seen)
    walk(t, set())
    if len(found) > 6:
        raise Undecided("%d external reads" % len(found))
    out = [(c, {})]
    for f in found:
        out = [(y, {**m, f: v}) for x, m in out for y, v in ((AND(x, var(f)), TRUE), (AND(x, NOT(var(f))), FALSE)) if feasible(y)]
    return out


def decoder(R):
    ip = R.interp()
    inp = symseq("in")
    EOL, vs = eol(ip)
    ety = ty_by_path(ip.P, PAIR)
    res, c, val, rest = decode(R, ip, CHAL, inp)
    w = "Challenge::deserialize"
    s = ip.seqof(fget(ip, CHAL, val, "target_infos"))
    some = AND(c, lt(I(0), seq_len(s)))
    R.ob(feasible(some), "decode:reach", "no challenge with attributes is accepted", w)
    # (terms are left as the decoder computed them: rewriting them under the condition would make equal positions look different)
    x = ip.expand(ety, seq_at(s, sub(seq_len(s), I(1))))
    bad = AND(some, NOT(ip.is_variant(x, EOL, len(vs))))
    R.ob(not possible(bad), "decode:terminated", "a challenge whose list does not end with the terminator is accepted: %s" % show(bad)[:300], w)
