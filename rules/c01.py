"""C01: no decoder can panic."""
from base import *


def check(R):
    R.explanation = ("Abstract interpretation of every Wire::deserialize of the crate, and of every helper it reaches (nom included), over an arbitrary "
                     "input byte string. Each operation that can panic contributes its failure condition as a term over the input; the condition, "
                     "joined with the path condition of its call chain, has to be unsatisfiable in linear order arithmetic.")
    R.rule = "obligation: one (function, panicking operation) pair met on some path of a decoder; discharged when its condition is infeasible"
    P = R.prog()
    types = wire_types(P)
    R.need(len(types), 15, "decodable types")
    for t in (NEG, CHAL, AUTH):
        if t not in types:
            raise Undecided("no decoder for " + t)
    roots = [r for r in P.roots if r["trait"] == "messages::Wire" and r["name"] == "deserialize" and "body" in P.I[r["inst"]]]
    R.need(len(roots), 20, "decoders")
    met = set()
    for feats in ((), ("strict",)):
        P = R.prog(feats)
        roots = [r for r in P.roots if r["trait"] == "messages::Wire" and r["name"] == "deserialize" and "body" in P.I[r["inst"]]]
        for r in roots:
            ip = R.interp(feats)
            tys, _ = body_tys(ip, r)
            res = run(R, ip, r, [vref(symseq("in"))])
            bad = {}
            for e in res.of("panic"):
                k = (e.data[0] if e.data else "?", e.what)
                bad.setdefault(k, []).append(e)
            for k in ip.stats["obligations"]:
                if k not in bad:
                    met.add(k)
                    R.obl.append(("%s: %s" % k, True))
            for k, es in bad.items():
                e = es[0]
                R.ob(False, "panic:%s:%s:%s" % (ip.IN[r["inst"]]["name"], k[0], k[1]),
                     "decoding %s can panic: %s in %s when %s" % (ip.IN[r["inst"]]["name"], k[1], k[0], show(e.cond)[:300]), " > ".join(e.chain[-5:]))
    R.need(len(met), 8, "panicking operations")
