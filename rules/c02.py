"""C02: creating a client cannot panic."""
from base import *


def check(R):
    R.explanation = ("Abstract interpretation of both client constructors and everything they reach over arbitrary user, domain, password and target strings; "
                     "the COMPUTERNAME variable and the host-name file are arbitrary too (absent, not UTF-8, empty, any text). Each panicking operation "
                     "contributes its failure condition, which has to be infeasible.")
    R.rule = "obligation: one (function, panicking operation) pair met on some path of a constructor; discharged when its condition is infeasible"
    met = set()
    envs = 0
    for ctor in ("new", "new_with_domain"):
        c = Client(R, 3, ctor)
        ip = c.ip
        envs += len([e for e in c.evs if e.kind in ("env", "fsread")])
        bad = {}
        for e in c.new.of("panic"):
            bad.setdefault((e.data[0] if e.data else "?", e.what), []).append(e)
        for k in ip.stats["obligations"]:
            if k not in bad:
                met.add(k)
                R.obl.append(("%s: %s" % k, True))
        for k, es in bad.items():
            R.ob(False, "panic:%s:%s:%s" % (ctor, k[0], k[1].replace(" ", "_")),
                 "Client::%s can panic: %s in %s when %s" % (ctor, k[1], k[0], show(es[0].cond)[:300]), " > ".join(es[0].chain[-5:]))
        R.ob(feasible(c.new.rc), "never-returns:" + ctor, "Client::%s never returns" % ctor)
    R.need(len(met), 3, "panicking operations")
    R.notes.append("%d reads of the environment or a file were left arbitrary" % envs)
