"""C04: the size an encoder returns is what it wrote."""
from base import *


def check(R):
    R.explanation = ("Abstract interpretation of every Wire::serialize_into over an arbitrary value and a growing writer; the returned size and the "
                     "length of the bytes appended to the writer are compared as terms, under the condition that the encoder returns Ok.")
    R.rule = "obligation: one per encoder; discharged when both terms are equal in every feasible case"
    P = R.prog()
    roots = [r for r in P.roots if r["trait"] == "messages::Wire" and r["name"] == "serialize_into" and "body" in P.I[r["inst"]]]
    R.need(len(roots), 20, "encoders")
    for r in roots:
        ip = R.interp()
        tys, _ = body_tys(ip, r)
        ty = ip.TY[tys[0]]["elem"]
        v = sym(ip, ty, "v")
        res = run(R, ip, r, [vref(v), mkT("mref", -1, "w", ())], {"w": (EMPTY, ip.TY[tys[1]]["elem"])})
        nm = ip.IN[r["inst"]]["name"]
        if res.rc is FALSE:
            R.ob(False, "noreturn:" + nm, "%s never returns" % nm)
            continue
        c, n = ok_of(ip, res.val)
        c = AND(c, res.rc)
        d = same(n, seq_len(ip.seqof(res.fin["w"])), c)
        R.ob(d is None and feasible(c), "size:" + nm, "the size %s returns is not the number of bytes it wrote: %s" % (nm, d))
