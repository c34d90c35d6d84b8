"""C03: payload descriptors delimit exactly the payload they describe."""
from base import *


def check(R):
    R.explanation = ("The encoder of each message is interpreted over an arbitrary message, giving the terms of the bytes written. For each descriptor the "
                     "length and offset terms are used to cut the output term symbolically, and the piece is compared with the term obtained by "
                     "interpreting the encoder of the value's own type on the same value.")
    R.rule = "obligation: one per message kind, descriptor and clause (absent is zero, maximum length, length, start after header, bytes, inside)"
    for path, slots in SLOTS.items():
        nm = short(path)
        ip = R.interp()
        res, v, c, n, out = encode(R, ip, path)
        R.ob(feasible(c), "encode-none:" + nm, "no %s can be encoded" % nm)
        hdr = HEADER[path]
        first = I(hdr)
        vs, vv = some_of(ip, path, "version", v)
        first = add(first, ite(vs, I(8), I(0)))
        if path == AUTH:
            first = add(first, I(16))
        total = seq_len(out)
        for off, name in slots:
            k = "%s:%s" % (nm, name)
            some, ty, val = slot_value(R, ip, path, name, v)
            ca, cp = AND(c, NOT(some)), AND(c, some)
            R.ob(feasible(ca) and feasible(cp), "reach:" + k, "%s cannot be encoded with and without %s" % (nm, name))
            for i in range(8):
                d = same(seq_at(out, I(off + i)), I(0), ca)
                if not R.ob(d is None, "absent:" + k, "the descriptor of an absent %s of %s is not zero: %s" % (name, nm, d)):
                    break
            ln, mx, st = (unsplit([under(seq_at(out, I(off + o + i)), cp) for i in range(w)]) for o, w in ((0, 2), (2, 2), (4, 4)))
            bad = OR(*[AND(cp, le_(I(1 << (8 * w)), x)) for x, w in ((ln, 2), (mx, 2), (st, 4))])
            R.ob(not feasible(bad), "width:" + k, "the length or offset of %s of %s is cut to the width of its descriptor when %s" % (name, nm, show(bad)[:300]))
            d = same(mx, ln, cp)
            R.ob(d is None, "maxlen:" + k, "maximum length of %s of %s differs from its length: %s" % (name, nm, d))
            ce, want = enc_term(R, ip, ty, under(val, cp))
            ce = AND(cp, ce)
            want = under(want, ce)
            d = same(ln, seq_len(want), ce)
            if not R.ob(d is None, "length:" + k, "length of %s of %s is not the size of its encoding: %s" % (name, nm, d)):
                continue
            bad = AND(ce, lt(st, first))
            R.ob(not feasible(bad), "start:" + k, "%s of %s can start inside the fixed part: %s" % (name, nm, show(bad)[:300]))
            bad = AND(ce, lt(total, add(st, ln)))
            R.ob(not feasible(bad), "inside:" + k, "%s of %s can end outside the message: %s" % (name, nm, show(bad)[:300]))
            got = seq_slice(under(out, ce), st, seq_len(want))
            d = same(got, want, ce)
            R.ob(d is None, "bytes:" + k, "the bytes designated by the descriptor of %s of %s are not its encoding: %s" % (name, nm, d))
