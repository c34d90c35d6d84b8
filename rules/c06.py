"""C06: signature and message type."""
from base import *

KINDS = ((NEG, 1), (CHAL, 2), (AUTH, 3))


def check(R):
    R.explanation = ("Abstract interpretation of the three message decoders over an arbitrary input: the condition under which the decoder returns Ok "
                     "is required to imply each of the twelve prefix bytes. Abstract interpretation of the three encoders over an arbitrary message: "
                     "each of the first twelve bytes written is the constant one.")
    R.rule = "obligation: one per message kind, direction and prefix byte"
    for feats in ((), ("strict",)):
        for path, n in KINDS:
            pre = b"NTLMSSP\0" + bytes([n, 0, 0, 0])
            ip = R.interp(feats)
            inp = symseq("in")
            res, c, val, rest = decode(R, ip, path, inp)
            R.ob(feasible(c), "decode-none:" + short(path), "no input is accepted as %s" % short(path))
            R.ob(not feasible(AND(c, lt(seq_len(inp), I(12)))), "decode-short:" + short(path), "%s is decoded from fewer than 12 bytes" % short(path))
            for i, b in enumerate(pre):
                bad = AND(c, NOT(eq(seq_at(inp, I(i)), I(b))))
                R.ob(not feasible(bad), "decode:%s" % short(path), "%s is accepted although byte %d is not 0x%02x: %s" % (short(path), i, b, show(bad)[:300]))
            if feats:
                continue
            ip = R.interp(feats)
            res, v, c, size, out = encode(R, ip, path)
            R.ob(feasible(c), "encode-none:" + short(path), "no %s can be encoded" % short(path))
            for i, b in enumerate(pre):
                d = same(seq_at(out, I(i)), I(b), c)
                R.ob(d is None, "encode:%s" % short(path), "byte %d of an encoded %s is not 0x%02x: %s" % (i, short(path), b, d))
