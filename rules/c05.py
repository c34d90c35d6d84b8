"""C05: the MS-NLMP layout of every fixed part, in both directions."""
from base import *

# (offset, width, field path); a field path is a tuple of field names, ending in an index for a byte array
U, B = "int", "bytes"
HEAD = {
    NEG: [(12, 4, U, ("negotiate_flags", "0"))],
    CHAL: [(20, 4, U, ("negotiate_flags", "0")), (24, 8, B, ("server_challenge", "0")), (32, 8, "zero", None)],
    AUTH: [(60, 4, U, ("negotiate_flags", "0"))],
}
FIXED = {
    VER: (8, [(0, 1, U, ("major",)), (1, 1, U, ("minor",)), (2, 2, U, ("build",)), (4, 3, "zero", None), (7, 1, U, ("revision_count",))]),
    FIELD: (8, [(0, 2, U, ("len",)), (2, 2, U, ("max_len",)), (4, 4, U, ("offset",))]),
    FLAGS: (4, [(0, 4, U, ("0",))]),
    FT: (8, [(0, 4, U, ("low",)), (4, 4, U, ("high",))]),
    S + "single_host_data::SingleHostData": (48, [(0, 4, U, ("size",)), (4, 4, U, ("z4",)), (8, 8, B, ("custom_data",)), (16, 32, B, ("machine_id",))]),
    S + "signature::MessageSignature": (16, [(0, 4, U, ("#version",)), (4, 4, B, ("random_pad", "0")), (8, 4, U, ("checksum",)), (12, 4, U, ("seq_num",))]),
    S + "lm_challenge::Lmv1Challenge": (24, [(0, 24, B, ("response", "0"))]),
    S + "lm_challenge::Lmv2Challenge": (24, [(0, 16, B, ("response", "0")), (16, 8, B, ("challenge_from_client", "0"))]),
    S + "nt_challenge::Ntv1Challenge": (24, [(0, 24, B, ("response", "0"))]),
}
for n, k in (("ServerChallenge", 8), ("ClientChallenge", 8), ("SessionBaseKey", 16), ("KeyExchangeKey", 16), ("ExportedSessionKey", 16),
             ("EncryptedRandomSessionKey", 16), ("NtProofStr", 16), ("Response16", 16), ("Response24", 24), ("Mic", 16), ("RandomPad", 4)):
    FIXED[S + n] = (k, [(0, k, B, ("0",))])
NTV2 = S + "nt_challenge::Ntv2Challenge"
VERSION_BIT = 25
SIG_VERSION = 1


def walk(ip, path, v, names):
    """follow field names from a value of type path"""
    P = ip.P
    for n in names:
        i = fidx(P, path, n)
        t = fty(P, path, n)
        v = ip.fld(v, i, None, t)
        path = ip.TY[t].get("path")
    return v


def check(R):
    R.explanation = ("For each message header and fixed-size structure a table gives offset, width and byte order of each field as MS-NLMP 2.2 assigns them. "
                     "The encoder is interpreted over an arbitrary value and the term of every output byte is compared with the table; the decoder is "
                     "interpreted over an arbitrary input and the term of every decoded field is compared with the little-endian read the table gives.")
    R.rule = "obligation: one per structure, direction and field (or reserved range)"
    P = R.prog()
    have = set(wire_types(P))
    for t in list(HEAD) + list(FIXED) + [NTV2]:
        if t not in have:
            raise Undecided("no encoder and decoder for " + t)
    todo = [lambda R, t=t, tab=tab: fixed(R, t, None, tab, header=True) for t, tab in HEAD.items()]
    todo += [lambda R, t=t, size=size, tab=tab: fixed(R, t, size, tab) for t, (size, tab) in FIXED.items()]
    R.each([versions, blob, payloads] + todo, lambda R, f: f(R))


def spec_val(ip, t, v, kind, w, names):
    if names == ("#version",):
        return [I(SIG_VERSION), I(0), I(0), I(0)]
    x = walk(ip, t, v, names)
    if kind == U:
        return le_bytes(x, w)
    s = ip.seqof(x)
    return [seq_at(s, I(i)) for i in range(w)]


def fixed(R, t, size, tab, header=False):
    nm = short(t)
    ip = R.interp()
    res, v, c, n, out = encode(R, ip, t)
    R.ob(feasible(c), "encode-none:" + nm, "%s cannot be encoded" % nm)
    if size is not None:
        d = same(seq_len(out), I(size), c)
        R.ob(d is None, "encode-size:" + nm, "%s is encoded to something else than %d bytes: %s" % (nm, size, d))
        # unconditional success: a fixed-size value can always be encoded into a growing writer
        R.ob(not feasible(NOT(c)), "encode-fails:" + nm, "encoding %s can fail without a write error: %s" % (nm, show(NOT(c))[:200]))
    for off, w, kind, names in tab:
        what = "%s[%d..%d]" % (nm, off, off + w)
        want = [I(0)] * w if kind == "zero" else spec_val(ip, t, v, kind, w, names)
        for i in range(w):
            d = same(seq_at(out, I(off + i)), want[i], c)
            if not R.ob(d is None, "encode:%s:%s" % (nm, ".".join(names or ("reserved",))), "byte %d of an encoded %s is not byte %d of %s: %s" % (
                    off + i, nm, i, ".".join(names or ("the reserved zeros",)), d)):
                break
    ip = R.interp()
    inp = symseq("in")
    res, c, val, rest = decode(R, ip, t, inp)
    R.ob(feasible(c), "decode-none:" + nm, "%s is never decoded" % nm)
    if size is not None:
        R.ob(not feasible(AND(c, lt(seq_len(inp), I(size)))), "decode-short:" + nm, "%s is decoded from fewer than %d bytes" % (nm, size))
        d = same(ip.seqof(ip.deref(None, rest)) if rest.op != "seq" else rest, seq_slice(inp, I(size), sub(seq_len(inp), I(size))), c)
        R.ob(d is None, "decode-rest:" + nm, "decoding %s does not consume exactly %d bytes: %s" % (nm, size, d))
        bad = AND(ge0(sub(seq_len(inp), I(size))), well_formed(R, ip, t, seq_slice(inp, I(0), I(size))), NOT(c))
        R.ob(not feasible(bad), "decode-lost:" + nm, "a well-formed %s is refused: %s" % (nm, show(bad)[:300]))
    else:
        size = max(o + w for o, w, _, _ in tab)
        R.ob(not feasible(AND(c, lt(seq_len(inp), I(size)))), "decode-short:" + nm, "%s is decoded from fewer than %d bytes" % (nm, size))
    for off, w, kind, names in tab:
        if kind == "zero" or names == ("#version",):
            continue
        x = walk(ip, t, val, names)
        if kind == U:
            want = le_of(seq_slice(inp, I(off), I(w)))
            d = same(x, want, c)
        else:
            s = ip.seqof(x)
            d = same(seq_len(s), I(w), c)
            for i in range(w):
                d = d or same(seq_at(s, I(i)), seq_at(inp, I(off + i)), c)
        R.ob(d is None, "decode:%s:%s" % (nm, ".".join(names)), "%s.%s is not read from bytes %d..%d: %s" % (nm, ".".join(names), off, off + w, d))


def versions(R):
    """the optional version and the integrity code, right after the fixed header"""
    for t, off, mic in ((NEG, 32, None), (CHAL, 48, None), (AUTH, 64, "mic")):
        nm = short(t)
        ip = R.interp()
        res, v, c, n, out = encode(R, ip, t)
        some, vv = some_of(ip, t, "version", v)
        vt = FIXED[VER][1]
        c1 = AND(c, some)
        for o, w, kind, names in vt:
            want = [I(0)] * w if kind == "zero" else spec_val(ip, VER, vv, kind, w, names)
            for i in range(w):
                d = same(under(seq_at(out, I(off + o + i)), c1), want[i], c1)
                if not R.ob(d is None, "encode:%s:version" % nm, "the version of an encoded %s is not at %d: %s" % (nm, off, d)):
                    break
        if mic:
            m = ip.seqof(ip.fld(fget(ip, t, v, "mic"), 0))
            for cc, base in ((c1, off + 8), (AND(c, NOT(some)), off)):
                for i in range(16):
                    d = same(under(seq_at(out, I(base + i)), cc), seq_at(m, I(i)), cc)
                    if not R.ob(d is None, "encode:%s:mic" % nm, "byte %d of the code of an encoded %s is not at %d: %s" % (i, nm, base + i, d)):
                        break
        ip = R.interp()
        inp = symseq("in")
        res, c, val, rest = decode(R, ip, t, inp)
        fl = walk(ip, t, val, ("negotiate_flags", "0"))
        has = bit(fl, VERSION_BIT)
        some, vv = some_of(ip, t, "version", val)
        d = same(some, has, c)
        R.ob(d is None, "decode:%s:version-flag" % nm, "a decoded %s has a version when flag bit %d is not set, or the reverse: %s" % (nm, VERSION_BIT, d))
        # a message whose descriptors are empty is accepted, whatever its other fields say
        whole = bare(R, ip, t, inp)
        bad = AND(whole, NOT(c))
        R.ob(not feasible(bad), "decode-lost:" + nm, "a well-formed %s is refused: %s" % (nm, show(bad)[:300]))
        c1 = AND(c, some)
        for o, w, kind, names in vt:
            if kind == "zero":
                continue
            d = same(walk(ip, VER, vv, names), le_of(seq_slice(inp, I(off + o), I(w))), c1)
            R.ob(d is None, "decode:%s:version" % nm, "%s of the version of %s is not read from %d: %s" % (names[0], nm, off + o, d))
        if mic:
            m = ip.seqof(ip.fld(fget(ip, t, val, "mic"), 0))
            for cc, base in ((AND(c, has), off + 8), (AND(c, NOT(has)), off)):
                for i in range(16):
                    d = same(under(seq_at(m, I(i)), cc), seq_at(inp, I(base + i)), cc)
                    if not R.ob(d is None, "decode:%s:mic" % nm, "byte %d of the code of %s is not read from %d: %s" % (i, nm, base + i, d)):
                        break


def blob(R):
    """NTLMv2 client challenge: 01 01 0000 00000000 time client-challenge 00000000 attributes"""
    nm = short(NTV2)
    ip = R.interp()
    res, v, c, n, out = encode(R, ip, NTV2)
    ft = fget(ip, NTV2, v, "timestamp")
    cc = ip.seqof(ip.fld(fget(ip, NTV2, v, "challenge_from_client"), 0))
    want = [I(1), I(1)] + [I(0)] * 6 + le_bytes(walk(ip, FT, ft, ("low",)), 4) + le_bytes(walk(ip, FT, ft, ("high",)), 4) + \
        [seq_at(cc, I(i)) for i in range(8)] + [I(0)] * 4
    for i, w in enumerate(want):
        d = same(seq_at(out, I(i)), w, c)
        if not R.ob(d is None, "encode:%s" % nm, "byte %d of an encoded %s is wrong: %s" % (i, nm, d)):
            break
    ip = R.interp()
    inp = symseq("in")
    res, c, val, rest = decode(R, ip, NTV2, inp)
    # (an attribute list cut short is reported as incomplete; the fixed part in front of it never is)
    e = ip.fld(res.val, 0, 1, None)
    bad = AND(NOT(c), NOT(ip.is_variant(e, 0, 3)), ge0(sub(seq_len(inp), I(28))), well_formed(R, ip, FT, seq_slice(inp, I(8), I(8))),
              *[eq(seq_at(inp, I(i)), I(1 if i < 2 else 0)) for i in list(range(8)) + list(range(24, 28))])
    R.ob(not feasible(bad), "decode-lost:" + nm, "a well-formed %s is refused: %s" % (nm, show(bad)[:300]))
    ft = fget(ip, NTV2, val, "timestamp")
    for n, o in (("low", 8), ("high", 12)):
        d = same(walk(ip, FT, ft, (n,)), le_of(seq_slice(inp, I(o), I(4))), c)
        R.ob(d is None, "decode:%s:timestamp" % nm, "%s half of the time of %s is not read from %d: %s" % (n, nm, o, d))
    cc = ip.seqof(ip.fld(fget(ip, NTV2, val, "challenge_from_client"), 0))
    for i in range(8):
        d = same(seq_at(cc, I(i)), seq_at(inp, I(16 + i)), c)
        R.ob(d is None, "decode:%s:challenge_from_client" % nm, "byte %d of the client challenge of %s is not read from %d: %s" % (i, nm, 16 + i, d))


def bare(R, ip, t, inp, but=None):
    """a message with the right prefix and whole fixed parts, whose descriptors (but one) are empty"""
    flag = bit(le_of(seq_slice(inp, I({NEG: 12, CHAL: 20, AUTH: 60}[t]), I(4))), VERSION_BIT)
    off = HEADER[t]
    end = off + (16 if t == AUTH else 0)
    whole = AND(*([eq(seq_at(inp, I(i)), I(b)) for i, b in enumerate(b"NTLMSSP\0" + bytes([{NEG: 1, CHAL: 2, AUTH: 3}[t], 0, 0, 0]))] +
                  [eq(le_of(seq_slice(inp, I(o), I(2))), I(0)) for o, _ in SLOTS[t] if o != but]))
    return OR(AND(whole, NOT(flag), ge0(sub(seq_len(inp), I(end)))),
              AND(whole, flag, ge0(sub(seq_len(inp), I(end + 8))), well_formed(R, ip, VER, seq_slice(inp, I(off), I(8)))))


def payloads(R):
    """a decoded payload is the decoding of the bytes its own descriptor designates"""
    for t, slots in SLOTS.items():
        nm = short(t)
        ip = R.interp()
        inp = symseq("in")
        res, c, val, rest = decode(R, ip, t, inp)
        for off, name in slots:
            k = "decode:%s:%s" % (nm, name)
            some, ty, v = slot_value(R, ip, t, name, val)
            cp = AND(c, some)
            if not R.ob(feasible(cp), k + ":reach", "%s of %s is never decoded" % (name, nm)):
                continue
            ln, st = le_of(seq_slice(inp, I(off), I(2))), le_of(seq_slice(inp, I(off + 4), I(4)))
            bad = AND(cp, lt(seq_len(inp), add(st, ln)))
            R.ob(not feasible(bad), k + ":inside", "%s of %s is decoded from beyond the message" % (name, nm))
            piece = seq_slice(inp, st, ln)
            if ip.TY[ty].get("path") == "alloc::vec::Vec":
                continue
            r = wire_inst(ip.P, ty, "deserialize")
            res2 = run(R, ip, r, [vref(piece)])
            c2, tup = ok_of(ip, res2.val)
            bad = AND(cp, NOT(c2))
            R.ob(not feasible(bad), k + ":refused", "%s of %s is decoded although its bytes are refused alone" % (name, nm))
            bad = AND(bare(R, ip, t, inp, off), ge0(sub(ln, I(1))), ge0(sub(seq_len(inp), add(st, ln))), c2, NOT(c))
            R.ob(not feasible(bad), k + ":lost", "%s is refused although %s is inside it and its bytes are accepted alone: %s" % (nm, name, show(bad)[:200]))
            if short(ip.TY[ty].get("path", "")) == "LmChallenge":
                # the two LM responses have the same size: which one it is depends on the flags, its bytes do not
                cb, b = enc_term(R, ip, ty, under(v, cp))
                cb = AND(cp, cb)
                d = same(under(b, cb), seq_slice(piece, I(0), I(24)), cb)
            else:
                d = same(v, under(ip.fld(tup, 1, None, ty), c2), AND(cp, c2))
            R.ob(d is None, k, "%s of %s is not the decoding of the bytes its descriptor at %d designates: %s" % (name, nm, off, d))
