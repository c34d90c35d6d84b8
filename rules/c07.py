"""C07: attribute ids, attribute types and option bits."""
from base import *

A = S + "avid::"
PAIR, OPTS = A + "AvPair", A + "MsvAvFlags"
# MS-NLMP 2.2.2.1: id, kind
TABLE = [("EOL", "eol"), ("NbComputerName", "text"), ("NbDomainName", "text"), ("DnsComputerName", "text"), ("DnsDomainName", "text"),
         ("DnsTreeName", "text"), ("Flags", "flags"), ("Timestamp", "time"), ("SingleHost", "host"), ("TargetName", "text"), ("ChannelBindings", "hash")]
BITS = ["account_authentication_constrained", "mic_present", "generated_spn_from_untrusted_source"]
SIZE = {"eol": 0, "flags": 4, "time": 8, "host": 48, "hash": 16}


def check(R):
    R.explanation = ("A table gives the id and the kind of value of each attribute (MS-NLMP 2.2.2.1). The attribute encoder is interpreted over an arbitrary "
                     "attribute and its output compared, variant by variant, with id, length and value of the table; the decoder is interpreted over an "
                     "arbitrary input and its acceptance condition, the variant and the value it yields are compared with the table.")
    R.rule = "obligation: one per attribute (or option bit), direction and clause (id, length, value, consumption, refusal)"
    P = R.prog()
    T = P.T[ty_by_path(P, PAIR)]
    names = [v["n"] for v in T["variants"]]
    if len(names) != len(TABLE):
        raise Undecided("the attribute type has %d variants, %d known" % (len(names), len(TABLE)))
    idx = []
    for n, _ in TABLE:
        m = [i for i, x in enumerate(names) if x in ("MsvAv" + n, n)]
        if len(m) != 1:
            raise Undecided("no attribute variant for " + n)
        idx.append(m[0])
    encode_side(R, T, idx)
    decode_side(R, T, idx)
    ids(R)


def value_bytes(R, ip, kind, v, ty):
    if kind == "eol":
        return EMPTY
    if kind == "text":
        return utf16le(ip, ip.seqof(v))
    if kind == "hash":
        return ip.seqof(v)
    if kind == "flags":
        b = [ip.fld(v, fidx(ip.P, OPTS, n), None, fty(ip.P, OPTS, n)) for n in BITS]
        return seq_of([frombits(tuple(b) + (FALSE,) * 5), I(0), I(0), I(0)])
    c, b = enc_term(R, ip, ty, v)
    return b


def encode_side(R, T, idx):
    ip = R.interp()
    res, v, c, n, out = encode(R, ip, PAIR)
    nv = len(T["variants"])
    for i, (nm, kind) in enumerate(TABLE):
        cv = AND(c, ip.is_variant(v, idx[i], nv))
        if not R.ob(feasible(cv), "encode-none:" + nm, "attribute %s cannot be encoded" % nm):
            continue
        o = under(out, cv)
        fs = T["variants"][idx[i]]["f"]
        val = ip.fld(under(v, cv), 0, idx[i], fs[0]["t"]) if fs else None
        want = value_bytes(R, ip, kind, val, fs[0]["t"] if fs else None)
        for k, b in enumerate((i, 0)):
            d = same(seq_at(o, I(k)), I(b), cv)
            if not R.ob(d is None, "encode:%s:id" % nm, "attribute %s is not encoded with id %d: %s" % (nm, i, d)):
                break
        ln = unsplit([seq_at(o, I(2)), seq_at(o, I(3))])
        d = same(ln, seq_len(want), cv)
        R.ob(d is None, "encode:%s:length" % nm, "the length of an encoded %s is not that of its value: %s" % (nm, d))
        R.ob(not feasible(AND(cv, lt(I(65535), ln))), "encode:%s:width" % nm, "the length of an encoded %s does not fit its 16 bits" % nm)
        if kind in SIZE:
            d = same(seq_len(o), I(4 + SIZE[kind]), cv)
        else:
            d = same(seq_len(o), add(I(4), seq_len(want)), cv)
        R.ob(d is None, "encode:%s:size" % nm, "an encoded %s is not header and value: %s" % (nm, d))
        d = same(seq_slice(o, I(4), seq_len(want)), want, cv)
        R.ob(d is None, "encode:%s:value" % nm, "the value of an encoded %s is wrong: %s" % (nm, d))


def decode_side(R, T, idx):
    ip = R.interp()
    P = ip.P
    inp = symseq("in")
    res, c, val, rest = decode(R, ip, PAIR, inp)
    nv = len(T["variants"])
    ident, ln = le_of(seq_slice(inp, I(0), I(2))), le_of(seq_slice(inp, I(2), I(2)))
    bad = AND(c, NOT(lt(ident, I(len(TABLE)))))
    R.ob(not feasible(bad), "decode:unknown", "an attribute with an unknown id is accepted: %s" % show(bad)[:300])
    bad = AND(c, lt(seq_len(inp), add(ln, I(4))))
    R.ob(not feasible(bad), "decode:short", "an attribute longer than its input is accepted: %s" % show(bad)[:300])
    rest = seq_of_rest(ip, rest)
    d = same(rest, seq_slice(inp, add(ln, I(4)), sub(seq_len(inp), add(ln, I(4)))), c)
    R.ob(d is None, "decode:rest", "decoding an attribute does not consume exactly its header and value: %s" % d)
    data = seq_slice(inp, I(4), ln)
    for i, (nm, kind) in enumerate(TABLE):
        cid = AND(c, eq(ident, I(i)))
        isv_ = ip.is_variant(val, idx[i], nv)
        if not R.ob(feasible(cid), "decode-none:" + nm, "no attribute with id %d is accepted" % i):
            continue
        bad = AND(cid, NOT(isv_))
        R.ob(not feasible(bad), "decode:%s:variant" % nm, "an attribute with id %d is not decoded as %s: %s" % (i, nm, show(bad)[:200]))
        bad = AND(AND(c, isv_), NOT(eq(ident, I(i))))
        R.ob(not feasible(bad), "decode:%s:id" % nm, "an attribute with another id than %d is decoded as %s: %s" % (i, nm, show(bad)[:200]))
        if kind in SIZE:
            bad = AND(cid, NOT(eq(ln, I(SIZE[kind]))))
            R.ob(not feasible(bad), "decode:%s:length" % nm, "%s is accepted with another length than %d: %s" % (nm, SIZE[kind], show(bad)[:200]))
        fs = T["variants"][idx[i]]["f"]
        # a value of the exact form of its type is accepted
        whole = AND(eq(ident, I(i)), ge0(sub(seq_len(inp), add(ln, I(4)))))
        if kind == "text":
            form = AND(eq(ln, mulc(div_c(ln, 2), 2)), dec16(units(data, div_c(ln, 2)))[0])
        elif kind == "flags":
            form = AND(eq(ln, I(4)), NOT(OR(*(list(tobits(seq_at(inp, I(4)), 8)[3:]) + [x for k in (5, 6, 7) for x in tobits(seq_at(inp, I(k)), 8)]))))
        elif not fs:
            form = eq(ln, I(0))
        else:
            form = eq(ln, I(SIZE[kind]))
            if kind != "hash":
                form = AND(form, well_formed(R, ip, ip.TY[fs[0]["t"]]["path"], seq_slice(inp, I(4), I(SIZE[kind]))))
        bad = AND(whole, form, NOT(c))
        R.ob(not feasible(bad), "decode:%s:lost" % nm, "a well-formed %s is refused: %s" % (nm, show(bad)[:300]))
        if not fs:
            continue
        v = ip.fld(under(val, cid), 0, idx[i], fs[0]["t"])
        if kind == "text":
            # an even number of bytes
            bad = AND(cid, NOT(eq(ln, mulc(div_c(ln, 2), 2))))
            R.ob(not feasible(bad), "decode:%s:odd" % nm, "%s is accepted with an odd length: %s" % (nm, show(bad)[:200]))
            ok_, t = dec16(units(data, div_c(ln, 2)))
            R.ob(not feasible(AND(cid, NOT(ok_))), "decode:%s:malformed" % nm, "%s is accepted although it is not UTF-16" % nm)
            d = same(ip.seqof(v), t, cid)
        elif kind == "hash":
            d = same(ip.seqof(v), seq_slice(inp, I(4), I(16)), cid)
        elif kind == "flags":
            b = tobits(seq_at(inp, I(4)), 8)
            d = None
            for k, n in enumerate(BITS):
                d = d or same(ip.fld(v, fidx(P, OPTS, n), None, fty(P, OPTS, n)), b[k], cid)
            bad = AND(cid, OR(*(list(b[3:]) + [x for k in (5, 6, 7) for x in tobits(seq_at(inp, I(k)), 8)])))
            R.ob(not feasible(bad), "decode:Flags:unknown", "option bits without a name are accepted and lost: %s" % show(bad)[:200])
        else:
            r = wire_inst(P, fs[0]["t"], "deserialize")
            res2 = run(R, ip, r, [vref(seq_slice(inp, I(4), I(SIZE[kind])))])
            c2, tup = ok_of(ip, res2.val)
            bad = AND(AND(cid, eq(ln, I(SIZE[kind]))), NOT(c2))
            R.ob(not feasible(bad), "decode:%s:refused" % nm, "%s is accepted although its value is refused alone" % nm)
            d = same(v, under(ip.fld(tup, 1, None, fs[0]["t"]), c2), AND(cid, c2))
        R.ob(d is None, "decode:%s:value" % nm, "the value decoded for %s is wrong: %s" % (nm, d))


def ids(R):
    """the id alone, in both directions"""
    P = R.prog()
    if A + "AvId" not in wire_types(P):
        return
    ip = R.interp()
    inp = symseq("in")
    res, c, val, rest = decode(R, ip, A + "AvId", inp)
    t = P.T[ty_by_path(P, A + "AvId")]
    ip2 = R.interp()
    res2, v, c2, n, out = encode(R, ip2, A + "AvId")
    for i, (nm, _) in enumerate(TABLE):
        m = [j for j, x in enumerate(t["variants"]) if x["n"] in ("MsvAv" + nm, nm)]
        if len(m) != 1:
            raise Undecided("no id for " + nm)
        cid = AND(c, eq(le_of(seq_slice(inp, I(0), I(2))), I(i)))
        bad = AND(cid, NOT(ip.is_variant(val, m[0], len(TABLE))))
        R.ob(feasible(cid) and not feasible(bad), "id-decode:" + nm, "id %d is not decoded as %s" % (i, nm))
        cv = AND(c2, ip2.is_variant(v, m[0], len(TABLE)))
        d = same(seq_slice(out, I(0), I(2)), seq_of([I(i), I(0)]), cv)
        R.ob(d is None, "id-encode:" + nm, "id %s is not encoded as %d: %s" % (nm, i, d))
    bad = AND(c, NOT(lt(le_of(seq_slice(inp, I(0), I(2))), I(len(TABLE)))))
    R.ob(not feasible(bad), "id-decode:unknown", "an unknown id is accepted")
