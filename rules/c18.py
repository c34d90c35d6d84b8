"""C18: no side effect beyond reading the workstation name."""
import json
import re
from base import *

# what the functions outside the crate do; crates and modules of pure computation
PURE_CRATES = {"core", "alloc", "nom", "digest", "cipher", "generic_array", "crypto_common", "md4", "md5", "hmac", "des", "rc4", "typenum", "block_buffer",
               "inout", "subtle", "log", "memchr", "minimal_lexical", "hashbrown", "zeroize", "byteorder"}
STD = [  # first match wins
    (r"std::env::(set_var|remove_var|set_current_dir)", "changes the environment"),
    (r"std::env::", "env"),
    (r"std::fs::(read_to_string|read|exists|metadata|symlink_metadata|canonicalize|read_link|read_dir)$", "fsread"),
    (r"std::fs::File::(open|metadata)|<&?(mut )?std::fs::File as std::io::(Read|Seek|BufRead)>|std::fs::(Metadata|FileType|DirEntry|ReadDir)", "fsread"),
    (r"std::fs::|<&?(mut )?std::fs::", "writes to a file"),
    (r"std::io::(_print|_eprint|stdout|stderr|stdio)|std::io::stdio::|std::io::(Stdout|Stderr)|<&?(mut )?std::io::(Stdout|Stderr|stdio::)", "writes to standard output or error"),
    (r"std::io::(stdin|Stdin)|<&?(mut )?std::io::Stdin", "reads standard input"),
    (r"std::net::(IpAddr|Ipv4Addr|Ipv6Addr|SocketAddr)", "pure"),
    (r"std::(net|os)::|<&?(mut )?std::(net|os)::", "uses the network or the operating system"),
    (r"std::process::|<std::process::", "starts or ends a process"),
    (r"std::thread::(local|LocalKey)|std::thread::local_impl", "state"),
    (r"std::thread::|std::backtrace", "uses threads"),
    (r"std::sync::(mpsc|Barrier|Condvar)", "uses threads"),
    (r"std::sync::|std::sys::sync", "pure"),
    (r"std::time::(SystemTime|Instant)::(now|elapsed)|<std::time::SystemTime as .*>::now", "clock"),
    (r"std::time::|<std::time::", "pure"),
    (r"std::(hash|collections::hash)::random|std::hash::RandomState|std::collections::hash_map::RandomState|std::collections::(HashMap|HashSet)::<[^>]*>::new", "random"),
    (r"std::panic(king)?::(set_hook|take_hook|catch_unwind)", "changes the panic hook"),
    (r"<?&?(mut )?std::(collections|hash|io|path|ffi|string|vec|fmt|error|num|ascii|char|str|slice|panic|panicking|rt|alloc|borrow|boxed|f64|f32|keyword|any|ops|convert|iter|option|result|mem|cmp|net::parser)", "pure"),
]
BAD_CRATES = {"libc": "calls the C library", "tokio": "uses threads", "rayon": "uses threads", "windows": "calls the operating system"}
RANDOM = {"rand_core", "rand", "getrandom", "rand_chacha"}
ALLOWED = {"env", "fsread", "clock", "random"}


def classify(crate, path):
    p = path.lstrip("<&").split(" as ")[0].replace("mut ", "").strip()
    if crate == "std" or path.startswith(("std::", "<std::")) or p.startswith("std::"):
        for r, c in STD:
            if re.match(r, path) or re.match(r, p):
                return c
        return None
    if crate in RANDOM:
        return "random"
    if crate in BAD_CRATES:
        return BAD_CRATES[crate]
    if crate in PURE_CRATES:
        return "pure"
    return None


class Graph:
    """call graph over the instances of the program, with the effects of what each calls outside it"""

    def __init__(self, R, P):
        self.P, self.unknown = P, {}
        self.edges, self.eff = [[] for _ in P.I], [[] for _ in P.I]
        self.calls = 0
        tinst = {i: t["inst"] for i, t in enumerate(P.T) if "inst" in t and t["k"] in ("fndef", "closure")}
        for n, inst in enumerate(P.I):
            b = inst.get("body")
            if b is None:
                continue
            out = set()
            for t in b["locals"]:
                if t in tinst:
                    out.add((tinst[t], inst.get("span", "")))
            for bl in b["blocks"]:
                for st in bl["s"]:
                    self.consts(n, st, tinst, out)
                t = bl["t"]
                self.consts(n, t, tinst, out)
                if t.get("k") in ("call", "tailcall"):
                    f = t.get("f") or {}
                    self.calls += 1
                    sp = t.get("sp") or ""
                    for a in f.get("targs", ()):
                        if a in tinst:
                            out.add((tinst[a], sp))
                    if "inst" in f:
                        out.add((f["inst"], sp))
                        continue
                    self.leaf(n, None, f.get("rpath") or f.get("path") or "", f, sp)
                elif t.get("k") == "asm" or "InlineAsm" in str(t.get("d", ""))[:40]:
                    self.eff[n].append(("runs inline assembly", "asm", t.get("sp") or ""))
            self.edges[n] = sorted(out)
        for n, inst in enumerate(P.I):
            if "body" not in inst and not inst.get("local"):
                self.leaf(n, inst.get("crate"), inst["path"], {}, "")

    def leaf(self, n, crate, path, f, sp):
        if crate is None:
            crate = path.lstrip("<&").split("::")[0].split(" ")[0]
            if not path or path.startswith("<") or f.get("trait"):
                # a trait method of a type parameter, or of a type the caller chooses: its effects are the caller's
                crate = "core" if not path.startswith(("std::", "<std::")) else "std"
        c = classify(crate, path)
        if f.get("foreign") or path.startswith("extern"):
            c = "calls a foreign function"
        if c is None:
            if crate in {i["crate"] for i in self.P.I if i.get("local")}:
                return
            self.unknown[path] = sp
        elif c != "pure":
            self.eff[n].append((c, path, sp))

    def consts(self, n, x, tinst, out):
        """functions and mutable statics named by a statement"""
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, dict):
                if "static" in y and isinstance(y["static"], str):
                    self.eff[n].append(("state", y["static"], ""))
                if y.get("k") == "fn" and y.get("t") in tinst:
                    out.add((tinst[y["t"]], ""))
                st.extend(v for v in y.values() if isinstance(v, (list, dict)))
            elif isinstance(y, list):
                if len(y) == 2 and y[0] == "other" and isinstance(y[1], str) and "ThreadLocal" in y[1]:
                    self.eff[n].append(("state", "thread local", ""))
                st.extend(v for v in y if isinstance(v, (list, dict)))

    def reach(self, root):
        """instances reachable from one, with the chain to each"""
        prev = {root: None}
        st = [root]
        while st:
            n = st.pop()
            for m, sp in self.edges[n]:
                if m not in prev:
                    prev[m] = (n, sp)
                    st.append(m)
        return prev

    def chain(self, prev, n):
        out = []
        while n is not None:
            out.append(self.P.I[n]["path"])
            n = prev[n][0] if prev[n] else None
        out = [x for x in reversed(out)]
        return " -> ".join(out if len(out) < 7 else out[:3] + ["..."] + out[-3:])


def check(R):
    R.explanation = ("The call graph of the crate is built from the compiler's intermediate representation, generic code of other crates instantiated with "
                     "types of this one included; functions passed as values count as called. Each function outside it has a class of effect by its path. "
                     "No function of the crate may reach one that writes a file, prints, connects, starts a process or thread or changes the environment. "
                     "Encoders and decoders may not reach the clock, the random source, the environment, files or mutable statics; only Client and "
                     "Challenge::fill_from_env may reach the environment and files, the latter for reading.")
    R.rule = "obligation: one per function of the crate and class of effect"
    R.assumptions.append("the dependencies named pure (nom, digest, log facade and the like) have no other effect; the writer, the formatter and the logger belong to the caller")
    n = 0
    for feats in ((), ("strict",)):
        try:
            P = R.prog(feats)
        except Undecided:
            if feats:
                R.notes.append("feature %s is not there" % feats[0])
                continue
            raise
        tag = "+".join(feats)
        G = Graph(R, P)
        for r in P.roots:
            if "body" not in P.I[r["inst"]]:
                continue
            n += 1
            one(R, P, G, r, tag)
        if G.unknown:
            for p in list(G.unknown)[:5]:
                R.notes.append("no effect is known for " + p)
            raise Undecided("the effect of %s is not known" % ", ".join(list(G.unknown)[:3]))
        R.notes.append("%s: %d instances, %d calls" % (tag or "default features", len(P.I), G.calls))
        if not feats:
            reads(R, P, G)
    R.need(n, 100, "functions")


def kind(P, r):
    p = P.I[r["inst"]]["path"]
    if r["name"] in ("deserialize", "serialize_into", "serialize") and (r["trait"] or "").endswith("Wire"):
        return "codec"
    if r["trait"] is not None and not p.startswith("<client::"):
        return "impl"
    return "other"


def one(R, P, G, r, tag):
    me = P.I[r["inst"]]["path"] + (" " + tag if tag else "")
    prev = G.reach(r["inst"])
    k = kind(P, r)
    seen = set()
    for n in prev:
        for c, path, sp in G.eff[n]:
            bad = c not in ALLOWED and c != "state"
            if k == "codec" or k == "impl" and c in ("env", "fsread"):
                bad = True
            # effects of a logger's arguments are its caller's
            if not bad or (c, path) in seen:
                continue
            seen.add((c, path))
            what = {"env": "reads the environment", "fsread": "reads a file", "clock": "reads the clock", "random": "uses the random source", "state": "uses global state"}.get(c, c)
            up = prev[n][0] if prev[n] else n
            R.ob(False, "effect:%s:%s" % (me, c), "%s %s: %s, by way of %s" % (me, what, path, G.chain(prev, n)), sp or (prev[n][1] if prev[n] else ""))
    if not seen:
        R.obl.append(("effect:" + me, True))


def reads(R, P, G):
    """the only files and variables read are those of the workstation name, or of the environment a challenge is filled from"""
    for r in P.roots:
        p = P.I[r["inst"]]["path"]
        if "body" not in P.I[r["inst"]] or not r.get("reachable"):
            continue
        if p.startswith("client::Client::") and r["name"] in ("new", "new_with_domain") or r["name"] == "fill_from_env":
            continue
        prev = G.reach(r["inst"])
        bad = [(c, path, n) for n in prev for c, path, sp in G.eff[n] if c in ("env", "fsread")]
        R.ob(not bad, "reads:" + p, "%s reads the environment or a file: %s" % (p, "%s, by way of %s" % (bad[0][1], G.chain(prev, bad[0][2])) if bad else ""),
             bad and prev[bad[0][2]] and prev[bad[0][2]][1] or "")
    c = Client(R, 3)
    for e in c.new.evs:
        if e.kind == "fsread":
            x = e.data[0] if e.data else UNDEF
            bs = [seq_at(x, I(i)) for i in range(seq_len(x).a[0])] if x.op == "seq" and seq_len(x).op == "int" else None
            if bs is None or any(b.op != "int" for b in bs):
                raise Undecided("a file of a computed name is read")
            nm = bytes(b.a[0] for b in bs).decode("utf-8", "replace")
            R.ob(nm == "/etc/hostname", "file:" + nm, "a client reads the file %s, which does not hold the name of the workstation" % nm, "Client::new_with_domain")
    for r in P.roots:
        p = P.I[r["inst"]]["path"]
        if r["name"] == "fill_from_env" and "body" in P.I[r["inst"]]:
            prev = G.reach(r["inst"])
            bad = [(path, n) for n in prev for c, path, sp in G.eff[n] if c == "fsread"]
            R.ob(not bad, "files:" + p, "%s reads a file: %s" % (p, bad[0][0] if bad else ""))
