#!/usr/bin/env python3
"""writes MANIFEST.json from the table below; a property without a rule file goes to not_applicable"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "whole-program abstract interpretation of rustc MIR (gated value-flow terms, merged joins)"
NOTE = ("Static: decided from the MIR of the current tree for all inputs at once, no path enumeration and no execution. "
        "Trusts rustc's front end, the library models in engine/{models,libs}.py and the MS-NLMP tables written in the rule.")
TECH = {
    "C01": AI + "; reachability of every panic site",
    "C02": AI + "; reachability of every panic site",
    "C03": AI + "; symbolic segment layout of the encoder output",
    "C04": AI + "; equality of the returned size and the length of the output term",
    "C05": AI + "; per-byte comparison with the MS-NLMP layout table",
    "C06": AI + "; acceptance condition implies the prefix",
    "C07": AI + "; per-variant comparison with the MS-NLMP attribute table",
    "C08": AI + "; the code's term compared with HMAC over the transmitted terms",
    "C09": AI + "; provenance of random terms",
    "C10": AI + "; information flow of secret terms into sinks",
    "C11": AI + "; typestate of the client object",
    "C12": AI + "; information flow per compatibility level",
    "C13": AI + "; term comparison with the MS-NLMP formulas per flag combination",
    "C14": AI + "; term comparison with the MS-NLMP formulas",
    "C15": AI + "; flag bit versus presence condition",
    "C16": AI + "; list invariant by induction over setters",
    "C17": AI + "; provenance of each identity field",
    "C18": "effect analysis over the whole call graph of the type-checked program",
    "C19": AI + " with a failing writer; error propagation",
    "C20": AI + " of the strict configuration; acceptance condition",
    "C21": "unsafe-operation audit over MIR with symbolic bounds",
    "C22": AI + "; text encoding terms",
    "C23": AI + "; polynomial comparison of the conversion",
    "C27": AI + "; feasibility of every panic of the handshake methods",
    "C24": AI + " of the Windows module, type-checked on this host against the windows crate's declarations; status, handle and length provenance",
}
NA = {
    "C25": "numeric correctness of hash and cipher outputs quantifies over runtime values of third-party crates (md4, md5, hmac, des, rc4); no static argument in reach bounds them. The analysis treats these as uninterpreted functions.",
    "C26": "acceptance by a conforming server is a statement about a foreign program and about agreement with it; its static part is C03-C17, the rest needs an execution against a server.",
}


def main():
    ps = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in ps:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "rules", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                           "technique": TECH[i], "level": "other", "level_note": NOTE})
        else:
            na.append({"property": i, "reason": NA.get(i, "its rule is not written yet")})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
