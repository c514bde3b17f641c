#!/usr/bin/env python3
"""Writes MANIFEST.json and contracts/properties.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = [
    "the installed Verus, Z3 and rustc are sound",
    "the extractor's rewrites keep the meaning of the code (listed with counts below)",
    "user supplied closures and trait implementations do not panic and an arena is not used again after a caught generation-overflow panic",
    "usize is 64 bits wide",
    "the trait implementations of the crate do not conflict (checked by rustc on the crate itself; the verifier's own conflict check is switched off)",
    "a passed function is described by the relation between its arguments and results (a FnMut bound is read as Fn)",
]
VEC = "the raw memory operations (alloc, realloc, dealloc, ptr::read, ptr::write, ptr::copy, dereference, wrapping pointer arithmetic, Layout::array) behave as their documentation says, as stated by the ghost memory in contracts/10_vec.vrs, and an allocation failure aborts"
STD = "facts about () equality and zero of u128 in the standard library, and the 64-bit conversion of 128-bit indexes up to the machine word"
T_PROOF = "Verus contracts on the functions of /repo, re-extracted every run; executable contracts search for the failing input"
T_BOUND = "executable contracts (reference model compared after every call) on the real crate, bounded: seeded random call sequences"
P = {}
def p(i, level, note, bounded="", technique=None, assumptions=(), explanation=None):
    P[i] = dict(level=level, note=note, bounded=bounded, technique=technique or (T_PROOF if level == "proof" else T_BOUND),
                assumptions=COMMON + list(assumptions))
    if explanation:
        P[i]["explanation"] = explanation
exec(open(os.path.join(V, "bin/levels.py")).read())
NA = [dict(property="R01", reason="the layout pass is a heuristic over strings, hash maps and floating positions in a separate crate; no contract weaker than a re-implementation of the whole algorithm decides it, and the verifier takes neither its collections nor its formatting code")]
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=i, quick_cmd=f"bin/check {i}", thorough_cmd=f"bin/check {i} --thorough",
                      evidence_file=f"evidence/{i}.json", technique=d["technique"], level=d["level"], level_note=d["note"])
                 for i, d in P.items()],
         not_applicable=NA,
         notes="One driver, bin/check. MANIFEST.json and contracts/properties.json are written by bin/gen_manifest.py. No hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump({i: {k: w for k, w in d.items() if k in ("level", "bounded", "assumptions", "explanation")} for i, d in P.items()},
          open(os.path.join(V, "contracts/properties.json"), "w"), indent=1)
