#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "model-based property testing"
T = {
 "B01": (MODEL, "every root is compared with a recursive Merkle tree hash of the pushed leaves, over random histories and long growth runs"),
 "B02": (MODEL, "every proof (all indices of small trees, spreads of larger ones, indices outside) is compared element by element with the recursively computed one"),
 "B03": ("stateful model-based property testing", "random histories of pushes, reloads, rollbacks and fresh starts against a list of leaves; all pairs (n, k) up to a bound enumerated"),
 "B04": ("stateful property testing, whole-storage oracle", "the storage's whole content is compared with the complete subtrees the model computes, after every step"),
 "B05": ("property testing with injected record loss", "success must be exactly right, failure needs a lost record the answer depends on; single losses are enumerated for small trees"),
 "B06": ("property testing with enumerated storage faults", "every storage access of each generated operation is failed in turn, in four ways"),
 "B07": ("property testing over a computed storage", "trees of up to 2^63 - 1 leaves through a storage that computes its records; keys, roots and proofs against 128-bit arithmetic; leaf counts around every power of two enumerated"),
 "P01": ("property testing against a closed form", "relatives of random nodes of every height, and of the lowest and highest indices, against 128-bit arithmetic"),
 "P02": ("property testing against a recursive model", "paths and side nodes against the recursive definition of the tree, all small trees enumerated"),
 "S01": ("stateful model-based property testing", "the root after every operation is compared with the compact sparse Merkle tree of the map, and between two histories of one map"),
 "S02": ("adaptive adversarial property testing", "keys and data are chosen from the tree's own hashes and records as it grows; root and whole storage against the model"),
 "S03": ("differential property testing (loaded against original)", "before every operation the tree is loaded from a copy of its storage and both go on; bad roots and undecodable records must be refused"),
 "S04": ("stateful property testing, invariant over the storage", "the storage is walked from the root after every operation: hashes, heights, kinds, paths, entries"),
 "S05": ("stateful property testing, storage differences", "the storage before and after every operation is compared with the records the model says must go and must stay"),
 "S06": ("property testing with enumerated storage faults", "storage accesses of each generated operation are failed in turn, in four ways (all of up to 80; beyond, the first and last 20 and a sample); then root, storage, reload, repetition"),
 "S07": ("property testing with injected record damage", "success must give the right root, failure needs damage on or beside the key's path; single damages of small trees enumerated"),
 "M01": (MODEL, "every root is compared with the recursive definition, totals around the 64-bit limit included"),
 "M02": ("stateful property testing, invariant over the storage", "the storage is walked from the root and compared before and after every operation"),
 "M03": ("property testing with enumerated storage faults", "every storage access of each generated operation is failed in turn, in four ways"),
 "C01": (MODEL, "every answer is compared with a mathematical map, for six kinds of access and eight kinds of table"),
 "D01": ("property testing with injected damage and faults", "every error's content (index, key, root, kind byte, the storage's own error value) and text is compared with the injected cause"),
 "E01": ("property testing with an access count", "accesses of every operation on trees of hundreds to hundreds of thousands of leaves or entries are counted and compared with a bound computed from the reference model's path"),
 "X01": ("differential property testing between builds", "the same generated programs are run by four builds and their complete transcripts compared"),
 "H01": ("metamorphic property testing", "genuine proofs must be accepted, every kind of change and every forged list rejected, and the helper tree must equal the production tree"),
 "H02": ("property testing with generated fixtures", "the outcome of each generated fixture is compared with the outcome computed from a reference map; codecs against independent encoders"),
}
FAULT = {"B06", "S06", "M03"}
TRUST = ("; assurance: no counterexample among the generated cases, in the std-checked, std-release and "
         "no-std builds; trusted: the reference model (plain recursion over the definition), the sha2 crate, proptest, rustc")
checks = []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    ids = [json.loads(l)["id"] for l in f]
assert ids == list(T) or set(ids) == set(T), set(ids) ^ set(T)
for i in ids:
    t, note = T[i]
    checks.append(dict(
        property=i,
        quick_cmd=f"python3 check.py {i}",
        thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
        technique=t + (" (proptest; thorough also coverage-guided by libFuzzer)" if i != "X01" else " (proptest)"),
        level="fault_enumeration" if i in FAULT else "exploration",
        level_note=(note + TRUST) if i != "X01" else note + "; assurance: the builds agree on the generated programs; what is right is decided by the other checks",
    ))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
         notes="No hooks: the checks use the public API and their own storages only. Repaired defects are listed in known-findings.json.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
