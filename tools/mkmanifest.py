#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "lib"))
sys.dont_write_bytecode = True
from plan import PLAN, LEVELS

T = {
 "C01": "property-based testing against a math/big model, solved-for-edge operands",
 "C02": "property-based testing against a math/big and SHA-512 model",
 "C03": "property-based testing: round trips, structured junk, no panic",
 "C04": "property-based testing against an independent RFC 9496 decoder",
 "C05": "property-based testing: metamorphic over representations, RFC 9496 model encoder",
 "C06": "property-based testing against an affine Edwards model and validity invariants",
 "C07": "property-based testing against model multiples and between multiplication routes",
 "C08": "property-based testing against an exact affine Edwards25519 model, torsion included",
 "C09": "property-based testing against an independent RFC 9496 map",
 "C10": "property-based testing against an exhaustive model inverse (preimage sets)",
 "C11": "property-based testing: round trip and an independent model of Lizard decoding",
 "C12": "property-based testing: round trips, structured junk, no panic",
 "C13": "property-based testing: operation sequences on loose representations against a model field",
 "C14": "property-based testing: defining equations and a model field",
 "C15": "differential property-based testing of random API programs across backends and word sizes",
 "C16": "property-based testing: every aliasing pattern against the distinct-operands result, operand snapshots",
 "C17": "generated concurrent programs under the race detector and under generated schedules (turns taken at statement boundaries of an instrumented copy), compared with sequential runs",
 "C18": "differential property-based testing of the C code against the model",
 "C19": "stateful model-based property testing of API histories",
 "C20": "property-based testing: both flags, near-equal values, predicate relations",
 "C21": "fault injection enumerated over entropy reads, replayed entropy, statistical checks on generated values",
 "C22": "metamorphic property-based testing of execution traces (instrumented blocks and indexes; single-stepped instructions)",
}
NOTE = {
 "default": "Generated search, not proof: shows that no generated case violates the property in the build configurations listed in lib/plan.py. Trusts the reference model in harness/ref (re-validated against math/big, crypto/ed25519 and RFC 9496 vectors in every process), the Go toolchain and the standard library.",
 "C15": "Generated search, not proof. The oracle is agreement between backends (64-bit, generic, assembly through an overlay of build constraints, and both on 386), so a defect common to all backends is left to the other checks.",
 "C17": "Generated concurrent programs; the race detector reports conflicting unsynchronised accesses independently of timing as long as both are executed, so coverage is over operation pairs. Logical races without a data race are searched for by generated interleavings at statement granularity on one processor; schedules are sampled, not enumerated.",
 "C18": "Generated search against the model on the C code's documented domain; trusts the C compiler and cgo.",
 "C21": "Every read of the entropy source made by an operation is failed in turn (fault enumeration); dependence of the result on the bytes is checked by replaying recorded and edited entropy.",
 "C22": "Shows that the executed path (basic blocks, array indexes; for operations short enough also the machine instructions) is equal on generated operand sets with the same public outcome. Does not see instruction latencies or micro-architecture. Single-stepping needs ptrace; where it is refused the law records that and the instrumented trace decides.",
}
m = {
 "version": 1,
 "setup_cmd": "./setup",
 "checks": [],
 "not_applicable": [],
 "notes": "Every check rebuilds the harness against /repo's working tree (VERIF_REPO overrides), in all configurations of lib/plan.py. No hooks in /repo: instrumentation and backend selection go through build overlays. Defects repaired in /repo are listed in known-findings.txt.",
}
for p in sorted(PLAN):
    m["checks"].append({
        "property": p,
        "quick_cmd": "./check %s --tier quick" % p,
        "thorough_cmd": "./check %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": T[p] + ("; coverage- and comparison-guided search" if any(c["name"].startswith("guide") for c in PLAN[p]["configs"]) else ""),
        "level": LEVELS.get(p, "exploration"),
        "level_note": NOTE.get(p, NOTE["default"]),
    })
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
