#!/usr/bin/env python3
# Generates MANIFEST.json. CHECKS lists the properties that are claimed.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INPUT = "bounded exhaustive exploration of the real code: every program of the family is solved under every listed configuration to exhaustion and compared with a brute-force model"
N = "within the bounds of DESIGN.md; trusts clingo 5.7.1, the C++ compiler and the brute-force evaluator in harness/ref.hh"
HIST = "explicit exploration of all histories up to a depth: every sequence of grounding/solving steps of the fragment pool is executed on the real library and every step is compared with a brute-force model"
M = "within the bounds of DESIGN.md; trusts harness/mock.hh (the controlled solver, cross-checked against clasp by C01-C09), the C++ compiler and the brute-force evaluator"
SCHED = "stateless model checking: preemption-bounded exhaustive exploration of the interleavings of real solver threads (coroutines under a controlled scheduler) with a data-race monitor on every memory access"
CTRL = "stateless model checking of the real propagator under a controlled solver: every decision/backjump/restart prefix up to a depth is executed and monitored"
CHECKS = {
 "C01": (INPUT, "exploration", N), "C02": (INPUT, "exploration", N), "C03": (INPUT, "exploration", N),
 "C04": (INPUT, "exploration", N), "C05": (INPUT, "exploration", N), "C06": (INPUT, "exploration", N),
 "C07": (INPUT, "exploration", N), "C08": (INPUT, "exploration", N), "C26": (INPUT, "exploration", N), "C28": (INPUT, "exploration", N),
 "C09": (HIST, "exploration", N), "C20": (HIST, "exploration", N), "C22": (HIST, "exploration", N), "C23": (HIST, "exploration", N),
 "C10": (SCHED, "exploration", M), "C11": (CTRL, "exploration", M), "C12": (CTRL, "exploration", M), "C13": (CTRL, "exploration", M),
}
OPS = "bounded exhaustive exploration of the real code: every operation sequence up to a depth over a small universe is executed (library under AddressSanitizer and UBSan) and compared with a plain reference model after every operation"
TERM = "bounded exhaustive exploration of the real code: every term/statement of the grammar up to a depth is parsed, grounded and solved and compared with an independent evaluator"
BIG = "bounded exhaustive exploration of the real code (built with UBSan): every combination of boundary values is solved to exhaustion and compared with exact arithmetic"
CHECKS.update({"C14": (OPS, "exploration", N), "C16": (OPS, "exploration", N), "C17": (TERM, "exploration", N), "C18": (TERM, "exploration", N), "C24": (TERM, "exploration", N), "C15": (BIG, "exploration", N)})
APP = "bounded exhaustive exploration of the real programs: every program, option combination and history of the family is executed by the binaries built from the tree and compared with a brute-force model"
CHECKS.update({"C19": (CTRL.replace("every decision/backjump/restart prefix up to a depth is executed and monitored", "every sequence of option settings up to a depth is applied and the complete search of every thread is compared"), "exploration", M), "C21": (INPUT, "exploration", N), "C25": (APP, "exploration", N), "C27": (APP, "exploration", N)})
CHECKS["C29"] = (CTRL.replace("every decision/backjump/restart prefix up to a depth is executed and monitored", "for every cut of a program into steps every decision/backjump/restart prefix up to a depth in one step is executed and this and all later steps are monitored"), "exploration", M)
CHECKS["C30"] = (CTRL, "exploration", M)
CHECKS.update({"C31": (INPUT, "exploration", N), "C32": (INPUT, "exploration", N), "C33": (HIST.replace("every sequence of grounding/solving steps of the fragment pool is executed", "every interleaving of the life cycles of two theory objects is executed"), "exploration", N)})
MEM = "bounded exhaustive exploration of the real code under a monitor of every memory access: every life cycle, decision/backjump prefix, step sequence and malformed atom of the families is executed with AddressSanitizer, UBSan, poisoned fresh memory and an allocation ledger"
CHECKS["C34"] = (MEM, "exploration", "within the bounds of DESIGN.md; trusts clingo 5.7.1, the compiler and its sanitizers, and harness/mock.hh")
CHECKS.update({"C35": (INPUT, "exploration", N), "C36": (HIST.replace("grounding/solving steps of the fragment pool", "ways to start and stop searches"), "exploration", N), "C37": (TERM.replace("term/statement of the grammar up to a depth is parsed, grounded and solved and compared with an independent evaluator", "statement and pair of statements of the pool is rewritten and solved and compared with clingo alone"), "exploration", N)})
CHECKS["C38"] = (TERM.replace("term/statement of the grammar up to a depth is parsed, grounded and solved and compared with an independent evaluator", "statement of the family is rewritten in every form of its syntax tree and compared, and pool programs are solved in every form and compared with brute force"), "exploration", N)
CHECKS["C39"] = ("bounded exhaustive exploration of the real code under a controlled allocator: every program and configuration of the family is run step by step in every memory layout, and the complete traces are compared with each other", "exploration", N)
CHECKS["C40"] = (INPUT, "exploration", N)
REASONS = {}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": REASONS.get(i, "check not built yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
