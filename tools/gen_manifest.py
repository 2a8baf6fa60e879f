"""Writes MANIFEST.json from the properties and the check table (run: python3 tools/gen_manifest.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check

TECH = {
    "C03": "typestate analysis of condition variables by abstract interpretation (waiter/notify automata)",
    "C09": "ownership/reachability analysis on the abstract heap",
    "C11": "typestate and exception-flow analysis by abstract interpretation over an abstract source",
    "C12": "effect and typestate analysis by abstract interpretation over an abstract source",
    "C14": "exception-flow analysis of CancelledError from every suspension point",
    "C20": "task-lifetime (typestate) and exception-flow analysis on every exit of the generator",
    "C21": "exception-flow analysis over an abstract receiver",
    "C25": "symbolic-arithmetic normal forms and linear-inequality abstract domain",
    "C28": "class-hierarchy analysis and exception-flow analysis at every operation boundary",
    "C29": "escape/effect analysis: writes to state created at import",
    "C30": "effect analysis (blocking calls, loop progress) over calls, loops and suspension points",
    "C31": "taint analysis of message tokens (inspection effects)",
    "C32": "effect (purity) analysis of observers in every reachable abstract state",
    "C33": "type-level encoding: compile-pass and compile-fail witnesses under mypy --strict",
    "C34": "value analysis of every observer in every reachable abstract state",
    "C35": "ownership/reachability analysis of message tokens on the abstract heap",
    "C36": "ownership/reachability analysis on the abstract heap, with abstract interpretation of what remains",
    "C38": "effect analysis: calls, assignments and deletions resolved to objects outside the library",
    "C37": "effect analysis of constructors and factories (uses of a running event loop)",
}
DEFAULT = "typestate analysis by abstract interpretation of the source over all reachable abstract states"
NOTE = ("Decides every path of every operation from every abstract state the scenarios reach, with arbitrary other "
        "tasks at each suspension point. Trusts the analyser's models of asyncio, collections and weakref; instance "
        "counts per scenario (tasks, receivers, sources) are bounded as listed in DESIGN.md.")
NOTES = {
    "C25": "All integer inputs, by linear normal forms; no sampling. Trusts the analyser's integer arithmetic.",
    "C33": "Decides the listed witness programs with mypy's type system; other checkers are not consulted.",
    "C30": "Every function is surveyed for direct blocking calls; every reached loop must suspend or consume. "
           "Trusts the models of external calls.",
    "C38": "Every call, assignment and deletion of the package is resolved syntactically; effects hidden behind dynamic "
           "attribute names or unknown third-party calls are not seen.",
    "C28": "All public exception classes and every operation boundary the scenarios reach.",
}
NA = {
    "C40": "Fairness quantifies over infinite schedules of asyncio's condition queue; no structural part of it is decided in this repository's source.",
    "C41": "Quantifies over the real clock, scheduling latency and IEEE rounding; no static argument bounds them.",
    "C42": "Quantifies over operating-system notifications delivered by the external watchfiles library; not visible in this source.",
}
checks = []
for p in sorted(check.RUNNERS):
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "technique": TECH.get(p, DEFAULT), "level": "other", "level_note": NOTES.get(p, NOTE),
    })
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "The analyser (sa/) parses /repo's current source on every run and never imports or executes it."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
