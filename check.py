#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property from /repo's current source.

Exit 0: the property holds on everything analysed (known findings are printed).  Exit 1: a violation that is
not a known finding, with a line `VIOLATION property=<id> replay=<path>`.  Exit 2: nothing could be decided.
"""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)

from sa import loader  # noqa: E402
from sa.scn import Report  # noqa: E402

ANY, BRO, REC, SEL, MER = "chan:run_anycast", "chan:run_broadcast", "recv:run_receiver", "sel:run_select", "sel:run_merge"
TIM, POL, EVE, WAT = "tim:run_timer", "tim:run_policies", "misc:run_event", "misc:run_watcher"
HAN, HBR = "drain:run_anycast", "drain:run_broadcast"
CRE = "create:run_creation"
SHA, SUR, TYP = "shape:run_shape", "survey:run_survey", "wit:run_types"
LIB = [SEL, MER, ANY, BRO, TIM, REC, POL, EVE, WAT]

RUNNERS = {
    "C01": [ANY, HAN], "C02": [ANY, HAN], "C03": [ANY, BRO], "C04": [ANY, BRO], "C05": [ANY, BRO], "C06": [BRO, HBR], "C07": [BRO, HBR],
    "C08": [BRO, HBR], "C09": [SEL, MER, BRO, REC], "C10": [MER, ANY, BRO, TIM, REC, EVE, WAT], "C11": [ANY, BRO, REC],
    "C12": [REC], "C13": [SEL, MER, ANY, BRO, TIM, REC, EVE, WAT], "C14": [SEL, MER, ANY, BRO, TIM, REC, EVE, WAT],
    "C15": [MER], "C16": [MER], "C17": [SEL, REC], "C18": [SEL, REC, EVE], "C19": [SEL, REC], "C20": [SEL],
    "C21": [REC, SEL], "C22": [EVE], "C23": [TIM], "C24": [TIM], "C25": [POL], "C26": [WAT], "C27": [WAT],
    "C28": LIB + [SHA], "C29": LIB, "C30": LIB + [SUR], "C31": LIB, "C32": LIB, "C33": [TYP], "C34": LIB,
    "C35": [MER, ANY, BRO, REC, HAN, HBR], "C36": [HAN, HBR], "C37": [CRE], "C38": [SUR],
    "C39": [HAN, HBR, EVE, TIM, MER],
}

RULE = {
    "C33": "compile-fail and compile-pass witnesses: every marked line of sa/witness must be rejected/accepted by "
           "mypy --strict against the current source",
}
DEFAULT_RULE = ("abstract interpretation of the current source: every operation is interpreted from every reachable "
                "abstract state of the scenarios, other tasks may run at every suspension point, and typestate "
                "automata over the abstract heap check each obligation on every path")


SETTLED = 120  # seconds after which a run that has already found a new violation stops exploring


def one(job):
    name, tier, secs, prop = job
    rep = Report()
    t = time.time()
    kn = known(prop)

    def budget(signum, frame):
        left = secs - (time.time() - t)
        if left > 1 and not any(v.prop == prop and k not in kn for k, v in list(rep.viol.items())):
            signal.alarm(max(1, min(15, int(left))))
            return
        raise TimeoutError
    try:
        signal.signal(signal.SIGALRM, budget)
        signal.alarm(min(secs, SETTLED))
        prog = loader.Program()
        mod, fn = name.split(":")
        getattr(importlib.import_module("sa." + mod), fn)(prog, rep, tier)
        rep.digest = prog.digest()
        rep.files = sorted(m.rel for m in prog.mods.values() if not getattr(m, "synthetic", False))
    except TimeoutError:
        rep.gaps.append((name, "time budget used up"))
    except loader.AnalysisError as e:
        rep.gaps.append((name, str(e)))
        rep.vacuous.append(name)
    finally:
        signal.alarm(0)
    rep.wall = time.time() - t
    rep.runner = name
    return rep


def known(prop):
    """Known findings of a property: key -> description."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8") as f:
        for ln in f:
            if ln.startswith("known: "):
                key, _, what = ln[len("known: "):].strip().partition(" :: ")
                if key.split("|")[0] == prop:
                    out[key] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", choices=sorted(RUNNERS))
    ap.add_argument("--tier", choices=("quick", "thorough"), default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    t0 = time.time()
    p = a.property
    secs = 400 if a.tier == "quick" else 820
    jobs = [(r, a.tier, secs, p) for r in RUNNERS[p]]
    if len(jobs) == 1:
        reps = [one(jobs[0])]
    else:
        with multiprocessing.Pool(min(8, len(jobs))) as pool:
            reps = pool.map(one, jobs, chunksize=1)
    viol, gaps, vacuous = {}, [], []
    count, samples, states = Counter(), Counter(), {}
    fns, sites, susp = set(), set(), set()
    for r in reps:
        for k, v in r.viol.items():
            if v.prop == p:
                viol.setdefault(k, v)
        gaps += [f"{w}: {m}" for w, m in r.gaps]
        vacuous += r.vacuous
        count += r.count
        samples += r.samples
        states.update(r.states)
        fns |= r.fns
        sites |= r.sites
        susp |= r.susp
    rules = {k.split(":", 1)[1]: n for k, n in sorted(samples.items()) if k.startswith(p + ":")}
    kn = known(p)
    new = {k: v for k, v in viol.items() if k not in kn}
    evdir = os.environ.get("SA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    n = count[p]
    missing = [r for r in expected(p) if r not in rules]
    ev = {
        "property": p, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED") or 1), "level": "other",
        "coverage": {
            "explanation": f"{RULE.get(p, DEFAULT_RULE)}.  {n} obligations of {len(rules)} rules were decided.",
            "obligations": n, "discharged": n - len(viol), "obligations_by_rule": rules,
            "abstract_states_by_scenario": states, "functions": sorted(map(str, fns)), "functions_count": len(fns),
            "call_sites": len(sites), "suspension_points": sorted(map(str, susp)),
            "runners": {r.runner: round(r.wall, 1) for r in reps},
            "source_digest": next((r.digest for r in reps if hasattr(r, "digest")), None),
            "source_files": next((r.files for r in reps if hasattr(r, "files")), []),
            "undecided": gaps, "undecided_scenarios": vacuous, "rules_without_instance": missing,
            "violations": [{"key": v.key, "what": v.msg, "where": v.where, "path": v.trace[-30:]}
                           for v in viol.values()],
        },
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(evdir, f"{p}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for g in gaps:
        print(f"UNDECIDED: {g}")
    for r in missing:
        print(f"UNDECIDED: rule {r} has no instance")
    for k in sorted(viol):
        if k in kn:
            print(f"KNOWN-FINDING: property={p} {kn[k]}")
    print(f"{p}: {n} obligations of {len(rules)} rules, {sum(states.values())} abstract states, {len(fns)} functions, "
          f"{len(sites)} call sites, {len(new)} violations, {time.time() - t0:.1f} s")
    if new:
        rp = os.path.join(evdir, f"{p}.replay.txt")
        with open(rp, "w", encoding="utf-8") as f:
            for v in new.values():
                f.write(f"property {p}\nrule {v.rule}\nconstruct {v.construct}\nwhere {v.where}\nwhat {v.msg}\npath\n")
                f.writelines(f"  {x}\n" for x in v.trace[-60:])
                f.write("\n")
        for v in new.values():
            print(f"{v.construct}: {v.msg} [{v.rule}] {v.where}")
        print(f"VIOLATION property={p} replay={rp}")
        return 1
    if not n:
        print(f"{p}: no obligation could be decided")
        return 2
    return 0


def expected(p):
    """Rules confirmed to have instances on the reference tree."""
    path = os.path.join(HERE, "sa", "rules.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return json.load(f).get(p, [])


if __name__ == "__main__":
    sys.exit(main())
