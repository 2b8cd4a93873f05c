#!/usr/bin/env python3
"""Write MANIFEST.json from the plans."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "fw"))
import plans
TECH = "runtime monitoring: "
N = {
 "P01": ("model-based oracle of all symmetric memory over stress runs under a hostile MPI shim", ""),
 "P02": ("model-based oracle of all symmetric memory over stress runs under a hostile MPI shim", ""),
 "P03": ("completion oracle: memory read at the target as soon as quiet returned, MPI completion withheld as long as legal", ""),
 "P04": ("ordering oracle: observer at the destination polls for inversions, MPI completion withheld as long as legal", ""),
 "P05": ("value oracle for every atomic routine and the whole memory around its objects, over random chains of operations", ""),
 "P06": ("linearizability checker over recorded concurrent histories, conservation and unique-ticket monitors over volume runs", ""),
 "P07": ("truth-table and time oracle of waits and tests against the logged updates of the variable", ""),
 "P08": ("out-of-band exclusion monitor and hand-over data check inside every critical section", ""),
 "P09": ("interval and visibility oracle over entry/exit times of every barrier and sync instance", ""),
 "P10": ("model-based oracle of all symmetric memory after every collective, with late arrivals and traffic", ""),
 "P11": ("model-based oracle of all symmetric memory after every reduction", ""),
 "P12": ("model-based oracle of all symmetric memory after every collective, with late arrivals and traffic", ""),
 "P13": ("set-model oracle of every team query on every member over random trees of splits", ""),
 "P14": ("model allocator compared with every answer, block contents and remote reachability over random histories", ""),
 "P15": ("model of spaces and contexts compared with every answer and memory over random histories, completion oracle per context", ""),
 "P16": ("query results compared with the launcher's facts over start-up configurations", ""),
 "P17": ("address and undefined-behaviour sanitizers plus window bounds and handle checks at the MPI boundary over all workloads", ""),
 "P18": ("progress watchdog over random valid programs whose blocked PEs have to serve their peers", ""),
 "P19": ("digests of the same program's results and memory under different modes, builds and settings compared", ""),
 "P20": ("thread sanitizer and per-thread value oracles over concurrent threads of each PE", ""),
 "P21": ("live-object counters at the MPI and allocator boundaries after churn and at finalize", ""),
 "P22": ("observers of pending updates at teardown and of exit statuses and surviving processes", ""),
 "P23": ("effect of every generic, aliased and deprecated form compared with the typed form's specification", ""),
}
N.update(getattr(plans, "TECHNIQUES", {}))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in plans.PLANS:
        t, note = N[p]
        checks.append(dict(property=p, quick_cmd="python3 fw/check.py %s quick" % p,
                           thorough_cmd="python3 fw/check.py %s thorough" % p,
                           technique=TECH + t, level="exploration",
                           level_note=(note + " " if note else "") + "Held on the executions listed in the evidence file, which are a "
                           "seeded sample of programs, schedules, modes and adversarial MPI behaviours; paths and interleavings not "
                           "driven are not decided. Trusts Open MPI, the compiler and the oracle in fw/h."))
    else:
        na.append(dict(property=p, reason=getattr(plans, "NOT_APPLICABLE", {}).get(p, "the check is not built yet")))
m = dict(version=1, setup_cmd="python3 fw/check.py setup",
         hooks=dict(guard="none", enable="no hooks in /repo: the monitors interpose on MPI (PMPI) and malloc and compile the "
                    "library's own sources with headers from /verif/fw", source_commits=[]),
         checks=checks, not_applicable=na)
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
