#!/usr/bin/env python3
"""Generates MANIFEST.json."""
import json
IDS = ["C%02d" % i for i in range(1, 26)]
TECH = "deterministic simulation with fault injection: seeded search over client schedules, environments and faults, "
T = {
 "C01": "every result compared with a truth-table reference model", "C02": "dictionary of functions and handles plus structural walk",
 "C03": "fingerprints of held handles compared all along the run", "C04": "reachability and reference counts recomputed from the simulator's handle table",
 "C05": "set model of reserved storage with canaries, allocation faults", "C06": "answers compared with an independent walk",
 "C07": "marks, counts and structure compared around queries failed by injected allocation and stream faults", "C08": "population-count model",
 "C09": "exact size from the reference model", "C10": "substitution in the reference model", "C11": "list-of-functions model of the collection",
 "C12": "reduced-size and function model", "C13": "round trips judged by handle identity", "C14": "allocation faults at measured allocation points, audit and retry",
 "C15": "allocation faults at measured allocation points, audit and retry", "C16": "interleaved against solo executions of each client; real threads under a controlled scheduler with race oracle",
 "C17": "same scenario under two simulated environments, observations compared", "C18": "growth runs with re-lookup of every node",
 "C19": "simulated heap balance, double release, AddressSanitizer on the simulated heap", "C20": "output parsed back, stream faults",
 "C21": "views compared with the model by full navigation", "C22": "hand-built diagrams compared with the model",
 "C23": "depths recomputed from the walked diagrams, allocation faults",
 "C24": "iterative model of levelled diagrams, library calls on a guarded 8 MB stack, allocation faults",
 "C25": "bounded progress on the simulated step clock"}
NOTE = "Holds on every explored run only: a seeded sample of histories, environments and faults. Trusts the reference model, the simulated heap and the compiler. "
N = {
 "C05": "Pools are driven directly. ", "C14": "Faults hit operator new only; single faults are swept over every allocation of sampled operations. ",
 "C15": "Faults hit operator new only; single faults are swept over every allocation of sampled operations. ",
 "C16": "Preemption at instrumented memory accesses of library code; accesses inside libstdc++.so are not seen. ",
 "C18": "Quick runs stay below 40000 nodes for most variables; the thorough tier fills tables to their capacity. ", "C24": "Depth limited to 10000 levels; frames as compiled with -O2 and step counting. ", "C19": "Invalid accesses are seen in the address-sanitized variant, built with NDEBUG. "}
m = dict(version=1, setup_cmd="python3 check.py build",
  hooks=dict(guard="LBDD_SIM", enable="check.py compiles /repo/src/*.cpp with -DLBDD_SIM and links sim/seams.cpp, which defines lbdd_sim_hash_key", source_commits=["5d7cb4b"]),
  checks=[dict(property=i, quick_cmd="python3 check.py run %s --tier quick" % i, thorough_cmd="python3 check.py run %s --tier thorough" % i,
     evidence_file="evidence/%s.json" % i, technique=TECH + T[i], level="exploration", level_note=NOTE + N.get(i, "")) for i in IDS],
  not_applicable=[],
  notes="KNOWN_FINDINGS.txt lists the defects found and repaired. Replay a violation with: python3 check.py replay <file>.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
