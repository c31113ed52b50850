"""Writes MANIFEST.json: claims the properties whose check module exists."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C01": "deterministic simulation: seeded innovation sources and plug-ins with recorded draws, reference accounting",
    "C02": "deterministic simulation: fault injection into plug-ins and at source lines, recovery checked",
    "C03": "deterministic simulation: seeded thread schedules over line-level preemption points, refinement to the sequential run",
    "C04": "deterministic simulation: simulated Sobol scrambling with injected zeros, streaks and errors",
    "C05": "deterministic simulation: traced and untraced twins over the same draws, failing output streams",
    "C06": "deterministic simulation: seeded Monte Carlo runs against closed-form values",
    "C07": "deterministic simulation: seeded generator, recursion replayed step by step, cancellations and schedules",
    "C08": "deterministic simulation: seeded series and fits, cancelled and interleaved, against a reference filter",
    "C09": "deterministic simulation: seeded GARCH simulation confronted with the pricer",
    "C10": "deterministic simulation: seeded operation histories refined to a fresh process and a reference model",
    "C11": "deterministic simulation: faults at every kind of source line of a parameter change, atomicity checked",
    "C12": "deterministic simulation: faults at source lines of queries, state compared before and after",
    "C13": "deterministic simulation: seeded thread schedules with line- and bytecode-level preemption",
    "C14": "deterministic simulation: cancellation injection at source lines of every public operation",
    "C15": "deterministic simulation: operation histories and failing output streams",
    "C16": "deterministic simulation: histories of plots, foreign figures and interrupted plots",
}
NOTE = {
    "default": "Exploration: the property held in every simulated run of the seeded search; runs not made are not covered. Trusts the simulator in fosim/, CPython, numpy and scipy.",
}
extra = json.load(open(os.path.join(HERE, "tools", "notes.json"))) if os.path.exists(os.path.join(HERE, "tools", "notes.json")) else {}
NA = {
    "N01": "A pure function of its inputs: no schedule, clock, randomness, I/O or fault can change the answer, so a simulator has nothing to decide. (Drift of these values through histories and faults is decided under C10-C13.)",
    "N02": "A numerical statement about pure functions; nothing for a scheduler or fault injector to vary.",
    "N03": "A numerical statement about pure functions; nothing for a scheduler or fault injector to vary.",
    "N04": "A statement about pure element-wise functions; nothing for a scheduler or fault injector to vary.",
    "N05": "A statement about a pure root search; interruptions of that search are decided under C12 and C14.",
    "N06": "A numerical statement about pure functions; nothing for a scheduler or fault injector to vary.",
    "N07": "A numerical statement about pure functions of one or three numbers; nothing for a scheduler or fault injector to vary.",
    "N08": "Termination of a deterministic sequential loop for every input; no scheduling, faults or time are involved.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "fosim", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration", "level_note": extra.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is installed from outside by fosim/env.py. Repairs of genuine defects are listed in known_findings.json."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
