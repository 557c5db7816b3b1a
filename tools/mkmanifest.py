#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in sim/checks and the reasons below."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
# id: (technique detail, level, note)
CLAIM = {
    "C01": ("seeded histories of calls, restarts on interpreters with other hash seeds and clearings, against the undecorated function", "exploration",
            "Seeded search over histories of calls of the real cache on real files; assumes the generator's argument families cover the aliasing a user can meet. Holds for what was explored only."),
    "C02": ("crash at every file operation of a store and torn entries, then restart", "fault_enumeration",
            "Every file operation of a small and a large store is a crash point in fixed scenarios, plus seeded histories with several crashes. A crash loses user-space buffers and keeps what reached the file; loss of data the kernel accepted is modelled by truncating entries written last."),
    "C03": ("seeded disk errors and seeded schedules of concurrent callers at file operations and source lines", "exploration",
            "Seeded search; every error kind is also injected persistently at every operation kind in fixed scenarios."),
    "C04": ("seeded histories and thread schedules at source-line and bytecode grain, failing and interrupted evaluations", "exploration",
            "Seeded search over histories and interleavings of the real memoizer."),
    "C05": ("seeded histories of stores and reads with crashes, torn writes, disk errors and restarts, against a register model", "fault_enumeration",
            "Every file operation of a store is a crash and error point in fixed scenarios, plus seeded histories."),
    "C06": ("seeded histories of calls and clearings with hostile names and failing removals on a simulated file system with a recording shell", "exploration",
            "Seeded search; destructive commands are only recorded, never run."),
    "C07": ("seeded prior histories of draws from both generators, in several processes, before a seeded simulation", "exploration",
            "Seeded search over prior histories; bit-identity is the oracle."),
    "C08": ("simulated generator streams (seeded and crafted extreme ones), recorded history checked step by step against a reference model", "exploration",
            "Seeded search; the decision rule and the model's own transition and definitions are the reference."),
    "C09": ("crafted generator states (numbers next to 0 and 1, ties) behind the random number seam, recorded chains checked for impossible transitions", "exploration",
            "Seeded search over chains and generator streams; frequencies judged with bounds wider than six standard errors."),
    "C10": ("seeded long histories of draws judged against the declared law with wide bounds", "exploration",
            "Statistical acceptance with bounds above six standard errors on fixed seeds: no alarm on correct code, blind to deviations smaller than the bounds."),
    "C11": ("seeded histories of updates, reads, computations and interrupts at chosen source lines, against a freshly loaded model", "exploration",
            "Seeded search over histories and interrupt points of the real model object."),
    "C12": ("seeded thread schedules at source-line grain with simulated locks; reads checked for linearizability against the history of updates", "exploration",
            "Seeded search over interleavings; a switch can happen before every source line of dolo and dolang."),
    "C13": ("seeded histories of operations over shared objects; deep snapshots of inputs and results against a fresh run", "exploration",
            "Seeded search over operation orders."),
    "C14": ("interrupt, memory error or user exception injected at a seeded source line or callback of the operation, then repeat and compare", "fault_enumeration",
            "One exception per chosen line event, several in a row; lines inside compiled code cannot be hit."),
    "C15": ("seeded thread schedules of library operations at source-line grain, each result against the serial one", "exploration",
            "Seeded search over interleavings; compiled code is atomic for the scheduler."),
    "C16": ("seeded stops of the iteration (limits, hook exceptions) and resumptions, sequence of decision rules against the uninterrupted run", "exploration",
            "Seeded search over ways to cut a run."),
    "C17": ("faulty evaluations injected behind the model functions and objectives (nan, inf, exceptions, noise, stalls), verdicts checked by fault-free re-evaluation", "exploration",
            "Seeded search over fault sequences and limits."),
    "C18": ("simulated files and network connection failing, chunking or stalling at chosen bytes; content against the fault-free import", "fault_enumeration",
            "Every operation and a range of byte positions of an import is a fault point; detectable truncation only, silent truncation without a length is undetectable."),
    "C19": ("every step of the upward search failing, on seeded directory trees", "fault_enumeration",
            "Every file operation of the search is a fault point."),
    "C20": ("simulated clock and console behind the time and stdout seams; result against the undisturbed run", "exploration",
            "Seeded search over clock readings and console failures."),
}
PURE = ("Pure function of its input: no schedule, clock, I/O, randomness, crash or history enters its value, so there is nothing for a "
        "simulator to control; deciding it takes input generation against a mathematical oracle, which is another technique.")
NA = {f"N{i:02d}": PURE for i in range(1, 11)}

checks = []
na = [{"property": k, "reason": v} for k, v in NA.items()]
for pid, (tech, level, note) in CLAIM.items():
    if not os.path.exists(os.path.join(HERE, "sim", "checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    checks.append({"property": pid,
                   "quick_cmd": f"/opt/venv/bin/python sim/run.py check {pid} --tier quick",
                   "thorough_cmd": f"/opt/venv/bin/python sim/run.py check {pid} --tier thorough",
                   "technique": TECH + tech, "level": level, "level_note": note})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c \"import numpy, numba, xarray, yaml\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is installed from outside (file functions, generators, clock, console, urllib, settrace). "
              "known_findings.json lists repaired and recorded defects."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
