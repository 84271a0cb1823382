#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
sys.path.insert(0, "tools")
LEVEL = "Sampled evidence: seeded search over schedules (preemption after any machine instruction), fault sequences and inputs on the real compiled headers for six x86 ISA levels; no violation in the runs made, not a proof. Trusts the CPU, the kernel's page and trap handling and g++ 13."
NOTES = {
 "C01": "", "C02": "", "C03": "", "C04": "",
 "C05": " Weak ordering is modelled for non-temporal stores only (x86 TSO keeps all other stores in order).",
 "C06": " Threads share one OS thread, so hardware data races on distinct bytes of a cache line are not modelled (x86 guarantees byte granularity).",
 "C07": "", "C08": "", "C09": "",
 "C10": " Tool failures are injected by stub tools on PATH; the shell itself is real.",
 "C11": "", "C12": "", "C13": "", "C14": " Initialisation is modelled by putting the static and thread-local data of the code under test into the state of the executable file.",
}
NA = {
 "N01": "Pure function of its operands: no schedule, time, I/O or fault can influence it beyond what C06/C08/C12 already check, so a simulator adds nothing over sampling inputs, which is not this technique.",
 "N02": "Accuracy of pure functions: depends on operand values only; needs input enumeration against a high-precision oracle, not schedules or faults.",
 "N03": "Pure data movement determined by operand values; no concurrency, time, I/O or fault dimension (memory-facing conversions are covered by C01-C04).",
 "N04": "Pure functions of lanes and mask; the parts with a schedule or fault dimension (callbacks, padding, isolation) are C06, C08, C09, C12.",
 "N05": "Compile-time property: nothing executes, so there is nothing to schedule or to inject faults into.",
 "N06": "No NEON or POWER machine, emulator or cross C++ runtime is installed, so that code cannot be executed under the simulator.",
 "N07": "Decided by the linker and inlining decisions at build time; no schedule or fault reaches it at run time.",
}
from subprocess import run
import re
src = open("check.py").read()
have = [p for p in NOTES if '"%s"' % p in src]
checks = [dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
               evidence_file="evidence/%s.json" % p, technique="deterministic simulation with fault injection", level="exploration",
               level_note=LEVEL + NOTES[p]) for p in have]
na = [dict(property=k, reason=v) for k, v in NA.items()] + [dict(property=p, reason="check not built yet") for p in NOTES if p not in have]
json.dump(dict(version=1, setup_cmd="true", hooks=dict(guard="none", enable="no hooks: the simulator works on the unmodified headers", source_commits=[]),
               checks=checks, not_applicable=na), open("MANIFEST.json", "w"), indent=1)
print(have)
