#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, subprocess
V = "/verif"
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
DT = "runtime monitor at the API boundary: real date-time code driven by hostile generated workloads, every result compared online with an independent executable calendar and leap-second model"
NUM = "runtime monitor at the API boundary: generated and boundary workloads over all tick types, every result compared online with exact 256-bit arithmetic"
TECH = {p: DT for p in "B01 B02 B03 B04 E01 T01 A01 A02 A03 A04 A05 A06 A07 A08 L01".split()}
TECH.update({p: NUM for p in "I03 I04 I05 D01 D02 T02".split()})
TECH["L02"] = "runtime monitor of recorded results: the same operations repeated in other orders, with other tables loaded and on many threads at once, compared with a checked sequential reference run"
TECH["L03"] = "runtime monitor with fault injection: databases cut off at every byte, damaged, unreadable or replaced while several threads load them; every load compared with an independent reader's table or required to be refused"
TECH["I01"] = "runtime monitor: conversions of boundary and random system times over system and generated leap tables, compared with exact arithmetic"
TECH["I02"] = "runtime monitor with an injected clock (interposed clock_gettime) in processes of different time zones, compared with exact arithmetic and the C library's own calendar"
TECH["X01"] = "runtime monitor of effects: the other monitors' workloads run with the C library's functions that have effects interposed and recorded, and the state of the process compared before and after; positive controls in every run"
TECH["P01"] = "runtime monitor of cost: hostile amounts and ticks through every operation, each call timed on its thread's processor clock, and compared with the same call with small arguments, plus a watchdog for calls that never return"
TECH["N01"] = "invariant monitor at a hook: every place, operation and amount of small slices plus random walks, compared step by step with a sequential model"
TECH["S01"] = "sanitizers: AddressSanitizer+LeakSanitizer, ThreadSanitizer, Miri, valgrind memcheck and a counting allocator over concurrent and hostile workloads, with positive controls"
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    note = "Held on the executions that were run, whose number and kinds are in the evidence file; nothing is claimed about executions not run. Runs the code twice, with all arithmetic checks on and as released. Trusts the oracle model in /verif/harness/src."
    if i == "S01":
        note = "No tool reported an error on the executions that were run; tools see only what the workload reaches. A positive control shows in every run that each tool is awake."
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH[i],
        "level": "exploration",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "cfg(momentous_verif)", "enable": "RUSTFLAGS=\"--cfg momentous_verif\"", "source_commits": hook},
    "checks": checks,
    "not_applicable": [],
    "notes": "All checks share /verif/check.py and the crate in /verif/harness; replays are written to /verif/replays.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
