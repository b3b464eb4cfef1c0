#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C25 C26 C27 C28 C29 C30".split()
NA = {"C24": "encoding and decoding a control frame is a pure function of its input buffer: no schedule, clock, I/O, fault or second party takes part, so there is nothing for a simulator to decide (the frames' use in handshakes is decided under C10, C11, C16 and C18)"}
NOTE = "Seeded search over simulated executions of the unmodified code (real library, programs, libevent and stdio buffering; simulated threads, clock, network, disk, signals and heap). A clean run is evidence over the runs counted in the evidence file, not a proof. Assumes sequentially consistent memory and that the simulated kernel behaves as Linux does. "
EXTRA = {}
checks = []
for p in props:
    if p["id"] not in CLAIMED: continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
      "evidence_file": "evidence/%s.json" % p["id"], "technique": "deterministic simulation with fault injection (seeded random search over schedules and faults)",
      "level": "exploration", "level_note": NOTE + EXTRA.get(p["id"], "")})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in CLAIMED]
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "hooks": {"guard": "none", "enable": "no hooks: calls into libc and pthreads are redirected to the simulator in the object files (objcopy), memory accesses by -fsanitize=thread instrumentation with the simulator's own runtime", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "Every violation is printed with a minimised replay file under replays/; tools/replay.sh FILE re-executes it."}
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
