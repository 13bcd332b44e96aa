#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C22 C23".split()
NA = {
 "C19": "pure functions of one value: no schedule, clock, I/O or second party takes part, so simulation with fault injection has nothing to decide (encoding is exercised end to end under C10)",
 "C20": "pure function of a schema and a value, no schedule, clock, I/O or second party (that verdicts do not leak between requests is C18)",
 "C21": "pure functions of their input, no schedule, clock, I/O or second party",
}
NOTE = {
 "*": "Seeded search, not exhaustive: a clean run says no violation was found in the stated number of simulated executions. "
      "Real: all of jlib, net/http, x/net/http2, gorilla/websocket, crypto/tls, context, sync, Go timers. "
      "Simulated: goroutine scheduling, clocks, the TCP network, random numbers. Trusted: the oracles and the simulated network in /verif/worker.",
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
ids = [p["id"] for p in props]
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "hooks": {"guard": "none in /repo: preemption points and the simulated runtime come in through go build -overlay (tag faketime)", "enable": "check.sh builds /repo with an overlay generated by simctl; /repo carries no hooks", "source_commits": []},
 "checks": [{
   "property": i,
   "quick_cmd": f"./check.sh {i} quick",
   "thorough_cmd": f"./check.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json",
   "technique": "deterministic simulation with fault injection (seeded search over schedules, delays and faults)",
   "level": "exploration",
   "level_note": NOTE.get(i, "") + NOTE["*"],
 } for i in ids if i in CLAIMED],
 "not_applicable": [{"property": i, "reason": NA.get(i, "the example's own code would be the system under test; its check is not built")} for i in ids if i not in CLAIMED],
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json','a').write("\n")
