"""Writes MANIFEST.json from properties.jsonl."""
import json

NA = {
    "C25": "Decoding a cell is a pure function of the event bytes: no scheduling, time, I/O, fault or second party can influence it once the bytes are assembled (assembly is C01/C16), so simulation has nothing to decide; a mismatch in the values the runs happen to generate is still reported under C01/C16.",
    "C26": "Parsing and printing GTID text is a pure function of one string with no schedule, clock, I/O or fault to simulate. The uses that depend on a session (what the server receives, what is recorded) are decided under C04, C05 and C06.",
}
NOTE = {
    "default": "Seeded search over simulated executions of the real library against model servers; no violation was met on the executions run, which is evidence and not proof. Trusted: the server model, the generator's own binlog encoder and the libc interposition.",
}
checks = []
na = []
for line in open("properties.jsonl"):
    d = json.loads(line)
    if d["id"] in NA:
        na.append({"property": d["id"], "reason": NA[d["id"]]})
        continue
    c = "./check " + d["id"]
    checks.append({
        "property": d["id"],
        "quick_cmd": "VERIF_TIER=quick " + c,
        "thorough_cmd": "VERIF_TIER=thorough " + c,
        "evidence_file": f"evidence/{d['id']}.json",
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": NOTE.get(d["id"], NOTE["default"]),
    })
json.dump({
    "version": 1,
    "setup_cmd": "./build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every seam is a libc function (sockets, name resolution, clock, randomness, file reads) interposed in the simulator's own binary. known-findings.txt lists the defects repaired in /repo.",
}, open("MANIFEST.json", "w"), indent=1)
