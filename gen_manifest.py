#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C18": "xtext encoding is a pure function of one string that no operation of the client uses (send passes no such parameter): there is no schedule, fault, clock or peer for a simulation to control.",
    "C19": "rendering of stand-alone command objects (HELP, VRFY, EXPN, NOOP, custom parameters) is a pure function the client itself never calls; the commands the client does send are decided on the wire by C15, C08 and C10.",
}
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    if p["id"] in NA:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation with fault injection (seeded search)",
        "level": "exploration",
        "level_note": "Runs the crate's real client code, under both runtime features, against a simulated server, network, clock and scheduler; samples seeded scenarios, so a clean run is evidence, not proof. Trusts the server model and the oracle in harness/src.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: SmtpTransport is generic over its stream and never spawns, sleeps or reads a clock, so the stream, the message reader and the polling of the futures are the seams. 'python3 check.py --replay FILE' re-executes a replay file.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
