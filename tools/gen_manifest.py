#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C90": "Pure functions of their argument: no schedule, clock, I/O, fault or second party for the property to depend on, so simulating them would only be input generation. Their uses inside the server are decided by C05 (URI decoding of targets) and C09 (accept digest).",
    "C91": "A pure, single-threaded call wrapper without schedule, I/O or fault. Its use inside the server (cppFunction dispatch) is decided by C15.",
}
NOTE = {
    "C07": "Interleaved reads of several files under injected short, interrupted and failing reads, compared byte by byte with the file's content; the embedded files are also read whole and decoded as their encoding declares. Sampled, not exhaustive.",
    "C17": "Sampled histories of connections with any endings, plus one worker running histories of more than 65536 connections each.",
    "C22": "The shipped Javascript runs in node's engine with simulated document, console and WebSocket objects; everything on the C++ side is the real code under the simulated network. Two recorded findings of the script (a compiled asset whose source is not in the repository) are recognised by the exact bytes or size.",
    "C25": "Allocations made by the code of the library or of the application's callbacks while server code runs fail; those of the simulated network library itself do not.",
    "C20": "Memory is judged as growth over rounds of the same workload (allocations made while server code runs), sockets exactly.",
}
checks = []
for p in props:
    if p["id"] in NA:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation with fault injection: seeded search over schedules, workloads and faults on the real server code, oracle per property, replayable minimised traces",
        "level": "exploration",
        "level_note": NOTE.get(p["id"], "Seeded sampling of schedules, inputs and faults; a quiet run is evidence for what was explored, not a proof.") +
                      " Trusts the simulated Networking TS, the reference clients and models in /verif/sim, and (in the sanitized workers) ASan/UBSan.",
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the seams are the Networking TS (networking::TCPNetworkingTS includes <experimental/net>, which the checks supply), the file-system calls and std::chrono::system_clock::now (interposed at link time). "
             "Defects found and repaired are listed in known-findings.txt. python3 check.py --replay FILE reproduces a replay file; python3 check.py --determinism checks that seeds repeat.",
}
json.dump(manifest, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
