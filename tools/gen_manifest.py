#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
NOTE = {
 "C01": "Real library code under simulated schedules, message faults, aborts, outages and restarts; a clean batch is evidence for the explored runs only.",
 "C02": "No strategy of the catalogue is accepted. Assumes discrete logarithms of the generators and Keccak behave as intended; strategies outside the catalogue are not explored.",
 "C03": "As C01, for copy proofs over drawn mappings.",
 "C04": "As C02, for commitments. One recorded finding (KF1) is reported as KNOWN-FINDING; its strategy is excluded from the rest by its shape, not by its property.",
 "C05": "As C01, for the four linear-map arguments.",
 "C06": "As C02, for wrong images.",
 "C07": "Honest and deviating provers of the two inner-product arguments; same assumptions as C02.",
 "C08": "Every alteration the faulty network makes is drawn, none enumerated exhaustively; statements in general position.",
 "C09": "Bounds on work (steps of the simulator, CPU, memory) stand for termination; malformed messages of up to some 6000 values.",
 "C10": "Differences between sessions and statements are drawn one at a time; statements in general position.",
 "C11": "Conversations of up to five proofs and messages.",
 "C12": "Random-oracle seam: observes which challenges change; single byte changes of challenges.",
 "C13": "Entropy seam: which bytes of entropy each masking value depends on, rank of the masks, outage at each draw, histories of repeats. Distribution beyond that (bias) is not measured.",
 "C14": "Exact equality of proofs for two witnesses with solved-for entropy, for drawn statements.",
 "C15": "Calls interposed at the C library boundary are recorded; a raw system call instruction in the library would not be seen.",
 "C16": "Interleavings at allocation, entropy, transcript and lock granularity compared with solitary runs.",
}
HOOK = "deterministic simulation with fault injection"
TECH = {
 "C02": HOOK + " (byzantine provers)", "C04": HOOK + " (byzantine provers)", "C06": HOOK + " (byzantine provers)",
 "C07": HOOK + " (honest and byzantine provers)",
 "C08": HOOK + " (altering network)", "C09": HOOK + " (malformed messages, resource limits)",
 "C10": HOOK + " (replay and misdelivery)", "C11": HOOK + " (histories on one transcript)",
 "C12": HOOK + " (simulated random oracle)", "C13": HOOK + " (simulated entropy source)",
 "C14": HOOK + " (simulated entropy source, paired executions)", "C15": HOOK + " (simulated system calls)",
 "C16": HOOK + " (interleavings against solitary reference runs)",
}
pure = "pure function of its arguments: no schedule, clock, I/O, randomness, fault or second party that a simulation could vary; "
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "hooks": {"guard": "cfg(qesa_sim)", "enable": "RUSTFLAGS=\"--cfg qesa_sim\" (set by ./check)",
           "source_commits": ["d733cf2b0e0e"]},
 "checks": [{"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
             "evidence_file": "evidence/%s.json" % p, "technique": TECH.get(p, HOOK), "level": "exploration", "level_note": NOTE[p]}
            for p in sorted(NOTE)],
 "not_applicable": [
  {"property": "N01", "reason": pure + "its effects on whole proofs are exercised by C03, C04 and C10"},
  {"property": "N02", "reason": pure + "its effects on whole proofs are exercised by C01 to C08"},
  {"property": "N03", "reason": pure + "its effects on whole proofs are exercised by C02, C06 and C12"}],
 "notes": "./check replay FILE repeats a recorded violation. See DESIGN.md.",
}
import subprocess
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
full = [l.split()[0] for l in h.splitlines() if "hooks:" in l]
old = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
if full: m["hooks"]["source_commits"] = full
json.dump(m, open(old, "w"), indent=1)
