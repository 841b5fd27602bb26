#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
SIM = "deterministic simulation: seeded search over goroutine schedules, transport behaviour and faults in one process, "
CHECKS = {
 "C01": (SIM + "scripted hostile peer against the real client, results judged by a reference codec", "exploration"),
 "C02": (SIM + "real server against reference peers, replies and executions matched to the calls consumed", "exploration"),
 "C03": (SIM + "blocking, torn and non-atomic writes, reply byte stream parsed by a reference framer", "exploration"),
 "C04": (SIM + "simulated buffer pool and preemption between statements, arguments and results compared with what was sent", "exploration"),
 "C05": (SIM + "held handlers and stalled peers, progress of everybody else checked at quiescence", "exploration"),
 "C06": (SIM + "random registrations and near-miss calls, verdicts compared with a reference dispatcher", "exploration"),
 "C07": (SIM + "corrupted, cut, fragmented and hostile streams against the real server", "exploration"),
 "C08": (SIM + "write/read errors, torn and forged replies against the real client", "exploration"),
 "C09": (SIM + "arbitrary segmentation, empty reads and end-of-stream with data, judged by segmentation-blind references", "exploration"),
 "C10": (SIM + "closes, half-closes and resets at any byte; return values and leftover goroutines checked", "exploration"),
 "C11": (SIM + "declared lengths far beyond what arrives; allocations and statements counted per run", "exploration"),
 "C12": (SIM + "every procedure of both protocols, wire bytes compared with a reference RFC codec", "exploration"),
 "C13": (SIM + "messages cut at every byte, corrupted and over bounds, through codecs, calls and replies", "exploration"),
 "C14": ("seeded search: random specifications through the real generator, then deterministic simulation of the generated client and server sides against a reference RFC 4506 peer", "exploration"),
 "C15": ("deterministic simulation of the file system calls of the real generator: error, short write, full disk and kill at every call of a run", "fault_enumeration"),
 "C16": ("deterministic simulation of the file system calls of the real generator: recovery run after a fault or kill at every call", "fault_enumeration"),
 "C17": (SIM + "real clients against real servers over failing connections, histories checked for linearizability", "exploration"),
 "C18": (SIM + "arguments and results beyond their bounds at both ends", "exploration"),
 "C19": ("deterministic simulation of everything the real generator could depend on besides its input: map iteration order, randomness, clock, process id, environment, working directory, files left by earlier killed runs", "exploration"),
}
NOTE = {
 "exploration": "Sampled, not exhaustive: no breach in the schedules, faults and inputs explored from the seed. Trusts the reference codec and models in /verif, and that goroutines switch only between statements (sequentially consistent memory).",
 "fault_enumeration": "For each sampled scenario every file system call of the run is failed in every modelled way and killed before and after; scenarios themselves are sampled. Trusts the model of the failing disk (no reordering of metadata).",
}
NA = [
 {"property": "C20", "reason": "A comparison of two committed artefacts: no schedule, clock, fault or interleaving in it, so there is nothing for a simulator to decide."},
]
TODO = []
checks = []
for p, (t, l) in CHECKS.items():
    if p in TODO:
        NA.append({"property": p, "reason": "Check under construction."})
        continue
    checks.append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": l, "level_note": NOTE[l]})
json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": NA,
           "notes": "No hooks in /repo: scheduling points and the file system seam are put into copies of its sources and of package syscall at build time (go build -overlay)."},
          open("/verif/MANIFEST.json", "w"), indent=1)
