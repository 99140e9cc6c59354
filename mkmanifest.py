#!/usr/bin/env python3
"""Writes MANIFEST.json from the lists below (python3 mkmanifest.py)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection"
notes = {
 "C01": "Seeded simulated histories of calls of about 600 generated query methods (1200 thorough) on a simulated connection over PostgreSQL 16 with injected faults; nil is only returned when nothing failed and outputs and tables are the reference's. Search, not proof.",
 "C02": "Seeded simulated histories of calls of about 600 generated query methods (1200 thorough) on a simulated connection over PostgreSQL 16 with injected faults, failing and panicking callbacks; no row set or statement stays open. Search, not proof.",
 "C03": "Seeded simulated histories of calls of about 600 generated query methods (1200 thorough) on a simulated connection over PostgreSQL 16 with injected faults and seeded row orders; deliveries equal the rows the driver handed out. Search, not proof.",
 "C04": "Seeded simulated histories of calls of about 600 generated query methods (1200 thorough) on a simulated connection over PostgreSQL 16 with injected faults; one statement per call whose effect and rows equal an independently built reference statement's. Search, not proof; query types come from one grammar.",
 "C05": "Seeded simulated histories of calls of about 600 generated query methods (1200 thorough) on a simulated connection over PostgreSQL 16 with injected faults; handler calls and results follow the handler contract. Search, not proof.",
 "C06": "Seeded simulated histories of calls of about 600 generated query methods (1200 thorough) on a simulated connection over PostgreSQL 16 with injected faults and cancellations; every driver call carries the caller's context. Search, not proof.",
 "C07": "Seeded simulated histories of calls of about 600 generated query methods (1200 thorough) on a simulated connection over PostgreSQL 16 with injected faults in batch calls and seeded orders of returned rows; all or nothing, values in their own records. Search, not proof. Two known findings (see known_findings.txt).",
 "C08": "Seeded schedules of 2-5 callers inside instrumented generated code, gosql, pgsql and filter, under the race detector; results and traffic equal those of each call alone. Search, not proof.",
 "C09": "Seeded simulated histories of scans by every scanner of pgsql through one reused, clobbered driver buffer, compared with a fresh destination. Search, not proof: histories of up to 8 scans, values from PostgreSQL 16.",
 "C10": "Seeded histories of encodings, retries, interleaved scans and foreign encodings by every valuer of pgsql; inputs and all earlier results are compared after every step. Search, not proof.",
 "C11": "Seeded histories of operations on up to 3 filters, compared with a twin built alone; map iteration order is seeded. Search, not proof.",
 "C12": "Seeded simulated runs of the tool's real main function on drawn projects, a simulated file system and PostgreSQL 16 behind a fault-injecting driver: read faults, loader and database faults, bad settings and rejected targets before the first write; a failing process names the problem and leaves the tree as it was. Search, not proof.",
 "C13": "Seeded simulated runs of the tool's real main function on drawn projects, a simulated file system and PostgreSQL 16 behind a fault-injecting driver: faults at every kind of write operation, short writes, and a durable state kept apart; outputs are old, new or absent, never partial, nothing else is touched. Search, not proof.",
 "C14": "Seeded simulated runs of the tool's real main function on drawn projects, a simulated file system and PostgreSQL 16 behind a fault-injecting driver: crashes, power losses and failures at drawn operations over leftovers of earlier runs; an undisturbed rerun leaves what a clean run leaves. Search, not proof.",
 "C15": "Seeded simulated runs of the tool's real main function on drawn projects, a simulated file system and PostgreSQL 16 behind a fault-injecting driver: seeded orders of catalog rows, maps and directories, with and without leftovers; bytes, status and messages are identical. Search, not proof.",
 "C16": "Seeded simulated runs of the tool's real main function on drawn projects, a simulated file system and PostgreSQL 16 behind a fault-injecting driver: every file alone against together, renamed, reduced and after other (failed) work in the same process. Search, not proof.",
 "C17": "Seeded simulated runs of the tool's real main function on drawn projects, a simulated file system and PostgreSQL 16 behind a fault-injecting driver: faults at every kind of database interaction, in histories within one process; they surface, poison nothing and leave no connection open. Search, not proof.",
 "C18": "Seeded simulated runs of the tool's real main function on drawn projects, a simulated file system and PostgreSQL 16 behind a fault-injecting driver: every statement of the tool runs on PostgreSQL and its effect on contents, sequences, schema and settings is checked. Search, not proof.",
 "C19": "Seeded schedules of 2-4 tasks opening databases, analysing, checking and generating in one simulated process, inside the instrumented packages of the tool, under the race detector, with database faults in some; results equal those of each job alone, nothing races or deadlocks. Search, not proof.",
 "C20": "Seeded simulated runs of the tool's real main function on drawn projects, a simulated file system and PostgreSQL 16 behind a fault-injecting driver: read faults (once or lasting), missing inputs, broken sources and loader failures; no success without complete outputs. Search, not proof.",
}
pure = {
 "C21": "Acceptance of a target is a pure function of its source and one schema: no schedule, fault, timer or history enters it, so simulation has nothing to decide (its stability under faults, row orders and concurrency is C15, C17 and C19).",
 "C22": "The round trip of one value is a pure function of that value; no schedule, fault or history is involved (the history-dependent parts are C09 and C10).",
 "C23": "What one filter input renders to is a pure function of that input; no schedule, fault or history is involved (the history-dependent part is C11).",
 "C24": "Settings are a pure function of the command line and the configuration file (unreadable files and directory order are C15 and C20).",
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = [{"property": p, "reason": pure.get(p, "not yet claimed: the simulation of this part is under construction")} for p in props if p not in notes]
m = {
 "version": 1,
 "setup_cmd": "./run.sh setup",
 "checks": [{
   "property": p,
   "quick_cmd": "./run.sh check %s" % p,
   "thorough_cmd": "VERIF_TIER=thorough ./run.sh check %s" % p,
   "evidence_file": "evidence/%s.json" % p,
   "technique": TECH,
   "level": "exploration",
   "level_note": notes[p],
 } for p in props if p in notes],
 "not_applicable": na,
 "notes": "No hooks in /repo: the simulator compiles /repo's current tree through a build overlay produced by /verif/instr. Known findings and repaired defects: known_findings.txt. Replay a violation with ./run.sh replay <file>.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
