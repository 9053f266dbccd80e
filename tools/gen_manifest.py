#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "property-based testing: random instructions and machine states, stepped on the emulator and on an independent reference 68000"
T = {
 "C01": ("exhaustive generation of all 65536 opcodes against an independent decoder table", None),
 "C03": (DIFF, None), "C04": (DIFF, None), "C05": (DIFF + "; exhaustive byte pairs against decimal arithmetic", None),
 "C06": (DIFF, None), "C07": (DIFF, None), "C08": (DIFF, None), "C09": (DIFF, None), "C10": (DIFF, None), "C11": (DIFF + " and containment invariants in user mode", None),
 "C12": ("property-based testing of exception entry and RTE histories against frame models of both CPUs", None),
 "C13": ("stateful property-based testing: generated request schedules against a pending-set model", None),
 "C14": ("stateful property-based testing: generated STOP/trace/request histories against a model", None),
 "C15": ("property-based fault injection: refused and odd accesses at generated points, containment invariants", None),
 "C16": (DIFF + " with independently typed timing tables", None),
 "C17": ("metamorphic property-based testing: run loops against repeated single steps", None),
 "C18": ("differential property-based testing: disassembling interpreter against the plain one", None),
 "C19": ("model-based property-based testing: generated programs, memory maps and interrupt schedules against the reference machine", None),
 "C02": ("property-based testing: random encodings decoded against an independent decoder; lengths and reads of the decoder, the disassembler and execution compared", None),
 "C20": ("round-trip property-based testing: every assembler function on generated arguments, and every opcode re-assembled from its decoded operands", None),
 "C21": ("property-based testing with invalid arguments: an argument-validity model written from the manual decides whether a panic or which words are expected", None),
 "C22": ("property-based testing: disassembly text parsed back against an independent renderer; metamorphic one-bit-apart pairs differ in text", None),
 "C23": ("model-based property-based testing: generated access sequences on slices against a byte array", None),
 "C24": ("exhaustive and random generation of helper arguments against 16/32-bit integer definitions", None),
 "C25": ("differential property-based testing: generated histories of C calls, from Rust and from C through the published headers, against the Rust methods", None),
 "C27": ("metamorphic property-based testing: the same generated history on clones, threads, restored cores and five memory implementations", None),
 "C28": ("property-based testing: generated files, ranges and command lines given to the program, its listing parsed back against the reference decoder", None),
 "C29": ("differential property-based testing: generated ROMs run on both example programs and on the reference machine with a model of the board", None),
 "C30": ("model-based property-based testing: the logged memory accesses of generated instructions and histories against those of the reference machine, and generated transfers between devices with side effects", None),
 "C31": ("stateful property-based testing: generated programs run until an exception, generated host services, against the reference machine step by step and the run loops against single steps", None),
 "C26": ("stateful property-based testing of reset histories against a model", None),
}
NOTE = "Holds on every generated case of the run (evidence has the counts); trusts the harness's own reference model and tables, written from the manuals, and leaves architecturally undefined results unchecked as DESIGN.md lists."
NOTES = {}
PENDING = "check under construction"
try:
    exec(open(os.path.join(V, "tools", "manifest_table.py")).read())
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} --tier quick", "thorough_cmd": f"./check.sh {i} --tier thorough",
                       "technique": T[i][0], "level": "exploration", "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": PENDING})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "One Rust harness (harness/) with one binary; check.sh rebuilds it against /repo's working tree. No hooks are needed in /repo."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
