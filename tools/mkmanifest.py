#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
src = os.path.join(here, "sim", "cmd", "simcheck")
have = set()
for f in os.listdir(src):
    if f.endswith(".go"):
        have |= set(re.findall(r'propDef\{id: "(C\d+)"', open(os.path.join(src, f)).read()))

tech = "deterministic simulation with fault injection: seeded scheduler over the instrumented library, "
notes = {
 "C01": ("results of interleaved client programs compared with each program alone; race detector on the same simulated schedules",
   "No counterexample in the runs of this check; schedules, map orders, pool behaviour and GC points are sampled by seed. The reference is the same code running alone, so a defect that is the same alone and interleaved belongs to other properties."),
 "C02": ("concurrent readers compared with a solo reader, content/order/identity invariants; race detector",
   "Sampled schedules and documents. Race reports cover the accesses the library really makes on those schedules."),
 "C03": ("linearizability-style check of option sets over the recorded history; race detector",
   "Sampled schedules; a Marshal is accepted if its output agrees with one default set current during the call."),
 "C04": ("parsing histories (volume, density, failures, concurrent) against a strict independent parser",
   "Sampled histories; the volume beyond two gigabytes is reached in dedicated cases. Inputs are valid texts plus broken ones; only the agreement with the parse in a fresh process state and with the strict parser on valid texts is claimed."),
 "C05": ("ownership model of every buffer given and received, with overwriting, GC and clobbered freed memory as faults; race detector",
   "Sampled histories; memory still shared but never overwritten in a run is not noticed in that run."),
 "C06": ("simulated faulty network link between two peers with reconnect and resend; exactly-once history check",
   "Sampled link faults; the transport is a model of a byte stream, encoding/json is the real one."),
 "C07": ("simulated disk with crash points: truncation, torn and stale sectors, stale tails, bit flips",
   "Sampled crash points and corruptions; for corrupted (not truncated) content only absence of panic, hang and inconsistency is claimed."),
 "C08": ("fault-injected changes and imports against a reference tree, with snapshots around every failed call",
   "Sampled histories and faults."),
 "C09": ("channel iterators under seeded consumers (slow, stalled, stopping), delivery history and goroutine-leak invariant; race detector",
   "Sampled schedules."),
 "C10": ("refinement of lock-ordered histories to a reference JSON tree; race detector",
   "Sampled histories; the reference tree is small independent code written from the documentation."),
 "C11": ("seeded and adversarial hash-map orders, histories of changes, exact order against a reference tree",
   "Sampled histories and map orders."),
 "C12": ("histories of case-sensitive and caseless operations against a reference set of admissible outcomes under seeded map orders",
   "Sampled histories; any choice among equal candidates is accepted."),
 "C13": ("copies and originals changed by concurrent simulated clients, each against its own reference tree; race detector",
   "Sampled histories and schedules."),
 "C14": ("fault-injected marshaling (unsupported floats, uninitialised members, panicking callbacks) concurrent with healthy calls, strict parser as oracle; race detector",
   "Sampled values, options and fault positions."),
 "C15": ("every callback as a seeded point of re-entry, early stop or panic, with deadlock detection; race detector",
   "Sampled histories; re-entrant changes of the same value during iteration are outside the property."),
}
NA = {
 "C16": "a pure function of one input text: no schedule, clock, I/O, fault or history takes part, so simulation adds nothing to input generation (the strict parser is used as oracle inside C04-C07)",
 "C17": "a pure function of one number: nothing nondeterministic to put behind a seam",
 "C18": "a pure function of two values: nothing nondeterministic to put behind a seam",
 "C19": "a pure function of one Go value: agreement with encoding/json needs input coverage, not schedules or faults",
 "C20": "a pure function of one string and an option set: nothing nondeterministic to put behind a seam",
 "C21": "a pure function of one byte string; the parser is moreover documented as lenient (extra commas), refusals after crashes are covered by C07",
 "C22": "a pure function of two values: nothing nondeterministic to put behind a seam",
}
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "build overlay (no guarded code in /repo: the checks instrument a copy of its sources with go build -overlay)",
           "enable": "bash build.sh /repo OUT PROPERTY writes the instrumented copies and overlay.json to OUT and builds with -overlay", "source_commits": []},
 "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
for p, (t, n) in notes.items():
    if p not in have:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
        continue
    m["checks"].append({"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
        "evidence_file": f"evidence/{p}.json", "technique": tech + t, "level": "exploration", "level_note": n})
m["not_applicable"].sort(key=lambda x: x["property"])
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
