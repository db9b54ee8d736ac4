#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a checks/cNN.py."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "C01": "runtime monitoring: random and hostile configurations, monitors on shape, dtype, finiteness, order and masking of every output",
 "C02": "runtime monitoring: recorded coefficient generations compared ray by ray with an independent float64 evaluation of the superposition formula",
 "C03": "runtime monitoring: recorded unit-power channel against the returned one, gain of every link",
 "C04": "runtime monitoring: observed link-budget terms against independent ITU/3GPP formulas",
 "C05": "runtime monitoring: observed geometry against closed forms, link isolation differential",
 "C06": "runtime monitoring: invariant monitors over generated topologies",
 "C07": "runtime monitoring: shadow-state monitor over random update histories, fresh-instance differential",
 "C08": "runtime monitoring: trace monitor over interleavings of updates and generations",
 "C09": "runtime monitoring: observed parameters against a frozen copy of the standard's tables",
 "C10": "runtime monitoring: statistical monitors over recorded large-scale draws",
 "C11": "runtime monitoring: correlation monitors over recorded large-scale draws",
 "C12": "runtime monitoring: invariant and statistical monitors over recorded cluster delays and powers",
 "C13": "runtime monitoring: invariant and statistical monitors over recorded ray angles",
 "C14": "runtime monitoring: permutation recovery and uniformity/independence monitors over recorded rays and phases",
 "C15": "runtime monitoring: per-user attachment monitor over recorded stages of both directions",
 "C16": "runtime monitoring: observed arrays against an independent layout model",
 "C17": "runtime monitoring: observed element fields against closed-form patterns over the sphere",
 "C18": "runtime monitoring: time-axis monitors over generated channels",
 "C19": "runtime monitoring: replay differential and mutation monitors over operation histories",
 "C20": "runtime monitoring: eager/graph/XLA differential",
 "C21": "runtime monitoring: statistical and history monitors over link states",
 "C22": "runtime monitoring: observed conversions against the defining sums",
 "C23": "runtime monitoring: acceptance/rejection monitor around every domain boundary",
 "C24": "runtime monitoring: dtype and accuracy monitors with a float64 oracle",
 "C26": "runtime monitoring: channel blocks on recorded generations, everything delivered recomputed from the recorded paths",
 "C27": "runtime monitoring: the real install scripts run in a scratch copy of Sionna, monitors on the edited files and on the installed models",
 "C28": "runtime monitoring: figures drawn for real, positions and directions read back and compared with the configuration",
 "C29": "runtime monitoring: sessions in several threads with pauses injected at random lines, per-thread trace oracle and differential against the same session alone",
 "C30": "runtime monitoring: soak sessions with monitors on held and live objects, work, traces and stationarity",
 "C31": "runtime monitoring: differential monitors over all ways of writing a call, reported configuration compared with the given one",
 "C25": "runtime monitoring: ensemble power monitor against the exact expected power",
}
NOTE = "sampled executions; see evidence/{}.json for what the monitors observed"
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick",
                       "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": TECH[i], "level": "exploration",
                       "level_note": NOTE.format(i)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
