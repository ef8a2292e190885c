#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks in props/."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SAMPLE = ("Sampled search: the property held on every generated case (counts and samples in the "
          "evidence file); nothing is proved beyond them. ")
# technique, what is trusted
T = {
 "U01": ("property-based testing: generated path strings, identity and injectivity oracle", "Trusts the path grammar to reach every parser branch."),
 "U02": ("property-based testing: inverse law of join and split over generated URIs", "Trusts posixpath for plain paths."),
 "U03": ("property-based testing: round trip of generated URI components and queries", "Trusts the own assembly of the URI text."),
 "U04": ("property-based testing: derivation chains against a recording backend", "Trusts the recording backend registered with the real registry."),
 "U05": ("property-based testing: component-wise equality oracle over URI pairs and triples", "Components come from a small space so that equal ones occur."),
 "U06": ("property-based testing: drive paths against a component model", "Runs on Linux with sep='\\\\'; no Windows file system is touched."),
 "U07": ("property-based testing: round trip and differential against an RFC 3986 resolver", "Trusts the own resolver (checked against the RFC's examples)."),
 "U08": ("property-based testing: generated parts, defaults and parser tables against a table of defaults; round trip", "Trusts the own table of the schemes' defaults."),
 "U09": ("stateful property-based testing: histories of derivations, changes and operations; every URI and argument compared with its picture after every step", "Pictures are taken through the public attributes."),
 "C01": ("stateful model-based testing with recording factories", "Dictionary model of the registry."),
 "C02": ("stateful model-based testing with failing close calls and ageing", "Age is set through the last_used stamp; a few cases run the real cleaner thread."),
 "C03": ("property-based testing of call forwarding against a recording backend with faults", "Trusts the recording backend registered with the real registry."),
 "C04": ("stateful model-based testing of a plugin backend that implements the primitives on a model", "Model of the file tree; the plugin's primitives run on the same model code."),
 "C05": ("property-based testing with fault injection: generated plugin installations, each imported by a fresh interpreter", "Trusts importlib.metadata to find distributions on PYTHONPATH."),
 "C06": ("property-based testing with fault injection: one call of a backend's primitives or file handles fails; trees, exception, handles and the repeated operation against a reference model", "A fault is an exception of one call; local moves within one device are a single system call."),
 "B01": ("stateful model-based testing, differential between backends and a POSIX model", "The model is validated against the kernel by the local runs."),
 "B02": ("stateful model-based testing on generated link graphs", "The model is validated against the kernel by the local runs."),
 "B03": ("stateful model-based testing biased to invalid operations", "Allowed error kinds come from the model; unclear POSIX cases are left out and counted."),
 "B04": ("model-based testing: generated trees and copies, expected tree from the model", "Model of cp."),
 "B05": ("model-based testing: generated link trees and copies with both link modes", "Model of cp with and without -P."),
 "B06": ("model-based testing: generated trees and moves, expected tree from the model", "Model of mv."),
 "B07": ("model-based testing: generated trees and removals, expected tree from the model", "Model of rm."),
 "B08": ("property-based testing: walks against an independent enumeration", "Model of os.walk."),
 "B09": ("property-based testing: glob against an own matcher", "Own matcher for shell patterns."),
 "B10": ("property-based testing: checksum against hashlib over generated content", "Trusts hashlib."),
 "B11": ("stateful model-based testing of modes and times", "Trusts os.stat; runs as an unprivileged user."),
 "B12": ("model-based testing: transfers between backends with coinciding paths", "One model per backend, every backend compared after every step."),
 "M01": ("differential stateful testing: memory handles against regular files", "Trusts the io module on a real file."),
 "K01": ("stateful and scheduled testing of lock attempts against an owner model", "Schedules are owned by the harness; thread cases have long deadlines."),
 "M02": ("stateful model-based testing of several memory file systems", "One model per address."),
 "M03": ("stateful fault injection with a call-log model", "The callback counts at least once per operation."),
 "M04": ("model-based testing: dump text against a rendering of the model", "The format is pinned to the documented one."),
 "Z01": ("stateful model-based testing of archive histories", "Dictionary of members as model."),
 "Z02": ("stateful testing, archives read back with the standard zip reader", "Trusts zipfile as reader and maker of foreign archives."),
 "Z03": ("model-based testing: copies out of and into generated archives", "Dictionary of members as model."),
 "W01": ("stateful fault injection: nested contexts against a directory stack", "Trusts os.getcwd()."),
 "S01": ("property-based testing of generated histories under generated thread schedules (switches at chosen lines), reference model per thread", "Switches happen between lines of the code under test, not within a line."),
 "W02": ("property-based testing with fault injection on exit paths", "Trusts os calls on scratch files."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "props", i + ".py")):
        t, trust = T[i]
        checks.append(dict(property=i, quick_cmd="%s check.py %s --tier quick" % (PY, i),
                           thorough_cmd="%s check.py %s --tier thorough" % (PY, i),
                           evidence_file="evidence/%s.json" % i, technique=t,
                           level="exploration", level_note=SAMPLE + trust))
    else:
        na.append(dict(property=i, reason="no check yet: planned, see DESIGN.md"))
m = dict(version=1,
         setup_cmd="%s -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import hypothesis\"" % PY,
         checks=checks, not_applicable=na,
         notes="Nothing is built: checks import /repo's working tree in unprivileged scratch processes. No hooks.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
