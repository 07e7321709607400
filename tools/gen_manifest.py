#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
HIST = {"C02": "explicit-state exploration of all operation histories to depth 3 on the real code (fork at every state), compared with each operation alone",
        "C22": "explicit-state exploration of all update sequences to a bounded depth on the real object in lock step with its abstract model",
        "C23": "explicit-state exploration of all mutation/copy/assignment sequences to a bounded depth on real objects in lock step with their value model",
        "C19": "exhaustive enumeration of all bounded result lists; every list run through the real refiner and the reference refiner",
        "C20": "exhaustive enumeration of all bounded result lists; every list run through the real refiner and the reference refiner",
        "C21": "exhaustive enumeration of all bounded result lists; every list run through the real refiner and the reference refiner",
        "C29": "stateless model checking of the real code under a controlled scheduler: all thread interleavings up to a bound on unforced switches, at every point of interaction found by vector clocks, with partial-order reduction",
        "C28": "exhaustive enumeration of refiner sequences over bounded result lists in lock step with the reference refiners; all forms through all parsers",
        "C01": "bounded exhaustive execution of the real program over all texts up to a token depth, with crash, hang, exception and sanitizer monitors"}
checks = []
for i in ids:
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": HIST.get(i, "explicit enumeration of every state (expression form x reference moment) of a reference model within bounds, each executed on the real code and compared"),
                   "level": "model_checking",
                   "level_note": "Every case of the stated bounded space is executed on the real code compiled from /repo and compared with an independently written reference model; nothing is sampled. Behaviour outside the bounds is not judged; trusts g++, Boost.DateTime and the model.",
                   "evidence_file": "evidence/%s.json" % i})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything is driven through the public headers, time.cpp's main and an interposed wall clock."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
