#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts in props_*.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
top = os.path.dirname(here)
props, notes, na = [], {}, []
for m in ("props_e", "props_g", "props_l", "props_a"):
    try:
        mod = __import__(m)
    except ImportError:
        continue
    props += mod.PROPS
    notes.update(getattr(mod, "NOTES", {}))
with open(os.path.join(top, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
DEFAULT = ("explicit-state exhaustive enumeration of a bounded space on the real code, compared with an independent model",
           "Every state of the stated bounded space is executed on the real code rebuilt from the working tree and compared with an independent oracle; beyond the bounds nothing is claimed.")
checks = []
for p in props:
    t, n = notes.get(p["id"], DEFAULT)
    checks.append(dict(property=p["id"], quick_cmd="python3-vt run.py %s quick" % p["id"], thorough_cmd="python3-vt run.py %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=t, level="model_checking", level_note=n))
man = dict(version=1, setup_cmd="python3-vt run.py setup", checks=checks, not_applicable=na,
           notes="No hooks: every check uses the public interface, the libmgen program and the code it generates.")
with open(os.path.join(top, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
