#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py (keeps the two in step)."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
import props

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": props.CHECKS, "not_applicable": props.NA,
     "notes": "No hooks in /repo: every monitor sits at an interface of the system (ports, event logs, command traces, telemetry files) or in a harness of /verif compiled against /repo's sources."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(m, s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props.PROPS:
        jsonschema.validate(p, s)
    print("valid: %d properties, %d checks" % (len(props.PROPS), len(props.CHECKS)))
except ImportError:
    print("written (jsonschema not available)")
