#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYS = ("TLC explores spec/Proxy.tla exhaustively for small constants with the property as an action property; behaviours covering every "
       "transition class plus random long ones are replayed on the real amqpprox binary and TLC decides whether each recording is a "
       "behaviour of the specification. Assumes steps reach quiescence one input at a time, loopback TCP, and the driver's decoding of AMQP/HTTP.")
CHECKS = {p: ("TLA+ specification (Proxy.tla), TLC model checking + TLC trace validation of the real binary", SYS)
          for p in "C03 C04 C05 C06 C07 C10 C11 C12 C15".split()}
exec(open(os.path.join(V, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_more.py")) else None
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 harness/build.py amqpprox",
         checks=[dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                      evidence_file="evidence/%s.json" % p, technique=CHECKS[p][0], level="model_checking", level_note=CHECKS[p][1])
                 for p in ids if p in CHECKS],
         not_applicable=[dict(property=p, reason=NA.get(p, "not built yet: its specification and driver are still to be added")) for p in ids if p not in CHECKS],
         notes="No hooks in /repo are needed. known-findings.txt lists repaired and recorded defects.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
