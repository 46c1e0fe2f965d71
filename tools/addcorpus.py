#!/usr/bin/env python3
"""addcorpus.py REPLAY.json NAME: keeps the case of a replay file in the regression corpus."""
import json, os, sys
d = json.load(open(sys.argv[1]))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "corpus", d["property"], d["sub"])
os.makedirs(p, exist_ok=True)
json.dump(d["case"], open(os.path.join(p, sys.argv[2] + ".json"), "w"))
