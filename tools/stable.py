#!/usr/bin/env python3
"""stable.py T.json: are all stable tests of the baseline among the passed ones?"""
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open(sys.argv[1]))
miss=sorted(b-set(t['passed']))
print("stable tests: %d, missing: %s"%(len(b),miss))
sys.exit(1 if miss else 0)
