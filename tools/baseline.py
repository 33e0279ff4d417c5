#!/usr/bin/env python3
"""baseline.py OUT.json: are all stable tests of /opt/vp/BASELINE.json among the passed ones?"""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
miss = [t for t in b['stable'] if t not in set(o['passed'])]
print("all", len(b['stable']), "stable tests pass" if not miss else "MISSING %s" % miss)
sys.exit(1 if miss else 0)
