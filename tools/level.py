#!/usr/bin/env python3
"""usage: level.py ID level technique note"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'levels.json')
d = json.load(open(p)); d[sys.argv[1]] = dict(level=sys.argv[2], technique=sys.argv[3], note=sys.argv[4])
json.dump(dict(sorted(d.items())), open(p, 'w'), indent=1); open(p, 'a').write('\n')
