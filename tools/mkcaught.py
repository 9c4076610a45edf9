#!/usr/bin/env python3
"""tools/caught.json from the output of seedtest.sh (files given)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/tools/caught.json"
d = json.load(open(p)) if os.path.exists(p) else {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d): .*CAUGHT\s+(\S+?):", l)
        if m:
            d[m.group(1)] = "%s/%s" % (m.group(2), m.group(3))
        else:
            m = re.match(r"(\S+) (C\d\d): .*MISSED", l)
            if m:
                d[m.group(1)] = "missed"
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)
