#!/usr/bin/env python3
"""tools/catch.json from trybugs logs given as arguments (later ones win)."""
import sys, re, json
try: c = json.load(open('/verif/tools/catch.json'))
except FileNotFoundError: c = {}
for f in sys.argv[1:]:
    cur = None
    for l in open(f):
        m = re.match(r'(c\d\d-\S+) (C\d\d) rc=(\d)', l)
        if m:
            cur = m.group(1); c[cur] = 'missed'
        m = re.search(r'replays/C\d\d/(h_\w+)-\d+\.bin', l)
        if m and cur: c[cur] = '`%s`' % m.group(1)[2:]
import os
c = {k: v for k, v in sorted(c.items()) if os.path.isdir('/verif/seeded/' + k)}
json.dump(c, open('/verif/tools/catch.json', 'w'), indent=0)
print(len(c), [k for k in os.listdir('/verif/seeded') if k not in c], [k for k in c if c[k] == 'missed'])
