#!/usr/bin/env python3
"""addcheck.py ID NOTE...: notes a check in checks.json."""
import json,sys,os
fn=os.path.join(os.path.dirname(os.path.abspath(__file__)),'checks.json')
c=json.load(open(fn))
a=sys.argv[1:]
for i in range(0,len(a),2): c[a[i]]={"note":a[i+1]}
with open(fn,'w') as f:
    f.write("{"+",\n ".join(json.dumps(k)+": "+json.dumps(c[k]) for k in sorted(c))+"}\n")
