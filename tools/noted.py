#!/usr/bin/env python3
"""noted.py PROPERTY "what failed": records the last commit of /repo as the fix of a finding."""
import json,subprocess,sys,os
fn=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.json')
k=json.load(open(fn))
h=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h'],text=True).strip()
k['fixed'].append(f"fixed: property={sys.argv[1]} {h} {sys.argv[2]}")
json.dump(k,open(fn,'w'),indent=1)
