#!/usr/bin/env python3
"""records the last commit of /repo as a fix: fixed.py C04 'what failed'"""
import json,subprocess,sys
p='/verif/known_findings.json'
d=json.load(open(p))
c=subprocess.check_output(['git','-C','/repo','rev-parse','--short','HEAD'],text=True).strip()
d['fixed'].append(f"fixed: property={sys.argv[1]} {c} {sys.argv[2]}")
json.dump(d,open(p,'w'),indent=1)
