#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT [text]: records a repaired defect in known_findings.json."""
import json, subprocess, sys
p="/verif/known_findings.json"; d=json.load(open(p))
prop, c = sys.argv[1:3]
subj=subprocess.check_output(["git","-C","/repo","log","-1","--format=%h %s",c],text=True).strip()
h,t=subj.split(" ",1)
t=sys.argv[3] if len(sys.argv)>3 else t.replace("fix: ","")
d["fixed"].append("fixed: property=%s %s %s"%(prop,h,t))
json.dump(d,open(p,"w"),indent=1); open(p,"a").write("\n")
