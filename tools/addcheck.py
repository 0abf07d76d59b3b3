#!/usr/bin/env python3
"""addcheck.py ID technique note: adds a row to checks.json and regenerates MANIFEST.json."""
import json, subprocess, sys
p="/verif/tools/checks.json"; d=json.load(open(p))
i,t,n=sys.argv[1:4]
d[i]=dict(na=n) if t=="na" else dict(technique=t,note=n)
json.dump(d,open(p,"w"),indent=1); open(p,"a").write("\n")
subprocess.check_call(["python3","/verif/tools/gen_manifest.py"])
