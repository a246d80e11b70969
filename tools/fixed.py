#!/usr/bin/env python3
# tools/fixed.py <prop> <commit>...: adds fixed entries to known_findings.json
import json,subprocess,sys
p='/verif/known_findings.json'; a=json.load(open(p))
for h in sys.argv[2:]:
    m=subprocess.check_output(['git','-C','/repo','log','-1','--format=%s',h],text=True).strip()[5:]
    h=subprocess.check_output(['git','-C','/repo','rev-parse','--short=7',h],text=True).strip()
    a.append({"property":sys.argv[1],"id":sys.argv[1]+"-"+h,"status":"fixed","commit":h,"what":f"fixed: property={sys.argv[1]} {h} {m}"})
json.dump(a,open(p,'w'),indent=1); open(p,'a').write('\n')
