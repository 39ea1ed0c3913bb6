#!/usr/bin/env python3
"""rewrites the "fixed" list of known_findings.json from /repo's fix: commits and tools/fixed_map.txt"""
import json,os,subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo=os.environ.get("MK_REPO","/repo")
m=dict(l.split() for l in open(root+"/tools/fixed_map.txt") if l.strip())
out=[]
for l in subprocess.run(["git","-C",repo,"log","--reverse","--format=%h %s","20b7be9.."],capture_output=True,text=True,check=True).stdout.splitlines():
    h,s=l.split(" ",1)
    if s.startswith("fix:"):
        out.append("fixed: property=%s %s %s"%(m[h],h,s[5:]))
k=json.load(open(root+"/known_findings.json"))
k["fixed"]=out
json.dump(k,open(root+"/known_findings.json","w"),indent=1)
open(root+"/known_findings.json","a").write("\n")
print(len(out))
