#!/usr/bin/env python3
"""Development helper: turns an edit of a library header into /verif/seeded/<id>/ and confirms it in a scratch copy.
usage: plant.py ID PROPERTY < spec     spec: JSON {"edits":[[file,old,new],...],"demo":"C++ source","flags":"","needs":"...","breaks":"..."}
"""
import sys, json, os, subprocess, shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID,PROP=sys.argv[1:3]; spec=json.load(sys.stdin)
D=os.path.join(V,"seeded",ID); os.makedirs(D,exist_ok=True)
W="/tmp/plant_"+ID; shutil.rmtree(W,ignore_errors=True)
subprocess.check_call(["git","-C","/repo","worktree","prune"])
subprocess.check_call(["git","clone","-q","/repo",W])
for f,o,n in spec["edits"]:
    p=os.path.join(W,f); s=open(p).read()
    if s.count(o)!=1: print("edit matches %d times in %s: %r"%(s.count(o),f,o[:80])); shutil.rmtree(W); sys.exit(1)
    open(p,"w").write(s.replace(o,n))
open(os.path.join(D,"patch.diff"),"w").write(subprocess.check_output(["git","-C",W,"diff"],text=True))
d=open(os.path.join(D,"patch.diff")).read()
for f in {e[0] for e in spec["edits"]}:
    base=subprocess.run(["git","-C",W,"show","8067df3:"+f],stdout=subprocess.PIPE,text=True).stdout.splitlines()
    bad=[l[1:] for l in d.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in base]
    if bad: print(ID,"WARNING: lines not in the original:",bad)
open(os.path.join(D,"demo.cpp"),"w").write(spec["demo"])
open(os.path.join(D,"demo.sh"),"w").write("""#!/bin/bash
# exit 0: property holds; nonzero: broken. Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 0
trap 'rm -rf -- "$out"' EXIT
g++ -std=c++17 -O1 -g %s -w -I"$PWD" "$here/demo.cpp" -o "$out/demo" -ltbb -lpthread || { echo "demo does not compile"; exit 3; }
timeout 120 "$out/demo"
"""%spec.get("flags","-march=native"))
os.chmod(os.path.join(D,"demo.sh"),0o755)
json.dump(dict(property=PROP,needs=spec["needs"],what_it_breaks=spec["breaks"]),open(os.path.join(D,"meta.json"),"w"),indent=1)
def run(cwd):
    r=subprocess.run(["bash",os.path.join(D,"demo.sh")],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
    return r.returncode,r.stdout[-300:]
a=[run("/repo") for _ in range(3)]; b=[run(W) for _ in range(5)]
ok=all(x[0]==0 for x in a) and all(x[0]!=0 for x in b)
print(ID,"unchanged:",[x[0] for x in a],"patched:",[x[0] for x in b], "" if ok else "**** NOT CONFIRMED "+a[0][1]+b[0][1], "|", b[0][1].strip()[-120:])
shutil.rmtree(W)
