#!/usr/bin/env python3
"""Appends to known_findings.txt the fix: commits of /repo that it does not list yet.  usage: mkfixed.py PROP[,PROP] [from-rev]"""
import subprocess, sys, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=os.path.join(V,"known_findings.txt"); t=open(p).read()
for l in reversed(subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()):
    h,s=l.split(" ",1)
    if not s.startswith("fix:") or h in t: continue
    t+="fixed: property=%s %s %s\n"%(sys.argv[1] if len(sys.argv)>1 else "?",h,s[4:].strip())
open(p,"w").write(t)
