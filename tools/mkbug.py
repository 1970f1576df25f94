"""mk.py id property file old new needs breaks  (demo from stdin)"""
import sys, os, subprocess, json, tempfile
REPO=os.environ.get("MKREPO","/repo")
def mk(id, prop, edits, needs, breaks, demo, extra_src=""):
    d="/verif/seeded/"+id; os.makedirs(d, exist_ok=True)
    orig={}
    try:
        for f,a,b in edits:
            p=REPO+"/"+f; s=open(p).read(); orig.setdefault(p,s)
            assert s.count(a)==1,(id,f,s.count(a),a); open(p,"w").write(s.replace(a,b))
        diff=subprocess.run(["git","-C",REPO,"diff"],capture_output=True,text=True).stdout
    finally:
        for p,s in orig.items(): open(p,"w").write(s)
    open(d+"/patch.diff","w").write(diff)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
    open(d+"/demo.cpp","w").write(demo)
    open(d+"/demo.sh","w").write('''#!/bin/bash
# builds the demonstration against /repo's current sources in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=gnu++17 -DNATIVE -w -I/repo/src -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined "$here/demo.cpp" %s -o "$w/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$w/demo"
''' % " ".join("/repo/src/"+x for x in extra_src.split()))
