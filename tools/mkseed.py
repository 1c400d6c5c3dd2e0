#!/usr/bin/env python3
"""mkseed.py SPEC.json: makes /verif/seeded/<id>/ from {id, property, needs, what_it_breaks, edits:[[file, old, new]...], demo} using the scratch copy /tmp/sc."""
import json, os, subprocess, sys
def make(id, property, needs, what, edits, demo, files=None):
    R="/tmp/sc"; S=f"/verif/seeded/{id}"
    subprocess.run("git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD", shell=True, cwd=R, check=True)
    for f, old, new in edits:
        t=open(f"{R}/{f}").read()
        assert t.count(old)==1, (id, f, t.count(old), old)
        open(f"{R}/{f}","w").write(t.replace(old,new))
    d=subprocess.run(["git","diff"],cwd=R,stdout=subprocess.PIPE,text=True).stdout
    os.makedirs(S,exist_ok=True)
    open(f"{S}/patch.diff","w").write(d)
    open(f"{S}/demo.sh","w").write(demo)
    for n,t in (files or {}).items():
        os.makedirs(os.path.dirname(f"{S}/{n}"),exist_ok=True); open(f"{S}/{n}","w").write(t)
    json.dump(dict(property=property,needs=needs,what_it_breaks=what),open(f"{S}/meta.json","w"),indent=1)
    subprocess.run("git checkout -q -f .",shell=True,cwd=R)
    print("made",id)
