#!/usr/bin/env python3
"""plant.py FILE...  -- FILE is a python file defining BUGS = {id: dict(prop, needs, breaks, edits=[(path, old, new)...], demo=rust source or None, sh=shell demo or None)}
Writes /verif/seeded/<id>/ from it (patch against /repo HEAD)."""
import sys, os, subprocess, json, shutil, importlib.util
R="/repo"; S="/verif/seeded"
DEMO='''#!/bin/bash
# exit 0: the property holds here; compiles the library of the current directory and runs demo.rs against it
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
rustc --edition 2021 -A warnings @FLAGS@ --crate-type rlib --crate-name aga8 --cfg 'feature="extern"' -o "$tmp/libaga8.rlib" src/lib.rs || exit 3
rustc --edition 2021 -A warnings @FLAGS@ --extern aga8="$tmp/libaga8.rlib" -o "$tmp/demo" "$here/demo.rs" || exit 3
timeout 200 "$tmp/demo"
'''
def plant(i,b):
    d=f"{S}/{i}"; os.makedirs(d,exist_ok=True)
    w=f"/tmp/plant/{i}"
    shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    subprocess.check_call(f"git -C {R} archive HEAD | tar x -C {w}",shell=True)
    subprocess.check_call("git init -q . && git add -A && git -c user.name=a -c user.email=a@a commit -qm x",shell=True,cwd=w)
    for p,o,n in b["edits"]:
        s=open(f"{w}/{p}").read()
        assert s.count(o)==1,(i,p,s.count(o),o)
        open(f"{w}/{p}","w").write(s.replace(o,n))
    diff=subprocess.check_output(["git","diff"],cwd=w,text=True)
    open(f"{d}/patch.diff","w").write(diff)
    shutil.rmtree(w)
    if b.get("sh"): open(f"{d}/demo.sh","w").write(b["sh"])
    else:
        open(f"{d}/demo.rs","w").write(b["demo"].lstrip())
        open(f"{d}/demo.sh","w").write(DEMO.replace("@FLAGS@",b.get("flags","-O")))
    for k,v in b.get("files",{}).items(): open(f"{d}/{k}","w").write(v)
    os.chmod(f"{d}/demo.sh",0o755)
    json.dump({"property":b["prop"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(f"{d}/meta.json","w"),indent=1)
    print("planted",i)
for f in sys.argv[1:]:
    sp=importlib.util.spec_from_file_location("bugs",f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for i,b in m.BUGS.items(): plant(i,b)
