import os, subprocess, json, sys, shutil
SEED="/verif/seeded"
def git(*a): return subprocess.run(["git","-C","/repo"]+list(a),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
def make(id, prop, edits, needs, breaks, demo, flags="-O1", cxx="g++"):
    d=os.path.join(SEED,id); os.makedirs(d,exist_ok=True)
    assert git("status","--porcelain").stdout=="" , git("status","--porcelain").stdout
    try:
        for (f,old,new,*cnt) in edits:
            p="/repo/include/libflatarray/"+f if not f.startswith("/") else f
            s=open(p).read()
            n=s.count(old); want=cnt[0] if cnt else 1
            assert n==want or want==0 and n>0,(id,f,n,old)
            open(p,"w").write(s.replace(old,new))
        diff=git("diff").stdout
    finally:
        git("checkout","--",".")
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.cpp","w").write(demo)
    open(d+"/demo.sh","w").write('''#!/bin/bash
# exit 0: property holds; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/libflatarray" && echo '#define LIBFLATARRAY_WITH_CPP14' > "$tmp/libflatarray/config.h"
%s -std=c++14 %s -I"$tmp" -I/repo/include "$here/demo.cpp" -o "$tmp/demo" || exit 2
timeout 120 "$tmp/demo"
''' % (cxx,flags))
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
