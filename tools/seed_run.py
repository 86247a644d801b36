import sys, os, json, subprocess, time
sys.path.insert(0,"/tmp/seed")
from lib import git, SEED
base=json.load(open("/opt/vp/BASELINE.json"))
def stable():
    b=base
    for k in ("stable","passed","tests","pass"):
        if isinstance(b,dict) and k in b: return set(b[k])
    return set(b)
STABLE=stable()
def sh(c,t=1200): 
    p=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,cwd="/repo"); return p.returncode,p.stdout
ids=sys.argv[1:] or sorted(os.listdir(SEED))
tests = not os.environ.get("NOTEST")
for i in ids:
    d=SEED+"/"+i; m=json.load(open(d+"/meta.json"))
    assert git("status","--porcelain").stdout==""
    rc0,o0=sh(d+"/demo.sh")
    r=git("apply",d+"/patch.diff")
    if r.returncode: print(i,"APPLY FAIL",r.stdout); continue
    try:
        rc1,o1=sh(d+"/demo.sh")
        miss="-"
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seed/out.json")
            o=json.load(open("/tmp/seed/out.json"))
            ps=set(o.get("passed",o.get("pass",[])))
            miss=sorted(STABLE-ps)
        t=time.time()
        props=os.environ.get("CHECK",m["property"]).split()
        res=[]
        for p in props:
            rc,oc=sh("cd /verif && VERIF_SEED=%s python3 verif.py check %s"%(os.environ.get("VERIF_SEED","1"),p))
            res.append((p,rc,"VIOLATION property="+p in oc))
            open("/tmp/seed/%s.%s.log"%(i,p),"w").write(oc)
    finally:
        git("checkout","--",".")
    print(i,"demo clean",rc0,"demo patched",rc1,"tests missing",miss if miss=="-" else (len(miss),miss[:3]),"check",res,"%.0fs"%(time.time()-t),flush=True)
    if rc0: print(o0[-800:])
