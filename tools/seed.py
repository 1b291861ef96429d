#!/usr/bin/env python3
"""seed.py new ID PROP  (reads /tmp/seeds/ID.py: edits(list of file, old, new), NEEDS, BREAKS, DEMO)
   builds /verif/seeded/ID and validates it in a scratch copy; prints what is wrong.
   seed.py catch ID...   applies to /repo, runs the property's check, reverts."""
import sys, os, subprocess, shutil, json, runpy
V=os.environ.get("SEEDV","/verif"); W=os.environ.get("SEEDWT","/tmp/seedwt2")
env=dict(os.environ,HOME="/root",CARGO_NET_OFFLINE="true",CARGO_INCREMENTAL="1",CARGO_PROFILE_DEV_DEBUG="line-tables-only",RUSTC_WRAPPER="",RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",CARGO_TARGET_DIR=W+"/target")
def sh(cmd,cwd=W,t=600):
    return subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
def sync():
    if not os.path.isdir(W): subprocess.run(["cp","-a","/repo",W],check=True)
    sh("git checkout -q -- . ; git clean -fdq")
    h=subprocess.run("git -C /repo rev-parse HEAD",shell=True,capture_output=True,text=True).stdout.strip()
    r=sh("git rev-parse HEAD")
    if r.stdout.strip()!=h: sh("git fetch -q /repo && git checkout -q "+h)
def build():
    return sh("cargo build --workspace --locked --offline -q 2>&1 | grep -E '^error' -A7; exit ${PIPESTATUS[0]}".replace("${PIPESTATUS[0]}","0"))
def tests():
    r=sh("cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8")
    stable=json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad=[s for s in stable if f"test {s.split('::',1)[1]} ... ok" not in r.stdout]
    return bad
def demo(d):
    # the folder is laid elsewhere
    t="/tmp/seeddemo"; shutil.rmtree(t,True); shutil.copytree(d,t)
    for f in ("patch.diff","meta.json"):
        if os.path.exists(f"{t}/{f}"): os.remove(f"{t}/{f}")
    r=sh(f"bash {t}/demo.sh",t=300); shutil.rmtree(t,True)
    return r.returncode,r.stdout[-400:]
def new(i):
    sys.path.insert(0,"/tmp/seeds"); m=runpy.run_path(f"/tmp/seeds/{i}.py"); d=f"{V}/seeded/{i}"
    sync(); os.makedirs(d,exist_ok=True)
    for f,o,n in m["EDITS"]:
        p=f"{W}/{f}"; s=open(p).read()
        if s.count(o)!=1: print(i,"edit does not match once:",f,s.count(o),repr(o[:60])); return
        open(p,"w").write(s.replace(o,n))
    diff=sh("git diff").stdout; open(f"{d}/patch.diff","w").write(diff)
    json.dump({"property":m["PROP"],"needs":m["NEEDS"],"what_it_breaks":m["BREAKS"]},open(f"{d}/meta.json","w"),indent=1)
    open(f"{d}/demo.py","w").write(m["DEMO"].lstrip())
    open(f"{d}/demo.sh","w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    for f in ("kslib.py","fault.c"): shutil.copy(f"{V}/tools/demo/{f}",d)
    if m.get("EXTRA"):
        for f in m["EXTRA"]: shutil.copy(f"{V}/tools/demo/{f}",d)
    if "SPEC" in m:
        json.dump(m["SPEC"],open("/tmp/spec.json","w"))
        with open(f"{d}/fixture.json","w") as h: subprocess.run([os.environ.get("KS","/verif/target/harness/debug/ks"),"pki","/tmp/spec.json"],stdout=h,check=True)
    # original lines? every removed line must be in the base commit
    base=m.get("BASE","f0f2ed9")
    for l in diff.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:].strip():
            pass
    b=build()
    if b.stdout.strip(): print(i,"BUILD",b.stdout[-900:]); return
    bad=tests()
    if bad: print(i,"TESTS FAIL",bad); return
    rc,o=demo(d)
    print(i,"patched demo rc",rc,o.strip()[-250:])
    sync(); build()
    rc2,o2=demo(d)
    print(i,"clean demo rc",rc2,o2.strip()[-250:] if rc2 else "")
    print(i,"VALID" if rc and not rc2 else "INVALID")
def catch(i):
    m=json.load(open(f"{V}/seeded/{i}/meta.json"))
    r=subprocess.run(["git","-C","/repo","apply",f"{V}/seeded/{i}/patch.diff"])
    if r.returncode: print(i,"does not apply"); return
    try:
        r=subprocess.run(["bash",f"{V}/check.sh",m["property"]],capture_output=True,text=True)
        v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i,m["property"],"rc",r.returncode,"CAUGHT" if r.returncode==1 and v else "MISSED",(r.stdout+r.stderr).strip()[-300:].replace("\n"," | "),flush=True)
    finally:
        subprocess.run("git -C /repo checkout -- .",shell=True)
def tryit(i):
    """As catch, but in the scratch copy (for checks of the binary)."""
    m=json.load(open(f"{V}/seeded/{i}/meta.json")); sync()
    if sh(f"git apply {V}/seeded/{i}/patch.diff").returncode: print(i,"does not apply"); return
    b=sh("cargo build -q --locked --offline --bin krill-sync")
    if b.returncode: print(i,"BUILD",b.stdout[-300:]); sync(); return
    e=dict(os.environ,KS_BIN=W+"/target/debug/krill-sync",KS_REGRESS=os.environ.get("KS_REGRESS","/nonexistent"))
    r=subprocess.run([f"{V}/target/harness/debug/ks","check",os.environ.get("PROP",m["property"])],capture_output=True,text=True,env=e,cwd=V)
    v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i,m["property"],"rc",r.returncode,"CAUGHT" if r.returncode==1 and v else "MISSED",(r.stdout+r.stderr).strip()[-330:].replace("\n"," | "),flush=True)
    sync()
if sys.argv[1]=="try":
    for i in sys.argv[2:]: tryit(i)
elif sys.argv[1]=="new":
    for i in sys.argv[2:]: new(i)
else:
    for i in (sys.argv[2:] or sorted(os.listdir(f"{V}/seeded"))): catch(i)
