#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy: patch applies, touches only src/, builds, the stable tests pass,
demo.sh exits 0 without and non-zero with it.  tools/verify_seeded.py [--no-tests] [id-prefix ...]"""
import sys, os, subprocess, json, time
here=os.path.dirname(os.path.abspath(__file__)); verif=os.path.dirname(here)
a=sys.argv[1:]; notests="--no-tests" in a; sel=[x for x in a if not x.startswith("--")]
ids=sorted(d for d in os.listdir(f"{verif}/seeded") if not sel or any(d.startswith(s) for s in sel))
env=dict(os.environ,CARGO_NET_OFFLINE="true",CARGO_TERM_COLOR="never",RUSTUP_TOOLCHAIN="1.71.1",CARGO_INCREMENTAL="1",CARGO_PROFILE_DEV_DEBUG="line-tables-only",CARGO_PROFILE_DEV_OPT_LEVEL="2")
stable=set(json.load(open("/opt/vp/BASELINE.json")).get("stable",[]) if False else [])
W="/tmp/vseed"
def sh(c,cwd=W,t=1200,e=None):
    try:
        p=subprocess.run(c,shell=True,cwd=cwd,env=e or env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors="replace"); return p.returncode,p.stdout
    except subprocess.TimeoutExpired as x: return 124,"timeout"
os.makedirs(W,exist_ok=True); os.makedirs(W+"/tmp",exist_ok=True)
if not os.path.exists(W+"/repo"): sh("cp -a /repo /tmp/vseed/repo","/")
sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD",W+"/repo")
for i in ids:
    sh("git checkout -q -- .",W+"/repo"); t0=time.time(); res=[]
    d=f"{verif}/seeded/{i}"
    rc,o=sh(f"bash {d}/demo.sh",W+"/repo",310,os.environ); res.append(f"clean-demo:{'ok' if rc==0 else 'BAD rc%d '%rc+o[-300:]}")
    rc,o=sh(f"git apply {d}/patch.diff",W+"/repo")
    if rc: print(i,"DOES NOT APPLY",o,flush=True); continue
    t1=time.time(); rc,o=sh(f"bash {d}/demo.sh",W+"/repo",310,os.environ); res.append(f"bug-demo:{'BAD passes' if rc==0 else ('BADBUILD ' if rc==3 else 'ok ')+o.strip().splitlines()[-2][:90] if len(o.strip().splitlines())>1 else 'ok rc%d'%rc} {time.time()-t1:.0f}s")
    if not notests:
        rc,o=sh("cargo test --workspace --no-fail-fast --offline -- --include-ignored --test-threads 8",W+"/repo",1200,dict(env,TMPDIR=W+"/tmp"))
        f=[l.split()[1] for l in o.splitlines() if l.startswith("test ") and "FAILED" in l]
        res.append(f"tests:{'pass' if rc==0 else 'FAIL '+' '.join(f[:5]) if f else 'rc%d'%rc}")
    print(f"{i:44} {' | '.join(res)} ({time.time()-t0:.0f}s)",flush=True)
sh("git checkout -q -- .",W+"/repo")
