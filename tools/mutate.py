#!/usr/bin/env python3
"""Mutation campaign in scratch copies: tools/mutate.py [--slots N] [--all] [--tests] [id-prefix ...]
Applies each mutant to a copy of /repo, builds a copy of the simulator against it, runs the checks of
its property (and 'also'; --all: every property) and prints which caught it."""
import sys, os, subprocess, shutil, json, threading, queue, time
here=os.path.dirname(os.path.abspath(__file__)); verif=os.path.dirname(here)
sys.path.insert(0,here)
import importlib
args=sys.argv[1:]
slots=2; after=None; allp=False; tests=False; sel=[]; budget=None; mods="mutants"; base="/tmp/mut"
i=0
while i<len(args):
    if args[i]=="--slots": slots=int(args[i+1]); i+=1
    elif args[i]=="--all": allp=True
    elif args[i]=="--secs": budget=args[i+1]; i+=1
    elif args[i]=="--after": after=args[i+1]; i+=1
    elif args[i]=="--mods": mods=args[i+1]; i+=1
    elif args[i]=="--base": base=args[i+1]; i+=1
    elif args[i]=="--tests": tests=True
    else: sel.append(args[i])
    i+=1
mutants=importlib.import_module(mods)
L=[m for m in mutants.M if not sel or any(m["id"].startswith(s) for s in sel)]
env=dict(os.environ,RUSTUP_TOOLCHAIN="1.71.1",CARGO_NET_OFFLINE="true",CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS","CARGO_TARGET_DIR"): env.pop(k,None)
TG="x86_64-unknown-linux-gnu"
FL="-Zsanitizer=thread -Clinker={d}/sim/cc-wrapper -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0"
tenv=dict(env,CARGO_INCREMENTAL="1",CARGO_PROFILE_DEV_DEBUG="line-tables-only",CARGO_PROFILE_DEV_OPT_LEVEL="2")
def sh(c,cwd,e=env,t=1200):
    try:
        p=subprocess.run(c,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors="replace")
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as x:
        return 124,(x.stdout or b"").decode(errors="replace") if isinstance(x.stdout,bytes) else (x.stdout or "")
def prep(n):
    d=f"{base}/s{n}"
    os.makedirs(d,exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {d}/repo/ 2>/dev/null || (rm -rf {d}/repo/src && mkdir -p {d}/repo && cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C {d}/repo)","/")
    sh(f"mkdir -p {d}/sim && cp {verif}/sim/Cargo.toml {verif}/sim/Cargo.lock {d}/sim/ && rm -rf {d}/sim/src && cp -a {verif}/sim/src {d}/sim/ && cp -a {verif}/sim/build.rs {verif}/sim/cc-wrapper {d}/sim/; sed -i 's#path = \"/repo\"#path = \"../repo\"#' {d}/sim/Cargo.toml","/")
    if not os.path.exists(f"{d}/sim/target") and os.path.exists(f"{verif}/sim/target"):
        sh(f"cp -a {verif}/sim/target {d}/sim/","/")
    os.makedirs(f"{d}/v",exist_ok=True); shutil.copy(f"{verif}/known_findings.json",f"{d}/v/")
    return d
def apply(m,d):
    if m.get("patch"):
        rc,o=sh(f"patch -p1 -s -i {m['patch']}",f"{d}/repo")
        return o if rc else None
    for e in m["edits"]:
        f,old,new=e[0],e[1],e[2]; nth=e[3] if len(e)>3 else None
        p=f"{d}/repo/{f}"; s=open(p).read(); c=s.count(old)
        if nth=="all": s=s.replace(old,new)
        elif nth is None:
            if c!=1: return f"pattern occurs {c} times in {f}: {old[:60]!r}"
            s=s.replace(old,new)
        else:
            if c<=nth: return f"pattern occurs {c} times in {f}"
            parts=s.split(old); s=old.join(parts[:nth+1])+new+old.join(parts[nth+1:])
        open(p,"w").write(s)
    return None
if after:
    k=[m["id"] for m in L].index(after); L=L[k+1:]
q=queue.Queue(); out=threading.Lock()
for m in L: q.put(m)
IDS=["C%02d"%i for i in range(1,22)]
def work(n):
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        d=prep(n); t0=time.time()
        err=apply(m,d)
        if err: 
            with out: print(f"{m['id']:28} BADPATCH {err}",flush=True)
            continue
        rc,o=sh(f"cargo build --offline --locked --target {TG}",f"{d}/sim",dict(env,RUSTC_BOOTSTRAP="1",RUSTFLAGS=FL.format(d=d)))
        if rc:
            with out: print(f"{m['id']:28} NOBUILD\n"+"\n".join(o.splitlines()[-25:]),flush=True)
            continue
        res=[]
        for p in (IDS if allp else [m["prop"]]+m["also"]):
            rc,o=sh(f"target/{TG}/debug/mtsim check {p} --tier quick --seed 1 --verif {d}/v --minimise 1{' --secs '+budget if budget else ''}",f"{d}/sim",t=900)
            v=[l for l in o.splitlines() if l.startswith("violation") or "VIOLATION" in l or l.startswith("  class")]
            res.append(f"{p}:{'CAUGHT' if rc==1 and 'VIOLATION property='+p in o else 'rc%d'%rc if rc else '-'}")
        ts=""
        if tests:
            os.makedirs(f"{d}/tmp",exist_ok=True)
            rc,o=sh("cargo test --workspace --no-fail-fast --offline -- --include-ignored --test-threads 8",f"{d}/repo",dict(tenv,TMPDIR=f"{d}/tmp"))
            fails=[l for l in o.splitlines() if l.startswith("test ") and "FAILED" in l]
            ts=f" tests:{'pass' if rc==0 else 'FAIL '+' '.join(x.split()[1] for x in fails[:4])}"
        with out: print(f"{m['id']:28} {' '.join(res)}{ts}  ({time.time()-t0:.0f}s)",flush=True)
T=[threading.Thread(target=work,args=(k,)) for k in range(slots)]
[t.start() for t in T]; [t.join() for t in T]
