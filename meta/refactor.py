#!/usr/bin/env python3
"""refactor.py SPEC.py [id...]: applies behaviour-preserving edits to a scratch copy and runs the checks, which must stay quiet.
A spec defines S: dicts with id, edits [(file, old, new)], optional props (default: all), optional all (replace every occurrence)."""
import os, subprocess, sys, concurrent.futures as cf, shutil, tempfile
def sh(cmd, cwd=None):
    r = subprocess.run(["bash","-c",cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1200)
    return r.returncode, r.stdout
here=os.path.dirname(os.path.abspath(__file__)); env=". %s/../env.sh; " % here
os.makedirs("/tmp/an", exist_ok=True)
rc,o=sh(env+"cd %s/../analyzer && go build -o /tmp/an/x ." % here); assert rc==0,o
allprops=sh("/tmp/an/x -list")[1].split()
def one(s):
    w=tempfile.mkdtemp(prefix="rf.",dir="/tmp"); r=w+"/r"
    sh("cp -a /repo "+r)
    out=[]
    try:
        rt=False; root=False
        for f,old,new in s["edits"]:
            p=os.path.join(r,f)
            t=open(p).read() if os.path.exists(p) else ""
            if old=="": t=t+new
            else:
                n=t.count(old)
                if n==0 or (n>1 and not s.get("all")): return s["id"],["BAD edit %s x%d: %r"%(f,n,old[:60])]
                t=t.replace(old,new)
            open(p,"w").write(t)
            if f.startswith("runtime/"): rt=True
            else: root=True
        b,bo=sh(env+"gofmt -l $(git diff --name-only); cd %s; "%r+("(cd runtime && go build ./core/... ./functab ./internal/... ./mock ./tls ./trace ./trap) && " if rt else "")+("go vet ./instrument/... ./support/... 2>&1 | grep -v '^#' | grep -c undefined; true && " if root else "")+"true",r)
        if b!=0: return s["id"],["BAD build "+bo[-300:]]
        if bo.strip() and rt: out.append("note fmt/build: "+bo.strip()[-200:])
        ps=s.get("props") or (sys.argv_props if hasattr(sys,"argv_props") else allprops)
        shutil.copy(here+"/../known_findings.txt",w)
        for p in ps:
            rc,o=sh("/tmp/an/x -property %s -repo %s -verif %s"%(p,r,w))
            if rc!=0: out.append("ALARM %s rc=%d\n   "%(p,rc)+"\n   ".join([l[:200] for l in o.split("\n") if ": [" in l][:4]))
        return s["id"],out
    finally: sh("rm -rf "+w)
ns={}; exec(compile(open(sys.argv[1]).read(),sys.argv[1],"exec"),ns)
only=set(a for a in sys.argv[2:] if not a.startswith("-p")); pp=[a[2:] for a in sys.argv[2:] if a.startswith("-p")]
if pp: sys.argv_props=pp
todo=[s for s in ns["S"] if not only or s["id"] in only]
with cf.ThreadPoolExecutor(4) as ex:
    for i,o in ex.map(one,todo): print(("quiet " if not [x for x in o if not x.startswith("note")] else "ALARM ")+i, *o, sep="\n  " if o else " ", flush=True)
