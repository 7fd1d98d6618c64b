#!/usr/bin/env python3
"""seed.py SPEC.py: makes /verif/seeded/<id>/ from a spec, and confirms it in a scratch copy.
A spec defines S, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], and
demo (go test source for the runtime demos) or files {name: text} with an own demo.sh."""
import json, os, subprocess, sys, shutil
W = "/tmp/seedwork"
LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "demolib")
def sh(cmd, cwd=None, t=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout
def main(spec, only):
    ns = {}; exec(compile(open(spec).read(), spec, "exec"), ns)
    for s in ns["S"]:
        if only and s["id"] not in only: continue
        d = "/verif/seeded/" + s["id"]
        sh("rm -rf %s; rm -rf %s; cp -a /repo %s" % (W, d, W))
        os.makedirs(d)
        for f, old, new in s["edits"]:
            p = os.path.join(W, f); t = open(p).read()
            assert t.count(old) >= 1, (s["id"], f, "not found", old)
            assert t.count(old) == 1, (s["id"], f, "not unique", t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        rc, diff = sh("git diff", W)
        open(d + "/patch.diff", "w").write(diff)
        if "demo" in s:
            for n in ("fake_link.go.txt", "common_test.go.txt"): shutil.copy(os.path.join(LIB, n), d)
            open(d + "/demo_test.go.txt", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write(open(os.path.join(LIB, "demo.sh.txt")).read().replace("@RACE@", "-race" if s.get("race") else ""))
        for n, t in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b, bo = sh("sed 's,/repo,/tmp/seedwork,' /opt/vp/env.sh > /tmp/seedenv.sh; . /tmp/seedenv.sh; cd /tmp/seedwork && go build $(root_pkgs '{{if .GoFiles}}{{.ImportPath}}{{end}}') && (cd /tmp/seedwork/runtime && go build ./core/... ./functab ./internal/... ./mock ./tls ./trace ./trap) && gofmt -l $(git diff --name-only)", W)
        rcp, op = sh("bash %s/demo.sh" % d, W)
        sh("git checkout -q -- .", W)
        rcc, oc = sh("bash %s/demo.sh" % d, W)
        ok = b == 0 and rcc == 0 and rcp != 0
        print(("ok  " if ok else "BAD ") + s["id"], "build", b, "clean", rcc, "patched", rcp)
        if not ok: print(bo[-300:], "\nCLEAN:", oc[-500:], "\nPATCHED:", op[-300:])
        elif os.environ.get("V"): print(op[-600:])
main(sys.argv[1], set(sys.argv[2:]))
