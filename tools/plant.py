#!/usr/bin/env python3
"""plant.py SPEC.py [ids] : builds seeded bugs in scratch copies of /repo, confirms them and writes seeded/<id>/.
SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], pkg, demo, needs, breaks)].
--check also runs the check of the property against the patched copy."""
import sys, os, json, subprocess, shutil, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
DEMO = '''#!/bin/bash
# runs the demonstration test inside package %(pkg)s of the repository in the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
cp "$d/demo_test.go.txt" "$t/zz_demo_test.go"
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$t/zz_demo_test.go" > "$t/ov.json"
timeout 120 go test -vet=off -count=1 -timeout 60s -overlay "$t/ov.json" -run 'TestZzDemo' "./%(pkg)s"
'''
def run(cmd, cwd, quiet=True, **k):
    r = subprocess.run(cmd, cwd=cwd, env=k.pop("env", ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return r.returncode, r.stdout
def samples(w):
    rc, o = run(["go", "build", "-o", w + "/.gr", "./examples/grammar/grammar.go"], w)
    if rc: return o
    bad = ""
    d = w + "/examples/grammar"
    for s in sorted(os.listdir(d + "/samples")):
        for kind in ("valid", "invalid"):
            p = f"samples/{s}/{kind}"
            if not os.path.isdir(d + "/" + p): continue
            for f in sorted(os.listdir(d + "/" + p)):
                a = (["-m"] if f.endswith(".txt") else []) + (["-e"] if kind == "invalid" else [])
                rc, o = run([w + "/.gr", *a, f"samples/{s}/.grammar", f"{p}/{f}"], d, timeout=60)
                if rc: bad += f"{p}/{f}: {o[-200:]}\n"
    os.remove(w + "/.gr")
    return bad
def main():
    spec = sys.argv[1]; ids = [a for a in sys.argv[2:] if not a.startswith("-")]; check = "--check" in sys.argv
    bugs = runpy.run_path(spec)["BUGS"]
    for b in bugs:
        if ids and b["id"] not in ids: continue
        w = tempfile.mkdtemp(prefix="plant")
        try:
            repo = w + "/repo"
            run(["cp", "-a", "/repo", repo], "/"); run(["git", "checkout", "-q", "--", "."], repo)
            sd = w + "/seed"; os.mkdir(sd)
            open(sd + "/demo.sh", "w").write(DEMO % b); os.chmod(sd + "/demo.sh", 0o755)
            open(sd + "/demo_test.go.txt", "w").write(b["demo"].lstrip())
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
            rc, o = run([sd + "/demo.sh"], repo)
            if rc: print(b["id"], "DEMO FAILS ON CLEAN TREE\n", o[-1500:]); continue
            ok = True
            for f, old, new in b["edits"]:
                s = open(repo + "/" + f).read()
                if s.count(old) != 1: print(b["id"], "EDIT", f, "matches", s.count(old)); ok = False; break
                open(repo + "/" + f, "w").write(s.replace(old, new))
            if not ok: continue
            _, diff = run(["git", "diff"], repo)
            open(sd + "/patch.diff", "w").write(diff)
            rc, o = run(["go", "build", "./..."], repo)
            if rc: print(b["id"], "BUILD\n", o); continue
            rc, o = run(["go", "test", "-vet=off", "-count=1", "./..."], repo)
            if rc: print(b["id"], "TESTS CATCH IT\n", "\n".join(l for l in o.splitlines() if "FAIL" in l)[:800]); continue
            s = samples(repo)
            if s: print(b["id"], "SAMPLES CATCH IT\n", s[:500]); continue
            rc, o = run([sd + "/demo.sh"], repo)
            if rc == 0: print(b["id"], "DEMO PASSES WITH THE PATCH"); continue
            dst = V + "/seeded/" + b["id"]
            shutil.rmtree(dst, ignore_errors=True); shutil.copytree(sd, dst)
            res = ""
            if check:
                rc, o = run([V + "/check.sh", b["prop"]], V, env=dict(ENV, REPO=repo))
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                res = f" check exit {rc} {v[:1]}" + ("" if rc in (0, 1) else o[-500:])
            print(b["id"], "kept" + res, flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)
main()
