#!/usr/bin/env python3
"""plant.py SEEDS.py : confirm planted changes in a scratch copy and keep them under /verif/seeded.

SEEDS.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=<Go source>, needs, breaks)].
A change is kept when it builds, the repository's tests pass with it, and its demonstration
passes on the unchanged tree and fails with the change.
"""
import json, os, shutil, subprocess, sys, tempfile
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0: the property holds on the demonstrated input
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
d="$(mktemp -d)"
trap 'rm -r -- "$d"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOENV=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
cp "$here"/main.go.txt "$d/main.go"
printf 'module demo\n\ngo 1.12\n\nrequire github.com/ZZMarquis/gm v0.0.0\n\nreplace github.com/ZZMarquis/gm => %s\n' "$repo" > "$d/go.mod"
cd "$d" && go build RACEFLAG-o "$d/demo" . || exit 3
timeout 240 "$d/demo"
'''
PRE = "package main\n"

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)

def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e["PATH"]
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOENV="off", GOWORK="off", GOFLAGS="-buildvcs=false")
    return e

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        scratch = tempfile.mkdtemp(prefix="plant-")
        try:
            repo = os.path.join(scratch, "repo")
            shutil.copytree("/repo", repo)
            for f, old, new in s["edits"]:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    raise SystemExit("%s: %d matches of %r in %s" % (s["id"], t.count(old), old, f))
                open(p, "w").write(t.replace(old, new))
            r = sh(["gofmt", "-l"] + [e[0] for e in s["edits"]], repo, env=env())
            if r.stdout.strip() or r.stderr.strip():
                print("  gofmt:", r.stdout, r.stderr)
            diff = sh(["git", "diff"], repo).stdout
            d = os.path.join(scratch, "seed")
            os.makedirs(d)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            race = s.get("race")
            demo = DEMO.replace("RACEFLAG", "-race " if race else "")
            if race:
                demo = demo.replace("timeout 240", "GORACE=exitcode=66 timeout 240").replace("export HOME", "export CGO_ENABLED=1 HOME")
            open(os.path.join(d, "demo.sh"), "w").write(demo)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "main.go.txt"), "w").write(PRE + s["demo"])
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            r = sh(["go", "build", "./..."], repo, env=env())
            if r.returncode:
                print(s["id"], "DOES NOT BUILD", r.stderr); continue
            r = sh(["go", "test", "-vet=off", "-count=1", "./..."], repo, env=env())
            if r.returncode:
                print(s["id"], "TESTS FAIL", r.stdout[-800:]); continue
            a = sh(["bash", os.path.join(d, "demo.sh")], "/repo", timeout=400)
            b = sh(["bash", os.path.join(d, "demo.sh")], repo, timeout=400)
            if a.returncode != 0 or b.returncode in (0, 3):
                print(s["id"], "DEMO clean=%d patched=%d" % (a.returncode, b.returncode), a.stdout[-800:], a.stderr[-1500:], b.stdout[-300:], b.stderr[-600:]); continue
            dst = os.path.join(SEEDED, s["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            print(s["id"], "kept", "(", b.stdout.strip()[:150], b.stderr.strip()[:150].replace("\n", " "), ")")
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
main()
