#!/usr/bin/env python3
"""sweep.py OUT WORKERS SEED MAX FILE ... : small mechanical changes of /repo's files, tried in private copies.

Each change that compiles and passes the repository's tests is put before the checks of the file's
properties, in the quick tier without the design models, until one reports a violation. OUT gets one
JSON line per change; those with "by": null survived and deserve a look (many change nothing).
Nothing here is used by a check.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"cryptobyte": ["C28", "C27", "C26"], "sm2/sm2.go": ["C10", "C14", "C15", "C16", "C09", "C13", "C08", "C12", "C11", "C30"],
         "sm2/keyexchange.go": ["C17", "C18"], "sm3": ["C02", "C01", "C03"], "sm4": ["C05", "C06", "C04"],
         "util": ["C31", "C07", "C30"], "sm2/cert": ["C24", "C21", "C19", "C25", "C23", "C20", "C22", "C30"]}

RUN = r'''
mount --bind $D/repo /repo && mount --bind $D/verif /verif && cd /repo || exit 99
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOENV=off GOWORK=off GOFLAGS="-buildvcs=false"
go build ./... >/dev/null 2>&1 || { echo BUILD; exit 0; }
CGO_ENABLED=0 timeout 60 go test ./... >/tmp/null.$$ 2>&1; rc=$?; rm /tmp/null.$$
[ $rc = 0 ] || { echo TESTS; exit 0; }
cd /verif
for p in $PROPS; do
  VERIF_TRACES_ONLY=1 timeout 400 python3 check.py $p > $D/out 2>&1; rc=$?
  if [ $rc = 1 ]; then echo "BY $p"; exit 0; fi
  if [ $rc != 0 ]; then echo "ODD $p $rc $(tail -c 300 $D/out | tr '\n' ' ')"; exit 0; fi
done
echo SURVIVED
'''

def main():
    out, workers, seed, most = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    muts = []
    for f in sys.argv[5:]:
        r = subprocess.run(["/tmp/mutate", f], cwd="/repo", capture_output=True, text=True)
        muts += [json.loads(l) for l in r.stdout.splitlines()]
    done = set()
    if os.path.exists(out):
        done = {(m["file"], m["id"]) for m in map(json.loads, open(out))}
    random.Random(seed).shuffle(muts)
    muts = [m for m in muts[:most] if (m["file"], m["id"]) not in done]
    lock = threading.Lock()
    recent = {}

    def work():
        d = tempfile.mkdtemp(prefix="sweep-")
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        os.mkdir(d + "/verif")
        for x in os.listdir(ROOT):
            if x not in ("build", "seeded", ".git"):
                (shutil.copytree if os.path.isdir(os.path.join(ROOT, x)) else shutil.copy)(os.path.join(ROOT, x), os.path.join(d, "verif", x))
        os.makedirs(d + "/verif/build/run")
        while True:
            with lock:
                if not muts:
                    break
                m = muts.pop()
            key = next(k for k in ("sm2/sm2.go", "sm2/keyexchange.go", "sm2/cert", "cryptobyte", "sm3", "sm4", "util") if m["file"].startswith(k))
            props = list(PROPS[key])
            near = sorted(((abs(l - m["line"]), p) for (f, l), p in recent.items() if f == m["file"]))[:3]
            for _, p in reversed(near):
                props.remove(p) if p in props else None
                props.insert(0, p)
            path = os.path.join(d, "repo", m["file"])
            src = open(path, "rb").read()
            open(path, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
            r = subprocess.run(["unshare", "-m", "bash", "-c", RUN], env=dict(os.environ, D=d, PROPS=" ".join(props), HOME="/root"),
                               capture_output=True, text=True)
            open(path, "wb").write(src)
            m["res"] = (r.stdout.strip().splitlines() or ["?"])[-1]
            with lock:
                if m["res"].startswith("BY "):
                    recent[(m["file"], m["line"])] = m["res"][3:]
                with open(out, "a") as f:
                    f.write(json.dumps(m) + "\n")
        shutil.rmtree(d)

    ts = [threading.Thread(target=work) for _ in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]

main()
