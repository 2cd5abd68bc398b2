#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]
   check.py --replay DIR
   check.py --setup

Decides one property: builds the driver against /repo's working tree, records
traces of the real code, and lets TLC decide whether every trace is a behaviour
of the specification in spec/. Also model-checks the design-level configurations
of the property, and demonstrates the binding by corrupting recorded results,
which must all be rejected.

Exit 0: held. Exit 1: a VIOLATION line was printed. Exit 2: the machinery failed.
"""
import json, os, re, shutil, subprocess, sys, time, random, threading, glob

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402


class Machinery(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    for k in ("GOROOT", "GOWORK"):
        e.pop(k, None)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOENV="off", GOWORK="off",
             GOFLAGS="-buildvcs=false -mod=mod", CGO_ENABLED="0", GOPATH="/root/go",
             GOCACHE="/root/.cache/go-build")
    return e


def build_java():
    out = os.path.join(BUILD, "java")
    src = sorted(glob.glob(os.path.join(ROOT, "java", "gmo", "*.java")))
    stamp = os.path.join(out, "stamp")
    key = "".join("%s %d %d\n" % (s, os.path.getsize(s), int(os.path.getmtime(s))) for s in src)
    if os.path.exists(stamp) and open(stamp).read() == key:
        return out
    tmp = out + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", tmp] + src, capture_output=True, text=True)
    if r.returncode != 0:
        raise Machinery("javac failed:\n" + r.stderr)
    open(os.path.join(tmp, "stamp"), "w").write(key)
    shutil.rmtree(out, ignore_errors=True)
    try:
        os.rename(tmp, out)
    except OSError:
        return tmp
    return out


def build_go(dst, race=False, yields=False):
    e = goenv()
    if race:
        e["CGO_ENABLED"] = "1"

    def build(*extra):
        return subprocess.run(["go", "build", "-o", dst] + (["-race"] if race else []) + list(extra) + ["."],
                              cwd=os.path.join(ROOT, "harness"), env=e, capture_output=True, text=True)
    if yields:      # copies of /repo's files with a possible switch of goroutines at every statement
        over = dst + ".overlay"
        os.makedirs(over, exist_ok=True)
        r = subprocess.run(["go", "run", ".", "/repo", over], cwd=os.path.join(ROOT, "yields"), env=e, capture_output=True, text=True)
        if r.returncode == 0:
            r = build("-overlay", os.path.join(over, "overlay.json"))
        if r.returncode == 0:
            return
        # something in the sources the rewriter cannot cope with: go on without the extra switches
        print("note: no build with yields: " + r.stderr[-500:], file=sys.stderr)
    r = build()
    if r.returncode != 0:
        raise Machinery("building the driver against /repo failed:\n" + r.stderr)


class Tlc:
    """One TLC run, started immediately; result() waits for it."""

    def __init__(self, work, tag, module, cfg=None, overrides=(), env=None, workers=8, extra=(), timeout=800, heap="6g"):
        self.tag, self.module, self.timeout = tag, module, timeout
        ov = ":".join(["tlc2.overrides.TLCOverrides"] + ["gmo." + o for o in ["TraceOverride"] + list(overrides)])
        meta = os.path.join(work, "meta-" + tag)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-Dtlc2.overrides.TLCOverrides=" + ov,
               "-cp", TLA + ":" + os.path.join(BUILD, "java"), "tlc2.TLC", "-workers", str(2 if os.environ.get("VERIF_TRACES_ONLY") else workers),
               "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final", "-fp", "0"]
        cmd += list(extra) + ["-config", (cfg or module) + ".cfg", module]
        self.log = os.path.join(work, tag + ".tlc.log")
        self.f = open(self.log, "w")
        self.p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=self.f, stderr=subprocess.STDOUT)

    def result(self):
        try:
            rc = self.p.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise Machinery("TLC %s: timeout" % self.tag)
        self.f.close()
        self.out = open(self.log, errors="replace").read()
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", self.out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.rc = rc
        return rc

    def tail(self):
        return self.out[-3000:]


def last_state(out):
    """values of tid and l in the last state TLC printed"""
    t = re.findall(r"/\\ tid = (\d+)", out)
    l = re.findall(r"/\\ l = (\d+)", out)
    return (int(t[-1]), int(l[-1])) if t and l else None


def corrupt(e, fields, rng):
    """flip something in one of the result fields of event e; None if impossible"""
    c = json.loads(json.dumps(e))
    fs = [f for f in fields if f in c and c[f] not in ([], "", None) and not (c.get("out") == "err" and isinstance(c[f], dict))]
    if c.get("res") is False:    # a read that failed says nothing else
        fs = [f for f in fs if f in ("res", "same")]
    rng.shuffle(fs)
    for f in fs:
        v = c[f]
        if isinstance(v, bool):
            c[f] = not v
        elif isinstance(v, int):
            c[f] = v + 1
        elif isinstance(v, str):
            c[f] = "err" if v == "ok" else "ok"
        elif isinstance(v, dict) and "mag" in v:
            if not v["mag"]:
                v["mag"] = [1]
            else:
                v["mag"][-1] ^= 1
                if v["mag"] == [0]:
                    v["mag"] = [2]
        elif isinstance(v, dict) and "x" in v and "y" in v:     # a point
            v["x"]["mag"] = (v["x"]["mag"] or [0])
            v["x"]["mag"][-1] ^= 2
            if v["x"]["mag"] == [0]:
                v["x"]["mag"] = [4]
        elif isinstance(v, list) and v and isinstance(v[0], int):
            i = rng.randrange(len(v))
            v[i] = v[i] ^ (1 << rng.randrange(8))
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            some = [x for x in v if isinstance(x.get("v"), list) and x["v"]]
            if not some:
                continue
            x = rng.choice(some)["v"]
            x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
        else:
            continue
        return c
    return None


def mutants(lines, mut, rng, n):
    """traces cut at an event whose result has been corrupted; all must be rejected"""
    res = []
    idx = list(range(len(lines)))
    rng.shuffle(idx)
    seen = {}
    for i in idx:
        if len(lines[i]) > 400000:
            continue
        tr = json.loads(lines[i])
        cand = [k for k, e in enumerate(tr) if e["op"] in mut]
        if not cand:
            continue
        k = rng.choice(cand)
        op = tr[k]["op"]
        if seen.get(op, 0) >= n // 3 + 1:
            continue
        # OP? : fields the specification determines for the events marked as regular
        c = corrupt(tr[k], list(mut[op]) + (mut.get(op + "?", []) if tr[k].get("full") else []), rng)
        if c is None:
            continue
        seen[op] = seen.get(op, 0) + 1
        res.append(json.dumps(tr[:k] + [c]))
        if len(res) >= n:
            break
    return res


def short(v, n=40):
    if isinstance(v, list):
        if v and all(isinstance(x, int) and 0 <= x < 256 for x in v):
            return "hex:" + bytes(v[:n]).hex() + ("..(%d bytes)" % len(v) if len(v) > n else "")
        return [short(x, n) for x in v[:8]]
    if isinstance(v, dict):
        return {k: short(x, n) for k, x in v.items()}
    return v


building = threading.Lock()


broken = {}     # trace file -> the panic that ended part of its driver


def run_driver(work, tag, driver, seed, tier, gen, race, timeout, yields=False):
    exe = os.path.join(work, "driver" + ("-race" if race else "") + ("-yields" if yields else ""))
    with building:
        if not os.path.exists(exe):
            build_go(exe, race, yields)
    out = os.path.join(work, tag + ".ndjson")
    cmd = [exe, "-seed", str(seed), "-tier", tier, "-out", out]
    if gen:
        cmd += ["-gen", gen]
    e = goenv()
    e["GOTRACEBACK"] = "all"
    if race:
        e["GORACE"] = "halt_on_error=0 exitcode=0 log_path=" + os.path.join(work, "racelog")
    e["TMPDIR"] = work
    try:
        r = subprocess.run(cmd + [driver], cwd=work, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return hung(work, tag, cmd + [driver], e, out)
    if r.returncode == 4:
        # the driver could not work with a result: judge what was recorded, then complain
        broken[out] = r.stderr[-3000:]
    elif r.returncode != 0:
        # A fatal runtime error cannot be recovered in the driver. When its goroutine was inside the
        # code under test it is an observation, recorded as an event no specification allows.
        m = re.search(r"fatal error: (stack overflow|concurrent map [a-z ]+|all goroutines are asleep)", r.stderr)
        if m and "github.com/ZZMarquis/gm/" in r.stderr:
            with open(out, "w") as f:
                f.write(json.dumps([{"op": "Crash", "out": "crash", "what": m.group(1)}]) + "\n")
            open(os.path.join(work, tag + ".crash"), "w").write(r.stderr[:20000])
        else:
            raise Machinery("driver %s failed (%d):\n%s" % (driver, r.returncode, r.stderr[-3000:]))
    if race:
        races = []
        for g in glob.glob(os.path.join(work, "racelog*")):
            txt = open(g, errors="replace").read()
            for blk in re.split(r"={18}\n", txt):
                if "WARNING: DATA RACE" in blk and "github.com/ZZMarquis/gm/" in blk:
                    races.append(blk)
        if races:
            with open(out, "a") as f:
                f.write(json.dumps([{"op": "DataRace", "out": "race", "n": len(races), "report": races[0][:1500]}]) + "\n")
    return out


def hung(work, tag, cmd, e, out):
    """A driver that does not end: see where it is. Inside the code under test that is an observation."""
    p = subprocess.Popen(cmd, cwd=work, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        _, err = p.communicate(timeout=60)
        raise Machinery("driver timeout, not reproduced")
    except subprocess.TimeoutExpired:
        p.send_signal(3)
        _, err = p.communicate()
    busy = [g for g in err.split("\n\n") if re.match(r"goroutine \d+ .*\[(running|runnable)", g.lstrip())]
    if any("github.com/ZZMarquis/gm/" in g for g in busy or [err]):
        with open(out, "w") as f:
            f.write(json.dumps([{"op": "Hang", "out": "hang"}]) + "\n")
        return out
    raise Machinery("driver timeout outside the code under test:\n" + err[-3000:])


def violation(prop, work, lines, tid, l, why, extra=None):
    d = os.path.join(BUILD, "replay", "%s-%d" % (prop, int(time.time())))
    os.makedirs(d, exist_ok=True)
    tr = json.loads(lines[tid - 1])
    open(os.path.join(d, "trace.ndjson"), "w").write(lines[tid - 1].rstrip("\n") + "\n")
    ev = tr[l - 1] if l <= len(tr) else {}
    with open(os.path.join(d, "README"), "w") as f:
        f.write("%s\nEvent %d of the trace is not a behaviour of the specification:\n%s\n\n" % (why, l, json.dumps(short(ev, 4000), indent=1)))
        f.write("Re-validate the recorded trace:  python3 %s --replay %s\n" % (os.path.join(ROOT, "check.py"), d))
        f.write("Regenerate it from the code:     VERIF_SEED=<seed> python3 %s %s\n" % (os.path.join(ROOT, "check.py"), prop))
        json.dump(extra or {}, f)
    json.dump({"prop": prop, "part": extra}, open(os.path.join(d, "meta.json"), "w"))
    print("rejected event: %s" % json.dumps(short(ev))[:1500])
    print("VIOLATION property=%s replay=%s" % (prop, d))


def known_findings(prop):
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(\{.*?\}) (.*)", line)
            if m and m.group(1) == prop:
                res.append((json.loads(m.group(2)), m.group(3)))
    return res


def check(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    work = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    env = {"VERIF_SEED": str(seed), "VERIF_TIER": tier}
    rng = random.Random(seed * 7919 + sum(map(ord, prop)))
    states = trans = 0
    mcinfo, parts, samples = [], [], []
    ntraces = nevents = nmut = 0
    ops = {}
    bad = None
    try:
        build_java()
        budget = 840 if tier == "quick" else 6 * 3600
        # design-level model checking, in the background
        mcs = []
        sweeping = os.environ.get("VERIF_TRACES_ONLY")    # tools/sweep.py: no design models, no corrupted traces
        for m in [] if sweeping else spec.get("mc", []):
            cfg = m.get("thorough_cfg", m.get("cfg")) if tier == "thorough" else m.get("cfg")
            t = (Tlc(work, "mc-" + (cfg or m["module"]), m["module"], cfg, m.get("overrides", ()), env, workers=3, timeout=budget, heap="4g"))
            t.expect = m.get("expect", 0)   # 12: the model is one that must be refuted
            mcs.append(t)
        for k, part in enumerate(spec["parts"]):
            gen = None
            if part.get("gen"):
                g = Tlc(work, "gen%d" % k, part["gen"], None, part.get("gen_overrides", ()), env, workers=1, timeout=budget,
                        extra=part.get("gen_extra", {}).get(tier, ()))
                if g.result() not in (0,):
                    raise Machinery("scenario generation %s failed:\n%s" % (part["gen"], g.tail()))
                states += g.distinct
                trans += g.generated
                gen = os.path.join(work, "gen%d.ndjson" % k)
                with open(gen, "w") as f:
                    n = 0
                    for line in open(g.log):
                        if line.startswith('"'):
                            f.write(json.loads(line) + "\n")
                            n += 1
                if n == 0:
                    raise Machinery("scenario generation %s produced nothing" % part["gen"])
            tr = run_driver(work, "trace%d" % k, part["driver"], seed, tier, gen, part.get("race", False), 300 if tier == "quick" else budget, part.get("yields", False))
            lines = open(tr).read().splitlines()
            if not lines:
                raise Machinery("driver %s recorded nothing" % part["driver"])
            for line in lines:
                for e in json.loads(line):
                    ops[e["op"]] = ops.get(e["op"], 0) + 1
                    nevents += 1
            main = Tlc(work, "trace%d" % k, part["module"], None, part.get("overrides", ()), dict(env, TRACE_FILE=tr), timeout=budget)
            mutrun = None
            mut = part.get("mut", {})
            if mut and not sweeping:
                ms = mutants(lines, mut, rng, 24)
                if ms:
                    mf = os.path.join(work, "mut%d.ndjson" % k)
                    open(mf, "w").write("\n".join(ms) + "\n")
                    # same specification, but reaching the end of a corrupted trace is an error
                    mcfg = os.path.join(SPEC, "TraceMut.cfg")
                    mutrun = Tlc(work, "mut%d" % k, part["module"], "TraceMut", part.get("overrides", ()),
                                 dict(env, TRACE_FILE=mf), workers=2, timeout=budget, heap="3g", extra=("-continue",))
            rc = main.result()
            states += main.distinct
            trans += main.generated
            if rc == 11:
                st = last_state(main.out)
                if not st:
                    raise Machinery("cannot read TLC's rejection:\n" + main.tail())
                bad = (lines, st[0], st[1], part)
                if mutrun:
                    mutrun.p.kill()
                break
            if rc == 0 and tr in broken:
                raise Machinery("driver %s failed:\n%s" % (part["driver"], broken[tr]))
            if rc != 0:
                raise Machinery("TLC %s: exit %d\n%s" % (part["module"], rc, main.tail()))
            ntraces += len(lines)
            weak = 0
            if mutrun:
                rc = mutrun.result()
                # every corrupted trace must be rejected; a few corruptions may happen to say nothing (a key that encrypts
                # no byte), but a specification that accepts more than that does not bind
                weak = len(set(re.findall(r"/\\ tid = (\d+)", mutrun.out)))
                if rc not in (0, 12) or weak * 5 > len(ms):
                    st = last_state(mutrun.out)
                    what = ""
                    if st:
                        what = json.dumps(short(json.loads(ms[st[0] - 1])[-1]))[:2000]
                    raise Machinery("binding: corrupted traces were accepted or not evaluated (exit %d)\n%s\n%s" % (rc, what, mutrun.tail()[-1500:]))
                if weak and os.environ.get("VERIF_KEEP"):
                    print("note: %d of %d corrupted traces accepted" % (weak, len(ms)))
                nmut += len(ms) - weak
            for i in range(min(2, len(lines))):
                samples.append({"driver": part["driver"], "trace": short(json.loads(lines[(i * 97 + 3) % len(lines)])[:4])})
            parts.append({"driver": part["driver"], "module": part["module"], "traces": len(lines),
                          "states": main.distinct, "corrupted_traces_rejected": len(ms) - weak if mutrun else 0})
        for m in mcs:
            if bad:
                m.p.kill()
                continue
            rc = m.result()
            if rc != m.expect:
                raise Machinery("design model %s: exit %d\n%s" % (m.module, rc, m.tail()))
            states += m.distinct
            trans += m.generated
            mcinfo.append({"model": m.tag[3:] + (" (refuted, as it must be)" if m.expect else ""), "states": m.distinct, "transitions": m.generated})
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": trans, "traces_validated_against_impl": ntraces,
                "events": nevents, "events_by_action": ops, "corrupted_traces_rejected": nmut,
                "design_models": mcinfo, "parts": parts, "samples": samples[:4],
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1), "violations": 1 if bad else 0,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if bad:
            lines, tid, l, part = bad
            violation(prop, work, lines, tid, l, "property %s" % prop,
                      {"module": part["module"], "overrides": list(part.get("overrides", ())), "seed": seed, "tier": tier})
            return 1
        print("%s held: %d traces (%d events) of the real code validated, %d corrupted traces rejected, %d states, %.1fs"
              % (prop, ntraces, nevents, nmut, states, time.time() - t0))
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


def replay(d):
    meta = json.load(open(os.path.join(d, "meta.json")))["part"]
    build_java()
    work = os.path.join(BUILD, "run", "replay-%d" % os.getpid())
    os.makedirs(work)
    t = Tlc(work, "replay", meta["module"], None, meta["overrides"],
            {"TRACE_FILE": os.path.join(os.path.abspath(d), "trace.ndjson"), "VERIF_SEED": str(meta["seed"]), "VERIF_TIER": meta["tier"]})
    rc = t.result()
    print(t.out[-6000:])
    shutil.rmtree(work, ignore_errors=True)
    return 1 if rc == 11 else rc


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            build_java()
            os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
            build_go(os.path.join(BUILD, "setup-driver"))
            os.remove(os.path.join(BUILD, "setup-driver"))
            return 0
        if a and a[0] == "--replay":
            return replay(a[1])
        prop = a[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        if "--seed" in a:
            seed = int(a[a.index("--seed") + 1])
        return check(prop, tier, seed)
    except Machinery as e:
        print("MACHINERY ERROR: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
