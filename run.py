#!/usr/bin/env python3
"""Runs one property check.

  run.py ID            quick or thorough by VERIF_TIER, seed by VERIF_SEED
  run.py ID --replay F re-runs the shrunk case recorded in replay file F
  run.py ID --build    only builds the check (used by setup.sh)

Exit 0: the property held on every generated case. Exit 1 and a VIOLATION line:
a generated case (or the process, on a generated case) broke it. Exit 2: no
answer (build failure, time or memory limit).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")

def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["HOME"] = "/root"
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=readonly", CGO_ENABLED="1")
    e.pop("GOROOT", None)
    return e

def spec(pid):
    with open(os.path.join(VERIF, "checks.json")) as f:
        return json.load(f)[pid]

def variants(sp):
    """The builds of a check and the variant of each process."""
    vs = sp.get("variants") or [{"procs": sp.get("procs", 8)}]
    return vs, [v for v in range(len(vs)) for _ in range(vs[v]["procs"])]

def build(sp, out, v):
    """Builds the test binary of one check from /repo's working tree."""
    cmd = ["go", "test", "-vet=off", "-c", "-o", out]
    if sp.get("race") or v.get("race"):
        cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
    if v.get("tags"):
        cmd += ["-tags", v["tags"]]
    ov = overlay(sp, os.path.dirname(out))
    if ov:
        cmd += ["-overlay", ov]
    cmd.append("./" + sp["pkg"])
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("ERROR: the check does not build against /repo")
        sys.exit(2)

def overlay(sp, d):
    ov = sp.get("overlay")
    if not ov:
        return None
    p = os.path.join(d, "overlay.json")
    with open(p, "w") as f:
        json.dump({"Replace": {k: os.path.join(VERIF, v) for k, v in ov.items()}}, f)
    return p

def main():
    pid = sys.argv[1]
    sp = spec(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        if sys.argv[2:3] == ["--build"]:
            for v in variants(sp)[0]:
                build(sp, os.path.join(work, "check.test"), v)
            return
        rc = run(pid, sp, tier, seed, replay, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, sp, tier, seed, replay, work, t0):
    if sp.get("native") and not os.path.exists("/repo/consensus/qkchash/native/native_wrap.cxx"):
        # generated, in .gitignore; build.sh makes it the same way
        subprocess.run(["make", "-C", "/repo/consensus/qkchash/native", "all"], env=env(), stdout=subprocess.DEVNULL)
    vs, assign = variants(sp)
    shards = [replay["shard"]] if replay else range(len(assign))
    for v in sorted({assign[i] for i in shards}):
        build(sp, os.path.join(work, "check%d.test" % v), vs[v])
    tbuild = time.time() - t0
    limit = sp.get("limit_s", {}).get(tier, 780 if tier == "quick" else 6 * 3600)
    jobs = []
    for i in shards:
        v = vs[assign[i]]
        binary = os.path.join(work, "check%d.test" % assign[i])
        d = os.path.join(work, "p%d" % i)
        os.makedirs(d)
        e = env()
        e.update(VERIF_SEED=str(replay["seed"] if replay else seed), VERIF_TIER=tier,
                 VERIF_SHARD=str(i),
                 VERIF_STATS=os.path.join(d, "stats"), VERIF_SCRATCH=d, TMPDIR=d,
                 GOMAXPROCS=str(sp.get("gomaxprocs", 2)), GOTRACEBACK="all")
        cmd = [binary, "-test.run", v.get("run", "^Test"), "-test.timeout", "%ds" % limit, "-rapid.shrinktime", "20s"]
        if replay:
            cmd[2] = "^%s$" % replay["test"] if replay.get("test") else v.get("run", "^Test")
            if replay.get("failfile"):
                ff = os.path.join(d, "case.fail")
                open(ff, "w").write(replay["failfile"])
                cmd += ["-rapid.failfile", ff]
        log = open(os.path.join(d, "log"), "wb")
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        jobs.append((i, d, p, log))
    deadline = time.time() + limit + 30
    noanswer = None
    bad = []
    for i, d, p, log in jobs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        log.close()
        text = open(os.path.join(d, "log"), errors="replace").read()
        if rc == 0:
            continue
        if sp.get("oom_is_violation") and "out of memory" in text and "panic: test timed out after" not in text:
            bad.append((i, d, rc, text))
            continue
        if rc is None or "panic: test timed out after" in text or rc in (-9, 137) or "out of memory" in text \
                or "[rapid] only generated" in text or "cannot allocate memory" in text or "no space left on device" in text or "too many open files" in text:
            noanswer = "process %d: time or resource limit (rc=%s)\n%s" % (i, rc, text[-3000:])
            continue
        bad.append((i, d, rc, text))
    agg = aggregate(jobs)
    if bad:
        i, d, rc, text = bad[0]
        rp = write_replay(pid, seed if not replay else replay["seed"], i, d, rc, text)
        print(text if len(text) < 12000 else text[:4000] + "\n...\n" + text[-8000:])
        evidence(pid, sp, tier, seed, agg, t0, tbuild, 1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if noanswer:
        print(noanswer)
        print("ERROR: no answer")
        return 2
    if agg["evaluations"] == 0 and not replay:
        print("ERROR: no case was generated")
        return 2
    if not replay:
        for k in known(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        evidence(pid, sp, tier, seed, agg, t0, tbuild, 0)
    print("property %s held on %d generated cases (%d distinct non-trivial), %.0f s" %
          (pid, agg["evaluations"], agg["distinct"], time.time() - t0))
    for k, v in sorted(agg["labels"].items(), key=lambda kv: -kv[1])[:40]:
        print("   %-50s %d" % (k, v))
    return 0

def known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out

def aggregate(jobs):
    ev, labels, keys, samples, rules, tests = 0, {}, set(), {}, {}, {}
    for i, d, p, log in jobs:
        f = os.path.join(d, "stats")
        if not os.path.exists(f):
            continue
        for line in open(f):
            try:
                s = json.loads(line)
            except ValueError:
                continue
            ev += s["evaluations"]
            tests[s["test"]] = tests.get(s["test"], 0) + s["evaluations"]
            for k, v in (s["labels"] or {}).items():
                k = s["test"] + ": " + k
                labels[k] = labels.get(k, 0) + v
            keys.update(s["nontrivial_keys"] or [])
            samples.setdefault(s["test"], []).extend((s["samples"] or []))
            rules[s["test"]] = s["rule"]
    return dict(evaluations=ev, labels=labels, distinct=len(keys), samples=samples, rules=rules, tests=tests)

def evidence(pid, sp, tier, seed, agg, t0, tbuild, violations):
    samples = []
    for t in sorted(agg["samples"]):
        for s in agg["samples"][t][:3]:
            samples.append({"test": t, "case": s})
    e = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["evaluations"],
            "distinct_nontrivial": agg["distinct"],
            "rule": "; ".join("%s: %s" % (t, agg["rules"][t]) for t in sorted(agg["rules"])),
            "samples": samples or ["none"],
            "cases_by_test": agg["tests"],
            "classes": agg["labels"],
            "processes": len(variants(sp)[1]),
            "build_s": round(tbuild, 1),
        },
        "assumptions": sp.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)

def write_replay(pid, seed, shard, d, rc, text):
    failfile, test = None, None
    for root, _, files in os.walk(os.path.join(d, "testdata", "rapid")):
        for fn in sorted(files):
            if fn.endswith(".fail"):
                failfile = open(os.path.join(root, fn), errors="replace").read()
                test = os.path.basename(root)
    m = re.search(r"--- FAIL: (\S+)", text)
    if m:
        test = m.group(1).split("/")[0]
    rp = os.path.join(VERIF, "replays")
    os.makedirs(rp, exist_ok=True)
    path = os.path.join(rp, "%s-seed%d-p%d.json" % (pid, seed, shard))
    with open(path, "w") as f:
        json.dump({"property": pid, "test": test, "seed": seed, "shard": shard, "exit": rc,
                   "failfile": failfile, "log": text if len(text) < 24000 else text[:8000] + "\n...\n" + text[-16000:],
                   "how": "python3 run.py %s --replay %s" % (pid, path)}, f, indent=1)
    return path

if __name__ == "__main__":
    main()
