#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      run a check
check.py <property> --replay <file>          re-run one case
check.py --setup                             build everything once (warms the build cache)

Environment: VERIF_SEED (default 1), VERIF_TIER, VERIF_REPO (default /repo; for experiments only).
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
RACE = {"C18"}
SHARDS = 6
SCALE = {"quick": 1.0, "thorough": 25.0}
BUDGET = {"quick": 240, "thorough": 3000}


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOFLAGS="-mod=mod")
    e.setdefault("HOME", "/root")
    return e


def build(tmp, race):
    """Builds the harness against the current working tree of the repository."""
    args = ["go", "test", "-c", "-vet=off", "-o", os.path.join(tmp, "h.test")]
    # go.mod is used through a copy, so that nothing of /verif is rewritten
    mod = os.path.join(tmp, "go.mod")
    with open(os.path.join(HARNESS, "go.mod")) as f:
        text = f.read().replace("=> /repo", "=> " + REPO)
    with open(mod, "w") as f:
        f.write(text)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "go.sum"))
    args.append("-modfile=" + mod)
    if race:
        args.append("-race")
    args.append(".")
    r = subprocess.run(args, cwd=HARNESS, env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        sys.stdout.write("BUILD FAILED\n" + r.stdout + r.stderr)
        sys.exit(2)
    return os.path.join(tmp, "h.test")


FATAL = ["fatal error: ", "WARNING: DATA RACE", "goroutine stack exceeds", "runtime: goroutine stack exceeds"]


def crash_reason(log):
    for pat in ("WARNING: DATA RACE", "goroutine stack exceeds", "fatal error: concurrent map", "fatal error: all goroutines are asleep",
                "fatal error: sync: ", "fatal error: stack overflow"):
        if pat in log:
            return pat
    # a panic on a goroutine of the check itself
    if "panic: " in log and "github.com/xeipuuv/gojsonschema" in log.split("panic: ", 1)[1][:6000]:
        return "panic: " + log.split("panic: ", 1)[1].split("\n", 1)[0]
    return None


def start(binary, out, prop, extra, args):
    os.makedirs(out, exist_ok=True)
    e = env()
    e.update(VERIF_PROP=prop, VERIF_OUT=out, GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="all")
    e["TMPDIR"] = out
    e.update(extra)
    log = open(os.path.join(out, "log.txt"), "wb")
    return subprocess.Popen([binary] + args, cwd=out, env=e, stdout=log, stderr=subprocess.STDOUT)


def read(p, mode="r"):
    try:
        with open(p, mode, **({} if "b" in mode else {"errors": "replace"})) as f:
            return f.read()
    except FileNotFoundError:
        return None


def known(prop):
    res = []
    for line in (read(os.path.join(ROOT, "known-findings.txt")) or "").splitlines():
        if line.startswith("open: property=%s " % prop):
            res.append(line.split(" ", 2)[2])
    return res


def replay(prop, path):
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        b = build(tmp, prop in RACE)
        out = os.path.join(tmp, "r")
        p = start(b, out, prop, {"VERIF_REPLAY": os.path.abspath(path)}, ["-test.run", "^TestReplay$", "-test.timeout=0"])
        rc = p.wait()
        log = read(os.path.join(out, "log.txt"))
        sys.stdout.write(log[:8000])
        hang = read(os.path.join(out, "hang.txt"))
        if hang:
            print(hang)
        if rc == 0 and not hang:
            sys.exit(0)
        if rc == 1 or hang or crash_reason(log):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            sys.exit(1)
        sys.exit(2)


def main():
    if sys.argv[1:] == ["--setup"]:
        for race in (False, True):
            with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
                build(tmp, race)
        return
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("VERIF_SCALE", SCALE[tier]))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        rc = run(prop, tier, seed, scale, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, scale, tmp, t0):
    binary = build(tmp, prop in RACE)
    procs = []
    for i in range(SHARDS):
        h = hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()
        s = int.from_bytes(h[:8], "big") >> 2 or 1
        out = os.path.join(tmp, "s%d" % i)
        procs.append((out, start(binary, out, prop, {"VERIF_SCALE": str(scale), "VERIF_BUDGET": str(BUDGET[tier])},
                                 ["-test.run", "^TestProp$", "-test.timeout=0", "-rapid.seed=%d" % s, "-rapid.nofailfile", "-rapid.shrinktime=20s"])))
    limit = time.time() + BUDGET[tier] * 2 + 300
    bad = None  # (case bytes, message)
    errors = []
    total = dict(evaluations=0, nontrivial=0, discarded=0)
    labels, samples, hashes, rule = {}, [], set(), ""
    pending = list(procs)
    done = []
    while pending:
        for item in list(pending):
            if item[1].poll() is not None:
                pending.remove(item)
                done.append(item)
                st = json.loads(read(os.path.join(item[0], "stats.json")) or "{}")
                if st.get("status") != "ok" and tier == "quick":
                    # a failing shard decides the outcome; do not wait long for the others
                    limit = min(limit, time.time() + 60)
        if time.time() > limit:
            for item in pending:
                item[1].kill()
                item[1].wait()
                done.append((item[0], None))
            pending = []
        time.sleep(0.05)
    for out, p in done:
        rc = p.returncode if p is not None else None
        log = read(os.path.join(out, "log.txt")) or ""
        hang = read(os.path.join(out, "hang.txt"))
        st = json.loads(read(os.path.join(out, "stats.json")) or "{}")
        for k in total:
            total[k] += st.get(k, 0)
        for k, v in (st.get("labels") or {}).items():
            labels[k] = labels.get(k, 0) + v
        samples.append(st.get("samples") or [])
        rule = st.get("rule", rule)
        hb = read(os.path.join(out, "hashes.bin"), "rb") or b""
        for i in range(0, len(hb), 8):
            hashes.add(hb[i:i + 8])
        case = read(os.path.join(out, "replay.json"), "rb")
        cand = None
        if hang:
            cand = (read(os.path.join(out, "case.json"), "rb"), hang)
        elif st.get("status") == "violation":
            cand = (case, st.get("message", ""))
        elif st.get("status") == "error":
            errors.append(st.get("message", "")[:1800] + "\ncase: " + (case or b"").decode("utf8", "replace")[:3000])
        elif rc != 0 and rc is not None:
            why = crash_reason(log)
            if why:
                i = log.find(why)
                cand = (read(os.path.join(out, "case.json"), "rb"), "the process died: " + log[max(0, i - 200):i + 3000])
            else:
                errors.append("worker exited with %s: %s" % (rc, log[-3000:]))
        elif rc is None and st.get("status") != "ok":
            errors.append("worker killed after the time limit: " + log[-1000:])
        if cand and cand[0] is not None and (bad is None or len(cand[0]) < len(bad[0])):
            bad = cand
    flat = []
    i = 0
    while len(flat) < 5 and any(len(s) > i for s in samples):
        for s in samples:
            if len(s) > i and len(flat) < 5:
                flat.append(s[i])
        i += 1
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=len(hashes), rule=rule, samples=flat,
                            nontrivial=total["nontrivial"], discarded=total["discarded"], shards=SHARDS,
                            labels=dict(sorted(labels.items()))),
              assumptions=["the reference model and oracles in /verif/harness are right", "cases outside the generators' reach are not covered"],
              wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if bad:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (prop, hashlib.sha256(bad[0]).hexdigest()[:10]))
        with open(path, "wb") as f:
            f.write(bad[0])
        print(bad[1][:4000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("ERROR: the check could not decide\n" + "\n".join(errors)[:8000])
        return 2
    print("property %s held: %d cases, %d distinct non-trivial, %d discarded, %.1fs" %
          (prop, total["evaluations"], len(hashes), total["discarded"], time.time() - t0))
    return 0


main()
