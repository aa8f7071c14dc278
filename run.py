#!/usr/bin/env python3
"""Runner of the property checks.

  run.py setup              warm the build cache (nothing else depends on it)
  run.py check ID           decide one property (VERIF_SEED, VERIF_TIER from the environment)
  run.py all                decide every property, print a table
  run.py replay FILE        run the failing case stored in a replay file again
  run.py manifest           rewrite MANIFEST.json from checks.json and properties.jsonl

Exit codes: 0 the property held on everything explored, 1 violation (with a
VIOLATION line), 2 the check itself could not be carried out.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
EXIT_HANG, EXIT_MEMORY = 41, 42
DEADLINE = {"quick": 820, "thorough": 4 * 3600}


def env():
    e = dict(os.environ)
    e.update({
        "HOME": "/root", "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=readonly", "GOPROXY": "off",
        "GOWORK": "off", "GOSUMDB": "off", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
        "GOCACHE": os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
        "LC_ALL": "C.UTF-8",
    })
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    return e


def config():
    with open(os.path.join(ROOT, "checks.json")) as f:
        return json.load(f)


def properties():
    out = {}
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        for line in f:
            if line.strip():
                p = json.loads(line)
                out[p["id"]] = p
    return out


def mix(*vals):
    h = hashlib.sha256("/".join(map(str, vals)).encode()).digest()
    return (int.from_bytes(h[:8], "big") >> 1) | 1


class CheckError(Exception):
    pass


def build(pid, conf, tmp):
    """Compile the check against /repo's working tree; returns the binary."""
    out = os.path.join(tmp, pid.lower() + ".test")
    base = ["go", "test", "-c", "-vet=off", "-o", out]
    if conf.get("race"):
        base.append("-race")
    attempts = []
    if conf.get("overlay"):
        ov = {"Replace": {os.path.join(REPO, k): os.path.join(HARNESS, v) for k, v in conf["overlay"].items()}}
        path = os.path.join(tmp, "overlay.json")
        with open(path, "w") as f:
            json.dump(ov, f)
        attempts.append(base + ["-overlay", path, "-tags", "verif_overlay", "./" + conf["pkg"]])
    attempts.append(base + ["./" + conf["pkg"]])
    log = ""
    for cmd in attempts:
        r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace")
        if r.returncode == 0:
            return out
        log += " ".join(cmd) + "\n" + r.stdout + "\n"
    raise CheckError("does not build:\n" + log[-6000:])


def run_unit(binary, unit, conf, tmp, deadline):
    """One subprocess: one test function, one seed, some number of cases."""
    wd = tempfile.mkdtemp(dir=tmp)
    stats, journal = os.path.join(wd, "stats.json"), os.path.join(wd, "journal")
    e = env()
    e.update({"VERIF_STATS": stats, "VERIF_JOURNAL": journal, "GOMAXPROCS": str(conf.get("gomaxprocs", 2)),
              "VERIF_UNIT_SEED": str(unit["seed"]), "VERIF_SHARD": str(unit["shard"]),
              "VERIF_SHARDS": str(unit["shards"]), "GOTRACEBACK": "all",
              "VERIF_HARNESS": HARNESS})
    e.pop("CI", None)
    cmd = [binary, "-test.run", "^" + unit["test"] + "$", "-test.timeout", "0", "-test.failfast",
           "-rapid.seed", str(unit["seed"]), "-rapid.checks", str(unit["checks"]),
           "-rapid.shrinktime", conf.get("shrinktime", "20s")]
    if unit.get("steps"):
        cmd += ["-rapid.steps", str(unit["steps"])]
    if unit.get("failfile"):
        cmd += ["-rapid.failfile", unit["failfile"]]
    logpath = os.path.join(wd, "log")
    with open(logpath, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=wd, env=e, stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            rc = "deadline"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    with open(logpath, "rb") as lf:
        log = lf.read().decode("utf-8", "replace")
    res = {"unit": unit, "rc": rc, "log": log, "stats": None, "journal": "", "failfile": None}
    if os.path.exists(stats):
        with open(stats) as f:
            res["stats"] = json.load(f)
    if os.path.exists(journal):
        with open(journal, errors="replace") as f:
            res["journal"] = f.read()
    ff = glob.glob(os.path.join(wd, "testdata/rapid/*/*.fail"))
    if ff:
        # the draws only: the comments repeat the log, in whatever bytes it holds
        # and in lines longer than rapid reads
        with open(ff[0], "rb") as f:
            keep = [l for l in f.read().split(b"\n") if l.strip() and not l.startswith(b"#")]
        res["failfile"] = b"\n".join(keep).decode("ascii", "replace") + "\n"
    shutil.rmtree(wd, ignore_errors=True)
    return res


def classify(res):
    """ok | violation | retry (a crash or hang to be confirmed) | error"""
    rc, log = res["rc"], res["log"]
    if rc == 0:
        return "ok"
    if rc == "deadline":
        return "deadline"
    if "HARNESS-ERROR" in log:
        return "error"
    if rc in (EXIT_HANG, EXIT_MEMORY):
        return "retry"
    if rc == 66 or "WARNING: DATA RACE" in log:
        return "violation"
    if rc == 1 and re.search(r"^\s*--- FAIL", log, re.M):
        return "violation"
    if isinstance(rc, int) and rc in (-9, -15):
        return "error"
    if rc == 2 and re.search(r"^(panic:|fatal error:)", log, re.M):
        if re.search(r"cannot allocate memory|out of memory|failed to create new OS thread", log):
            return "error"
        return "retry"
    return "error"


def check(pid):
    conf = config()["checks"].get(pid)
    if conf is None:
        raise CheckError("no check for " + pid)
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    started = time.time()
    deadline = started + DEADLINE.get(tier, DEADLINE["quick"])
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid.lower())
    try:
        return check_in(pid, conf, tier, seed, started, deadline, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_in(pid, conf, tier, seed, started, deadline, tmp):
    binary = build(pid, conf, tmp)
    shards = conf.get("shards", 8)
    units = []
    for test, checks in conf["tests"].items():
        n = checks[0] if tier == "quick" else checks[1]
        s = min(shards, max(1, n))
        if len(checks) > 2:
            s = checks[2]
        for i in range(s):
            units.append({"test": test, "seed": mix(pid, test, seed, i), "shard": i, "shards": s,
                          "checks": max(1, n // s), "steps": conf.get("steps")})
    results, violations, errors = [], [], []
    stop = threading.Event()

    def go(u):
        if stop.is_set():
            return None
        r = run_unit(binary, u, conf, tmp, deadline)
        k = classify(r)
        if k == "retry":
            r2 = run_unit(binary, u, conf, tmp, deadline)
            if classify(r2) in ("retry", "violation"):
                k, r = "violation", r2
            else:
                k = "unconfirmed"
        r["kind"] = k
        if k == "violation":
            stop.set()
        return r

    # longest first is not known; the order of units is fixed
    with cf.ThreadPoolExecutor(max_workers=conf.get("parallel", 8)) as ex:
        for r in ex.map(go, units):
            if r is None:
                continue
            results.append(r)
            if r["kind"] == "violation":
                violations.append(r)
            elif r["kind"] != "ok":
                errors.append(r)

    evidence(pid, conf, tier, seed, started, results, violations)

    for r in results:
        for line in r["log"].splitlines():
            if line.strip().startswith("KNOWN-FINDING:"):
                print(line.strip())
    if violations:
        r = violations[0]
        path = save_replay(pid, r)
        print(tail(r["log"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        r = errors[0]
        print(tail(r["log"]))
        print("ERROR property=%s unit=%s outcome=%s rc=%s" % (pid, r["unit"]["test"], r["kind"], r["rc"]))
        return 2
    ev = sum((r["stats"] or {}).get("evaluations", 0) for r in results)
    print("OK property=%s tier=%s seed=%d cases=%d wall=%.1fs" % (pid, tier, seed, ev, time.time() - started))
    return 0


def tail(log, n=60):
    lines = log.splitlines()
    # rapid repeats every draw; the interesting part is the head and the message
    lines = [l for l in lines if "[rapid] draw" not in l] or lines
    if len(lines) > n:
        lines = lines[: n // 2] + ["…"] + lines[-n // 2:]
    return "\n".join(l[:2000] for l in lines)


def save_replay(pid, r):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "unit": r["unit"], "failfile": r["failfile"], "journal": r["journal"],
            "log": r["log"][-200000:]}
    name = "%s-%s.json" % (pid, hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def evidence(pid, conf, tier, seed, started, results, violations):
    evals, distinct, classes, samples = 0, set(), {}, []
    nontriv = 0
    for r in results:
        s = r["stats"]
        if not s:
            continue
        evals += s["evaluations"]
        nontriv += s["nontrivial"]
        distinct.update(s["distinct"] or [])
        for k, v in (s["classes"] or {}).items():
            classes[k] = classes.get(k, 0) + v
        ss = s["samples"] or []
        if ss and len(samples) < 10:
            samples.extend(ss[-2:])
    out = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": conf.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": conf["rule"],
            "samples": samples[:10] or ["(none)"], "nontrivial_evaluations": nontriv,
            "classes": dict(sorted(classes.items())),
            "processes": len(results), "tests": sorted({r["unit"]["test"] for r in results}),
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - started, 2),
        "violations": len(violations),
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(out, f, indent=1, ensure_ascii=False)
    os.replace(p + ".tmp", p)


def replay(path):
    with open(path) as f:
        body = json.load(f)
    pid = body["property"]
    conf = config()["checks"][pid]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary = build(pid, conf, tmp)
        unit = dict(body["unit"])
        if body.get("failfile"):
            ff = os.path.join(tmp, "case.fail")
            with open(ff, "w") as f:
                f.write(body["failfile"])
            unit.update({"failfile": ff, "checks": 1})
        r = run_unit(binary, unit, conf, tmp, time.time() + 900)
        k = classify(r)
        print(tail(r["log"], 200))
        if k in ("violation", "retry"):
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("replay: %s" % k)
        return 0 if k == "ok" else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    r = subprocess.run(["go", "build", "./..."], cwd=HARNESS, env=env())
    return 0 if r.returncode == 0 else 2


def manifest():
    conf, props = config(), properties()
    checks = []
    for pid in props:
        c = conf["checks"].get(pid)
        if not c:
            continue
        checks.append({
            "property": pid,
            "quick_cmd": "python3 run.py check " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["level_note"],
        })
    out = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": conf.get("not_applicable", {}).get(k, "not claimed: its check is not finished")}
                           for k in props if k not in conf["checks"]],
        "notes": conf.get("notes", ""),
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1, ensure_ascii=False)
        f.write("\n")
    return 0


def main():
    for out in (sys.stdout, sys.stderr):
        out.reconfigure(encoding="utf-8", errors="replace")
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    try:
        if cmd == "setup":
            return setup()
        if cmd == "check":
            return check(sys.argv[2])
        if cmd == "all":
            worst = 0
            for pid in (sys.argv[2:] or config()["checks"]):
                try:
                    rc = check(pid)
                except CheckError as e:
                    print("ERROR property=%s %s" % (pid, e))
                    rc = 2
                worst = max(worst, rc)
            return worst
        if cmd == "replay":
            return replay(sys.argv[2])
        if cmd == "manifest":
            return manifest()
    except CheckError as e:
        print("ERROR", e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
