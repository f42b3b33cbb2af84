#!/usr/bin/env python3
"""Supervisor: builds the harness against /repo, runs the numbered cases of one
property in worker processes, merges what their monitors observed.

usage: run.py PROPERTY [--case N] [--tier quick|thorough] [--seed N]

exit 0: held on everything explored; 1: violated (VIOLATION line, replay file);
anything else: no verdict.
"""
import argparse
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
NOBODY = 65534

# built with the race detector
RACE = {"C15", "C16", "C17", "C27"}
# need the go command (go list, go build) in the workers
NEEDGO = {"C01", "C02", "C03", "C04", "C06", "C08", "C09", "C10", "C11", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24", "C25", "C26", "C27", "C28", "C29", "C30"}
# need the pkger command
NEEDCLI = {"C03", "C18", "C19", "C20", "C21", "C26", "C30"}
# GOGC for the workers
GOGC = {"C22": "off"}
SHARDS = {}


def goenv():
    env = {
        "HOME": os.environ.get("HOME", "/root"),
        "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "", "GOWORK": "off", "GOSUMDB": "off",
        "LANG": "C.UTF-8", "TZ": "UTC",
    }
    return env


def die(msg, code=2):
    print(msg, file=sys.stderr)
    sys.exit(code)


def build(race, cli, outdir):
    env = goenv()
    env["GOFLAGS"] = "-mod=mod"
    h = os.path.join(outdir, "harness")
    cmds = [["go", "build", "-o", h] + (["-race"] if race else []) + ["."]]
    if cli:
        cmds.append(["go", "build", "-o", os.path.join(outdir, "pkger"), "github.com/markbates/pkger/cmd/pkger"])
    for cmd in cmds:
        r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            die("build failed: %s\n%s" % (" ".join(cmd), r.stdout))
    return h


def link(src, dst):
    """copy a directory tree as hard links, or really if that fails"""
    r = subprocess.run(["cp", "-al", src, dst], stderr=subprocess.DEVNULL)
    if r.returncode != 0:
        shutil.rmtree(dst, ignore_errors=True)
        r = subprocess.run(["cp", "-a", src, dst])
        if r.returncode != 0:
            die("cannot copy " + src)


def prepare_go(scratch):
    """caches for the go command that the unprivileged workers can use"""
    link("/root/.cache/go-build", scratch + "/gocache")
    # of the modules only those that /repo, and so everything built here, can need
    src, dst = "/root/go/pkg/mod", scratch + "/modcache"
    os.mkdir(dst)
    for line in open(REPO + "/go.sum"):
        f = line.split()
        if len(f) != 3:
            continue
        esc = re.sub(r"[A-Z]", lambda m: "!" + m.group(0).lower(), f[0])
        for rel in ("cache/download/" + esc, esc + "@" + f[1].split("/")[0]):
            if os.path.isdir(os.path.join(src, rel)) and not os.path.exists(os.path.join(dst, rel)):
                os.makedirs(os.path.dirname(os.path.join(dst, rel)), exist_ok=True)
                link(os.path.join(src, rel), os.path.join(dst, rel))
    subprocess.run(["find", scratch + "/gocache", scratch + "/modcache", "-type", "d", "-exec", "chown", "%d:%d" % (NOBODY, NOBODY), "{}", "+"])


def known(prop):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) sig=(\S+) match=/(.*)/ what=(.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3), re.S), m.group(4)))
    return out


def limits(race):
    def fn():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    return fn


PK = "github.com/markbates/pkger"


def pkger_frames(text):
    return bool(re.search(re.escape(PK) + r"[/.]", text))


def crash(prop, stderr, rc, case):
    """what a worker that did not finish says about the property"""
    m = re.search(r"^fatal error: stack overflow$", stderr, re.M)
    if m and pkger_frames(stderr[m.start():m.start() + 6000]):
        return "crash", "case %s: the process died: %s" % (case, stderr[m.start():][:3000])
    tail = stderr[-12000:]
    if "WATCHDOG" in stderr:
        i = stderr.index("WATCHDOG")
        for g in stderr[i:].split("\n\n"):
            if "main.(*Worker).runCase" in g and pkger_frames(g):
                head = g.split("\n")
                state = next((l for l in head if l.startswith("goroutine")), "")
                if "syscall" in state or "IO wait" in state or "os/exec" in g:
                    return None
                return "does not return", "case %s does not return:\n%s" % (case, g[:3000])
            if ("main.(*Worker).runCase" in g or "created by main." in g) and pkger_frames(g) and re.search(r"\[(semacquire|sync\.|chan |select)", g):
                return "deadlock", "case %s is stuck:\n%s" % (case, g[:3000])
        return None
    m = re.search(r"^(fatal error: .*|panic: .*|runtime: .*)$", tail, re.M)
    if m and pkger_frames(tail[m.start():]):
        return "crash", "case %s: the process died: %s" % (case, tail[m.start():][:3000])
    return None


def races(scratch):
    reps = []
    for f in sorted(os.listdir(scratch)):
        if f.startswith("race."):
            txt = open(os.path.join(scratch, f), errors="replace").read()
            for blk in txt.split("=================="):
                if "WARNING: DATA RACE" in blk:
                    reps.append((f, blk))
    return reps


def race_sig(blk):
    fns = re.findall(r"^  (\S+)\(", blk, re.M)
    fns = [f for f in fns if f.startswith(PK)]
    return "race:" + ",".join(sorted(set(f.replace(PK, "") for f in fns[:4])))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--case", type=int, default=-1)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    if a.setup:
        # only warms the build cache: every check builds for itself
        d = "/tmp/verif-setup-%d" % os.getpid()
        os.mkdir(d)
        try:
            build(False, True, d)
            build(True, False, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print("setup: built")
        return
    if not prop:
        ap.error("which property?")
    race = prop in RACE
    scratch = "/tmp/verif-%s-%d" % (prop, os.getpid())
    os.mkdir(scratch, 0o755)
    rc = 2
    procs = []

    def cleanup(*_):
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

    def term(*_):
        cleanup()
        os._exit(2)
    signal.signal(signal.SIGTERM, term)
    signal.signal(signal.SIGINT, term)
    try:
        rc = run(a, prop, race, scratch, procs, t0)
    finally:
        cleanup()
    sys.stdout.flush()
    sys.exit(rc)


def run(a, prop, race, scratch, procs, t0):
    bindir = scratch + "/bin"
    os.mkdir(bindir, 0o755)
    harness = build(race, prop in NEEDCLI, bindir)
    for f in os.listdir(bindir):
        os.chmod(os.path.join(bindir, f), 0o755)
    env = goenv()
    work = scratch + "/work"
    os.mkdir(work, 0o755)
    os.mkdir(scratch + "/home", 0o755)
    env["HOME"] = scratch + "/home"
    env["TMPDIR"] = work
    env["GOPATH"] = scratch + "/home/go"
    if prop in NEEDGO or prop in NEEDCLI:
        prepare_go(scratch)
        env["GOCACHE"] = scratch + "/gocache"
        env["GOMODCACHE"] = scratch + "/modcache"
    if prop in GOGC:
        env["GOGC"] = GOGC[prop]
    if race:
        env["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path=%s/race" % work
    os.chown(work, NOBODY, NOBODY)
    os.chown(scratch + "/home", NOBODY, NOBODY)

    n = a.shards or SHARDS.get(prop, min(8, os.cpu_count() or 8))
    if a.case >= 0:
        n = 1
    outs = []
    for i in range(n):
        out = "%s/out.%d" % (work, i)
        outs.append(out)
        cmd = [harness, "-prop", prop, "-tier", a.tier, "-seed", str(a.seed), "-shard", str(i), "-shards", str(n),
               "-scratch", "%s/s%d" % (work, i), "-out", out, "-pkger", bindir + "/pkger", "-case", str(a.case)]
        if a.v:
            cmd.append("-v")
        e = dict(env)
        if race:
            e["GOMAXPROCS"] = "4"
        elif prop not in NEEDGO:
            e["GOMAXPROCS"] = "2"
        procs.append(subprocess.Popen(cmd, cwd=work, env=e, user=NOBODY, group=NOBODY, extra_groups=[], umask=0o022,
                                      stdin=subprocess.DEVNULL, stdout=open(out + ".stdout", "wb"),
                                      stderr=None if a.v else open(out + ".stderr", "wb"), preexec_fn=limits(race)))
    deadline = t0 + (840 if a.tier == "quick" else 6 * 3600)
    merged = {"evaluations": 0, "distinct": set(), "counters": {}, "samples": [], "violations": [], "inconclusive": []}
    meta = None
    for i, p in enumerate(procs):
        try:
            code = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            code = -9
        case = "?"
        try:
            case = open(outs[i] + ".case").read()
        except OSError:
            pass
        if code != 0 or not os.path.exists(outs[i]):
            err = "" if a.v else open(outs[i] + ".stderr", errors="replace").read()
            v = crash(prop, err, code, case)
            if v:
                merged["violations"].append({"case": int(case) if case.isdigit() else -1, "sig": v[0], "msg": v[1], "log": []})
            else:
                merged["inconclusive"].append("worker %d ended with %s at case %s: %s" % (i, code, case, err[-3000:]))
                merged["lost"] = True
            continue
        r = json.load(open(outs[i]))
        meta = r
        merged["evaluations"] += r["evaluations"]
        merged["distinct"].update(r["distinct"] or [])
        for k, v in r["counters"].items():
            merged["counters"][k] = merged["counters"].get(k, 0) + v
        merged["samples"] += (r["samples"] or [])[:1]
        merged["violations"] += r["violations"] or []
        merged["inconclusive"] += r["inconclusive"] or []
    if race:
        seen = set()
        for f, blk in races(work):
            merged["counters"]["race reports"] = merged["counters"].get("race reports", 0) + 1
            sig = race_sig(blk)
            if sig in seen:
                continue
            seen.add(sig)
            if pkger_frames(blk):
                merged["violations"].append({"case": -1, "sig": sig, "msg": "data race\n" + blk[:4000], "log": []})
            else:
                merged["inconclusive"].append("race inside the harness: " + blk[:3000])
                merged["lost"] = True

    # verdict
    findings = known(prop)
    fresh, old = [], []
    for v in merged["violations"]:
        hit = [k for k in findings if k[0] == v["sig"] and k[1].search(v["msg"])]
        (old if hit else fresh).append((v, hit))
    for what in sorted(set(h[0][2] for _, h in old)):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    code = 0
    bysig = {}
    for v, _ in fresh:
        bysig.setdefault(v["sig"], v)
    if bysig:
        code = 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, (sig, v) in enumerate(sorted(bysig.items())[:8]):
            path = os.path.join(HERE, "replays", "%s-%d-%d.json" % (prop, a.seed, i))
            v = dict(v, property=prop, seed=a.seed, tier=a.tier,
                     replay="VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s --case %d" % (a.seed, a.tier, prop, v["case"]))
            json.dump(v, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  case %s [%s]: %s" % (v["case"], sig, v["msg"][:1500].replace("\n", "\n  ")))
    elif a.case < 0:
        if meta is None:
            print("NO VERDICT: no worker finished")
            code = 3
        else:
            for k, m in (meta.get("min_obs") or {}).items():
                if merged["counters"].get(k, 0) < m:
                    print("NO VERDICT: observed %s %d times, need %d" % (k, merged["counters"].get(k, 0), m))
                    code = 3
        if merged.get("lost") or len(merged["inconclusive"]) > merged["evaluations"] * 0.02:
            print("NO VERDICT: %d inconclusive" % len(merged["inconclusive"]))
            code = 3
    for s in merged["inconclusive"][:5]:
        print("inconclusive: " + s[:2500])

    wall = time.time() - t0
    if a.case < 0 and meta is not None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {
            "evaluations": merged["evaluations"],
            "distinct_nontrivial": len(merged["distinct"]),
            "rule": meta["rule"],
            "samples": merged["samples"][:6],
            "observed": dict(sorted(merged["counters"].items())),
            "inconclusive_cases": len(merged["inconclusive"]),
            "workers": n,
            "race_detector": race,
        }
        ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": meta["level"],
              "coverage": cov, "wall_s": round(wall, 2), "violations": len(fresh), "known_findings": len(old)}
        tmp = os.path.join(HERE, "evidence", prop + ".json")
        json.dump(ev, open(tmp, "w"), indent=1)
    print("%s: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1fs" % (
        prop, merged["evaluations"], len(merged["distinct"]), len(merged["violations"]), len(merged["inconclusive"]), wall))
    return code


if __name__ == "__main__":
    main()
