"""Checks decided by Client.tla and Discovery.tla: C06, C15, C19."""
import json, os, re
from collections import Counter
from vlib import *


def judge(check, path, what, cmd, spec):
    rc, out = tlc(spec, env={"TRACE": path}, heap="3g", timeout=800 if check.quick else 3000)
    d = done(out)
    failed = d is None or not tlc_ok(out)
    d = d or (0, 1)
    if d[1]:
        with open(path) as f:
            lines = f.read().split("\n")
        exp = blocks(out, "EXPECTED")
        for n, b in enumerate(blocks(out, "BROKEN")):
            at = int(re.search(r'"BROKEN",\s*(\d+)', b).group(1)) - 1
            why = re.search(r'"([^"]*)"\s*>>\s*$', b)
            start = at
            while json.loads(lines[start])["t"] not in ("reset", "world"):
                start -= 1
            e = exp[n] if n < len(exp) else ""
            check.violation(f"{what}: {why.group(1) if why else b}: {lines[at][:600]}\nof {json.loads(lines[start])['id']}; "
                            f"before it: {' '.join(l[:160] for l in lines[max(start, at - 4):at])}",
                            ["command: " + " ".join(cmd), *lines[start:at + 1], "state before:", e])
    if failed:
        unjudged(check, spec, what, out, cmd)
    return d[0]


def recorded(check, vclient, mode, seed, count, steps, profile=None, spec="ClientTrace"):
    name = f"{mode}{seed}"
    path = os.path.join(check.dir, name + ".ndjson")
    cmd = [vclient, mode, "--seed", str(seed), "--count", str(count), "--steps", str(steps), "--out", path]
    if profile:
        cmd += ["--profile", profile]
    what = f"programs ({mode})"

    def current():
        if not os.path.exists(path + ".current"):
            return ""
        with open(path + ".current") as f:
            return f.readline().strip()
    bad = None
    try:
        r = run(cmd, timeout=300 if check.quick else 1500)
        if r.returncode != 0:
            bad = f"the process did not survive (exit {r.returncode}) {r.stdout[-300:]}"
    except ToolError:
        bad = "no end in sight"
    if bad:
        if not current():
            raise ToolError("harness failed: " + bad)
        check.violation(f"{what}: {bad}: {current()}", ["command: " + " ".join(cmd), current()])
        return {"traces": 0, "lines": 0, "seen": {}}
    s = json.loads(r.stdout.strip().split("\n")[-1])
    s["judged"] = judge(check, path, what, cmd, spec)
    with open(path) as f:
        s["sample"] = [l.strip()[:300] for _, l in zip(range(40), f)][8:40]
    os.remove(path)
    return s


def check_client(check):
    vclient = build("client", "vclient")
    q = check.quick
    mode = "clean" if check.prop == "C06" else "fatal"
    jobs = []
    shards, count = (24, 200) if q else (400, 300)
    for i in range(shards):
        steps = [40, 80, 80, 160, 300][i % 5]
        jobs.append((mode, check.seed * 1000 + i, count * 80 // steps, steps))
    if not q or check.prop == "C15":
        # Faults in programs of clean clients and the other way round cost little.
        jobs += [("clean" if mode == "fatal" else "fatal", check.seed * 1000 + 900 + i, count, 80) for i in range(2 if q else 20)]
    res = parallel(lambda j: recorded(check, vclient, *j), jobs)
    seen = Counter()
    for r in res:
        seen.update(r["seen"])
    cover(check, res, seen)


def cover(check, res, seen):
    lines = sum(r["lines"] for r in res)
    traces = sum(r["traces"] for r in res)
    check.level = "model_checking"
    check.coverage = {
        "states": lines + len(res),
        "transitions": lines,
        "traces_validated_against_impl": traces,
        "steps_validated": lines,
        "samples": [r["sample"] for r in res if r.get("sample")][:2],
        "seen": dict(sorted(seen.items())),
    }
    check.assumptions = [
        "the executor polls one task at a time: data races between threads are not looked for",
        "transports are the in-process ones (bounded and unbounded), wrapped by a recorder that injects faults",
    ]


def check_discovery(check):
    vclient = build("client", "vclient")
    q = check.quick
    shards, count = (16, 500) if q else (320, 500)
    jobs = [("disco", check.seed * 1000 + i, count * 80 // steps, steps)
            for i in range(shards) for steps in [[40, 80, 160, 300][i % 4]]]
    res = parallel(lambda j: recorded(check, vclient, *j, spec="DiscoveryTrace"), jobs)
    seen = Counter()
    for r in res:
        seen.update(r["seen"])
    cover(check, res, seen)
    check.assumptions = [
        "an observer on the same bus, run before anybody else after every step of the broker, tells what happens on the bus",
        "a cancelled restart of a discoverer is not looked at, and neither are clients that have ended",
    ]
