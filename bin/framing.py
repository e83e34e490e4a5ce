"""Check decided by Framing.tla: C14."""
import json, os, re
from collections import Counter
from vlib import *


def judge(check, path, what, cmd):
    rc, out = tlc("FramingTrace", env={"TRACE": path}, heap="3g")
    d = done(out)
    failed = d is None or not tlc_ok(out)
    d = d or (0, 1)
    if d[1]:
        with open(path) as f:
            lines = f.read().split("\n")
        exp = blocks(out, "EXPECTED")
        for n, b in enumerate(blocks(out, "BROKEN")):
            at = int(re.search(r"(\d+)", b).group(1)) - 1
            start = at
            while json.loads(lines[start])["t"] != "reset":
                start -= 1
            e = exp[n] if n < len(exp) else ""
            check.violation(f"{what}: not allowed: {lines[at][:1200]}\nstate before it: {e[:1000]}",
                            ["command: " + " ".join(cmd), *lines[start:at + 1], e])
    if failed:
        unjudged(check, "FramingTrace", what, out, cmd)
    return d[0]


def recorded(check, vframing, args, what, name):
    path = os.path.join(check.dir, name + ".ndjson")
    cmd = [vframing, *args, "--out", path]

    def current():
        if not os.path.exists(path + ".current"):
            return ""
        with open(path + ".current") as f:
            return f.readline().strip()
    bad = None
    try:
        r = run(cmd, timeout=200 if check.quick else 1500)
        if r.returncode != 0:
            bad = f"the process did not survive (exit {r.returncode})\n{r.stdout[-300:]}"
    except ToolError:
        bad = "no end in sight"
    if bad:
        if not current():
            raise ToolError("harness failed: " + bad)
        check.violation(f"{what}: {bad}: {current()}", ["command: " + " ".join(cmd), current()])
        return {"traces": 0, "lines": 0, "seen": {}}
    s = json.loads(r.stdout.strip().split("\n")[-1])
    s["judged"] = judge(check, path, what, cmd)
    with open(path) as f:
        s["sample"] = [l.strip()[:400] for l in f.readlines()[:12]]
    os.remove(path)
    return s


def explore(check, vframing, mode, depth, sample):
    rc, out = tlc("FramingMC", env={"MODE": mode, "DEPTH": str(depth), "SAMPLE": str(sample), "WALK": "0"},
                  args=["-seed", str(check.seed)], workers=2, heap="4g", timeout=3000, fast=check.quick)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not tlc_ok(out) or not m:
        raise ToolError(f"FramingMC {mode}: the specification fails:\n" + out[-3000:])
    name = f"{mode}{depth}"
    src = os.path.join(check.dir, name + ".json")
    n = 0
    with open(src, "w") as f:
        for h in re.findall(r'^"HIST (.*)"$', out, re.M):
            f.write(h.replace('\\"', '"') + "\n")
            n += 1
    s = recorded(check, vframing, ["replay", "--in", src, "--seed", str(check.seed)], f"behaviours of FramingMC ({mode})", name)
    os.remove(src)
    s["name"], s["transitions"], s["states"] = name, int(m.group(1)), int(m.group(2))
    return s


def check_framing(check):
    vframing = build("framing", "vframing")
    q = check.quick
    jobs = [("mc", ("packet", 10 if q else 14, 100000)), ("mc", ("transport", 6 if q else 10, 10000 if q else 20000))]
    for i in range(14 if q else 120):
        jobs.append(("rec", (["random", "--count", "3500", "--seed", str(check.seed * 1000 + i)], "random use", f"random{i}")))
    res = parallel(lambda j: (explore if j[0] == "mc" else recorded)(check, vframing, *j[1]), jobs)
    mc = [r for r in res if "states" in r]
    seen = Counter()
    for r in res:
        seen.update(r["seen"])
    check.level = "model_checking"
    check.coverage = {
        "states": sum(r["states"] for r in mc), "transitions": sum(r["transitions"] for r in mc),
        "traces_validated_against_impl": sum(r["traces"] for r in res),
        "steps_validated": sum(r["lines"] for r in res),
        "exploration": [{k: r[k] for k in ("name", "states", "transitions", "traces")} for r in mc],
        "samples": [r["sample"] for r in res if r.get("sample")][:3],
        "seen": dict(sorted(seen.items())),
    }
    check.assumptions = ["I/O is scripted and wakes nobody: an operation that is pending is polled again",
                         "frames are recognised by comparison with the bytes that were sent"]
