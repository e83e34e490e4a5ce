"""Checks decided by Wire.tla and Message.tla: C01 C07 C08 C13."""
import json, os, re
from collections import Counter
from vlib import *

SERIALIZE = {"panic-serialize", "serialize-depth", "serialize-bytes", "serialize-legacy", "round-trip"}
CONVERT = {"convert", "convert-forms", "convert-twice", "convert-decodes"}


def relevant(prop, label, record):
    """Whether a broken requirement is this property's business."""
    if prop == "C08":
        return True
    if label == "panic":
        conv = [p for p in record["panics"] if p.startswith("convert") or p.startswith("decode converted")]
        return bool(conv) if prop == "C13" else (len(conv) < len(record["panics"]) if prop == "C07" else False)
    if prop == "C13":
        return label in CONVERT
    if prop == "C01":
        return label in SERIALIZE or label == "decode-valid"
    return label not in SERIALIZE and label not in CONVERT


def judge(check, spec, path, what):
    """Lets TLC judge recorded cases."""
    rc, out = tlc(spec, env={"TRACE": path}, heap="3g")
    d = done(out)
    failed = d is None or not tlc_ok(out)
    lines, fails = d or (0, 1)
    if fails:
        with open(path) as f:
            recorded = f.read().split("\n")
        exp = blocks(out, "EXPECTED")
        for n, b in enumerate(blocks(out, "BROKEN")):
            flat = re.sub(r"\s+", " ", b)
            m = re.match(r'<< ?"BROKEN", (\d+), \{(.*)\} ?>>', flat)
            labels = re.findall(r'"([a-z-]+)"', m.group(2))
            rec = json.loads(recorded[int(m.group(1)) - 1])
            mine = [l for l in labels if relevant(check.prop, l, rec)]
            if mine:
                e = exp[n] if n < len(exp) else ""
                check.violation(f"{what}: {', '.join(mine)}: recorded {json.dumps(rec)[:1500]}\nexpected by {spec}: {e[:1000]}",
                                [recorded[int(m.group(1)) - 1], e])
    if failed:
        unjudged(check, spec, what, out)
    return lines


def recorded(check, vcodec, spec, args, what, name):
    """Runs the real code and has it judged."""
    path = os.path.join(check.dir, name + ".ndjson")
    cmd = [vcodec, *args, "--out", path]
    try:
        r = run(cmd, timeout=400 if check.quick else 3000)
    except ToolError:
        with open(path + ".current") as f:
            cur = f.readline().strip()
        check.violation(f"{what}: no end in sight", ["command: " + " ".join(cmd), "case: " + cur])
        return {"total": 0, "judged": 0, "kinds": {}}
    if r.returncode != 0:
        cur = ""
        if os.path.exists(path + ".current"):
            with open(path + ".current") as f:
                cur = f.readline().strip()
        if not cur:
            raise ToolError("harness failed: " + r.stdout[-2000:])
        check.violation(f"{what}: the process did not survive case {cur[:200]} (exit {r.returncode})\n{r.stdout[-300:]}",
                        ["command: " + " ".join(cmd), "case: " + cur])
        return {"total": 0, "judged": 0, "kinds": {}}
    s = json.loads(r.stdout.strip().split("\n")[-1])
    s["judged"] = judge(check, spec, path, what)
    with open(path) as f:
        lines = f.read().split("\n")
    s["sample"] = min(lines[1:200] or lines, key=lambda l: abs(len(l) - 700))[:1500]
    os.remove(path)
    return s


# Alphabets of WireMC: length explored by quick and thorough runs.
ALPHABETS = {"nest": (6, 8), "maps": (5, 7), "sets": (5, 7), "strings": (5, 6), "utf8": (6, 8), "bytes": (6, 8),
             "ints": (4, 5), "mixed": (5, 6)}
FOCI = {"C01": ["nest", "bytes"], "C07": list(ALPHABETS), "C13": ["nest", "maps", "sets", "bytes"]}


def explore(check, vcodec, spec, judge_spec, mode, env, name, want):
    """Explores a specification of the codec and tries what it prints on the real one."""
    rc, out = tlc(spec, env=env, workers=2, heap="4g", timeout=3000, fast=check.quick)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not tlc_ok(out) or not m:
        raise ToolError(f"{spec} {env}: the specification fails:\n" + out[-3000:])
    cases = re.findall(r'^"BYTES (.*)"$', out, re.M)
    src = os.path.join(check.dir, name + ".json")
    with open(src, "w") as f:
        f.write("\n".join(c for c in cases if c != "<<>>") + "\n")
    p = min(1.0, want / max(1, len(cases)))
    s = recorded(check, vcodec, judge_spec, [mode, "--in", src, "--sample", str(p), "--seed", str(check.seed)],
                 f"bytes from {spec} ({name})", name)
    os.remove(src)
    s["transitions"], s["states"] = int(m.group(1)), int(m.group(2))
    s["name"] = name
    return s


def check_codec(check):
    prop = check.prop
    vcodec = build("codec", "vcodec")
    q = check.quick
    jobs = []
    if prop == "C08":
        for part in range(8):
            jobs.append(("mc", ("MessageMC", "MessageTrace", "replay-frames", {"PART": str(part), "WIDE": "0" if q else "1"},
                                f"messages{part}", 2500 if q else 20000)))
        for i in range(8 if q else 24):
            n = 12000 if q else 400000
            jobs.append(("rec", ("MessageTrace", ["frames", "--count", str(n), "--seed", str(check.seed * 100 + i),
                                                  "--sample", str(3000 / n if q else 20000 / n)], "frames", f"frames{i}")))
    else:
        for f in FOCI[prop]:
            jobs.append(("mc", ("WireMC", "WireTrace", "replay", {"FOCUS": f, "DEPTH": str(ALPHABETS[f][0 if q else 1])},
                                f, 1500 if q else 20000)))
        val = 8 if q else 24
        if prop == "C01":
            for i in range(val):
                n = 30000 if q else 600000
                jobs.append(("rec", ("WireTrace", ["ser", "--count", str(n), "--seed", str(check.seed * 100 + i),
                                                   "--sample", str(1500 / n if q else 15000 / n)], "serialized values", f"ser{i}")))
            val //= 2
        for i in range(val):
            n = 30000 if q else 600000
            jobs.append(("rec", ("WireTrace", ["values", "--count", str(n), "--seed", str(check.seed * 100 + i),
                                               "--sample", str(1500 / n if q else 15000 / n)], "byte strings", f"values{i}")))
        if prop in ("C01", "C07"):
            jobs.append(("rec", ("WireTrace", ["abyss"], "deep nesting", "abyss")))
        if prop == "C07":
            jobs.append(("rec", ("WireTrace", ["short", "--seed", str(check.seed), "--sample", "0.01" if q else "0.3"],
                                 "short byte strings", "short")))

    def job(j):
        kind, a = j
        if kind == "mc":
            return explore(check, vcodec, *a)
        return recorded(check, vcodec, *a)

    res = parallel(job, jobs)
    mc = [r for r in res if "states" in r]
    kinds = Counter()
    for r in res:
        kinds.update(r["kinds"])
    check.level = "model_checking"
    check.coverage = {
        "states": sum(r["states"] for r in mc), "transitions": sum(r["transitions"] for r in mc),
        "traces_validated_against_impl": sum(r["judged"] for r in res),
        "cases_tried_on_impl": sum(r["total"] for r in res),
        "exploration": [{k: r[k] for k in ("name", "states", "transitions", "total", "judged")} for r in mc],
        "samples": [r["sample"] for r in res if r.get("sample")][:4],
        "seen": dict(sorted(kinds.items())),
    }
    check.assumptions = ["cases that are not among those judged by TLC were only compared with a Rust mirror of the "
                         "specification, which sends everything that differs to TLC"]
