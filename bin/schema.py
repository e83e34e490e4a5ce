"""Checks of the schema front end: C17 (FrontEnd.tla) and C18 (Schema.tla)."""
import json, os, re
from vlib import *


def generate(check, mode, count=1, seed=None):
    """Schemas of SchemaGen, as a file."""
    rc, out = tlc("SchemaGen", env={"MODE": mode, "SEED": str(check.seed if seed is None else seed), "COUNT": str(count)},
                  heap="3g", timeout=2000, fast=check.quick)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not tlc_ok(out) or not m:
        raise ToolError(f"SchemaGen {mode} fails:\n" + out[-3000:])
    path = os.path.join(check.dir, f"{mode}{seed or ''}.in")
    n = 0
    with open(path, "w") as f:
        for l in re.findall(r'^"SCHEMA (.*)"$', out, re.M):
            f.write(json.loads('"' + l + '"') + "\n")
            n += 1
    if n == 0:
        raise ToolError(f"SchemaGen {mode} gives no schemas")
    return path, n, int(m.group(2))


def record(check, cmd, what):
    """Runs the harness; a process that doesn't survive is a violation."""
    path = cmd[cmd.index("--out") + 1]
    bad = None
    try:
        r = run(cmd, timeout=300 if check.quick else 3000)
        if r.returncode != 0:
            bad = f"the process did not survive (exit {r.returncode}): {r.stdout[-300:]}"
            if r.returncode == 2:
                raise ToolError("harness failed: " + bad)
    except ToolError as e:
        if not str(e).startswith("timeout"):
            raise
        bad = "no end in sight"
    if bad:
        cur = ""
        if os.path.exists(path + ".current"):
            with open(path + ".current") as f:
                cur = f.read()
        if not cur:
            raise ToolError("harness failed: " + bad)
        check.violation(f"{what}: {bad}: {cur[:1500]}", ["command: " + " ".join(cmd), cur])
        return None
    return json.loads(r.stdout.strip().split("\n")[-1])


def judge(check, spec, path, what, cmd, show):
    rc, out = tlc(spec, env={"TRACE": path}, heap="3g", timeout=2000, fast=check.quick)
    d = done(out)
    failed = d is None or not tlc_ok(out)
    d = d or (0, 1)
    if d[1]:
        with open(path) as f:
            lines = f.read().split("\n")
        for m in re.finditer(r'<<"BROKEN", (\d+)(?:, (\d+))?>>', out):
            l = json.loads(lines[int(m.group(1)) - 1])
            check.violation(f"{what}: {show(l, m.group(2))}", ["command: " + " ".join(cmd), json.dumps(l)])
    if failed:
        unjudged(check, spec, what, out, cmd)
    return d[0]


def show_fmt(l, n):
    o = l["outs"][int(n) - 1]
    if o["r"] != "ok":
        w = f"{o['r']}: {o['why']}"
    elif l["known"] and o["a1"] != l["ast"]:
        w = f"parsed differently from what was written: {json.dumps(l['ast'])[:600]} became {json.dumps(o['a1'])[:600]}"
    elif sorted(o["i1"]) != sorted(o["i2"]):
        w = f"other diagnostics: {sorted(set(o['i1']) ^ set(o['i2']))[:6]}"
    elif not o["idem"]:
        w = "formatting again changes the text"
    else:
        w = f"the formatted schema differs: {json.dumps(o['a1'])[:600]} became {json.dumps(o['a2'])[:600]}"
    return w + "\nsource: " + json.dumps(o["src"])[:1500]


def tool():
    """Builds the command line tool of /repo."""
    r = run(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(os.environ.get("VERIF_REPO", "/repo"), "Cargo.toml"),
             "-p", "aldrin-gen", "--target-dir", os.path.join(TARGET, "gen")], env={"RUSTFLAGS": ""})
    if r.returncode != 0:
        raise ToolError("building aldrin-gen failed:\n" + r.stdout[-3000:])
    return os.path.join(TARGET, "gen", "debug", "aldrin-gen")


MINE = {"C17": ("check", "rust"), "C18": ("fmt", "diff", "pipe")}


def check_cli(check, vs, count):
    """The command line tool does with files what the library does with texts (Cli.tla)."""
    rc, out = tlc("CliMC")
    if not tlc_ok(out):
        raise ToolError("CliMC fails:\n" + out[-3000:])
    gen = tool()

    def job(k):
        seed = check.seed * 1000 + 500 + k
        src, _, _ = generate(check, "random", count, seed)
        out = os.path.join(check.dir, f"cli{k}.ndjson")
        d = os.path.join(check.dir, f"cli{k}")
        os.makedirs(d, exist_ok=True)
        cmd = [vs, "cli", "--gen", gen, "--dir", d, "--in", src, "--seed", str(seed), "--count", str(count), "--out", out]
        s = record(check, cmd, "command line tool")
        if s is None:
            return 0
        rc, o = tlc("CliTrace", env={"TRACE": out}, heap="3g", timeout=2000)
        if not tlc_ok(o):
            unjudged(check, "CliTrace", "command line tool", o, cmd)
            return 0
        with open(out) as f:
            lines = [json.loads(l) for l in f]
        for m in re.finditer(r'<<"BROKEN", (\d+), (\d+)>>', o):
            l = lines[int(m.group(1)) - 1]
            x = l["ops"][int(m.group(2)) - 1]
            if x["op"] in MINE[check.prop] or (check.prop == "C17" and x["exit"] not in (0, 1)):
                before = l["ops"][int(m.group(2)) - 2]["fs"] if m.group(2) != "1" else l["fs"]
                check.violation(f"aldrin-gen {x['cmd']}: exit status {x['exit']}, files {before} became {x['fs']}, code {x['code']}, "
                                f"stdout {x['out']} {x['err']}\ntexts: {json.dumps(l['texts'])} {json.dumps(l['srcs'])[:1500]}",
                                ["command: " + " ".join(cmd), json.dumps(l)])
        return s["runs"]
    return sum(parallel(job, range(2 if check.quick else 8)))


def check_fmt(check):
    vs = build("schema", "vschema")
    q = check.quick
    jobs = [("fields", 1, None), ("items", 1, None), ("defs", 1, None), ("head", 1, None), ("repo", 0, None)]
    jobs += [("random", 2500 if q else 12000, check.seed * 1000 + i) for i in range(7 if q else 40)]

    def job(j):
        mode, count, seed = j
        out = os.path.join(check.dir, f"{mode}{seed or ''}.ndjson")
        cmd = [vs, "fmt", "--seed", str(seed or check.seed), "--layouts", str(4 if q else 12), "--out", out]
        states = 0
        if mode != "repo":
            src, n, states = generate(check, mode, count, seed)
            cmd += ["--in", src]
        s = record(check, cmd, f"schemas ({mode})")
        if s is None:
            return {"mode": mode, "states": states, "lines": 0, "runs": 0, "clean": 0, "sample": ""}
        s["judged"] = judge(check, "SchemaTrace", out, f"schemas ({mode})", cmd, show_fmt)
        with open(out) as f:
            s["sample"] = json.loads(f.readline())["outs"][0].get("src", "")[:300]
        os.remove(out)
        return dict(s, mode=mode, states=states)
    res = parallel(job, jobs)
    tools = check_cli(check, vs, 150 if q else 3000)
    check.level = "model_checking"
    check.coverage = {
        "states": sum(r["states"] for r in res), "transitions": sum(r["states"] for r in res),
        "traces_validated_against_impl": sum(r["runs"] for r in res),
        "schemas": {r["mode"]: sum(x["lines"] for x in res if x["mode"] == r["mode"]) for r in res},
        "runs_of_the_tool": tools,
        "without_any_diagnostic": sum(r["clean"] for r in res),
        "samples": [r["sample"] for r in res if r["sample"]][:3],
    }
    check.assumptions = ["the text of a comment or doc string is what is left without one leading space and trailing white space",
                         "diagnostics are compared by schema, title, notes and help"]


def show_total(l, _):
    bad = [o for o in l["ops"] if o["r"] in ("panic", "failed") or o.get("same") is False] or l["ops"]
    return f"{json.dumps(bad)[:400]}: {l['src'][:1500]}"


def check_total(check):
    vs = build("schema", "vschema")
    q = check.quick
    n = 1 if q else 12
    jobs = [("docs", 9000 * n, k) for k in range(5)] + [("web", 6000 * n, k) for k in range(3)] + \
           [("repo", 9000 * n, k) for k in range(2)] + [("soup", 20000 * n, 0)] + [("tokens", 6000 * n, k) for k in range(3)]

    def job(j):
        kind, count, k = j
        seed = check.seed * 1000 + k
        out = os.path.join(check.dir, f"{kind}{k}.ndjson")
        cmd = [vs, "total", "--kind", kind, "--count", str(count), "--seed", str(seed), "--out", out]
        states = 0
        if kind == "tokens":
            src, _, states = generate(check, ["random", "items", "random"][k], count // 4, seed)
            cmd += ["--in", src]
        s = record(check, cmd, f"any text ({kind})")
        if s is None:
            return {"kind": kind, "states": states, "lines": 0, "runs": 0, "generated": 0, "sample": ""}
        s["judged"] = judge(check, "FrontEndTrace", out, f"any text ({kind})", cmd, show_total)
        with open(out) as f:
            s["sample"] = json.loads(f.readline())["src"][:300]
        os.remove(out)
        return dict(s, kind=kind, states=states)
    res = parallel(job, jobs)

    # Nesting: what exhausts the stack is a known finding. Nothing takes much longer than what it is n times as big as.
    def nested(k):
        kind, depth = k
        cmd = [vs, "deep", "--kind", kind, "--depth", str(depth)]
        try:
            r = run(cmd, timeout=120)
        except ToolError as e:
            if not str(e).startswith("timeout"):
                raise
            return kind, depth, cmd, None, "no end in sight"
        try:
            return kind, depth, cmd, json.loads(r.stdout.strip().split("\n")[-1]) if r.returncode == 0 else None, r.stdout[:300]
        except ValueError:
            return kind, depth, cmd, None, r.stdout[:300]
    for kind, depth, cmd, ops, out in parallel(nested, (
            ("vec", 1000), ("array", 1000), ("result", 1000), ("chain", 300), ("structs", 300), ("quote", 3000),
            ("bracket", 3000), ("links", 3000), ("list", 1000), ("diamond", 100), ("wide", 150), ("imports", 100), ("rings", 60),
            ("vec", 100000), ("array", 100000))):
        if ops is None and depth == 100000 and "stack" in out:
            check.finding("deep-nesting", f"{kind} nested {depth} times: {out[:200]}")
        elif ops is None or any(o["r"] == "panic" or not o.get("same", True) for o in ops):
            check.violation(f"{kind} nested {depth} times: {out}", ["command: " + " ".join(cmd)])
    tools = check_cli(check, vs, 150 if q else 3000)
    check.level = "exploration"
    check.coverage = {
        "runs_of_the_tool": tools,
        "evaluations": sum(r["runs"] for r in res), "distinct_nontrivial": sum(r["lines"] for r in res),
        "rule": "different sequences of outcomes (numbers of diagnostics, how each operation ended)",
        "inputs": {r["kind"]: sum(x["runs"] for x in res if x["kind"] == r["kind"]) for r in res},
        "code_generated": sum(r["generated"] for r in res),
        "samples": [r["sample"] for r in res if r["sample"]][:3],
    }
    check.assumptions = ["terminals are at least 20 columns wide (annotate-snippets fails on less)"]
