"""Checks of type ids (C20, Layout.tla)."""
import json, os, re, shutil, subprocess
from vlib import *


def emitted(check, spec, tag, env, path):
    """What a generating specification prints, as a file."""
    rc, out = tlc(spec, env=env, heap="3g", timeout=2000, fast=check.quick)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not tlc_ok(out) or not m:
        raise ToolError(f"{spec} fails:\n" + out[-3000:])
    n = 0
    with open(path, "w") as f:
        for l in re.findall(rf'^"{tag} (.*)"$', out, re.M):
            f.write(json.loads('"' + l + '"') + "\n")
            n += 1
    if n == 0:
        raise ToolError(f"{spec} gives nothing")
    return n, int(m.group(2))


def show_layout(l, why):
    if l["bad"]:
        return "recording: " + "; ".join(l["bad"])[:1500]
    m = re.match(r'<<"ids", (\d+), (\d+), (\d+), (\d+), (TRUE|FALSE)>>', why)
    if not m:
        return f"{why}: {json.dumps(l['recs'])[:1500]}"
    a, i, b, j = (int(x) for x in m.groups()[:4])
    u = [l["base"] if x == 0 else l["edits"][x - 1] for x in (a, b)]
    same = "the same type with different ids" if m.group(5) == "TRUE" else "different types with the same id"
    return (f"{same}: {json.dumps(u[0]['types'][i - 1])} in {json.dumps(u[0]['u'])[:1200]}\n"
            f"and {json.dumps(u[1]['types'][j - 1])} in {json.dumps(u[1]['u'])[:1200]}")


def judge_layout(check, path, cmd, what):
    rc, out = tlc("LayoutTrace", env={"TRACE": path}, heap="3g", timeout=2000, fast=check.quick)
    d = done(out)
    if d is None and puzzled(out):
        check.violation(f"{what}: a record is nothing that the specification knows",
                        ["command: " + " ".join(cmd), out[-3000:]])
        return 0
    if d is None or not tlc_ok(out):
        raise ToolError("LayoutTrace failed:\n" + out[-3000:])
    with open(path) as f:
        lines = f.read().split("\n")
    for m in re.finditer(r'<<"BROKEN", (\d+), "(.*)">>', out):
        l = json.loads(lines[int(m.group(1)) - 1])
        check.violation(f"{what}: {show_layout(l, m.group(2).encode().decode('unicode_escape'))}",
                        ["command: " + " ".join(cmd), json.dumps(l)])
    if '"MIXED"' in out:
        check.violation(f"{what}: the same type has different ids in two universes, or two types share one",
                        ["command: " + " ".join(cmd)] + lines[:50])
    elif d[1] and not check.violations:
        raise ToolError("LayoutTrace: unreadable verdict:\n" + out[-2000:])
    return d[0]


def check_layout(check):
    vl = build("corpus", "vlayout")
    q = check.quick

    def job(k):
        seed = check.seed * 1000 + k
        src, out = (os.path.join(check.dir, f"layout{k}.{x}") for x in ("in", "ndjson"))
        n, states = emitted(check, "LayoutGen", "LAYOUT", {"SEED": str(seed), "COUNT": str(400 if q else 1500)}, src)
        cmd = [vl, "--seed", str(seed), "--in", src, "--out", out]
        r = harness(check, cmd, "hand-built descriptions", timeout=600)
        if r is None:
            return None
        s = json.loads(r.stdout.strip().split("\n")[-1])
        judge_layout(check, out, cmd, "hand-built descriptions")
        with open(out) as f:
            s["sample"] = json.dumps(json.loads(f.readline())["base"])[:400]
        os.remove(src), os.remove(out)
        return dict(s, states=states)
    res = [r for r in parallel(job, range(6 if q else 60)) if r]
    # the same for generated code
    generated = 0
    for round in range(1 if q else 8):
        c = Corpus(check, check.seed + 500 + round, 8, 6 if q else 40, 1)
        c.compile()
        generated += sum(parallel(lambda r: judge_layout(check, r[1], ["generated code, seed", str(c.seed)], "generated code")
                                  if os.path.exists(r[1]) and os.path.getsize(r[1]) else 0, [r for r in c.drive() if r[2]]))
        c.cleanup()
    if generated * 3 < c.stats["cases"] and not check.violations:
        raise ToolError(f"only {generated} schemas with introspection")
    check.level = "model_checking"
    check.coverage = {
        "states": sum(r["states"] for r in res), "transitions": sum(r["states"] for r in res),
        "traces_validated_against_impl": sum(r["universes"] for r in res) + generated,
        "generated_schemas": generated,
        "type_ids": sum(r["ids"] for r in res),
        "samples": [r["sample"] for r in res][:3],
    }
    check.assumptions = ["uuid and version belong to the wire-relevant description of a service",
                         "two types of one universe don't share schema and name"]


class Corpus:
    """Generated code for the schemas that CorpusGen makes up, compiled and run."""

    def __init__(self, check, seed, jobs, per, values):
        self.check, self.seed, self.name = check, seed, f"corpus-{check.prop.lower()}"
        self.vs = build("schema", "vschema")
        build("corpus", "vlayout")  # also what the corpus depends on
        self.ws = os.path.join(BUILD, "corpus", check.prop)
        self.cases, self.states = [], 0

        def job(k):
            path = os.path.join(check.dir, f"cases{k}")
            first = 1 + (seed % 1000) * 100000 + k * per
            r = emitted(check, "CorpusGen", "CASE",
                        {"SEED": str(seed), "FROM": str(first), "COUNT": str(per), "VALUES": str(values)}, path)
            with open(path) as f:
                return r[1], f.read().splitlines()
        for states, lines in parallel(job, range(jobs)):
            self.states += states
            self.cases += [json.loads(l) for l in lines]
        self.skip, self.binaries, self.stats = [], [], {}

    def add(self, cases):
        self.cases += cases

    def generate(self, crates, cases=None, name=None):
        name = name or self.name
        shutil.rmtree(self.ws, ignore_errors=True)
        os.makedirs(self.ws)
        src = os.path.join(self.ws, "cases")
        with open(src, "w") as f:
            for c in cases or self.cases:
                f.write(json.dumps(c) + "\n")
        r = run([self.vs, "gen", "--seed", str(self.seed), "--in", src, "--dir", self.ws, "--name", name,
                 "--harness", os.path.join(VERIF, "harness"), "--crates", str(crates),
                 "--skip", ",".join(str(n) for n in self.skip)], timeout=600)
        if r.returncode != 0:
            raise ToolError("vschema gen failed: " + r.stdout[-2000:])
        return json.loads(r.stdout.strip().split("\n")[-1])

    def cargo(self, what):
        """Compiles the workspace; gives errors as {case: [error]} and those without a case."""
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
        env.pop("RUSTFLAGS", None)
        r = subprocess.run(["cargo", what, "--offline", "-q", "--keep-going", "--message-format=json"], cwd=self.ws,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errors, other = {}, []
        for l in r.stdout.split("\n"):
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            m = m["message"]
            ns = {int(x) for s in m["spans"] for x in re.findall(r"(?:^|/)k\d+/(?:src|schemas)/c(\d+)/", s["file_name"])}
            for n in ns:
                errors.setdefault(n, []).append(m["message"])
            if not ns and m["spans"]:
                other.append(m["rendered"] or m["message"])
        if r.returncode != 0 and not errors and not other:
            other.append(r.stderr[-3000:])
        return r.returncode, errors, other

    def texts(self, n):
        out = []
        for d in sorted(os.listdir(self.ws)):
            p = os.path.join(self.ws, d, "schemas", f"c{n}")
            if os.path.isdir(p):
                for f in sorted(os.listdir(p)):
                    with open(os.path.join(p, f), newline="") as h:
                        out += [f"--- {f}"] + h.read().split("\n")
        return out

    def compile(self, crates=8):
        """Generates and compiles, dropping cases that don't compile."""
        for _ in range(5):
            self.stats = s = self.generate(crates)
            if len(s["invalid"]) * 4 > len(self.cases):
                raise ToolError("most schemas are invalid: " + json.dumps(s["invalid"][:3]))
            for n, schema, why in s["failed"]:
                self.fail(n, f"no code is generated for schema {schema}: {why}")
            rc, errors, other = self.cargo("build")
            if rc == 0:
                return
            if not errors:
                raise ToolError("the corpus does not compile:\n" + "\n".join(other)[-4000:])
            for n, es in errors.items():
                self.fail(n, f"the generated code doesn't compile: {es[0]}", es)
                self.skip.append(n)
        raise ToolError("the corpus does not compile after dropping cases")

    def fail(self, n, what, more=()):
        what = f"schema {self.title(n)}: {what}"
        if self.check.prop == "C16":
            self.check.violation(what, list(more) + self.texts(n))
        else:
            log("note: " + what)

    def title(self, n):
        c = next((c for c in self.cases if c["n"] == n), {})
        return c.get("name", f"{n} of CorpusGen (seed {self.seed})")

    def drive(self, crates=8):
        """Runs the programs; gives the files with values and layouts."""
        def job(k):
            vals, lays = (os.path.join(self.check.dir, f"{x}{k}.ndjson") for x in ("values", "layouts"))
            cmd = [os.path.join(TARGET, "debug", f"{self.name}-k{k}"), "--in", os.path.join(self.ws, "cases"),
                   "--values", vals, "--layouts", lays]
            r = harness(self.check, cmd, "programs made of generated code", timeout=600)
            return vals, lays, json.loads(r.stdout.strip().split("\n")[-1]) if r else {}
        return parallel(job, range(crates))

    def cleanup(self, crates=8):
        shutil.rmtree(self.ws, ignore_errors=True)
        for k in range(crates):
            for d in ("debug", "debug/deps"):
                p = os.path.join(TARGET, d)
                for f in os.listdir(p):
                    if re.match(rf"{self.name}-k\d+|{self.name.replace('-', '_')}_k\d+", f) and os.path.isfile(os.path.join(p, f)):
                        os.remove(os.path.join(p, f))


WHAT = {"accepted": "a value that doesn't conform is accepted", "rejected": "a conforming value is rejected",
        "changed": "a value comes back as another", "broken": "a value can't be encoded again"}


def judge_values(check, corpus, path):
    if not os.path.exists(path) or os.path.getsize(path) == 0:
        return 0, 0, None
    rc, out = tlc("CorpusTrace", env={"TRACE": path}, heap="3g", timeout=2000, fast=check.quick)
    d = done(out)
    failed = d is None or not tlc_ok(out)
    d = d or (0, 0, 0)
    with open(path) as f:
        lines = [json.loads(l) for l in f.read().strip().split("\n")]
    seen = set()
    for m in re.finditer(r'<<"WRONG", (\d+), (\d+), "(\w+)">>', out):
        l = lines[int(m.group(1)) - 1]
        r = l["runs"][int(m.group(2)) - 1]
        t = l["types"][r["t"] - 1]
        key = (l["n"], r["t"], m.group(3))
        if key in seen:
            continue
        seen.add(key)
        check.violation(f"{WHAT[m.group(3)]}: type {t['s']}::{t['n']} of schema {corpus.title(l['n'])}, "
                        f"value {bytes(r['in']).hex()}, outcome {r['r']} {[bytes(o).hex() for o in r['outs']]} {r['why']}",
                        ["input (hex): " + bytes(r["in"]).hex(), "run: " + json.dumps(r)] + corpus.texts(l["n"]))
    if failed:
        unjudged(check, "CorpusTrace", "generated code", out)
    if d[1] and not seen:
        raise ToolError("CorpusTrace: unreadable verdict:\n" + out[-2000:])
    return sum(len(l["runs"]) for l in lines), d[2], lines[0]


# Cases are generated in a way that depends on their number: 0 here with everything, 8 and 16 with generate! and others.
PERIOD = 12 * 9 * 5 * 7 * 11 // 3
BY_MACRO = {"types-std", "prim-names", "kw-everything", "doc-link-all", "string-bare-cr", "field-names", "dollar"}


def pitfalls(all=False):
    """Schemas of data/pitfalls.json: corners of the language that code generation has to get right."""
    out = []
    with open(os.path.join(VERIF, "data", "pitfalls.json")) as f:
        for i, p in enumerate(json.load(f)):
            for d in [0] + ([8, 16] if all or p["name"] in BY_MACRO else []):
                out.append({"n": PERIOD * (65000 + i) + d, "name": p["name"], "lib": p["lib"], "main": p["main"],
                            "next": [], "u": [], "types": [], "all": [], "vals": []})
    return out


def check_corpus(check):
    q = check.quick
    listed = known_findings("C16")
    pits = pitfalls(not q)
    rounds = 1 if q else 12
    states = runs = accepted = cases = 0
    samples = []
    for round in range(rounds):
        c = Corpus(check, check.seed + round, 8, 14 if q else 40, 6 if q else 10)
        if round == 0:
            # one program each: they stop the compiler in different places
            bad = [p for p in pits if p["name"] in listed]
            c.generate(len(bad), bad, c.name + "-pit")
            rc, errors, other = c.cargo("check")
            for n, es in sorted(errors.items()):
                check.finding(next(p["name"] for p in bad if p["n"] == n), es[0])
            if rc != 0 and not errors:
                raise ToolError("the known findings can't be compiled: " + "\n".join(other)[-2000:])
            c.add([p for p in pits if p["name"] not in listed])
        c.compile()
        res = c.drive()
        for n, a, line in parallel(lambda r: judge_values(check, c, r[0]), [r for r in res if r[2]]):
            runs, accepted = runs + n, accepted + a
            if line and len(samples) < 3 and line["runs"]:
                r = line["runs"][0]
                samples.append({"schema": line["n"], "type": line["types"][r["t"] - 1], "in": bytes(r["in"]).hex(), "r": r["r"]})
        cases += c.stats["cases"]
        states += c.states
        c.cleanup()
    if accepted * 20 < runs or accepted == runs:
        raise ToolError(f"{accepted} of {runs} values accepted")
    check.level = "model_checking"
    check.coverage = {"states": states, "transitions": runs, "traces_validated_against_impl": runs,
                      "schemas_compiled": cases, "pitfalls_not_compiling": len(check.known), "values_accepted": accepted, "pitfalls": len(pits), "samples": samples}
    check.assumptions = ["the generated code compiles with the installed compiler",
                         "conforming means: accepted by Re of Values.tla"]
