"""Shared parts of the checks: building the harnesses, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
BUILD = os.path.join(VERIF, "build")
SPECS = os.path.join(VERIF, "specs")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def known_findings(prop):
    """Entries of the known findings file: key -> text."""
    out = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.start = time.time()
        self.violations = []
        self.known = {}
        self.coverage = {}
        self.assumptions = []
        self.level = "exploration"
        self.dir = os.path.join(BUILD, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(BUILD, "replay")
        os.makedirs(self.replays, exist_ok=True)

    def violation(self, what, lines=None, replay=None):
        """Reports a violation and writes down how to see it again."""
        n = len(self.violations)
        if n >= 20:
            self.violations.append(what)
            return
        path = os.path.join(self.replays, f"{self.prop}-{self.seed}-{n}.txt")
        if replay and os.path.exists(replay):
            path = replay
        else:
            with open(path, "w") as f:
                f.write(what + "\n")
                for l in lines or []:
                    f.write(l + "\n")
        self.violations.append(what)
        log(f"VIOLATION property={self.prop} replay={path}")
        log("  " + what[:2000].replace("\n", "\n  "))

    def finding(self, key, what):
        self.known[key] = self.known.get(key, 0) + 1
        if self.known[key] == 1:
            self.known[key] = 1
            self.known_text = getattr(self, "known_text", {})
            self.known_text[key] = what

    def finish(self):
        listed = known_findings(self.prop)
        for key, n in sorted(self.known.items()):
            if key in listed:
                log(f"KNOWN-FINDING: property={self.prop} {listed[key]} (seen {n} times)")
            else:
                self.violation(f"{key}: {self.known_text[key]}")
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough",
              "seed": self.seed, "level": self.level, "coverage": self.coverage,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        log(f"{self.prop}: {len(self.violations)} violations, {ev['wall_s']} s")
        shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.violations else 0


def cargo(crate, args=()):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    return subprocess.run(["cargo", "build", "--offline", "-q", *args],
                          cwd=os.path.join(VERIF, "harness", crate), env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(crate, binary, hooks=False):
    """Builds a harness crate against /repo and returns the binary."""
    r = cargo(crate)
    if r.returncode != 0 and hooks:
        log(f"note: {crate} does not build with verif-hooks, going on without")
        r = cargo(crate, ["--no-default-features"])
    if r.returncode != 0:
        raise ToolError(f"building harness {crate} failed:\n{r.stdout[-4000:]}")
    return os.path.join(TARGET, "debug", binary)


def run(cmd, timeout=800, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, text=True, input=stdin,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise ToolError(f"timeout: {' '.join(cmd)[:300]}") from x


def harness(check, cmd, what, timeout=800):
    """Runs a harness that steps the real code. If it doesn't survive, then because of the real code."""
    try:
        r = run(cmd, timeout=timeout)
        if r.returncode == 0:
            return r
        bad = f"the process did not survive (exit {r.returncode}): {r.stdout[-500:].strip()}"
        if r.returncode not in (-6, -11, -4, -5, -8, 3, 101):
            raise ToolError("harness failed: " + bad)
    except ToolError as e:
        if not str(e).startswith("timeout"):
            raise
        bad = "no end in sight"
    check.violation(f"{what}: {bad}", ["command: " + " ".join(cmd)])
    return None


def puzzled(out):
    """Whether TLC could not even evaluate what was recorded (and not for lack of memory)."""
    return (re.search(r"Error: (TLC threw an unexpected exception|Evaluating|The following|Attempted|In evaluation)", out)
            and not re.search(r"OutOfMemory|StackOverflow|heap space|No space", out))


def unjudged(check, spec, what, out, cmd=()):
    """TLC gave up on a record. If it is one that the specification can't even talk about, then that's because of the code."""
    if not puzzled(out):
        raise ToolError(f"{spec} failed:\n" + out[-3000:])
    check.violation(f"{what}: a record is nothing that {spec} knows", ["command: " + " ".join(cmd), out[-3000:]])


_n = [0]


def tlc(spec, cfg=None, env=None, args=(), timeout=800, heap="2g", fast=True, workers=1):
    """Runs TLC on specs/<spec>.tla and returns its output."""
    _n[0] += 1
    meta = os.path.join(BUILD, "tlc", f"{os.getpid()}-{_n[0]}")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    jvm = ["-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m"]
    if fast:
        jvm.append("-XX:TieredStopAtLevel=1")
    cmd = ["java", *jvm, f"-Djava.io.tmpdir={meta}", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or spec) + ".cfg", *args, spec + ".tla"]
    try:
        r = run(cmd, timeout=timeout, env=env, cwd=SPECS)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def parallel(f, items, jobs=None):
    with ThreadPoolExecutor(max_workers=jobs or JOBS) as ex:
        return list(ex.map(f, items))


def tlc_ok(out):
    return "Model checking completed. No error has been found" in out


def done(out, name="DONE"):
    """The numbers of a <<"DONE", ...>> line."""
    m = re.search(r'<<"%s", ([-0-9, ]*)>>' % name, out)
    if not m:
        return None
    return [int(x) for x in m.group(1).split(",")]


def blocks(out, name):
    """Text from <<"name" up to the next TLC value at the start of a line."""
    res, cur = [], None
    for line in out.split("\n"):
        if re.match(r'<<\s*"[A-Z-]+"|^(Model checking|Finished|Progress|The |Error)', line):
            if cur is not None:
                res.append("\n".join(cur))
                cur = None
            if re.match(r'<<\s*"%s"' % name, line):
                cur = [line]
        elif cur is not None:
            cur.append(line)
    if cur is not None:
        res.append("\n".join(cur))
    return res
