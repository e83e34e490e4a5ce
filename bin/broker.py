"""Checks decided by Broker.tla: C02 C03 C04 C05 C09 C10 C11 C12."""
import json, os, random
from collections import Counter
import client
from vlib import *


def summarise(path, cov):
    """Counts what a recorded trace file contains."""
    n = 0
    last = None
    with open(path) as f:
        for line in f:
            j = json.loads(line)
            if j["t"] != "step":
                continue
            n += 1
            for e in j["ev"]:
                cov["ev:" + (e["m"]["k"] if e["e"] == "msg" else e["e"])] += 1
            for o in j["out"]:
                for m in o["ms"]:
                    if m["k"] != "Closed":
                        cov["out:" + m["k"] + ("/" + m["r"] if "r" in m else "")] += 1
                    else:
                        cov["out:Closed"] += 1
            if len(j["ev"]) > 1:
                cov["batches"] += 1
            if len(j["out"]) > 1:
                last = line.strip()
    return n, last


def validate(check, path, what):
    """Lets TLC compare a recorded file with the specification."""
    rc, out = tlc("BrokerTrace", env={"TRACE": path})
    d = done(out)
    failed = d is None or not tlc_ok(out)
    lines, fails, conv, zombie = d or (0, 1, 0, 0)
    if fails:
        with open(path) as f:
            recorded = f.read().split("\n")
        mism = blocks(out, "MISMATCH")
        whys = blocks(out, "WHY")
        for m, w in zip(mism, whys):
            nums = re.search(r'"MISMATCH",\s*"([^"]*)",\s*(\d+)', m)
            at = int(nums.group(2))
            start = max(i for i in range(at) if recorded[i].startswith('{"id"') or '"t":"reset"' in recorded[i])
            check.violation(f"{what}: the recorded behaviour is not one of the specification, step {at - start - 1} "
                            f"of trace {nums.group(1)}\nrecorded: {recorded[at - 1][:1500]}\n{w[:3000]}",
                            ["trace:"] + recorded[start:at])
    if failed and puzzled(out):
        with open(path) as f:
            recorded = f.read().split("\n")
        at = re.findall(r"^/\\ i = (\d+)", out, re.M)
        at = int(at[-1]) if at else 1
        check.violation(f"{what}: the recorded behaviour is nothing that the specification knows, line {at}: "
                        f"{recorded[at - 1][:1500]}", ["TLC:", out[-3000:], "trace:"] + recorded[max(0, at - 200):at])
        return {"fails": 1, "conv": 0, "zombie": 0}
    if failed:
        raise ToolError("trace validation failed:\n" + out[-3000:])
    return {"fails": fails, "conv": conv, "zombie": zombie}


# When the process with the broker did not survive.
DIED = {"fails": 1, "conv": 0, "zombie": 0, "steps": 0, "sample": None}

# Exploration of BrokerMC: focus -> (depth, histories printed per 100000 transitions) quick, thorough,
# and (walks, events per walk) of the simulator.
FOCI = {
    "calls": ((3, 2000), (5, 600), (150, 25)),
    "reg": ((4, 2500), (6, 600), (150, 25)),
    "events": ((3, 6000), (5, 1500), (150, 25)),
    "events2": ((2, 2500), (3, 4000), (150, 30)),
    "chan": ((3, 600), (4, 2500), (150, 25)),
    "flow": ((4, 8000), (7, 3000), (150, 30)),
    "listen": ((2, 6000), (4, 400), (150, 25)),
    "leave": ((3, 2500), (6, 2000), (60, 8)),
    "hostile": ((1, 250), (1, 10000), (60, 20)),
    "intro": ((3, 8000), (6, 500), (150, 20)),
    "gate": ((2, 6000), (3, 10000), (50, 8)),
    "hello": ((1, 100000), (2, 20000), (0, 0)),
}
PROP_FOCI = {
    "C02": ["calls", "leave"], "C03": ["reg", "leave"], "C04": ["events", "events2", "leave"],
    "C05": ["chan", "flow"], "C09": ["leave", "intro"], "C10": ["listen"],
    "C11": ["hostile", "intro"], "C12": ["gate", "hello"],
}


# The client's half of a property: programs against real clients, judged by Client.tla.
PROP_CLIENT = {"C04": "events", "C05": "channels", "C10": "listeners", "C12": "mixed"}


def interrupted(check, vbus, focus):
    """Behaviours of the specification, followed by a connection task that is dropped and by the others
    leaving. The broker notices the former only when it tries to send something to that connection."""
    rng = random.Random(check.seed)
    env = {"FOCUS": focus, "SAMPLE": "100000", "SEED": str(check.seed), "WALK": "0"}
    def hists(depth, **kw):
        rc, out = tlc("BrokerMC", env=dict(env, DEPTH=str(depth), **kw), workers=2, heap="4g", timeout=3000,
                      args=["-simulate", f"num={60 if check.quick else 3000}", "-depth", "48",
                            "-seed", str(check.seed)] if kw else [])
        if "Error:" in out or "violated" in out:
            raise ToolError(f"exploration fails (focus {focus}):\n" + out[-3000:])
        return [json.loads(w.replace('\\"', '"')) for w in sorted(set(re.findall(r'^"HIST (.*)"$', out, re.M)))]
    some = hists(2)
    if check.quick:
        some = rng.sample(some, min(len(some), 200))
    cases = [(h, c) for h in hists(1) for c in {e["c"] for e in h if e["e"] == "connect"}]
    cases += [(h, 0) for h in some + hists(10, WALK="1")]
    src = os.path.join(check.dir, f"i-{focus}.json")
    path = os.path.join(check.dir, f"i-{focus}.ndjson")
    with open(src, "w") as f:
        for h, c in cases:
            conns = [e["c"] for e in h if e["e"] == "connect"]
            at = len(h)
            if not c:
                c = rng.choice(conns)
                at = rng.randint(max(i for i, e in enumerate(h) if e["e"] == "connect") + 1, at)
            rest = [d for d in conns if d != c]
            rng.shuffle(rest)
            h = h[:at] + [{"e": "drop", "c": c}] + h[at:]
            h += [{"e": rng.choice(["shut", "eof", "terr"]), "c": d} for d in rest]
            f.write(json.dumps(h, separators=(",", ":")) + "\n")
    what = f"interrupted behaviour of the specification ({focus})"
    c = Counter()
    if not harness(check, [vbus, "replay", "--in", src, "--out", path], what):
        return dict(DIED), c
    v = validate(check, path, what)
    v["steps"], v["sample"] = summarise(path, c)
    v["replayed"] = len(cases)
    os.remove(path)
    return v, c


def explore(check, vbus, focus):
    """Explores the specification; histories it prints are replayed against the real broker."""
    quick, thorough, walk = FOCI[focus]
    depth, sample = quick if check.quick else thorough
    env = {"FOCUS": focus, "DEPTH": str(depth), "SAMPLE": str(sample), "SEED": str(check.seed), "WALK": "0"}
    rc, out = tlc("BrokerMC", env=env, workers=4, heap="6g", timeout=3000)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not tlc_ok(out) or not m:
        raise ToolError(f"the specification does not satisfy the properties (focus {focus}):\n" + out[-3000:])
    res = {"focus": focus, "depth": depth, "transitions": int(m.group(1)), "states": int(m.group(2))}
    hists = re.findall(r'^"HIST (.*)"$', out, re.M)
    cap = 700 if check.quick else 20000
    rng = random.Random(check.seed)
    if len(hists) > cap:
        hists = rng.sample(hists, cap)
    if walk[0]:
        num, length = walk[0] * (1 if check.quick else 20), walk[1]
        env.update(WALK="1", DEPTH=str(length))
        rc, out = tlc("BrokerMC", env=env, workers=2, heap="4g", timeout=3000,
                      args=["-simulate", f"num={num}", "-depth", str(length + 40), "-seed", str(check.seed)])
        if "Error:" in out or "violated" in out:
            raise ToolError(f"simulation fails (focus {focus}):\n" + out[-3000:])
        hists += sorted(set(re.findall(r'^"HIST (.*)"$', out, re.M)))
    hists = [h.replace('\\"', '"') for h in hists]
    if not hists:
        raise ToolError(f"nothing to replay (focus {focus})")
    res["replayed"] = len(hists)
    res["sample"] = hists[-1][-600:]
    size = 200 if check.quick else 1000
    parts = [hists[i:i + size] for i in range(0, len(hists), size)]

    def part(i):
        src = os.path.join(check.dir, f"h-{focus}-{i}.json")
        path = os.path.join(check.dir, f"h-{focus}-{i}.ndjson")
        with open(src, "w") as f:
            f.write("\n".join(parts[i]) + "\n")
        what = f"behaviour of the specification ({focus})"
        c = Counter()
        if not harness(check, [vbus, "replay", "--in", src, "--out", path], what):
            return dict(DIED), c
        v = validate(check, path, what)
        v["steps"], _ = summarise(path, c)
        os.remove(path)
        return v, c

    res["parts"] = parallel(part, range(len(parts)), jobs=4)
    return res


def handshakes(check, vclient):
    """Every handshake of HandshakeMC, tried with the real client and acceptor."""
    rc, out = tlc("HandshakeMC")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not tlc_ok(out) or not m:
        raise ToolError("the specification of handshakes is wrong:\n" + out[-3000:])
    scs = [x.replace('\\"', '"') for x in re.findall(r'^"HELLO (.*)"$', out, re.M)]
    src, path = os.path.join(check.dir, "hello.json"), os.path.join(check.dir, "hello.ndjson")
    with open(src, "w") as f:
        f.write("\n".join(scs) + "\n")
    cmd = [vclient, "hello", "--in", src, "--out", path]
    if not harness(check, cmd, "handshakes"):
        return {"states": int(m.group(2)), "transitions": int(m.group(1)), "replayed": 0, "sample": ""}
    rc, out = tlc("HandshakeTrace", env={"TRACE": path})
    d = done(out)
    if d is None or not tlc_ok(out):
        raise ToolError("HandshakeTrace failed:\n" + out[-3000:])
    if d[1]:
        with open(path) as f:
            lines = f.read().split("\n")
        for n, what in re.findall(r'<<\s*"BROKEN",\s*(\d+),\s*\{([^}]*)\}', out):
            check.violation(f"handshake: {what} not as specified: {lines[int(n) - 1]}",
                            ["command: " + " ".join(cmd), lines[int(n) - 1]])
    return {"states": int(m.group(2)), "transitions": int(m.group(1)), "replayed": d[0], "sample": scs[-1]}


def check_broker(check):
    prop = check.prop
    vbus = build("bus", "vbus", hooks=True)
    chunks, traces = (8, 160) if check.quick else (32, 1500)
    cov = Counter()

    def chunk(i):
        path = os.path.join(check.dir, f"r{i}.ndjson")
        # Every fourth chunk mixes in everything else.
        prof = prop if i % 4 else ("ALL" if prop not in ("C09", "C11", "C12") else prop)
        c = Counter()
        if not harness(check, [vbus, "random", "--prop", prof, "--seed", str(check.seed * 1000 + i),
                               "--traces", str(traces), "--steps", "100", "--out", path], f"random traffic ({prof})"):
            return dict(DIED), c
        res = validate(check, path, f"random traffic ({prof})")
        res["steps"], res["sample"] = summarise(path, c)
        os.remove(path)
        return res, c

    foci = PROP_FOCI[prop]
    jobs = [("mc", f) for f in foci] + [("random", i) for i in range(chunks)]
    if prop in PROP_CLIENT:
        vclient = build("client", "vclient")
        jobs += [("client", i) for i in range(8 if check.quick else 80)]

    if prop == "C12":
        jobs.append(("hello", 0))
    if prop == "C09":
        jobs += [("drop", f) for f in ("calls", "events", "chan", "flow", "listen", "intro")]

    def job(j):
        if j[0] == "hello":
            return handshakes(check, vclient)
        if j[0] == "drop":
            return interrupted(check, vbus, j[1])
        if j[0] == "mc":
            return explore(check, vbus, j[1])
        if j[0] == "random":
            return chunk(j[1])
        steps = [40, 80, 160, 300][j[1] % 4]
        return client.recorded(check, vclient, "clean", check.seed * 1000 + 500 + j[1],
                               16000 // steps if check.quick else 24000 // steps, steps, PROP_CLIENT[prop])
    both = parallel(job, jobs)
    mc = both[:len(foci)]
    res = both[len(foci):len(foci) + chunks]
    programs = both[len(foci) + chunks:]
    hello = programs.pop() if prop == "C12" else None
    if prop == "C09":
        res += programs
        programs = []
    for e in mc:
        res += e.pop("parts")
    for r, c in res:
        cov.update(c)
    if prop == "C11" and sum(r["conv"] for r, _ in res):
        check.finding("receiver-closed-by-garbage-payload", "payload that cannot be converted closes the receiver")
    if prop == "C09" and sum(r["zombie"] for r, _ in res):
        check.finding("dropped-task-unnoticed", "broker keeps a connection whose task was dropped")
    check.level = "model_checking"
    check.coverage = {
        "states": sum(e["states"] for e in mc), "transitions": sum(e["transitions"] for e in mc),
        "traces_validated_against_impl": chunks * traces + sum(e["replayed"] for e in mc)
        + sum(r.get("replayed", 0) for r, _ in res),
        "steps_validated": sum(r["steps"] for r, _ in res),
        "events_validated": sum(v for k, v in cov.items() if k.startswith("ev:")),
        "exploration": mc,
        "samples": [r["sample"] for r, _ in res if r.get("sample")][:2] + [e["sample"] for e in mc],
        "seen": {k: v for k, v in sorted(cov.items())},
    }
    if hello:
        check.coverage["states"] += hello["states"]
        check.coverage["transitions"] += hello["transitions"]
        check.coverage["traces_validated_against_impl"] += hello["replayed"]
        check.coverage["handshakes"] = hello
    if programs:
        seen = Counter()
        for r in programs:
            seen.update(r["seen"])
        check.coverage["traces_validated_against_impl"] += sum(r["traces"] for r in programs)
        check.coverage["client_programs"] = {
            "profile": PROP_CLIENT[prop], "programs": sum(r["traces"] for r in programs),
            "steps_validated": sum(r["lines"] for r in programs), "seen": dict(sorted(seen.items())),
        }
