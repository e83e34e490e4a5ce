#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification checked with TLC; recorded behaviour of the real code validated against it"
BROKER = ("Every recorded step of the real broker (random hostile and benign traffic, faults, disconnects, batches) must be a step of "
          "Broker.tla with exactly the specified messages to every connection, state sizes and counters. Bounded by the "
          "traces generated per run; trusts the in-memory transport and the trace recorder.")
CODEC = ("Wire.tla is a reference decoder/encoder; TLC enumerates byte strings over small alphabets and judges recorded uses of the "
         "real codec on these and on random, mutated, deep and huge inputs. Bounded by the inputs tried per run; unsampled "
         "cases pass through a Rust mirror that hands everything odd to TLC.")
CHECKS = {
    "C01": ("model_checking", CODEC), "C07": ("model_checking", CODEC), "C13": ("model_checking", CODEC),
    "C08": ("model_checking", CODEC.replace("Wire.tla is a reference decoder/encoder", "Message.tla is a reference parser/encoder of all 63 frames").replace("byte strings over small alphabets", "all messages over small domains and frames near them")),
    "C02": ("model_checking", BROKER), "C03": ("model_checking", BROKER), "C04": ("model_checking", BROKER),
    "C05": ("model_checking", BROKER), "C09": ("model_checking", BROKER), "C10": ("model_checking", BROKER),
    "C11": ("model_checking", BROKER), "C12": ("model_checking", BROKER),
}
CHECKS["C14"] = ("model_checking", "Framing.tla is a reference of packetizer and transport; TLC enumerates feeds and I/O behaviours, "
                 "the real ones are driven through them (scaled around the buffer sizes) and through random ones, and TLC judges every "
                 "recorded step. Bounded by the traces generated per run.")
CLIENT = ("Client.tla specifies the client: what every request, message and API operation does and when an operation completes; TLC "
          "judges every recorded step of real clients connected to a real broker (requests handled, messages, results, quiescence, end) "
          "of random multi-client programs under random schedules, %s. Bounded by the programs generated per run.")
CHECKS["C06"] = ("model_checking", CLIENT % "on bounded and unbounded transports")
CHECKS["C15"] = ("model_checking", CLIENT % "with a fault injected at a random transport operation of either side or a clean end at a random point")
CHECKS["C18"] = ("model_checking", "Schema.tla specifies abstract and concrete syntax of schemas; TLC generates schemas, the real formatter is run on many "
                 "layouts of each, and TLC judges from the dumped ASTs that formatting keeps the schema and its comments and docs and is idempotent. "
                 "Bounded by the schemas and layouts generated per run.")
CHECKS["C17"] = ("exploration", "FrontEnd.tla specifies what parser, formatter, code generator and renderers owe for any source: an outcome without panic, "
                 "deterministic, with renderable diagnostics and errors exactly when the schema isn't accepted; TLC judges the recorded runs on token soups, mutated "
                 "schemas, generated schemas and import webs. Bounded by the sources tried per run.")
CHECKS["C20"] = ("model_checking", "Layout.tla specifies which descriptions of types are the same; TLC generates universes of types with all single edits, the real "
                 "code computes ids and records of each, and TLC judges that ids and descriptions correspond one to one and that records say what was "
                 "described. Bounded by the universes generated per run.")
CHECKS["C16"] = ("model_checking", "Values.tla specifies what a type of a schema accepts and what it turns a value into; TLC generates schemas (old and new "
                 "versions), conforming values and mutations; the generated code is compiled and run on them, and TLC judges every outcome. Corner schemas are "
                 "compiled as well. Bounded by the schemas and values generated per run.")
CHECKS["C19"] = ("model_checking", "Discovery.tla specifies what discoverers, lifetimes and searches report as functions of the history of the bus; random programs "
                 "of real clients run under random schedules with an observer on the bus, and TLC judges every report, view and result, and what stays pending. "
                 "Bounded by the programs and schedules run.")
TECH = {p: TV + " (Broker.tla: BrokerMC exploration with monitors, BrokerMC histories replayed, random histories validated by BrokerTrace)"
        for p in ("C02", "C03", "C09", "C11")}
for p in ("C04", "C05", "C10"):
    TECH[p] = TECH["C02"] + "; programs of real clients validated against Client.tla"
TECH["C12"] = TECH["C04"] + "; all handshakes of Handshake.tla tried on the real acceptor and client"
for p in ("C06", "C15"):
    TECH[p] = TV + " (Client.tla: programs of real clients and a real broker under random schedules and faults, every step validated by ClientTrace)"
TECH["C19"] = TV + " (Discovery.tla: reports as functions of the history of the bus, programs of real clients validated by DiscoveryTrace)"
for p in ("C01", "C07", "C13"):
    TECH[p] = TV + " (Wire.tla: reference codec, WireMC enumeration of byte strings, uses of the real codec judged by WireTrace)"
TECH["C08"] = TV + " (Message.tla: reference codec of all frames, MessageMC enumeration, uses of the real codec judged by MessageTrace)"
TECH["C14"] = TV + " (Framing.tla: FramingMC behaviours replayed at the real buffer sizes, random I/O scripts, validated by FramingTrace)"
TECH["C16"] = TV + " (Values.tla: schemas and values generated by CorpusGen, generated code compiled and run, outcomes judged by CorpusTrace)"
TECH["C17"] = TV + " (FrontEnd.tla and Cli.tla: runs of the real front end and of aldrin-gen on any text judged by FrontEndTrace and CliTrace)"
TECH["C18"] = TV + " (Schema.tla and Cli.tla: schemas generated by SchemaGen through the real formatter and aldrin-gen, judged by SchemaTrace and CliTrace)"
TECH["C20"] = TV + " (Layout.tla: universes and all single edits by LayoutGen through the real introspection, judged by LayoutTrace)"
NOTYET = "not built yet"
ALL = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
man = {
    "version": 1, "setup_cmd": "bin/setup",
    "hooks": {"guard": "cargo feature `verif-hooks` of aldrin-broker and of aldrin (off by default)",
              "enable": "harness/bus depends on aldrin-broker with features = [\"verif-hooks\"] (its own default feature `hooks`); harness/client depends on both with it",
              "source_commits": ["aa218b7", "bc42c11", "b946b84"]},
    "checks": [{"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"bin/check {p} --thorough",
                "technique": TECH.get(p, TV), "level": CHECKS[p][0], "level_note": CHECKS[p][1]}
               for p in ALL if p in CHECKS],
    "not_applicable": [{"property": p, "reason": NOTYET} for p in ALL if p not in CHECKS],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
