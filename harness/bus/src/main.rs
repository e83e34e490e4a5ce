mod bus;
mod exec;
mod gen;
mod json;
mod memt;
mod names;
#[path = "../../shared/wire.rs"]
mod wire;

use bus::{Bus, Event};
use gen::Gen;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::io::Write;
use wire::{Enc, V};

fn arg(name: &str) -> Option<String> {
    let mut it = std::env::args();
    while let Some(a) = it.next() {
        if a == name {
            return it.next();
        }
    }
    None
}

fn num(name: &str, default: u64) -> u64 {
    arg(name).map(|v| v.parse().unwrap()).unwrap_or(default)
}

fn random_trace(prop: &str, seed: u64, steps: usize, out: &mut Vec<J>) {
    let mut rng = SmallRng::seed_from_u64(seed);
    let mut bus = Bus::new();
    let mut gen = Gen::new(gen::profile(prop));
    out.push(json!({"t":"reset","id":seed.to_string()}));
    // Some traces start calm, others are chaotic from the beginning.
    if rng.random_bool(0.3) {
        gen.p.batch = 0.0;
    }
    for i in 0..steps {
        if bus.dead {
            break;
        }
        let evs = gen.next(&mut rng, &bus);
        let line = bus.step(&evs, &mut rng, i % 4 == 0);
        gen.learn(&line);
        out.push(line);
    }
    if bus.dead || !rng.random_bool(gen.p.stop.min(1.0)) {
        finish(&mut bus, &mut rng, 3, out);
    } else {
        let how = rng.random_range(0..4);
        finish(&mut bus, &mut rng, how, out);
    }
}

/// Ends a trace: 0 stop, 1 idle with connections leaving afterwards, 2 connections leave and then
/// idle, 3 nothing.
fn finish(bus: &mut Bus, rng: &mut SmallRng, how: u32, out: &mut Vec<J>) {
    let one = |j: J| vec![Event::new(j)];
    if bus.dead {
        return;
    }
    match how {
        0 => {
            let l = bus.step(&one(json!({"e":"stop"})), rng, false);
            out.push(l);
        }
        1 | 2 => {
            let mut idle = how == 2;
            if !idle {
                let e = if rng.random_bool(0.5) { "idle" } else { "dropall" };
                let l = bus.step(&one(json!({"e":e})), rng, false);
                out.push(l);
            }
            loop {
                if bus.dead {
                    break;
                }
                let conns: Vec<i64> =
                    bus.conns.iter().filter(|(_, c)| c.open).map(|(c, _)| *c).collect();
                if conns.is_empty() {
                    if idle {
                        let l = bus.step(&one(json!({"e":"idle"})), rng, true);
                        out.push(l);
                    }
                    break;
                }
                idle = how == 2;
                let c = conns[rng.random_range(0..conns.len())];
                let kinds: &[&str] = if bus.handle.is_some() {
                    &["shut", "eof", "terr", "drop", "kill"]
                } else {
                    &["shut", "eof", "terr", "drop"]
                };
                let e = kinds[rng.random_range(0..kinds.len())];
                let l = bus.step(&one(json!({"e":e,"c":c})), rng, true);
                out.push(l);
            }
        }
        _ => {}
    }
}

/// Replays a history of BrokerMC. Serials that the broker chooses have names there.
fn replay(id: &str, hist: &[J], out: &mut Vec<J>) {
    let mut rng = SmallRng::seed_from_u64(hist.len() as u64);
    let mut bus = Bus::new();
    out.push(json!({"t":"reset","id":id}));
    let mut names: HashMap<String, String> = HashMap::new();
    for ev in hist {
        if bus.dead {
            break;
        }
        let mut ev = ev.clone();
        let e = ev["e"].as_str().unwrap().to_owned();
        let mut event = match e.as_str() {
            "connect" => {
                for f in ["maj", "min"] {
                    ev[f] = json!(ev[f].as_i64().unwrap().to_string());
                }
                Event::new(ev.clone())
            }
            _ => Event::new(ev.clone()),
        };
        if let Some(c) = ev.get("c").and_then(|c| c.as_i64()) {
            if e != "connect" && !bus.conns.get(&c).is_some_and(|c| c.open) {
                continue;
            }
        }
        if e == "msg" {
            let k = ev["m"]["k"].as_str().unwrap().to_owned();
            if let Some(p) = ev["m"].get("p") {
                let v = p["v"].as_i64().unwrap() as u32;
                let (val, enc) = match p["w"].as_i64().unwrap() {
                    0 => (V::U32(v), Enc::V1),
                    1 => (V::Vec(vec![V::U32(v)]), Enc::V1),
                    _ => (V::Vec(vec![V::U32(v)]), Enc::V2),
                };
                event.raw = val.encode(enc, &mut rng);
            }
            let alias = match k.as_str() {
                "CallFunctionReply" | "QueryIntrospectionReply" => {
                    ev["m"]["s"].as_str().map(str::to_owned)
                }
                _ => None,
            };
            if let Some(a) = alias {
                let to = match names.get(&a) {
                    Some(s) => s.clone(),
                    // Nobody was ever shown this serial.
                    None => "4000000000".to_owned(),
                };
                event.j["m"]["s"] = json!(to);
            }
            if k == "CreateService2" || k == "RegisterIntrospection" {
                event.two = bus.conns[&ev["c"].as_i64().unwrap()].minor >= 20;
            }
        }
        let line = bus.step(&[event], &mut rng, true);
        for o in line["out"].as_array().unwrap() {
            for m in o["ms"].as_array().unwrap() {
                match m["k"].as_str().unwrap() {
                    "CallFunction" | "CallFunction2" => {
                        if let Some(al) = ev.get("al").and_then(|a| a.as_str()) {
                            names.insert(al.to_owned(), m["s"].as_str().unwrap().to_owned());
                        }
                    }
                    "QueryIntrospection" => {
                        names.insert(format!("q{}", m["ty"]), m["s"].as_str().unwrap().to_owned());
                    }
                    _ => {}
                }
            }
        }
        out.push(line);
    }
}

/// The broker or a connection that keeps running without an end must not take the check with it.
fn watchdog() {
    let (mut last, mut n) = (0, 0);
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = bus::BEAT.load(std::sync::atomic::Ordering::Relaxed);
        n = if now == last { n + 1 } else { 0 };
        last = now;
        if n >= 30 {
            println!("a task doesn't stop running");
            std::process::exit(3);
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(watchdog);
    let mode = std::env::args().nth(1).unwrap_or_default();
    match mode.as_str() {
        "random" => {
            let prop = arg("--prop").unwrap();
            let seed = num("--seed", 1);
            let traces = num("--traces", 10);
            let steps = num("--steps", 100) as usize;
            let mut lines = Vec::new();
            for i in 0..traces {
                random_trace(&prop, seed * 1_000_003 + i, steps, &mut lines);
            }
            let mut f =
                std::io::BufWriter::new(std::fs::File::create(arg("--out").unwrap()).unwrap());
            for l in lines {
                writeln!(f, "{l}").unwrap();
            }
        }
        "replay" => {
            let text = std::fs::read_to_string(arg("--in").unwrap()).unwrap();
            let mut f =
                std::io::BufWriter::new(std::fs::File::create(arg("--out").unwrap()).unwrap());
            for (n, line) in text.lines().enumerate() {
                let hist: Vec<J> = serde_json::from_str(line).unwrap();
                let mut lines = Vec::new();
                replay(&n.to_string(), &hist, &mut lines);
                for l in lines {
                    writeln!(f, "{l}").unwrap();
                }
            }
        }
        other => {
            eprintln!("unknown mode {other}");
            std::process::exit(2);
        }
    }
}
