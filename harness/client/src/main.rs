mod disco;
mod drive;
#[path = "../../bus/src/exec.rs"]
mod exec;
mod hello;
#[allow(dead_code)]
#[path = "../../bus/src/json.rs"]
mod json;
mod names;
mod ops;
mod tap;
mod vals;
#[allow(dead_code)]
#[path = "../../shared/wire.rs"]
mod wire;
mod world;

use drive::{Driver, PROFILES};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::io::Write;

fn arg(name: &str) -> Option<String> {
    let mut it = std::env::args();
    while let Some(a) = it.next() {
        if a == name {
            return it.next();
        }
    }
    None
}

fn num(name: &str, default: u64) -> u64 {
    arg(name).map(|v| v.parse().unwrap()).unwrap_or(default)
}

/// TLC has no null.
fn no_null(j: &mut J) {
    match j {
        J::Null => *j = json!(0),
        J::Array(a) => a.iter_mut().for_each(no_null),
        J::Object(o) => o.values_mut().for_each(no_null),
        _ => {}
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let (mut last, mut n) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = world::BEAT.load(std::sync::atomic::Ordering::Relaxed);
            n = if now == last { n + 1 } else { 0 };
            last = now;
            if n >= 20 {
                println!("a task doesn't stop running");
                std::process::exit(3);
            }
        }
    });
    let mode = std::env::args().nth(1).unwrap_or_default();
    if mode == "hello" {
        let text = std::fs::read_to_string(arg("--in").expect("--in")).unwrap();
        let mut out = String::new();
        for (n, l) in text.lines().enumerate() {
            let j = hello::run(&serde_json::from_str(l).unwrap(), n as u64);
            out += &format!("{j}\n");
        }
        std::fs::write(arg("--out").expect("--out"), out).unwrap();
        return;
    }
    let seed = num("--seed", 1);
    let count = num("--count", 10);
    let steps = num("--steps", 80) as usize;
    let only = arg("--profile");
    let path = arg("--out").expect("--out");
    let mut out = std::io::BufWriter::new(std::fs::File::create(&path).unwrap());
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let (mut traces, mut lines) = (0, 0);
    for i in 0..count {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
        let profile = only
            .as_deref()
            .unwrap_or(PROFILES[(i % PROFILES.len() as u64) as usize]);
        std::fs::write(
            format!("{path}.current"),
            format!("{mode} --seed {seed} index {i} ({profile})"),
        )
        .unwrap();
        if mode == "disco" {
            traces += 1;
            for mut j in disco::run(s, steps) {
                no_null(&mut j);
                if j["t"] == "reset" || j["t"] == "world" {
                    j["id"] = json!(format!("{mode}/{i}"));
                }
                lines += 1;
                *seen.entry(disco::label(&j)).or_default() += 1;
                writeln!(out, "{j}").unwrap();
            }
            continue;
        }
        let d = Driver::new(s, profile);
        let log = match mode.as_str() {
            "clean" => d.clean(steps),
            "fatal" => d.fatal(steps),
            other => panic!("unknown mode {other}"),
        };
        // One trace per client, the world at the end.
        let mut per: BTreeMap<i64, Vec<J>> = BTreeMap::new();
        for (c, j) in log {
            per.entry(c).or_default().push(j);
        }
        let world = per.remove(&0);
        for (c, ls) in per.into_iter().chain(world.map(|w| (0, w))) {
            traces += 1;
            for mut j in ls {
                no_null(&mut j);
                lines += 1;
                let t = j["t"].as_str().unwrap().to_owned();
                let k = match t.as_str() {
                    "req" => format!("req.{}", j["k"].as_str().unwrap()),
                    "ret" => format!("ret.{}", j["r"]["r"].as_str().unwrap()),
                    "run" => format!(
                        "run.{}",
                        j["r"].as_str().unwrap().split(' ').next().unwrap()
                    ),
                    "rx" => format!("rx.{}", j["m"]["k"].as_str().unwrap()),
                    _ => t.clone(),
                };
                *seen.entry(k).or_default() += 1;
                if t == "reset" || t == "world" {
                    j["id"] = json!(format!("{mode}/{profile}/{i}/{c}"));
                }
                writeln!(out, "{j}").unwrap();
            }
        }
    }
    out.flush().unwrap();
    let _ = std::fs::remove_file(format!("{path}.current"));
    println!("{}", json!({"traces":traces,"lines":lines,"seen":seen}));
}
