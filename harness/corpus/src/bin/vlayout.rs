//! Type ids and introspection records of hand-built descriptions, for specs/LayoutTrace.tla to judge.
use aldrin_core::TypeId;
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value as J};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use vcorpus::record::record_all;
use vcorpus::slots::Universe;
use vcorpus::{arg, caught};

fn types(w: &J) -> Vec<J> {
    w["types"].as_array().unwrap().clone()
}

fn shuffled(mut refs: Vec<usize>, rng: &mut SmallRng) -> Vec<usize> {
    for _ in 0..rng.random_range(0..3) {
        if !refs.is_empty() {
            refs.push(refs[rng.random_range(0..refs.len())]);
        }
    }
    refs.shuffle(rng);
    refs
}

/// All ids of a universe, several times over.
fn ids(w: &J, rng: &mut SmallRng, bad: &mut Vec<String>) -> Vec<String> {
    let types = types(w);
    let mut all: Vec<String> = Vec::new();
    for round in 0..3 {
        let u = Universe::new(&w["u"], &types, &mut |r| if round == 0 { r } else { shuffled(r, rng) });
        let ids: Vec<String> = types.iter().map(|t| TypeId::compute_from_dyn(u.get(t)).0.to_string()).collect();
        if round == 0 {
            all = ids;
        } else if all != ids {
            bad.push(format!("ids differ between two runs: {all:?} {ids:?}"));
        }
    }
    all
}

fn main() {
    vcorpus::quiet_panics();
    let mut rng = SmallRng::seed_from_u64(arg("--seed").unwrap().parse().unwrap());
    let mut out = BufWriter::new(File::create(arg("--out").unwrap()).unwrap());
    let (mut lines, mut universes, mut count) = (0, 0, 0);
    for line in BufReader::new(File::open(arg("--in").unwrap()).unwrap()).lines() {
        let l: J = serde_json::from_str(&line.unwrap()).unwrap();
        let mut bad = Vec::new();
        let mut recs = Vec::new();
        let base_ids = caught(|| {
            let base = &l["base"];
            let ids = ids(base, &mut rng, &mut bad);
            let types = types(base);
            let u = Universe::new(&base["u"], &types, &mut |r| shuffled(r, &mut rng));
            recs = types.iter().map(|t| record_all(u.get(t), &mut bad)).collect();
            ids
        })
        .unwrap_or_else(|p| {
            bad.push(p);
            Vec::new()
        });
        let mut edits = Vec::new();
        for w in l["edits"].as_array().unwrap() {
            let ids = caught(|| ids(w, &mut rng, &mut bad)).unwrap_or_else(|p| {
                bad.push(p);
                Vec::new()
            });
            count += ids.len();
            universes += 1;
            edits.push(json!({"u": w["u"], "types": w["types"], "ids": ids}));
        }
        count += base_ids.len();
        lines += 1;
        universes += 1;
        let l = json!({"n": l["n"], "bad": bad, "base": {"u": l["base"]["u"], "types": l["base"]["types"], "ids": base_ids}, "recs": recs, "edits": edits});
        writeln!(out, "{l}").unwrap();
    }
    println!("{}", json!({"lines": lines, "universes": universes, "ids": count}));
}
