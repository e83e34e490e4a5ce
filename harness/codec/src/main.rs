//! Records what the real codecs do with byte strings, values and messages, for the specifications
//! in specs/Wire.tla and specs/Message.tla to judge.
//!
//! A mirror of the specification in Rust looks at every case; what it finds odd and a random
//! sample of the rest are written out. The mirror decides nothing.
mod alloc;
mod gen;
mod msg;
#[path = "../../shared/wire.rs"]
mod wire;
mod real;

use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::os::unix::fs::FileExt;
use wire::{Dec, Enc, V};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

struct Sink {
    out: BufWriter<File>,
    cur: File,
    total: u64,
    written: u64,
    odd: u64,
    kinds: BTreeMap<String, u64>,
}

impl Sink {
    /// Leaves the case behind in case the process does not survive it.
    fn current(&mut self, what: &str, b: &[u8]) {
        let mut s = format!("{what} ");
        for x in b.iter().take(4000) {
            s.push_str(&format!("{x:02x}"));
        }
        s.push('\n');
        s.push_str(&" ".repeat(64));
        s.push('\n');
        self.cur.write_at(s.as_bytes(), 0).expect("current case");
    }

    fn put(&mut self, j: &serde_json::Value) {
        self.written += 1;
        writeln!(self.out, "{j}").expect("write");
    }
}

fn mirror(b: &[u8], o: &real::Out) -> bool {
    let mut d = Dec { buf: b, w: 0 };
    let (len, v) = match d.val(0) {
        Ok(v) => (Some(b.len() - d.buf.len()), Some(v)),
        Err(_) => (None, None),
    };
    let u = v.as_ref().map(gen::utf8).unwrap_or(false);
    let canon = v.as_ref().filter(|_| u).map(V::canon);
    let whole = len == Some(b.len());
    if o.len != len || o.decn != canon || o.dec != if whole { canon.clone() } else { None } {
        return false;
    }
    if let Some(c) = &o.conv {
        if !whole {
            return false;
        }
        if u {
            if o.conv_dec != canon {
                return false;
            }
            match V::decode(c) {
                Ok((cv, w)) if w < 2 && Some(cv.canon()) == canon => {}
                _ => return false,
            }
        }
    }
    true
}

fn value_case(s: &mut Sink, b: &[u8], what: &str, r: &mut SmallRng, always: bool, p: f64) {
    s.current(what, b);
    let n = if r.random_bool(0.05) { real::PAIRS.len() } else { 2 };
    let pairs: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { r.random_range(0..real::PAIRS.len()) }).collect();
    // The specification takes long for long inputs.
    let p = p / (1.0 + (b.len() as f64 / 60.0).powi(2));
    let (seed, sampled) = (r.random(), always || r.random_bool(p));
    let o = real::value_case(b, seed, &pairs, sampled);
    s.total += 1;
    *s.kinds.entry(what.to_string()).or_default() += 1;
    if o.len.is_some() {
        *s.kinds.entry(format!("kind{}", b[0])).or_default() += 1;
    }
    let odd = o.odd || !mirror(b, &o);
    if odd {
        s.odd += 1;
    }
    if sampled {
        s.put(&o.j);
    } else if odd && s.odd < 300 {
        s.put(&real::value_case(b, seed, &pairs, true).j);
    }
}

fn ser_case(s: &mut Sink, v: &V, r: &mut SmallRng, always: bool, p: f64) {
    let b = v.encode(Enc::V1, r);
    s.current("serialize", &b);
    let how = r.random_range(0..3);
    let n = if r.random_bool(0.2) { 250 + r.random_range(0..10) } else { r.random_range(1..20) };
    let sampled = always || r.random_bool(p / (1.0 + (b.len() as f64 / 60.0).powi(2)));
    let (j, odd) = real::ser_case(v, how, n, sampled);
    let odd = if j["ok"] == true { odd } else { j["deep"] != true || V::decode(&b).is_ok() };
    s.total += 1;
    *s.kinds.entry(format!("ser{how}")).or_default() += 1;
    if odd {
        s.odd += 1;
    }
    if sampled {
        s.put(&j);
    } else if odd && s.odd < 300 {
        s.put(&real::ser_case(v, how, n, true).0);
    }
}

fn frame_case(s: &mut Sink, b: &[u8], what: &str, r: &mut SmallRng, always: bool, p: f64) {
    s.current(what, b);
    let (j, odd) = msg::case(b, r);
    let ok = j["ok"] == true;
    let odd = odd || ok != msg::mirror(b);
    s.total += 1;
    *s.kinds.entry(what.to_string()).or_default() += 1;
    if ok {
        *s.kinds.entry(format!("frame{}", b[4])).or_default() += 1;
    }
    if odd {
        s.odd += 1;
    }
    if always || (odd && s.odd < 300) || r.random_bool(p / (1.0 + b.len() as f64 / 60.0)) {
        s.put(&j);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
    let num = |name: &str, d: f64| opt(name).map(|s| s.parse::<f64>().expect(name)).unwrap_or(d);
    std::panic::set_hook(Box::new(|_| {}));
    let mode = args[1].clone();
    let out = opt("--out").expect("--out");
    let cur = format!("{out}.current");
    let mut s = Sink {
        out: BufWriter::new(File::create(&out).expect("out")),
        cur: File::create(&cur).expect("current"),
        total: 0,
        written: 0,
        odd: 0,
        kinds: BTreeMap::new(),
    };
    let seed = num("--seed", 1.0) as u64;
    let count = num("--count", 1000.0) as u64;
    let p = num("--sample", 1.0);
    let mut r = SmallRng::seed_from_u64(seed);
    match mode.as_str() {
        // Random byte strings.
        "values" => {
            for _ in 0..count {
                let (b, what) = gen::bytes(&mut r);
                value_case(&mut s, &b, what, &mut r, false, p);
            }
        }
        // Nesting so deep that recursion without a limit would not survive it.
        "abyss" => {
            for n in [1_000usize, 30_000, 1_000_000] {
                let leaf = [0u8];
                let steps: &[&[u8]] = &[
                    &[1], &[17, 1], &[43, 1], &[19, 1, 0], &[45, 1, 0], &[27, 1, 0], &[39, 1, 0], &[65, 1, 0], &[40, 0],
                    &[21, 1, 254, 7, 0], &[1, 43, 1],
                ];
                for st in steps {
                    let mut b: Vec<u8> = st.iter().copied().cycle().take(st.len() * n).collect();
                    b.extend(leaf);
                    value_case(&mut s, &b, "abyss", &mut r, n == 1_000, 0.0);
                }
            }
        }
        // Values, serialized.
        "ser" => {
            for _ in 0..count {
                let v = if r.random_bool(0.3) {
                    let d = match r.random_range(0..3) {
                        0 => 32,
                        1 => 33,
                        _ => r.random_range(1..41),
                    };
                    gen::chain(&mut r, d)
                } else if r.random_bool(0.01) {
                    gen::long(&mut r)
                } else {
                    let (d, n) = (r.random_range(0..6), r.random_range(1..16));
                    wire::rand_value(&mut r, d, n)
                };
                ser_case(&mut s, &v, &mut r, false, p);
            }
        }
        // Frames of messages.
        "frames" => {
            for i in 0..count {
                let (b, what) = if i < 630 { (msg::good(&mut r, i as usize % 63, i % 2 == 1), "valid") } else { msg::bytes(&mut r) };
                frame_case(&mut s, &b, what, &mut r, i < 630, p);
            }
        }
        // Given frames.
        "replay-frames" => {
            let f = BufReader::new(File::open(opt("--in").expect("--in")).expect("in"));
            for line in f.lines() {
                let b: Vec<u8> = serde_json::from_str(&line.expect("line")).expect("bytes");
                frame_case(&mut s, &b, "given", &mut r, false, p);
            }
        }
        // Given byte strings, one JSON array per line.
        "replay" => {
            let f = BufReader::new(File::open(opt("--in").expect("--in")).expect("in"));
            for line in f.lines() {
                let b: Vec<u8> = serde_json::from_str(&line.expect("line")).expect("bytes");
                if !b.is_empty() {
                    value_case(&mut s, &b, "given", &mut r, false, p);
                }
            }
        }
        // All byte strings of up to three bytes (the third from a reduced alphabet).
        "short" => {
            let third: Vec<u8> = vec![0, 1, 2, 3, 13, 17, 43, 127, 128, 195, 247, 248, 251, 252, 253, 254, 255];
            for a in 0..=255u8 {
                value_case(&mut s, &[a], "short", &mut r, true, 1.0);
                for b in 0..=255u8 {
                    value_case(&mut s, &[a, b], "short", &mut r, false, p);
                    if a <= 66 {
                        for c in &third {
                            value_case(&mut s, &[a, b, *c], "short", &mut r, false, p / 10.0);
                        }
                    }
                }
            }
        }
        _ => panic!("mode"),
    }
    s.out.flush().expect("flush");
    let _ = std::fs::remove_file(cur);
    println!("{}", serde_json::json!({"total": s.total, "written": s.written, "odd": s.odd, "kinds": s.kinds}));
}
