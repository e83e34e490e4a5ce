//! Byte strings and values to try.
use crate::wire::{self, Enc, K, V};
use rand::rngs::SmallRng;
use rand::Rng;

/// One more level around a value.
pub fn wrap(r: &mut SmallRng, v: V) -> V {
    match r.random_range(0..6) {
        0 => V::Some(Box::new(v)),
        1 => V::Vec(match r.random_range(0..3) {
            0 => vec![v],
            1 => vec![V::None, v],
            _ => vec![v, V::U8(1)],
        }),
        2 => {
            let kt = r.random_range(0..10);
            let k = wire::rand_key(r, kt);
            V::Map(kt, vec![(k, v)])
        }
        3 => V::Struct(vec![(r.random_range(0..300), v)]),
        4 => V::Enum(r.random_range(0..300), Box::new(v)),
        _ => {
            let kt = r.random_range(0..10);
            let (a, b) = (wire::rand_key(r, kt), wire::rand_key(r, kt));
            if a == b {
                V::Map(kt, vec![(a, v)])
            } else {
                V::Map(kt, vec![(a, V::Bool(1)), (b, v)])
            }
        }
    }
}

pub fn leaf(r: &mut SmallRng) -> V {
    match r.random_range(0..10) {
        0 => V::Vec(vec![]),
        1 => V::Map(r.random_range(0..10), vec![]),
        2 => V::Set(r.random_range(0..10), vec![]),
        3 => V::Struct(vec![]),
        4 => V::Bytes(vec![1, 2]),
        5 => {
            let kt = r.random_range(0..10);
            V::Set(kt, vec![wire::rand_key(r, kt)])
        }
        6 => V::None,
        _ => wire::rand_value(r, 0, 1),
    }
}

/// A value with exactly `depth` levels.
pub fn chain(r: &mut SmallRng, depth: u32) -> V {
    let mut v = leaf(r);
    // One kind of step all the way down, or a mix.
    let same = r.random_bool(0.4);
    let step = r.random_range(0..5);
    let kt = r.random_range(0..10);
    for _ in 1..depth {
        v = if same {
            match step {
                0 => V::Some(Box::new(v)),
                1 => V::Vec(vec![v]),
                2 => {
                    let k = wire::rand_key(r, kt);
                    V::Map(kt, vec![(k, v)])
                }
                3 => V::Struct(vec![(1, v)]),
                _ => V::Enum(1, Box::new(v)),
            }
        } else {
            wrap(r, v)
        };
    }
    v
}

fn enc(r: &mut SmallRng) -> Enc {
    [Enc::V1, Enc::V2, Enc::Mix, Enc::Mix][r.random_range(0..4)]
}

pub fn interesting(r: &mut SmallRng) -> u8 {
    match r.random_range(0..6) {
        0 => r.random_range(0..3),
        1 => 247 + r.random_range(0..9),
        2 => r.random(),
        _ => r.random_range(0..67),
    }
}

pub fn mutate(r: &mut SmallRng, b: &mut Vec<u8>) {
    let n = b.len();
    match r.random_range(0..9) {
        0 | 1 => {
            let i = r.random_range(0..n);
            b[i] = interesting(r);
        }
        2 => {
            let i = r.random_range(0..n);
            b[i] ^= 1 << r.random_range(0..8);
        }
        3 if n > 1 => b.truncate(r.random_range(1..n)),
        4 => {
            let x = interesting(r);
            b.insert(r.random_range(0..=n), x);
        }
        5 if n > 1 => {
            b.remove(r.random_range(0..n));
        }
        6 => {
            for _ in 0..r.random_range(1..4) {
                let x = interesting(r);
                b.push(x);
            }
        }
        7 => {
            let i = r.random_range(0..n);
            let j = r.random_range(i..n.min(i + 12));
            let part = b[i..j].to_vec();
            let at = r.random_range(0..=n);
            b.splice(at..at, part);
        }
        _ => {
            let i = r.random_range(0..n);
            b[i] = b[i].wrapping_add(if r.random_bool(0.5) { 1 } else { 255 });
        }
    }
}

/// Strings and bytes around the limits of length encodings.
pub fn long(r: &mut SmallRng) -> V {
    let n = match r.random_range(0..10) {
        0 => 65535 + r.random_range(0..3),
        1 => r.random_range(500..5000),
        _ => r.random_range(248..260),
    };
    let b: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    let v = match r.random_range(0..4) {
        0 => V::Str(b),
        1 => V::Bytes(b),
        2 => V::Map(8, vec![(K::S(b), V::None)]),
        _ => V::Vec((0..r.random_range(250..258)).map(|i| V::U8(i as u8)).collect()),
    };
    match r.random_range(0..3) {
        0 => v,
        1 => V::Some(Box::new(v)),
        _ => V::Struct(vec![(1, v), (300, V::Bool(1))]),
    }
}

pub fn bytes(r: &mut SmallRng) -> (Vec<u8>, &'static str) {
    let small = |r: &mut SmallRng| {
        let d = r.random_range(0..5);
        let s = r.random_range(1..12);
        wire::rand_value(r, d, s)
    };
    let k = r.random_range(0..100);
    if k < 25 {
        let v = if r.random_bool(0.02) { long(r) } else { small(r) };
        (v.encode(enc(r), r), "valid")
    } else if k < 65 {
        let v = small(r);
        let mut b = v.encode(enc(r), r);
        for _ in 0..[1, 1, 1, 2, 3][r.random_range(0..5)] {
            mutate(r, &mut b);
        }
        (b, "mutated")
    } else if k < 80 {
        let n = r.random_range(1..16);
        ((0..n).map(|_| interesting(r)).collect(), "random")
    } else if k < 90 {
        let d = match r.random_range(0..3) {
            0 => 32,
            1 => 33,
            _ => r.random_range(28..42),
        };
        let v = chain(r, d);
        let mut b = v.encode(enc(r), r);
        if r.random_bool(0.2) {
            mutate(r, &mut b);
        }
        (b, "deep")
    } else if k < 97 {
        // Counts and lengths that promise much more than there is.
        let mut b = Vec::new();
        for _ in 0..r.random_range(0..4) {
            b.push([1, 1, 40][r.random_range(0..3)]);
            if b.last() == Some(&40) {
                b.push(0);
            }
        }
        b.push([13, 17, 18, 39, 43, 44, 65, r.random_range(17..40), r.random_range(43..66)][r.random_range(0..9)]);
        if b[b.len() - 1] >= 43 && b[b.len() - 1] != 44 {
            b.push(1);
            let c = [17, 18, 13, 27, 37][r.random_range(0..5)];
            b.push(c);
        }
        let n = r.random_range(1..5);
        b.push(251 + n);
        for i in 0..n {
            b.push(if i + 1 == n { r.random_range(1..=255) } else { r.random() });
        }
        for _ in 0..r.random_range(0..8) {
            b.push(interesting(r));
        }
        (b, "huge")
    } else {
        // Many small elements.
        let n = r.random_range(100..600);
        let mut b = match r.random_range(0..4) {
            0 => vec![17],
            1 => vec![19],
            2 => vec![27],
            _ => vec![39],
        };
        wire::put_varint(&mut b, n, 4);
        let c = b[0];
        for i in 0..n {
            match c {
                17 => b.push(0),
                19 => b.extend([i as u8, 0]),
                27 => b.extend([1, i as u8 & 127, 0]),
                _ => b.extend([i as u8 & 127, 0]),
            }
        }
        (b, "many")
    }
}

pub fn utf8(v: &V) -> bool {
    let k = |k: &K| match k {
        K::S(s) => std::str::from_utf8(s).is_ok(),
        _ => true,
    };
    match v {
        V::Str(s) => std::str::from_utf8(s).is_ok(),
        V::Some(v) | V::Enum(_, v) => utf8(v),
        V::Vec(vs) => vs.iter().all(utf8),
        V::Map(_, es) => es.iter().all(|(a, v)| k(a) && utf8(v)),
        V::Set(_, ks) => ks.iter().all(k),
        V::Struct(fs) => fs.iter().all(|(_, v)| utf8(v)),
        _ => true,
    }
}

/// The harness' own idea of whether the bytes are a value.
pub fn well_formed(b: &[u8]) -> bool {
    matches!(V::decode(b), Ok(_))
}
