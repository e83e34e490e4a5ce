//! The payloads of the programs: values of various shapes, each standing for a number.
use crate::wire::{K, V};
use aldrin_core::{Bytes, Enum, SerializedValueSlice, Struct, Value};
use std::collections::{HashMap, HashSet};

fn mix(n: u64) -> u64 {
    let x = (n ^ 0x9e37_79b9).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    (x ^ (x >> 29)).wrapping_mul(0x94d0_49bb_1331_11eb) >> 32
}

/// Picks one of the equivalent ways to do something.
pub fn alt(op: i64, n: u64) -> u64 {
    mix(op as u64 ^ 0x5555) % n
}

pub fn shape(n: u32) -> V {
    let h = mix(n as u64);
    let num = V::U32(n);
    match h % 10 {
        0 | 1 => num,
        2 => V::Vec(vec![num, V::Vec(vec![]), V::Str(b"x".to_vec())]),
        3 => {
            let mut b = n.to_le_bytes().to_vec();
            b.resize(4 + (h >> 8) as usize % 300, 7);
            V::Bytes(b)
        }
        4 => V::Map(4, vec![(K::U(n as u64), V::Vec(vec![V::None]))]),
        5 => V::Set(4, vec![K::U(n as u64)]),
        6 => V::Struct(vec![((h >> 8) as u32 % 400, V::Some(Box::new(num)))]),
        7 => V::Enum(
            1,
            Box::new(V::Struct(vec![(0, V::Vec(vec![num, V::Bool(1)]))])),
        ),
        8 => V::Map(
            8,
            vec![(
                K::S(b"key".to_vec()),
                V::Struct(vec![(3, V::Set(4, vec![K::U(n as u64)]))]),
            )],
        ),
        _ => V::Some(Box::new(V::Vec(vec![V::Vec(vec![V::Vec(vec![num])])]))),
    }
}

fn number(v: &V) -> Option<u32> {
    match v {
        V::U32(n) => Some(*n),
        V::Vec(v) => number(v.first()?),
        V::Bytes(b) => Some(u32::from_le_bytes(b.get(..4)?.try_into().ok()?)),
        V::Map(4, m) => match m.first()?.0 {
            K::U(n) => Some(n as u32),
            _ => None,
        },
        V::Map(_, m) => number(&m.first()?.1),
        V::Set(_, s) => match s.first()? {
            K::U(n) => Some(*n as u32),
            _ => None,
        },
        V::Struct(f) => number(&f.first()?.1),
        V::Enum(_, v) | V::Some(v) => number(v),
        _ => None,
    }
}

/// The number that a value on the wire stands for, 0 if none.
pub fn read(v: &V) -> u32 {
    match number(v) {
        Some(n) if shape(n).canon() == v.canon() => n,
        _ => 0,
    }
}

fn conv(v: &V) -> Value {
    match v {
        V::None => Value::None,
        V::Some(v) => Value::Some(Box::new(conv(v))),
        V::Bool(b) => Value::Bool(*b != 0),
        V::U32(n) => Value::U32(*n),
        V::Str(s) => Value::String(String::from_utf8(s.clone()).unwrap()),
        V::Vec(v) => Value::Vec(v.iter().map(conv).collect()),
        V::Bytes(b) => Value::Bytes(Bytes(b.clone())),
        V::Map(4, m) => Value::U32Map(
            m.iter()
                .map(|(k, v)| match k {
                    K::U(n) => (*n as u32, conv(v)),
                    _ => panic!(),
                })
                .collect::<HashMap<_, _>>(),
        ),
        V::Map(8, m) => Value::StringMap(
            m.iter()
                .map(|(k, v)| match k {
                    K::S(s) => (String::from_utf8(s.clone()).unwrap(), conv(v)),
                    _ => panic!(),
                })
                .collect::<HashMap<_, _>>(),
        ),
        V::Set(4, s) => Value::U32Set(
            s.iter()
                .map(|k| match k {
                    K::U(n) => *n as u32,
                    _ => panic!(),
                })
                .collect::<HashSet<_>>(),
        ),
        V::Struct(f) => Value::Struct(Struct(f.iter().map(|(i, v)| (*i, conv(v))).collect())),
        V::Enum(i, v) => Value::Enum(Box::new(Enum::new(*i, conv(v)))),
        other => panic!("{other:?}"),
    }
}

pub fn value(n: u32) -> Value {
    conv(&shape(n))
}

/// Nested too deeply to be sent.
pub fn too_deep() -> Value {
    let mut v = Value::U32(1);
    for _ in 0..40 {
        v = Value::Vec(vec![v]);
    }
    v
}

fn find(v: &Value) -> Option<u32> {
    match v {
        Value::U32(n) => Some(*n),
        Value::Vec(v) => find(v.first()?),
        Value::Bytes(b) => Some(u32::from_le_bytes(b.0.get(..4)?.try_into().ok()?)),
        Value::U32Map(m) => m.keys().next().copied(),
        Value::StringMap(m) => find(m.values().next()?),
        Value::U32Set(s) => s.iter().next().copied(),
        Value::Struct(f) => find(f.0.values().next()?),
        Value::Enum(e) => find(&e.value),
        Value::Some(v) => find(v),
        _ => None,
    }
}

/// The number that a value stands for, 0 if none.
pub fn number_of(v: &Value) -> i64 {
    match find(v) {
        Some(n) if value(n) == *v => n as i64,
        _ => 0,
    }
}

pub fn value_of(s: &SerializedValueSlice) -> i64 {
    s.deserialize::<Value>().map(|v| number_of(&v)).unwrap_or(0)
}
