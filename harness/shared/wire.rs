//! Independent walker/encoder for the aldrin value wire format. It shares no code with aldrin and
//! is used to build payloads and to name the values that payloads mean.
#![allow(dead_code)]

use rand::rngs::SmallRng;
use rand::Rng;

pub const MAX_DEPTH: u32 = 32;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum K {
    U(u64),
    I(i64),
    S(Vec<u8>),
    Id([u8; 16]),
}

/// Key types: 0 u8, 1 i8, 2 u16, 3 i16, 4 u32, 5 i32, 6 u64, 7 i64, 8 string, 9 uuid.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    None,
    Some(Box<V>),
    Bool(u8),
    U8(u8),
    I8(u8),
    U16(u16),
    I16(i16),
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F32(u32),
    F64(u64),
    Str(Vec<u8>),
    Uuid([u8; 16]),
    ObjId(Vec<u8>),
    SvcId(Vec<u8>),
    Vec(Vec<V>),
    Bytes(Vec<u8>),
    Map(u8, Vec<(K, V)>),
    Set(u8, Vec<K>),
    Struct(Vec<(u32, V)>),
    Enum(u32, Box<V>),
    Sender([u8; 16]),
    Receiver([u8; 16]),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc {
    V1,
    V2,
    Mix,
}

pub fn put_varint(out: &mut Vec<u8>, n: u64, width: usize) {
    let bytes = n.to_le_bytes();
    let mut len = 8;
    while len > 1 && bytes[len - 1] == 0 {
        len -= 1;
    }
    if len == 1 && (bytes[0] as usize) <= 255 - width {
        out.push(bytes[0]);
    } else {
        out.push((255 - width + len) as u8);
        out.extend_from_slice(&bytes[..len]);
    }
}

fn zz(n: i64) -> u64 {
    ((n << 1) ^ (n >> 63)) as u64
}

pub fn put_key(out: &mut Vec<u8>, kt: u8, k: &K) {
    match (kt, k) {
        (0, K::U(n)) => out.push(*n as u8),
        (1, K::I(n)) => out.push(*n as i8 as u8),
        (2, K::U(n)) => put_varint(out, *n, 2),
        (3, K::I(n)) => put_varint(out, zz(*n), 2),
        (4, K::U(n)) => put_varint(out, *n, 4),
        (5, K::I(n)) => put_varint(out, zz(*n), 4),
        (6, K::U(n)) => put_varint(out, *n, 8),
        (7, K::I(n)) => put_varint(out, zz(*n), 8),
        (8, K::S(s)) => {
            put_varint(out, s.len() as u64, 4);
            out.extend_from_slice(s);
        }
        (9, K::Id(b)) => out.extend_from_slice(b),
        _ => panic!("key type"),
    }
}

impl V {
    pub fn encode(&self, enc: Enc, rng: &mut SmallRng) -> Vec<u8> {
        let mut out = Vec::new();
        self.enc(&mut out, enc, rng);
        out
    }

    fn enc(&self, o: &mut Vec<u8>, e: Enc, r: &mut SmallRng) {
        let two = match e {
            Enc::V1 => false,
            Enc::V2 => true,
            Enc::Mix => r.random_bool(0.5),
        };
        match self {
            V::None => o.push(0),
            V::Some(v) => {
                o.push(1);
                v.enc(o, e, r);
            }
            V::Bool(b) => o.extend([2, *b]),
            V::U8(b) => o.extend([3, *b]),
            V::I8(b) => o.extend([4, *b]),
            V::U16(n) => {
                o.push(5);
                put_varint(o, *n as u64, 2);
            }
            V::I16(n) => {
                o.push(6);
                put_varint(o, zz(*n as i64), 2);
            }
            V::U32(n) => {
                o.push(7);
                put_varint(o, *n as u64, 4);
            }
            V::I32(n) => {
                o.push(8);
                put_varint(o, zz(*n as i64), 4);
            }
            V::U64(n) => {
                o.push(9);
                put_varint(o, *n, 8);
            }
            V::I64(n) => {
                o.push(10);
                put_varint(o, zz(*n), 8);
            }
            V::F32(n) => {
                o.push(11);
                o.extend(n.to_le_bytes());
            }
            V::F64(n) => {
                o.push(12);
                o.extend(n.to_le_bytes());
            }
            V::Str(s) => {
                o.push(13);
                put_varint(o, s.len() as u64, 4);
                o.extend_from_slice(s);
            }
            V::Uuid(b) => {
                o.push(14);
                o.extend_from_slice(b);
            }
            V::ObjId(b) => {
                o.push(15);
                o.extend_from_slice(b);
            }
            V::SvcId(b) => {
                o.push(16);
                o.extend_from_slice(b);
            }
            V::Vec(vs) if two => {
                o.push(43);
                for v in vs {
                    o.push(1);
                    v.enc(o, e, r);
                }
                o.push(0);
            }
            V::Vec(vs) => {
                o.push(17);
                put_varint(o, vs.len() as u64, 4);
                for v in vs {
                    v.enc(o, e, r);
                }
            }
            V::Bytes(b) if two => {
                o.push(44);
                let mut rest = &b[..];
                while !rest.is_empty() {
                    let n = r.random_range(1..=rest.len());
                    put_varint(o, n as u64, 4);
                    o.extend_from_slice(&rest[..n]);
                    rest = &rest[n..];
                }
                o.push(0);
            }
            V::Bytes(b) => {
                o.push(18);
                put_varint(o, b.len() as u64, 4);
                o.extend_from_slice(b);
            }
            V::Map(kt, es) if two => {
                o.push(45 + kt);
                for (k, v) in es {
                    o.push(1);
                    put_key(o, *kt, k);
                    v.enc(o, e, r);
                }
                o.push(0);
            }
            V::Map(kt, es) => {
                o.push(19 + kt);
                put_varint(o, es.len() as u64, 4);
                for (k, v) in es {
                    put_key(o, *kt, k);
                    v.enc(o, e, r);
                }
            }
            V::Set(kt, ks) if two => {
                o.push(55 + kt);
                for k in ks {
                    o.push(1);
                    put_key(o, *kt, k);
                }
                o.push(0);
            }
            V::Set(kt, ks) => {
                o.push(29 + kt);
                put_varint(o, ks.len() as u64, 4);
                for k in ks {
                    put_key(o, *kt, k);
                }
            }
            V::Struct(fs) if two => {
                o.push(65);
                for (id, v) in fs {
                    o.push(1);
                    put_varint(o, *id as u64, 4);
                    v.enc(o, e, r);
                }
                o.push(0);
            }
            V::Struct(fs) => {
                o.push(39);
                put_varint(o, fs.len() as u64, 4);
                for (id, v) in fs {
                    put_varint(o, *id as u64, 4);
                    v.enc(o, e, r);
                }
            }
            V::Enum(id, v) => {
                o.push(40);
                put_varint(o, *id as u64, 4);
                v.enc(o, e, r);
            }
            V::Sender(b) => {
                o.push(41);
                o.extend_from_slice(b);
            }
            V::Receiver(b) => {
                o.push(42);
                o.extend_from_slice(b);
            }
        }
    }

    /// Text that is equal for two values exactly if they are equal (maps and sets unordered).
    pub fn canon(&self) -> String {
        fn list(items: impl IntoIterator<Item = String>) -> String {
            items.into_iter().collect::<Vec<_>>().join(",")
        }
        match self {
            V::Some(v) => format!("Some({})", v.canon()),
            V::Bool(b) => format!("Bool({})", (*b != 0) as u8),
            V::Vec(vs) => format!("[{}]", list(vs.iter().map(V::canon))),
            V::Map(kt, es) => {
                let mut m = std::collections::BTreeMap::new();
                for (k, v) in es {
                    m.insert(format!("{k:?}"), v);
                }
                format!("Map{kt}{{{}}}", list(m.iter().map(|(k, v)| format!("{k}:{}", v.canon()))))
            }
            V::Set(kt, ks) => {
                let s: std::collections::BTreeSet<_> = ks.iter().map(|k| format!("{k:?}")).collect();
                format!("Set{kt}{{{}}}", list(s))
            }
            V::Struct(fs) => {
                let mut m = std::collections::BTreeMap::new();
                for (k, v) in fs {
                    m.insert(*k, v);
                }
                format!("Struct{{{}}}", list(m.iter().map(|(k, v)| format!("{k}:{}", v.canon()))))
            }
            V::Enum(id, v) => format!("Enum({id},{})", v.canon()),
            other => format!("{other:?}"),
        }
    }

    /// 0: no containers with two encodings, 1: only old encodings, 2: at least one new one.
    pub fn decode(buf: &[u8]) -> Result<(V, u8), String> {
        let mut d = Dec { buf, w: 0 };
        let v = d.val(0)?;
        if d.buf.is_empty() {
            Ok((v, d.w))
        } else {
            Err("trailing data".into())
        }
    }
}

pub struct Dec<'a> {
    pub buf: &'a [u8],
    pub w: u8,
}

impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.buf.len() < n {
            return Err("eoi".into());
        }
        let (a, b) = self.buf.split_at(n);
        self.buf = b;
        Ok(a)
    }

    fn byte(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }

    fn arr16(&mut self) -> Result<[u8; 16], String> {
        Ok(self.take(16)?.try_into().unwrap())
    }

    pub fn varint(&mut self, width: usize) -> Result<u64, String> {
        let first = self.byte()? as usize;
        if first > 255 - width {
            let n = first + width - 255;
            let mut b = [0; 8];
            b[..n].copy_from_slice(self.take(n)?);
            Ok(u64::from_le_bytes(b))
        } else {
            Ok(first as u64)
        }
    }

    fn zig(&mut self, width: usize) -> Result<i64, String> {
        let n = self.varint(width)?;
        Ok((n >> 1) as i64 ^ -((n & 1) as i64))
    }

    fn key(&mut self, kt: u8) -> Result<K, String> {
        Ok(match kt {
            0 => K::U(self.byte()? as u64),
            1 => K::I(self.byte()? as i8 as i64),
            2 => K::U(self.varint(2)?),
            3 => K::I(self.zig(2)?),
            4 => K::U(self.varint(4)?),
            5 => K::I(self.zig(4)?),
            6 => K::U(self.varint(8)?),
            7 => K::I(self.zig(8)?),
            8 => {
                let n = self.varint(4)? as usize;
                K::S(self.take(n)?.to_vec())
            }
            9 => K::Id(self.arr16()?),
            _ => unreachable!(),
        })
    }

    fn more(&mut self) -> Result<bool, String> {
        match self.byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err("bad element prefix".into()),
        }
    }

    pub fn val(&mut self, depth: u32) -> Result<V, String> {
        if depth >= MAX_DEPTH {
            return Err("too deep".into());
        }
        let k = self.byte()?;
        let old = matches!(k, 17..=39);
        let new = matches!(k, 43..=65);
        if old {
            self.w = self.w.max(1);
        }
        if new {
            self.w = 2;
        }
        Ok(match k {
            0 => V::None,
            1 => V::Some(Box::new(self.val(depth + 1)?)),
            2 => V::Bool(self.byte()?),
            3 => V::U8(self.byte()?),
            4 => V::I8(self.byte()?),
            5 => V::U16(self.varint(2)? as u16),
            6 => V::I16(self.zig(2)? as i16),
            7 => V::U32(self.varint(4)? as u32),
            8 => V::I32(self.zig(4)? as i32),
            9 => V::U64(self.varint(8)?),
            10 => V::I64(self.zig(8)?),
            11 => V::F32(u32::from_le_bytes(self.take(4)?.try_into().unwrap())),
            12 => V::F64(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            13 => {
                let n = self.varint(4)? as usize;
                V::Str(self.take(n)?.to_vec())
            }
            14 => V::Uuid(self.arr16()?),
            15 => V::ObjId(self.take(32)?.to_vec()),
            16 => V::SvcId(self.take(64)?.to_vec()),
            17 => {
                let n = self.varint(4)?;
                let mut vs = Vec::new();
                for _ in 0..n {
                    vs.push(self.val(depth + 1)?);
                }
                V::Vec(vs)
            }
            18 => {
                let n = self.varint(4)? as usize;
                V::Bytes(self.take(n)?.to_vec())
            }
            19..=28 => {
                let n = self.varint(4)?;
                let mut es = Vec::new();
                for _ in 0..n {
                    let key = self.key(k - 19)?;
                    es.push((key, self.val(depth + 1)?));
                }
                V::Map(k - 19, es)
            }
            29..=38 => {
                let n = self.varint(4)?;
                let mut ks = Vec::new();
                for _ in 0..n {
                    ks.push(self.key(k - 29)?);
                }
                V::Set(k - 29, ks)
            }
            39 => {
                let n = self.varint(4)?;
                let mut fs = Vec::new();
                for _ in 0..n {
                    let id = self.varint(4)? as u32;
                    fs.push((id, self.val(depth + 1)?));
                }
                V::Struct(fs)
            }
            40 => {
                let id = self.varint(4)? as u32;
                V::Enum(id, Box::new(self.val(depth + 1)?))
            }
            41 => V::Sender(self.arr16()?),
            42 => V::Receiver(self.arr16()?),
            43 => {
                let mut vs = Vec::new();
                while self.more()? {
                    vs.push(self.val(depth + 1)?);
                }
                V::Vec(vs)
            }
            44 => {
                let mut b = Vec::new();
                loop {
                    let n = self.varint(4)? as usize;
                    if n == 0 {
                        break;
                    }
                    b.extend_from_slice(self.take(n)?);
                }
                V::Bytes(b)
            }
            45..=54 => {
                let mut es = Vec::new();
                while self.more()? {
                    let key = self.key(k - 45)?;
                    es.push((key, self.val(depth + 1)?));
                }
                V::Map(k - 45, es)
            }
            55..=64 => {
                let mut ks = Vec::new();
                while self.more()? {
                    ks.push(self.key(k - 55)?);
                }
                V::Set(k - 55, ks)
            }
            65 => {
                let mut fs = Vec::new();
                while self.more()? {
                    let id = self.varint(4)? as u32;
                    fs.push((id, self.val(depth + 1)?));
                }
                V::Struct(fs)
            }
            _ => return Err("bad kind".into()),
        })
    }
}

// ---------------------------------------------------------------------------------------------
// random values

fn edge(r: &mut SmallRng, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let v = match r.random_range(0..6) {
        0 => r.random_range(0..4),
        1 => 245 + r.random_range(0..14),
        2 => (1u64 << (r.random_range(0..bits))).wrapping_sub(r.random_range(0..2)),
        3 => mask.wrapping_sub(r.random_range(0..3)),
        4 => (1u64 << (bits - 1)).wrapping_add(r.random_range(0..2)).wrapping_sub(1),
        _ => r.random(),
    };
    v & mask
}

pub fn rand_string(r: &mut SmallRng) -> Vec<u8> {
    let n = match r.random_range(0..8) {
        0 => 0,
        1 => r.random_range(248..260),
        _ => r.random_range(1..6),
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push(match r.random_range(0..8) {
            0 => 'ß',
            1 => '€',
            2 => '𝄞',
            3 => '\0',
            _ => (b'a' + r.random_range(0..26)) as char,
        });
    }
    s.into_bytes()
}

pub fn rand_key(r: &mut SmallRng, kt: u8) -> K {
    match kt {
        0 => K::U(edge(r, 8)),
        1 => K::I(edge(r, 8) as i8 as i64),
        2 => K::U(edge(r, 16)),
        3 => K::I(edge(r, 16) as i16 as i64),
        4 => K::U(edge(r, 32)),
        5 => K::I(edge(r, 32) as i32 as i64),
        6 => K::U(edge(r, 64)),
        7 => K::I(edge(r, 64) as i64),
        8 => K::S(rand_string(r)),
        _ => K::Id(r.random()),
    }
}

pub fn rand_bytes(r: &mut SmallRng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.random()).collect()
}

/// Random value with at most `depth` more levels below this one and roughly `size` nodes.
pub fn rand_value(r: &mut SmallRng, depth: u32, size: u32) -> V {
    let leaf = depth == 0 || size <= 1;
    let k = if leaf { r.random_range(0..17) } else { r.random_range(0..26) };
    let n = if size == 0 { 0 } else { r.random_range(0..=size.min(4)) };
    let sub = |r: &mut SmallRng| rand_value(r, depth - 1, size / (n.max(1)));
    match k {
        0 => V::None,
        1 => V::Bool(r.random_range(0..2)),
        2 => V::U8(r.random()),
        3 => V::I8(r.random()),
        4 => V::U16(edge(r, 16) as u16),
        5 => V::I16(edge(r, 16) as i16),
        6 => V::U32(edge(r, 32) as u32),
        7 => V::I32(edge(r, 32) as i32),
        8 => V::U64(edge(r, 64)),
        9 => V::I64(edge(r, 64) as i64),
        10 => V::F32(match r.random_range(0..4) {
            0 => 0x7fc0_1234,
            1 => 0x8000_0000,
            2 => 0x7f80_0000,
            _ => r.random(),
        }),
        11 => V::F64(match r.random_range(0..4) {
            0 => 0x7ff8_0000_0000_1234,
            1 => 1 << 63,
            _ => r.random(),
        }),
        12 => V::Str(rand_string(r)),
        13 => V::Uuid(r.random()),
        14 => V::ObjId(rand_bytes(r, 32)),
        15 => V::SvcId(rand_bytes(r, 64)),
        16 => {
            if r.random_bool(0.5) {
                V::Sender(r.random())
            } else {
                V::Receiver(r.random())
            }
        }
        17 | 18 => V::Some(Box::new(rand_value(r, depth - 1, size - 1))),
        19 => V::Vec((0..n).map(|_| sub(r)).collect()),
        20 => {
            let n = match r.random_range(0..4) {
                0 => 0,
                1 => r.random_range(245..270),
                _ => r.random_range(1..9),
            };
            V::Bytes(rand_bytes(r, n))
        }
        21 | 22 => {
            let kt = r.random_range(0..10);
            let mut es: Vec<(K, V)> = Vec::new();
            for _ in 0..n {
                let k = rand_key(r, kt);
                if !es.iter().any(|e| e.0 == k) {
                    es.push((k, sub(r)));
                }
            }
            V::Map(kt, es)
        }
        23 => {
            let kt = r.random_range(0..10);
            let mut ks: Vec<K> = Vec::new();
            for _ in 0..n {
                let k = rand_key(r, kt);
                if !ks.contains(&k) {
                    ks.push(k);
                }
            }
            V::Set(kt, ks)
        }
        24 => {
            let mut fs: Vec<(u32, V)> = Vec::new();
            for _ in 0..n {
                let id = if r.random_bool(0.7) { r.random_range(0..5) } else { edge(r, 32) as u32 };
                if !fs.iter().any(|f| f.0 == id) {
                    fs.push((id, sub(r)));
                }
            }
            V::Struct(fs)
        }
        _ => V::Enum(edge(r, 32) as u32, Box::new(rand_value(r, depth - 1, size - 1))),
    }
}
