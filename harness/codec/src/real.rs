//! Everything that is done with the real codec.
use crate::alloc;
use crate::wire::{K, V};
use aldrin_core::message::{Message, MessageOps};
use aldrin_core::{
    tags, Bytes, ChannelCookie, Deserialize, DeserializeError, DeserializeKey, Deserializer, Enum, ObjectCookie,
    ObjectId, ObjectUuid, ProtocolVersion, Serialize, SerializeError, SerializedValue,
    SerializedValueSlice, Serializer, ServiceCookie, ServiceId, ServiceUuid, Struct, UnknownFields,
    UnknownVariant, Value, ValueConversionError, ValueKind,
};
use bytes::BytesMut;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use uuid::Uuid;

/// Bytes as a serialized value, by way of a message that carries them.
pub fn slice(b: &[u8]) -> SerializedValue {
    assert!(!b.is_empty());
    let mut f = Vec::new();
    f.extend(((b.len() + 10) as u32).to_le_bytes());
    f.push(12); // CallFunctionReply
    f.extend((b.len() as u32).to_le_bytes());
    f.extend_from_slice(b);
    f.extend([0, 0]);
    // frame: length, kind, value length, value, serial 0, discriminant Ok
    let n = f.len() as u32;
    f[..4].copy_from_slice(&n.to_le_bytes());
    let mut m = Message::deserialize_message(BytesMut::from(&f[..])).expect("carrier message");
    m.value_mut().expect("value").take()
}

pub fn guard<T>(panics: &mut Vec<String>, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Some(t),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            panics.push(format!("{what}: {m}"));
            None
        }
    }
}

// ---------------------------------------------------------------------------------------------
// values

fn arr(b: impl AsRef<[u8]>) -> J {
    J::Array(b.as_ref().iter().map(|x| J::from(*x)).collect())
}

fn key_bytes(kt: u8, k: &K) -> Vec<u8> {
    match (kt, k) {
        (0, K::U(n)) => vec![*n as u8],
        (1, K::I(n)) => vec![*n as u8],
        (2, K::U(n)) => (*n as u16).to_le_bytes().to_vec(),
        (3, K::I(n)) => (*n as i16).to_le_bytes().to_vec(),
        (4, K::U(n)) => (*n as u32).to_le_bytes().to_vec(),
        (5, K::I(n)) => (*n as i32).to_le_bytes().to_vec(),
        (6, K::U(n)) => n.to_le_bytes().to_vec(),
        (7, K::I(n)) => n.to_le_bytes().to_vec(),
        (8, K::S(s)) => s.clone(),
        (9, K::Id(b)) => b.to_vec(),
        _ => panic!("key"),
    }
}

/// The form in which the specification reads values.
pub fn to_json(v: &V) -> J {
    match v {
        V::None => json!([0]),
        V::Some(v) => json!([1, to_json(v)]),
        V::Bool(b) => json!([2, (*b != 0) as u8]),
        V::U8(b) => json!([3, [b]]),
        V::I8(b) => json!([4, [b]]),
        V::U16(n) => json!([5, arr(n.to_le_bytes())]),
        V::I16(n) => json!([6, arr(n.to_le_bytes())]),
        V::U32(n) => json!([7, arr(n.to_le_bytes())]),
        V::I32(n) => json!([8, arr(n.to_le_bytes())]),
        V::U64(n) => json!([9, arr(n.to_le_bytes())]),
        V::I64(n) => json!([10, arr(n.to_le_bytes())]),
        V::F32(n) => json!([11, arr(n.to_le_bytes())]),
        V::F64(n) => json!([12, arr(n.to_le_bytes())]),
        V::Str(s) => json!([13, arr(s)]),
        V::Uuid(b) => json!([14, arr(b)]),
        V::ObjId(b) => json!([15, arr(b)]),
        V::SvcId(b) => json!([16, arr(b)]),
        V::Vec(vs) => json!([17, vs.iter().map(to_json).collect::<Vec<_>>()]),
        V::Bytes(b) => json!([18, arr(b)]),
        V::Map(kt, es) => json!([
            19 + kt,
            es.iter().map(|(k, v)| json!([arr(key_bytes(*kt, k)), to_json(v)])).collect::<Vec<_>>()
        ]),
        V::Set(kt, ks) => {
            json!([29 + kt, ks.iter().map(|k| arr(key_bytes(*kt, k))).collect::<Vec<_>>()])
        }
        V::Struct(fs) => json!([
            39,
            fs.iter().map(|(i, v)| json!([arr(i.to_le_bytes()), to_json(v)])).collect::<Vec<_>>()
        ]),
        V::Enum(i, v) => json!([40, [arr(i.to_le_bytes()), to_json(v)]]),
        V::Sender(b) => json!([41, arr(b)]),
        V::Receiver(b) => json!([42, arr(b)]),
    }
}

fn oid(id: &ObjectId) -> Vec<u8> {
    [id.uuid.0.into_bytes(), id.cookie.0.into_bytes()].concat()
}

macro_rules! maps {
    ($v:expr; [$($m:ident $s:ident $kt:expr, $k:expr;)*] $($rest:tt)*) => {
        match $v {
            $(
                Value::$m(m) => V::Map($kt, m.iter().map(|(k, v)| ($k(k), from_real(v))).collect()),
                Value::$s(s) => V::Set($kt, s.iter().map(|k| $k(k)).collect()),
            )*
            $($rest)*
        }
    };
}

pub fn from_real(v: &Value) -> V {
    maps! { v; [
        U8Map U8Set 0, |k: &u8| K::U(*k as u64);
        I8Map I8Set 1, |k: &i8| K::I(*k as i64);
        U16Map U16Set 2, |k: &u16| K::U(*k as u64);
        I16Map I16Set 3, |k: &i16| K::I(*k as i64);
        U32Map U32Set 4, |k: &u32| K::U(*k as u64);
        I32Map I32Set 5, |k: &i32| K::I(*k as i64);
        U64Map U64Set 6, |k: &u64| K::U(*k);
        I64Map I64Set 7, |k: &i64| K::I(*k);
        StringMap StringSet 8, |k: &String| K::S(k.as_bytes().to_vec());
        UuidMap UuidSet 9, |k: &Uuid| K::Id(k.into_bytes());]

        Value::None => V::None,
        Value::Some(v) => V::Some(Box::new(from_real(v))),
        Value::Bool(b) => V::Bool(*b as u8),
        Value::U8(n) => V::U8(*n),
        Value::I8(n) => V::I8(*n as u8),
        Value::U16(n) => V::U16(*n),
        Value::I16(n) => V::I16(*n),
        Value::U32(n) => V::U32(*n),
        Value::I32(n) => V::I32(*n),
        Value::U64(n) => V::U64(*n),
        Value::I64(n) => V::I64(*n),
        Value::F32(n) => V::F32(n.to_bits()),
        Value::F64(n) => V::F64(n.to_bits()),
        Value::String(s) => V::Str(s.as_bytes().to_vec()),
        Value::Uuid(u) => V::Uuid(u.into_bytes()),
        Value::ObjectId(id) => V::ObjId(oid(id)),
        Value::ServiceId(id) => V::SvcId(
            [oid(&id.object_id), id.uuid.0.into_bytes().to_vec(), id.cookie.0.into_bytes().to_vec()].concat(),
        ),
        Value::Vec(vs) => V::Vec(vs.iter().map(from_real).collect()),
        Value::Bytes(b) => V::Bytes(b.0.clone()),
        Value::Struct(s) => V::Struct(s.0.iter().map(|(k, v)| (*k, from_real(v))).collect()),
        Value::Enum(e) => V::Enum(e.id, Box::new(from_real(&e.value))),
        Value::Sender(c) => V::Sender(c.0.into_bytes()),
        Value::Receiver(c) => V::Receiver(c.0.into_bytes()),
    }
}

fn u16b(b: &[u8], i: usize) -> Uuid {
    Uuid::from_bytes(b[i * 16..i * 16 + 16].try_into().unwrap())
}

fn object_id(b: &[u8]) -> ObjectId {
    ObjectId::new(ObjectUuid(u16b(b, 0)), ObjectCookie(u16b(b, 1)))
}

fn ku(k: &K) -> u64 {
    match k {
        K::U(n) => *n,
        _ => panic!("key"),
    }
}

fn ki(k: &K) -> i64 {
    match k {
        K::I(n) => *n,
        _ => panic!("key"),
    }
}

fn ks(k: &K) -> String {
    match k {
        K::S(s) => String::from_utf8(s.clone()).unwrap(),
        _ => panic!("key"),
    }
}

fn kid(k: &K) -> Uuid {
    match k {
        K::Id(b) => Uuid::from_bytes(*b),
        _ => panic!("key"),
    }
}

pub fn to_real(v: &V) -> Value {
    match v {
        V::None => Value::None,
        V::Some(v) => Value::Some(Box::new(to_real(v))),
        V::Bool(b) => Value::Bool(*b != 0),
        V::U8(n) => Value::U8(*n),
        V::I8(n) => Value::I8(*n as i8),
        V::U16(n) => Value::U16(*n),
        V::I16(n) => Value::I16(*n),
        V::U32(n) => Value::U32(*n),
        V::I32(n) => Value::I32(*n),
        V::U64(n) => Value::U64(*n),
        V::I64(n) => Value::I64(*n),
        V::F32(n) => Value::F32(f32::from_bits(*n)),
        V::F64(n) => Value::F64(f64::from_bits(*n)),
        V::Str(s) => Value::String(String::from_utf8(s.clone()).unwrap()),
        V::Uuid(b) => Value::Uuid(Uuid::from_bytes(*b)),
        V::ObjId(b) => Value::ObjectId(object_id(b)),
        V::SvcId(b) => {
            Value::ServiceId(ServiceId::new(object_id(b), ServiceUuid(u16b(b, 2)), ServiceCookie(u16b(b, 3))))
        }
        V::Vec(vs) => Value::Vec(vs.iter().map(to_real).collect()),
        V::Bytes(b) => Value::Bytes(Bytes(b.clone())),
        V::Map(0, es) => Value::U8Map(es.iter().map(|(k, v)| (ku(k) as u8, to_real(v))).collect()),
        V::Map(1, es) => Value::I8Map(es.iter().map(|(k, v)| (ki(k) as i8, to_real(v))).collect()),
        V::Map(2, es) => Value::U16Map(es.iter().map(|(k, v)| (ku(k) as u16, to_real(v))).collect()),
        V::Map(3, es) => Value::I16Map(es.iter().map(|(k, v)| (ki(k) as i16, to_real(v))).collect()),
        V::Map(4, es) => Value::U32Map(es.iter().map(|(k, v)| (ku(k) as u32, to_real(v))).collect()),
        V::Map(5, es) => Value::I32Map(es.iter().map(|(k, v)| (ki(k) as i32, to_real(v))).collect()),
        V::Map(6, es) => Value::U64Map(es.iter().map(|(k, v)| (ku(k), to_real(v))).collect()),
        V::Map(7, es) => Value::I64Map(es.iter().map(|(k, v)| (ki(k), to_real(v))).collect()),
        V::Map(8, es) => Value::StringMap(es.iter().map(|(k, v)| (ks(k), to_real(v))).collect()),
        V::Map(_, es) => Value::UuidMap(es.iter().map(|(k, v)| (kid(k), to_real(v))).collect()),
        V::Set(0, s) => Value::U8Set(s.iter().map(|k| ku(k) as u8).collect()),
        V::Set(1, s) => Value::I8Set(s.iter().map(|k| ki(k) as i8).collect()),
        V::Set(2, s) => Value::U16Set(s.iter().map(|k| ku(k) as u16).collect()),
        V::Set(3, s) => Value::I16Set(s.iter().map(|k| ki(k) as i16).collect()),
        V::Set(4, s) => Value::U32Set(s.iter().map(|k| ku(k) as u32).collect()),
        V::Set(5, s) => Value::I32Set(s.iter().map(|k| ki(k) as i32).collect()),
        V::Set(6, s) => Value::U64Set(s.iter().map(ku).collect()),
        V::Set(7, s) => Value::I64Set(s.iter().map(ki).collect()),
        V::Set(8, s) => Value::StringSet(s.iter().map(ks).collect()),
        V::Set(_, s) => Value::UuidSet(s.iter().map(kid).collect()),
        V::Struct(fs) => Value::Struct(Struct(fs.iter().map(|(i, v)| (*i, to_real(v))).collect())),
        V::Enum(i, v) => Value::Enum(Box::new(Enum { id: *i, value: to_real(v) })),
        V::Sender(b) => Value::Sender(ChannelCookie(Uuid::from_bytes(*b))),
        V::Receiver(b) => Value::Receiver(ChannelCookie(Uuid::from_bytes(*b))),
    }
}

// ---------------------------------------------------------------------------------------------
// the legacy encoding

/// Serializes a value with the length-prefixed container serializers.
pub struct Legacy<'a>(pub &'a Value);


impl Serialize<tags::Value> for Legacy<'_> {
    fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
        macro_rules! map {
            ($t:ident, $m:expr) => {
                s.serialize_map1_iter::<tags::$t, _, tags::Value, _, _>($m.iter().map(|(k, v)| (k.clone(), Legacy(v))))
            };
        }
        macro_rules! set {
            ($t:ident, $s:expr) => {
                s.serialize_set1_iter::<tags::$t, _>($s.iter().cloned())
            };
        }
        match self.0 {
            Value::Some(v) => s.serialize_some::<tags::Value>(Legacy(v)),
            Value::Vec(vs) => s.serialize_vec1_iter::<tags::Value, _>(vs.iter().map(Legacy).collect::<Vec<_>>()),
            Value::Bytes(b) => s.serialize_byte_slice1(&b.0),
            Value::U8Map(m) => map!(U8, m),
            Value::I8Map(m) => map!(I8, m),
            Value::U16Map(m) => map!(U16, m),
            Value::I16Map(m) => map!(I16, m),
            Value::U32Map(m) => map!(U32, m),
            Value::I32Map(m) => map!(I32, m),
            Value::U64Map(m) => map!(U64, m),
            Value::I64Map(m) => map!(I64, m),
            Value::StringMap(m) => map!(String, m),
            Value::UuidMap(m) => map!(Uuid, m),
            Value::U8Set(m) => set!(U8, m),
            Value::I8Set(m) => set!(I8, m),
            Value::U16Set(m) => set!(U16, m),
            Value::I16Set(m) => set!(I16, m),
            Value::U32Set(m) => set!(U32, m),
            Value::I32Set(m) => set!(I32, m),
            Value::U64Set(m) => set!(U64, m),
            Value::I64Set(m) => set!(I64, m),
            Value::StringSet(m) => set!(String, m),
            Value::UuidSet(m) => set!(Uuid, m),
            Value::Struct(st) => {
                let mut ser = s.serialize_struct1(st.0.len())?;
                for (id, v) in &st.0 {
                    ser.serialize::<tags::Value>(*id, Legacy(v))?;
                }
                ser.finish()
            }
            Value::Enum(e) => s.serialize_enum::<tags::Value>(e.id, Legacy(&e.value)),
            other => s.serialize::<tags::Value>(other),
        }
    }
}

/// Serializes in chunks and entry by entry through the builder interface of the current encoding.
pub struct Piecewise<'a>(pub &'a Value, pub usize);

impl Serialize<tags::Value> for Piecewise<'_> {
    fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
        let n = self.1;
        match self.0 {
            Value::Some(v) => s.serialize_some::<tags::Value>(Piecewise(v, n)),
            Value::Vec(vs) => {
                let mut ser = s.serialize_vec2()?;
                for v in vs {
                    ser.serialize::<tags::Value>(Piecewise(v, n))?;
                }
                ser.finish()
            }
            Value::Bytes(b) => {
                let mut ser = s.serialize_bytes2()?;
                for c in b.0.chunks(n.max(1)) {
                    ser.serialize(c)?;
                }
                ser.finish()
            }
            Value::Struct(st) => {
                let mut ser = s.serialize_struct2()?;
                for (id, v) in &st.0 {
                    ser.serialize::<tags::Value>(*id, Piecewise(v, n))?;
                }
                ser.finish()
            }
            Value::Enum(e) => s.serialize_enum::<tags::Value>(e.id, Piecewise(&e.value, n)),
            Value::StringMap(m) => {
                let mut ser = s.serialize_map2::<tags::String>()?;
                for (k, v) in m {
                    ser.serialize::<tags::Value>(k, Piecewise(v, n))?;
                }
                ser.finish()
            }
            Value::I64Set(m) => {
                let mut ser = s.serialize_set2::<tags::I64>()?;
                for k in m {
                    ser.serialize(k)?;
                }
                ser.finish()
            }
            other => s.serialize::<tags::Value>(other),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// probes into the deserializer

struct Len(usize);

impl Deserialize<tags::Value> for Len {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let n = d.len()?;
        let k = d.peek_value_kind()?;
        LAST.with(|l| *l.borrow_mut() = Some(n));
        d.skip()?;
        let _ = k;
        Ok(Self(n))
    }
}

thread_local! {
    static LAST: RefCell<Option<usize>> = const { RefCell::new(None) };
    static RNG: RefCell<SmallRng> = RefCell::new(SmallRng::seed_from_u64(0));
}

fn dice(n: u32) -> u32 {
    RNG.with(|r| r.borrow_mut().random_range(0..n))
}

struct Skip;

impl Deserialize<tags::Value> for Skip {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        d.skip()?;
        Ok(Self)
    }
}

struct Fields(UnknownFields);

impl Deserialize<tags::Value> for Fields {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let mut d = d.deserialize_struct()?;
        while let Some(f) = d.deserialize()? {
            f.add_to_unknown_fields()?;
        }
        d.finish_with(|u| Ok(Self(u)))
    }
}

impl Serialize<tags::Value> for &Fields {
    fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
        if dice(2) == 0 {
            s.serialize_struct2_with_unknown_fields(&self.0)?.finish()
        } else {
            s.serialize_struct1_with_unknown_fields(0, &self.0)?.finish()
        }
    }
}

struct Variant(UnknownVariant);

impl Deserialize<tags::Value> for Variant {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        d.deserialize_enum()?.into_unknown_variant().map(Self)
    }
}

impl Serialize<tags::Value> for &Variant {
    fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
        s.serialize_unknown_variant(&self.0)
    }
}

/// Walks a value by a random mix of all ways to read it. `Null` stands for what it skipped.
struct Walk(J);

fn wild() -> J {
    json!([-1])
}

trait KeyJson: Sized {
    fn j(&self) -> J;
}

macro_rules! key_json {
    ($($t:ty)*) => { $(impl KeyJson for $t { fn j(&self) -> J { arr(self.to_le_bytes()) } })* };
}
key_json!(u8 i8 u16 i16 u32 i32 u64 i64);

impl KeyJson for String {
    fn j(&self) -> J {
        arr(self.as_bytes())
    }
}

impl KeyJson for Uuid {
    fn j(&self) -> J {
        arr(self.as_bytes())
    }
}

fn walk_map<T, K>(kind: u8, d: Deserializer) -> Result<J, DeserializeError>
where
    T: tags::KeyTag,
    K: KeyJson + DeserializeKey<T>,
{
    if dice(5) == 0 {
        let m: Vec<(K, Walk)> = d.deserialize_map_extend_new::<T, K, tags::Value, Walk, _>()?;
        let mut out = Vec::new();
        for (k, v) in m {
            put(&mut out, json!([k.j(), v.0]));
        }
        return Ok(json!([kind, out]));
    }
    let mut m = d.deserialize_map::<T>()?;
    let mut out = Vec::new();
    let mut all = true;
    loop {
        match dice(12) {
            0 => {
                m.skip_element()?;
                all = false;
            }
            1 => return m.skip_and_finish(wild()),
            2 => {
                m.skip()?;
                return Ok(wild());
            }
            3 => match m.deserialize::<K>()? {
                Some(e) => {
                    let k = e.key().j();
                    e.skip()?;
                    put(&mut out, json!([k, wild()]));
                }
                None => break,
            },
            _ => match m.deserialize_element::<K, tags::Value, Walk>()? {
                Some((k, v)) => put(&mut out, json!([k.j(), v.0])),
                None => break,
            },
        }
    }
    match dice(6) {
        0 => m.skip_element()?,
        1 => assert!(m.deserialize::<K>()?.is_none(), "an element after the last"),
        2 => {
            m.skip()?;
            return Ok(if all { json!([kind, out]) } else { wild() });
        }
        _ => {}
    }
    m.finish(())?;
    Ok(if all { json!([kind, out]) } else { wild() })
}

/// Last entry for a key wins, as in the maps that values are made of.
fn put(out: &mut Vec<J>, e: J) {
    out.retain(|x| x[0] != e[0]);
    out.push(e);
}

fn walk_set<T, K>(kind: u8, d: Deserializer) -> Result<J, DeserializeError>
where
    T: tags::KeyTag,
    K: KeyJson + DeserializeKey<T>,
{
    if dice(5) == 0 {
        let m: Vec<K> = d.deserialize_set_extend_new::<T, K, _>()?;
        return Ok(json!([kind, m.iter().map(|k| k.j()).collect::<Vec<_>>()]));
    }
    let mut m = d.deserialize_set::<T>()?;
    let mut out = Vec::new();
    let mut all = true;
    loop {
        match dice(10) {
            0 => {
                m.skip_element()?;
                all = false;
            }
            1 => return m.skip_and_finish(wild()),
            2 => {
                m.skip()?;
                return Ok(wild());
            }
            _ => match m.deserialize::<K>()? {
                Some(k) => out.push(k.j()),
                None => break,
            },
        }
    }
    match dice(6) {
        0 => m.skip_element()?,
        1 => assert!(m.deserialize::<K>()?.is_none(), "an element after the last"),
        2 => {
            m.skip()?;
            return Ok(if all { json!([kind, out]) } else { wild() });
        }
        _ => {}
    }
    m.finish(())?;
    Ok(if all { json!([kind, out]) } else { wild() })
}

impl Deserialize<tags::Value> for Walk {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let kind = d.peek_value_kind()?;
        match dice(10) {
            0 => {
                let n = d.len()?;
                let s = d.split_off_serialized_value()?;
                assert_eq!(s.len(), n, "split off another length than measured");
                // Below this point the nesting is counted anew, so that this can fail only if
                // the value is malformed or has a string that is none.
                return Ok(Self(match s.deserialize_as_value() {
                    Ok(v) => to_json(&from_real(&v)),
                    Err(_) => wild(),
                }));
            }
            1 => {
                d.skip()?;
                return Ok(Self(wild()));
            }
            2 => return d.deserialize::<tags::Value, Value>().map(|v| Self(to_json(&from_real(&v)))),
            _ => {}
        }
        use ValueKind as Vk;
        let k: u8 = kind.into();
        Ok(Self(match kind {
            Vk::None if dice(2) == 0 => match d.deserialize_option::<tags::Value, Walk>()? {
                Some(_) => panic!("Some for None"),
                None => json!([0]),
            },
            Vk::Some => {
                if dice(2) == 0 {
                    json!([1, d.deserialize_some::<tags::Value, Walk>()?.0])
                } else {
                    json!([1, d.deserialize_option::<tags::Value, Walk>()?.expect("None for Some").0])
                }
            }
            Vk::Vec1 | Vk::Vec2 if dice(5) == 0 => {
                let v: Vec<Walk> = d.deserialize_vec_extend_new::<tags::Value, Walk, _>()?;
                json!([17, v.into_iter().map(|w| w.0).collect::<Vec<_>>()])
            }
            Vk::Bytes1 | Vk::Bytes2 if dice(5) == 0 => json!([18, d.deserialize_bytes_extend_new::<Vec<u8>>()?]),
            Vk::Vec1 | Vk::Vec2 => {
                let mut v = d.deserialize_vec()?;
                let mut out = Vec::new();
                loop {
                    match dice(12) {
                        0 => {
                            // Not told whether there was an element, so what follows is unknown.
                            v.skip_element()?;
                            v.skip()?;
                            return Ok(Self(wild()));
                        }
                        1 => {
                            v.skip_and_finish(())?;
                            return Ok(Self(wild()));
                        }
                        _ => match v.deserialize::<tags::Value, Walk>()? {
                            Some(w) => out.push(w.0),
                            None => break,
                        },
                    }
                }
                match dice(6) {
                    0 => v.skip_element()?,
                    1 => assert!(v.deserialize::<tags::Value, Walk>()?.is_none(), "an element after the last"),
                    2 => {
                        v.skip()?;
                        return Ok(Self(json!([17, out])));
                    }
                    _ => {}
                }
                v.finish(())?;
                json!([17, out])
            }
            Vk::Bytes1 | Vk::Bytes2 => {
                let mut b = d.deserialize_bytes()?;
                let mut out = Vec::new();
                loop {
                    let s = b.as_slice()?;
                    if s.is_empty() {
                        break;
                    }
                    match dice(12) {
                        0 => {
                            b.skip_and_finish(())?;
                            return Ok(Self(wild()));
                        }
                        1 => {
                            b.skip()?;
                            return Ok(Self(wild()));
                        }
                        2 => b.advance(0)?,
                        _ => {}
                    }
                    let s = b.as_slice()?;
                    let n = 1 + dice(s.len() as u32) as usize;
                    out.extend_from_slice(&s[..n]);
                    b.advance(n)?;
                }
                // Nothing is left, so nothing more is read.
                match dice(4) {
                    0 => b.advance(0)?,
                    1 => {
                        if b.advance(1).is_ok() {
                            panic!("advanced beyond the end");
                        }
                    }
                    _ => {}
                }
                b.finish(())?;
                json!([18, out])
            }
            Vk::Struct1 | Vk::Struct2 => {
                let mut s = d.deserialize_struct()?;
                let mut out = Vec::new();
                let mut kept = Vec::new();
                loop {
                    match dice(16) {
                        0 => {
                            s.skip_and_finish_with(|u| {
                                for id in kept {
                                    assert!(u.contains_key(&id), "unknown field is lost");
                                }
                                Ok(())
                            })?;
                            return Ok(Self(wild()));
                        }
                        1 => {
                            s.skip()?;
                            return Ok(Self(wild()));
                        }
                        _ => {}
                    }
                    match s.deserialize()? {
                        None => break,
                        Some(f) => {
                            let id = f.id();
                            assert_eq!(f.try_id::<u32>(), Ok(id));
                            match dice(4) {
                                0 => {
                                    f.skip()?;
                                    put(&mut out, json!([id.j(), wild()]));
                                }
                                1 => {
                                    f.add_to_unknown_fields()?;
                                    kept.push(id);
                                    put(&mut out, json!([id.j(), wild()]));
                                }
                                _ => put(&mut out, json!([id.j(), f.deserialize::<tags::Value, Walk>()?.0])),
                            }
                        }
                    }
                }
                s.finish_with(|u| {
                    for id in kept {
                        assert!(u.contains_key(&id), "unknown field is lost");
                    }
                    Ok(())
                })?;
                json!([39, out])
            }
            Vk::Enum => {
                let e = d.deserialize_enum()?;
                let id = e.id();
                match dice(3) {
                    0 => {
                        e.skip()?;
                        json!([40, [id.j(), wild()]])
                    }
                    1 => {
                        let u = e.into_unknown_variant()?;
                        assert_eq!(u.id(), id);
                        match u.value().deserialize_as_value() {
                            Ok(v) => json!([40, [id.j(), to_json(&from_real(&v))]]),
                            Err(_) => json!([40, [id.j(), wild()]]),
                        }
                    }
                    _ => json!([40, [id.j(), e.deserialize::<tags::Value, Walk>()?.0]]),
                }
            }
            Vk::U8Map1 | Vk::U8Map2 => walk_map::<tags::U8, u8>(19, d)?,
            Vk::I8Map1 | Vk::I8Map2 => walk_map::<tags::I8, i8>(20, d)?,
            Vk::U16Map1 | Vk::U16Map2 => walk_map::<tags::U16, u16>(21, d)?,
            Vk::I16Map1 | Vk::I16Map2 => walk_map::<tags::I16, i16>(22, d)?,
            Vk::U32Map1 | Vk::U32Map2 => walk_map::<tags::U32, u32>(23, d)?,
            Vk::I32Map1 | Vk::I32Map2 => walk_map::<tags::I32, i32>(24, d)?,
            Vk::U64Map1 | Vk::U64Map2 => walk_map::<tags::U64, u64>(25, d)?,
            Vk::I64Map1 | Vk::I64Map2 => walk_map::<tags::I64, i64>(26, d)?,
            Vk::StringMap1 | Vk::StringMap2 => walk_map::<tags::String, String>(27, d)?,
            Vk::UuidMap1 | Vk::UuidMap2 => walk_map::<tags::Uuid, Uuid>(28, d)?,
            Vk::U8Set1 | Vk::U8Set2 => walk_set::<tags::U8, u8>(29, d)?,
            Vk::I8Set1 | Vk::I8Set2 => walk_set::<tags::I8, i8>(30, d)?,
            Vk::U16Set1 | Vk::U16Set2 => walk_set::<tags::U16, u16>(31, d)?,
            Vk::I16Set1 | Vk::I16Set2 => walk_set::<tags::I16, i16>(32, d)?,
            Vk::U32Set1 | Vk::U32Set2 => walk_set::<tags::U32, u32>(33, d)?,
            Vk::I32Set1 | Vk::I32Set2 => walk_set::<tags::I32, i32>(34, d)?,
            Vk::U64Set1 | Vk::U64Set2 => walk_set::<tags::U64, u64>(35, d)?,
            Vk::I64Set1 | Vk::I64Set2 => walk_set::<tags::I64, i64>(36, d)?,
            Vk::StringSet1 | Vk::StringSet2 => walk_set::<tags::String, String>(37, d)?,
            Vk::UuidSet1 | Vk::UuidSet2 => walk_set::<tags::Uuid, Uuid>(38, d)?,
            _ => {
                let _ = k;
                to_json(&from_real(&d.deserialize::<tags::Value, Value>()?))
            }
        }))
    }
}

// ---------------------------------------------------------------------------------------------
// cases

fn res<T>(r: &Option<Result<T, DeserializeError>>) -> J {
    match r {
        Some(Ok(_)) => json!({"ok": true, "deep": false}),
        Some(Err(e)) => json!({"ok": false, "deep": *e == DeserializeError::TooDeeplyNested}),
        None => json!({"ok": false, "deep": false}),
    }
}

pub struct Out {
    pub j: J,
    /// Text to compare with the mirror: measured length and canonical value of the whole.
    pub len: Option<usize>,
    pub dec: Option<String>,
    pub decn: Option<String>,
    pub conv: Option<Vec<u8>>,
    pub conv_dec: Option<String>,
    pub odd: bool,
}

pub const PAIRS: &[(Option<u32>, u32)] = &[
    (None, 14), (None, 19), (None, 20), (Some(20), 14), (Some(20), 17), (Some(20), 19), (Some(20), 20),
    (Some(14), 14), (Some(14), 19), (Some(19), 14), (Some(18), 20), (Some(14), 20), (Some(19), 18),
    (Some(13), 14), (Some(20), 13), (Some(21), 20), (Some(20), 21), (None, 13), (None, 21), (Some(13), 20), (Some(0), 0),
    (Some(19), 13), (Some(14), 21), (None, 15), (None, 16), (None, 18), (Some(20), 16), (Some(15), 20),
];

fn ver(m: u32) -> ProtocolVersion {
    ProtocolVersion::new(1, m)
}

/// Everything that is done with one byte string. `pairs`: which conversions, by index.
pub fn value_case(b: &[u8], seed: u64, pairs: &[usize], want: bool) -> Out {
    let to_json = |v: &V| if want { to_json(v) } else { J::Null };
    let arr = |b: &[u8]| if want { arr(b) } else { J::Null };
    let mut panics = Vec::new();
    let mut odd = false;
    RNG.with(|r| *r.borrow_mut() = SmallRng::seed_from_u64(seed));
    let sv = slice(b);
    assert_eq!(&sv[..], b, "carrier");
    let s: &SerializedValueSlice = &sv;

    let kind = guard(&mut panics, "kind", || s.kind());
    let kind_j = match &kind {
        Some(Ok(k)) => json!({"ok": true, "k": u8::from(*k)}),
        _ => json!({"ok": false, "k": 0}),
    };

    let mut allocs = [0usize; 6];
    let mut measure = |i: usize, f: &mut dyn FnMut()| {
        let ((), n) = alloc::peak(f);
        allocs[i] = n;
    };

    LAST.with(|l| *l.borrow_mut() = None);
    let mut len_r = None;
    measure(0, &mut || len_r = guard(&mut panics, "len", || s.deserialize_as::<tags::Value, Len>().map(|l| l.0)));
    // The probe leaves the length behind even if data trails.
    let len = LAST.with(|l| l.borrow_mut().take());
    let len_j = match len {
        Some(n) => json!({"ok": true, "deep": false, "n": n}),
        None => {
            let mut j = res(&len_r);
            j["ok"] = json!(false);
            j["n"] = json!(0);
            j
        }
    };

    let mut dec_r = None;
    measure(1, &mut || dec_r = guard(&mut panics, "decode", || s.deserialize_as_value()));
    let dec_v = match &dec_r {
        Some(Ok(v)) => Some(from_real(v)),
        _ => None,
    };

    // The part that was measured, on its own.
    let whole = len == Some(b.len());
    let mut decn_v = None;
    let part = match len {
        Some(n) if n > 0 && n <= b.len() => {
            let pv = slice(&b[..n]);
            let mut skip_r = None;
            measure(2, &mut || skip_r = guard(&mut panics, "skip", || pv.deserialize_as::<tags::Value, Skip>()));
            let mut split_r = None;
            measure(3, &mut || {
                split_r = guard(&mut panics, "split", || pv.deserialize_as::<tags::Value, SerializedValue>())
            });
            let same = matches!(&split_r, Some(Ok(x)) if x[..] == b[..n]);
            let decn = guard(&mut panics, "decode part", || pv.deserialize_as_value());
            if let Some(Ok(v)) = &decn {
                decn_v = Some(from_real(v));
            }
            let shorter = if n > 1 {
                let q = slice(&b[..n - 1]);
                matches!(guard(&mut panics, "skip less", || q.deserialize_as::<tags::Value, Skip>()), Some(Ok(_)))
            } else {
                false
            };
            // Carried as an unknown field and as an unknown variant.
            let carry = |pre: &[u8], post: &[u8], as_enum: bool, panics: &mut Vec<String>| -> J {
                let mut w = pre.to_vec();
                w.extend_from_slice(&b[..n]);
                w.extend_from_slice(post);
                let w = slice(&w);
                let got = guard(panics, "carry", || -> Result<(bool, Result<Value, DeserializeError>), DeserializeError> {
                    let out = if as_enum {
                        let u = w.deserialize_as::<tags::Value, Variant>()?;
                        let same = u.0.value()[..] == b[..n];
                        (same, SerializedValue::serialize_as::<tags::Value>(&u))
                    } else {
                        let u = w.deserialize_as::<tags::Value, Fields>()?;
                        let same = u.0.len() == 1 && u.0.get(&7).map(|x| x[..] == b[..n]).unwrap_or(false);
                        (same, SerializedValue::serialize_as::<tags::Value>(&u))
                    };
                    match out.1 {
                        Ok(v) => Ok((out.0, v.deserialize_as_value())),
                        Err(_) => Ok((false, Err(DeserializeError::UnexpectedEoi))),
                    }
                });
                match got {
                    Some(Ok((same, Ok(v)))) => json!({"ok": true, "same": same, "dec": true, "v": to_json(&from_real(&v))}),
                    Some(Ok((same, Err(_)))) => json!({"ok": true, "same": same, "dec": false, "v": [-1]}),
                    _ => json!({"ok": false, "same": false, "dec": false, "v": [-1]}),
                }
            };
            let c1 = carry(&[39, 1, 7], &[], false, &mut panics);
            let c2 = carry(&[65, 1, 7], &[0], false, &mut panics);
            let c3 = carry(&[40, 7], &[], true, &mut panics);
            let skip_ok = matches!(skip_r, Some(Ok(_)));
            odd |= !skip_ok || !same || shorter;
            json!([{
                "skip": skip_ok, "split": matches!(split_r, Some(Ok(_))), "same": same, "less": shorter,
                "dec": matches!(decn, Some(Ok(_))),
                "v": decn_v.as_ref().map(to_json).unwrap_or(wild()),
                "carry": [c1, c2, c3],
            }])
        }
        _ => json!([]),
    };

    // Random walks over the whole.
    let mut walks = Vec::new();
    for _ in 0..2 {
        let mut w = None;
        measure(4, &mut || w = guard(&mut panics, "walk", || s.deserialize_as::<tags::Value, Walk>()));
        walks.push(match w {
            Some(Ok(w)) => json!({"ok": true, "v": w.0}),
            _ => json!({"ok": false, "v": [-1]}),
        });
    }

    // Conversions.
    let mut convs = Vec::new();
    let mut conv = None;
    let mut conv_dec = None;
    for &i in pairs {
        let (from, to) = PAIRS[i % PAIRS.len()];
        let (fv, tv) = (from.map(ver), ver(to));
        let mut r = None;
        measure(5, &mut || r = guard(&mut panics, "convert", || s.convert(fv, tv).map(|c| c.into_owned())));
        let mut own = sv.clone();
        let r2 = guard(&mut panics, "convert in place", || own.convert(fv, tv));
        let via = guard(&mut panics, "convert message", || {
            let mut m = Message::SendItem(aldrin_core::message::SendItem {
                cookie: ChannelCookie(Uuid::nil()),
                value: sv.clone(),
            });
            m.convert_value(fv, tv).map(|()| m.value().map(|v| v.to_owned()).unwrap())
        });
        let mut inval = false;
        let c = match &r {
            Some(Ok(out)) => {
                let out: &SerializedValue = out;
                let os: &SerializedValueSlice = out;
                let same = matches!(&r2, Some(Ok(()))) && own[..] == out[..]
                    && matches!(&via, Some(Ok(v)) if v[..] == out[..]);
                let twice = guard(&mut panics, "convert twice", || os.convert(fv, tv).map(|c| c.into_owned()));
                let again = matches!(&twice, Some(Ok(t)) if t[..] == out[..]);
                let dec = guard(&mut panics, "decode converted", || out.deserialize_as_value());
                let v = match &dec {
                    Some(Ok(v)) => Some(from_real(v)),
                    _ => None,
                };
                if from.unwrap_or(20) == 20 && to < 20 {
                    conv = Some(out.to_vec());
                    conv_dec = v.as_ref().map(V::canon);
                }
                json!({"ok": true, "out": arr(&out[..]), "same": same, "again": again,
                       "dec": v.is_some(), "v": v.as_ref().map(to_json).unwrap_or(wild())})
            }
            _ => {
                inval = matches!(&r, Some(Err(ValueConversionError::InvalidVersion)));
                let same = !matches!(&r2, Some(Ok(()))) && own[..] == *b && !matches!(&via, Some(Ok(_)));
                json!({"ok": false, "out": [], "same": same, "again": true, "dec": false, "v": [-1]})
            }
        };
        let mut c = c;
        odd |= c["same"] != true || c["again"] != true;
        c["f"] = json!(from.map(|f| f as i64).unwrap_or(-1));
        c["t"] = json!(to);
        c["inv"] = json!(inval);
        convs.push(c);
    }

    odd |= !panics.is_empty();
    let limit = 512 * b.len() + 16384;
    odd |= allocs.iter().any(|n| *n > limit);
    Out {
        j: json!({
            "t": "v", "b": arr(b), "kind": kind_j, "len": len_j,
            "dec": res(&dec_r), "v": dec_v.as_ref().map(to_json).unwrap_or(wild()),
            "part": part, "walks": walks, "conv": convs, "alloc": allocs.iter().max(), "panics": panics,
        }),
        len,
        dec: dec_v.as_ref().map(V::canon),
        decn: if whole { dec_v.as_ref().map(V::canon) } else { decn_v.as_ref().map(V::canon) },
        conv,
        conv_dec,
        odd,
    }
}

/// Serializing a value and decoding that again. `how`: 0 as it is, 1 legacy, 2 piece by piece.
pub fn ser_case(v: &V, how: u8, n: usize, want: bool) -> (J, bool) {
    let to_json = |v: &V| if want { to_json(v) } else { J::Null };
    let arr = |b: &[u8]| if want { arr(b) } else { J::Null };
    let mut panics = Vec::new();
    let real = to_real(v);
    let r = guard(&mut panics, "serialize", || match how {
        0 => SerializedValue::serialize(&real),
        1 => SerializedValue::serialize_as::<tags::Value>(Legacy(&real)),
        _ => SerializedValue::serialize_as::<tags::Value>(Piecewise(&real, n)),
    });
    let mut odd = false;
    let mut j = match &r {
        Some(Ok(out)) => {
            let dec = guard(&mut panics, "decode", || out.deserialize_as_value());
            let back = match &dec {
                Some(Ok(d)) => Some(from_real(d)),
                _ => None,
            };
            odd |= back.as_ref().map(V::canon) != Some(v.canon());
            json!({"ok": true, "deep": false, "out": arr(&out[..]), "dec": back.is_some(),
                   "back": back.as_ref().map(to_json).unwrap_or(wild())})
        }
        Some(Err(e)) => json!({"ok": false, "deep": *e == SerializeError::TooDeeplyNested, "out": [], "dec": false, "back": [-1]}),
        None => json!({"ok": false, "deep": false, "out": [], "dec": false, "back": [-1]}),
    };
    odd |= !panics.is_empty();
    j["t"] = json!("s");
    j["how"] = json!(how);
    j["v"] = to_json(v);
    j["panics"] = json!(panics);
    (j, odd)
}

