//! Introspection records as JSON, in the terms of specs/Layout.tla.
use aldrin_core::introspection::{ir, BuiltInType, DynIntrospectable, Introspection, Layout};
use aldrin_core::{ProtocolVersion, SerializedValue, TypeId};
use serde_json::{json, Value as J};

fn id(t: TypeId) -> J {
    json!(t.0.to_string())
}
fn ids(t: Option<TypeId>) -> J {
    t.map(|t| json!([id(t)])).unwrap_or(json!([]))
}
fn doc(d: Option<&str>) -> J {
    d.map(|d| json!([d])).unwrap_or(json!([]))
}

pub fn record(i: &Introspection) -> J {
    let mut refs: Vec<String> = i.iter_references().map(|t| t.0.to_string()).collect();
    refs.sort();
    json!({"id": id(i.type_id()), "refs": refs, "layout": layout(i.layout())})
}

macro_rules! fallback {
    ($f:expr) => {
        $f.map(|f| json!([{"n": f.name(), "doc": doc(f.doc())}])).unwrap_or(json!([]))
    };
}

/// `[key, id]` of a map that don't fit together are shown as they are.
fn key(k: u32, i: u32) -> String {
    if k == i {
        k.to_string()
    } else {
        format!("{k}/{i}")
    }
}

fn layout(l: &Layout) -> J {
    match l {
        Layout::BuiltIn(b) => built_in(*b),
        Layout::Struct(s) => json!({"k": "struct", "s": s.schema(), "n": s.name(), "doc": doc(s.doc()), "fb": fallback!(s.fallback()),
            "fields": s.fields().iter().map(|(k, f)| json!({"id": key(*k, f.id()), "n": f.name(), "doc": doc(f.doc()), "req": f.is_required(),
                "ty": id(f.field_type())})).collect::<Vec<_>>()}),
        Layout::Enum(e) => json!({"k": "enum", "s": e.schema(), "n": e.name(), "doc": doc(e.doc()), "fb": fallback!(e.fallback()),
            "vars": e.variants().iter().map(|(k, v)| json!({"id": key(*k, v.id()), "n": v.name(), "doc": doc(v.doc()),
                "ty": ids(v.variant_type())})).collect::<Vec<_>>()}),
        Layout::Newtype(t) => json!({"k": "newtype", "s": t.schema(), "n": t.name(), "doc": doc(t.doc()), "ty": id(t.target_type())}),
        Layout::Service(s) => json!({"k": "svc", "s": s.schema(), "n": s.name(), "doc": doc(s.doc()), "uuid": s.uuid().0.to_string(),
            "version": s.version().to_string(), "ffb": fallback!(s.function_fallback()), "efb": fallback!(s.event_fallback()),
            "fns": s.functions().iter().map(|(k, f)| json!({"id": key(*k, f.id()), "n": f.name(), "doc": doc(f.doc()), "args": ids(f.args()),
                "ok": ids(f.ok()), "err": ids(f.err())})).collect::<Vec<_>>(),
            "evs": s.events().iter().map(|(k, e)| json!({"id": key(*k, e.id()), "n": e.name(), "doc": doc(e.doc()),
                "ty": ids(e.event_type())})).collect::<Vec<_>>()}),
    }
}

fn built_in(b: BuiltInType) -> J {
    use BuiltInType as B;
    let k = |k: &str| json!({"k": k});
    let a = |k: &str, t| json!({"k": k, "a": id(t)});
    match b {
        B::Bool => k("bool"),
        B::U8 => k("u8"),
        B::I8 => k("i8"),
        B::U16 => k("u16"),
        B::I16 => k("i16"),
        B::U32 => k("u32"),
        B::I32 => k("i32"),
        B::U64 => k("u64"),
        B::I64 => k("i64"),
        B::F32 => k("f32"),
        B::F64 => k("f64"),
        B::String => k("string"),
        B::Uuid => k("uuid"),
        B::ObjectId => k("object_id"),
        B::ServiceId => k("service_id"),
        B::Value => k("value"),
        B::Bytes => k("bytes"),
        B::Lifetime => k("lifetime"),
        B::Unit => k("unit"),
        B::Option(t) => a("option", t),
        B::Box(t) => a("box", t),
        B::Vec(t) => a("vec", t),
        B::Set(t) => a("set", t),
        B::Sender(t) => a("sender", t),
        B::Receiver(t) => a("receiver", t),
        B::Map(m) => json!({"k": "map", "a": id(m.key()), "b": id(m.value())}),
        B::Result(r) => json!({"k": "result", "a": id(r.ok()), "b": id(r.err())}),
        B::Array(r) => json!({"k": "array", "a": id(r.elem_type()), "len": r.len().to_string()}),
    }
}

/// The record of a type, after it went through all ways of encoding.
pub fn record_all(t: DynIntrospectable, bad: &mut Vec<String>) -> J {
    let i = Introspection::from_dyn(t);
    let lowered = ir::IntrospectionIr::from_dyn(t);
    if lowered.lexical_id() != t.lexical_id() {
        bad.push("lexical id".into());
    }
    for (l, id) in lowered.iter_references() {
        if lowered.resolve(l) != Some(id) || l.resolve(&lowered) != Some(id) {
            bad.push(format!("{l} doesn't resolve to {}", id.0));
        }
    }
    let mut forms = vec![i.clone(), Introspection::from_ir(lowered)];
    let by_value = SerializedValue::serialize(i.clone()).unwrap();
    let by_ref = SerializedValue::serialize(&i).unwrap();
    for sv in [by_value, by_ref] {
        forms.push(sv.deserialize_as::<Introspection, Introspection>().expect("deserialize"));
        for v in [ProtocolVersion::V1_14, ProtocolVersion::V1_20] {
            let mut c = sv.clone();
            c.convert(None, v).expect("convert");
            forms.push(c.deserialize_as::<Introspection, Introspection>().expect("deserialize converted"));
        }
    }
    if let Some(n) = forms.iter().position(|f| *f != i) {
        bad.push(format!("form {n} of the record differs: {:?} {:?}", i, forms[n]));
    }
    record(forms.last().unwrap())
}
