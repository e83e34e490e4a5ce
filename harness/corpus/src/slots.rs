//! Hand-built descriptions: type number N is whatever the table of the current thread says.
use aldrin_core::introspection::{ir, DynIntrospectable, Introspectable, LexicalId, References};
use aldrin_core::ServiceUuid;
use serde_json::Value as J;
use std::cell::RefCell;
use std::collections::HashMap;

pub const SLOTS: usize = 512;

struct Entry {
    layout: ir::LayoutIr,
    lexical: LexicalId,
    refs: Vec<usize>,
}

thread_local! {
    static TABLE: RefCell<Vec<Entry>> = const { RefCell::new(Vec::new()) };
}

struct Slot<const N: usize>;

impl<const N: usize> Introspectable for Slot<N> {
    fn layout() -> ir::LayoutIr {
        TABLE.with_borrow(|t| t[N].layout.clone())
    }
    fn lexical_id() -> LexicalId {
        TABLE.with_borrow(|t| t[N].lexical)
    }
    fn add_references(references: &mut References) {
        let refs = TABLE.with_borrow(|t| t[N].refs.clone());
        // In one of the ways there are.
        match N % 3 {
            0 => references.extend(refs.into_iter().map(slot)),
            1 => {
                references.reserve(refs.len());
                refs.into_iter().for_each(|r| references.add_dyn(slot(r)));
            }
            _ => refs.into_iter().for_each(|r| ADD[r / 16][r % 16](references)),
        }
    }
}

macro_rules! slots {
    (@ $($hi:literal)*) => { [$( sixteen!($hi * 16) ),*] };
}
macro_rules! sixteen {
    ($b:expr) => {
        [
            DynIntrospectable::new::<Slot<{ $b }>>, DynIntrospectable::new::<Slot<{ $b + 1 }>>, DynIntrospectable::new::<Slot<{ $b + 2 }>>,
            DynIntrospectable::new::<Slot<{ $b + 3 }>>, DynIntrospectable::new::<Slot<{ $b + 4 }>>, DynIntrospectable::new::<Slot<{ $b + 5 }>>,
            DynIntrospectable::new::<Slot<{ $b + 6 }>>, DynIntrospectable::new::<Slot<{ $b + 7 }>>, DynIntrospectable::new::<Slot<{ $b + 8 }>>,
            DynIntrospectable::new::<Slot<{ $b + 9 }>>, DynIntrospectable::new::<Slot<{ $b + 10 }>>, DynIntrospectable::new::<Slot<{ $b + 11 }>>,
            DynIntrospectable::new::<Slot<{ $b + 12 }>>, DynIntrospectable::new::<Slot<{ $b + 13 }>>, DynIntrospectable::new::<Slot<{ $b + 14 }>>,
            DynIntrospectable::new::<Slot<{ $b + 15 }>>,
        ]
    };
}

static ALL: [[fn() -> DynIntrospectable; 16]; 32] =
    slots!(@ 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);

fn add<const N: usize>(references: &mut References) {
    references.add::<Slot<N>>();
}

macro_rules! adds {
    (@ $($hi:literal)*) => { [$( sixteen_adds!($hi * 16) ),*] };
}
macro_rules! sixteen_adds {
    ($b:expr) => {
        [
            add::<{ $b }>, add::<{ $b + 1 }>, add::<{ $b + 2 }>, add::<{ $b + 3 }>, add::<{ $b + 4 }>, add::<{ $b + 5 }>, add::<{ $b + 6 }>,
            add::<{ $b + 7 }>, add::<{ $b + 8 }>, add::<{ $b + 9 }>, add::<{ $b + 10 }>, add::<{ $b + 11 }>, add::<{ $b + 12 }>,
            add::<{ $b + 13 }>, add::<{ $b + 14 }>, add::<{ $b + 15 }>,
        ]
    };
}

static ADD: [[fn(&mut References); 16]; 32] =
    adds!(@ 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);

fn slot(n: usize) -> DynIntrospectable {
    ALL[n / 16][n % 16]()
}

/// How the references of a type are listed: in which order, and which of them repeatedly.
pub type Order<'a> = &'a mut dyn FnMut(Vec<usize>) -> Vec<usize>;

/// The types of a universe, ready to be looked at in this thread.
pub struct Universe {
    slots: HashMap<String, usize>,
}

impl Universe {
    /// `defs` as in specs/Layout.tla; `types`: the types to be described, closed under what they mention.
    pub fn new(defs: &J, types: &[J], order: Order) -> Self {
        assert!(types.len() <= SLOTS);
        let slots: HashMap<String, usize> = types.iter().enumerate().map(|(n, t)| (t.to_string(), n)).collect();
        let u = Self { slots };
        let table = types
            .iter()
            .map(|t| {
                let mut refs = Vec::new();
                let layout = u.layout(defs, t, &mut refs);
                Entry { layout, lexical: lexical(t), refs: order(refs) }
            })
            .collect();
        TABLE.set(table);
        u
    }

    pub fn get(&self, t: &J) -> DynIntrospectable {
        slot(self.slots[&t.to_string()])
    }

    fn layout(&self, defs: &J, t: &J, refs: &mut Vec<usize>) -> ir::LayoutIr {
        let mut mention = |t: &J| {
            refs.push(self.slots[&t.to_string()]);
            lexical(t)
        };
        let k = t["k"].as_str().unwrap();
        if k != "ref" && k != "svc" {
            for x in ["a", "b"] {
                if let Some(t) = t.get(x) {
                    mention(t);
                }
            }
            return built_in(t).into();
        }
        let d = defs.as_array().unwrap().iter().find(|d| d["s"] == t["s"] && d["n"] == t["n"] && (d["k"] == "svc") == (k == "svc")).unwrap();
        let (s, n) = (d["s"].as_str().unwrap(), d["n"].as_str().unwrap());
        macro_rules! with_doc {
            ($b:expr, $d:expr) => {{
                let mut b = $b;
                if let Some(doc) = $d["doc"][0].as_str() {
                    b = b.doc(doc);
                }
                b
            }};
        }
        macro_rules! with_fallback {
            ($b:ident, $f:expr, $with:ident, $ty:ident) => {
                if let Some(f) = $f.get(0) {
                    $b = $b.$with(with_doc!(ir::$ty::builder(str(&f["n"])), f).finish());
                }
            };
        }
        let list = |x: &J| x.as_array().unwrap().clone();
        match d["k"].as_str().unwrap() {
            "struct" => {
                let mut b = with_doc!(ir::StructIr::builder(s, n), d);
                for f in list(&d["fields"]) {
                    let ty = mention(&f["ty"]);
                    b = b.field(with_doc!(ir::FieldIr::builder(num(&f["id"]), str(&f["n"]), f["req"].as_bool().unwrap(), ty), f).finish());
                }
                with_fallback!(b, d["fb"], fallback, StructFallbackIr);
                b.finish().into()
            }
            "enum" => {
                let mut b = with_doc!(ir::EnumIr::builder(s, n), d);
                for v in list(&d["vars"]) {
                    let mut vb = with_doc!(ir::VariantIr::builder(num(&v["id"]), str(&v["n"])), v);
                    if let Some(ty) = v["ty"].get(0) {
                        vb = vb.variant_type(mention(ty));
                    }
                    b = b.variant(vb.finish());
                }
                with_fallback!(b, d["fb"], fallback, EnumFallbackIr);
                b.finish().into()
            }
            "newtype" => with_doc!(ir::NewtypeIr::builder(s, n, mention(&d["ty"])), d).finish().into(),
            "svc" => {
                let mut b = with_doc!(ir::ServiceIr::builder(s, n, ServiceUuid(str(&d["uuid"]).parse().unwrap()), num(&d["version"])), d);
                for f in list(&d["fns"]) {
                    let mut fb = with_doc!(ir::FunctionIr::builder(num(&f["id"]), str(&f["n"])), f);
                    if let Some(ty) = f["args"].get(0) {
                        fb = fb.args(mention(ty));
                    }
                    if let Some(ty) = f["ok"].get(0) {
                        fb = fb.ok(mention(ty));
                    }
                    if let Some(ty) = f["err"].get(0) {
                        fb = fb.err(mention(ty));
                    }
                    b = b.function(fb.finish());
                }
                for e in list(&d["evs"]) {
                    let mut eb = with_doc!(ir::EventIr::builder(num(&e["id"]), str(&e["n"])), e);
                    if let Some(ty) = e["ty"].get(0) {
                        eb = eb.event_type(mention(ty));
                    }
                    b = b.event(eb.finish());
                }
                with_fallback!(b, d["ffb"], function_fallback, FunctionFallbackIr);
                with_fallback!(b, d["efb"], event_fallback, EventFallbackIr);
                b.finish().into()
            }
            k => panic!("{k}"),
        }
    }
}

fn str(j: &J) -> &str {
    j.as_str().unwrap()
}
fn num(j: &J) -> u32 {
    str(j).parse().unwrap()
}

fn built_in(t: &J) -> ir::BuiltInTypeIr {
    use ir::BuiltInTypeIr as B;
    let a = || lexical(&t["a"]);
    let b = || lexical(&t["b"]);
    match str(&t["k"]) {
        "bool" => B::Bool,
        "u8" => B::U8,
        "i8" => B::I8,
        "u16" => B::U16,
        "i16" => B::I16,
        "u32" => B::U32,
        "i32" => B::I32,
        "u64" => B::U64,
        "i64" => B::I64,
        "f32" => B::F32,
        "f64" => B::F64,
        "string" => B::String,
        "uuid" => B::Uuid,
        "object_id" => B::ObjectId,
        "service_id" => B::ServiceId,
        "value" => B::Value,
        "bytes" => B::Bytes,
        "lifetime" => B::Lifetime,
        "unit" => B::Unit,
        "option" => B::Option(a()),
        "box" => B::Box(a()),
        "vec" => B::Vec(a()),
        "set" => B::Set(a()),
        "sender" => B::Sender(a()),
        "receiver" => B::Receiver(a()),
        "map" => B::Map(ir::MapTypeIr::new(a(), b())),
        "result" => B::Result(ir::ResultTypeIr::new(a(), b())),
        "array" => B::Array(ir::ArrayTypeIr::new(a(), num(&t["len"]))),
        k => panic!("{k}"),
    }
}

fn lexical(t: &J) -> LexicalId {
    match str(&t["k"]) {
        "ref" => LexicalId::custom(str(&t["s"]), str(&t["n"])),
        "svc" => LexicalId::service(str(&t["s"]), str(&t["n"])),
        _ => built_in(t).lexical_id(),
    }
}
