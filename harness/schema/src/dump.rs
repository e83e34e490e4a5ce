//! The syntax tree as specs/Schema.tla describes it.
use crate::text::Texts;
use aldrin_parser::ast::*;
use aldrin_parser::Schema;
use serde_json::{json, Value as J};

pub struct Dump<'a>(pub &'a Texts);

impl Dump<'_> {
    pub fn schema(&self, s: &Schema) -> J {
        json!({
            "comment": self.comment(s.comment()), "doc": self.doc(s.doc()),
            "imports": s.imports().iter().map(|i| json!({"comment": self.comment(i.comment()), "name": self.id(i.schema_name())})).collect::<Vec<_>>(),
            "defs": s.definitions().iter().map(|d| self.def(d)).collect::<Vec<_>>(),
        })
    }

    fn id(&self, i: &Ident) -> J {
        json!(self.0.unname(i.value()))
    }

    fn comment(&self, c: &[Comment]) -> J {
        c.iter().map(|c| self.0.inner(c.value_inner())).collect::<Vec<_>>().into()
    }

    fn doc(&self, c: &[DocString]) -> J {
        c.iter().map(|c| self.0.inner(c.value_inner())).collect::<Vec<_>>().into()
    }

    fn attrs(&self, a: &[Attribute]) -> J {
        a.iter()
            .map(|a| json!({"name": self.id(a.name()), "opts": a.options().iter().map(|o| self.id(o)).collect::<Vec<_>>()}))
            .collect::<Vec<_>>()
            .into()
    }

    fn opt<T: ?Sized>(&self, x: Option<&T>, f: impl Fn(&T) -> J) -> J {
        x.map(f).into_iter().collect::<Vec<_>>().into()
    }

    fn fields(&self, f: &[StructField]) -> J {
        f.iter()
            .map(|f| {
                json!({"comment": self.comment(f.comment()), "doc": self.doc(f.doc()), "req": f.required(), "name": self.id(f.name()),
                       "id": f.id().value(), "ty": self.ty(f.field_type())})
            })
            .collect::<Vec<_>>()
            .into()
    }

    fn vars(&self, v: &[EnumVariant]) -> J {
        v.iter()
            .map(|v| {
                json!({"comment": self.comment(v.comment()), "doc": self.doc(v.doc()), "name": self.id(v.name()),
                       "id": v.id().value(), "ty": self.opt(v.variant_type(), |t| self.ty(t))})
            })
            .collect::<Vec<_>>()
            .into()
    }

    fn inline(&self, t: &TypeNameOrInline) -> J {
        match t {
            TypeNameOrInline::TypeName(t) => json!({"k": "type", "ty": self.ty(t)}),
            TypeNameOrInline::Struct(s) => json!({"k": "struct", "doc": self.doc(s.doc()), "attrs": self.attrs(s.attributes()),
                "fields": self.fields(s.fields()), "fb": self.opt(s.fallback(), |f| json!({"comment": self.comment(f.comment()), "doc": self.doc(f.doc()), "name": self.id(f.name())}))}),
            TypeNameOrInline::Enum(s) => json!({"k": "enum", "doc": self.doc(s.doc()), "attrs": self.attrs(s.attributes()),
                "vars": self.vars(s.variants()), "fb": self.opt(s.fallback(), |f| json!({"comment": self.comment(f.comment()), "doc": self.doc(f.doc()), "name": self.id(f.name())}))}),
        }
    }

    fn part(&self, p: Option<&FunctionPart>) -> J {
        self.opt(p, |p| json!({"comment": self.comment(p.comment()), "ty": self.inline(p.part_type())}))
    }

    fn item(&self, i: &ServiceItem) -> J {
        match i {
            ServiceItem::Function(f) => json!({"k": "fn", "comment": self.comment(f.comment()), "doc": self.doc(f.doc()), "name": self.id(f.name()),
                "id": f.id().value(), "args": self.part(f.args()), "ok": self.part(f.ok()), "err": self.part(f.err())}),
            ServiceItem::Event(e) => json!({"k": "event", "comment": self.comment(e.comment()), "doc": self.doc(e.doc()), "name": self.id(e.name()),
                "id": e.id().value(), "ty": self.opt(e.event_type(), |t| self.inline(t))}),
        }
    }

    fn def(&self, d: &Definition) -> J {
        match d {
            Definition::Struct(d) => json!({"k": "struct", "comment": self.comment(d.comment()), "doc": self.doc(d.doc()), "attrs": self.attrs(d.attributes()),
                "name": self.id(d.name()), "fields": self.fields(d.fields()),
                "fb": self.opt(d.fallback(), |f| json!({"comment": self.comment(f.comment()), "doc": self.doc(f.doc()), "name": self.id(f.name())}))}),
            Definition::Enum(d) => json!({"k": "enum", "comment": self.comment(d.comment()), "doc": self.doc(d.doc()), "attrs": self.attrs(d.attributes()),
                "name": self.id(d.name()), "vars": self.vars(d.variants()),
                "fb": self.opt(d.fallback(), |f| json!({"comment": self.comment(f.comment()), "doc": self.doc(f.doc()), "name": self.id(f.name())}))}),
            Definition::Newtype(d) => json!({"k": "newtype", "comment": self.comment(d.comment()), "doc": self.doc(d.doc()), "attrs": self.attrs(d.attributes()),
                "name": self.id(d.name()), "ty": self.ty(d.target_type())}),
            Definition::Const(d) => {
                let (ct, val) = match d.value() {
                    ConstValue::U8(v) => ("u8", v.value()),
                    ConstValue::I8(v) => ("i8", v.value()),
                    ConstValue::U16(v) => ("u16", v.value()),
                    ConstValue::I16(v) => ("i16", v.value()),
                    ConstValue::U32(v) => ("u32", v.value()),
                    ConstValue::I32(v) => ("i32", v.value()),
                    ConstValue::U64(v) => ("u64", v.value()),
                    ConstValue::I64(v) => ("i64", v.value()),
                    ConstValue::String(v) => ("string", v.value()),
                    ConstValue::Uuid(v) => ("uuid", v.value()),
                };
                json!({"k": "const", "comment": self.comment(d.comment()), "doc": self.doc(d.doc()), "name": self.id(d.name()),
                       "ct": ct, "val": self.0.unname(val)})
            }
            Definition::Service(d) => json!({"k": "service", "comment": self.comment(d.comment()), "doc": self.doc(d.doc()), "name": self.id(d.name()),
                "uc": self.comment(d.uuid_comment()), "uuid": d.uuid().value(), "vc": self.comment(d.version_comment()),
                "version": d.version().value(), "items": d.items().iter().map(|i| self.item(i)).collect::<Vec<_>>(),
                "ffb": self.opt(d.function_fallback(), |f| json!({"comment": self.comment(f.comment()), "doc": self.doc(f.doc()), "name": self.id(f.name())})),
                "efb": self.opt(d.event_fallback(), |f| json!({"comment": self.comment(f.comment()), "doc": self.doc(f.doc()), "name": self.id(f.name())}))}),
        }
    }

    fn re(&self, r: &NamedRef) -> J {
        json!({"k": "ref", "s": r.schema().map(|s| self.id(s)).unwrap_or(json!("")), "n": self.id(r.ident())})
    }

    fn ty(&self, t: &TypeName) -> J {
        use TypeNameKind as K;
        let one = |k: &str, a: &TypeName| json!({"k": k, "a": self.ty(a)});
        let two = |k: &str, a: &TypeName, b: &TypeName| json!({"k": k, "a": self.ty(a), "b": self.ty(b)});
        match t.kind() {
            K::Bool => json!({"k": "bool"}),
            K::U8 => json!({"k": "u8"}),
            K::I8 => json!({"k": "i8"}),
            K::U16 => json!({"k": "u16"}),
            K::I16 => json!({"k": "i16"}),
            K::U32 => json!({"k": "u32"}),
            K::I32 => json!({"k": "i32"}),
            K::U64 => json!({"k": "u64"}),
            K::I64 => json!({"k": "i64"}),
            K::F32 => json!({"k": "f32"}),
            K::F64 => json!({"k": "f64"}),
            K::String => json!({"k": "string"}),
            K::Uuid => json!({"k": "uuid"}),
            K::ObjectId => json!({"k": "object_id"}),
            K::ServiceId => json!({"k": "service_id"}),
            K::Value => json!({"k": "value"}),
            K::Bytes => json!({"k": "bytes"}),
            K::Lifetime => json!({"k": "lifetime"}),
            K::Unit => json!({"k": "unit"}),
            K::Option(a) => one("option", a),
            K::Box(a) => one("box", a),
            K::Vec(a) => one("vec", a),
            K::Set(a) => one("set", a),
            K::Sender(a) => one("sender", a),
            K::Receiver(a) => one("receiver", a),
            K::Map(a, b) => two("map", a, b),
            K::Result(a, b) => two("result", a, b),
            K::Array(a, l) => {
                let len = match l.value() {
                    ArrayLenValue::Literal(l) => json!({"k": "lit", "v": l.value()}),
                    ArrayLenValue::Ref(r) => self.re(r),
                };
                json!({"k": "array", "a": self.ty(a), "len": len})
            }
            K::Ref(r) => self.re(r),
        }
    }
}
