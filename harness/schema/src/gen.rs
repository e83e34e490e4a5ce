//! Programs made of generated code, for harness/corpus to drive.
use crate::text::Texts;
use crate::{caught, parse, Args};
use aldrin_codegen::rust::names;
use aldrin_codegen::{Generator, Options, RustOptions};
use aldrin_parser::ast::*;
use aldrin_parser::Parser;
use rand::rngs::SmallRng;
use rand::SeedableRng;
use serde_json::{json, Value as J};
use std::fmt::Write as _;
use std::fs::{self, File};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};

const CRATE: &str = r#"[package]
name = "NAME"
version = "0.1.0"
edition = "2021"
publish = false

[features]
default = ["intro"]
intro = []

[dependencies]
aldrin = { path = "/repo/aldrin", features = ["introspection", "macros"] }
vcorpus = { path = "HARNESS/corpus" }
"#;

const WORKSPACE: &str = r#"[workspace]
resolver = "2"
members = [MEMBERS]

[profile.dev]
opt-level = 1
debug = false
debug-assertions = true
overflow-checks = true
"#;

/// How the code of a case is generated.
#[derive(Clone)]
struct Plan {
    client: bool,
    server: bool,
    introspection: bool,
    krate: Option<&'static str>,
    introspection_if: Option<&'static str>,
    by_macro: bool,
}

impl Plan {
    fn of(n: u64) -> Self {
        Self {
            client: n % 6 != 1,
            server: !matches!(n % 12, 1 | 5),
            introspection: n % 9 != 3,
            krate: [None, Some("::aldrin"), None, Some("crate::re"), None][(n % 5) as usize],
            introspection_if: (n % 7 == 2).then_some("intro"),
            by_macro: matches!(n % 11, 1 | 5 | 8),
        }
    }
    fn services(&self) -> bool {
        self.client || self.server
    }
    fn intro(&self) -> bool {
        self.introspection || self.introspection_if.is_some()
    }
}

fn generate(p: &Parser, plan: &Plan) -> Result<String, String> {
    let mut o = Options::new();
    o.client = plan.client;
    o.server = plan.server;
    o.introspection = plan.intro();
    let mut ro = RustOptions::new();
    ro.krate = plan.krate;
    ro.introspection_if = plan.introspection_if;
    caught(|| Generator::new(&o, p).rust(&ro).map(|o| o.module_content).map_err(|e| e.to_string())).unwrap_or_else(Err)
}

/// The Rust type that a type of specs/Layout.tla stands for.
fn rust_type(t: &J, proxy: bool) -> String {
    let a = || rust_type(&t["a"], proxy);
    let b = || rust_type(&t["b"], proxy);
    match t["k"].as_str().unwrap() {
        k @ ("bool" | "u8" | "i8" | "u16" | "i16" | "u32" | "i32" | "u64" | "i64" | "f32" | "f64") => k.into(),
        "string" => "String".into(),
        "uuid" => "::aldrin::private::uuid::Uuid".into(),
        "object_id" => "::aldrin::core::ObjectId".into(),
        "service_id" => "::aldrin::core::ServiceId".into(),
        "value" => "::aldrin::core::SerializedValue".into(),
        "bytes" => "::aldrin::core::Bytes".into(),
        "lifetime" => "::aldrin::LifetimeId".into(),
        "unit" => "()".into(),
        "option" => format!("Option<{}>", a()),
        "box" => format!("Box<{}>", a()),
        "vec" => format!("Vec<{}>", a()),
        "map" => format!("::std::collections::HashMap<{}, {}>", a(), b()),
        "set" => format!("::std::collections::HashSet<{}>", a()),
        "sender" => format!("::aldrin::UnboundSender<{}>", a()),
        "receiver" => format!("::aldrin::UnboundReceiver<{}>", a()),
        "result" => format!("Result<{}, {}>", a(), b()),
        "array" => format!("[{}; {}]", a(), t["len"].as_str().unwrap()),
        "ref" => format!("m::r#{}::r#{}", t["s"].as_str().unwrap(), t["n"].as_str().unwrap()),
        "svc" if proxy => format!("m::r#{}::r#{}", t["s"].as_str().unwrap(), names::service_proxy(t["n"].as_str().unwrap())),
        "svc" => format!("m::r#{}::r#{}", t["s"].as_str().unwrap(), t["n"].as_str().unwrap()),
        k => panic!("no type {k}"),
    }
}

/// The table of a case: how to decode and encode each type.
struct Table<'a> {
    out: String,
    schema: &'a str,
    have: Vec<String>,
}

impl Table<'_> {
    fn entry(&mut self, name: &str, body: String) {
        let ty = format!("m::r#{}::r#{}", self.schema, name);
        self.have.push(format!("{}::{name}", self.schema));
        writeln!(self.out, "    vcorpus::drive::entry::<{ty}>({:?}, {name:?}, |v| {body}),", self.schema).unwrap();
    }

    fn as_ref(&self, name: &str, e: &str) -> String {
        format!("::aldrin::core::SerializedValue::serialize_as::<m::r#{}::r#{name}>({e})", self.schema)
    }

    fn rf(&self, name: &str) -> String {
        format!("m::r#{}::r#{}", self.schema, names::default_ref_type(name))
    }

    fn strukt(&mut self, name: &str, fields: &[StructField], fb: Option<&StructFallback>) {
        let all: Vec<String> = fields
            .iter()
            .map(|f| f.name().value())
            .chain(fb.map(|f| f.name().value()))
            .map(|f| format!("r#{f}: &v.r#{f}"))
            .collect();
        let rf = self.rf(name);
        let e = if all.is_empty() { rf } else { format!("{rf} {{ {} }}", all.join(", ")) };
        let e = format!("[{}].into()", self.as_ref(name, &e));
        self.entry(name, e);
    }

    fn enumm(&mut self, name: &str, vars: &[EnumVariant], fb: Option<&EnumFallback>) {
        let rf = self.rf(name);
        let ty = format!("m::r#{}::r#{}", self.schema, name);
        let vs: Vec<(&str, bool)> =
            vars.iter().map(|v| (v.name().value(), v.variant_type().is_some())).chain(fb.map(|f| (f.name().value(), true))).collect();
        let (mut whole, mut ctors) = (String::new(), String::new());
        for &(v, some) in &vs {
            let ctor = names::enum_ref_type_ctor(v);
            // not when it could be something else
            let clear = v != ctor && vs.iter().filter(|(w, _)| names::enum_ref_type_ctor(w) == ctor || *w == ctor).count() == 1;
            if !clear {
                let (x, p) = if some { (format!("{rf}::r#{v}(x)"), "(x)") } else { (format!("{rf}::r#{v}"), "") };
                write!(whole, "{ty}::r#{v}{p} => {x}, ").unwrap();
                write!(ctors, "{ty}::r#{v}{} => {}, ", if some { "(_)" } else { "" }, self.as_ref(name, "v")).unwrap();
            } else if some {
                write!(whole, "{ty}::r#{v}(x) => {rf}::r#{v}(x), ").unwrap();
                write!(ctors, "{ty}::r#{v}(x) => {}, ", self.as_ref(name, &format!("{rf}::r#{ctor}(x)"))).unwrap();
            } else {
                write!(whole, "{ty}::r#{v} => {rf}::r#{v}, ").unwrap();
                write!(ctors, "{ty}::r#{v} => {}, ", self.as_ref(name, &format!("{rf}::r#{ctor}()"))).unwrap();
            }
        }
        let a = self.as_ref(name, &format!("match v {{ {whole} }}"));
        self.entry(name, format!("[{a}, match v {{ {ctors} }}].into()"));
    }

    fn inline(&mut self, name: String, t: &TypeNameOrInline) {
        match t {
            TypeNameOrInline::Struct(s) => self.strukt(&name, s.fields(), s.fallback()),
            TypeNameOrInline::Enum(e) => self.enumm(&name, e.variants(), e.fallback()),
            TypeNameOrInline::TypeName(_) => {}
        }
    }

    fn def(&mut self, d: &Definition, plan: &Plan) {
        match d {
            Definition::Struct(s) => self.strukt(s.name().value(), s.fields(), s.fallback()),
            Definition::Enum(e) => self.enumm(e.name().value(), e.variants(), e.fallback()),
            Definition::Newtype(n) => {
                let name = n.name().value();
                let e = format!("{}(&v.0)", self.rf(name));
                let e = format!("[{}].into()", self.as_ref(name, &e));
                self.entry(name, e);
            }
            Definition::Service(s) if plan.services() => {
                let svc = s.name().value();
                self.have.push(format!("{}::{svc}", self.schema));
                for i in s.items() {
                    match i {
                        ServiceItem::Function(f) => {
                            let n = f.name().value();
                            for (p, name) in [
                                (f.args(), names::function_args(svc, n)),
                                (f.ok(), names::function_ok(svc, n)),
                                (f.err(), names::function_err(svc, n)),
                            ] {
                                if let Some(p) = p {
                                    self.inline(name, p.part_type());
                                }
                            }
                        }
                        ServiceItem::Event(e) => {
                            if let Some(t) = e.event_type() {
                                self.inline(names::event_args(svc, e.name().value()), t);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

struct Member {
    dir: PathBuf,
    mods: String,
    cases: String,
}

pub fn gen(a: &Args) {
    let dir = Path::new(a.get("--dir").unwrap()).to_path_buf();
    let harness = a.get("--harness").unwrap();
    let skip: Vec<u64> = a.get("--skip").unwrap_or("").split(',').filter_map(|s| s.parse().ok()).collect();
    let crates = a.num("--crates", 8) as usize;
    let prefix = a.get("--name").unwrap_or("corpus").to_string();
    let (mut cases, mut invalid, mut schemas, mut failed) = (0, Vec::new(), 0, Vec::new());
    let mut members: Vec<Member> = (0..crates)
        .map(|k| {
            let dir = dir.join(format!("k{k}"));
            fs::create_dir_all(dir.join("src")).unwrap();
            fs::write(dir.join("Cargo.toml"), CRATE.replace("NAME", &format!("{prefix}-k{k}")).replace("HARNESS", harness)).unwrap();
            Member { dir, mods: String::new(), cases: String::new() }
        })
        .collect();
    let list: Vec<String> = (0..crates).map(|k| format!("\"k{k}\"")).collect();
    let quick: String = (0..crates).map(|k| format!("\n[profile.dev.package.{prefix}-k{k}]\nopt-level = 0\n")).collect();
    fs::write(dir.join("Cargo.toml"), WORKSPACE.replace("MEMBERS", &list.join(", ")) + &quick).unwrap();
    fs::copy(Path::new(harness).join("corpus/Cargo.lock"), dir.join("Cargo.lock")).unwrap();

    let texts = Texts::new(a.num("--seed", 1));
    for (i, l) in BufReader::new(File::open(a.get("--in").unwrap()).unwrap()).lines().enumerate() {
        let c: J = serde_json::from_str(&l.unwrap()).unwrap();
        let n = c["n"].as_u64().unwrap();
        if skip.contains(&n) {
            continue;
        }
        let plan = Plan::of(n);
        let m = &mut members[i % crates];
        let name = format!("c{n}");
        let src = m.dir.join("src").join(&name);
        let texts_dir = m.dir.join("schemas").join(&name);
        fs::create_dir_all(&src).unwrap();
        fs::create_dir_all(&texts_dir).unwrap();
        let mut rng = SmallRng::seed_from_u64(n);
        let mut srcs: Vec<(String, String)> = Vec::new();
        let mut add = |name: &str, toks: &J| srcs.push((name.into(), match toks.as_str() {
            Some(s) => s.to_string(),
            None => texts.lay(toks.as_array().unwrap(), &mut rng),
        }));
        add("lib", &c["lib"]);
        add("main", &c["main"]);
        if let Some(t) = c["next"].get(0) {
            add("next", t);
        }
        let mut table = String::new();
        let mut have = Vec::new();
        let mut ok = true;
        for (schema, text) in &srcs {
            fs::write(texts_dir.join(format!("{schema}.aldrin")), text).unwrap();
            let p = parse(schema, text, &srcs);
            if !p.errors().is_empty() {
                invalid.push(json!([n, schema, format!("{:?}", p.errors()[0])]));
                ok = false;
                break;
            }
            match generate(&p, &plan) {
                Ok(code) => fs::write(src.join(format!("{schema}.rs")), code).unwrap(),
                Err(e) => {
                    failed.push(json!([n, schema, e]));
                    ok = false;
                    break;
                }
            }
            let mut t = Table { out: String::new(), schema, have: Vec::new() };
            for d in p.main_schema().definitions() {
                t.def(d, &plan);
            }
            table += &t.out;
            have.extend(t.have);
        }
        if !ok {
            continue;
        }
        let gen = srcs.iter().map(|(s, _)| format!("\"schemas/{name}/{s}.aldrin\"")).collect::<Vec<_>>().join(", ");
        let m_mod = if plan.by_macro {
            let mut o = format!("{gen}, include = \"schemas/{name}\", client = {}, server = {}", plan.client, plan.server);
            if plan.intro() {
                o += ", introspection = true";
            }
            if let Some(f) = plan.introspection_if {
                write!(o, ", introspection_if = \"{f}\"").unwrap();
            }
            if let Some(k) = plan.krate {
                write!(o, ", crate = {k}").unwrap();
            }
            format!("::aldrin::generate!({o});\n")
        } else {
            for (s, _) in &srcs {
                fs::rename(src.join(format!("{s}.rs")), src.join(format!("m_{s}.rs"))).unwrap();
            }
            srcs.iter().map(|(s, _)| format!("#[path = \"m_{s}.rs\"]\npub mod r#{s};\n")).collect()
        };
        fs::write(src.join("m.rs"), m_mod).unwrap();
        let mut intro = String::new();
        if plan.intro() {
            for t in c["all"].as_array().unwrap() {
                let known = |t: &J| have.contains(&format!("{}::{}", t["s"].as_str().unwrap_or(""), t["n"].as_str().unwrap_or("")));
                if closed(t, &known) {
                    for proxy in [false, true] {
                        // services can be looked at from two sides
                        if if proxy { plan.client && t["k"] == "svc" } else { plan.server || t["k"] != "svc" } {
                            writeln!(intro, "    ({:?}, ::aldrin::core::introspection::DynIntrospectable::new::<{}>()),", t.to_string(), rust_type(t, proxy)).unwrap();
                        }
                    }
                }
            }
        }
        fs::write(
            src.join("mod.rs"),
            format!(
                "pub mod m;\n\npub fn case() -> vcorpus::drive::Case {{\n  vcorpus::drive::Case {{ n: {n}, entries: vec![\n{table}  ], intro: vec![\n{intro}  ] }}\n}}\n"
            ),
        )
        .unwrap();
        writeln!(m.mods, "mod {name};").unwrap();
        writeln!(m.cases, "        {name}::case(),").unwrap();
        cases += 1;
        schemas += srcs.len();
    }
    for m in members {
        let main = format!(
            "#![allow(warnings)]\n#![recursion_limit = \"512\"]\npub mod re {{ pub use ::aldrin::*; }}\n{}\nfn main() {{\n    vcorpus::drive::main(vec![\n{}    ]);\n}}\n",
            m.mods, m.cases
        );
        File::create(m.dir.join("src/main.rs")).unwrap().write_all(main.as_bytes()).unwrap();
    }
    println!("{}", json!({"cases": cases, "schemas": schemas, "invalid": invalid, "failed": failed}));
}

/// Whether a type has generated code for all that it mentions.
fn closed(t: &J, known: &impl Fn(&J) -> bool) -> bool {
    match t["k"].as_str().unwrap() {
        "ref" | "svc" => known(t),
        _ => ["a", "b"].iter().all(|x| t.get(x).is_none_or(|t| closed(t, known))),
    }
}
