//! Puts values through generated types.
use crate::record::record_all;
use crate::slots::Universe;
use crate::{arg, caught};
use aldrin_core::introspection::DynIntrospectable;
use aldrin_core::message::{Message, MessageOps};
use aldrin_core::tags::{PrimaryTag, Tag};
use aldrin_core::{Deserialize, Serialize, SerializeError, SerializedValue, TypeId};
use bytes::BytesMut;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};

type Redo = Box<dyn Fn(&[u8]) -> Outcome>;

pub enum Outcome {
    Rejected,
    Accepted(Vec<Vec<u8>>),
    Broken(String),
}

pub struct Entry {
    schema: &'static str,
    name: &'static str,
    redo: Redo,
}

pub struct Case {
    pub n: u64,
    pub entries: Vec<Entry>,
    pub intro: Vec<(&'static str, DynIntrospectable)>,
}

/// Bytes as a serialized value.
fn value(b: &[u8]) -> SerializedValue {
    let mut f = vec![0; 4];
    f.push(12); // CallFunctionReply
    f.extend((b.len() as u32).to_le_bytes());
    f.extend_from_slice(b);
    f.extend([0, 0]);
    let n = f.len() as u32;
    f[..4].copy_from_slice(&n.to_le_bytes());
    let mut m = Message::deserialize_message(BytesMut::from(&f[..])).expect("carrier message");
    m.value_mut().expect("value").take()
}

fn redo<T>(b: &[u8], by_ref: impl Fn(&T) -> Vec<Result<SerializedValue, SerializeError>>) -> Outcome
where
    T: PrimaryTag + Deserialize<<T as PrimaryTag>::Tag> + Serialize<<T as PrimaryTag>::Tag>,
    for<'a> &'a T: Serialize<<T as PrimaryTag>::Tag>,
    T::Tag: Tag,
{
    let v = value(b);
    let Ok(t) = v.deserialize_as::<T::Tag, T>() else { return Outcome::Rejected };
    let mut all = by_ref(&t);
    all.push(SerializedValue::serialize_as::<T::Tag>(&t));
    // in the company of others
    let pair = SerializedValue::serialize_as::<aldrin_core::tags::Vec<T::Tag>>(vec![&t, &t]);
    let pair = pair.map(|p| p.deserialize_as::<aldrin_core::tags::Vec<T::Tag>, Vec<T>>());
    all.push(SerializedValue::serialize_as::<T::Tag>(t));
    match pair {
        Ok(Ok(ts)) => {
            if ts.len() != 2 {
                return Outcome::Broken("a pair has other than two elements".into());
            }
            all.extend(ts.into_iter().map(SerializedValue::serialize_as::<T::Tag>));
        }
        // one level deeper may be too deep
        Ok(Err(aldrin_core::DeserializeError::TooDeeplyNested)) | Err(SerializeError::TooDeeplyNested) => {}
        Ok(Err(e)) => return Outcome::Broken(format!("a pair can't be decoded: {e:?}")),
        Err(e) => return Outcome::Broken(format!("a pair can't be encoded: {e:?}")),
    }
    let mut outs: Vec<Vec<u8>> = Vec::new();
    for o in all {
        match o {
            Ok(o) => {
                let o = o.to_vec();
                if !outs.contains(&o) {
                    outs.push(o);
                }
            }
            Err(e) => return Outcome::Broken(format!("can't be encoded: {e:?}")),
        }
    }
    Outcome::Accepted(outs)
}

pub fn entry<T>(
    schema: &'static str,
    name: &'static str,
    by_ref: impl Fn(&T) -> Vec<Result<SerializedValue, SerializeError>> + Copy + 'static,
) -> Entry
where
    T: PrimaryTag + Deserialize<<T as PrimaryTag>::Tag> + Serialize<<T as PrimaryTag>::Tag> + 'static,
    for<'a> &'a T: Serialize<<T as PrimaryTag>::Tag>,
    T::Tag: Tag,
{
    Entry { schema, name, redo: Box::new(move |b| redo::<T>(b, by_ref)) }
}

struct Runs<'a> {
    types: Vec<J>,
    entries: HashMap<String, &'a Entry>,
    runs: Vec<J>,
    seen: std::collections::HashSet<(usize, Vec<u8>)>,
}

impl Runs<'_> {
    /// Puts a value through a type, and what comes back through the type's other version.
    fn go(&mut self, t: usize, b: &[u8], hops: usize) {
        let (s, n) = (self.types[t]["s"].as_str().unwrap().to_string(), self.types[t]["n"].as_str().unwrap().to_string());
        let Some(e) = self.entries.get(&format!("{s}::{n}")) else { return };
        if !self.seen.insert((t, b.to_vec())) {
            return;
        }
        let r = caught(|| (e.redo)(b)).unwrap_or_else(|p| Outcome::Broken(format!("panic: {p}")));
        let (r, outs, why) = match r {
            Outcome::Rejected => ("err", Vec::new(), String::new()),
            Outcome::Accepted(o) => ("ok", o, String::new()),
            Outcome::Broken(e) => ("broken", Vec::new(), e),
        };
        self.runs.push(json!({"t": t + 1, "in": b, "r": r, "outs": outs, "why": why}));
        if hops == 0 {
            return;
        }
        let twin = match s.as_str() {
            "next" => "main",
            "main" => "next",
            _ => "",
        };
        let twin = self.types.iter().position(|x| x["s"] == twin && x["n"] == n.as_str() && x["k"] == "ref");
        if let Some(x) = twin {
            self.go(x, b, hops - 1);
        }
        for o in outs.iter().take(2) {
            self.go(t, o, 0);
            if let Some(x) = twin {
                self.go(x, o, hops - 1);
            }
        }
    }
}

/// `--in CASES --values OUT --layouts OUT`
pub fn main(cases: Vec<Case>) {
    crate::quiet_panics();
    let cases: HashMap<u64, Case> = cases.into_iter().map(|c| (c.n, c)).collect();
    let mut values = BufWriter::new(File::create(arg("--values").unwrap()).unwrap());
    let mut layouts = BufWriter::new(File::create(arg("--layouts").unwrap()).unwrap());
    let (mut runs, mut accepted, mut types, mut ids) = (0, 0, 0, 0);
    for l in BufReader::new(File::open(arg("--in").unwrap()).unwrap()).lines() {
        let c: J = serde_json::from_str(&l.unwrap()).unwrap();
        let n = c["n"].as_u64().unwrap();
        let Some(case) = cases.get(&n) else { continue };
        let entries: HashMap<String, &Entry> = case.entries.iter().map(|e| (format!("{}::{}", e.schema, e.name), e)).collect();
        types += entries.len();
        let mut r = Runs { types: c["types"].as_array().unwrap().clone(), entries, runs: Vec::new(), seen: Default::default() };
        for v in c["vals"].as_array().unwrap() {
            let b: Vec<u8> = v[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            r.go(v[0].as_u64().unwrap() as usize - 1, &b, 2);
        }
        runs += r.runs.len();
        accepted += r.runs.iter().filter(|r| r["r"] == "ok").count();
        writeln!(values, "{}", json!({"n": n, "u": c["u"], "types": c["types"], "runs": r.runs})).unwrap();

        if case.intro.is_empty() {
            continue;
        }
        let mut bad = Vec::new();
        let known: Vec<(J, DynIntrospectable)> = case.intro.iter().map(|(t, d)| (serde_json::from_str(t).unwrap(), *d)).collect();
        let kt: Vec<&J> = known.iter().map(|(t, _)| t).collect();
        let all = c["all"].as_array().unwrap();
        let (mut kids, mut recs, mut hand) = (Vec::new(), Vec::new(), Vec::<String>::new());
        let done = crate::caught(|| {
            kids.extend(known.iter().map(|(_, d)| TypeId::compute_from_dyn(*d).0.to_string()));
            recs.extend(known.iter().map(|(_, d)| undocumented(record_all(*d, &mut bad))));
            let u = Universe::new(&c["u"], all, &mut |r| r);
            hand.extend(all.iter().map(|t| TypeId::compute_from_dyn(u.get(t)).0.to_string()));
        });
        if let Err(p) = done {
            bad.push(p);
        }
        ids += kids.len();
        let l = json!({"n": n, "bad": bad, "base": {"u": c["u"], "types": kt, "ids": kids}, "recs": recs,
                       "edits": [{"u": c["u"], "types": all, "ids": hand}]});
        writeln!(layouts, "{l}").unwrap();
    }
    println!("{}", json!({"cases": cases.len(), "types": types, "runs": runs, "accepted": accepted, "ids": ids}));
}

/// A record without docs, which the descriptions of cases leave out.
fn undocumented(mut r: J) -> J {
    fn strip(j: &mut J) {
        match j {
            J::Object(o) => {
                for (k, v) in o.iter_mut() {
                    if k == "doc" {
                        *v = json!([]);
                    } else {
                        strip(v);
                    }
                }
            }
            J::Array(a) => a.iter_mut().for_each(strip),
            _ => {}
        }
    }
    strip(&mut r);
    r
}
