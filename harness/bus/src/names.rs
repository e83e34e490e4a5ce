//! Symbolic names for uuids and values.
use crate::wire::V;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use uuid::Uuid;

pub struct Names {
    ids: HashMap<Uuid, i64>,
    uuids: HashMap<i64, Uuid>,
    next: i64,
    values: HashMap<String, i64>,
    raws: HashMap<i64, Vec<u8>>,
}

impl Names {
    pub fn new() -> Self {
        Self {
            ids: HashMap::new(),
            uuids: HashMap::new(),
            next: 1,
            values: HashMap::new(),
            raws: HashMap::new(),
        }
    }

    /// Number of a uuid produced by the code under test.
    pub fn id(&mut self, u: Uuid) -> i64 {
        if u.is_nil() {
            return 0;
        }
        if let Some(n) = self.ids.get(&u) {
            return *n;
        }
        let n = self.next;
        self.next += 1;
        self.ids.insert(u, n);
        self.uuids.insert(n, u);
        n
    }

    /// Uuid for a number used by the harness.
    pub fn uuid(&mut self, n: i64) -> Uuid {
        if n == 0 {
            return Uuid::nil();
        }
        if let Some(u) = self.uuids.get(&n) {
            return *u;
        }
        let u = Uuid::from_u128(0x5eed_0000_0000_4000_8000_0000_0000_0000 + n as u128);
        self.ids.insert(u, n);
        self.uuids.insert(n, u);
        u
    }

    pub fn next_cookie(&self) -> i64 {
        self.next
    }

    pub fn payload(&mut self, raw: &[u8]) -> J {
        let (text, w, bad) = match V::decode(raw) {
            Ok((v, w)) => (v.canon(), w, false),
            Err(_) => (format!("raw {raw:?}"), 0, true),
        };
        let n = self.values.len() as i64 + 1;
        let v = *self.values.entry(text).or_insert(n);
        json!({"v": v, "w": w, "bad": bad})
    }

    /// Remembers raw bytes so that replayed payload descriptors can refer to them.
    #[allow(dead_code)]
    pub fn keep_raw(&mut self, n: i64, raw: Vec<u8>) {
        self.raws.insert(n, raw);
    }
}
