//! Symbolic names for uuids; payloads are plain numbers here.
use crate::wire::V;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use uuid::Uuid;

pub struct Names {
    ids: HashMap<Uuid, i64>,
    uuids: HashMap<i64, Uuid>,
    next: i64,
}

#[allow(dead_code)]
impl Names {
    pub fn new() -> Self {
        Self {
            ids: HashMap::new(),
            uuids: HashMap::new(),
            next: 1,
        }
    }

    pub fn id(&mut self, u: Uuid) -> i64 {
        if u.is_nil() {
            return 0;
        }
        if let Some(n) = self.ids.get(&u) {
            return *n;
        }
        let n = self.next;
        self.next += 1;
        self.ids.insert(u, n);
        self.uuids.insert(n, u);
        n
    }

    /// Gives a uuid that the harness knows by itself a fixed number.
    pub fn fix(&mut self, n: i64, u: Uuid) {
        self.ids.insert(u, n);
        self.uuids.insert(n, u);
    }

    pub fn uuid(&mut self, n: i64) -> Uuid {
        if n == 0 {
            return Uuid::nil();
        }
        if let Some(u) = self.uuids.get(&n) {
            return *u;
        }
        let u = Uuid::from_u128(0x5eed_0000_0000_4000_8000_0000_0000_0000 + n as u128);
        self.ids.insert(u, n);
        self.uuids.insert(n, u);
        u
    }

    pub fn payload(&mut self, raw: &[u8]) -> J {
        match V::decode(raw) {
            Ok((v, _)) => json!(crate::vals::read(&v)),
            Err(_) => json!(-1),
        }
    }
}
