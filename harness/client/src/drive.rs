//! Random multi-client programs.
use crate::ops::TYPES;
use crate::tap::Fault;
use crate::world::*;
use aldrin_broker::BrokerHandle;
use aldrin_core::{ObjectId, ServiceId};
use rand::rngs::SmallRng;
use rand::seq::IndexedRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

pub struct Driver {
    pub w: World,
    rng: SmallRng,
    svcs: Vec<[i64; 4]>,
    unbound: Vec<(&'static str, i64)>,
    weights: Vec<(&'static str, u32)>,
    /// Copies of unbound ends are bound more than once.
    dups: bool,
    cancels: f64,
    /// Likelihood of a second object.
    more: f64,
    /// Cookies of objects and services that were destroyed.
    flts: Vec<(i64, J)>,
    dead: HashSet<i64>,
}

const BASE: &[(&str, u32)] = &[
    ("createobj", 4),
    ("destroyobj", 1),
    ("createsvc", 6),
    ("destroysvc", 1),
    ("createproxy", 7),
    ("drop", 3),
    ("sync", 1),
    ("syncb", 1),
    ("version", 1),
    ("shutdown", 0),
];

fn weights(profile: &str) -> Vec<(&'static str, u32)> {
    let mut v = BASE.to_vec();
    let calls: &[(&str, u32)] = &[
        ("nextcall", 16),
        ("reply", 18),
        ("aborted", 2),
        ("isaborted", 2),
        ("call", 14),
        ("awaitreply", 8),
    ];
    let events: &[(&str, u32)] = &[
        ("emit", 20),
        ("sub", 10),
        ("unsub", 4),
        ("suball", 4),
        ("unsuball", 3),
        ("nextevent", 14),
        ("dropproxy", 3),
    ];
    let channels: &[(&str, u32)] = &[
        ("createchan", 10),
        ("unbind", 8),
        ("bind", 9),
        ("claim", 9),
        ("establish", 8),
        ("waitest", 2),
        ("close", 3),
        ("send", 16),
        ("rclosed", 2),
        ("nextitem", 14),
        ("dropchan", 3),
    ];
    let listen: &[(&str, u32)] = &[
        ("createobj", 4),
        ("newbus", 2),
        ("addf", 8),
        ("rmf", 3),
        ("clrf", 1),
        ("startbus", 8),
        ("stopbus", 5),
        ("destroybus", 1),
        ("busnext", 16),
        ("busfinished", 3),
    ];
    let intro: &[(&str, u32)] = &[("regintro", 8), ("submit", 6), ("query", 10)];
    let mut add =
        |l: &[(&'static str, u32)], d: u32| v.extend(l.iter().map(|(k, n)| (*k, n.div_ceil(d))));
    match profile {
        "calls" => add(calls, 1),
        "events" => add(events, 1),
        "channels" => {
            add(channels, 1);
        }
        "listeners" => add(listen, 1),
        "intro" => add(intro, 1),
        _ => {
            for l in [calls, events, channels, listen, intro] {
                add(l, 2);
            }
        }
    }
    if profile == "channels" {
        for w in &mut v {
            if BASE.iter().any(|b| b.0 == w.0) && w.0 != "syncb" {
                w.1 = w.1.min(1);
            }
        }
    }
    v
}

pub const PROFILES: &[&str] = &["calls", "events", "channels", "listeners", "intro", "mixed"];

impl Driver {
    pub fn new(seed: u64, profile: &str) -> Self {
        let mut rng = SmallRng::seed_from_u64(seed);
        let mode = match rng.random_range(0..10) {
            0..4 => Mode::Uniform,
            4..6 => Mode::Prio,
            6 => Mode::Starve("client"),
            7 => Mode::Starve("conn"),
            8 => Mode::Starve("op"),
            _ => Mode::Fifo,
        };
        let w = World::new(mode);
        w.name_types();
        let dups = rng.random_bool(0.3);
        let cancels = *[0.0, 0.03, 0.1].choose(&mut rng).unwrap();
        Self {
            w,
            rng,
            svcs: Vec::new(),
            unbound: Vec::new(),
            weights: weights(profile),
            dups,
            cancels,
            more: if profile == "listeners" { 1.0 } else { 0.4 },
            flts: Vec::new(),
            dead: HashSet::new(),
        }
    }

    fn connect(&mut self) {
        let rng = &mut self.rng;
        let cap = if rng.random_bool(0.3) {
            0
        } else {
            rng.random_range(1..=16)
        };
        let cap = if rng.random_bool(0.3) {
            cap.min(2)
        } else {
            cap
        };
        let minor = if rng.random_bool(0.5) {
            20
        } else {
            rng.random_range(14..=20)
        };
        let legacy = rng.random_bool(0.1);
        self.w.connect(&mut self.rng, cap, minor, legacy);
    }

    pub fn clients(&self) -> Vec<i64> {
        self.w
            .peers
            .values()
            .filter(|p| p.handle.is_some())
            .map(|p| p.id)
            .collect()
    }

    /// Clients that nobody has ended yet.
    fn open(&self) -> Vec<i64> {
        self.w
            .peers
            .values()
            .filter(|p| !p.closing && p.handle.is_some())
            .map(|p| p.id)
            .collect()
    }

    fn ents(&self, c: i64, kinds: &[&str]) -> Vec<i64> {
        self.w
            .store(c)
            .borrow()
            .iter()
            .filter(|(_, e)| kinds.contains(&e.kind()))
            .map(|(id, _)| *id)
            .collect()
    }

    fn ent(&mut self, c: i64, kinds: &[&str]) -> Option<i64> {
        let mut v = self.ents(c, kinds);
        if self.rng.random_bool(0.9) {
            v.retain(|e| !self.is_dead(c, *e));
        }
        // Old ones are known to others.
        if !v.is_empty() && (kinds == ["svc"] || kinds == ["px"] || kinds == ["reply"]) && self.rng.random_bool(0.5) {
            return Some(v[0]);
        }
        // Recent ones are more interesting.
        if v.len() > 2 && self.rng.random_bool(0.5) {
            return v[v.len() - 2..].choose(&mut self.rng).copied();
        }
        v.choose(&mut self.rng).copied()
    }

    fn oid(&self, o: ObjectId) -> [i64; 2] {
        let mut n = self.w.names.borrow_mut();
        [n.id(o.uuid.0), n.id(o.cookie.0)]
    }

    fn sid(&self, s: ServiceId) -> [i64; 4] {
        let o = self.oid(s.object_id);
        let mut n = self.w.names.borrow_mut();
        [o[0], o[1], n.id(s.uuid.0), n.id(s.cookie.0)]
    }

    fn learn(&mut self) {
        let ids: Vec<i64> = self.w.peers.keys().copied().collect();
        for c in ids {
            let store = self.w.store(c);
            let found: Vec<ServiceId> = store
                .borrow()
                .values()
                .filter_map(|e| match e {
                    Ent::Svc(s) => Some(s.id()),
                    _ => None,
                })
                .collect();
            for s in found {
                let s = self.sid(s);
                if !self.svcs.contains(&s) {
                    self.svcs.push(s);
                }
            }
        }
    }

    /// Is this an object or service that doesn't exist anymore?
    fn is_dead(&self, c: i64, e: i64) -> bool {
        match self.w.store(c).borrow().get(&e) {
            Some(Ent::Obj(o)) => self.dead.contains(&self.oid(o.id())[1]),
            Some(Ent::Svc(s)) => {
                let s = self.sid(s.id());
                self.dead.contains(&s[1]) || self.dead.contains(&s[3])
            }
            _ => false,
        }
    }

    fn bury(&mut self, c: i64, e: i64) {
        let ck = match self.w.store(c).borrow().get(&e) {
            Some(Ent::Obj(o)) => self.oid(o.id())[1],
            Some(Ent::Svc(s)) => self.sid(s.id())[3],
            _ => return,
        };
        self.dead.insert(ck);
    }

    /// Services that somebody holds.
    fn live(&self) -> Vec<[i64; 4]> {
        self.svcs.iter().filter(|s| !self.dead.contains(&s[1]) && !self.dead.contains(&s[3])).copied().collect()
    }

    /// UUIDs of existing objects.
    fn used(&self) -> Vec<i64> {
        let mut v = Vec::new();
        for c in self.w.peers.keys() {
            for e in self.w.store(*c).borrow().values() {
                if let Ent::Obj(o) = e {
                    let o = self.oid(o.id());
                    if !self.dead.contains(&o[1]) {
                        v.push(o[0]);
                    }
                }
            }
        }
        v
    }

    /// A filter to add to or remove from a listener: often one that it or another one has.
    fn flt_for(&mut self, e: i64, remove: bool) -> J {
        let near: Vec<J> = self
            .flts
            .iter()
            .filter(|(l, _)| (*l == e) == remove)
            .map(|(_, f)| f.clone())
            .collect();
        let f = match near.choose(&mut self.rng) {
            Some(f) if self.rng.random_bool(if remove { 0.8 } else { 0.3 }) => f.clone(),
            _ => self.flt(),
        };
        if !remove {
            self.flts.push((e, f.clone()));
        }
        f
    }

    fn flt(&mut self) -> J {
        let o = if self.rng.random_bool(0.4) {
            0
        } else {
            5001 + self.rng.random_range(0..4)
        };
        let s = if self.rng.random_bool(0.4) {
            0
        } else {
            6001 + self.rng.random_range(0..3)
        };
        if self.rng.random_bool(0.5) {
            json!({"t":"O","o":o,"s":0})
        } else {
            json!({"t":"S","o":o,"s":s})
        }
    }

    pub fn random_op(&mut self) -> bool {
        let total: u32 = self.weights.iter().map(|w| w.1).sum();
        let mut n = self.rng.random_range(0..total);
        let mut kind = "";
        for (k, w) in &self.weights {
            if n < *w {
                kind = k;
                break;
            }
            n -= w;
        }
        let Some(&c) = self.clients().choose(&mut self.rng) else {
            return false;
        };
        self.op(c, kind)
    }

    fn op(&mut self, c: i64, kind: &str) -> bool {
        macro_rules! ent {
            ($($k:expr),*) => {
                match self.ent(c, &[$($k),*]) {
                    Some(e) => e,
                    None => return false,
                }
            };
        }
        let ev = self.rng.random_range(1..4);
        let deep = self.rng.random_bool(0.03);
        let bad = self.rng.random_bool(0.08);
        let cap = *[0, 1, 1, 2, 3, 4, 5, 6, 8, 16]
            .choose(&mut self.rng)
            .unwrap();
        match kind {
            "createobj" => {
                let have = self.ents(c, &["obj"]).iter().filter(|e| !self.is_dead(c, **e)).count();
                if have >= 1 && !self.rng.random_bool(self.more / have as f64) {
                    return false;
                }
                let used = self.used();
                let mut u = 5001 + self.rng.random_range(0..4);
                for _ in 0..3 {
                    if used.contains(&u) {
                        u = 5001 + self.rng.random_range(0..4);
                    }
                }
                self.w.create_object(c, u)
            }
            "destroyobj" => {
                let e = ent!("obj");
                self.bury(c, e);
                self.w.destroy_object(c, e)
            }
            "createsvc" => {
                let have = self.ents(c, &["svc"]).iter().filter(|e| !self.is_dead(c, **e)).count();
                if have >= 2 && !self.rng.random_bool(0.5 / have as f64) {
                    return false;
                }
                let e = ent!("obj");
                let u = 6001 + self.rng.random_range(0..3);
                let ver = self.rng.random_range(0..3);
                let ty = if self.rng.random_bool(0.5) { 0 } else { 7001 };
                self.w.create_service(c, e, u, ver, ty)
            }
            "destroysvc" => {
                let e = ent!("svc");
                self.bury(c, e);
                self.w.destroy_service(c, e)
            }
            "nextcall" => {
                let e = ent!("svc");
                let how = *["low", "low", "low", "unk", "bad"].choose(&mut self.rng).unwrap();
                self.w.next_call(c, e, how)
            }
            "emit" => {
                let e = ent!("svc");
                self.w.emit(c, e, ev, deep)
            }
            "reply" => {
                let e = ent!("prom");
                let how = *[
                    "Ok",
                    "Ok",
                    "Ok",
                    "Err",
                    "Aborted",
                    "InvalidFunction",
                    "InvalidArgs",
                    "drop",
                ]
                .choose(&mut self.rng)
                .unwrap();
                self.w.reply(c, e, how, deep)
            }
            "aborted" => {
                let e = ent!("prom");
                self.w.aborted(c, e)
            }
            "isaborted" => {
                let e = ent!("prom");
                self.w.is_aborted(c, e)
            }
            "createproxy" => {
                self.learn();
                if self.svcs.is_empty() {
                    return false;
                }
                let live = self.live();
                let s = if !live.is_empty() && self.rng.random_bool(0.85) {
                    if self.rng.random_bool(0.5) {
                        live[0]
                    } else {
                        *live.choose(&mut self.rng).unwrap()
                    }
                } else {
                    *self.svcs.choose(&mut self.rng).unwrap()
                };
                self.w.create_proxy(c, s)
            }
            "call" => {
                let e = ent!("px");
                let ver = self.rng.random_bool(0.3).then_some(2);
                self.w.call(c, e, ev, ver, deep)
            }
            "awaitreply" => {
                let e = ent!("reply");
                self.w.await_reply(c, e, bad)
            }
            "sub" => {
                let e = ent!("px");
                self.w.sub(c, e, "sub", ev)
            }
            "unsub" => {
                let e = ent!("px");
                self.w.sub(c, e, "unsub", ev)
            }
            "suball" => {
                let e = ent!("px");
                self.w.sub(c, e, "suball", 0)
            }
            "unsuball" => {
                let e = ent!("px");
                self.w.sub(c, e, "unsuball", 0)
            }
            "nextevent" => {
                let e = ent!("px");
                self.w.next_event(c, e)
            }
            "dropproxy" => {
                let e = ent!("px");
                self.w.drop_ent(c, e)
            }
            "createchan" => {
                let end = if self.rng.random_bool(0.5) { "S" } else { "R" };
                self.w.create_channel(c, end, cap)
            }
            "unbind" => {
                let e = ent!("US", "UR");
                match self.w.unbind(c, e) {
                    Some(x) => {
                        self.unbound.push(x);
                        true
                    }
                    None => false,
                }
            }
            "bind" => {
                if self.unbound.is_empty() {
                    return false;
                }
                let i = self.rng.random_range(0..self.unbound.len());
                let (end, ck) = self.unbound[i];
                if !(self.dups && self.rng.random_bool(0.4)) {
                    self.unbound.remove(i);
                }
                self.w.bind(c, end, ck)
            }
            "claim" => {
                let e = ent!("US", "UR");
                self.w.claim(c, e, cap)
            }
            "establish" => {
                let e = ent!("PS", "PR");
                self.w.establish(c, e)
            }
            "waitest" => {
                let e = ent!("PS", "PR");
                self.w.wait_established(c, e)
            }
            "close" => {
                let e = ent!("US", "UR", "PS", "PR", "S", "R");
                self.w.close(c, e)
            }
            "send" => {
                let e = ent!("S");
                let n = self.rng.random_range(1..4);
                for _ in 0..n {
                    self.w.send_item(c, e, deep);
                }
                true
            }
            "rclosed" => {
                let e = ent!("S");
                self.w.receiver_closed(c, e)
            }
            "nextitem" => {
                let e = ent!("R");
                let n = self.rng.random_range(1..4);
                for _ in 0..n {
                    self.w.next_item(c, e, bad);
                }
                true
            }
            "dropchan" => {
                let e = ent!("US", "UR", "PS", "PR", "S", "R");
                self.w.drop_ent(c, e)
            }
            "newbus" => self.w.create_listener(c),
            "addf" | "rmf" | "clrf" => {
                let e = ent!("bus");
                let f = self.flt_for(e, kind == "rmf");
                self.w.listener_filter(c, e, kind, f)
            }
            "startbus" => {
                let e = ent!("bus");
                let sc = *["Current", "New", "All"].choose(&mut self.rng).unwrap();
                self.w.listener(c, e, "startbus", sc)
            }
            "stopbus" => {
                let e = ent!("bus");
                self.w.listener(c, e, "stopbus", "")
            }
            "destroybus" => {
                let e = ent!("bus");
                self.w.listener(c, e, "destroybus", "")
            }
            "busnext" => {
                let e = ent!("bus");
                self.w.listener(c, e, "busnext", "")
            }
            "busfinished" => {
                let e = ent!("bus");
                self.w.listener_finished(c, e)
            }
            "sync" => self.w.sync_op(c, "sync"),
            "syncb" => self.w.sync_op(c, "syncb"),
            "version" => self.w.sync_op(c, "version"),
            "regintro" => {
                let n = self.rng.random_range(0..TYPES);
                self.w.intro(c, "regintro", n)
            }
            "submit" => self.w.intro(c, "submit", 0),
            "query" => {
                let n = self.rng.random_range(0..TYPES);
                self.w.intro(c, "query", n)
            }
            "drop" => {
                if self.rng.random_bool(0.6) {
                    let e = if self.rng.random_bool(0.2) { ent!("reply") } else { ent!("px", "prom", "bus") };
                    return self.w.drop_ent(c, e);
                }
                let e = ent!(
                    "obj", "svc", "px", "reply", "prom", "bus", "US", "UR", "PS", "PR", "S", "R"
                );
                self.bury(c, e);
                self.w.drop_ent(c, e)
            }
            _ => false,
        }
    }

    /// Random operations with random progress in between.
    fn phase1(&mut self, n: usize) {
        let busy = self.rng.random_range(0..12);
        for _ in 0..n {
            if !self.w.exec.panics.is_empty() {
                break;
            }
            self.learn();
            for _ in 0..8 {
                if self.random_op() {
                    break;
                }
            }
            if self.cancels > 0.0 && self.rng.random_bool(self.cancels) {
                self.w.reap();
                let ops: Vec<i64> = self.w.ops.keys().copied().collect();
                if let Some(op) = ops.choose(&mut self.rng) {
                    self.w.cancel(*op);
                }
            }
            if self.rng.random_bool(0.05) {
                self.w.settle(&mut self.rng);
                self.w.reap();
            } else {
                let k = self.rng.random_range(0..=busy);
                self.w.polls(&mut self.rng, k);
            }
        }
    }

    fn mark(&mut self, what: &str) {
        let ok = self.w.settle(&mut self.rng);
        self.w.reap();
        for c in self.w.peers.keys().copied().collect::<Vec<_>>() {
            self.w.put(c, json!({"t":what,"ok":ok}));
        }
    }

    /// Everything is answered or dropped.
    fn release(&mut self) {
        for _ in 0..30 {
            let mut any = false;
            for c in self.clients() {
                let ids: Vec<i64> = self.w.store(c).borrow().keys().copied().collect();
                for e in ids {
                    let kind = self.w.store(c).borrow().get(&e).map(|e| e.kind());
                    match kind {
                        Some("prom") if self.rng.random_bool(0.7) => {
                            any |= self.w.reply(c, e, "Ok", false)
                        }
                        Some(_) => any |= self.w.drop_ent(c, e),
                        None => {}
                    }
                    if self.rng.random_bool(0.3) {
                        let k = self.rng.random_range(0..6);
                        self.w.polls(&mut self.rng, k);
                    }
                }
                if let Some((end, ck)) = self.unbound.pop() {
                    any |= self.w.bind(c, end, ck);
                }
            }
            self.w.settle(&mut self.rng);
            self.w.reap();
            if !any {
                break;
            }
        }
    }

    /// Ends a client without any error, sometimes from both sides at once.
    fn end(&mut self, c: i64) -> &'static str {
        self.w.peers.get_mut(&c).unwrap().closing = true;
        let cause = self.end_once(c);
        if self.rng.random_bool(0.25) {
            let k = self.rng.random_range(0..12);
            self.w.polls(&mut self.rng, k);
            if cause == "kick" {
                self.w.shutdown(c);
            } else {
                self.kick(c);
            }
            return "both";
        }
        cause
    }

    /// The broker stops while clients leave.
    fn stop(&mut self, causes: &mut Vec<(i64, String)>) {
        for (_, cause) in causes.iter_mut() {
            if matches!(cause.as_str(), "shutdown" | "gone" | "kick") {
                *cause = "both".to_owned();
            }
        }
        for c in self.open() {
            self.w.peers.get_mut(&c).unwrap().closing = true;
            causes.push((c, "both".to_owned()));
        }
        self.spawn_broker("all");
    }

    fn kick(&mut self, c: i64) {
        let h = self.w.peers[&c].chandle.borrow().clone();
        if let (Some(h), Some(mut bh)) = (h, self.w.bh.clone()) {
            self.w.exec.spawn("kick", async move {
                let _ = bh.shutdown_connection(&h).await;
            });
        }
    }

    fn end_once(&mut self, c: i64) -> &'static str {
        match self.rng.random_range(0..5) {
            0 | 1 => {
                self.w.shutdown(c);
                "shutdown"
            }
            2 | 3 => {
                self.gone(c);
                "gone"
            }
            _ => {
                self.kick(c);
                "kick"
            }
        }
    }

    /// Drops everything of a client including its handles.
    fn gone(&mut self, c: i64) {
        self.w.reap();
        let ops: Vec<i64> = self
            .w
            .ops
            .iter()
            .filter(|(_, o)| o.c == c)
            .map(|(id, _)| *id)
            .collect();
        for op in ops {
            self.w.cancel(op);
        }
        let ids: Vec<i64> = self.w.store(c).borrow().keys().copied().collect();
        for e in ids {
            self.w.drop_ent(c, e);
        }
        self.w.gone(c);
    }

    fn fault(&mut self, c: i64) -> String {
        self.w.peers.get_mut(&c).unwrap().closing = true;
        let k = if self.rng.random_bool(0.5) {
            self.rng.random_range(1..6)
        } else {
            self.rng.random_range(1..40)
        };
        match self.rng.random_range(0..9) {
            0..4 => {
                self.w.arm(c, false, k, Fault::Error);
                format!("client error {k}")
            }
            4..6 => {
                self.w.arm(c, false, k, Fault::Eof);
                format!("client eof {k}")
            }
            6 => {
                self.w.arm(c, true, k, Fault::Error);
                format!("broker error {k}")
            }
            7 => {
                self.w.arm(c, true, k, Fault::Eof);
                format!("broker eof {k}")
            }
            _ => {
                let conn = self.w.peers[&c].conn;
                self.w.exec.drop_task(conn);
                "connection dropped".to_owned()
            }
        }
    }

    /// What is left in the broker.
    fn left(&mut self) -> J {
        let Some(mut bh) = self.w.bh.clone() else {
            return json!({});
        };
        let res = Rc::new(RefCell::new(None));
        let r = res.clone();
        self.w.exec.spawn("snap", async move {
            *r.borrow_mut() = Some(bh.verif_snapshot().await);
        });
        self.w.settle(&mut self.rng);
        let s = match res.borrow_mut().take() {
            Some(Ok(s)) => s,
            Some(Err(_)) => return json!({"n":0,"bad":[]}),
            None => return json!({"n":-1,"bad":["no snapshot"]}),
        };
        let n = s.conns
            + s.objs
            + s.svcs
            + s.obj_uuids
            + s.svc_uuids
            + s.function_calls
            + s.aborted_calls
            + s.conn_calls
            + s.channels
            + s.bus_listeners
            + s.events
            + s.all_events
            + s.subscriptions
            + s.introspection
            + s.query_introspection;
        json!({"n":n,"bad":s.inconsistencies,"conns":s.conns})
    }

    fn spawn_broker(&mut self, how: &'static str) {
        let Some(mut bh): Option<BrokerHandle> = self.w.bh.clone() else {
            return;
        };
        self.w.exec.spawn("stop", async move {
            match how {
                "idle" => bh.shutdown_idle().await,
                _ => bh.shutdown().await,
            }
        });
    }

    /// A last look at everything: all clients are gone.
    fn finish(&mut self, causes: &[(i64, String)], stop: &str) {
        let ok = self.w.settle(&mut self.rng);
        self.w.reap();
        for c in self.w.peers.keys().copied().collect::<Vec<_>>() {
            let op = self.w.op();
            // Operations on a client that is gone.
            if self.w.peers[&c].handle.is_some() {
                self.w.sync_op(c, "syncb");
                self.w.create_object(c, 5001);
                self.w.intro(c, "query", 3);
                self.w.create_listener(c);
                self.w.create_channel(c, "S", 1);
            }
            let _ = op;
            for k in [
                "obj", "svc", "px", "bus", "S", "R", "PS", "PR", "US", "UR", "prom", "reply",
            ] {
                if let Some(e) = self.ent(c, &[k]) {
                    let _ = match k {
                        "obj" => {
                            self.w.create_service(c, e, 6001, 1, 0) && self.w.destroy_object(c, e)
                        }
                        "svc" => {
                            self.w.emit(c, e, 1, false);
                            self.w.destroy_service(c, e);
                            self.w.settle(&mut self.rng);
                            self.w.next_call(c, e, "low")
                        }
                        "px" => {
                            self.w.sub(c, e, "sub", 3);
                            self.w.sub(c, e, "suball", 0);
                            self.w.sub(c, e, "unsuball", 0);
                            self.w.call(c, e, 1, None, false);
                            self.w.settle(&mut self.rng);
                            self.w.next_event(c, e)
                        }
                        "bus" => {
                            self.w.listener(c, e, "busnext", "");
                            self.w.settle(&mut self.rng);
                            self.w.listener(c, e, "startbus", "All");
                            self.w.settle(&mut self.rng);
                            self.w.listener(c, e, "destroybus", "")
                        }
                        "S" => self.w.send_item(c, e, false),
                        "R" => self.w.next_item(c, e, false),
                        "PS" | "PR" => self.w.establish(c, e),
                        "US" | "UR" => self.w.claim(c, e, 1),
                        "prom" => self.w.aborted(c, e),
                        _ => self.w.await_reply(c, e, false),
                    };
                    self.w.settle(&mut self.rng);
                }
            }
        }
        self.w.settle(&mut self.rng);
        self.w.reap();
        for c in self.w.peers.keys().copied().collect::<Vec<_>>() {
            let clean = causes
                .iter()
                .find(|x| x.0 == c)
                .map(|x| x.1.clone())
                .unwrap_or_default();
            let conn = self.w.peers[&c]
                .cresult
                .borrow()
                .clone()
                .unwrap_or_default();
            self.w
                .put(c, json!({"t":"final","cause":clean,"conn":conn}));
        }
        let before = self.left();
        if !stop.is_empty() {
            if stop == "idle" {
                self.spawn_broker("idle");
            } else {
                self.w.bh = None;
            }
        }
        self.w.settle(&mut self.rng);
        let broker = self.w.exec.alive(self.w.broker);
        let panics: Vec<String> = self.w.exec.panics.clone();
        let names = self.w.exec.names();
        self.w.put(
            0,
            json!({"t":"world","ok":ok,"left":before,"stopped":!broker,
            "panics":panics,"tasks":names}),
        );
    }

    /// C06: nobody fails.
    pub fn clean(mut self, steps: usize) -> Vec<(i64, J)> {
        let n = self.rng.random_range(1..=4);
        for _ in 0..n {
            self.connect();
        }
        let first = steps / 2;
        self.phase1(first);
        self.mark("quiet");
        let rest = steps - first;
        self.phase1(rest);
        self.mark("quiet");
        if self.rng.random_bool(0.7) {
            self.release();
            self.mark("settled");
        }
        // The broker may be asked to stop before the clients leave.
        let early = self.rng.random_bool(0.3);
        if early {
            self.spawn_broker("idle");
        }
        let mut causes = Vec::new();
        if !early && self.rng.random_bool(0.15) {
            for c in self.open() {
                causes.push((c, "broker".to_owned()));
            }
            self.spawn_broker("all");
        } else {
            while let Some(&c) = self.open().choose(&mut self.rng) {
                let cause = self.end(c);
                causes.push((c, cause.to_owned()));
                if self.rng.random_bool(0.5) {
                    let k = self.rng.random_range(0..30);
                    self.w.polls(&mut self.rng, k);
                }
                if self.rng.random_bool(0.3) {
                    self.phase1(3);
                }
                if !early && self.rng.random_bool(0.06) {
                    self.stop(&mut causes);
                }
            }
        }
        let stop = if self.rng.random_bool(0.7) {
            "idle"
        } else {
            "drop"
        };
        self.finish(&causes, stop);
        self.log()
    }

    /// C15: clients end in the middle of things.
    pub fn fatal(mut self, steps: usize) -> Vec<(i64, J)> {
        let n = self.rng.random_range(1..=3);
        for _ in 0..n {
            self.connect();
        }
        let mut causes = Vec::new();
        let first = self.rng.random_range(0..=steps);
        self.phase1(first);
        if self.rng.random_bool(0.1) {
            for c in self.open() {
                causes.push((c, "broker".to_owned()));
            }
            self.spawn_broker("all");
        } else {
            while let Some(&c) = self.open().choose(&mut self.rng) {
                let cause = if self.rng.random_bool(0.6) {
                    self.fault(c)
                } else {
                    self.end(c).to_owned()
                };
                causes.push((c, cause));
                if self.rng.random_bool(0.04) {
                    self.stop(&mut causes);
                }
                let n = self.rng.random_range(0..8);
                self.phase1(n);
                if self.rng.random_bool(0.5) {
                    self.w.settle(&mut self.rng);
                }
            }
        }
        self.phase1(5);
        self.w.settle(&mut self.rng);
        // A fault that needs more traffic to show.
        for _ in 0..60 {
            let waiting: Vec<i64> = self
                .w
                .peers
                .values()
                .filter(|p| p.handle.is_some() && p.result.borrow().is_none())
                .map(|p| p.id)
                .collect();
            if waiting.is_empty() || !self.w.exec.panics.is_empty() {
                break;
            }
            for c in waiting {
                self.w.sync_op(c, "syncb");
            }
            self.w.settle(&mut self.rng);
        }
        self.finish(&causes, "idle");
        self.log()
    }

    pub fn log(&mut self) -> Vec<(i64, J)> {
        std::mem::take(&mut *self.w.log.borrow_mut())
    }
}
