//! Random programs of discoverers, lifetimes and the objects and services they are about.
//! An observer with a bus listener records what happens on the bus, when it happens.
use crate::ops::bus_event;
use crate::world::*;
use aldrin::{Discoverer, DiscovererEventKind, LifetimeId};
use aldrin_core::{
    BusListenerFilter, BusListenerScope, ObjectId, ObjectUuid, ServiceId, ServiceUuid,
};
use rand::rngs::SmallRng;
use rand::seq::IndexedRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

const OBJS: i64 = 3;
const SVCS: i64 = 3;

type N = Rc<RefCell<crate::names::Names>>;

fn res(r: &str) -> J {
    json!({"r":r,"key":0,"kind":"","id":[],"svcs":[]})
}

fn fail(e: aldrin::Error) -> J {
    res(&err(e))
}

fn oid(n: &N, o: ObjectId) -> [i64; 2] {
    let mut n = n.borrow_mut();
    [n.id(o.uuid.0), n.id(o.cookie.0)]
}

fn sids(n: &N, o: ObjectId, s: &[ServiceId]) -> Vec<[i64; 2]> {
    s.iter()
        .map(|s| {
            // A service of some other object has no name here.
            let ck = if s.object_id == o {
                n.borrow_mut().id(s.cookie.0)
            } else {
                -1
            };
            [n.borrow_mut().id(s.uuid.0), ck]
        })
        .collect()
}

/// What all the ways to look at a discoverer say. The first of the two is empty if they agree.
fn view(n: &N, d: &Disco) -> (String, Vec<Vec<J>>) {
    let mut odd = String::new();
    let mut all = Vec::new();
    let mut total: BTreeSet<(u32, ObjectId)> = BTreeSet::new();
    for (k, (obj, svcs)) in d.entries.iter().enumerate() {
        let k = k as u32;
        let su: Vec<ServiceUuid> = svcs
            .iter()
            .map(|s| ServiceUuid(n.borrow_mut().uuid(*s)))
            .collect();
        let entry = d.d.entry(k);
        if entry.key() != k {
            odd = "entry: key".into();
        }
        let found: Vec<_> = d.d.entry_iter(k).collect();
        if found.len() != entry.iter().count() || found.len() != entry.into_iter().count() {
            odd = "entry_iter and iter".into();
        }
        if d.d.contains_any(k) == found.is_empty() || entry.contains_any() == found.is_empty() {
            odd = "contains_any".into();
        }
        let mut list = Vec::new();
        for f in &found {
            let id = f.object_id();
            total.insert((k, id));
            if f.key() != k {
                odd = "iter: key".into();
            }
            let ids: Vec<ServiceId> = su.iter().map(|s| f.service_id(*s)).collect();
            // Asking an object without any services for none of them panics in some cases.
            if !su.is_empty() && f.service_ids(su.iter().copied()) != ids {
                odd = "iter: service_ids".into();
            }
            let mut by_entry = Vec::new();
            for s in &su {
                let a = d.d.service_id(k, id.uuid, *s);
                if a != entry.service_id(id.uuid, *s) {
                    odd = "service_id".into();
                }
                by_entry.extend(a);
            }
            if by_entry != ids
                || d.d.service_ids(k, id.uuid, su.iter().copied()) != Some(ids.clone())
                || entry.service_ids(id.uuid, su.iter().copied()) != Some(ids.clone())
            {
                odd = "service ids".into();
            }
            if let [a, b] = su[..] {
                let w = [ids[1], ids[0]];
                if d.d.service_ids_n(k, id.uuid, &[b, a]) != Some(w) || f.service_ids_n(&[b, a]) != w
                {
                    odd = "service_ids_n".into();
                }
            }
            if ids.iter().zip(&su).any(|(i, s)| i.uuid != *s) {
                odd = "service uuid".into();
            }
            list.push(json!([oid(n, id)[0], oid(n, id)[1], sids(n, id, &ids)]));
        }
        for u in 1..=OBJS {
            if *obj != 0 && *obj != 5000 + u {
                if d.d.contains(k, ObjectUuid(n.borrow_mut().uuid(5000 + u))) {
                    odd = "contains: other object".into();
                }
                continue;
            }
            let u = ObjectUuid(n.borrow_mut().uuid(5000 + u));
            let id = found.iter().map(|f| f.object_id()).find(|o| o.uuid == u);
            if d.d.object_id(k, u) != id || entry.object_id(u) != id {
                odd = "object_id".into();
            }
            if d.d.contains(k, u) != id.is_some() || entry.contains(u) != id.is_some() {
                odd = "contains".into();
            }
            if !su.is_empty() && id.is_none() {
                if d.d.service_id(k, u, su[0]).is_some()
                    || d.d.service_ids(k, u, su.iter().copied()).is_some()
                    || d.d.service_ids_n(k, u, &[su[0]]).is_some()
                {
                    odd = "services of an unknown object".into();
                }
            }
        }
        all.push(list);
    }
    let iter: BTreeSet<_> = d.d.iter().map(|e| (e.key(), e.object_id())).collect();
    if iter != total
        || d.d.iter().count() != total.len()
        || (&d.d).into_iter().count() != total.len()
        || d.d.entries().count() != d.entries.len()
    {
        odd = "iter".into();
    }
    (odd, all)
}

struct Run {
    w: World,
    rng: SmallRng,
    /// Ids of objects, dead or alive.
    ids: Vec<[i64; 2]>,
    seen: usize,
    weights: Vec<(&'static str, u32)>,
    /// How many services entries ask for.
    most: usize,
    /// Discoverers that look only once.
    once: BTreeSet<i64>,
}

pub fn label(j: &J) -> String {
    let t = j["t"].as_str().unwrap();
    match t {
        "req" => format!("req.{}", j["k"].as_str().unwrap()),
        "ret" => format!("ret.{}", j["r"]["r"].as_str().unwrap()),
        "bus" => format!("bus.{}", j["be"].as_str().unwrap()),
        _ => t.to_owned(),
    }
}

pub fn run(seed: u64, steps: usize) -> Vec<J> {
    let mut rng = SmallRng::seed_from_u64(seed);
    let mode = match rng.random_range(0..10) {
        0..4 => Mode::Uniform,
        4..6 => Mode::Prio,
        6 => Mode::Starve("client"),
        7 => Mode::Starve("conn"),
        8 => Mode::Starve("op"),
        _ => Mode::Fifo,
    };
    let mut weights = vec![
        ("createobj", 10),
        ("createsvc", 16),
        ("destroyobj", 4),
        ("destroysvc", 5),
        ("drop", 4),
        ("dbuild", 4),
        ("dnext", 16),
        ("dview", 8),
        ("drestart", 2),
        ("dwait", 2),
        ("find", 4),
        ("wait", 4),
        ("scope", 2),
        ("endscope", 1),
        ("bind", 4),
        ("ended", 3),
        ("hasended", 1),
        ("settle", 2),
        ("end", 0),
    ];
    match rng.random_range(0..4) {
        0 => {
            for w in &mut weights {
                if ["find", "wait"].contains(&w.0) {
                    w.1 *= 3;
                }
            }
        }
        1 => {
            for w in &mut weights {
                if ["scope", "endscope", "bind", "ended"].contains(&w.0) {
                    w.1 *= 4;
                }
            }
        }
        _ => {}
    }
    if rng.random_bool(0.3) {
        weights.last_mut().unwrap().1 = 1;
    }
    let most = rng.random_range(0..=3);
    let mut r = Run {
        w: World::new(mode),
        rng,
        ids: Vec::new(),
        seen: 0,
        weights,
        most,
        once: BTreeSet::new(),
    };
    r.go(steps)
}

impl Run {
    fn watch(&mut self) {
        let c = self.w.connect(&mut self.rng, 0, 20, false);
        let h = self.w.handle(c).unwrap();
        let (log, names) = (self.w.log.clone(), self.w.names.clone());
        let t = self.w.exec.spawn("observer", async move {
            let mut b = h.create_bus_listener().await.unwrap();
            b.add_filter(BusListenerFilter::any_object()).unwrap();
            b.add_filter(BusListenerFilter::any_object_any_service())
                .unwrap();
            b.start(BusListenerScope::All).await.unwrap();
            while let Some(ev) = b.next_event().await {
                let mut j = bus_event(&mut names.borrow_mut(), ev);
                j["t"] = json!("bus");
                log.borrow_mut().push((0, j));
            }
        });
        let p = &self.w.peers[&c];
        self.w.eager = vec![p.conn, p.run, t];
        self.w.settle(&mut self.rng);
    }

    fn go(&mut self, steps: usize) -> Vec<J> {
        self.watch();
        let n = self.rng.random_range(1..=3);
        for _ in 0..n {
            let cap = *[0, 0, 1, 2, 5].choose(&mut self.rng).unwrap();
            let legacy = self.rng.random_bool(0.1);
            let minor = if legacy {
                14
            } else {
                self.rng.random_range(14..=20)
            };
            self.w.connect(&mut self.rng, cap, minor, legacy);
        }
        let observed = 1;
        self.w.put(0, json!({"t":"reset"}));
        let busy = self.rng.random_range(0..12);
        let cancels = *[0.0, 0.05, 0.15].choose(&mut self.rng).unwrap();
        for _ in 0..steps {
            if !self.w.exec.panics.is_empty() {
                break;
            }
            self.learn();
            for _ in 0..8 {
                if self.random_op() {
                    break;
                }
            }
            if self.rng.random_bool(cancels) {
                self.w.reap();
                let ops: Vec<i64> = self
                    .w
                    .ops
                    .iter()
                    .filter(|(_, o)| {
                        ["dnext", "ended", "find", "wait", "dbuild"].contains(&o.kind.as_str())
                    })
                    .map(|(id, _)| *id)
                    .collect();
                if let Some(op) = ops.choose(&mut self.rng) {
                    self.w.cancel(*op);
                }
            }
            let k = self.rng.random_range(0..=busy);
            self.w.polls(&mut self.rng, k);
        }
        let mut ok = self.settled();
        // Everything that is pending is consumed.
        for c in self.open() {
            for (e, kind) in self.ents(c) {
                if kind == "disc" && self.rng.random_bool(0.9) {
                    // Until it gives nothing or waits.
                    for _ in 0..200 {
                        if !self.next(c, e) {
                            break;
                        }
                        ok &= self.w.settle(&mut self.rng);
                        let log = self.w.log.borrow();
                        if log.iter().rfind(|(p, _)| *p == c).is_some_and(|l| l.1["r"]["r"] == "none") {
                            break;
                        }
                    }
                } else if kind == "life" {
                    self.ended(c, e);
                }
            }
        }
        ok &= self.settled();
        // Then everybody looks at the result.
        self.w.reap();
        let waiting: Vec<i64> = self
            .w
            .ops
            .iter()
            .filter(|(_, o)| ["dnext", "ended"].contains(&o.kind.as_str()))
            .map(|(id, _)| *id)
            .collect();
        for op in waiting {
            self.w.cancel(op);
        }
        for c in self.open() {
            for (e, kind) in self.ents(c) {
                match kind {
                    "disc" => self.view(c, e),
                    "life" => self.has_ended(c, e),
                    _ => {}
                }
            }
        }
        let panics = self.w.exec.panics.clone();
        self.w.put(0, json!({"t":"world","ok":ok,"panics":panics}));
        let log = std::mem::take(&mut *self.w.log.borrow_mut());
        let mut out: Vec<J> = Vec::new();
        for (c, mut j) in log {
            let t = j["t"].as_str().unwrap();
            if ["tx", "rx", "h", "terr", "run"].contains(&t) || (c == observed) {
                continue;
            }
            if t == "reset" && c != 0 {
                continue;
            }
            j["c"] = json!(c);
            out.push(j);
        }
        out
    }

    fn settled(&mut self) -> bool {
        let ok = self.w.settle(&mut self.rng);
        self.w.reap();
        self.learn();
        self.w.put(0, json!({"t":"settled","ok":ok}));
        ok
    }

    fn open(&self) -> Vec<i64> {
        self.w
            .peers
            .values()
            .filter(|p| p.id != 1 && !p.closing)
            .map(|p| p.id)
            .collect()
    }

    fn ents(&self, c: i64) -> Vec<(i64, &'static str)> {
        self.w
            .store(c)
            .borrow()
            .iter()
            .map(|(e, x)| (*e, x.kind()))
            .collect()
    }

    fn ent(&mut self, c: i64, kinds: &[&str]) -> Option<i64> {
        let l: Vec<i64> = self
            .ents(c)
            .into_iter()
            .filter(|(_, k)| kinds.contains(k))
            .map(|(e, _)| e)
            .collect();
        l.choose(&mut self.rng).copied()
    }

    /// Objects that have come up so far.
    fn learn(&mut self) {
        let log = self.w.log.borrow();
        for (_, j) in &log[self.seen..] {
            if j["t"] == "bus" && j["be"] == "OC" {
                self.ids
                    .push([j["id"][0].as_i64().unwrap(), j["id"][1].as_i64().unwrap()]);
            }
        }
        self.seen = log.len();
    }

    fn entry(&mut self) -> (i64, Vec<i64>) {
        let o = if self.rng.random_bool(0.5) {
            0
        } else {
            5000 + self.rng.random_range(1..=OBJS)
        };
        let mut svcs = Vec::new();
        for _ in 0..self.rng.random_range(0..=self.most) {
            // The same one twice is possible, too.
            svcs.push(6000 + self.rng.random_range(1..=SVCS));
        }
        (o, svcs)
    }

    fn uuids(&self, e: &(i64, Vec<i64>)) -> (Option<ObjectUuid>, Vec<ServiceUuid>) {
        let mut n = self.w.names.borrow_mut();
        (
            (e.0 != 0).then(|| ObjectUuid(n.uuid(e.0))),
            e.1.iter().map(|s| ServiceUuid(n.uuid(*s))).collect(),
        )
    }

    fn random_op(&mut self) -> bool {
        let Some(&c) = self.open().choose(&mut self.rng) else {
            return false;
        };
        let total: u32 = self.weights.iter().map(|w| w.1).sum();
        let mut x = self.rng.random_range(0..total);
        let mut k = "";
        for (n, w) in &self.weights {
            if x < *w {
                k = n;
                break;
            }
            x -= w;
        }
        match k {
            "createobj" => {
                let u = 5000 + self.rng.random_range(1..=OBJS);
                self.w.create_object(c, u)
            }
            "createsvc" => {
                let u = 6000 + self.rng.random_range(1..=SVCS);
                let Some(e) = self.ent(c, &["obj"]) else {
                    return false;
                };
                self.w.create_service(c, e, u, 1, 0)
            }
            "destroyobj" => match self.ent(c, &["obj"]) {
                Some(e) => self.w.destroy_object(c, e),
                None => false,
            },
            "destroysvc" => match self.ent(c, &["svc"]) {
                Some(e) => self.w.destroy_service(c, e),
                None => false,
            },
            "drop" => {
                let kinds: &[&str] = if self.rng.random_bool(0.7) {
                    &["obj", "svc", "scope"]
                } else {
                    &["disc", "life"]
                };
                match self.ent(c, kinds) {
                    Some(e) => self.w.drop_ent(c, e),
                    None => false,
                }
            }
            "dbuild" => self.build(c),
            "dnext" => match self.ent(c, &["disc"]) {
                Some(e) => self.next(c, e),
                None => false,
            },
            "dview" => match self.ent(c, &["disc"]) {
                Some(e) => {
                    self.view(c, e);
                    true
                }
                None => false,
            },
            "drestart" => match self.ent(c, &["disc"]) {
                Some(e) => self.restart(c, e),
                None => false,
            },
            "dwait" => match self.ent(c, &["disc"]) {
                Some(e) => self.wait_finished(c, e),
                None => false,
            },
            "find" => self.find(c, "find"),
            "wait" => self.find(c, "wait"),
            "scope" => self.scope(c),
            "endscope" => match self.ent(c, &["scope"]) {
                Some(e) => self.end_scope(c, e),
                None => false,
            },
            "bind" => self.bind(c),
            "ended" => match self.ent(c, &["life"]) {
                Some(e) => self.ended(c, e),
                None => false,
            },
            "hasended" => match self.ent(c, &["life"]) {
                Some(e) => {
                    self.has_ended(c, e);
                    true
                }
                None => false,
            },
            "settle" => {
                self.settled();
                true
            }
            "end" => {
                if self.open().len() < 2 {
                    return false;
                }
                self.w.peers.get_mut(&c).unwrap().closing = true;
                self.w.put(c, json!({"t":"end"}));
                if self.rng.random_bool(0.5) {
                    self.w.handle(c).unwrap().shutdown();
                } else {
                    let h = self.w.peers[&c].chandle.borrow().clone();
                    if let (Some(h), Some(mut bh)) = (h, self.w.bh.clone()) {
                        self.w.exec.spawn("kick", async move {
                            let _ = bh.shutdown_connection(&h).await;
                        });
                    }
                }
                true
            }
            _ => unreachable!(),
        }
    }

    fn build(&mut self, c: i64) -> bool {
        let Some(h) = self.w.handle(c) else {
            return false;
        };
        let n = *[0, 1, 1, 1, 2, 2, 3].choose(&mut self.rng).unwrap();
        let entries: Vec<_> = (0..n).map(|_| self.entry()).collect();
        let uuids: Vec<_> = entries.iter().map(|e| self.uuids(e)).collect();
        let scope = *["All", "All", "All", "All", "Current", "CurrentWait"]
            .choose(&mut self.rng)
            .unwrap();
        let convenience = self.rng.random_bool(0.5);
        let op = self.w.op();
        if scope != "All" {
            self.once.insert(op);
        }
        let store = self.w.store(c);
        let req = json!({"k":"dbuild","entries":entries,"scope":scope});
        self.w.start(c, op, req, async move {
            let mut b = h.create_discoverer();
            for (k, (o, s)) in uuids.into_iter().enumerate() {
                let k = k as u32;
                b = match o {
                    Some(o) if convenience && s.is_empty() => b.bare_object(k, o),
                    Some(o) if convenience => b.object_with_services(k, o, s),
                    None if convenience => b.any_object_with_services(k, s),
                    _ => b.add(k, o, s),
                };
            }
            let d: Result<Discoverer<u32>, _> = match scope {
                "All" => b.build().await,
                "Current" => b.build_current_only().await,
                _ => b.build_current_only_and_wait().await,
            };
            match d {
                Ok(d) => {
                    store
                        .borrow_mut()
                        .insert(op, Ent::Disc(Disco { d, entries }));
                    res("ok")
                }
                Err(e) => fail(e),
            }
        });
        true
    }

    fn next(&mut self, c: i64, e: i64) -> bool {
        let Some(mut l) = Lease::take(&self.w.store(c), e) else {
            return false;
        };
        let op = self.w.op();
        let names = self.w.names.clone();
        self.w
            .start(c, op, json!({"k":"dnext","e":e}), async move {
                let Some(Ent::Disc(d)) = &mut l.ent else {
                    panic!()
                };
                let Some(ev) = d.d.next_event().await else {
                    return res("none");
                };
                let id = ev.object_id();
                let mut r = res("ok");
                r["key"] = json!(ev.key() + 1);
                r["kind"] = json!(match ev.kind() {
                    DiscovererEventKind::Created => "C",
                    DiscovererEventKind::Destroyed => "D",
                });
                if ev.is_created() == ev.is_destroyed()
                    || ev.is_created() != (ev.kind() == DiscovererEventKind::Created)
                {
                    r["kind"] = json!("?");
                }
                r["id"] = json!(oid(&names, id));
                if ev.is_created() {
                    let svcs: Vec<_> = d.entries[ev.key() as usize]
                        .1
                        .iter()
                        .map(|s| ServiceUuid(names.borrow_mut().uuid(*s)))
                        .collect();
                    let ids = ev.service_ids(&d.d, svcs.iter().copied());
                    if let [a] = svcs[..] {
                        if ev.service_id(&d.d, a) != ids[0] || ev.service_ids_n(&d.d, &[a])[0] != ids[0]
                        {
                            r["kind"] = json!("?");
                        }
                    }
                    r["svcs"] = json!(sids(&names, id, &ids));
                }
                r
            });
        true
    }

    fn view(&mut self, c: i64, e: i64) {
        let store = self.w.store(c);
        let Some(l) = Lease::take(&store, e) else {
            return;
        };
        let Some(Ent::Disc(d)) = &l.ent else { panic!() };
        let fin = if d.d.is_finished() { "yes" } else { "no" };
        let looked =
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| view(&self.w.names, d)));
        let (odd, view) = looked.unwrap_or(("panic".to_owned(), Vec::new()));
        let op = self.w.op();
        let j = json!({"t":"view","op":op,"e":e,"fin":fin,"odd":odd,"view":view});
        self.w.put(c, j);
    }

    fn restart(&mut self, c: i64, e: i64) -> bool {
        let Some(mut l) = Lease::take(&self.w.store(c), e) else {
            return false;
        };
        let op = self.w.op();
        let scope = *["All", "All", "Current", "CurrentWait"]
            .choose(&mut self.rng)
            .unwrap();
        if scope == "All" {
            self.once.remove(&e);
        } else {
            self.once.insert(e);
        }
        let req = json!({"k":"drestart","e":e,"scope":scope});
        self.w.start(c, op, req, async move {
            let Some(Ent::Disc(d)) = &mut l.ent else {
                panic!()
            };
            let r = match scope {
                "All" => d.d.restart().await,
                "Current" => d.d.restart_current_only().await,
                _ => d.d.restart_current_only_and_wait().await,
            };
            match r {
                Ok(()) => res("ok"),
                Err(e) => fail(e),
            }
        });
        true
    }

    fn wait_finished(&mut self, c: i64, e: i64) -> bool {
        if !self.once.contains(&e) {
            return false;
        }
        let Some(mut l) = Lease::take(&self.w.store(c), e) else {
            return false;
        };
        let op = self.w.op();
        self.w
            .start(c, op, json!({"k":"dwait","e":e}), async move {
                let Some(Ent::Disc(d)) = &mut l.ent else {
                    panic!()
                };
                d.d.wait_finished().await;
                res("ok")
            });
        true
    }

    fn find(&mut self, c: i64, how: &'static str) -> bool {
        let Some(h) = self.w.handle(c) else {
            return false;
        };
        let entry = self.entry();
        let (o, s) = self.uuids(&entry);
        let convenience = self.rng.random_bool(0.5);
        let op = self.w.op();
        let names = self.w.names.clone();
        let req = json!({"k":how,"o":entry.0,"svcs":entry.1});
        self.w.start(c, op, req, async move {
            let r = if how == "find" {
                match (o, &s[..]) {
                    (Some(o), []) if convenience => {
                        h.find_bare_object(o).await.map(|r| r.map(|o| (o, vec![])))
                    }
                    (o, [a]) if convenience => h
                        .find_object_n(o, &[*a])
                        .await
                        .map(|r| r.map(|(o, s)| (o, s.to_vec()))),
                    (Some(o), [a, b]) if convenience => h
                        .find_object_with_services_n(o, &[*a, *b])
                        .await
                        .map(|r| r.map(|(o, s)| (o, s.to_vec()))),
                    (None, [a, b]) if convenience => h
                        .find_any_object_with_services_n(&[*a, *b])
                        .await
                        .map(|r| r.map(|(o, s)| (o, s.to_vec()))),
                    (Some(o), _) if convenience => h.find_object_with_services(o, s).await,
                    (None, _) if convenience => h.find_any_object_with_services(s).await,
                    _ => h.find_object(o, s).await,
                }
            } else {
                match (o, &s[..]) {
                    (Some(o), []) if convenience => {
                        h.wait_for_bare_object(o).await.map(|o| (o, vec![]))
                    }
                    (o, [a]) if convenience => h
                        .wait_for_object_n(o, &[*a])
                        .await
                        .map(|(o, s)| (o, s.to_vec())),
                    (Some(o), [a, b]) if convenience => h
                        .wait_for_object_with_services_n(o, &[*a, *b])
                        .await
                        .map(|(o, s)| (o, s.to_vec())),
                    (None, [a, b]) if convenience => h
                        .wait_for_any_object_with_services_n(&[*a, *b])
                        .await
                        .map(|(o, s)| (o, s.to_vec())),
                    (Some(o), _) if convenience => h.wait_for_object_with_services(o, s).await,
                    (None, _) if convenience => h.wait_for_any_object_with_services(s).await,
                    _ => h.wait_for_object(o, s).await,
                }
                .map(Some)
            };
            match r {
                Ok(Some((o, s))) => {
                    let mut r = res("ok");
                    r["id"] = json!(oid(&names, o));
                    r["svcs"] = json!(sids(&names, o, &s));
                    r
                }
                Ok(None) => res("none"),
                Err(e) => fail(e),
            }
        });
        true
    }

    fn scope(&mut self, c: i64) -> bool {
        let Some(h) = self.w.handle(c) else {
            return false;
        };
        let op = self.w.op();
        let (store, names) = (self.w.store(c), self.w.names.clone());
        self.w.start(c, op, json!({"k":"scope"}), async move {
            match h.create_lifetime_scope().await {
                Ok(s) => {
                    let mut r = res("ok");
                    r["id"] = json!(oid(&names, s.id().0));
                    store.borrow_mut().insert(op, Ent::Scope(Rc::new(s)));
                    r
                }
                Err(e) => fail(e),
            }
        });
        true
    }

    fn end_scope(&mut self, c: i64, e: i64) -> bool {
        let s = match self.w.store(c).borrow().get(&e) {
            Some(Ent::Scope(s)) => s.clone(),
            _ => return false,
        };
        let op = self.w.op();
        self.w
            .start(c, op, json!({"k":"endscope","e":e}), async move {
                match s.end().await {
                    Ok(()) => res("ok"),
                    Err(e) => fail(e),
                }
            });
        true
    }

    fn bind(&mut self, c: i64) -> bool {
        let Some(h) = self.w.handle(c) else {
            return false;
        };
        let [u, ck] = match self.rng.random_range(0..10) {
            // It never existed.
            0 => [5000 + self.rng.random_range(1..=OBJS), 9001],
            1..5 if !self.ids.is_empty() => {
                let n = self.ids.len();
                self.ids[n.saturating_sub(3)..]
                    .choose(&mut self.rng)
                    .copied()
                    .unwrap()
            }
            _ => match self.ids.choose(&mut self.rng) {
                Some(i) => *i,
                None => return false,
            },
        };
        let id = LifetimeId(self.w.object_id(u, ck));
        let op = self.w.op();
        let store = self.w.store(c);
        let how = self.rng.random_bool(0.5);
        self.w
            .start(c, op, json!({"k":"bind","id":[u, ck]}), async move {
                let l = if how {
                    h.create_lifetime(id).await
                } else {
                    id.bind(&h).await
                };
                match l {
                    Ok(l) => {
                        store.borrow_mut().insert(op, Ent::Life(l));
                        res("ok")
                    }
                    Err(e) => fail(e),
                }
            });
        true
    }

    fn ended(&mut self, c: i64, e: i64) -> bool {
        let Some(mut l) = Lease::take(&self.w.store(c), e) else {
            return false;
        };
        let op = self.w.op();
        let plain = self.rng.random_bool(0.5);
        self.w
            .start(c, op, json!({"k":"ended","e":e}), async move {
                let Some(Ent::Life(x)) = &mut l.ent else {
                    panic!()
                };
                if plain {
                    x.await;
                } else {
                    x.ended().await;
                }
                res("ok")
            });
        true
    }

    fn has_ended(&mut self, c: i64, e: i64) {
        let store = self.w.store(c);
        let Some(l) = Lease::take(&store, e) else {
            return;
        };
        let Some(Ent::Life(x)) = &l.ent else { panic!() };
        let r = if x.has_ended() { "yes" } else { "no" };
        let op = self.w.op();
        self.w
            .put(c, json!({"t":"hasended","op":op,"e":e,"r":r}));
    }
}
