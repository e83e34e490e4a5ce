//! Random traffic that knows roughly what is going on at the bus.
use crate::bus::{Bus, Event};
use crate::wire::{rand_bytes, rand_value, Enc, V};
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Svc {
    pub ck: i64,
    pub ock: i64,
    pub uuid: i64,
    pub owner: i64,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub ck: i64,
    pub uuid: i64,
    pub owner: i64,
}

#[derive(Clone, Debug)]
pub struct Chan {
    pub ck: i64,
    pub snd: i64,
    pub rcv: i64,
    /// What the sender may still send, as far as it knows.
    pub credit: i64,
}

#[derive(Default)]
pub struct World {
    pub objs: Vec<Obj>,
    pub svcs: Vec<Svc>,
    pub chans: Vec<Chan>,
    pub listeners: Vec<(i64, i64)>,
    /// calls seen by callees: (callee, broker serial)
    pub incoming: Vec<(i64, String)>,
    /// pending caller serials
    pub pending: HashMap<i64, Vec<String>>,
    /// queries seen by providers
    pub queries: Vec<(i64, String)>,
    /// (subscriber, kind of the message that ends it, service, event)
    pub subs: Vec<(i64, &'static str, i64, String)>,
    pub dead: Vec<i64>,
    pub stale: Vec<(i64, String)>,
    requests: HashMap<(i64, String, String), J>,
}

pub struct Profile {
    pub ops: &'static [(&'static str, u32)],
    pub disc: u32,
    pub wild: f64,
    /// Connections with an odd id are hostile, the others are not.
    pub sides: bool,
    pub batch: f64,
    pub versions: &'static [i64],
    pub minconns: usize,
    pub maxconns: usize,
    pub bad_payload: f64,
    pub gate: f64,
    pub stop: f64,
    pub weird_connect: f64,
    pub nobj: i64,
    pub nsvc: i64,
}

const CALLS: &[(&str, u32)] = &[
    ("CreateObject", 4), ("DestroyObject", 2), ("CreateService", 6), ("CreateService2", 3),
    ("DestroyService", 3), ("CallFunction", 22), ("CallFunction2", 12), ("CallFunctionReply", 26),
    ("AbortFunctionCall", 10), ("QueryServiceVersion", 1), ("Sync", 1),
];
const REGISTRY: &[(&str, u32)] = &[
    ("CreateObject", 14), ("DestroyObject", 8), ("CreateService", 12), ("CreateService2", 10),
    ("DestroyService", 8), ("CallFunction", 3), ("CallFunctionReply", 2), ("QueryServiceVersion", 6),
    ("QueryServiceInfo", 6), ("SubscribeEvent", 3), ("SubscribeService", 3),
    ("SubscribeAllEvents", 2), ("UnsubscribeEvent", 1), ("UnsubscribeService", 1),
    ("CreateBusListener", 1), ("AddBusListenerFilter", 2), ("StartBusListener", 2), ("Sync", 1),
];
const EVENTS: &[(&str, u32)] = &[
    ("CreateObject", 4), ("DestroyObject", 1), ("CreateService", 4), ("CreateService2", 7),
    ("DestroyService", 2), ("SubscribeEvent", 16), ("UnsubscribeEvent", 12), ("EmitEvent", 18),
    ("SubscribeAllEvents", 12), ("UnsubscribeAllEvents", 9), ("SubscribeService", 6),
    ("UnsubscribeService", 4), ("Sync", 1),
];
const CHANNELS: &[(&str, u32)] = &[
    ("CreateChannel", 8), ("ClaimChannelEnd", 12), ("CloseChannelEnd", 6), ("SendItem", 34),
    ("AddChannelCapacity", 12), ("Sync", 1),
];
const LISTENERS: &[(&str, u32)] = &[
    ("CreateObject", 14), ("DestroyObject", 8), ("CreateService", 14), ("CreateService2", 4),
    ("DestroyService", 7), ("CreateBusListener", 6), ("DestroyBusListener", 3),
    ("AddBusListenerFilter", 14), ("RemoveBusListenerFilter", 5), ("ClearBusListenerFilters", 2),
    ("StartBusListener", 12), ("StopBusListener", 6), ("Sync", 1),
];
const ALL: &[(&str, u32)] = &[
    ("CreateObject", 6), ("DestroyObject", 2), ("CreateService", 5), ("CreateService2", 5),
    ("DestroyService", 2), ("CallFunction", 6), ("CallFunction2", 5), ("CallFunctionReply", 8),
    ("AbortFunctionCall", 3), ("QueryServiceVersion", 2), ("QueryServiceInfo", 2),
    ("SubscribeEvent", 5), ("UnsubscribeEvent", 2), ("EmitEvent", 5), ("SubscribeAllEvents", 3),
    ("UnsubscribeAllEvents", 2), ("SubscribeService", 3), ("UnsubscribeService", 1),
    ("CreateChannel", 4), ("ClaimChannelEnd", 5), ("CloseChannelEnd", 3), ("SendItem", 8),
    ("AddChannelCapacity", 4), ("CreateBusListener", 2), ("DestroyBusListener", 1),
    ("AddBusListenerFilter", 3), ("RemoveBusListenerFilter", 1), ("ClearBusListenerFilters", 1),
    ("StartBusListener", 3), ("StopBusListener", 1), ("RegisterIntrospection", 3),
    ("QueryIntrospection", 5), ("QueryIntrospectionReply", 5), ("Sync", 1),
];
const HOSTILE: &[(&str, u32)] = &[
    ("CreateObject", 6), ("DestroyObject", 3), ("CreateService", 5), ("CreateService2", 5),
    ("DestroyService", 3), ("CallFunction", 6), ("CallFunction2", 5), ("CallFunctionReply", 8),
    ("AbortFunctionCall", 5), ("QueryServiceVersion", 2), ("QueryServiceInfo", 2),
    ("SubscribeEvent", 5), ("UnsubscribeEvent", 4), ("EmitEvent", 5), ("SubscribeAllEvents", 4),
    ("UnsubscribeAllEvents", 4), ("SubscribeService", 3), ("UnsubscribeService", 3),
    ("CreateChannel", 5), ("ClaimChannelEnd", 7), ("CloseChannelEnd", 5), ("SendItem", 8),
    ("AddChannelCapacity", 6), ("CreateBusListener", 2), ("DestroyBusListener", 2),
    ("AddBusListenerFilter", 3), ("RemoveBusListenerFilter", 2), ("ClearBusListenerFilters", 2),
    ("StartBusListener", 3), ("StopBusListener", 2), ("RegisterIntrospection", 4),
    ("QueryIntrospection", 5), ("QueryIntrospectionReply", 5), ("Sync", 3), ("Wrong", 4),
];

pub fn profile(name: &str) -> Profile {
    let base = Profile {
        ops: ALL,
        disc: 3,
        wild: 0.08,
        sides: false,
        batch: 0.3,
        versions: &[20, 20, 20, 18, 19, 17, 16, 15, 14],
        minconns: 2,
        maxconns: 5,
        bad_payload: 0.0,
        gate: 0.0,
        stop: 0.3,
        weird_connect: 0.0,
        nobj: 3,
        nsvc: 3,
    };
    match name {
        "C02" => Profile { ops: CALLS, ..base },
        "C03" => Profile { ops: REGISTRY, disc: 4, ..base },
        "C04" => Profile {
            ops: EVENTS,
            versions: &[20, 20, 20, 18, 19, 18, 20, 17, 14],
            nobj: 2,
            nsvc: 2,
            ..base
        },
        "C05" => Profile { ops: CHANNELS, disc: 2, ..base },
        "C09" => Profile { disc: 9, stop: 1.0, ..base },
        "C10" => Profile { ops: LISTENERS, ..base },
        "C11" => Profile {
            ops: HOSTILE,
            wild: 0.35,
            sides: true,
            maxconns: 6,
            gate: 0.05,
            bad_payload: 0.02,
            weird_connect: 0.05,
            ..base
        },
        "C12" => Profile {
            versions: &[14, 15, 16, 17, 18, 19, 20, 20],
            gate: 0.03,
            weird_connect: 0.3,
            disc: 4,
            maxconns: 6,
            ..base
        },
        _ => base,
    }
}

pub fn min_version(k: &str) -> i64 {
    match k {
        "AbortFunctionCall" => 16,
        "RegisterIntrospection" | "QueryIntrospection" | "QueryIntrospectionReply"
        | "CreateService2" | "QueryServiceInfo" => 17,
        "SubscribeService" | "UnsubscribeService" | "SubscribeAllEvents"
        | "UnsubscribeAllEvents" => 18,
        "CallFunction2" => 19,
        _ => 14,
    }
}

fn pick<'a, T>(r: &mut SmallRng, v: &'a [T]) -> Option<&'a T> {
    if v.is_empty() {
        None
    } else {
        Some(&v[r.random_range(0..v.len())])
    }
}

fn serial(r: &mut SmallRng) -> String {
    match r.random_range(0..10) {
        0 => u32::MAX.to_string(),
        1 => "0".into(),
        2 => "300".into(),
        _ => r.random_range(1..50u32).to_string(),
    }
}

fn small(r: &mut SmallRng) -> String {
    match r.random_range(0..14) {
        0 => u32::MAX.to_string(),
        _ => r.random_range(0..3u32).to_string(),
    }
}

fn cap(r: &mut SmallRng) -> J {
    let c: u32 = match r.random_range(0..16) {
        0 => 0,
        1 => u32::MAX,
        2 => u32::MAX - r.random_range(0..8),
        3 => 65536,
        4 => r.random_range(8..40),
        _ => r.random_range(1..8),
    };
    crate::json::cap_json(c)
}

fn cap_val(j: &J) -> i64 {
    j[0].as_i64().unwrap_or(0) * 65536 + j[1].as_i64().unwrap_or(0)
}

pub struct Gen {
    pub w: World,
    pub p: Profile,
    wild: Cell<f64>,
    gate: Cell<f64>,
}

impl Gen {
    pub fn new(p: Profile) -> Self {
        let (wild, gate) = (Cell::new(p.wild), Cell::new(p.gate));
        Self { w: World::default(), p, wild, gate }
    }

    fn wild_ck(&self, r: &mut SmallRng, bus: &Bus) -> i64 {
        match r.random_range(0..5) {
            0 => 9001 + r.random_range(0..2),
            1 => 0,
            2 => *pick(r, &self.w.dead).unwrap_or(&9003),
            _ if bus.names.next_cookie() < 2 => 9002,
            _ => r.random_range(1..bus.names.next_cookie()),
        }
    }

    fn obj(&self, r: &mut SmallRng, bus: &Bus, c: i64) -> i64 {
        if r.random_bool(self.wild.get()) {
            return self.wild_ck(r, bus);
        }
        let own: Vec<_> = self.w.objs.iter().filter(|o| o.owner == c).collect();
        if r.random_bool(0.85) {
            if let Some(o) = pick(r, &own) {
                return o.ck;
            }
        }
        match pick(r, &self.w.objs) {
            Some(o) => o.ck,
            None => self.wild_ck(r, bus),
        }
    }

    fn svc(&self, r: &mut SmallRng, bus: &Bus, c: i64, own: f64) -> i64 {
        if r.random_bool(self.wild.get()) {
            return self.wild_ck(r, bus);
        }
        let mine: Vec<_> = self.w.svcs.iter().filter(|s| s.owner == c).collect();
        if r.random_bool(own) {
            if let Some(s) = pick(r, &mine) {
                return s.ck;
            }
        }
        match pick(r, &self.w.svcs) {
            Some(s) => s.ck,
            None => self.wild_ck(r, bus),
        }
    }

    /// A subscription to end with a message of kind `k`.
    fn sub(&self, r: &mut SmallRng, bus: &Bus, c: i64, k: &str) -> (i64, String) {
        let mine: Vec<_> = self.w.subs.iter().filter(|s| s.0 == c && s.1 == k).collect();
        match pick(r, &mine) {
            Some(s) if r.random_bool(0.85) => (s.2, s.3.clone()),
            _ => (self.svc(r, bus, c, 0.15), small(r)),
        }
    }

    fn chan(&self, r: &mut SmallRng, bus: &Bus, f: impl Fn(&Chan) -> bool) -> i64 {
        if r.random_bool(self.wild.get()) {
            return self.wild_ck(r, bus);
        }
        let good: Vec<_> = self.w.chans.iter().filter(|ch| f(ch)).collect();
        if r.random_bool(0.9) {
            if let Some(ch) = pick(r, &good) {
                return ch.ck;
            }
        }
        match pick(r, &self.w.chans) {
            Some(ch) => ch.ck,
            None => self.wild_ck(r, bus),
        }
    }

    fn listener(&self, r: &mut SmallRng, bus: &Bus, c: i64) -> i64 {
        if r.random_bool(self.wild.get()) {
            return self.wild_ck(r, bus);
        }
        let mine: Vec<_> = self.w.listeners.iter().filter(|l| l.1 == c).collect();
        if r.random_bool(0.95) {
            if let Some(l) = pick(r, &mine) {
                return l.0;
            }
        }
        match pick(r, &self.w.listeners) {
            Some(l) => l.0,
            None => self.wild_ck(r, bus),
        }
    }

    fn payload(&self, r: &mut SmallRng, minor: i64) -> Vec<u8> {
        if r.random_bool(self.p.bad_payload) {
            loop {
                let n = r.random_range(1..6);
                let b = rand_bytes(r, n);
                if V::decode(&b).is_err() {
                    return b;
                }
            }
        }
        let v = rand_value(r, 3, 4);
        let enc = if minor < 20 {
            Enc::V1
        } else {
            match r.random_range(0..3) {
                0 => Enc::V1,
                1 => Enc::V2,
                _ => Enc::Mix,
            }
        };
        v.encode(enc, r)
    }

    fn uuid(&self, r: &mut SmallRng) -> i64 {
        5001 + r.random_range(0..self.p.nobj)
    }

    fn suuid(&self, r: &mut SmallRng) -> i64 {
        6001 + r.random_range(0..self.p.nsvc)
    }

    fn filter(&self, r: &mut SmallRng) -> J {
        let o = if r.random_bool(0.5) { self.uuid(r) } else { 0 };
        if r.random_bool(0.45) {
            json!({"t":"O","o":o,"s":0})
        } else {
            let s = if r.random_bool(0.5) { self.suuid(r) } else { 0 };
            json!({"t":"S","o":o,"s":s})
        }
    }

    pub fn connect(&self, r: &mut SmallRng, bus: &Bus) -> Event {
        let c = bus.next_conn;
        if r.random_bool(self.p.weird_connect) {
            let how = match r.random_range(0..8) {
                0 | 1 => "legacy",
                2 => "other",
                3 => "baddata",
                _ => "connect2",
            };
            let (maj, min) = match r.random_range(0..6) {
                0 => (0u32, r.random_range(13..22)),
                1 => (2, r.random_range(0..22)),
                2 => (u32::MAX, 14),
                3 => (1, *pick(r, &[0, 12, 13, 21, 22, 255, u32::MAX]).unwrap()),
                _ => (1, r.random_range(13..23)),
            };
            let (maj, min) = if how == "legacy" {
                (1, *pick(r, &[14, 14, 14, 13, 15, 20, 0, u32::MAX]).unwrap())
            } else if how == "baddata" {
                (1, 20)
            } else {
                (maj, min)
            };
            let rej = r.random_bool(0.08);
            return Event::new(json!({"e":"connect","c":c,"maj":maj.to_string(),
                "min":min.to_string(),"how":how,"rej":rej}));
        }
        let min = *pick(r, self.p.versions).unwrap();
        let legacy = min == 14 && r.random_bool(0.5);
        let how = if legacy { "legacy" } else { "connect2" };
        Event::new(json!({"e":"connect","c":c,"maj":"1","min":min.to_string(),"how":how,
            "rej":false}))
    }

    pub fn conns(&self, bus: &Bus) -> Vec<i64> {
        bus.conns.iter().filter(|(_, c)| c.open).map(|(c, _)| *c).collect()
    }

    fn kind(&self, r: &mut SmallRng) -> &'static str {
        loop {
            let k = self.any_kind(r);
            if k != "Wrong" || self.wild.get() > 0.2 {
                return k;
            }
        }
    }

    fn any_kind(&self, r: &mut SmallRng) -> &'static str {
        let total: u32 = self.p.ops.iter().map(|o| o.1).sum();
        let mut x = r.random_range(0..total);
        for (name, w) in self.p.ops {
            if x < *w {
                return name;
            }
            x -= w;
        }
        unreachable!()
    }

    /// Is a message of kind `k` from `c` likely to get somewhere?
    fn suits(&self, bus: &Bus, k: &str, c: i64) -> bool {
        let w = &self.w;
        if bus.conns[&c].minor < min_version(k) {
            return false;
        }
        match k {
            "DestroyObject" | "CreateService" | "CreateService2" => {
                w.objs.iter().any(|o| o.owner == c)
            }
            "DestroyService" | "EmitEvent" => w.svcs.iter().any(|s| s.owner == c),
            "CallFunction" | "CallFunction2" | "SubscribeEvent" | "SubscribeAllEvents"
            | "SubscribeService" | "QueryServiceInfo" | "QueryServiceVersion" => {
                w.svcs.iter().any(|s| s.owner != c)
            }
            "UnsubscribeEvent" | "UnsubscribeAllEvents" | "UnsubscribeService" => {
                w.subs.iter().any(|s| s.0 == c && s.1 == k)
            }
            "CallFunctionReply" => w.incoming.iter().any(|i| i.0 == c),
            "AbortFunctionCall" => w.pending.get(&c).is_some_and(|p| !p.is_empty()),
            "SendItem" => w.chans.iter().any(|h| h.snd == c && h.rcv > 0 && h.credit > 0),
            "AddChannelCapacity" => w.chans.iter().any(|h| h.rcv == c),
            "CloseChannelEnd" => w.chans.iter().any(|h| h.rcv == c || h.snd == c),
            "ClaimChannelEnd" => w.chans.iter().any(|h| h.rcv == 0 || h.snd == 0),
            "DestroyBusListener" | "StopBusListener" | "AddBusListenerFilter"
            | "RemoveBusListenerFilter" | "ClearBusListenerFilters" | "StartBusListener" => {
                w.listeners.iter().any(|l| l.1 == c)
            }
            "QueryIntrospectionReply" => w.queries.iter().any(|q| q.0 == c),
            _ => true,
        }
    }

    /// A message from one of the connections `left`.
    pub fn any_msg(&self, r: &mut SmallRng, bus: &Bus, left: &[i64]) -> Event {
        if !self.p.sides {
            return self.one_msg(r, bus, left);
        }
        let (bad, good): (Vec<i64>, Vec<i64>) = left.iter().partition(|c| *c % 2 == 1);
        let hostile = good.is_empty() || (!bad.is_empty() && r.random_bool(0.3));
        self.wild.set(if hostile { self.p.wild } else { 0.03 });
        self.gate.set(if hostile { self.p.gate } else { 0.0 });
        self.one_msg(r, bus, if hostile { &bad } else { &good })
    }

    fn one_msg(&self, r: &mut SmallRng, bus: &Bus, left: &[i64]) -> Event {
        if !r.random_bool(self.wild.get() / 2.0 + 0.1) {
            for _ in 0..8 {
                let k = self.kind(r);
                let good: Vec<i64> =
                    left.iter().copied().filter(|c| self.suits(bus, k, *c)).collect();
                if let Some(&c) = pick(r, &good) {
                    return self.msg_kind(r, bus, c, k);
                }
            }
        }
        let c = *pick(r, left).unwrap();
        self.msg(r, bus, c)
    }

    pub fn msg(&self, r: &mut SmallRng, bus: &Bus, c: i64) -> Event {
        let minor = bus.conns[&c].minor;
        let k = loop {
            let k = self.kind(r);
            if minor >= min_version(k) || r.random_bool(self.gate.get()) {
                break k;
            }
        };
        self.msg_kind(r, bus, c, k)
    }

    fn msg_kind(&self, r: &mut SmallRng, bus: &Bus, c: i64, k: &str) -> Event {
        let minor = bus.conns[&c].minor;
        let two = minor >= 20 && r.random_bool(0.5);
        let sub_v = |v: i64| minor >= v;
        let m = match k {
            "CreateObject" => json!({"k":k,"s":serial(r),"u":self.uuid(r)}),
            "DestroyObject" => json!({"k":k,"s":serial(r),"ck":self.obj(r,bus,c)}),
            "CreateService" => json!({"k":k,"s":serial(r),"ock":self.obj(r,bus,c),
                "u":self.suuid(r),"v":small(r)}),
            "CreateService2" => {
                let ok = !r.random_bool(if self.wild.get() > 0.2 { 0.1 } else { 0.005 });
                let sa = ["yes", "yes", "no", "none"][r.random_range(0..4)];
                let ty = if r.random_bool(0.5) { 7001 } else { 0 };
                json!({"k":k,"s":serial(r),"ock":self.obj(r,bus,c),"u":self.suuid(r),
                    "info":{"ok":ok,"v":small(r),"sa":sa,"ty":ty}})
            }
            "DestroyService" => json!({"k":k,"s":serial(r),"ck":self.svc(r,bus,c,0.9)}),
            "CallFunction" | "CallFunction2" => {
                let mut s = serial(r);
                for _ in 0..20 {
                    let used = self.w.pending.get(&c).is_some_and(|p| p.contains(&s));
                    if !used || r.random_bool(self.wild.get() / 8.0) {
                        break;
                    }
                    s = serial(r);
                }
                let ck = self.svc(r, bus, c, 0.15);
                if k == "CallFunction" {
                    json!({"k":k,"s":s,"ck":ck,"f":small(r)})
                } else {
                    let v = if r.random_bool(0.3) { "-1".into() } else { small(r) };
                    json!({"k":k,"s":s,"ck":ck,"f":small(r),"v":v})
                }
            }
            "CallFunctionReply" => {
                let mine: Vec<_> = self.w.incoming.iter().filter(|i| i.0 == c).collect();
                let s = if r.random_bool(0.06 + self.wild.get() / 2.0) {
                    // stale, duplicate or foreign
                    match r.random_range(0..3) {
                        0 => pick(r, &self.w.stale).map(|x| x.1.clone()),
                        1 => pick(r, &self.w.incoming).map(|x| x.1.clone()),
                        _ => None,
                    }
                    .unwrap_or_else(|| serial(r))
                } else {
                    pick(r, &mine).map(|x| x.1.clone()).unwrap_or_else(|| serial(r))
                };
                let res = ["Ok", "Ok", "Ok", "Err", "Err", "Aborted", "InvalidService",
                    "InvalidFunction", "InvalidArgs"][r.random_range(0..9)];
                json!({"k":k,"s":s,"r":res})
            }
            "AbortFunctionCall" => {
                let none = Vec::new();
                let mine = self.w.pending.get(&c).unwrap_or(&none);
                let s = if r.random_bool(0.1) {
                    serial(r)
                } else {
                    pick(r, mine).cloned().unwrap_or_else(|| serial(r))
                };
                json!({"k":k,"s":s})
            }
            "QueryServiceVersion" | "QueryServiceInfo" | "SubscribeService" => {
                json!({"k":k,"s":serial(r),"ck":self.svc(r,bus,c,0.2)})
            }
            "SubscribeEvent" => {
                let none = r.random_bool(if self.wild.get() > 0.2 { 0.08 } else { 0.003 });
                let s = if none { "-1".into() } else { serial(r) };
                json!({"k":k,"s":s,"ck":self.svc(r,bus,c,0.15),"ev":small(r)})
            }
            "SubscribeAllEvents" => {
                let none = r.random_bool(if self.wild.get() > 0.2 { 0.08 } else { 0.003 });
                let s = if none { "-1".into() } else { serial(r) };
                json!({"k":k,"s":s,"ck":self.svc(r,bus,c,0.15)})
            }
            "UnsubscribeAllEvents" => {
                let s = if r.random_bool(0.2) { "-1".into() } else { serial(r) };
                json!({"k":k,"s":s,"ck":self.sub(r,bus,c,k).0})
            }
            "UnsubscribeService" => json!({"k":k,"ck":self.sub(r,bus,c,k).0}),
            "UnsubscribeEvent" => {
                let (ck, ev) = self.sub(r, bus, c, k);
                json!({"k":k,"ck":ck,"ev":ev})
            }
            "EmitEvent" => json!({"k":k,"ck":self.svc(r,bus,c,0.9),"ev":small(r)}),
            "CreateChannel" => {
                let e = if r.random_bool(0.5) { "S" } else { "R" };
                let cp = if e == "S" { json!([0, 0]) } else { cap(r) };
                json!({"k":k,"s":serial(r),"end":e,"cap":cp})
            }
            "ClaimChannelEnd" => {
                let snd = r.random_bool(0.5);
                let ck = self.chan(r, bus, |ch| if snd { ch.snd == 0 } else { ch.rcv == 0 });
                let cp = if snd { json!([0, 0]) } else { cap(r) };
                json!({"k":k,"s":serial(r),"ck":ck,"end":if snd {"S"} else {"R"},"cap":cp})
            }
            "CloseChannelEnd" => {
                let snd = r.random_bool(0.5);
                let ck = self.chan(r, bus, |ch| if snd { ch.snd == c } else { ch.rcv == c });
                json!({"k":k,"s":serial(r),"ck":ck,"end":if snd {"S"} else {"R"}})
            }
            "SendItem" => {
                let n = if r.random_bool(0.95) { 1 } else { 0 };
                json!({"k":k,"ck":self.chan(r,bus,|h| h.snd == c && h.rcv > 0 && h.credit >= n)})
            }
            "AddChannelCapacity" => {
                json!({"k":k,"ck":self.chan(r,bus,|ch| ch.rcv == c),"cap":cap(r)})
            }
            "CreateBusListener" | "Sync" => json!({"k":k,"s":serial(r)}),
            "DestroyBusListener" | "StopBusListener" => {
                json!({"k":k,"s":serial(r),"ck":self.listener(r,bus,c)})
            }
            "AddBusListenerFilter" | "RemoveBusListenerFilter" => {
                json!({"k":k,"ck":self.listener(r,bus,c),"flt":self.filter(r)})
            }
            "ClearBusListenerFilters" => json!({"k":k,"ck":self.listener(r,bus,c)}),
            "StartBusListener" => {
                let scope = ["Current", "New", "All", "All"][r.random_range(0..4)];
                json!({"k":k,"s":serial(r),"ck":self.listener(r,bus,c),"scope":scope})
            }
            "RegisterIntrospection" => {
                let ok = !r.random_bool(if self.wild.get() > 0.2 { 0.1 } else { 0.01 });
                let n = r.random_range(0..3);
                let mut t: Vec<i64> = (0..n).map(|_| 7001 + r.random_range(0..4)).collect();
                t.sort();
                t.dedup();
                if !ok {
                    t.clear();
                }
                json!({"k":k,"ok":ok,"types":t})
            }
            "QueryIntrospection" => {
                json!({"k":k,"s":serial(r),"ty":7001 + r.random_range(0..5)})
            }
            "QueryIntrospectionReply" => {
                let mine: Vec<_> = self.w.queries.iter().filter(|q| q.0 == c).collect();
                match pick(r, &mine) {
                    Some(q) if !r.random_bool(self.wild.get() / 4.0) => {
                        let res = if r.random_bool(0.6) { "Ok" } else { "Unavailable" };
                        json!({"k":k,"s":q.1.clone(),"r":res})
                    }
                    _ if self.wild.get() > 0.2 => json!({"k":k,"s":serial(r),"r":"Ok"}),
                    _ => json!({"k":"Sync","s":serial(r)}),
                }
            }
            _ => {
                // wrong direction
                let ck = self.wild_ck(r, bus);
                match r.random_range(0..26) {
                    0 => json!({"k":"ConnectReply"}),
                    1 => json!({"k":"ConnectReply2"}),
                    2 => json!({"k":"CreateObjectReply","s":serial(r)}),
                    3 => json!({"k":"DestroyObjectReply","s":serial(r)}),
                    4 => json!({"k":"CreateServiceReply","s":serial(r)}),
                    5 => json!({"k":"DestroyServiceReply","s":serial(r)}),
                    6 => json!({"k":"SubscribeEventReply","s":serial(r)}),
                    7 => json!({"k":"QueryServiceVersionReply","s":serial(r)}),
                    8 => json!({"k":"QueryServiceInfoReply","s":serial(r)}),
                    9 => json!({"k":"CreateChannelReply","s":serial(r),"ck":ck}),
                    10 => json!({"k":"CloseChannelEndReply","s":serial(r)}),
                    11 => json!({"k":"ChannelEndClosed","ck":ck,"end":"S"}),
                    12 => json!({"k":"ClaimChannelEndReply","s":serial(r)}),
                    13 => json!({"k":"ChannelEndClaimed","ck":ck,"end":"R","cap":[0,1]}),
                    14 => json!({"k":"ItemReceived","ck":ck}),
                    15 => json!({"k":"SyncReply","s":serial(r)}),
                    16 => json!({"k":"ServiceDestroyed","ck":ck}),
                    17 => json!({"k":"CreateBusListenerReply","s":serial(r),"ck":ck}),
                    18 => json!({"k":"DestroyBusListenerReply","s":serial(r)}),
                    19 => json!({"k":"StartBusListenerReply","s":serial(r)}),
                    20 => json!({"k":"StopBusListenerReply","s":serial(r)}),
                    21 => json!({"k":"EmitBusEvent","ou":5001,"ock":ck}),
                    22 => json!({"k":"BusListenerCurrentFinished","ck":ck}),
                    23 => json!({"k":"SubscribeServiceReply","s":serial(r)}),
                    24 => json!({"k":"SubscribeAllEventsReply","s":serial(r)}),
                    _ => {
                        if sub_v(14) && r.random_bool(0.5) {
                            json!({"k":"Connect","v":"14"})
                        } else if r.random_bool(0.5) {
                            json!({"k":"Connect2","maj":"1","min":"20"})
                        } else {
                            json!({"k":"UnsubscribeAllEventsReply","s":serial(r)})
                        }
                    }
                }
            }
        };
        let raw = self.payload(r, minor);
        Event { j: json!({"e":"msg","c":c,"m":m}), raw, two }
    }

    pub fn disconnect(&self, r: &mut SmallRng, c: i64) -> Event {
        let e = match r.random_range(0..6) {
            0 | 1 => "shut",
            2 => "eof",
            3 => "terr",
            4 => "kill",
            _ => "drop",
        };
        Event::new(json!({"e":e,"c":c}))
    }

    /// Next batch of events.
    pub fn next(&mut self, r: &mut SmallRng, bus: &Bus) -> Vec<Event> {
        let conns = self.conns(bus);
        let serr = bus.conns.values().any(|c| c.link.borrow().fail_send);
        if conns.len() < self.p.minconns
            || (conns.len() < self.p.maxconns && r.random_range(0..100) < 3)
        {
            return vec![self.connect(r, bus)];
        }
        if r.random_range(0..200) < self.p.disc {
            let c = *pick(r, &conns).unwrap();
            return vec![self.disconnect(r, c)];
        }
        if !serr && r.random_range(0..800) < self.p.disc {
            let c = *pick(r, &conns).unwrap();
            return vec![Event::new(json!({"e":"serr","c":c}))];
        }
        let n = if r.random_bool(self.p.batch) { r.random_range(2..7) } else { 1 };
        let mut evs: Vec<Event> = Vec::new();
        let mut gone = Vec::new();
        for _ in 0..n {
            let left: Vec<i64> = conns.iter().copied().filter(|c| !gone.contains(c)).collect();
            let Some(&c) = pick(r, &left) else { break };
            if n > 1 && r.random_range(0..400) < self.p.disc {
                let e = ["shut", "eof", "terr", "kill", "drop"][r.random_range(0..5)];
                gone.push(c);
                evs.push(Event::new(json!({"e":e,"c":c})));
            } else {
                evs.push(self.any_msg(r, bus, &left));
            }
        }
        evs
    }

    fn kill_svc(&mut self, i: usize) {
        let s = self.w.svcs.remove(i);
        self.w.dead.push(s.ck);
        self.w.subs.retain(|x| x.2 != s.ck);
    }

    fn kill_obj(&mut self, ck: i64) {
        self.w.objs.retain(|o| o.ck != ck);
        self.w.dead.push(ck);
        while let Some(i) = self.w.svcs.iter().position(|s| s.ock == ck) {
            self.kill_svc(i);
        }
    }

    fn gone(&mut self, c: i64) {
        let objs: Vec<i64> = self.w.objs.iter().filter(|o| o.owner == c).map(|o| o.ck).collect();
        for o in objs {
            self.kill_obj(o);
        }
        self.w.pending.remove(&c);
        self.w.incoming.retain(|i| i.0 != c);
        self.w.queries.retain(|i| i.0 != c);
        self.w.subs.retain(|i| i.0 != c);
        self.w.listeners.retain(|l| l.1 != c);
        for ch in &mut self.w.chans {
            if ch.snd == c {
                ch.snd = -1;
            }
            if ch.rcv == c {
                ch.rcv = -1;
            }
        }
        self.w.chans.retain(|ch| ch.snd > 0 || ch.rcv > 0);
    }

    /// Learns from a finished step.
    pub fn learn(&mut self, line: &J) {
        for ev in line["ev"].as_array().unwrap() {
            let e = ev["e"].as_str().unwrap();
            let c = ev["c"].as_i64().unwrap_or(0);
            if e != "msg" {
                if matches!(e, "shut" | "eof" | "terr" | "kill" | "drop" | "xfail" | "xconv") {
                    self.gone(c);
                }
                continue;
            }
            let m = &ev["m"];
            let k = m["k"].as_str().unwrap();
            let s = m["s"].as_str().unwrap_or("").to_owned();
            self.w.requests.insert((c, k.to_owned(), s.clone()), m.clone());
            match k {
                "CallFunction" | "CallFunction2" => {
                    self.w.pending.entry(c).or_default().push(s);
                }
                "CallFunctionReply" => {
                    self.w.incoming.retain(|i| !(i.0 == c && i.1 == s));
                    self.w.stale.push((c, s));
                }
                "QueryIntrospectionReply" => self.w.queries.retain(|i| !(i.0 == c && i.1 == s)),
                "SubscribeEvent" | "SubscribeAllEvents" | "SubscribeService" => {
                    let u = match k {
                        "SubscribeEvent" => "UnsubscribeEvent",
                        "SubscribeService" => "UnsubscribeService",
                        _ => "UnsubscribeAllEvents",
                    };
                    let ev = m["ev"].as_str().unwrap_or("").to_owned();
                    self.w.subs.push((c, u, m["ck"].as_i64().unwrap(), ev));
                }
                "UnsubscribeEvent" | "UnsubscribeAllEvents" | "UnsubscribeService" => {
                    let ev = m["ev"].as_str().unwrap_or("").to_owned();
                    let ck = m["ck"].as_i64().unwrap();
                    self.w.subs.retain(|x| !(x.0 == c && x.1 == k && x.2 == ck && x.3 == ev));
                }
                "SendItem" => {
                    let ck = m["ck"].as_i64().unwrap();
                    for h in self.w.chans.iter_mut().filter(|h| h.ck == ck && h.snd == c) {
                        h.credit -= 1;
                    }
                }
                _ => {}
            }
        }
        let mut closed = Vec::new();
        let empty = Vec::new();
        let outs = line["out"].as_array().unwrap_or(&empty);
        for o in outs {
            let c = o["c"].as_i64().unwrap();
            for m in o["ms"].as_array().unwrap() {
                let k = m["k"].as_str().unwrap();
                let s = m["s"].as_str().unwrap_or("").to_owned();
                let ck = m["ck"].as_i64().unwrap_or(0);
                let ok = m["r"].as_str() == Some("Ok");
                let req = |w: &World, k: &str| w.requests.get(&(c, k.into(), s.clone())).cloned();
                match k {
                    "Closed" => closed.push(c),
                    "CreateObjectReply" if ok => {
                        if let Some(r) = req(&self.w, "CreateObject") {
                            let uuid = r["u"].as_i64().unwrap();
                            self.w.objs.push(Obj { ck, uuid, owner: c });
                        }
                    }
                    "DestroyObjectReply" if ok => {
                        if let Some(r) = req(&self.w, "DestroyObject") {
                            self.kill_obj(r["ck"].as_i64().unwrap());
                        }
                    }
                    "CreateServiceReply" if ok => {
                        let r = req(&self.w, "CreateService2").or_else(|| req(&self.w, "CreateService"));
                        if let Some(r) = r {
                            let ock = r["ock"].as_i64().unwrap();
                            let uuid = r["u"].as_i64().unwrap();
                            self.w.svcs.push(Svc { ck, ock, uuid, owner: c });
                        }
                    }
                    "DestroyServiceReply" if ok => {
                        if let Some(r) = req(&self.w, "DestroyService") {
                            let ck = r["ck"].as_i64().unwrap();
                            if let Some(i) = self.w.svcs.iter().position(|s| s.ck == ck) {
                                self.kill_svc(i);
                            }
                        }
                    }
                    "CallFunction" | "CallFunction2" => self.w.incoming.push((c, s)),
                    "AbortFunctionCall" => self.w.stale.push((c, s)),
                    "CallFunctionReply" => {
                        if let Some(p) = self.w.pending.get_mut(&c) {
                            p.retain(|x| *x != s);
                        }
                    }
                    "CreateChannelReply" => {
                        if let Some(r) = req(&self.w, "CreateChannel") {
                            let snd = r["end"].as_str() == Some("S");
                            let (a, b) = if snd { (c, 0) } else { (0, c) };
                            self.w.chans.push(Chan { ck, snd: a, rcv: b, credit: 0 });
                        }
                    }
                    "ClaimChannelEndReply" => {
                        if let Some(r) = req(&self.w, "ClaimChannelEnd") {
                            let ck = r["ck"].as_i64().unwrap();
                            let res = m["r"].as_str().unwrap();
                            for ch in self.w.chans.iter_mut().filter(|ch| ch.ck == ck) {
                                if res == "SenderClaimed" {
                                    ch.snd = c;
                                    ch.credit = cap_val(&m["cap"]);
                                } else if res == "ReceiverClaimed" {
                                    ch.rcv = c;
                                }
                            }
                        }
                    }
                    "CloseChannelEndReply" if ok => {
                        if let Some(r) = req(&self.w, "CloseChannelEnd") {
                            let ck = r["ck"].as_i64().unwrap();
                            let snd = r["end"].as_str() == Some("S");
                            for ch in self.w.chans.iter_mut().filter(|ch| ch.ck == ck) {
                                if snd {
                                    ch.snd = -1;
                                } else {
                                    ch.rcv = -1;
                                }
                            }
                        }
                    }
                    "ChannelEndClosed" => {
                        let snd = m["end"].as_str() == Some("S");
                        for ch in self.w.chans.iter_mut().filter(|ch| ch.ck == ck) {
                            if snd {
                                ch.snd = -1;
                            } else {
                                ch.rcv = -1;
                            }
                        }
                    }
                    "ChannelEndClaimed" if m["end"].as_str() == Some("R") => {
                        for h in self.w.chans.iter_mut().filter(|h| h.ck == ck) {
                            h.credit = cap_val(&m["cap"]);
                            h.rcv = h.rcv.max(1);
                        }
                    }
                    "AddChannelCapacity" => {
                        for h in self.w.chans.iter_mut().filter(|h| h.ck == ck) {
                            h.credit += cap_val(&m["cap"]);
                        }
                    }
                    "CreateBusListenerReply" => self.w.listeners.push((ck, c)),
                    "DestroyBusListenerReply" if ok => {
                        if let Some(r) = req(&self.w, "DestroyBusListener") {
                            let ck = r["ck"].as_i64().unwrap();
                            self.w.listeners.retain(|l| l.0 != ck);
                        }
                    }
                    "QueryIntrospection" => self.w.queries.push((c, s)),
                    _ => {}
                }
            }
        }
        for c in closed {
            self.gone(c);
        }
        let dead: Vec<i64> =
            self.w.chans.iter().filter(|c| c.snd < 1 && c.rcv < 1).map(|c| c.ck).collect();
        self.w.dead.extend(dead);
        self.w.chans.retain(|ch| ch.snd > 0 || ch.rcv > 0);
        if self.w.stale.len() > 30 {
            self.w.stale.drain(..15);
        }
        if self.w.dead.len() > 30 {
            self.w.dead.drain(..15);
        }
    }
}
