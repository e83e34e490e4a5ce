//! Drives a real broker with raw connections and records what it does.
use crate::exec::{Exec, TaskId};
use crate::json::{from_json, raw_value, to_json};
use crate::memt::{Link, MemError, MemTransport};
use crate::names::Names;
use aldrin_broker::{Acceptor, Broker, BrokerHandle, ConnectionError, ConnectionHandle};
use aldrin_core::message::{Connect, Connect2, ConnectData, Message, Shutdown, Sync};
use aldrin_core::SerializedValue;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Conn {
    pub link: Rc<RefCell<Link>>,
    pub task: TaskId,
    pub handle: Rc<RefCell<Option<ConnectionHandle>>>,
    pub result: Rc<RefCell<Option<String>>>,
    pub minor: i64,
    /// The harness still uses this connection.
    pub open: bool,
    reported: bool,
    fail_logged: bool,
}

#[derive(Clone)]
pub struct Event {
    pub j: J,
    pub raw: Vec<u8>,
    pub two: bool,
}

impl Event {
    pub fn new(j: J) -> Self {
        Self { j, raw: Vec::new(), two: false }
    }
}

pub struct Bus {
    pub exec: Exec,
    pub handle: Option<BrokerHandle>,
    pub broker: TaskId,
    pub conns: BTreeMap<i64, Conn>,
    pub names: Names,
    pub next_conn: i64,
    pub dead: bool,
    pub stopping: bool,
    pub snapshots: bool,
}

const BUDGET: u64 = 20_000;

/// Counts steps, for the watchdog.
pub static BEAT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

impl Bus {
    pub fn new() -> Self {
        let mut exec = Exec::new();
        let broker = Broker::new();
        let handle = broker.handle().clone();
        let broker = exec.spawn("broker", broker.run());
        Self {
            exec,
            handle: Some(handle),
            broker,
            conns: BTreeMap::new(),
            names: Names::new(),
            next_conn: 1,
            dead: false,
            stopping: false,
            snapshots: true,
        }
    }

    fn connect(&mut self, ev: &J) -> J {
        let c = ev["c"].as_i64().unwrap();
        self.next_conn = self.next_conn.max(c + 1);
        let maj: u32 = ev["maj"].as_str().unwrap().parse().unwrap();
        let min: u32 = ev["min"].as_str().unwrap().parse().unwrap();
        let how = ev["how"].as_str().unwrap().to_owned();
        let rej = ev["rej"].as_bool().unwrap();
        let link = Rc::new(RefCell::new(Link::default()));
        let first: Message = match how.as_str() {
            "legacy" => Connect { version: min, value: raw_value(&[0]) }.into(),
            "other" => Sync { serial: 1 }.into(),
            "baddata" => Connect2 {
                major_version: maj,
                minor_version: min,
                value: raw_value(&[7, 1]),
            }
            .into(),
            _ => Connect2 {
                major_version: maj,
                minor_version: min,
                value: SerializedValue::serialize(ConnectData::new()).unwrap(),
            }
            .into(),
        };
        link.borrow_mut().push(first);
        let handle = Rc::new(RefCell::new(None));
        let result = Rc::new(RefCell::new(None));
        let mut bh = self.handle.clone().unwrap();
        let (l, h, r) = (link.clone(), handle.clone(), result.clone());
        let fut = async move {
            let t = MemTransport(l);
            let acc = if rej {
                match Acceptor::new(t).await {
                    Ok(a) => {
                        let _ = a.reject().await;
                        *r.borrow_mut() = Some("rejected".into());
                    }
                    Err(e) => *r.borrow_mut() = Some(format!("accept: {e:?}")),
                }
                return;
            } else {
                bh.connect(t).await
            };
            // The broker handle must not outlive the handshake.
            drop(bh);
            match acc {
                Ok(conn) => {
                    *h.borrow_mut() = Some(conn.handle().clone());
                    let res = conn.run().await;
                    *r.borrow_mut() = Some(match res {
                        Ok(()) => "ok".into(),
                        Err(ConnectionError::UnexpectedShutdown) => "closed".into(),
                        Err(ConnectionError::Transport(MemError::Eof)) => "eof".into(),
                        Err(ConnectionError::Transport(MemError::Injected)) => "transport".into(),
                        Err(_) => "convert".into(),
                    });
                }
                Err(e) => *r.borrow_mut() = Some(format!("accept: {e:?}")),
            }
        };
        let task = self.exec.spawn(&format!("conn{c}"), fut);
        let minor = if maj == 1 || how == "legacy" { (min as i64).min(20) } else { 0 };
        self.conns.insert(
            c,
            Conn {
                link,
                task,
                handle,
                result,
                minor,
                open: true,
                reported: false,
                fail_logged: false,
            },
        );
        json!({"e":"connect","c":c,"maj":maj.min(0x7fff_ffff),"min":min.min(0x7fff_ffff),
            "how":how,"rej":rej})
    }

    /// Injects one event and lets exactly the affected task run so that it reaches the broker.
    fn inject(&mut self, ev: &Event, only: bool) -> J {
        let e = ev.j["e"].as_str().unwrap().to_owned();
        if e == "connect" {
            return self.connect(&ev.j);
        }
        let mut task = None;
        let out = match e.as_str() {
            "msg" => {
                let c = ev.j["c"].as_i64().unwrap();
                let m = from_json(&mut self.names, &ev.j["m"], &ev.raw, ev.two);
                let j = to_json(&mut self.names, &m);
                let conn = &self.conns[&c];
                conn.link.borrow_mut().push(m);
                task = Some(conn.task);
                json!({"e":"msg","c":c,"m":j})
            }
            "shut" => {
                let c = ev.j["c"].as_i64().unwrap();
                let conn = self.conns.get_mut(&c).unwrap();
                conn.open = false;
                conn.link.borrow_mut().push(Message::Shutdown(Shutdown));
                task = Some(conn.task);
                json!({"e":"shut","c":c})
            }
            "eof" | "terr" => {
                let c = ev.j["c"].as_i64().unwrap();
                let conn = self.conns.get_mut(&c).unwrap();
                conn.open = false;
                let mut l = conn.link.borrow_mut();
                l.fail_recv = Some(if e == "eof" { MemError::Eof } else { MemError::Injected });
                l.wake();
                task = Some(conn.task);
                json!({"e":e,"c":c})
            }
            "serr" => {
                let c = ev.j["c"].as_i64().unwrap();
                let conn = self.conns.get_mut(&c).unwrap();
                let mut l = conn.link.borrow_mut();
                l.fail_send = true;
                json!({"e":"serr","c":c})
            }
            "drop" => {
                let c = ev.j["c"].as_i64().unwrap();
                let conn = self.conns.get_mut(&c).unwrap();
                conn.open = false;
                conn.reported = true;
                let t = conn.task;
                self.exec.drop_task(t);
                json!({"e":"drop","c":c})
            }
            "kill" => {
                let c = ev.j["c"].as_i64().unwrap();
                let h = self.conns[&c].handle.borrow().clone();
                if let (Some(h), Some(mut bh)) = (h, self.handle.clone()) {
                    task = Some(self.exec.spawn("kill", async move {
                        let _ = bh.shutdown_connection(&h).await;
                    }));
                }
                json!({"e":"kill","c":c})
            }
            "stop" => {
                self.stopping = true;
                if let Some(mut bh) = self.handle.clone() {
                    task = Some(self.exec.spawn("stop", async move { bh.shutdown().await }));
                }
                json!({"e":"stop"})
            }
            "idle" => {
                if let Some(mut bh) = self.handle.clone() {
                    task = Some(self.exec.spawn("idle", async move { bh.shutdown_idle().await }));
                }
                json!({"e":"idle"})
            }
            "dropall" => {
                self.handle = None;
                json!({"e":"dropall"})
            }
            "nop" => json!({"e":"nop"}),
            other => panic!("unknown event {other}"),
        };
        if only {
            if let Some(t) = task {
                for _ in 0..64 {
                    if !self.exec.poll(t) {
                        break;
                    }
                }
            }
        }
        out
    }

    fn settle(&mut self, rng: &mut SmallRng) -> bool {
        self.exec.run(&mut |n| rng.random_range(0..n), BUDGET)
    }

    /// Performs one step and returns the trace line.
    pub fn step(&mut self, evs: &[Event], rng: &mut SmallRng, take_stats: bool) -> J {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let only = evs.len() > 1;
        let mut log = Vec::new();
        for ev in evs {
            log.push(self.inject(ev, only));
        }
        if only {
            // All events are queued in this order before the broker sees the first one.
            for _ in 0..1000 {
                if !self.exec.poll(self.broker) {
                    break;
                }
            }
        }
        let mut hang = !self.settle(rng);

        // Clients answer a shutdown of the broker.
        let mut answered = false;
        for conn in self.conns.values_mut() {
            let shut = conn.link.borrow().outbox.iter().any(|m| matches!(m, Message::Shutdown(_)));
            if shut && conn.open {
                conn.open = false;
                conn.link.borrow_mut().push(Message::Shutdown(Shutdown));
                answered = true;
            }
        }
        if answered {
            hang |= !self.settle(rng);
        }

        let mut out = Vec::new();
        let mut implicit = Vec::new();
        for (&c, conn) in &mut self.conns {
            let msgs: Vec<Message> = conn.link.borrow_mut().outbox.drain(..).collect();
            let mut js: Vec<J> = msgs.iter().map(|m| to_json(&mut self.names, m)).collect();
            if !self.exec.alive(conn.task) && !conn.reported {
                conn.reported = true;
                let r = conn.result.borrow().clone().unwrap_or("panic".into());
                if r == "convert" {
                    implicit.push(json!({"e":"xconv","c":c}));
                }
                conn.open = false;
                js.push(json!({"k":"Closed","r":r}));
            }
            if conn.link.borrow().send_failed && !conn.fail_logged {
                conn.fail_logged = true;
                implicit.push(json!({"e":"xfail","c":c}));
            }
            if !js.is_empty() {
                out.push(json!({"c":c,"ms":js}));
            }
        }
        log.extend(implicit);
        let term = !self.exec.alive(self.broker);
        let mut line = json!({"t":"step","ev":log,"out":out,"term":term});
        if hang {
            line["hang"] = json!(true);
            self.dead = true;
        } else {
            line["hang"] = json!(false);
        }
        if !term && self.handle.is_some() {
            line["snap"] = self.snapshot(rng);
            if take_stats {
                line["stats"] = self.stats(rng);
            }
        }
        let panics: Vec<String> = self.exec.panics.drain(..).collect();
        if !panics.is_empty() {
            self.dead = true;
        }
        line["panics"] = json!(panics);
        line["hassnap"] = json!(line.get("snap").is_some_and(|s| !s.is_null()));
        line["hasstats"] = json!(line.get("stats").is_some());
        if term {
            self.dead = true;
        }
        self.conns.retain(|_, c| !c.reported);
        line
    }

    #[cfg(feature = "hooks")]
    fn snapshot(&mut self, rng: &mut SmallRng) -> J {
        if !self.snapshots {
            return J::Null;
        }
        let res = Rc::new(RefCell::new(None));
        let r = res.clone();
        let mut bh = self.handle.clone().unwrap();
        self.exec.spawn("snapshot", async move {
            *r.borrow_mut() = bh.verif_snapshot().await.ok();
        });
        self.settle(rng);
        let Some(s) = res.borrow_mut().take() else {
            return J::Null;
        };
        json!({"conns":s.conns,"objs":s.objs,"obj_uuids":s.obj_uuids,"svcs":s.svcs,
            "svc_uuids":s.svc_uuids,"calls":s.function_calls,"aborted":s.aborted_calls,
            "conn_calls":s.conn_calls,"channels":s.channels,"listeners":s.bus_listeners,
            "events":s.events,"all_events":s.all_events,"subscriptions":s.subscriptions,
            "introspection":s.introspection,"queries":s.query_introspection,
            "bad":s.inconsistencies})
    }

    #[cfg(not(feature = "hooks"))]
    fn snapshot(&mut self, _rng: &mut SmallRng) -> J {
        J::Null
    }

    fn stats(&mut self, rng: &mut SmallRng) -> J {
        let res = Rc::new(RefCell::new(None));
        let r = res.clone();
        let mut bh = self.handle.clone().unwrap();
        self.exec.spawn("stats", async move {
            *r.borrow_mut() = bh.take_statistics().await.ok();
        });
        self.settle(rng);
        let Some(s) = res.borrow_mut().take() else {
            return json!({"conns":-1,"objs":-1,"svcs":-1,"channels":-1,"listeners":-1});
        };
        let n = |u: usize| json!(u.min(0x7fff_ffff));
        json!({"conns":n(s.num_connections()),"objs":n(s.num_objects()),
            "svcs":n(s.num_services()),"channels":n(s.num_channels()),
            "listeners":n(s.num_bus_listeners())})
    }
}
