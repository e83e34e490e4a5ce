//! Real clients connected to a real broker on the deterministic executor.
use crate::exec::{Exec, TaskId};
use crate::json::to_json;
use crate::names::Names;
use crate::tap::{Fault, Seen, Tap, TapCtl, TapError, Wire};
use aldrin::error::{ConnectError, RunError};
use crate::vals::alt;
use aldrin::low_level::{
    Call, PendingReceiver, PendingReply, PendingSender, Promise, Proxy, Receiver, Sender, Service,
    UnclaimedReceiver, UnclaimedSender,
};
use aldrin::{BusListener, Client, Discoverer, Error, Handle, Lifetime, LifetimeScope, Object};
use aldrin_core::Value;
use aldrin_broker::{Broker, BrokerHandle, ConnectionError, ConnectionHandle};
use aldrin_core::channel;
use aldrin_core::message::{Message, MessageOps};
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

pub enum Ent {
    Obj(Rc<Object>),
    Svc(Rc<Service>),
    Px(Rc<Proxy>),
    Reply(PendingReply),
    ReplyT(aldrin::PendingReply<Value, Value>),
    /// Expects something else than what is sent.
    ReplyB(aldrin::PendingReply<String, String>),
    Prom(Promise),
    PromT(aldrin::Promise<Value, Value>),
    Call(Call),
    CallT(aldrin::Call<Value, Value, Value>),
    Unk(aldrin::UnknownCall),
    PS(PendingSender),
    PR(PendingReceiver),
    US(UnclaimedSender),
    UR(UnclaimedReceiver),
    S(Sender),
    R(Receiver),
    PST(aldrin::PendingSender<Value>),
    PRT(aldrin::PendingReceiver<Value>),
    UST(aldrin::UnclaimedSender<Value>),
    URT(aldrin::UnclaimedReceiver<Value>),
    ST(aldrin::Sender<Value>),
    RT(aldrin::Receiver<Value>),
    RB(aldrin::Receiver<String>),
    Bus(BusListener),
    Disc(Disco),
    Life(Lifetime),
    Scope(Rc<LifetimeScope>),
}

pub struct Disco {
    pub d: Discoverer<u32>,
    /// Entries: object or 0, services.
    pub entries: Vec<(i64, Vec<i64>)>,
}

impl Ent {
    pub fn kind(&self) -> &'static str {
        match self {
            Ent::Obj(_) => "obj",
            Ent::Svc(_) => "svc",
            Ent::Px(_) => "px",
            Ent::Reply(_) | Ent::ReplyT(_) | Ent::ReplyB(_) => "reply",
            Ent::Prom(_) | Ent::PromT(_) | Ent::Call(_) | Ent::CallT(_) | Ent::Unk(_) => "prom",
            Ent::PS(_) | Ent::PST(_) => "PS",
            Ent::PR(_) | Ent::PRT(_) => "PR",
            Ent::US(_) | Ent::UST(_) => "US",
            Ent::UR(_) | Ent::URT(_) => "UR",
            Ent::S(_) | Ent::ST(_) => "S",
            Ent::R(_) | Ent::RT(_) | Ent::RB(_) => "R",
            Ent::Bus(_) => "bus",
            Ent::Disc(_) => "disc",
            Ent::Life(_) => "life",
            Ent::Scope(_) => "scope",
        }
    }

    /// Switches between the typed and the untyped interface.
    pub fn flip(self, op: i64) -> Self {
        macro_rules! two {
            ($x:expr, $low:ident, $high:ident) => {
                if alt(op, 2) == 0 {
                    Ent::$low($x)
                } else {
                    Ent::$high($x.cast())
                }
            };
        }
        match self {
            Ent::Reply(x) => two!(x, Reply, ReplyT),
            Ent::ReplyT(x) => two!(x.into_low_level(), Reply, ReplyT),
            Ent::ReplyB(x) => two!(x.into_low_level(), Reply, ReplyT),
            Ent::Prom(x) => two!(x, Prom, PromT),
            Ent::PromT(x) => two!(x.into_low_level(), Prom, PromT),
            Ent::PS(x) => two!(x, PS, PST),
            Ent::PST(x) => two!(x.into_lowlevel(), PS, PST),
            Ent::PR(x) => two!(x, PR, PRT),
            Ent::PRT(x) => two!(x.into_lowlevel(), PR, PRT),
            Ent::US(x) => two!(x, US, UST),
            Ent::UST(x) => two!(x.into_lowlevel(), US, UST),
            Ent::UR(x) => two!(x, UR, URT),
            Ent::URT(x) => two!(x.into_lowlevel(), UR, URT),
            Ent::S(x) => two!(x, S, ST),
            Ent::ST(x) => two!(x.into_lowlevel(), S, ST),
            Ent::R(x) => two!(x, R, RT),
            Ent::RT(x) => two!(x.into_lowlevel(), R, RT),
            Ent::RB(x) => two!(x.into_lowlevel(), R, RT),
            Ent::Call(x) => match alt(op, 4) {
                0 => Ent::Prom(x.into_promise()),
                1 => Ent::PromT(x.into_args_and_promise().1.cast()),
                2 => Ent::CallT(x.deserialize_and_cast().unwrap()),
                _ => Ent::Call(x),
            },
            Ent::CallT(x) => match alt(op, 3) {
                0 => Ent::PromT(x.into_args_and_promise().1),
                1 => Ent::CallT(x.cast::<String, u32>().cast()),
                _ => Ent::CallT(x),
            },
            e => e,
        }
    }

    /// Nobody else uses it at the moment.
    pub fn alone(&self) -> bool {
        match self {
            Ent::Obj(r) => Rc::strong_count(r) == 1,
            Ent::Svc(r) => Rc::strong_count(r) == 1,
            Ent::Px(r) => Rc::strong_count(r) == 1,
            Ent::Scope(r) => Rc::strong_count(r) == 1,
            _ => true,
        }
    }
}

pub type Store = Rc<RefCell<BTreeMap<i64, Ent>>>;

/// Exclusive use of an entity for the duration of an operation.
pub struct Lease {
    store: Store,
    id: i64,
    pub ent: Option<Ent>,
}

impl Lease {
    pub fn take(store: &Store, id: i64) -> Option<Self> {
        let mut s = store.borrow_mut();
        if !s.get(&id)?.alone() {
            return None;
        }
        let ent = s.remove(&id);
        Some(Self {
            store: store.clone(),
            id,
            ent,
        })
    }

    pub fn flip(&mut self, op: i64) {
        self.ent = self.ent.take().map(|e| e.flip(op));
    }

    /// The operation consumes the entity.
    pub fn consume(mut self) -> Ent {
        self.ent.take().unwrap()
    }
}

impl Drop for Lease {
    fn drop(&mut self) {
        if let Some(e) = self.ent.take() {
            self.store.borrow_mut().insert(self.id, e);
        }
    }
}

/// Shared log of everything observed, in order.
pub type Log = Rc<RefCell<Vec<(i64, J)>>>;

pub struct Peer {
    pub id: i64,
    pub handle: Option<Handle>,
    pub store: Store,
    pub run: TaskId,
    pub conn: TaskId,
    pub version: i64,
    pub ctl: Rc<RefCell<TapCtl>>,
    pub side: Rc<RefCell<TapCtl>>,
    pub chandle: Rc<RefCell<Option<ConnectionHandle>>>,
    /// Result of Client::run().
    pub result: Rc<RefCell<Option<String>>>,
    /// Result of the broker's Connection::run().
    pub cresult: Rc<RefCell<Option<String>>>,
    pub closing: bool,
}

pub struct OpInfo {
    pub task: TaskId,
    pub c: i64,
    pub kind: String,
}

/// Does it contain a value that versions before 1.20 don't know?
fn newer(m: &Message) -> bool {
    m.value()
        .is_some_and(|v| crate::wire::V::decode(v.as_ref()).is_ok_and(|(_, w)| w == 2))
}

/// Goes on as long as no task keeps running forever.
pub static BEAT: AtomicU64 = AtomicU64::new(0);

pub struct World {
    pub exec: Exec,
    pub names: Rc<RefCell<Names>>,
    pub log: Log,
    pub bh: Option<BrokerHandle>,
    pub broker: TaskId,
    pub peers: BTreeMap<i64, Peer>,
    pub ops: BTreeMap<i64, OpInfo>,
    pub next: i64,
    pub next_val: u32,
    pub prio: BTreeMap<TaskId, u64>,
    pub mode: Mode,
    /// Client whose task runs at the moment.
    cur: Rc<Cell<i64>>,
    runs: BTreeMap<TaskId, i64>,
    /// Arguments of the calls behind promises.
    pub args: Rc<RefCell<BTreeMap<i64, i64>>>,
    /// Tasks that run whenever they can, before any other one.
    pub eager: Vec<TaskId>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Uniform,
    /// Random priorities that change now and then.
    Prio,
    /// One kind of task is only run if nothing else can.
    Starve(&'static str),
    Fifo,
}

pub const BUDGET: u64 = 60_000;

pub fn err(e: Error) -> String {
    let s = format!("{e:?}");
    s.chars().take_while(|c| c.is_alphanumeric()).collect()
}

pub fn ret(r: &str) -> J {
    json!({"r": r, "ck": 0, "v": 0, "f": "", "ver": "", "ty": 0, "sa": "none"})
}

pub fn unit(r: Result<(), Error>) -> J {
    match r {
        Ok(()) => ret("ok"),
        Err(e) => ret(&err(e)),
    }
}

pub fn reterr(e: Error) -> J {
    ret(&err(e))
}

impl World {
    pub fn new(mode: Mode) -> Self {
        let mut exec = Exec::new();
        let broker = Broker::new();
        let bh = broker.handle().clone();
        let broker = exec.spawn("broker", broker.run());
        let log: Log = Rc::default();
        let cur = Rc::new(Cell::new(0));
        let (l, c) = (log.clone(), cur.clone());
        aldrin::observe_requests(move |k| {
            if !k.starts_with("Handle") {
                l.borrow_mut().push((c.get(), json!({"t":"h","k":k})));
            }
        });
        Self {
            exec,
            names: Rc::new(RefCell::new(Names::new())),
            log,
            bh: Some(bh),
            broker,
            peers: BTreeMap::new(),
            ops: BTreeMap::new(),
            next: 101,
            next_val: 1,
            prio: BTreeMap::new(),
            mode,
            cur,
            runs: BTreeMap::new(),
            args: Rc::default(),
            eager: Vec::new(),
        }
    }

    pub fn put(&self, c: i64, j: J) {
        self.log.borrow_mut().push((c, j));
    }

    pub fn op(&mut self) -> i64 {
        self.next += 2;
        self.next - 2
    }

    pub fn val(&mut self) -> u32 {
        self.next_val += 1;
        self.next_val
    }

    /// Runs up to n polls.
    pub fn polls(&mut self, rng: &mut SmallRng, n: u64) {
        for _ in 0..n {
            if !self.poll_one(rng) {
                break;
            }
        }
    }

    fn poll_one(&mut self, rng: &mut SmallRng) -> bool {
        BEAT.fetch_add(1, Ordering::Relaxed);
        self.exec.adopt();
        let ready = self.exec.ready();
        if ready.is_empty() {
            return false;
        }
        let id = match self.mode {
            Mode::Uniform => ready[rng.random_range(0..ready.len())],
            Mode::Fifo => {
                let last = self.prio.get(&usize::MAX).copied().unwrap_or(0) as usize;
                *ready.iter().find(|t| **t > last).unwrap_or(&ready[0])
            }
            Mode::Prio => {
                if rng.random_bool(0.02) {
                    self.prio.clear();
                }
                for t in &ready {
                    if !self.prio.contains_key(t) {
                        self.prio.insert(*t, rng.random());
                    }
                }
                *ready.iter().max_by_key(|t| self.prio[*t]).unwrap()
            }
            Mode::Starve(what) => {
                let names = self.exec.ready_names();
                let others: Vec<TaskId> = names
                    .iter()
                    .filter(|(_, n)| !n.starts_with(what))
                    .map(|(t, _)| *t)
                    .collect();
                if others.is_empty() || rng.random_bool(0.01) {
                    ready[rng.random_range(0..ready.len())]
                } else {
                    others[rng.random_range(0..others.len())]
                }
            }
        };
        if self.mode == Mode::Fifo {
            self.prio.insert(usize::MAX, id as u64);
        }
        self.cur.set(self.runs.get(&id).copied().unwrap_or(0));
        self.exec.poll(id);
        while self.eager.iter().any(|t| self.exec.poll(*t)) {}
        true
    }

    /// Runs until nothing is ready anymore. False if there is no end.
    pub fn settle(&mut self, rng: &mut SmallRng) -> bool {
        for _ in 0..BUDGET {
            if !self.poll_one(rng) {
                return true;
            }
        }
        false
    }

    /// Connects a client. `cap` 0 is the unbounded transport.
    pub fn connect(&mut self, rng: &mut SmallRng, cap: usize, minor: u32, legacy: bool) -> i64 {
        let c = self.peers.len() as i64 + 1;
        let (a, b) = if cap == 0 {
            let (a, b) = channel::unbounded();
            (Wire::U(a), Wire::U(b))
        } else {
            let (a, b) = channel::bounded(cap - 1);
            (Wire::B(a), Wire::B(b))
        };
        let ctl = Rc::new(RefCell::new(TapCtl {
            minor: Some(minor),
            ..Default::default()
        }));
        let side = Rc::new(RefCell::new(TapCtl::default()));
        let (log, names) = (self.log.clone(), self.names.clone());
        let version = if legacy { 14 } else { minor as i64 };
        ctl.borrow_mut().sink = Some(Box::new(move |s| {
            let json = |m: &Message| {
                let mut j = to_json(&mut names.borrow_mut(), m);
                if version < 20 && newer(m) {
                    let k = j["k"].as_str().unwrap();
                    j["k"] = json!(format!("{k} with a value newer than 1.{version}"));
                }
                j
            };
            let j = match s {
                Seen::Tx(m) => json!({"t":"tx","m":json(&m)}),
                Seen::Rx(m) => json!({"t":"rx","m":json(&m)}),
                Seen::Err(inj) => json!({"t":"terr","inj":inj}),
            };
            log.borrow_mut().push((c, j));
        }));
        let ta = Tap::new(a, ctl.clone());
        let tb = Tap::new(b, side.clone());
        let cresult = Rc::new(RefCell::new(None));
        let chandle = Rc::new(RefCell::new(None));
        let (cr, ch) = (cresult.clone(), chandle.clone());
        let mut bh = self.bh.clone().unwrap();
        let conn = self.exec.spawn(&format!("conn{c}"), async move {
            let conn = bh.connect(tb).await;
            drop(bh);
            match conn {
                Ok(conn) => {
                    *ch.borrow_mut() = Some(conn.handle().clone());
                    let r = match conn.run().await {
                        Ok(()) => "ok",
                        Err(ConnectionError::UnexpectedShutdown) => "closed",
                        Err(ConnectionError::Transport(TapError::Disconnected)) => "eof",
                        Err(ConnectionError::Transport(TapError::Injected)) => "transport",
                        Err(_) => "other",
                    };
                    *cr.borrow_mut() = Some(r.to_owned());
                }
                Err(e) => *cr.borrow_mut() = Some(format!("accept: {e:?}")),
            }
        });
        let slot = Rc::new(RefCell::new(None));
        let s = slot.clone();
        self.exec.spawn(&format!("connect{c}"), async move {
            let r: Result<Client<Tap>, ConnectError<TapError>> = if legacy {
                Client::builder(ta).connect1().await
            } else {
                Client::connect(ta).await
            };
            *s.borrow_mut() = Some(r);
        });
        self.settle(rng);
        let client = slot
            .borrow_mut()
            .take()
            .expect("connect hangs")
            .expect("connect failed");
        let handle = client.handle().clone();
        let result = Rc::new(RefCell::new(None));
        let (r, log) = (result.clone(), self.log.clone());
        // The trace starts after the handshake.
        self.log.borrow_mut().retain(|(p, _)| *p != c);
        let run = self.exec.spawn(&format!("client{c}"), async move {
            let res = match client.run().await {
                Ok(()) => "ok".to_owned(),
                Err(RunError::Transport(_)) => "transport".to_owned(),
                Err(RunError::UnexpectedMessageReceived(m)) => format!("unexpected {m:?}"),
                Err(e) => format!("{e:?}"),
            };
            let res: String = res.chars().take(300).collect();
            log.borrow_mut().push((c, json!({"t":"run","r":res})));
            *r.borrow_mut() = Some(res);
        });
        self.runs.insert(run, c);
        self.put(c, json!({"t":"reset","c":c,"v":version,"cap":cap}));
        self.peers.insert(
            c,
            Peer {
                id: c,
                handle: Some(handle),
                store: Rc::default(),
                run,
                conn,
                version,
                ctl,
                side,
                chandle,
                result,
                cresult,
                closing: false,
            },
        );
        c
    }

    pub fn store(&self, c: i64) -> Store {
        self.peers[&c].store.clone()
    }

    pub fn handle(&self, c: i64) -> Option<Handle> {
        self.peers[&c].handle.clone()
    }

    /// Starts an operation: records it, polls it once and lets the executor do the rest.
    pub fn start(&mut self, c: i64, op: i64, mut req: J, fut: impl Future<Output = J> + 'static) {
        req["t"] = json!("req");
        req["op"] = json!(op);
        let kind = req["k"].as_str().unwrap().to_owned();
        self.put(c, req);
        let log = self.log.clone();
        let task = self.exec.spawn(&format!("op{c}"), async move {
            let r = fut.await;
            log.borrow_mut().push((c, json!({"t":"ret","op":op,"r":r})));
        });
        self.ops.insert(op, OpInfo { task, c, kind });
        self.exec.poll(task);
        self.reap();
    }

    /// Something that happens at once and has no result worth checking beyond the given one.
    pub fn sync(&mut self, c: i64, op: i64, mut req: J) {
        req["t"] = json!("req");
        req["op"] = json!(op);
        self.put(c, req);
    }

    pub fn sync_ret(&mut self, c: i64, op: i64, r: J) {
        self.put(c, json!({"t":"ret","op":op,"r":r}));
    }

    pub fn reap(&mut self) {
        let exec = &self.exec;
        self.ops.retain(|_, o| exec.alive(o.task));
    }

    pub fn cancel(&mut self, op: i64) {
        self.reap();
        if let Some(o) = self.ops.remove(&op) {
            self.put(o.c, json!({"t":"cancel","op":op}));
            self.exec.drop_task(o.task);
        }
    }

    pub fn arm(&mut self, c: i64, broker_side: bool, k: u64, f: Fault) {
        let p = &self.peers[&c];
        let ctl = if broker_side { &p.side } else { &p.ctl };
        let mut ctl = ctl.borrow_mut();
        let now = ctl.ops;
        ctl.at = Some((now + k, f));
    }
}
