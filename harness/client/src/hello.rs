//! Handshakes: clients and brokers alone or with each other.
use crate::vals;
use crate::wire::V;
use aldrin::error::ConnectError;
use aldrin::Client;
use aldrin_broker::{AcceptError, Acceptor, Broker};
use aldrin_core::message::{
    CallFunction, Connect, Connect2, ConnectData, ConnectReply, ConnectReply2, ConnectReplyData,
    ConnectResult, CreateObject, CreateObjectReply, CreateObjectResult, EmitEvent, Message,
    Shutdown, Sync, SyncReply,
};
use aldrin_core::transport::AsyncTransport;
use aldrin_core::{
    ObjectCookie, ObjectUuid, ProtocolVersion, SerializedValue, SerializedValueSlice,
    ServiceCookie, Value,
};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use uuid::Uuid;

#[derive(Debug, Clone, PartialEq, Eq)]
enum Gone {
    Eof,
    Err,
}

#[derive(Debug)]
enum Item {
    Msg(Message),
    Gone(Gone),
}

/// One direction of a link.
#[derive(Debug, Default)]
struct Pipe {
    items: VecDeque<Item>,
    /// Everything that was sent.
    sent: Vec<Message>,
    /// Version that a client shall have instead of its own.
    minor: Option<u32>,
}

#[derive(Debug)]
struct Side {
    tx: Rc<RefCell<Pipe>>,
    rx: Rc<RefCell<Pipe>>,
    unflushed: VecDeque<Message>,
}

impl Side {
    fn new(tx: &Rc<RefCell<Pipe>>, rx: &Rc<RefCell<Pipe>>) -> Self {
        Self {
            tx: tx.clone(),
            rx: rx.clone(),
            unflushed: VecDeque::new(),
        }
    }
}

impl AsyncTransport for Side {
    type Error = Gone;

    fn receive_poll(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<Message, Gone>> {
        match self.rx.borrow_mut().items.pop_front() {
            Some(Item::Msg(m)) => Poll::Ready(Ok(m)),
            Some(Item::Gone(g)) => Poll::Ready(Err(g)),
            None => Poll::Pending,
        }
    }

    fn send_poll_ready(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), Gone>> {
        Poll::Ready(Ok(()))
    }

    fn send_start(mut self: Pin<&mut Self>, msg: Message) -> Result<(), Gone> {
        self.unflushed.push_back(msg);
        Ok(())
    }

    fn send_poll_flush(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), Gone>> {
        while let Some(mut msg) = self.unflushed.pop_front() {
            let mut tx = self.tx.borrow_mut();
            tx.sent.push(msg.clone());
            if let (Message::Connect2(m), Some(v)) = (&mut msg, tx.minor) {
                m.minor_version = v;
            }
            tx.items.push_back(Item::Msg(msg));
        }
        Poll::Ready(Ok(()))
    }
}

impl Drop for Side {
    fn drop(&mut self) {
        self.tx.borrow_mut().items.push_back(Item::Gone(Gone::Eof));
    }
}

fn ver(j: &J) -> u32 {
    j.as_i64().unwrap().try_into().unwrap_or(u32::MAX)
}

fn small(v: u32) -> i64 {
    if v == u32::MAX {
        -1
    } else {
        v.into()
    }
}

fn attached(d: i64) -> Option<SerializedValue> {
    (d > 0).then(|| SerializedValue::serialize(vals::value(d as u32)).unwrap())
}

fn unreadable() -> SerializedValue {
    SerializedValue::serialize("what?").unwrap()
}

fn encoded(mut v: SerializedValue, j: &J) -> SerializedValue {
    if j["w"] != 2 {
        v.convert(None, ProtocolVersion::V1_14).unwrap();
    }
    v
}

/// What arrives, as the specification puts it.
fn item(j: &J) -> Item {
    let d = j["d"].as_i64().unwrap();
    let plain = || {
        encoded(
            attached(d).unwrap_or_else(|| SerializedValue::serialize(()).unwrap()),
            j,
        )
    };
    let m: Message = match j["k"].as_str().unwrap() {
        "eof" => return Item::Gone(Gone::Eof),
        "err" => return Item::Gone(Gone::Err),
        "Connect" => Connect {
            version: ver(&j["min"]),
            value: plain(),
        }
        .into(),
        "Connect2" => Connect2 {
            major_version: ver(&j["maj"]),
            minor_version: ver(&j["min"]),
            value: if d < 0 {
                unreadable()
            } else {
                let mut data = ConnectData::new();
                data.user = attached(d);
                encoded(SerializedValue::serialize(data).unwrap(), j)
            },
        }
        .into(),
        "ConnectReply" => match j["r"].as_str().unwrap() {
            "IncompatibleVersion" => ConnectReply::IncompatibleVersion(ver(&j["v"])),
            "Rejected" => ConnectReply::Rejected(plain()),
            _ => ConnectReply::Ok(plain()),
        }
        .into(),
        "ConnectReply2" => ConnectReply2 {
            result: match j["r"].as_str().unwrap() {
                "IncompatibleVersion" => ConnectResult::IncompatibleVersion,
                "Rejected" => ConnectResult::Rejected,
                _ => ConnectResult::Ok(ver(&j["v"])),
            },
            value: if d < 0 {
                unreadable()
            } else {
                let mut data = ConnectReplyData::new();
                data.user = attached(d);
                encoded(SerializedValue::serialize(data).unwrap(), j)
            },
        }
        .into(),
        "Shutdown" => Shutdown.into(),
        "Sync" => Sync { serial: 0 }.into(),
        "SyncReply" => SyncReply { serial: 0 }.into(),
        "CreateObject" => CreateObject {
            serial: 0,
            uuid: ObjectUuid(Uuid::from_u128(1)),
        }
        .into(),
        "CreateObjectReply" => CreateObjectReply {
            serial: 0,
            result: CreateObjectResult::Ok(ObjectCookie(Uuid::from_u128(1))),
        }
        .into(),
        "CallFunction" => CallFunction {
            serial: 0,
            service_cookie: ServiceCookie(Uuid::from_u128(1)),
            function: 0,
            value: SerializedValue::serialize(()).unwrap(),
        }
        .into(),
        "EmitEvent" => EmitEvent {
            service_cookie: ServiceCookie(Uuid::from_u128(1)),
            event: 0,
            value: SerializedValue::serialize(()).unwrap(),
        }
        .into(),
        k => panic!("{k}"),
    };
    Item::Msg(m)
}

/// The number of a plain value and how it is encoded.
fn plain(v: &SerializedValueSlice) -> (i64, i64) {
    match V::decode(v.as_ref()) {
        Ok((V::None, _)) => (0, 0),
        Ok((d, w)) => (vals::read(&d) as i64, w.into()),
        Err(_) => (-1, 0),
    }
}

/// The same for data wrapped into a struct.
fn wrapped(v: &SerializedValueSlice) -> (i64, i64) {
    match V::decode(v.as_ref()) {
        Ok((V::Struct(f), w)) => match &f[..] {
            [] | [(0, V::None)] => (0, w.into()),
            [(0, V::Some(d))] => (vals::read(d) as i64, w.into()),
            _ => (-1, w.into()),
        },
        _ => (-1, 0),
    }
}

fn show(m: &Message) -> J {
    let rec = |k: &str, maj: u32, min: u32, r: &str, v: u32, (d, w): (i64, i64)| {
        json!({"k": k, "maj": small(maj), "min": small(min), "r": r, "v": small(v), "d": d, "w": w})
    };
    match m {
        Message::Connect(m) => rec("Connect", 0, m.version, "", 0, plain(&m.value)),
        Message::Connect2(m) => rec(
            "Connect2",
            m.major_version,
            m.minor_version,
            "",
            0,
            wrapped(&m.value),
        ),
        Message::ConnectReply(ConnectReply::Ok(v)) => rec("ConnectReply", 0, 0, "Ok", 0, plain(v)),
        Message::ConnectReply(ConnectReply::Rejected(v)) => {
            rec("ConnectReply", 0, 0, "Rejected", 0, plain(v))
        }
        Message::ConnectReply(ConnectReply::IncompatibleVersion(v)) => {
            rec("ConnectReply", 0, 0, "IncompatibleVersion", *v, (0, 0))
        }
        Message::ConnectReply2(m) => {
            let (r, v) = match m.result {
                ConnectResult::Ok(v) => ("Ok", v),
                ConnectResult::Rejected => ("Rejected", 0),
                ConnectResult::IncompatibleVersion => ("IncompatibleVersion", 0),
            };
            rec("ConnectReply2", 0, 0, r, v, wrapped(&m.value))
        }
        m => rec(&format!("{m:?}"), 0, 0, "", 0, (0, 0)),
    }
}

fn number(v: Option<&SerializedValueSlice>) -> i64 {
    v.map(|v| plain(v).0).unwrap_or(0)
}

/// Connects in one of the ways there are.
async fn client(sc: &J, t: Side, n: u64) -> J {
    let d = sc["d"].as_i64().unwrap();
    let mut b = Client::builder(t);
    if d > 0 {
        match n % 3 {
            0 => b.set_data(attached(d).unwrap()),
            1 => b.serialize_data(vals::value(d as u32)).unwrap(),
            _ => {
                use aldrin_core::tags;
                b.serialize_data_as::<tags::Value>(vals::value(d as u32))
                    .unwrap()
            }
        }
    }
    let res = if sc["api"] == 1 {
        b.connect1_with_data().await.map(|(_, d)| Some(d))
    } else {
        b.connect_with_data().await.map(|(_, d)| d)
    };
    let (r, d) = match res {
        Ok(v) => ("ok", number(v.as_deref())),
        Err(ConnectError::IncompatibleVersion) => ("incompatible", 0),
        Err(ConnectError::UnexpectedMessageReceived(_)) => ("unexpected", 0),
        Err(ConnectError::Transport(_)) => ("transport", 0),
        Err(ConnectError::Rejected(v)) => ("rejected", number(v.as_deref())),
        Err(ConnectError::Serialize(_)) => ("serialize", 0),
        Err(ConnectError::Deserialize(_)) => ("deserialize", 0),
    };
    json!({"r": r, "d": d})
}

fn refusal(e: AcceptError<Gone>) -> &'static str {
    match e {
        AcceptError::UnexpectedMessageReceived(_) => "unexpected",
        AcceptError::IncompatibleVersion(_) => "incompatible",
        AcceptError::Shutdown => "shutdown",
        AcceptError::Transport(_) => "transport",
        AcceptError::Serialize(_) => "serialize",
        AcceptError::Deserialize(_) => "deserialize",
    }
}

/// What the broker makes of it. Connections are kept in `keep`.
async fn broker(
    sc: &J,
    t: Side,
    n: u64,
    bh: &mut aldrin_broker::BrokerHandle,
    keep: &RefCell<Vec<aldrin_broker::Connection<Side>>>,
) -> (J, &'static str) {
    let nothing = |r: &str| json!({"r": r, "d": 0, "ver": 0});
    let (heard, res) = if sc["decide"] == "default" {
        (nothing("ok"), bh.connect(t).await.map(Some))
    } else {
        let mut a = match Acceptor::new(t).await {
            Ok(a) => a,
            Err(e) => return (nothing(refusal(e)), ""),
        };
        let mut d = number(a.client_data());
        let also = match a.deserialize_client_data::<Value>() {
            Some(Ok(Value::None)) | None => 0,
            Some(Ok(v)) => vals::number_of(&v),
            Some(Err(_)) => -1,
        };
        if d != also {
            d = -2;
        }
        let heard = json!({"r": "ok", "d": d, "ver": small(a.version().minor())});
        let rd = sc["rd"].as_i64().unwrap();
        if rd > 0 {
            if n % 2 == 0 {
                a.set_reply_data(attached(rd).unwrap());
            } else {
                a.serialize_reply_data(vals::value(rd as u32)).unwrap();
            }
        }
        let res = if sc["decide"] == "reject" {
            a.reject().await.map(|()| None)
        } else {
            a.accept(bh).await.map(Some)
        };
        (heard, res)
    };
    match res {
        Ok(c) => {
            keep.borrow_mut().extend(c);
            (heard, "ok")
        }
        Err(e) => (heard, refusal(e)),
    }
}

fn one(sc: &J, n: u64) -> J {
    let up = Rc::new(RefCell::new(Pipe::default()));
    let down = Rc::new(RefCell::new(Pipe::default()));
    let (c, b) = (Side::new(&up, &down), Side::new(&down, &up));
    let (mut c, mut b) = (Some(c), Some(b));
    match sc["t"].as_str().unwrap() {
        "client" => {
            std::mem::forget(b.take());
            down.borrow_mut().items.push_back(item(&sc["m"]));
        }
        "broker" => {
            std::mem::forget(c.take());
            up.borrow_mut().items.push_back(item(&sc["m"]));
        }
        _ => up.borrow_mut().minor = Some(ver(&sc["as"])),
    }
    let the_broker = Broker::new();
    let mut bh = the_broker.handle().clone();
    let keep = RefCell::new(Vec::new());
    let result = RefCell::new(json!({"r": "waiting", "d": 0}));
    let judged = RefCell::new((json!({"r": "waiting", "d": 0, "ver": 0}), "waiting"));
    let mut tasks: Vec<Option<Pin<Box<dyn Future<Output = ()> + '_>>>> = Vec::new();
    if let Some(c) = c {
        tasks.push(Some(Box::pin(async {
            *result.borrow_mut() = client(sc, c, n).await
        })));
    }
    if let Some(b) = b {
        let (bh, keep, judged) = (&mut bh, &keep, &judged);
        tasks.push(Some(Box::pin(async move {
            *judged.borrow_mut() = broker(sc, b, n, bh, keep).await
        })));
    }
    let mut cx = Context::from_waker(Waker::noop());
    let mut run = pin!(the_broker.run());
    // Nobody waits for anything but each other.
    for _ in 0..20 {
        for t in &mut tasks {
            if let Some(f) = t {
                if f.as_mut().poll(&mut cx).is_ready() {
                    *t = None;
                }
            }
        }
        let _ = run.as_mut().poll(&mut cx);
    }
    drop(tasks);
    let all = |p: &RefCell<Pipe>| p.borrow().sent.iter().map(show).collect::<Vec<_>>();
    let (judged, allowed) = judged.into_inner();
    json!({"sc": sc, "up": all(&up), "down": all(&down), "client": result.into_inner(),
           "broker": judged, "let": allowed})
}

pub fn run(sc: &J, n: u64) -> J {
    match catch_unwind(AssertUnwindSafe(|| one(sc, n))) {
        Ok(j) => j,
        Err(_) => json!({"sc": sc, "up": [], "down": [], "client": {"r": "panic", "d": 0},
                         "broker": {"r": "panic", "d": 0, "ver": 0}, "let": "panic"}),
    }
}
