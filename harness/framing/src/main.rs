//! Records how the real packetizer and the real stream transport treat byte streams, on I/O that
//! is scripted, for specs/FramingTrace.tla to judge.
use aldrin_core::message::{Message, MessageOps, Packetizer, SendItem, Shutdown, Sync};
use aldrin_core::tokio::TokioTransport;
use aldrin_core::transport::{AsyncTransport, AsyncTransportExt};
use aldrin_core::{ByteSlice, ChannelCookie, SerializedValue};
use rand::rngs::SmallRng;
use rand::{Rng, RngCore, SeedableRng};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, VecDeque};
use std::fs::File;
use std::future::Future;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone, Copy)]
enum Ans {
    Ok(usize),
    Pending,
    Zero,
    Err,
}

/// How the I/O answers.
struct Policy {
    /// Scripts of an operation; pending behind their end.
    scripted: bool,
    reads: VecDeque<Ans>,
    writes: VecDeque<Ans>,
    flush: Ans,
    /// Otherwise by chance.
    rng: SmallRng,
    max_read: usize,
    max_write: usize,
    pending: f64,
    fail: f64,
    generous: bool,
}

struct Io {
    p: Policy,
    rx: Vec<u8>,
    read: usize,
    tx: Vec<u8>,
    written: usize,
    log: Vec<J>,
    calls: usize,
}

impl Io {
    fn log(&mut self, k: &str, r: &str, n: usize, same: bool) {
        self.log.push(json!({"k": k, "r": r, "n": n, "same": same}));
        self.calls += 1;
        if self.calls > 20000 {
            panic!("no end of I/O in one operation");
        }
    }

    fn answer(&mut self, read: bool, avail: usize) -> Ans {
        if self.p.generous {
            return if avail == 0 { Ans::Pending } else { Ans::Ok(avail) };
        }
        if self.p.scripted {
            let q = if read { &mut self.p.reads } else { &mut self.p.writes };
            return q.pop_front().unwrap_or(Ans::Pending);
        }
        let max = if read { self.p.max_read } else { self.p.max_write };
        let r = &mut self.p.rng;
        if r.random_bool(self.p.fail) {
            if r.random_bool(0.5) { Ans::Err } else { Ans::Zero }
        } else if avail == 0 || r.random_bool(self.p.pending) {
            Ans::Pending
        } else if r.random_bool(0.2) {
            Ans::Ok(avail)
        } else {
            Ans::Ok(r.random_range(1..=max))
        }
    }
}

#[derive(Clone)]
struct Shared(Arc<Mutex<Io>>);

impl Shared {
    fn with<T>(&self, f: impl FnOnce(&mut Io) -> T) -> T {
        f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
}

fn broken() -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::ConnectionReset, "scripted")
}

impl AsyncRead for Shared {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context, buf: &mut ReadBuf) -> Poll<std::io::Result<()>> {
        self.with(|io| {
            let left = io.rx.len() - io.read;
            match io.answer(true, left) {
                Ans::Pending => {
                    io.log("read", "pending", 0, true);
                    Poll::Pending
                }
                Ans::Err => {
                    io.log("read", "err", 0, true);
                    Poll::Ready(Err(broken()))
                }
                Ans::Zero => {
                    io.log("read", "zero", 0, true);
                    Poll::Ready(Ok(()))
                }
                Ans::Ok(_) if left == 0 => {
                    io.log("read", "zero", 0, true);
                    Poll::Ready(Ok(()))
                }
                Ans::Ok(n) => {
                    let n = n.min(left).min(buf.remaining());
                    buf.put_slice(&io.rx[io.read..io.read + n]);
                    io.read += n;
                    io.log("read", "ok", n, true);
                    Poll::Ready(Ok(()))
                }
            }
        })
    }
}

impl AsyncWrite for Shared {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        self.with(|io| match io.answer(false, buf.len()) {
            Ans::Pending => {
                io.log("write", "pending", 0, true);
                Poll::Pending
            }
            Ans::Err => {
                io.log("write", "err", 0, true);
                Poll::Ready(Err(broken()))
            }
            Ans::Zero => {
                io.log("write", "zero", 0, true);
                Poll::Ready(Ok(0))
            }
            Ans::Ok(n) => {
                let n = n.min(buf.len());
                let same = io.tx.get(io.written..io.written + n) == Some(&buf[..n]);
                io.written += n;
                io.log("write", "ok", n, same);
                Poll::Ready(Ok(n))
            }
        })
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<std::io::Result<()>> {
        self.with(|io| {
            let a = if io.p.generous {
                Ans::Ok(0)
            } else if io.p.scripted {
                io.p.flush
            } else if io.p.rng.random_bool(io.p.fail) {
                Ans::Err
            } else if io.p.rng.random_bool(io.p.pending) {
                Ans::Pending
            } else {
                Ans::Ok(0)
            };
            match a {
                Ans::Pending => {
                    io.log("flush", "pending", 0, true);
                    Poll::Pending
                }
                Ans::Err | Ans::Zero => {
                    io.log("flush", "err", 0, true);
                    Poll::Ready(Err(broken()))
                }
                Ans::Ok(_) => {
                    io.log("flush", "ok", 0, true);
                    Poll::Ready(Ok(()))
                }
            }
        })
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// A message with about `len` bytes.
fn message(len: usize, r: &mut SmallRng) -> Message {
    match len {
        0..=5 => Shutdown.into(),
        6..=10 => {
            let serial = match len {
                6 => r.random_range(0..252),
                7 => r.random_range(252..256),
                8 => r.random_range(256..1 << 16),
                9 => r.random_range(1 << 16..1 << 24),
                _ => r.random_range(1 << 24..=u32::MAX),
            };
            Sync { serial }.into()
        }
        _ => {
            let mut id = [0; 16];
            r.fill_bytes(&mut id);
            let make = |n: usize, r: &mut SmallRng| -> Message {
                let mut b = vec![0; n];
                r.fill_bytes(&mut b);
                SendItem {
                    cookie: ChannelCookie(uuid::Uuid::from_bytes(id)),
                    value: SerializedValue::serialize(ByteSlice::new(&b)).expect("value"),
                }
                .into()
            };
            let over = frame(&make(0, r)).len();
            let m = make(len.saturating_sub(over), r);
            let l = frame(&m).len();
            if l > len && len > over {
                make(len.saturating_sub(over + (l - len)), r)
            } else {
                m
            }
        }
    }
}

fn frame(m: &Message) -> Vec<u8> {
    m.clone().serialize_message().expect("serialize").to_vec()
}

/// Number of the frame that was handed out.
fn which(frames: &[Vec<u8>], got: usize, f: &[u8]) -> i64 {
    if frames.get(got).map(|x| &x[..]) == Some(f) {
        return got as i64 + 1;
    }
    frames.iter().position(|x| &x[..] == f).map(|i| i as i64 + 1).unwrap_or(-1)
}

struct Sink {
    out: BufWriter<File>,
    cur: File,
    seen: BTreeMap<String, u64>,
    traces: u64,
    lines: u64,
}

impl Sink {
    fn put(&mut self, j: J) {
        self.lines += 1;
        writeln!(self.out, "{j}").expect("write");
    }

    fn saw(&mut self, s: &str) {
        *self.seen.entry(s.to_string()).or_default() += 1;
    }

    fn start(&mut self, what: &str, seed: u64, lens: Vec<usize>, tx: Vec<usize>) {
        self.traces += 1;
        let s = format!("{what} seed {seed} lens {lens:?} tx {tx:?}\n{}\n", " ".repeat(200));
        self.cur.write_at(s.as_bytes(), 0).expect("current");
        self.put(json!({"t": "reset", "lens": lens, "tx": tx, "how": what, "seed": seed}));
    }
}

fn lens_of(f: &[Vec<u8>]) -> Vec<usize> {
    f.iter().map(Vec::len).collect()
}

#[derive(Clone)]
enum Pop {
    Feed(usize, bool),
    Next,
}

/// Feeds frames to a packetizer.
fn packet(s: &mut Sink, seed: u64, frames: &[Vec<u8>], ops: impl Iterator<Item = Pop>, max: usize) {
    s.start("packet", seed, lens_of(frames), vec![]);
    let stream = frames.concat();
    let (mut fed, mut got) = (0, 0);
    let mut p = Packetizer::new();
    let mut bad = false;
    let drain = (0..).map(|i| if i % 2 == 0 { Pop::Next } else { Pop::Feed(max, i % 4 == 1) });
    let mut idle = 0;
    for op in ops.chain(drain) {
        if bad || idle > 3 {
            break;
        }
        match op {
            Pop::Feed(n, spare) => {
                let n = n.min(stream.len() - fed);
                if n == 0 {
                    continue;
                }
                let piece = &stream[fed..fed + n];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if !spare {
                        p.extend_from_slice(piece);
                        return (n, 0);
                    }
                    let to = p.spare_capacity_mut();
                    let room = to.len();
                    let n = n.min(room);
                    for (d, b) in to.iter_mut().zip(&piece[..n]) {
                        d.write(*b);
                    }
                    // SAFETY: that many bytes were written.
                    unsafe { p.bytes_written(n) };
                    (n, room)
                }));
                match r {
                    Ok((n, room)) => {
                        fed += n;
                        s.saw(if spare { "feed spare" } else { "feed slice" });
                        s.put(json!({"t": "feed", "n": n, "spare": spare, "room": room.min(1 << 30)}));
                        bad = spare && room == 0;
                    }
                    Err(_) => {
                        s.put(json!({"t": "panic"}));
                        bad = true;
                    }
                }
            }
            Pop::Next => match catch_unwind(AssertUnwindSafe(|| p.next_message())) {
                Ok(m) => {
                    let n = m.as_ref().map(|f| which(frames, got, f)).unwrap_or(0);
                    got += m.is_some() as usize;
                    s.saw(if n == 0 { "none" } else { "frame" });
                    if n == 0 && fed == stream.len() {
                        idle += 1;
                    }
                    if got > frames.len() {
                        bad = true;
                    }
                    s.put(json!({"t": "next", "r": n}));
                }
                Err(_) => {
                    s.put(json!({"t": "panic"}));
                    bad = true;
                }
            },
        }
    }
    s.put(json!({"t": "end"}));
}

/// The operations of a transport, made on whatever wraps it.
trait Ops {
    fn op(&mut self, op: &str, msg: Option<Message>, fut: bool) -> (&'static str, Option<Message>);
}

fn res<T, E>(p: Poll<Result<T, E>>) -> (&'static str, Option<T>) {
    match p {
        Poll::Pending => ("pending", None),
        Poll::Ready(Ok(v)) => ("ok", Some(v)),
        Poll::Ready(Err(_)) => ("err", None),
    }
}

struct Wrapped<T>(T, Shared);

impl<T: AsyncTransport + Unpin> Ops for Wrapped<T> {
    fn op(&mut self, op: &str, msg: Option<Message>, fut: bool) -> (&'static str, Option<Message>) {
        let t = &mut self.0;
        let cx = &mut Context::from_waker(Waker::noop());
        match op {
            "recv" => {
                let p = if fut { Pin::new(&mut t.receive()).poll(cx) } else { t.receive_poll_unpin(cx) };
                match res(p) {
                    ("ok", m) => ("msg", m),
                    r => r,
                }
            }
            "ready" => (res(t.send_poll_ready_unpin(cx)).0, None),
            "start" => (res(Poll::Ready(t.send_start_unpin(msg.expect("message")))).0, None),
            "flush" => {
                (res(if fut { Pin::new(&mut t.flush()).poll(cx) } else { t.send_poll_flush_unpin(cx) }).0, None)
            }
            "send" => (res(Pin::new(&mut t.send(msg.expect("message"))).poll(cx)).0, None),
            "sendflush" => {
                let mut f = t.send_and_flush(msg.expect("message"));
                for i in 0.. {
                    let before = self.1.with(|io| {
                        io.p.generous |= i > 50;
                        io.log.len()
                    });
                    match res(Pin::new(&mut f).poll(cx)).0 {
                        "pending" => {}
                        r => return (r, None),
                    }
                    let waits = self.1.with(|io| io.log[before..].iter().any(|c| c["r"] == "pending"));
                    if !waits || i > 100 {
                        return ("stuck", None);
                    }
                }
                unreachable!()
            }
            _ => unreachable!(),
        }
    }
}

fn wrap(how: usize, io: Shared) -> Box<dyn Ops> {
    let t = TokioTransport::new(io.clone());
    match how {
        0 => Box::new(Wrapped(t, io)),
        1 => Box::new(Wrapped(t.buffered(), io)),
        2 => Box::new(Wrapped(t.boxed(), io)),
        3 => Box::new(Wrapped(t.map_err(|e| e.to_string()), io)),
        4 => Box::new(Wrapped(Box::new(t), io)),
        5 => Box::new(Wrapped(Box::leak(Box::new(t)), io)),
        6 => Box::new(Wrapped(t.map_err(|e| e.to_string()).boxed().buffered(), io)),
        _ => Box::new(Wrapped(t.buffered().buffered().boxed(), io)),
    }
}

const WRAPS: usize = 8;

struct Top {
    op: String,
    reads: Vec<Ans>,
    writes: Vec<Ans>,
    flush: Ans,
}

struct Case {
    seed: u64,
    how: usize,
    rx: Vec<Message>,
    tx: Vec<Message>,
    policy: Policy,
}

/// Uses a transport.
fn transport(s: &mut Sink, c: Case, ops: impl Iterator<Item = Top>) {
    let rx: Vec<_> = c.rx.iter().map(frame).collect();
    let tx: Vec<_> = c.tx.iter().map(frame).collect();
    s.start(&format!("transport{}", c.how), c.seed, lens_of(&rx), lens_of(&tx));
    let mut r = SmallRng::seed_from_u64(c.seed ^ 77);
    let io = Shared(Arc::new(Mutex::new(Io {
        p: c.policy,
        rx: rx.concat(),
        read: 0,
        tx: tx.concat(),
        written: 0,
        log: vec![],
        calls: 0,
    })));
    let mut t = wrap(c.how, io.clone());
    let (mut got, mut started) = (0, 0);
    let mut ready = false;
    let mut alive = true;
    let last = Top { op: String::new(), reads: vec![], writes: vec![], flush: Ans::Ok(0) };
    let scripted = ops.map(Some).chain([None]);
    let mut todo: VecDeque<Top> = VecDeque::new();
    let mut scripted = scripted.fuse();
    loop {
        let o = match todo.pop_front() {
            Some(o) => o,
            None => match scripted.next() {
                Some(Some(o)) => o,
                Some(None) => {
                    // From here on the I/O does everything at once.
                    io.with(|io| io.p.generous = true);
                    for _ in 0..=rx.len() - got.min(rx.len()) {
                        todo.push_back(Top { op: "recv".into(), reads: vec![], writes: vec![], ..last });
                    }
                    todo.push_back(Top { op: "flush".into(), reads: vec![], writes: vec![], ..last });
                    continue;
                }
                None => break,
            },
        };
        let Top { op, reads, writes, flush } = o;
        let sends = matches!(op.as_str(), "start" | "send" | "sendflush");
        if sends && (started == tx.len() || op == "start" && !ready) {
            continue;
        }
        io.with(|io| {
            io.p.reads = reads.into();
            io.p.writes = writes.into();
            io.p.flush = flush;
            io.calls = 0;
            io.log.clear();
        });
        let generous = io.with(|io| io.p.generous);
        let msg = sends.then(|| c.tx[started].clone());
        let fut = r.random_bool(0.5);
        let (res, m) =
            catch_unwind(AssertUnwindSafe(|| t.op(&op, msg, fut))).unwrap_or(("panic", None));
        ready = op == "ready" && res == "ok";
        if sends && (op != "send" || res == "ok") {
            started += 1;
        }
        let m = m.map(|m| which(&rx, got, &frame(&m))).unwrap_or(0);
        got += (res == "msg") as usize;
        let log = io.with(|io| {
            io.p.generous = generous;
            std::mem::take(&mut io.log)
        });
        s.saw(&format!("{op} {res}"));
        s.put(json!({"t": "op", "op": op, "res": res, "m": m, "io": log}));
        if !matches!(res, "ok" | "msg" | "pending") || got > rx.len() {
            alive = false;
            break;
        }
    }
    if alive {
        s.put(json!({"t": "end"}));
    }
}

fn size(r: &mut SmallRng, big: f64) -> usize {
    if r.random_bool(big) {
        match r.random_range(0..10) {
            0..=3 => r.random_range(8100..8300),
            4..=6 => r.random_range(1000..20000),
            7 | 8 => 65536 + r.random_range(0..200) - 100,
            _ => r.random_range(60000..300000),
        }
    } else if r.random_bool(0.7) {
        r.random_range(5..12)
    } else {
        r.random_range(5..200)
    }
}

fn raw_frame(len: usize, r: &mut SmallRng) -> Vec<u8> {
    let mut f = vec![0; len];
    r.fill_bytes(&mut f);
    f[..4].copy_from_slice(&(len as u32).to_le_bytes());
    f
}

fn pick(r: &mut SmallRng, total: usize) -> usize {
    // At most some hundred pieces.
    let least = total / 150 + 1;
    let most = *[1usize, 2, 3, 5, 9, 40, 1000, 70000].get(r.random_range(0..8)).unwrap();
    most.max(least)
}

fn random_packet(s: &mut Sink, seed: u64, huge: bool) {
    let mut r = SmallRng::seed_from_u64(seed);
    let big = *[0.0, 0.0, 0.1, 0.5].get(r.random_range(0..4)).unwrap();
    let n = r.random_range(1..8);
    let mut frames: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let l = size(&mut r, big);
            raw_frame(l, &mut r)
        })
        .collect();
    if huge {
        let l = (4 << 20) + r.random_range(0..20000);
        let at = r.random_range(0..frames.len());
        frames[at] = raw_frame(l, &mut r);
    }
    let total: usize = frames.iter().map(Vec::len).sum();
    let max = pick(&mut r, total);
    let (spare, next) = (r.random_range(0.0..=1.0), r.random_range(0.0..0.8));
    let count = r.random_range(0..2 * (total / max + 2) + 5).min(400);
    let fill = r.random_bool(0.2);
    let ops: Vec<_> = (0..count)
        .map(|_| {
            if r.random_bool(next) {
                Pop::Next
            } else if fill {
                // As much as there is room.
                Pop::Feed(1 << 30, r.random_bool(spare))
            } else {
                Pop::Feed(r.random_range(1..=max), r.random_bool(spare))
            }
        })
        .collect();
    packet(s, seed, &frames, ops.into_iter(), max.max(total / 50 + 1));
}

fn random_transport(s: &mut Sink, seed: u64, huge: bool) {
    let mut r = SmallRng::seed_from_u64(seed);
    let big = *[0.0, 0.2, 0.9].get(r.random_range(0..3)).unwrap();
    let messages = |r: &mut SmallRng| -> Vec<Message> {
        (0..r.random_range(0..7)).map(|_| size(r, big)).collect::<Vec<_>>().into_iter().map(|l| message(l, r)).collect()
    };
    let (mut rx, mut tx) = (messages(&mut r), messages(&mut r));
    if huge {
        let m = message((4 << 20) + r.random_range(0..20000), &mut r);
        if r.random_bool(0.5) { &mut rx } else { &mut tx }.push(m);
    }
    let total = |m: &[Message]| m.iter().map(|m| frame(m).len()).sum::<usize>();
    let policy = Policy {
        scripted: false,
        reads: VecDeque::new(),
        writes: VecDeque::new(),
        flush: Ans::Ok(0),
        max_read: pick(&mut r, total(&rx)),
        max_write: pick(&mut r, total(&tx)),
        pending: *[0.0, 0.05, 0.3, 0.7].get(r.random_range(0..4)).unwrap(),
        fail: *[0.0, 0.0, 0.002, 0.02].get(r.random_range(0..4)).unwrap(),
        generous: false,
        rng: SmallRng::seed_from_u64(seed ^ 5),
    };
    let count = r.random_range(3..80);
    let recv = r.random_range(0.0..0.6);
    let flush = r.random_range(0.0..0.3);
    let mut starting = false;
    let ops: Vec<_> = (0..count)
        .map(|_| {
            let op = if starting && r.random_bool(0.9) {
                starting = false;
                "start"
            } else if r.random_bool(recv) {
                "recv"
            } else if r.random_bool(flush) {
                "flush"
            } else {
                match r.random_range(0..6) {
                    0 => "send",
                    1 => "sendflush",
                    _ => {
                        starting = true;
                        "ready"
                    }
                }
            };
            Top { op: op.into(), reads: vec![], writes: vec![], flush: Ans::Ok(0) }
        })
        .collect();
    let how = r.random_range(0..WRAPS);
    transport(s, Case { seed, how, rx, tx, policy }, ops.into_iter());
}

fn ans(j: &J, scale: usize) -> Ans {
    match j["r"].as_str().expect("r") {
        "ok" => Ans::Ok(j["n"].as_u64().expect("n") as usize * scale),
        "zero" => Ans::Zero,
        "err" => Ans::Err,
        _ => Ans::Pending,
    }
}

/// Tries a behaviour of FramingMC, with every length times `scale`.
fn replay(s: &mut Sink, j: &J, seed: u64) {
    let mut r = SmallRng::seed_from_u64(seed);
    let lens = |k: &str| -> Vec<usize> { j[k].as_array().expect(k).iter().map(|n| n.as_u64().unwrap() as usize).collect() };
    let ops = j["ops"].as_array().expect("ops");
    if j["kind"] == "packet" {
        let scale = *[1, 1, 17, 16384, 20000].get(r.random_range(0..5)).unwrap();
        let frames: Vec<_> = lens("lens").into_iter().map(|l| raw_frame(l * scale, &mut r)).collect();
        let ops: Vec<_> = ops
            .iter()
            .map(|o| match o["op"].as_str() {
                Some("feed") => Pop::Feed(o["n"].as_u64().unwrap() as usize * scale, o["spare"] == true),
                _ => Pop::Next,
            })
            .collect();
        packet(s, seed, &frames, ops.into_iter(), 4 * scale);
        return;
    }
    let scale = *[1, 1, 1024, 1200, 16384].get(r.random_range(0..5)).unwrap();
    let mut messages = |k: &str| -> Vec<Message> { lens(k).into_iter().map(|l| message(l * scale, &mut r)).collect() };
    let (rx, tx) = (messages("lens"), messages("tx"));
    let ops: Vec<_> = ops
        .iter()
        .map(|o| {
            let op = o["op"].as_str().expect("op").to_string();
            let script: Vec<_> = o["script"].as_array().expect("script").iter().map(|a| ans(a, scale)).collect();
            let (reads, writes) = if op == "recv" { (script, vec![]) } else { (vec![], script) };
            Top { op, reads, writes, flush: ans(&o["fl"], 1) }
        })
        .collect();
    let policy = Policy {
        scripted: true,
        reads: VecDeque::new(),
        writes: VecDeque::new(),
        flush: Ans::Ok(0),
        rng: SmallRng::seed_from_u64(seed),
        max_read: 1,
        max_write: 1,
        pending: 0.0,
        fail: 0.0,
        generous: false,
    };
    let how = r.random_range(0..WRAPS);
    transport(s, Case { seed, how, rx, tx, policy }, ops.into_iter());
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: &str| -> String {
        args.iter().position(|a| a == n).map(|i| args[i + 1].clone()).unwrap_or(d.to_string())
    };
    let out = opt("--out", "/dev/stdout");
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let count: u64 = opt("--count", "100").parse().unwrap();
    let mut s = Sink {
        out: BufWriter::new(File::create(&out).expect("out")),
        cur: File::create(format!("{out}.current")).expect("current"),
        seen: BTreeMap::new(),
        traces: 0,
        lines: 0,
    };
    if std::env::var("VERIF_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args[1].as_str() {
        "random" => {
            for i in 0..count {
                let huge = i % 250 == 7;
                let x = seed.wrapping_mul(1_000_003) + i;
                if i % 2 == 0 { random_packet(&mut s, x, huge) } else { random_transport(&mut s, x, huge) }
            }
        }
        "replay" => {
            let f = BufReader::new(File::open(opt("--in", "")).expect("in"));
            for (i, l) in f.lines().enumerate() {
                let l = l.expect("line");
                if l.is_empty() {
                    continue;
                }
                replay(&mut s, &serde_json::from_str(&l).expect("json"), seed.wrapping_mul(7919) + i as u64);
            }
        }
        m => panic!("unknown mode {m}"),
    }
    s.out.flush().expect("flush");
    println!("{}", json!({"traces": s.traces, "lines": s.lines, "seen": s.seen}));
}
