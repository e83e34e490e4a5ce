//! A tiny single-threaded world: one broker, raw message-level peers and real clients.
#![allow(dead_code)]
use aldrin_broker::{Broker, BrokerHandle};
use aldrin_core::channel::{self, Unbounded};
use aldrin_core::message::*;
use aldrin_core::transport::AsyncTransport;
use aldrin_core::*;
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

type Task = (Pin<Box<dyn Future<Output = ()>>>, Arc<Flag>);

pub struct World {
    tasks: Vec<Option<Task>>,
    pub handle: BrokerHandle,
    pub panicked: bool,
    pub broker: usize,
}

pub struct Peer {
    pub t: Option<Unbounded>,
    pub task: usize,
}

impl World {
    pub fn new() -> Self {
        let broker = Broker::new();
        let handle = broker.handle().clone();
        let mut w = World { tasks: vec![], handle, panicked: false, broker: 0 };
        w.broker = w.spawn(broker.run());
        w.run();
        w
    }

    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'static) -> usize {
        self.tasks.push(Some((Box::pin(f), Arc::new(Flag(AtomicBool::new(true))))));
        self.tasks.len() - 1
    }

    pub fn alive(&self, task: usize) -> bool {
        self.tasks[task].is_some()
    }

    pub fn kill(&mut self, task: usize) {
        self.tasks[task] = None;
    }

    /// Runs everything until nothing can make progress.
    pub fn run(&mut self) {
        for _ in 0..100_000 {
            let mut any = false;
            for slot in &mut self.tasks {
                let Some((fut, flag)) = slot else { continue };
                if !flag.0.swap(false, Ordering::SeqCst) {
                    continue;
                }
                any = true;
                let w = Waker::from(flag.clone());
                let r = catch_unwind(AssertUnwindSafe(|| {
                    fut.as_mut().poll(&mut Context::from_waker(&w))
                }));
                match r {
                    Ok(Poll::Pending) => {}
                    Ok(Poll::Ready(())) => *slot = None,
                    Err(_) => {
                        self.panicked = true;
                        if let Some(t) = slot.take() {
                            let _ = catch_unwind(AssertUnwindSafe(|| drop(t)));
                        }
                    }
                }
            }
            if !any {
                return;
            }
        }
        panic!("does not come to rest");
    }

    /// Runs until the future is done; None if it never is.
    pub fn wait<T: 'static>(&mut self, f: impl Future<Output = T> + 'static) -> Option<T> {
        let res = Rc::new(RefCell::new(None));
        let r = res.clone();
        self.spawn(async move { *r.borrow_mut() = Some(f.await) });
        self.run();
        let x = res.borrow_mut().take();
        x
    }

    pub fn connect(&mut self, minor: u32) -> Peer {
        let (a, b) = channel::unbounded();
        let mut bh = self.handle.clone();
        let task = self.spawn(async move {
            if let Ok(c) = bh.connect(b).await {
                drop(bh);
                let _ = c.run().await;
            }
        });
        let mut p = Peer { t: Some(a), task };
        if minor == 14 {
            let value = SerializedValue::serialize(()).unwrap();
            p.send(Connect { version: 14, value });
        } else {
            let value = SerializedValue::serialize(ConnectData::new()).unwrap();
            p.send(Connect2 { major_version: 1, minor_version: minor, value });
        }
        self.run();
        assert_eq!(p.recv().len(), 1);
        p
    }

    /// Sends a message and returns everything the peer received until the system was quiet.
    pub fn ask(&mut self, p: &mut Peer, m: impl Into<Message>) -> Vec<Message> {
        p.send(m);
        self.run();
        p.recv()
    }

    pub fn object(&mut self, p: &mut Peer, uuid: ObjectUuid) -> ObjectCookie {
        match &self.ask(p, CreateObject { serial: 900, uuid })[0] {
            Message::CreateObjectReply(r) => match r.result {
                CreateObjectResult::Ok(c) => c,
                _ => panic!("{r:?}"),
            },
            m => panic!("{m:?}"),
        }
    }

    pub fn service(&mut self, p: &mut Peer, object_cookie: ObjectCookie, uuid: ServiceUuid) -> ServiceCookie {
        let m = CreateService { serial: 901, object_cookie, uuid, version: 7 };
        match &self.ask(p, m)[0] {
            Message::CreateServiceReply(r) => match r.result {
                CreateServiceResult::Ok(c) => c,
                _ => panic!("{r:?}"),
            },
            m => panic!("{m:?}"),
        }
    }

    pub fn service2(&mut self, p: &mut Peer, object_cookie: ObjectCookie, uuid: ServiceUuid) -> ServiceCookie {
        let info = ServiceInfo::new(7).set_subscribe_all(true);
        let value = SerializedValue::serialize(info).unwrap();
        let m = CreateService2 { serial: 901, object_cookie, uuid, value };
        match &self.ask(p, m)[0] {
            Message::CreateServiceReply(r) => match r.result {
                CreateServiceResult::Ok(c) => c,
                _ => panic!("{r:?}"),
            },
            m => panic!("{m:?}"),
        }
    }
}

impl Peer {
    pub fn send(&mut self, m: impl Into<Message>) {
        let t = Pin::new(self.t.as_mut().unwrap());
        let _ = t.send_start(m.into());
    }

    pub fn recv(&mut self) -> Vec<Message> {
        let mut res = vec![];
        while let Some(t) = self.t.as_mut() {
            let mut cx = Context::from_waker(Waker::noop());
            match Pin::new(t).receive_poll(&mut cx) {
                Poll::Ready(Ok(m)) => res.push(m),
                _ => break,
            }
        }
        res
    }

    /// The connection is gone without goodbye.
    pub fn vanish(&mut self) {
        self.t = None;
    }
}

pub fn val(v: u32) -> SerializedValue {
    SerializedValue::serialize(v).unwrap()
}
