//! The operations of the public client API that the programs use.
use crate::json::cap_json;
pub use crate::vals::value_of;
use crate::vals::{alt, number_of, too_deep, value};
use crate::world::*;
use aldrin::low_level::{ServiceInfo, UnboundReceiver, UnboundSender};
use aldrin::Handle;
use aldrin_core::introspection::Introspectable;
use aldrin_core::{
    tags, BusEvent, BusListenerFilter, BusListenerScope, BusListenerServiceFilter, ChannelCookie,
    ObjectCookie, ObjectId, ObjectUuid, SerializedValue, ServiceCookie, ServiceId, ServiceUuid,
    TypeId, Value,
};
use futures_sink::Sink;
use futures_util::Stream;
use serde_json::{json, Value as J};
use std::future;
use std::pin::Pin;
use std::rc::Rc;

pub const TYPES: usize = 4;

/// Type ids known to the harness; 7001 refers to 7002.
pub fn type_id(n: usize) -> TypeId {
    match n {
        0 => TypeId::compute::<Vec<u32>>(),
        1 => TypeId::compute::<u32>(),
        2 => TypeId::compute::<String>(),
        _ => TypeId::compute::<Option<Vec<u32>>>(),
    }
}

fn register<T: Introspectable + ?Sized>(h: &Handle) -> bool {
    h.register_introspection::<T>().is_ok()
}

/// A value for a number, or one that can't be sent.
fn val(v: u32, deep: bool) -> Value {
    if deep {
        too_deep()
    } else {
        value(v)
    }
}

macro_rules! low_reply {
    ($p:expr, $how:expr, $v:expr, $op:expr) => {
        match $how {
            "Ok" => match alt($op, 5) {
                0 => $p.ok($v),
                1 => $p.ok(&$v),
                2 => $p.ok_as::<tags::Value>(&$v),
                3 => $p.set(Ok::<_, Value>($v)),
                _ => $p.set_as::<tags::Value, tags::Value>(Ok::<_, Value>($v)),
            },
            "Err" => match alt($op, 4) {
                0 => $p.err($v),
                1 => $p.err_as::<tags::Value>(&$v),
                2 => $p.set(Err::<Value, _>($v)),
                _ => $p.set_as::<tags::Value, tags::Value>(Err::<Value, _>($v)),
            },
            "Aborted" => $p.abort(),
            "InvalidFunction" => $p.invalid_function(),
            "InvalidArgs" => $p.invalid_args(),
            _ => {
                drop($p);
                Ok(())
            }
        }
    };
}

macro_rules! high_reply {
    ($p:expr, $how:expr, $v:expr, $op:expr) => {
        match $how {
            "Ok" => match alt($op, 6) {
                0 => $p.ok($v),
                1 => $p.ok(&$v),
                2 => $p.ok_val($v),
                3 => $p.ok_ref(&$v),
                4 => $p.set_val(Ok($v)),
                _ => $p.set_ref(Ok(&$v)),
            },
            "Err" => match alt($op, 6) {
                0 => $p.err($v),
                1 => $p.err_val($v),
                2 => $p.err_ref(&$v),
                3 => $p.set_val(Err($v)),
                4 => $p.set(Err::<Value, _>($v)),
                _ => $p.set_ref(Err(&$v)),
            },
            "Aborted" => $p.abort(),
            "InvalidFunction" => $p.invalid_function(),
            "InvalidArgs" => $p.invalid_args(),
            _ => {
                drop($p);
                Ok(())
            }
        }
    };
}

/// Does the same for whatever form a promise has.
macro_rules! promise {
    ($e:expr, $p:ident => $x:expr) => {
        match $e {
            Ent::Prom($p) => $x,
            Ent::PromT($p) => $x,
            Ent::Call($p) => $x,
            Ent::CallT($p) => $x,
            Ent::Unk($p) => $x,
            _ => panic!(),
        }
    };
}

/// The same for channel ends.
macro_rules! end {
    ($e:expr, $x:ident => $r:expr) => {
        match $e {
            Ent::US($x) => $r,
            Ent::UR($x) => $r,
            Ent::PS($x) => $r,
            Ent::PR($x) => $r,
            Ent::S($x) => $r,
            Ent::R($x) => $r,
            Ent::UST($x) => $r,
            Ent::URT($x) => $r,
            Ent::PST($x) => $r,
            Ent::PRT($x) => $r,
            Ent::ST($x) => $r,
            Ent::RT($x) => $r,
            Ent::RB($x) => $r,
            _ => panic!(),
        }
    };
}

pub fn bus_event(names: &mut crate::names::Names, ev: BusEvent) -> J {
    let o = |names: &mut crate::names::Names, o: ObjectId| {
        json!([names.id(o.uuid.0), names.id(o.cookie.0)])
    };
    let s = |names: &mut crate::names::Names, s: ServiceId| {
        json!([
            names.id(s.object_id.uuid.0),
            names.id(s.object_id.cookie.0),
            names.id(s.uuid.0),
            names.id(s.cookie.0)
        ])
    };
    match ev {
        BusEvent::ObjectCreated(x) => json!({"be":"OC","id":o(names, x)}),
        BusEvent::ObjectDestroyed(x) => json!({"be":"OD","id":o(names, x)}),
        BusEvent::ServiceCreated(x) => json!({"be":"SC","id":s(names, x)}),
        BusEvent::ServiceDestroyed(x) => json!({"be":"SD","id":s(names, x)}),
    }
}

impl World {
    pub fn name_types(&self) {
        let mut n = self.names.borrow_mut();
        for i in 0..TYPES {
            n.fix(7001 + i as i64, type_id(i).0);
        }
    }

    fn uuid(&self, n: i64) -> uuid::Uuid {
        self.names.borrow_mut().uuid(n)
    }

    pub fn object_id(&self, u: i64, ck: i64) -> ObjectId {
        ObjectId::new(ObjectUuid(self.uuid(u)), ObjectCookie(self.uuid(ck)))
    }

    pub fn service_id(&self, ou: i64, ock: i64, su: i64, sck: i64) -> ServiceId {
        ServiceId::new(
            self.object_id(ou, ock),
            ServiceUuid(self.uuid(su)),
            ServiceCookie(self.uuid(sck)),
        )
    }

    // ---- objects and services -------------------------------------------------------------

    pub fn create_object(&mut self, c: i64, u: i64) -> bool {
        let Some(h) = self.handle(c) else {
            return false;
        };
        let op = self.op();
        let uuid = ObjectUuid(self.uuid(u));
        let (store, names) = (self.store(c), self.names.clone());
        self.start(c, op, json!({"k":"createobj","u":u}), async move {
            let res = if alt(op, 2) == 0 {
                h.create_object(uuid).await
            } else {
                aldrin::Object::new(&h, uuid).await
            };
            match res {
                Ok(o) => {
                    let mut r = ret("ok");
                    r["ck"] = json!(names.borrow_mut().id(o.id().cookie.0));
                    store.borrow_mut().insert(op, Ent::Obj(Rc::new(o)));
                    r
                }
                Err(e) => reterr(e),
            }
        });
        true
    }

    fn rc<T>(&self, c: i64, e: i64, f: impl Fn(&Ent) -> Option<Rc<T>>) -> Option<Rc<T>> {
        self.store(c).borrow().get(&e).and_then(f)
    }

    pub fn destroy_object(&mut self, c: i64, e: i64) -> bool {
        let Some(o) = self.rc(c, e, |e| match e {
            Ent::Obj(o) => Some(o.clone()),
            _ => None,
        }) else {
            return false;
        };
        let op = self.op();
        self.start(c, op, json!({"k":"destroyobj","e":e}), async move {
            unit(o.destroy().await)
        });
        true
    }

    pub fn create_service(&mut self, c: i64, e: i64, u: i64, ver: u32, ty: i64) -> bool {
        let Some(o) = self.rc(c, e, |e| match e {
            Ent::Obj(o) => Some(o.clone()),
            _ => None,
        }) else {
            return false;
        };
        let op = self.op();
        let uuid = ServiceUuid(self.uuid(u));
        let mut info = if alt(op, 3) == 0 {
            ServiceInfo::new(ver ^ 1).set_version(ver)
        } else {
            ServiceInfo::new(ver)
        };
        if ty != 0 {
            info = info.set_type_id(TypeId(self.uuid(ty)));
        }
        let (store, names) = (self.store(c), self.names.clone());
        let req = json!({"k":"createsvc","e":e,"u":u,"ver":ver.to_string(),"ty":ty});
        self.start(c, op, req, async move {
            let res = if alt(op, 2) == 0 {
                o.create_service(uuid, info).await
            } else {
                aldrin::low_level::Service::new(&o, uuid, info).await
            };
            match res {
                Ok(s) => {
                    let mut r = ret("ok");
                    r["ck"] = json!(names.borrow_mut().id(s.id().cookie.0));
                    store.borrow_mut().insert(op, Ent::Svc(Rc::new(s)));
                    r
                }
                Err(e) => reterr(e),
            }
        });
        true
    }

    pub fn destroy_service(&mut self, c: i64, e: i64) -> bool {
        let Some(s) = self.rc(c, e, |e| match e {
            Ent::Svc(o) => Some(o.clone()),
            _ => None,
        }) else {
            return false;
        };
        let op = self.op();
        self.start(c, op, json!({"k":"destroysvc","e":e}), async move {
            unit(s.destroy().await)
        });
        true
    }

    pub fn next_call(&mut self, c: i64, e: i64, how: &'static str) -> bool {
        let store = self.store(c);
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        let args = self.args.clone();
        self.start(c, op, json!({"k":"nextcall","e":e,"how":how}), async move {
            let Some(Ent::Svc(rc)) = &mut l.ent else {
                panic!()
            };
            let svc = Rc::get_mut(rc).unwrap();
            let call = if alt(op, 3) == 0 {
                future::poll_fn(|cx| Pin::new(&mut *svc).poll_next(cx)).await
            } else {
                svc.next_call().await
            };
            match call {
                Some(call) => {
                    let mut r = ret("ok");
                    let v = value_of(call.args());
                    r["v"] = json!(v);
                    r["f"] = json!(call.id().to_string());
                    r["ver"] = json!(call.version().map(|v| v.to_string()).unwrap_or("-1".into()));
                    let ent = match how {
                        "bad" => {
                            r["r"] = json!(match call.deserialize_and_cast::<String, u32, u32>() {
                                Ok(_) => "ok".to_owned(),
                                Err(e) => err(e),
                            });
                            return r;
                        }
                        "unk" => Ent::Unk(call.into_unknown_call()),
                        _ => Ent::Call(call).flip(op),
                    };
                    args.borrow_mut().insert(op, v);
                    store.borrow_mut().insert(op, ent);
                    r
                }
                None => ret("none"),
            }
        });
        true
    }

    pub fn emit(&mut self, c: i64, e: i64, ev: u32, deep: bool) -> bool {
        let Some(s) = self.rc(c, e, |e| match e {
            Ent::Svc(o) => Some(o.clone()),
            _ => None,
        }) else {
            return false;
        };
        let op = self.op();
        let v = self.val();
        let ev_s = ev.to_string();
        self.sync(
            c,
            op,
            json!({"k":"emit","e":e,"ev":ev_s,"v":v,"deep":deep}),
        );
        let x = val(v, deep);
        let r = match alt(op, 3) {
            0 => s.emit(ev, x),
            1 => s.emit(ev, &x),
            _ => s.emit_as::<tags::Value>(ev, x),
        };
        self.sync_ret(c, op, unit(r));
        true
    }

    /// Replies to a call. The value is computed from the argument.
    pub fn reply(&mut self, c: i64, e: i64, how: &str, deep: bool) -> bool {
        let arg = self.args.borrow().get(&e).copied().unwrap_or(0);
        let store = self.store(c);
        let Some(l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        let ent = l.consume().flip(op);
        let v = (arg + 1_000_000) as u32;
        let deep = deep && (how == "Ok" || how == "Err");
        self.sync(
            c,
            op,
            json!({"k":"reply","e":e,"how":how,"v":v,"deep":deep}),
        );
        let x = val(v, deep);
        let r = match ent {
            Ent::Prom(p) => low_reply!(p, how, x, op),
            Ent::Call(p) => low_reply!(p, how, x, op),
            Ent::Unk(p) => low_reply!(p, how, x, op),
            Ent::PromT(p) => high_reply!(p, how, x, op),
            Ent::CallT(p) => high_reply!(p, how, x, op),
            _ => panic!(),
        };
        if how != "drop" {
            self.sync_ret(c, op, unit(r));
        }
        true
    }

    pub fn aborted(&mut self, c: i64, e: i64) -> bool {
        let store = self.store(c);
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        l.flip(op);
        self.start(c, op, json!({"k":"aborted","e":e}), async move {
            promise!(l.ent.as_mut().unwrap(), p => p.aborted().await);
            ret("ok")
        });
        true
    }

    pub fn is_aborted(&mut self, c: i64, e: i64) -> bool {
        let store = self.store(c);
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        l.flip(op);
        let a = promise!(l.ent.as_mut().unwrap(), p => p.is_aborted());
        self.sync(c, op, json!({"k":"isaborted","e":e}));
        self.sync_ret(c, op, ret(if a { "yes" } else { "no" }));
        true
    }

    // ---- proxies ---------------------------------------------------------------------------

    pub fn create_proxy(&mut self, c: i64, svc: [i64; 4]) -> bool {
        let Some(h) = self.handle(c) else {
            return false;
        };
        let op = self.op();
        let id = self.service_id(svc[0], svc[1], svc[2], svc[3]);
        let (store, names) = (self.store(c), self.names.clone());
        self.start(c, op, json!({"k":"createproxy","ck":svc[3]}), async move {
            let res = if alt(op, 2) == 0 {
                h.create_proxy(id).await
            } else {
                aldrin::low_level::Proxy::new(&h, id).await
            };
            match res {
                Ok(p) => {
                    let mut r = ret("ok");
                    r["ck"] = json!(names.borrow_mut().id(p.id().cookie.0));
                    r["ver"] = json!(p.version().to_string());
                    r["ty"] = json!(p.type_id().map(|t| names.borrow_mut().id(t.0)).unwrap_or(0));
                    r["sa"] = json!(if p.can_subscribe_all() { "yes" } else { "no" });
                    store.borrow_mut().insert(op, Ent::Px(Rc::new(p)));
                    r
                }
                Err(e) => reterr(e),
            }
        });
        true
    }

    fn px(&self, c: i64, e: i64) -> Option<Rc<aldrin::low_level::Proxy>> {
        self.rc(c, e, |e| match e {
            Ent::Px(o) => Some(o.clone()),
            _ => None,
        })
    }

    pub fn call(&mut self, c: i64, e: i64, f: u32, ver: Option<u32>, deep: bool) -> bool {
        let Some(p) = self.px(c, e) else { return false };
        let op = self.op();
        let v = self.val();
        let ver_s = ver.map(|v| v.to_string()).unwrap_or("-1".into());
        self.sync(
            c,
            op,
            json!({"k":"call","e":e,"f":f.to_string(),"ver":ver_s,"v":v,"deep":deep}),
        );
        let x = val(v, deep);
        let r = match alt(op, 3) {
            0 => p.call(f, x, ver),
            1 => p.call(f, &x, ver),
            _ => p.call_as::<tags::Value>(f, x, ver),
        };
        self.store(c).borrow_mut().insert(op, Ent::Reply(r));
        true
    }

    pub fn await_reply(&mut self, c: i64, e: i64, bad: bool) -> bool {
        let store = self.store(c);
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        l.flip(op);
        if bad {
            l.ent = l.ent.take().map(|e| match e {
                Ent::Reply(p) => Ent::ReplyB(p.cast()),
                Ent::ReplyT(p) => Ent::ReplyB(p.cast()),
                _ => panic!(),
            });
        }
        self.start(c, op, json!({"k":"awaitreply","e":e,"bad":bad}), async move {
            let number = |r: Result<i64, i64>| match r {
                Ok(v) => {
                    let mut r = ret("ok");
                    r["v"] = json!(v);
                    r
                }
                Err(v) => {
                    let mut r = ret("err");
                    r["v"] = json!(v);
                    r
                }
            };
            let r = match l.ent.as_mut().unwrap() {
                Ent::Reply(p) => match p.await {
                    Ok(rep) => number(match alt(op, 4) {
                        0 => match rep.deserialize::<Value, Value>() {
                            Ok(r) => r
                                .map(|v| number_of(&v))
                                .map_err(|v| number_of(&v)),
                            Err(_) => Ok(-1),
                        },
                        1 => match rep.deserialize_and_cast::<Value, Value>() {
                            Ok(r) => r
                                .into_args()
                                .map(|v| number_of(&v))
                                .map_err(|v| number_of(&v)),
                            Err(_) => Ok(-1),
                        },
                        2 => rep
                            .into_args()
                            .map(|v| value_of(&v))
                            .map_err(|v| value_of(&v)),
                        _ => rep.args().map(value_of).map_err(value_of),
                    }),
                    Err(e) => reterr(e),
                },
                Ent::ReplyT(p) => match p.await {
                    Ok(rep) => number(rep.args().map(number_of).map_err(number_of)),
                    Err(e) => reterr(e),
                },
                Ent::ReplyB(p) => match p.await {
                    Ok(_) => number(Ok(-1)),
                    Err(e) => reterr(e),
                },
                _ => panic!(),
            };
            l.consume();
            r
        });
        true
    }

    pub fn sub(&mut self, c: i64, e: i64, how: &'static str, ev: u32) -> bool {
        let Some(p) = self.px(c, e) else { return false };
        let op = self.op();
        self.start(
            c,
            op,
            json!({"k":how,"e":e,"ev":ev.to_string()}),
            async move {
                unit(match how {
                    "sub" => p.subscribe(ev).await,
                    "unsub" => p.unsubscribe(ev).await,
                    "suball" => p.subscribe_all().await,
                    _ => p.unsubscribe_all().await,
                })
            },
        );
        true
    }

    pub fn next_event(&mut self, c: i64, e: i64) -> bool {
        let store = self.store(c);
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        self.start(c, op, json!({"k":"nextevent","e":e}), async move {
            let Some(Ent::Px(rc)) = &mut l.ent else {
                panic!()
            };
            let px = Rc::get_mut(rc).unwrap();
            let ev = if alt(op, 3) == 0 {
                future::poll_fn(|cx| Pin::new(&mut *px).poll_next(cx)).await
            } else {
                px.next_event().await
            };
            match ev {
                Some(ev) => {
                    let mut r = ret("ok");
                    r["v"] = json!(value_of(ev.args()));
                    r["f"] = json!(ev.id().to_string());
                    r
                }
                None => ret("none"),
            }
        });
        true
    }

    // ---- channels --------------------------------------------------------------------------

    /// Creates a channel. The claimed end gets the id of the operation, the other one the next.
    pub fn create_channel(&mut self, c: i64, end: &'static str, cap: u32) -> bool {
        let Some(h) = self.handle(c) else {
            return false;
        };
        let op = self.op();
        let (store, names) = (self.store(c), self.names.clone());
        let req = json!({"k":"createchan","end":end,"cap":cap_json(cap)});
        self.start(c, op, req, async move {
            let b = h.create_low_level_channel();
            let t = h.create_channel::<Value>();
            let (a, b) = if end == "S" && alt(op, 2) == 0 {
                match t.claim_sender().await {
                    Ok((s, r)) => (Ent::PST(s), Ent::URT(r)),
                    Err(e) => return reterr(e),
                }
            } else if alt(op, 2) == 0 {
                match t.claim_receiver(cap).await {
                    Ok((s, r)) => (Ent::PRT(r), Ent::UST(s)),
                    Err(e) => return reterr(e),
                }
            } else if end == "S" {
                match b.claim_sender().await {
                    Ok((s, r)) => (Ent::PS(s), Ent::UR(r)),
                    Err(e) => return reterr(e),
                }
            } else {
                match b.claim_receiver(cap).await {
                    Ok((s, r)) => (Ent::PR(r), Ent::US(s)),
                    Err(e) => return reterr(e),
                }
            };
            let mut r = ret("ok");
            let ck = match &a {
                Ent::PS(s) => s.cookie(),
                Ent::PR(r) => r.cookie(),
                Ent::PST(s) => s.cookie(),
                Ent::PRT(r) => r.cookie(),
                _ => unreachable!(),
            };
            r["ck"] = json!(names.borrow_mut().id(ck.0));
            store.borrow_mut().insert(op, a);
            store.borrow_mut().insert(op + 1, b);
            r
        });
        true
    }

    /// Returns the end and the cookie.
    pub fn unbind(&mut self, c: i64, e: i64) -> Option<(&'static str, i64)> {
        let store = self.store(c);
        let l = Lease::take(&store, e)?;
        let op = self.op();
        self.sync(c, op, json!({"k":"unbind","e":e}));
        let (end, ck) = match l.consume().flip(op) {
            Ent::US(s) => ("S", s.unbind().cookie()),
            Ent::UR(r) => ("R", r.unbind().cookie()),
            Ent::UST(s) => ("S", s.unbind().cookie()),
            Ent::URT(r) => ("R", r.unbind().cookie()),
            _ => panic!(),
        };
        let n = self.names.borrow_mut().id(ck.0);
        Some((end, n))
    }

    pub fn bind(&mut self, c: i64, end: &'static str, ck: i64) -> bool {
        let Some(h) = self.handle(c) else {
            return false;
        };
        let op = self.op();
        let cookie = ChannelCookie(self.uuid(ck));
        self.sync(c, op, json!({"k":"bind","end":end,"ck":ck}));
        // Ends travel in values, too.
        let e = match (end, alt(op, 3)) {
            ("S", 0) => Ent::US(UnboundSender::new(cookie).bind(h)),
            ("S", 1) => Ent::UST(aldrin::UnboundSender::new(cookie).bind(h)),
            ("S", _) => {
                let s = aldrin::UnboundSender::<Value>::new(cookie);
                let v = SerializedValue::serialize(s).unwrap();
                Ent::UST(
                    v.deserialize::<aldrin::UnboundSender<Value>>()
                        .unwrap()
                        .bind(h),
                )
            }
            (_, 0) => Ent::UR(UnboundReceiver::new(cookie).bind(h)),
            (_, 1) => Ent::URT(aldrin::UnboundReceiver::new(cookie).bind(h)),
            _ => {
                let r = aldrin::UnboundReceiver::<Value>::new(cookie);
                let v = SerializedValue::serialize(&r).unwrap();
                Ent::URT(
                    v.deserialize::<aldrin::UnboundReceiver<Value>>()
                        .unwrap()
                        .bind(h),
                )
            }
        };
        self.store(c).borrow_mut().insert(op, e);
        true
    }

    pub fn claim(&mut self, c: i64, e: i64, cap: u32) -> bool {
        let store = self.store(c);
        let Some(l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        let ent = l.consume().flip(op);
        self.start(
            c,
            op,
            json!({"k":"claim","e":e,"cap":cap_json(cap)}),
            async move {
                let res = match ent {
                    Ent::US(s) => s.claim().await.map(Ent::S),
                    Ent::UR(r) => r.claim(cap).await.map(Ent::R),
                    Ent::UST(s) => s.claim().await.map(Ent::ST),
                    Ent::URT(r) => r.claim(cap).await.map(Ent::RT),
                    _ => panic!(),
                };
                match res {
                    Ok(e) => {
                        store.borrow_mut().insert(op, e);
                        ret("ok")
                    }
                    Err(e) => reterr(e),
                }
            },
        );
        true
    }

    pub fn establish(&mut self, c: i64, e: i64) -> bool {
        let store = self.store(c);
        let Some(l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        let ent = l.consume().flip(op);
        self.start(c, op, json!({"k":"establish","e":e}), async move {
            let res = match ent {
                Ent::PS(s) => s.establish().await.map(Ent::S),
                Ent::PR(r) => r.establish().await.map(Ent::R),
                Ent::PST(s) => s.establish().await.map(Ent::ST),
                Ent::PRT(r) => r.establish().await.map(Ent::RT),
                _ => panic!(),
            };
            match res {
                Ok(e) => {
                    store.borrow_mut().insert(op, e);
                    ret("ok")
                }
                Err(e) => reterr(e),
            }
        });
        true
    }

    pub fn wait_established(&mut self, c: i64, e: i64) -> bool {
        let store = self.store(c);
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        l.flip(op);
        self.start(c, op, json!({"k":"waitest","e":e}), async move {
            match l.ent.as_mut().unwrap() {
                Ent::PS(s) => s.wait_established().await,
                Ent::PR(r) => r.wait_established().await,
                Ent::PST(s) => s.wait_established().await,
                Ent::PRT(r) => r.wait_established().await,
                _ => panic!(),
            }
            ret("ok")
        });
        true
    }

    pub fn close(&mut self, c: i64, e: i64) -> bool {
        let store = self.store(c);
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        l.flip(op);
        self.start(c, op, json!({"k":"close","e":e}), async move {
            let ent = l.ent.as_mut().unwrap();
            unit(match ent {
                Ent::S(s) if alt(op, 4) == 2 => {
                    future::poll_fn(|cx| Sink::poll_close(Pin::new(&mut *s), cx)).await
                }
                Ent::ST(s) if alt(op, 4) == 1 => {
                    future::poll_fn(|cx| Sink::<Value>::poll_close(Pin::new(&mut *s), cx)).await
                }
                e => end!(e, x => x.close().await),
            })
        });
        true
    }

    pub fn send_item(&mut self, c: i64, e: i64, deep: bool) -> bool {
        let store = self.store(c);
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        let v = self.val();
        l.flip(op);
        let req = json!({"k":"send","e":e,"v":v,"deep":deep});
        self.start(c, op, req, async move {
            let x = val(v, deep);
            let r = match l.ent.as_mut().unwrap() {
                Ent::S(s) => match alt(op / 2, 4) {
                    0 if !deep => {
                        let v = SerializedValue::serialize(x).unwrap();
                        s.send_serialized(v).await
                    }
                    1 if !deep => {
                        let v = SerializedValue::serialize(x).unwrap();
                        let mut s = Pin::new(s);
                        match future::poll_fn(|cx| Sink::poll_ready(s.as_mut(), cx)).await {
                            Ok(()) => match Sink::start_send(s.as_mut(), v) {
                                Ok(()) => {
                                    future::poll_fn(|cx| Sink::poll_flush(s.as_mut(), cx)).await
                                }
                                Err(e) => Err(e),
                            },
                            Err(e) => Err(e),
                        }
                    }
                    2 => s.send_item_as::<tags::Value>(&x).await,
                    _ => s.send_item(x).await,
                },
                Ent::ST(s) => match alt(op / 2, 5) {
                    0 => s.send_item(&x).await,
                    1 => s.send_item_ref(&x).await,
                    2 => {
                        let mut s = Pin::new(s);
                        match future::poll_fn(|cx| Sink::<Value>::poll_ready(s.as_mut(), cx)).await {
                            Ok(()) => match Sink::<Value>::start_send(s.as_mut(), x) {
                                Ok(()) => {
                                    future::poll_fn(|cx| Sink::<Value>::poll_flush(s.as_mut(), cx))
                                        .await
                                }
                                Err(e) => Err(e),
                            },
                            Err(e) => Err(e),
                        }
                    }
                    3 => match s.send_ready().await {
                        Ok(()) => s.start_send_item_val(x),
                        Err(e) => Err(e),
                    },
                    _ => s.send_item_val(x).await,
                },
                _ => panic!(),
            };
            unit(r)
        });
        true
    }

    pub fn receiver_closed(&mut self, c: i64, e: i64) -> bool {
        let store = self.store(c);
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        l.flip(op);
        self.start(c, op, json!({"k":"rclosed","e":e}), async move {
            match l.ent.as_mut().unwrap() {
                Ent::S(s) => s.receiver_closed().await,
                Ent::ST(s) => s.receiver_closed().await,
                _ => panic!(),
            }
            ret("ok")
        });
        true
    }

    pub fn next_item(&mut self, c: i64, e: i64, bad: bool) -> bool {
        let store = self.store(c);
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        l.flip(op);
        if bad {
            l.ent = l.ent.take().map(|e| match e {
                Ent::R(p) => Ent::RB(p.cast()),
                Ent::RT(p) => Ent::RB(p.cast()),
                _ => panic!(),
            });
        }
        self.start(c, op, json!({"k":"nextitem","e":e,"bad":bad}), async move {
            let number = |v: i64| {
                let mut r = ret("ok");
                r["v"] = json!(v);
                r
            };
            match l.ent.as_mut().unwrap() {
                Ent::R(x) => match alt(op / 2, 3) {
                    0 => match future::poll_fn(|cx| Pin::new(&mut *x).poll_next(cx)).await {
                        Some(v) => number(value_of(&v)),
                        None => ret("none"),
                    },
                    1 => match x.next_item::<Value>().await {
                        Ok(Some(v)) => number(number_of(&v)),
                        Ok(None) => ret("none"),
                        Err(e) => reterr(e),
                    },
                    _ => match x.next_serialized().await {
                        Some(v) => number(value_of(&v)),
                        None => ret("none"),
                    },
                },
                Ent::RT(x) => match alt(op / 2, 2) {
                    0 => match future::poll_fn(|cx| Pin::new(&mut *x).poll_next(cx)).await {
                        Some(Ok(v)) => number(number_of(&v)),
                        None => ret("none"),
                        Some(Err(e)) => reterr(e),
                    },
                    _ => match x.next_item().await {
                        Ok(Some(v)) => number(number_of(&v)),
                        Ok(None) => ret("none"),
                        Err(e) => reterr(e),
                    },
                },
                Ent::RB(x) => match x.next_item().await {
                    Ok(Some(_)) => number(-1),
                    Ok(None) => ret("none"),
                    Err(e) => reterr(e),
                },
                _ => panic!(),
            }
        });
        true
    }

    // ---- bus listeners ---------------------------------------------------------------------

    pub fn create_listener(&mut self, c: i64) -> bool {
        let Some(h) = self.handle(c) else {
            return false;
        };
        let op = self.op();
        let store = self.store(c);
        self.start(c, op, json!({"k":"newbus"}), async move {
            let res = if alt(op, 2) == 0 {
                h.create_bus_listener().await
            } else {
                aldrin::BusListener::new(&h).await
            };
            match res {
                Ok(b) => {
                    store.borrow_mut().insert(op, Ent::Bus(b));
                    ret("ok")
                }
                Err(e) => reterr(e),
            }
        });
        true
    }

    pub fn filter(&self, t: &str, o: i64, s: i64) -> BusListenerFilter {
        let obj = (o != 0).then(|| ObjectUuid(self.uuid(o)));
        let svc = (s != 0).then(|| ServiceUuid(self.uuid(s)));
        if t == "O" {
            BusListenerFilter::Object(obj)
        } else {
            BusListenerFilter::Service(BusListenerServiceFilter {
                object: obj,
                service: svc,
            })
        }
    }

    pub fn listener_filter(&mut self, c: i64, e: i64, how: &str, flt: J) -> bool {
        let store = self.store(c);
        let f = self.filter(
            flt["t"].as_str().unwrap(),
            flt["o"].as_i64().unwrap(),
            flt["s"].as_i64().unwrap(),
        );
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let Some(Ent::Bus(b)) = &mut l.ent else {
            panic!()
        };
        let op = self.op();
        self.sync(c, op, json!({"k":how,"e":e,"flt":flt}));
        let r = match how {
            "addf" => b.add_filter(f),
            "rmf" => b.remove_filter(f),
            _ => b.clear_filters(),
        };
        self.sync_ret(c, op, unit(r));
        true
    }

    pub fn listener(&mut self, c: i64, e: i64, how: &'static str, scope: &str) -> bool {
        let store = self.store(c);
        let Some(mut l) = Lease::take(&store, e) else {
            return false;
        };
        let op = self.op();
        let sc = match scope {
            "Current" => BusListenerScope::Current,
            "New" => BusListenerScope::New,
            _ => BusListenerScope::All,
        };
        let names = self.names.clone();
        let req = json!({"k":how,"e":e,"scope":scope});
        self.start(c, op, req, async move {
            let Some(Ent::Bus(b)) = &mut l.ent else {
                panic!()
            };
            match how {
                "startbus" => unit(b.start(sc).await),
                "stopbus" => unit(b.stop().await),
                "destroybus" => unit(b.destroy().await),
                _ => match if alt(op, 3) == 0 {
                    future::poll_fn(|cx| Pin::new(&mut *b).poll_next(cx)).await
                } else {
                    b.next_event().await
                } {
                    Some(ev) => {
                        let j = bus_event(&mut names.borrow_mut(), ev);
                        let mut r = ret("ok");
                        r["be"] = j;
                        r
                    }
                    None => ret("none"),
                },
            }
        });
        true
    }

    pub fn listener_finished(&mut self, c: i64, e: i64) -> bool {
        let store = self.store(c);
        let Some(l) = Lease::take(&store, e) else {
            return false;
        };
        let Some(Ent::Bus(b)) = &l.ent else { panic!() };
        let op = self.op();
        self.sync(c, op, json!({"k":"busfinished","e":e}));
        self.sync_ret(c, op, ret(if b.is_finished() { "yes" } else { "no" }));
        true
    }

    // ---- the rest --------------------------------------------------------------------------

    pub fn sync_op(&mut self, c: i64, how: &'static str) -> bool {
        let Some(h) = self.handle(c) else {
            return false;
        };
        let op = self.op();
        self.start(c, op, json!({"k":how}), async move {
            match how {
                "sync" => unit(h.sync_client().await.map(|_| ())),
                "syncb" => unit(h.sync_broker().await.map(|_| ())),
                _ => match h.version().await {
                    Ok(v) => {
                        let mut r = ret("ok");
                        r["v"] = json!(v.minor());
                        r
                    }
                    Err(e) => reterr(e),
                },
            }
        });
        true
    }

    pub fn intro(&mut self, c: i64, how: &'static str, n: usize) -> bool {
        let Some(h) = self.handle(c) else {
            return false;
        };
        let op = self.op();
        let ty = 7001 + n as i64;
        match how {
            "regintro" => {
                self.sync(c, op, json!({"k":how,"ty":ty}));
                let ok = match n {
                    0 => register::<Vec<u32>>(&h),
                    1 => register::<u32>(&h),
                    2 => register::<String>(&h),
                    _ => register::<Option<Vec<u32>>>(&h),
                };
                self.sync_ret(c, op, ret(if ok { "ok" } else { "Shutdown" }));
            }
            "submit" => {
                self.sync(c, op, json!({"k":how}));
                let r = h.submit_introspection();
                self.sync_ret(c, op, unit(r));
            }
            _ => {
                let names = self.names.clone();
                self.start(c, op, json!({"k":"query","ty":ty}), async move {
                    match h.query_introspection(type_id(n)).await {
                        Ok(Some(i)) => {
                            let mut r = ret("ok");
                            r["ty"] = json!(names.borrow_mut().id(i.type_id().0));
                            r
                        }
                        Ok(None) => ret("none"),
                        Err(e) => reterr(e),
                    }
                });
            }
        }
        true
    }

    /// Drops an entity that nobody uses at the moment.
    pub fn drop_ent(&mut self, c: i64, e: i64) -> bool {
        let store = self.store(c);
        let Some(l) = Lease::take(&store, e) else {
            return false;
        };
        let ent = l.consume();
        let op = self.op();
        self.sync(c, op, json!({"k":"drop","e":e,"what":ent.kind()}));
        match ent.flip(op) {
            Ent::Reply(r) if alt(op / 2, 2) == 0 => r.abort(),
            Ent::ReplyT(r) if alt(op / 2, 2) == 0 => r.abort(),
            e => drop(e),
        }
        true
    }

    pub fn shutdown(&mut self, c: i64) -> bool {
        let Some(h) = self.handle(c) else {
            return false;
        };
        let op = self.op();
        self.sync(c, op, json!({"k":"shutdown"}));
        h.shutdown();
        true
    }

    /// Drops the last handle; all entities must be gone.
    pub fn gone(&mut self, c: i64) {
        let op = self.op();
        self.sync(c, op, json!({"k":"gone"}));
        self.peers.get_mut(&c).unwrap().handle = None;
    }
}
