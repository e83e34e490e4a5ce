//! Conversion between protocol messages and the vocabulary of the specification.
use crate::names::Names;
use crate::wire::{put_varint, V};
use aldrin_core::message::*;
use aldrin_core::*;
use bytes::BytesMut;
use serde_json::{json, Value as J};

/// Opaque value with exactly these bytes.
pub fn raw_value(bytes: &[u8]) -> SerializedValue {
    let mut buf = Vec::new();
    let len = 9 + bytes.len() + 16;
    buf.extend((len as u32).to_le_bytes());
    buf.push(u8::from(MessageKind::SendItem));
    buf.extend((bytes.len() as u32).to_le_bytes());
    buf.extend_from_slice(bytes);
    buf.extend([0; 16]);
    match Message::deserialize_message(BytesMut::from(&buf[..])) {
        Ok(Message::SendItem(m)) => m.value,
        other => panic!("cannot build value: {other:?}"),
    }
}

pub fn cap_json(c: u32) -> J {
    json!([c >> 16, c & 0xffff])
}

pub fn cap_of(j: &J) -> u32 {
    let hi = j[0].as_u64().unwrap() as u32;
    let lo = j[1].as_u64().unwrap() as u32;
    (hi << 16) | lo
}

fn s(n: u32) -> J {
    J::String(n.to_string())
}

fn so(n: Option<u32>) -> J {
    J::String(n.map(|n| n.to_string()).unwrap_or("-1".into()))
}

/// Service info as seen by the harness' own decoder.
pub fn info_json(n: &mut Names, raw: &[u8]) -> J {
    let bad = json!({"ok": false, "v": "-1", "sa": "none", "ty": 0});
    let Ok((V::Struct(fs), _)) = V::decode(raw) else {
        return bad;
    };
    let mut ver = None;
    let mut ty = 0;
    let mut sa = "none";
    for (id, v) in fs {
        match (id, v) {
            (0, V::U32(v)) => ver = Some(v),
            (0, _) => return bad,
            (1, V::None) => ty = 0,
            (1, V::Some(b)) => match *b {
                V::Uuid(u) => ty = n.id(uuid::Uuid::from_bytes(u)),
                _ => return bad,
            },
            (1, _) => return bad,
            (2, V::None) => sa = "none",
            (2, V::Some(b)) => match *b {
                V::Bool(0) => sa = "no",
                V::Bool(_) => sa = "yes",
                _ => return bad,
            },
            (2, _) => return bad,
            _ => {}
        }
    }
    match ver {
        Some(v) => json!({"ok": true, "v": v.to_string(), "sa": sa, "ty": ty}),
        None => bad,
    }
}

pub fn info_bytes(n: &mut Names, j: &J, two: bool) -> Vec<u8> {
    let mut fs: Vec<(u32, V)> = Vec::new();
    if !j["ok"].as_bool().unwrap() {
        // no version
        fs.push((1, V::None));
    } else {
        fs.push((0, V::U32(j["v"].as_str().unwrap().parse().unwrap())));
        let ty = j["ty"].as_i64().unwrap();
        if ty != 0 {
            let u = n.uuid(ty);
            fs.push((1, V::Some(Box::new(V::Uuid(*u.as_bytes())))));
        }
        match j["sa"].as_str().unwrap() {
            "yes" => fs.push((2, V::Some(Box::new(V::Bool(1))))),
            "no" => fs.push((2, V::Some(Box::new(V::Bool(0))))),
            _ => {}
        }
    }
    let mut rng = <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(1);
    V::Struct(fs).encode(
        if two { crate::wire::Enc::V2 } else { crate::wire::Enc::V1 },
        &mut rng,
    )
}

fn types_json(n: &mut Names, raw: &[u8]) -> J {
    match V::decode(raw) {
        Ok((V::Set(9, ks), _)) => {
            let ids: Vec<i64> = ks
                .iter()
                .map(|k| match k {
                    crate::wire::K::Id(b) => n.id(uuid::Uuid::from_bytes(*b)),
                    _ => unreachable!(),
                })
                .collect();
            json!({"ok": true, "types": ids})
        }
        _ => json!({"ok": false, "types": []}),
    }
}

fn p(n: &mut Names, v: &SerializedValue) -> J {
    n.payload(v)
}

fn end(e: ChannelEnd) -> &'static str {
    match e {
        ChannelEnd::Sender => "S",
        ChannelEnd::Receiver => "R",
    }
}

fn endc(e: ChannelEndWithCapacity) -> (&'static str, J) {
    match e {
        ChannelEndWithCapacity::Sender => ("S", cap_json(0)),
        ChannelEndWithCapacity::Receiver(c) => ("R", cap_json(c)),
    }
}

fn flt(n: &mut Names, f: BusListenerFilter) -> J {
    match f {
        BusListenerFilter::Object(o) => {
            json!({"t": "O", "o": o.map(|o| n.id(o.0)).unwrap_or(0), "s": 0})
        }
        BusListenerFilter::Service(f) => json!({
            "t": "S",
            "o": f.object.map(|o| n.id(o.0)).unwrap_or(0),
            "s": f.service.map(|s| n.id(s.0)).unwrap_or(0),
        }),
    }
}

/// Message to json.
pub fn to_json(n: &mut Names, m: &Message) -> J {
    let none = json!({"v": 0, "w": 0, "bad": false});
    match m {
        Message::Connect(m) => json!({"k":"Connect","v":s(m.version)}),
        Message::ConnectReply(m) => match m {
            ConnectReply::Ok(_) => json!({"k":"ConnectReply","r":"Ok","v":"-1"}),
            ConnectReply::IncompatibleVersion(v) => {
                json!({"k":"ConnectReply","r":"IncompatibleVersion","v":s(*v)})
            }
            ConnectReply::Rejected(_) => json!({"k":"ConnectReply","r":"Rejected","v":"-1"}),
        },
        Message::Connect2(m) => {
            json!({"k":"Connect2","maj":s(m.major_version),"min":s(m.minor_version)})
        }
        Message::ConnectReply2(m) => {
            let w = p(n, &m.value)["w"].clone();
            match m.result {
                ConnectResult::Ok(v) => json!({"k":"ConnectReply2","r":"Ok","v":s(v),"w":w}),
                ConnectResult::Rejected => {
                    json!({"k":"ConnectReply2","r":"Rejected","v":"-1","w":w})
                }
                ConnectResult::IncompatibleVersion => {
                    json!({"k":"ConnectReply2","r":"IncompatibleVersion","v":"-1","w":w})
                }
            }
        }
        Message::Shutdown(_) => json!({"k":"Shutdown"}),
        Message::CreateObject(m) => json!({"k":"CreateObject","s":s(m.serial),"u":n.id(m.uuid.0)}),
        Message::CreateObjectReply(m) => match m.result {
            CreateObjectResult::Ok(c) => {
                json!({"k":"CreateObjectReply","s":s(m.serial),"r":"Ok","ck":n.id(c.0)})
            }
            CreateObjectResult::DuplicateObject => {
                json!({"k":"CreateObjectReply","s":s(m.serial),"r":"DuplicateObject","ck":0})
            }
        },
        Message::DestroyObject(m) => {
            json!({"k":"DestroyObject","s":s(m.serial),"ck":n.id(m.cookie.0)})
        }
        Message::DestroyObjectReply(m) => {
            json!({"k":"DestroyObjectReply","s":s(m.serial),"r":format!("{:?}",m.result)})
        }
        Message::CreateService(m) => json!({"k":"CreateService","s":s(m.serial),
            "ock":n.id(m.object_cookie.0),"u":n.id(m.uuid.0),"v":s(m.version)}),
        Message::CreateService2(m) => {
            let info = info_json(n, &m.value);
            json!({"k":"CreateService2","s":s(m.serial),
            "ock":n.id(m.object_cookie.0),"u":n.id(m.uuid.0),"info":info})
        }
        Message::CreateServiceReply(m) => {
            let (r, ck) = match m.result {
                CreateServiceResult::Ok(c) => ("Ok", n.id(c.0)),
                CreateServiceResult::DuplicateService => ("DuplicateService", 0),
                CreateServiceResult::InvalidObject => ("InvalidObject", 0),
                CreateServiceResult::ForeignObject => ("ForeignObject", 0),
            };
            json!({"k":"CreateServiceReply","s":s(m.serial),"r":r,"ck":ck})
        }
        Message::DestroyService(m) => {
            json!({"k":"DestroyService","s":s(m.serial),"ck":n.id(m.cookie.0)})
        }
        Message::DestroyServiceReply(m) => {
            json!({"k":"DestroyServiceReply","s":s(m.serial),"r":format!("{:?}",m.result)})
        }
        Message::CallFunction(m) => json!({"k":"CallFunction","s":s(m.serial),
            "ck":n.id(m.service_cookie.0),"f":s(m.function),"p":p(n,&m.value)}),
        Message::CallFunction2(m) => json!({"k":"CallFunction2","s":s(m.serial),
            "ck":n.id(m.service_cookie.0),"f":s(m.function),"v":so(m.version),"p":p(n,&m.value)}),
        Message::CallFunctionReply(m) => {
            let (r, pl) = match &m.result {
                CallFunctionResult::Ok(v) => ("Ok", p(n, v)),
                CallFunctionResult::Err(v) => ("Err", p(n, v)),
                CallFunctionResult::Aborted => ("Aborted", none),
                CallFunctionResult::InvalidService => ("InvalidService", none),
                CallFunctionResult::InvalidFunction => ("InvalidFunction", none),
                CallFunctionResult::InvalidArgs => ("InvalidArgs", none),
            };
            json!({"k":"CallFunctionReply","s":s(m.serial),"r":r,"p":pl})
        }
        Message::AbortFunctionCall(m) => json!({"k":"AbortFunctionCall","s":s(m.serial)}),
        Message::SubscribeEvent(m) => json!({"k":"SubscribeEvent","s":so(m.serial),
            "ck":n.id(m.service_cookie.0),"ev":s(m.event)}),
        Message::SubscribeEventReply(m) => {
            json!({"k":"SubscribeEventReply","s":s(m.serial),"r":format!("{:?}",m.result)})
        }
        Message::UnsubscribeEvent(m) => json!({"k":"UnsubscribeEvent",
            "ck":n.id(m.service_cookie.0),"ev":s(m.event)}),
        Message::EmitEvent(m) => json!({"k":"EmitEvent","ck":n.id(m.service_cookie.0),
            "ev":s(m.event),"p":p(n,&m.value)}),
        Message::QueryServiceVersion(m) => {
            json!({"k":"QueryServiceVersion","s":s(m.serial),"ck":n.id(m.cookie.0)})
        }
        Message::QueryServiceVersionReply(m) => {
            let (r, v) = match m.result {
                QueryServiceVersionResult::Ok(v) => ("Ok", s(v)),
                QueryServiceVersionResult::InvalidService => ("InvalidService", json!("-1")),
            };
            json!({"k":"QueryServiceVersionReply","s":s(m.serial),"r":r,"v":v})
        }
        Message::QueryServiceInfo(m) => {
            json!({"k":"QueryServiceInfo","s":s(m.serial),"ck":n.id(m.cookie.0)})
        }
        Message::QueryServiceInfoReply(m) => {
            let (r, info, w) = match &m.result {
                QueryServiceInfoResult::Ok(v) => {
                    ("Ok", info_json(n, v), n.payload(v)["w"].clone())
                }
                QueryServiceInfoResult::InvalidService => (
                    "InvalidService",
                    json!({"ok": false, "v": "-1", "sa": "none", "ty": 0}),
                    json!(0),
                ),
            };
            json!({"k":"QueryServiceInfoReply","s":s(m.serial),"r":r,"info":info,"w":w})
        }
        Message::CreateChannel(m) => {
            let (e, c) = endc(m.end);
            json!({"k":"CreateChannel","s":s(m.serial),"end":e,"cap":c})
        }
        Message::CreateChannelReply(m) => {
            json!({"k":"CreateChannelReply","s":s(m.serial),"ck":n.id(m.cookie.0)})
        }
        Message::CloseChannelEnd(m) => json!({"k":"CloseChannelEnd","s":s(m.serial),
            "ck":n.id(m.cookie.0),"end":end(m.end)}),
        Message::CloseChannelEndReply(m) => {
            json!({"k":"CloseChannelEndReply","s":s(m.serial),"r":format!("{:?}",m.result)})
        }
        Message::ChannelEndClosed(m) => {
            json!({"k":"ChannelEndClosed","ck":n.id(m.cookie.0),"end":end(m.end)})
        }
        Message::ClaimChannelEnd(m) => {
            let (e, c) = endc(m.end);
            json!({"k":"ClaimChannelEnd","s":s(m.serial),"ck":n.id(m.cookie.0),"end":e,"cap":c})
        }
        Message::ClaimChannelEndReply(m) => {
            let (r, c) = match m.result {
                ClaimChannelEndResult::SenderClaimed(c) => ("SenderClaimed", c),
                ClaimChannelEndResult::ReceiverClaimed => ("ReceiverClaimed", 0),
                ClaimChannelEndResult::InvalidChannel => ("InvalidChannel", 0),
                ClaimChannelEndResult::AlreadyClaimed => ("AlreadyClaimed", 0),
            };
            json!({"k":"ClaimChannelEndReply","s":s(m.serial),"r":r,"cap":cap_json(c)})
        }
        Message::ChannelEndClaimed(m) => {
            let (e, c) = endc(m.end);
            json!({"k":"ChannelEndClaimed","ck":n.id(m.cookie.0),"end":e,"cap":c})
        }
        Message::SendItem(m) => json!({"k":"SendItem","ck":n.id(m.cookie.0),"p":p(n,&m.value)}),
        Message::ItemReceived(m) => {
            json!({"k":"ItemReceived","ck":n.id(m.cookie.0),"p":p(n,&m.value)})
        }
        Message::AddChannelCapacity(m) => json!({"k":"AddChannelCapacity",
            "ck":n.id(m.cookie.0),"cap":cap_json(m.capacity)}),
        Message::Sync(m) => json!({"k":"Sync","s":s(m.serial)}),
        Message::SyncReply(m) => json!({"k":"SyncReply","s":s(m.serial)}),
        Message::ServiceDestroyed(m) => {
            json!({"k":"ServiceDestroyed","ck":n.id(m.service_cookie.0)})
        }
        Message::CreateBusListener(m) => json!({"k":"CreateBusListener","s":s(m.serial)}),
        Message::CreateBusListenerReply(m) => {
            json!({"k":"CreateBusListenerReply","s":s(m.serial),"ck":n.id(m.cookie.0)})
        }
        Message::DestroyBusListener(m) => {
            json!({"k":"DestroyBusListener","s":s(m.serial),"ck":n.id(m.cookie.0)})
        }
        Message::DestroyBusListenerReply(m) => {
            json!({"k":"DestroyBusListenerReply","s":s(m.serial),"r":format!("{:?}",m.result)})
        }
        Message::AddBusListenerFilter(m) => json!({"k":"AddBusListenerFilter",
            "ck":n.id(m.cookie.0),"flt":flt(n,m.filter)}),
        Message::RemoveBusListenerFilter(m) => json!({"k":"RemoveBusListenerFilter",
            "ck":n.id(m.cookie.0),"flt":flt(n,m.filter)}),
        Message::ClearBusListenerFilters(m) => {
            json!({"k":"ClearBusListenerFilters","ck":n.id(m.cookie.0)})
        }
        Message::StartBusListener(m) => json!({"k":"StartBusListener","s":s(m.serial),
            "ck":n.id(m.cookie.0),"scope":format!("{:?}",m.scope)}),
        Message::StartBusListenerReply(m) => {
            json!({"k":"StartBusListenerReply","s":s(m.serial),"r":format!("{:?}",m.result)})
        }
        Message::StopBusListener(m) => {
            json!({"k":"StopBusListener","s":s(m.serial),"ck":n.id(m.cookie.0)})
        }
        Message::StopBusListenerReply(m) => {
            json!({"k":"StopBusListenerReply","s":s(m.serial),"r":format!("{:?}",m.result)})
        }
        Message::EmitBusEvent(m) => {
            let ck = m.cookie.map(|c| n.id(c.0)).unwrap_or(0);
            let (be, o, sv) = match m.event {
                BusEvent::ObjectCreated(o) => ("OC", o, None),
                BusEvent::ObjectDestroyed(o) => ("OD", o, None),
                BusEvent::ServiceCreated(s) => ("SC", s.object_id, Some(s)),
                BusEvent::ServiceDestroyed(s) => ("SD", s.object_id, Some(s)),
            };
            let ou = n.id(o.uuid.0);
            let ock = n.id(o.cookie.0);
            let (su, sck) = sv.map(|s| (n.id(s.uuid.0), n.id(s.cookie.0))).unwrap_or((0, 0));
            json!({"k":"EmitBusEvent","ck":ck,"be":be,"ou":ou,"ock":ock,"su":su,"sck":sck})
        }
        Message::BusListenerCurrentFinished(m) => {
            json!({"k":"BusListenerCurrentFinished","ck":n.id(m.cookie.0)})
        }
        Message::RegisterIntrospection(m) => {
            let t = types_json(n, &m.value);
            json!({"k":"RegisterIntrospection","ok":t["ok"],"types":t["types"]})
        }
        Message::QueryIntrospection(m) => {
            json!({"k":"QueryIntrospection","s":s(m.serial),"ty":n.id(m.type_id.0)})
        }
        Message::QueryIntrospectionReply(m) => {
            let (r, pl) = match &m.result {
                QueryIntrospectionResult::Ok(v) => ("Ok", p(n, v)),
                QueryIntrospectionResult::Unavailable => ("Unavailable", none),
            };
            json!({"k":"QueryIntrospectionReply","s":s(m.serial),"r":r,"p":pl})
        }
        Message::SubscribeService(m) => {
            json!({"k":"SubscribeService","s":s(m.serial),"ck":n.id(m.service_cookie.0)})
        }
        Message::SubscribeServiceReply(m) => {
            json!({"k":"SubscribeServiceReply","s":s(m.serial),"r":format!("{:?}",m.result)})
        }
        Message::UnsubscribeService(m) => {
            json!({"k":"UnsubscribeService","ck":n.id(m.service_cookie.0)})
        }
        Message::SubscribeAllEvents(m) => {
            json!({"k":"SubscribeAllEvents","s":so(m.serial),"ck":n.id(m.service_cookie.0)})
        }
        Message::SubscribeAllEventsReply(m) => {
            json!({"k":"SubscribeAllEventsReply","s":s(m.serial),"r":format!("{:?}",m.result)})
        }
        Message::UnsubscribeAllEvents(m) => {
            json!({"k":"UnsubscribeAllEvents","s":so(m.serial),"ck":n.id(m.service_cookie.0)})
        }
        Message::UnsubscribeAllEventsReply(m) => {
            json!({"k":"UnsubscribeAllEventsReply","s":s(m.serial),"r":format!("{:?}",m.result)})
        }
    }
}

/// Message from json. Payload bytes come from the optional field `raw` of the event.
pub fn from_json(n: &mut Names, j: &J, raw: &[u8], two: bool) -> Message {
    let k = j["k"].as_str().unwrap();
    let u = |f: &str| -> u32 {
        j[f].as_str().unwrap_or_else(|| panic!("{f} in {j}")).parse().unwrap()
    };
    let ou = |f: &str| -> Option<u32> {
        match j[f].as_str().unwrap() {
            "-1" => None,
            s => Some(s.parse().unwrap()),
        }
    };
    let i = |f: &str| -> i64 { j[f].as_i64().unwrap_or_else(|| panic!("{f} in {j}")) };
    let r = || j["r"].as_str().unwrap();
    let pl = || raw_value(if raw.is_empty() { &[0] } else { raw });
    let endc = || match j["end"].as_str().unwrap() {
        "S" => ChannelEndWithCapacity::Sender,
        _ => ChannelEndWithCapacity::Receiver(cap_of(&j["cap"])),
    };
    let end = || match j["end"].as_str().unwrap() {
        "S" => ChannelEnd::Sender,
        _ => ChannelEnd::Receiver,
    };
    macro_rules! ck {
        ($t:ident, $f:expr) => {
            $t(n.uuid(i($f)))
        };
    }
    macro_rules! filter {
        () => {{
            let f = &j["flt"];
            let o = f["o"].as_i64().unwrap();
            let sv = f["s"].as_i64().unwrap();
            let oo = (o != 0).then(|| ObjectUuid(n.uuid(o)));
            let ss = (sv != 0).then(|| ServiceUuid(n.uuid(sv)));
            match f["t"].as_str().unwrap() {
                "O" => BusListenerFilter::Object(oo),
                _ => BusListenerFilter::Service(BusListenerServiceFilter {
                    object: oo,
                    service: ss,
                }),
            }
        }};
    }
    match k {
        "Connect" => Connect { version: u("v"), value: pl() }.into(),
        "Connect2" => Connect2 { major_version: u("maj"), minor_version: u("min"), value: pl() }.into(),
        "ConnectReply" => ConnectReply::IncompatibleVersion(14).into(),
        "ConnectReply2" => ConnectReply2 { result: ConnectResult::Ok(20), value: pl() }.into(),
        "Shutdown" => Shutdown.into(),
        "CreateObject" => CreateObject { serial: u("s"), uuid: ck!(ObjectUuid, "u") }.into(),
        "CreateObjectReply" => CreateObjectReply { serial: u("s"), result: CreateObjectResult::DuplicateObject }.into(),
        "DestroyObject" => DestroyObject { serial: u("s"), cookie: ck!(ObjectCookie, "ck") }.into(),
        "DestroyObjectReply" => DestroyObjectReply { serial: u("s"), result: DestroyObjectResult::Ok }.into(),
        "CreateService" => CreateService {
            serial: u("s"),
            object_cookie: ck!(ObjectCookie, "ock"),
            uuid: ck!(ServiceUuid, "u"),
            version: u("v"),
        }
        .into(),
        "CreateService2" => CreateService2 {
            serial: u("s"),
            object_cookie: ck!(ObjectCookie, "ock"),
            uuid: ck!(ServiceUuid, "u"),
            value: raw_value(&info_bytes(n, &j["info"], two)),
        }
        .into(),
        "CreateServiceReply" => CreateServiceReply { serial: u("s"), result: CreateServiceResult::InvalidObject }.into(),
        "DestroyService" => DestroyService { serial: u("s"), cookie: ck!(ServiceCookie, "ck") }.into(),
        "DestroyServiceReply" => DestroyServiceReply { serial: u("s"), result: DestroyServiceResult::Ok }.into(),
        "CallFunction" => CallFunction {
            serial: u("s"),
            service_cookie: ck!(ServiceCookie, "ck"),
            function: u("f"),
            value: pl(),
        }
        .into(),
        "CallFunction2" => CallFunction2 {
            serial: u("s"),
            service_cookie: ck!(ServiceCookie, "ck"),
            function: u("f"),
            version: ou("v"),
            value: pl(),
        }
        .into(),
        "CallFunctionReply" => CallFunctionReply {
            serial: u("s"),
            result: match r() {
                "Ok" => CallFunctionResult::Ok(pl()),
                "Err" => CallFunctionResult::Err(pl()),
                "Aborted" => CallFunctionResult::Aborted,
                "InvalidService" => CallFunctionResult::InvalidService,
                "InvalidFunction" => CallFunctionResult::InvalidFunction,
                _ => CallFunctionResult::InvalidArgs,
            },
        }
        .into(),
        "AbortFunctionCall" => AbortFunctionCall { serial: u("s") }.into(),
        "SubscribeEvent" => SubscribeEvent {
            serial: ou("s"),
            service_cookie: ck!(ServiceCookie, "ck"),
            event: u("ev"),
        }
        .into(),
        "SubscribeEventReply" => SubscribeEventReply { serial: u("s"), result: SubscribeEventResult::Ok }.into(),
        "UnsubscribeEvent" => UnsubscribeEvent { service_cookie: ck!(ServiceCookie, "ck"), event: u("ev") }.into(),
        "EmitEvent" => EmitEvent { service_cookie: ck!(ServiceCookie, "ck"), event: u("ev"), value: pl() }.into(),
        "QueryServiceVersion" => QueryServiceVersion { serial: u("s"), cookie: ck!(ServiceCookie, "ck") }.into(),
        "QueryServiceVersionReply" => QueryServiceVersionReply { serial: u("s"), result: QueryServiceVersionResult::Ok(1) }.into(),
        "QueryServiceInfo" => QueryServiceInfo { serial: u("s"), cookie: ck!(ServiceCookie, "ck") }.into(),
        "QueryServiceInfoReply" => QueryServiceInfoReply { serial: u("s"), result: QueryServiceInfoResult::InvalidService }.into(),
        "CreateChannel" => CreateChannel { serial: u("s"), end: endc() }.into(),
        "CreateChannelReply" => CreateChannelReply { serial: u("s"), cookie: ck!(ChannelCookie, "ck") }.into(),
        "CloseChannelEnd" => CloseChannelEnd { serial: u("s"), cookie: ck!(ChannelCookie, "ck"), end: end() }.into(),
        "CloseChannelEndReply" => CloseChannelEndReply { serial: u("s"), result: CloseChannelEndResult::Ok }.into(),
        "ChannelEndClosed" => ChannelEndClosed { cookie: ck!(ChannelCookie, "ck"), end: end() }.into(),
        "ClaimChannelEnd" => ClaimChannelEnd { serial: u("s"), cookie: ck!(ChannelCookie, "ck"), end: endc() }.into(),
        "ClaimChannelEndReply" => ClaimChannelEndReply { serial: u("s"), result: ClaimChannelEndResult::InvalidChannel }.into(),
        "ChannelEndClaimed" => ChannelEndClaimed { cookie: ck!(ChannelCookie, "ck"), end: endc() }.into(),
        "SendItem" => SendItem { cookie: ck!(ChannelCookie, "ck"), value: pl() }.into(),
        "ItemReceived" => ItemReceived { cookie: ck!(ChannelCookie, "ck"), value: pl() }.into(),
        "AddChannelCapacity" => AddChannelCapacity { cookie: ck!(ChannelCookie, "ck"), capacity: cap_of(&j["cap"]) }.into(),
        "Sync" => Sync { serial: u("s") }.into(),
        "SyncReply" => SyncReply { serial: u("s") }.into(),
        "ServiceDestroyed" => ServiceDestroyed { service_cookie: ck!(ServiceCookie, "ck") }.into(),
        "CreateBusListener" => CreateBusListener { serial: u("s") }.into(),
        "CreateBusListenerReply" => CreateBusListenerReply { serial: u("s"), cookie: ck!(BusListenerCookie, "ck") }.into(),
        "DestroyBusListener" => DestroyBusListener { serial: u("s"), cookie: ck!(BusListenerCookie, "ck") }.into(),
        "DestroyBusListenerReply" => DestroyBusListenerReply { serial: u("s"), result: DestroyBusListenerResult::Ok }.into(),
        "AddBusListenerFilter" => {
            let filter = filter!();
            AddBusListenerFilter { cookie: ck!(BusListenerCookie, "ck"), filter }.into()
        }
        "RemoveBusListenerFilter" => {
            let filter = filter!();
            RemoveBusListenerFilter { cookie: ck!(BusListenerCookie, "ck"), filter }.into()
        }
        "ClearBusListenerFilters" => ClearBusListenerFilters { cookie: ck!(BusListenerCookie, "ck") }.into(),
        "StartBusListener" => StartBusListener {
            serial: u("s"),
            cookie: ck!(BusListenerCookie, "ck"),
            scope: match j["scope"].as_str().unwrap() {
                "Current" => BusListenerScope::Current,
                "New" => BusListenerScope::New,
                _ => BusListenerScope::All,
            },
        }
        .into(),
        "StartBusListenerReply" => StartBusListenerReply { serial: u("s"), result: StartBusListenerResult::Ok }.into(),
        "StopBusListener" => StopBusListener { serial: u("s"), cookie: ck!(BusListenerCookie, "ck") }.into(),
        "StopBusListenerReply" => StopBusListenerReply { serial: u("s"), result: StopBusListenerResult::Ok }.into(),
        "EmitBusEvent" => EmitBusEvent { cookie: None, event: BusEvent::ObjectCreated(ObjectId::new(ck!(ObjectUuid, "ou"), ck!(ObjectCookie, "ock"))) }.into(),
        "BusListenerCurrentFinished" => BusListenerCurrentFinished { cookie: ck!(BusListenerCookie, "ck") }.into(),
        "RegisterIntrospection" => {
            let ids: Vec<crate::wire::K> = j["types"]
                .as_array()
                .unwrap()
                .iter()
                .map(|t| crate::wire::K::Id(*n.uuid(t.as_i64().unwrap()).as_bytes()))
                .collect();
            let bytes = if j["ok"].as_bool().unwrap() {
                let mut rng = <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(1);
                V::Set(9, ids).encode(
                    if two { crate::wire::Enc::V2 } else { crate::wire::Enc::V1 },
                    &mut rng,
                )
            } else {
                let mut b = vec![7];
                put_varint(&mut b, 77, 4);
                b
            };
            RegisterIntrospection { value: raw_value(&bytes) }.into()
        }
        "QueryIntrospection" => QueryIntrospection { serial: u("s"), type_id: ck!(TypeId, "ty") }.into(),
        "QueryIntrospectionReply" => QueryIntrospectionReply {
            serial: u("s"),
            result: match r() {
                "Ok" => QueryIntrospectionResult::Ok(pl()),
                _ => QueryIntrospectionResult::Unavailable,
            },
        }
        .into(),
        "SubscribeService" => SubscribeService { serial: u("s"), service_cookie: ck!(ServiceCookie, "ck") }.into(),
        "SubscribeServiceReply" => SubscribeServiceReply { serial: u("s"), result: SubscribeServiceResult::Ok }.into(),
        "UnsubscribeService" => UnsubscribeService { service_cookie: ck!(ServiceCookie, "ck") }.into(),
        "SubscribeAllEvents" => SubscribeAllEvents { serial: ou("s"), service_cookie: ck!(ServiceCookie, "ck") }.into(),
        "SubscribeAllEventsReply" => SubscribeAllEventsReply { serial: u("s"), result: SubscribeAllEventsResult::Ok }.into(),
        "UnsubscribeAllEvents" => UnsubscribeAllEvents { serial: ou("s"), service_cookie: ck!(ServiceCookie, "ck") }.into(),
        "UnsubscribeAllEventsReply" => UnsubscribeAllEventsReply { serial: u("s"), result: UnsubscribeAllEventsResult::Ok }.into(),
        other => panic!("unknown message kind {other}"),
    }
}
