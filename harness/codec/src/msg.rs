//! Protocol messages: frames to try and what the real codec makes of them.
use crate::gen;
use crate::real::{guard, slice};
use crate::wire::{put_varint, rand_value, Enc};
use aldrin_core::message::*;
use aldrin_core::*;
use bytes::BytesMut;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value as J};
use uuid::Uuid;

/// Fields of each kind: v payload, n number, u uuid, [..|..] choice by discriminant, x payload is
/// not part of the message.
pub const LAYOUT: [&str; 63] = [
    "vn", "v[|xn|]", "", "nu", "n[u|]", "nu", "n[||]", "nuun", "n[u|||]", "nu", "n[||]",
    "vnun", "vn[||x|x|x|x]", "[|n]un", "n[|]", "un", "vun", "nu", "n[n|]", "n[|n]", "nu", "nu[|]", "n[||]", "u[|]",
    "nu[|n]", "n[n|||]", "u[|n]", "vu", "vu", "un", "n", "n", "u", "n", "nu", "nu", "n[|]",
    "u[|u||u|u|uu]", "u[|u||u|u|uu]", "u", "nu[||]", "n[||]", "nu", "n[||]", "[|u][uu|uu|uuuu|uuuu]", "u",
    "vnn", "v[n||]", "n", "v", "nu", "vn[|x]", "vnuu", "nu", "vn[|x]", "nu", "n[|]", "u",
    "[|n]u", "n[||]", "[|n]u", "n[||]", "vnun[|n]",
];

pub fn has_value(k: usize) -> bool {
    LAYOUT[k].starts_with('v')
}

/// Random fields of a kind, as bytes behind the payload.
fn fields(r: &mut SmallRng, lay: &str, out: &mut Vec<u8>, odd: bool) {
    let l: Vec<char> = lay.chars().collect();
    let mut i = 0;
    while i < l.len() {
        match l[i] {
            'n' => {
                let n: u32 = match r.random_range(0..6) {
                    0 => r.random_range(0..4),
                    1 => r.random_range(245..260),
                    2 => 1 << r.random_range(0..32u32),
                    3 => (1u32 << r.random_range(0..32u32)).wrapping_sub(1),
                    4 => u32::MAX - r.random_range(0..2u32),
                    _ => r.random(),
                };
                if odd && r.random_bool(0.3) {
                    // Longer than it needs to be.
                    let k = r.random_range(1..5usize);
                    out.push(251 + k as u8);
                    out.extend(&n.to_le_bytes()[..k]);
                } else {
                    put_varint(out, n as u64, 4);
                }
            }
            'u' => {
                let b: [u8; 16] = match r.random_range(0..8) {
                    0 => [0; 16],
                    1 => [255; 16],
                    _ => r.random(),
                };
                out.extend(b);
            }
            '[' => {
                let mut end = i;
                while l[end] != ']' {
                    end += 1;
                }
                let inner: String = l[i + 1..end].iter().collect();
                let alts: Vec<&str> = inner.split('|').collect();
                let d = r.random_range(0..alts.len());
                out.push(d as u8);
                fields(r, alts[d], out, odd);
                i = end;
            }
            _ => {}
        }
        i += 1;
    }
}

pub fn payload(r: &mut SmallRng) -> Vec<u8> {
    match r.random_range(0..10) {
        0 | 1 => vec![0],
        2 => (0..r.random_range(1..10)).map(|_| r.random()).collect(),
        3 if r.random_bool(0.02) => vec![r.random(); r.random_range(65500..66000)],
        3 => vec![r.random(); r.random_range(240..270)],
        _ => {
            let (d, n) = (r.random_range(0..3), r.random_range(1..6));
            rand_value(r, d, n).encode(Enc::Mix, r)
        }
    }
}

fn frame(kind: u8, body: &[u8]) -> Vec<u8> {
    let mut f = ((body.len() + 5) as u32).to_le_bytes().to_vec();
    f.push(kind);
    f.extend_from_slice(body);
    f
}

/// A frame as the protocol has it.
pub fn good(r: &mut SmallRng, kind: usize, odd: bool) -> Vec<u8> {
    let mut body = Vec::new();
    if has_value(kind) {
        let p = payload(r);
        body.extend((p.len() as u32).to_le_bytes());
        body.extend(p);
    }
    fields(r, LAYOUT[kind], &mut body, odd);
    frame(kind as u8, &body)
}

fn fix(f: &mut [u8]) {
    if f.len() >= 4 {
        let n = f.len() as u32;
        f[..4].copy_from_slice(&n.to_le_bytes());
    }
}

/// A frame to try.
pub fn bytes(r: &mut SmallRng) -> (Vec<u8>, &'static str) {
    let kind = r.random_range(0..63);
    let k = r.random_range(0..100);
    if k < 40 {
        (good(r, kind, k < 12), "valid")
    } else if k < 75 {
        let mut f = good(r, kind, true);
        for _ in 0..[1, 1, 1, 2, 3][r.random_range(0..5)] {
            match r.random_range(0..6) {
                0 => {
                    let n = f.len();
                    f.truncate(r.random_range(0..n));
                }
                1 if has_value(kind) && f.len() > 8 => {
                    // The length of the payload.
                    let at = r.random_range(5..9);
                    f[at] = gen::interesting(r);
                }
                2 if f.len() > 5 => {
                    let i = f.len() - 1;
                    f[i] = gen::interesting(r);
                }
                3 if f.len() > 4 => f[4] = r.random_range(0..66),
                _ if !f.is_empty() => gen::mutate(r, &mut f),
                _ => {}
            }
            if f.is_empty() {
                break;
            }
        }
        if r.random_bool(0.9) {
            fix(&mut f);
        }
        (f, "mutated")
    } else if k < 90 {
        // Just a few bytes of the right length.
        let n = r.random_range(0..24);
        let mut f: Vec<u8> = (0..n).map(|_| gen::interesting(r)).collect();
        fix(&mut f);
        if f.len() > 4 {
            f[4] = kind as u8;
        }
        if f.len() > 8 && has_value(kind) && r.random_bool(0.8) {
            let v = r.random_range(0..n as u32);
            f[5..9].copy_from_slice(&v.to_le_bytes());
        }
        (f, "short")
    } else {
        let n = r.random_range(0..40);
        ((0..n).map(|_| gen::interesting(r)).collect(), "random")
    }
}

fn arr(b: impl AsRef<[u8]>) -> J {
    J::Array(b.as_ref().iter().map(|x| J::from(*x)).collect())
}

fn n(x: u32) -> J {
    arr(x.to_le_bytes())
}

fn u(x: Uuid) -> J {
    arr(x.into_bytes())
}

fn on(x: Option<u32>) -> Vec<J> {
    match x {
        None => vec![json!([0])],
        Some(x) => vec![json!([1]), n(x)],
    }
}

fn end(e: ChannelEnd) -> J {
    json!([match e {
        ChannelEnd::Sender => 0,
        ChannelEnd::Receiver => 1,
    }])
}

fn endc(e: ChannelEndWithCapacity) -> Vec<J> {
    match e {
        ChannelEndWithCapacity::Sender => vec![json!([0])],
        ChannelEndWithCapacity::Receiver(c) => vec![json!([1]), n(c)],
    }
}

fn filter(f: BusListenerFilter) -> Vec<J> {
    match f {
        BusListenerFilter::Object(None) => vec![json!([0])],
        BusListenerFilter::Object(Some(o)) => vec![json!([1]), u(o.0)],
        BusListenerFilter::Service(BusListenerServiceFilter { object, service }) => match (object, service) {
            (None, None) => vec![json!([2])],
            (Some(o), None) => vec![json!([3]), u(o.0)],
            (None, Some(s)) => vec![json!([4]), u(s.0)],
            (Some(o), Some(s)) => vec![json!([5]), u(o.0), u(s.0)],
        },
    }
}

macro_rules! j {
    ($($x:expr),*) => { vec![$($x),*] };
}

/// The fields of a message in the order of the wire format.
pub fn view(m: &Message) -> Vec<J> {
    use Message as M;
    let d = |x: u8| json!([x]);
    match m {
        M::Connect(m) => j![n(m.version)],
        M::ConnectReply(ConnectReply::Ok(_)) => j![d(0)],
        M::ConnectReply(ConnectReply::IncompatibleVersion(v)) => j![d(1), n(*v)],
        M::ConnectReply(ConnectReply::Rejected(_)) => j![d(2)],
        M::Shutdown(Shutdown) => j![],
        M::CreateObject(m) => j![n(m.serial), u(m.uuid.0)],
        M::CreateObjectReply(m) => match m.result {
            CreateObjectResult::Ok(c) => j![n(m.serial), d(0), u(c.0)],
            CreateObjectResult::DuplicateObject => j![n(m.serial), d(1)],
        },
        M::DestroyObject(m) => j![n(m.serial), u(m.cookie.0)],
        M::DestroyObjectReply(m) => j![
            n(m.serial),
            d(match m.result {
                DestroyObjectResult::Ok => 0,
                DestroyObjectResult::InvalidObject => 1,
                DestroyObjectResult::ForeignObject => 2,
            })
        ],
        M::CreateService(m) => j![n(m.serial), u(m.object_cookie.0), u(m.uuid.0), n(m.version)],
        M::CreateServiceReply(m) => match m.result {
            CreateServiceResult::Ok(c) => j![n(m.serial), d(0), u(c.0)],
            CreateServiceResult::DuplicateService => j![n(m.serial), d(1)],
            CreateServiceResult::InvalidObject => j![n(m.serial), d(2)],
            CreateServiceResult::ForeignObject => j![n(m.serial), d(3)],
        },
        M::DestroyService(m) => j![n(m.serial), u(m.cookie.0)],
        M::DestroyServiceReply(m) => j![
            n(m.serial),
            d(match m.result {
                DestroyServiceResult::Ok => 0,
                DestroyServiceResult::InvalidService => 1,
                DestroyServiceResult::ForeignObject => 2,
            })
        ],
        M::CallFunction(m) => j![n(m.serial), u(m.service_cookie.0), n(m.function)],
        M::CallFunctionReply(m) => j![
            n(m.serial),
            d(match m.result {
                CallFunctionResult::Ok(_) => 0,
                CallFunctionResult::Err(_) => 1,
                CallFunctionResult::Aborted => 2,
                CallFunctionResult::InvalidService => 3,
                CallFunctionResult::InvalidFunction => 4,
                CallFunctionResult::InvalidArgs => 5,
            })
        ],
        M::SubscribeEvent(m) => [on(m.serial), j![u(m.service_cookie.0), n(m.event)]].concat(),
        M::SubscribeEventReply(m) => j![
            n(m.serial),
            d(match m.result {
                SubscribeEventResult::Ok => 0,
                SubscribeEventResult::InvalidService => 1,
            })
        ],
        M::UnsubscribeEvent(m) => j![u(m.service_cookie.0), n(m.event)],
        M::EmitEvent(m) => j![u(m.service_cookie.0), n(m.event)],
        M::QueryServiceVersion(m) => j![n(m.serial), u(m.cookie.0)],
        M::QueryServiceVersionReply(m) => match m.result {
            QueryServiceVersionResult::Ok(v) => j![n(m.serial), d(0), n(v)],
            QueryServiceVersionResult::InvalidService => j![n(m.serial), d(1)],
        },
        M::CreateChannel(m) => [j![n(m.serial)], endc(m.end)].concat(),
        M::CreateChannelReply(m) => j![n(m.serial), u(m.cookie.0)],
        M::CloseChannelEnd(m) => j![n(m.serial), u(m.cookie.0), end(m.end)],
        M::CloseChannelEndReply(m) => j![
            n(m.serial),
            d(match m.result {
                CloseChannelEndResult::Ok => 0,
                CloseChannelEndResult::InvalidChannel => 1,
                CloseChannelEndResult::ForeignChannel => 2,
            })
        ],
        M::ChannelEndClosed(m) => j![u(m.cookie.0), end(m.end)],
        M::ClaimChannelEnd(m) => [j![n(m.serial), u(m.cookie.0)], endc(m.end)].concat(),
        M::ClaimChannelEndReply(m) => match m.result {
            ClaimChannelEndResult::SenderClaimed(c) => j![n(m.serial), d(0), n(c)],
            ClaimChannelEndResult::ReceiverClaimed => j![n(m.serial), d(1)],
            ClaimChannelEndResult::InvalidChannel => j![n(m.serial), d(2)],
            ClaimChannelEndResult::AlreadyClaimed => j![n(m.serial), d(3)],
        },
        M::ChannelEndClaimed(m) => [j![u(m.cookie.0)], endc(m.end)].concat(),
        M::SendItem(m) => j![u(m.cookie.0)],
        M::ItemReceived(m) => j![u(m.cookie.0)],
        M::AddChannelCapacity(m) => j![u(m.cookie.0), n(m.capacity)],
        M::Sync(m) => j![n(m.serial)],
        M::SyncReply(m) => j![n(m.serial)],
        M::ServiceDestroyed(m) => j![u(m.service_cookie.0)],
        M::CreateBusListener(m) => j![n(m.serial)],
        M::CreateBusListenerReply(m) => j![n(m.serial), u(m.cookie.0)],
        M::DestroyBusListener(m) => j![n(m.serial), u(m.cookie.0)],
        M::DestroyBusListenerReply(m) => j![
            n(m.serial),
            d(match m.result {
                DestroyBusListenerResult::Ok => 0,
                DestroyBusListenerResult::InvalidBusListener => 1,
            })
        ],
        M::AddBusListenerFilter(m) => [j![u(m.cookie.0)], filter(m.filter)].concat(),
        M::RemoveBusListenerFilter(m) => [j![u(m.cookie.0)], filter(m.filter)].concat(),
        M::ClearBusListenerFilters(m) => j![u(m.cookie.0)],
        M::StartBusListener(m) => j![
            n(m.serial),
            u(m.cookie.0),
            d(match m.scope {
                BusListenerScope::Current => 0,
                BusListenerScope::New => 1,
                BusListenerScope::All => 2,
            })
        ],
        M::StartBusListenerReply(m) => j![
            n(m.serial),
            d(match m.result {
                StartBusListenerResult::Ok => 0,
                StartBusListenerResult::InvalidBusListener => 1,
                StartBusListenerResult::AlreadyStarted => 2,
            })
        ],
        M::StopBusListener(m) => j![n(m.serial), u(m.cookie.0)],
        M::StopBusListenerReply(m) => j![
            n(m.serial),
            d(match m.result {
                StopBusListenerResult::Ok => 0,
                StopBusListenerResult::InvalidBusListener => 1,
                StopBusListenerResult::NotStarted => 2,
            })
        ],
        M::EmitBusEvent(m) => {
            let mut out = match m.cookie {
                None => j![d(0)],
                Some(c) => j![d(1), u(c.0)],
            };
            let ob = |o: ObjectId| j![u(o.uuid.0), u(o.cookie.0)];
            let sv = |s: ServiceId| [ob(s.object_id), j![u(s.uuid.0), u(s.cookie.0)]].concat();
            match m.event {
                BusEvent::ObjectCreated(o) => {
                    out.push(d(0));
                    out.extend(ob(o));
                }
                BusEvent::ObjectDestroyed(o) => {
                    out.push(d(1));
                    out.extend(ob(o));
                }
                BusEvent::ServiceCreated(s) => {
                    out.push(d(2));
                    out.extend(sv(s));
                }
                BusEvent::ServiceDestroyed(s) => {
                    out.push(d(3));
                    out.extend(sv(s));
                }
            }
            out
        }
        M::BusListenerCurrentFinished(m) => j![u(m.cookie.0)],
        M::Connect2(m) => j![n(m.major_version), n(m.minor_version)],
        M::ConnectReply2(m) => match m.result {
            ConnectResult::Ok(v) => j![d(0), n(v)],
            ConnectResult::Rejected => j![d(1)],
            ConnectResult::IncompatibleVersion => j![d(2)],
        },
        M::AbortFunctionCall(m) => j![n(m.serial)],
        M::RegisterIntrospection(_) => j![],
        M::QueryIntrospection(m) => j![n(m.serial), u(m.type_id.0)],
        M::QueryIntrospectionReply(m) => j![
            n(m.serial),
            d(match m.result {
                QueryIntrospectionResult::Ok(_) => 0,
                QueryIntrospectionResult::Unavailable => 1,
            })
        ],
        M::CreateService2(m) => j![n(m.serial), u(m.object_cookie.0), u(m.uuid.0)],
        M::QueryServiceInfo(m) => j![n(m.serial), u(m.cookie.0)],
        M::QueryServiceInfoReply(m) => j![
            n(m.serial),
            d(match m.result {
                QueryServiceInfoResult::Ok(_) => 0,
                QueryServiceInfoResult::InvalidService => 1,
            })
        ],
        M::SubscribeService(m) => j![n(m.serial), u(m.service_cookie.0)],
        M::SubscribeServiceReply(m) => j![
            n(m.serial),
            d(match m.result {
                SubscribeServiceResult::Ok => 0,
                SubscribeServiceResult::InvalidService => 1,
            })
        ],
        M::UnsubscribeService(m) => j![u(m.service_cookie.0)],
        M::SubscribeAllEvents(m) => [on(m.serial), j![u(m.service_cookie.0)]].concat(),
        M::SubscribeAllEventsReply(m) => j![
            n(m.serial),
            d(match m.result {
                SubscribeAllEventsResult::Ok => 0,
                SubscribeAllEventsResult::InvalidService => 1,
                SubscribeAllEventsResult::NotSupported => 2,
            })
        ],
        M::UnsubscribeAllEvents(m) => [on(m.serial), j![u(m.service_cookie.0)]].concat(),
        M::UnsubscribeAllEventsReply(m) => j![
            n(m.serial),
            d(match m.result {
                UnsubscribeAllEventsResult::Ok => 0,
                UnsubscribeAllEventsResult::InvalidService => 1,
                UnsubscribeAllEventsResult::NotSupported => 2,
            })
        ],
        M::CallFunction2(m) => {
            [j![n(m.serial), u(m.service_cookie.0), n(m.function)], on(m.version)].concat()
        }
    }
}

macro_rules! typed {
    ($b:expr, $panics:expr, $($i:expr => $t:ident),* $(,)?) => {
        vec![$(guard($panics, stringify!($t), || {
            $t::deserialize_message(BytesMut::from($b)).ok().map(Message::from)
        }).flatten()),*]
    };
}

/// What the parsers of the single kinds make of the bytes.
fn typed(b: &[u8], panics: &mut Vec<String>) -> Vec<Option<Message>> {
    typed!(b, panics,
        0 => Connect, 1 => ConnectReply, 2 => Shutdown, 3 => CreateObject, 4 => CreateObjectReply,
        5 => DestroyObject, 6 => DestroyObjectReply, 7 => CreateService, 8 => CreateServiceReply,
        9 => DestroyService, 10 => DestroyServiceReply, 11 => CallFunction, 12 => CallFunctionReply,
        13 => SubscribeEvent, 14 => SubscribeEventReply, 15 => UnsubscribeEvent, 16 => EmitEvent,
        17 => QueryServiceVersion, 18 => QueryServiceVersionReply, 19 => CreateChannel, 20 => CreateChannelReply,
        21 => CloseChannelEnd, 22 => CloseChannelEndReply, 23 => ChannelEndClosed, 24 => ClaimChannelEnd,
        25 => ClaimChannelEndReply, 26 => ChannelEndClaimed, 27 => SendItem, 28 => ItemReceived,
        29 => AddChannelCapacity, 30 => Sync, 31 => SyncReply, 32 => ServiceDestroyed, 33 => CreateBusListener,
        34 => CreateBusListenerReply, 35 => DestroyBusListener, 36 => DestroyBusListenerReply,
        37 => AddBusListenerFilter, 38 => RemoveBusListenerFilter, 39 => ClearBusListenerFilters,
        40 => StartBusListener, 41 => StartBusListenerReply, 42 => StopBusListener, 43 => StopBusListenerReply,
        44 => EmitBusEvent, 45 => BusListenerCurrentFinished, 46 => Connect2, 47 => ConnectReply2,
        48 => AbortFunctionCall, 49 => RegisterIntrospection, 50 => QueryIntrospection,
        51 => QueryIntrospectionReply, 52 => CreateService2, 53 => QueryServiceInfo, 54 => QueryServiceInfoReply,
        55 => SubscribeService, 56 => SubscribeServiceReply, 57 => UnsubscribeService, 58 => SubscribeAllEvents,
        59 => SubscribeAllEventsReply, 60 => UnsubscribeAllEvents, 61 => UnsubscribeAllEventsReply,
        62 => CallFunction2,
    )
}

/// Kind, fields and payload.
fn parsed(m: &Message) -> J {
    let v = match m.value() {
        Some(v) => json!([arr(&v[..])]),
        None => json!([]),
    };
    json!({"k": u8::from(m.kind()), "f": view(m), "v": v})
}

/// Serializes a message, parses the frame again.
fn again(m: &Message, what: &str, panics: &mut Vec<String>) -> J {
    let kept = m.value().map(|v| v.to_vec());
    let f = guard(panics, what, || m.clone().serialize_message());
    match f {
        Some(Ok(f)) => {
            let back = guard(panics, what, || Message::deserialize_message(f.clone()));
            let (ok, same) = match &back {
                Some(Ok(b)) => (true, b == m && b.value().map(|v| v.to_vec()) == kept),
                _ => (false, false),
            };
            json!({"ser": true, "out": arr(&f), "ok": ok, "same": same, "v": kept.map(|v| vec![arr(v)]).unwrap_or_default()})
        }
        _ => json!({"ser": false, "out": [], "ok": false, "same": false, "v": []}),
    }
}

/// Everything that is done with one frame; TRUE if it looks odd.
pub fn case(b: &[u8], r: &mut SmallRng) -> (J, bool) {
    let mut panics = Vec::new();
    let got = guard(&mut panics, "parse", || Message::deserialize_message(BytesMut::from(b)));
    let m = match got {
        Some(Ok(m)) => Some(m),
        _ => None,
    };
    let ts = typed(b, &mut panics);
    let mut agree = true;
    for (k, t) in ts.iter().enumerate() {
        let want = m.as_ref().filter(|m| u8::from(m.kind()) as usize == k);
        agree &= t.as_ref() == want;
    }
    let mut odd = !agree;
    let mut rt = Vec::new();
    if let Some(m) = &m {
        rt.push(again(m, "serialize", &mut panics));
        // With payloads of other origin.
        if m.value().is_some() {
            for i in 0..2 {
                let mut m = m.clone();
                let b = payload(r);
                let v = match i {
                    0 => {
                        let v = rand_value(r, 1, 4);
                        SerializedValue::serialize(crate::real::to_real(&v)).expect("payload")
                    }
                    _ => {
                        let mut v = slice(&b);
                        if crate::gen::well_formed(&b) {
                            // Went through a conversion.
                            let _ = v.convert(Some(ProtocolVersion::V1_20), ProtocolVersion::V1_14);
                        }
                        v
                    }
                };
                *m.value_mut().expect("payload") = v;
                rt.push(again(&m, "serialize other", &mut panics));
            }
        }
        odd |= rt.iter().any(|x| x["same"] != true);
    }
    odd |= !panics.is_empty();
    let j = json!({
        "t": "m", "b": arr(b), "ok": m.is_some(), "agree": agree,
        "m": m.as_ref().map(parsed).unwrap_or(json!({"k": 0, "f": [], "v": []})),
        "rt": rt, "panics": panics,
    });
    (j, odd)
}

/// The harness' own idea of whether a frame is one.
pub fn mirror(b: &[u8]) -> bool {
    if b.len() < 5 || u32::from_le_bytes(b[..4].try_into().unwrap()) as usize != b.len() || b[4] > 62 {
        return false;
    }
    let mut rest = &b[5..];
    let lay = LAYOUT[b[4] as usize];
    if has_value(b[4] as usize) {
        if rest.len() < 5 {
            return false;
        }
        let n = u32::from_le_bytes(rest[..4].try_into().unwrap()) as usize;
        if n == 0 || n > rest.len() - 4 {
            return false;
        }
        rest = &rest[4 + n..];
    }
    fn eat(lay: &str, b: &mut &[u8]) -> bool {
        let mut cs = lay.chars();
        while let Some(c) = cs.next() {
            match c {
                'n' => {
                    let Some(f) = b.first() else { return false };
                    let n = if *f > 251 { (*f - 251) as usize } else { 0 };
                    if b.len() < 1 + n {
                        return false;
                    }
                    *b = &b[1 + n..];
                }
                'u' => {
                    if b.len() < 16 {
                        return false;
                    }
                    *b = &b[16..];
                }
                '[' => {
                    let inner: String = cs.by_ref().take_while(|c| *c != ']').collect();
                    let alts: Vec<&str> = inner.split('|').collect();
                    let Some(d) = b.first() else { return false };
                    let d = *d as usize;
                    if d >= alts.len() {
                        return false;
                    }
                    *b = &b[1..];
                    if !eat(alts[d], b) {
                        return false;
                    }
                }
                _ => {}
            }
        }
        true
    }
    eat(lay, &mut rest) && rest.is_empty()
}
