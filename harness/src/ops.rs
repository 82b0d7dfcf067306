//! Decoding and encoding of single objects.
use crate::j::*;
use crate::proj::{Acc, P};
use crate::{guarded, mark, peak_since};
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpFrame, AmqpParseError, Decode, Encode, SaslFrame};
use bytes::{BufMut, Bytes, BytesMut};
use chrono::{DateTime, TimeZone, Utc};
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use uuid::Uuid;

pub fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
}

/// The class of an error and what it names, from its Debug form.
pub fn classify(dbg: &str) -> (String, String) {
    let d = dbg.strip_prefix("ParseError(").map(|x| &x[..x.len() - 1]).unwrap_or(dbg);
    let (name, arg) = match d.find('(') {
        Some(p) => (&d[..p], d[p + 1..].trim_end_matches(')').trim_matches('"')),
        None => (d, ""),
    };
    let (class, keep) = match name {
        "InvalidSize" | "Incomplete" => ("length", false),
        "InvalidFormatCode" => ("code", true),
        "InvalidChar" => ("char", false),
        "InvalidDescriptor" => ("descriptor", false),
        "UnexpectedFrameType" => ("frametype", true),
        "RequiredFieldOmitted" => ("required", true),
        "UnknownEnumOption" => ("option", true),
        "Utf8Error" => ("utf8", false),
        "UnparsedBytesLeft" => ("leftover", false),
        "InvalidHeader" => ("InvalidHeader", false),
        "Incompatible" => ("Incompatible", false),
        "Unknown" => ("Unknown", false),
        _ => ("other", false),
    };
    (class.to_string(), if keep { arg.to_string() } else { String::new() })
}
pub fn err_result(dbg: &str) -> Vec<(String, J)> {
    let (c, a) = classify(dbg);
    vec![("res".into(), s("err")), ("cls".into(), s(&c)), ("arg".into(), s(&a))]
}

/// The name of a type, as `a:b:c`.
fn type_name(t: &J) -> String {
    t.arr()
        .iter()
        .map(|x| match x {
            J::S(x) => x.clone(),
            _ => type_name(x),
        })
        .collect::<Vec<_>>()
        .join(":")
}

/// All that can be done to a type.
pub struct Ops {
    pub dec: fn(&[u8]) -> Vec<(String, J)>,
    pub enc: Option<fn(&J, &[u8], &[u8]) -> Vec<(String, J)>>,
    pub same: Option<fn(&J, &J) -> Vec<(String, J)>>,
}

pub fn decode_with(f: impl FnOnce(&[u8]) -> Result<(J, usize), AmqpParseError>, input: &[u8]) -> Vec<(String, J)> {
    match guarded(|| f(input)) {
        Ok(Ok((v, rem))) => vec![("res".into(), s("ok")), ("val".into(), v), ("rem".into(), n(rem))],
        Ok(Err(e)) => err_result(&format!("{:?}", e)),
        Err(()) => vec![("res".into(), s("panic"))],
    }
}

fn dec_as<T: Decode + P>(input: &[u8]) -> Vec<(String, J)> {
    let start = mark();
    // dropping and projecting the value is not part of the measurement
    match guarded(|| T::decode(input).map(|(r, v)| (r.len(), v))) {
        Ok(Ok((rem, v))) => {
            let peak = peak_since(start);
            vec![
                ("res".into(), s("ok")),
                ("val".into(), P::tj(&v)),
                ("rem".into(), n(rem)),
                ("peak".into(), n(peak)),
            ]
        }
        Ok(Err(e)) => {
            let peak = peak_since(start);
            let mut r = err_result(&format!("{:?}", e));
            r.push(("peak".into(), n(peak)));
            r
        }
        Err(()) => vec![("res".into(), s("panic")), ("peak".into(), n(peak_since(start)))],
    }
}

/// What an encode into a buffer did: bytes appended, and whether what was there is intact.
fn append<T: Encode + ?Sized>(x: &T, pre: &[u8], room: usize) -> Result<(Vec<u8>, bool), ()> {
    guarded(|| {
        let mut b = BytesMut::with_capacity(pre.len() + room);
        b.put_slice(pre);
        x.encode(&mut b);
        let intact = b.len() >= pre.len() && &b[..pre.len()] == pre;
        (b[pre.len().min(b.len())..].to_vec(), intact)
    })
}
/// Encode with exactly `size` bytes of free space.
fn tight<T: Encode + ?Sized>(x: &T, size: usize) -> Result<Vec<u8>, ()> {
    guarded(|| {
        let mut b = BytesMut::with_capacity(size + 64);
        let fill = b.remaining_mut() - size;
        b.put_slice(&vec![0xA5u8; fill]);
        x.encode(&mut b);
        b[fill..].to_vec()
    })
}

pub fn enc_any<T: Encode + ?Sized>(x: &T, pre: &[u8]) -> Vec<(String, J)> {
    let size = match guarded(|| x.encoded_size()) {
        Ok(v) => v,
        Err(()) => return vec![("res".into(), s("panic"))],
    };
    let (out, intact) = match append(x, pre, size * 2 + (1 << 17)) {
        Ok(v) => v,
        Err(()) => return vec![("res".into(), s("panic"))],
    };
    let t = tight(x, size);
    vec![
        ("res".into(), s("ok")),
        ("size".into(), n(size)),
        ("out".into(), bytes(&out)),
        ("pre_ok".into(), J::T(intact)),
        ("tight".into(), J::T(t == Ok(out))),
    ]
}

fn enc_as<T: Encode + Decode + P>(v: &J, pre: &[u8], tail: &[u8], acc: Option<fn(&T) -> J>) -> Vec<(String, J)> {
    let x = T::fj(v);
    let mut r = enc_any(&x, pre);
    if r[0].1 != s("ok") {
        return r;
    }
    let mut input = r[2].1.bytes();
    input.extend_from_slice(tail);
    let back = dec_as::<T>(&input).into_iter().filter(|(k, _)| k != "peak").collect();
    r.push(("back".into(), J::O(back)));
    if let Some(f) = acc {
        match guarded(|| f(&x)) {
            Ok(v) => r.push(("acc".into(), v)),
            Err(()) => r[0].1 = s("panic"),
        }
    }
    r
}

/// Whether two values are equal, asked in every way there is.
fn same_as<T: P + PartialEq + Clone>(a: &J, b: &J) -> Vec<(String, J)> {
    match guarded(|| {
        let (x, y) = (T::fj(a), T::fj(b));
        let copy = x.clone();
        vec![x == y, y == x, !(x != y), copy == y, y == copy]
    }) {
        Ok(v) => vec![("res".into(), s("ok")), ("eq".into(), J::A(v.into_iter().map(J::T).collect()))],
        Err(()) => vec![("res".into(), s("panic"))],
    }
}
/// For values that can be keys: equality of hashes, and whether a map or set keeps them apart.
fn keys_as<T: P + Eq + Hash + Clone>(a: &J, b: &J) -> Vec<(String, J)> {
    fn hash<T: Hash>(x: &T) -> u64 {
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    }
    match guarded(|| {
        let (x, y) = (T::fj(a), T::fj(b));
        let mut m = HashMap::new();
        m.insert(x.clone(), 1);
        let mut set = std::collections::HashSet::new();
        set.insert(y.clone());
        let found = vec![m.get(&y) == Some(&1), set.contains(&x), m.insert(y.clone(), 2).is_some(), !set.insert(x.clone())];
        (hash(&x) == hash(&y), found)
    }) {
        Ok((h, f)) => vec![("hash".into(), J::T(h)), ("found".into(), J::A(f.into_iter().map(J::T).collect()))],
        Err(()) => vec![("res".into(), s("panic"))],
    }
}

macro_rules! both {
    ($t:ty) => {
        Some(Ops { dec: dec_as::<$t>, enc: Some(|v, p, t| enc_as::<$t>(v, p, t, None)), same: Some(same_as::<$t>) })
    };
}
macro_rules! with_acc {
    ($t:ty) => {
        Some(Ops { dec: dec_as::<$t>, enc: Some(|v, p, t| enc_as::<$t>(v, p, t, Some(|x| x.acc()))), same: Some(same_as::<$t>) })
    };
}
macro_rules! dec_only {
    ($t:ty) => {
        Some(Ops { dec: dec_as::<$t>, enc: None, same: Some(same_as::<$t>) })
    };
}
/// Sections can be written only as part of a message or one by one through `Encode`.
macro_rules! with_opt {
    ($name:expr, $($k:expr => $t:ty),* $(,)?) => {
        match $name {
            $($k => return both!($t),)*
            $(concat!("opt:", $k) => return both!(Option<$t>),)*
            _ => {}
        }
    };
}

pub fn ops_for(name: &str) -> Option<Ops> {
    with_opt!(name,
        "bool" => bool, "ubyte" => u8, "ushort" => u16, "uint" => u32, "ulong" => u64,
        "byte" => i8, "short" => i16, "int" => i32, "long" => i64, "float" => f32, "double" => f64,
        "char" => char, "timestamp" => DateTime<Utc>, "uuid" => Uuid, "binary" => Bytes,
        "string" => ByteStr, "str" => Str, "symbol" => Symbol,
        "list" => List, "vecmap" => VecVariantMap,
        "map:symbol:variant" => HashMap<Symbol, Variant>,
        "map:string:variant" => HashMap<Str, Variant>,
        "map:variant:variant" => HashMap<Variant, Variant>,
        "map:symbol:opt:string" => HashMap<Symbol, Option<ByteStr>>,
        "map:uint:string" => HashMap<u32, ByteStr>,
        "map:ulong:binary" => HashMap<u64, Bytes>,
        "array:bool" => Vec<bool>, "array:ubyte" => Vec<u8>, "array:ushort" => Vec<u16>,
        "array:uint" => Vec<u32>, "array:ulong" => Vec<u64>, "array:byte" => Vec<i8>,
        "array:short" => Vec<i16>, "array:int" => Vec<i32>, "array:long" => Vec<i64>,
        "array:char" => Vec<char>,
        "array:timestamp" => Vec<DateTime<Utc>>, "array:uuid" => Vec<Uuid>,
        "array:binary" => Vec<Bytes>, "array:string" => Vec<ByteStr>, "array:symbol" => Vec<Symbol>,
        "array:map:symbol:variant" => Vec<HashMap<Symbol, Variant>>,
        "array:float" => Vec<f32>, "array:double" => Vec<f64>,
        "multiple:symbol" => Multiple<Symbol>,
        "messageid" => MessageId, "cond" => ErrorCondition, "distmode" => DistributionMode,
        "choice:Role" => Role, "choice:SenderSettleMode" => SenderSettleMode,
        "choice:ReceiverSettleMode" => ReceiverSettleMode, "choice:SaslCode" => SaslCode,
        "choice:TerminusDurability" => TerminusDurability,
        "choice:TerminusExpiryPolicy" => TerminusExpiryPolicy,
        "choice:AmqpError" => AmqpError, "choice:ConnectionError" => ConnectionError,
        "choice:SessionError" => SessionError, "choice:LinkError" => LinkError,
    );
    macro_rules! comps {
        ($($t:ident),*) => { match name {
            $(concat!("comp:", stringify!($t)) => return with_acc!($t),)*
            $(concat!("opt:comp:", stringify!($t)) => return both!(Option<$t>),)*
            _ => {}
        } };
    }
    comps!(Error, Open, Begin, Attach, Flow, Transfer, Disposition, Detach, End, Close, SaslMechanisms,
        SaslInit, SaslChallenge, SaslResponse, SaslOutcome, Source, Target, Header, Properties,
        Received, Accepted, Rejected, Released, Modified);
    match name {
        "variant" => both!(Variant),
        "transfer" => with_acc!(Transfer),
        "descriptor" => dec_only!(Descriptor),
        "union:DeliveryState" => with_acc!(DeliveryState),
        "union:Outcome" => with_acc!(Outcome),
        "union:SaslFrameBody" => with_acc!(SaslFrameBody),
        "union:Section" => both!(Section),
        "union:Performative" | "performative" => with_acc!(Frame),
        "amqpframe" => with_acc!(AmqpFrame),
        "saslframe" => with_acc!(SaslFrame),
        _ => None,
    }
}

pub fn dec(cmd: &J) -> J {
    let name = match cmd.get("rep") {
        Some(r) => r.str().to_string(),
        None => type_name(cmd.req("ty")),
    };
    let input = cmd.req("in").bytes();
    let r = if name.starts_with("message:") {
        crate::msg::dec_message(&name, &input)
    } else {
        (ops_for(&name).unwrap_or_else(|| bad(&format!("type {}", name))).dec)(&input)
    };
    J::O(r)
}

/// `AmqpFrame`s are encoded with their length prefix, which the decoder of a frame does not
/// take: the specification's reader of length prefixes comes first.
fn enc_framed<T: Encode + Decode + P + Debug>(v: &J, pre: &[u8], acc: fn(&T) -> J) -> Vec<(String, J)> {
    let x = T::fj(v);
    let mut r = enc_any(&x, pre);
    if r[0].1 != s("ok") {
        return r;
    }
    let out = r[2].1.bytes();
    let body = if out.len() >= 4 { &out[4..] } else { &out[..0] };
    let back = dec_as::<T>(body).into_iter().filter(|(k, _)| k != "peak").collect();
    r.push(("back".into(), J::O(back)));
    match guarded(|| acc(&x)) {
        Ok(v) => r.push(("acc".into(), v)),
        Err(()) => r[0].1 = s("panic"),
    }
    r
}

pub fn enc(cmd: &J) -> J {
    let name = match cmd.get("rep") {
        Some(r) => r.str().to_string(),
        None => type_name(cmd.req("ty")),
    };
    let (v, pre, tail) = (cmd.req("val"), cmd.req("pre").bytes(), cmd.req("tail").bytes());
    J::O(match name.as_str() {
        "amqpframe" => enc_framed::<AmqpFrame>(v, &pre, |x| x.acc()),
        "saslframe" => enc_framed::<SaslFrame>(v, &pre, |x| x.acc()),
        "ssymbol" => enc_any(&<StaticSymbol as P>::fj(v), &pre),
        "strslice" => enc_any(&*v.pay().text(), &pre),
        "descriptor" => enc_any(&<Descriptor as P>::fj(v), &pre),
        _ => {
            let o = ops_for(&name).unwrap_or_else(|| bad(&format!("type {}", name)));
            (o.enc.unwrap_or_else(|| bad("cannot encode")))(v, &pre, &tail)
        }
    })
}

pub fn same(cmd: &J) -> J {
    let name = type_name(cmd.req("ty"));
    let (a, b) = (cmd.req("a"), cmd.req("b"));
    if name == "body" {
        return J::O(same_as::<TransferBody>(a, b));
    }
    let o = ops_for(&name).unwrap_or_else(|| bad(&format!("type {}", name)));
    let mut r = (o.same.unwrap_or_else(|| bad("cannot compare")))(a, b);
    r.extend(match name.as_str() {
        "variant" => keys_as::<Variant>(a, b),
        "list" => keys_as::<List>(a, b),
        "descriptor" => keys_as::<Descriptor>(a, b),
        "multiple:symbol" => keys_as::<Multiple<Symbol>>(a, b),
        "symbol" => keys_as::<Symbol>(a, b),
        "str" => keys_as::<Str>(a, b),
        _ => vec![],
    });
    if r.iter().any(|(k, v)| k == "res" && *v == s("panic")) {
        r = vec![("res".into(), s("panic"))];
    }
    J::O(r)
}

fn instant(j: &J) -> Option<DateTime<Utc>> {
    let b = j.bytes();
    let mut a = [0u8; 8];
    a.copy_from_slice(&b[..8]);
    let mut c = [0u8; 4];
    c.copy_from_slice(&b[8..]);
    Utc.timestamp_opt(i64::from_be_bytes(a), u32::from_be_bytes(c)).single()
}
fn raw_instant(d: &DateTime<Utc>) -> J {
    let mut b = d.timestamp().to_be_bytes().to_vec();
    b.extend_from_slice(&d.timestamp_subsec_nanos().to_be_bytes());
    bytes(&b)
}

/// Timestamps with their seconds and nanoseconds spelled out.
pub fn time(cmd: &J) -> J {
    let poly = cmd.req("poly") == &J::T(true);
    J::O(match cmd.req("dir").str() {
        "dec" => {
            let mut input = vec![0x83u8];
            input.extend(cmd.req("ms").bytes());
            decode_with(
                |i| {
                    if poly {
                        Variant::decode(i).map(|(r, v)| match v {
                            Variant::Timestamp(d) => (raw_instant(&d), r.len()),
                            _ => (s("not a timestamp"), r.len()),
                        })
                    } else {
                        DateTime::<Utc>::decode(i).map(|(r, d)| (raw_instant(&d), r.len()))
                    }
                },
                &input,
            )
        }
        _ => match instant(cmd.req("at")) {
            None => bad("instant outside the calendar"),
            Some(d) => {
                let mut r = if poly { enc_any(&Variant::Timestamp(d), &[]) } else { enc_any(&d, &[]) };
                let arr = cmd.get("arr").is_some();
                if arr {
                    r = enc_any(&vec![d], &[]);
                }
                r
            }
        },
    })
}

#[allow(dead_code)]
fn unused(_: OrderedFloat<f32>) {}
