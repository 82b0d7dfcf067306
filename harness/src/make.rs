//! Conversions and constructors: objects made of objects, and what can be read off them.
use crate::guarded;
use crate::j::*;
use crate::ops::err_result;
use crate::proj::{leak, ByteStr, P};
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpFrame, AmqpParseError, Encode, InMessage, OutMessage, SaslFrame};
use bytes::{Bytes, BytesMut};
use chrono::{DateTime, Utc};
use ordered_float::OrderedFloat;
use uuid::Uuid;

type Got = Result<Vec<J>, AmqpParseError>;

fn num(x: usize) -> J {
    kv("n", J::A(vec![n(x)]))
}
fn name(x: &str) -> J {
    kv("name", J::A(vec![s(x)]))
}
/// The same thing made in several ways: once if they agree.
fn agreed(mut all: Vec<J>) -> Vec<J> {
    all.dedup();
    all
}

fn variant(j: &J) -> Vec<J> {
    let v: Vec<Variant> = match j.kind() {
        "bool" => vec![<bool as P>::fj(j).into()],
        "ubyte" => vec![<u8 as P>::fj(j).into()],
        "ushort" => vec![<u16 as P>::fj(j).into()],
        "uint" => vec![<u32 as P>::fj(j).into()],
        "ulong" => vec![<u64 as P>::fj(j).into()],
        "byte" => vec![<i8 as P>::fj(j).into()],
        "short" => vec![<i16 as P>::fj(j).into()],
        "int" => vec![<i32 as P>::fj(j).into()],
        "long" => vec![<i64 as P>::fj(j).into()],
        "float" => vec![OrderedFloat(<f32 as P>::fj(j)).into()],
        "double" => vec![OrderedFloat(<f64 as P>::fj(j)).into()],
        "char" => vec![<char as P>::fj(j).into()],
        "timestamp" => vec![<DateTime<Utc> as P>::fj(j).into()],
        "uuid" => vec![<Uuid as P>::fj(j).into()],
        "binary" => vec![<Bytes as P>::fj(j).into()],
        "string" => {
            let t = j.pay().text();
            let still: &'static str = leak(t.clone());
            vec![
                <Str as P>::fj(j).into(),
                <ByteStr as P>::fj(j).into(),
                Variant::from(still),
                Str::from(still).into(),
                Str::from_str(&t).into(),
                Str::from(ByteStr::from_str(&t)).into(),
            ]
        }
        "symbol" => {
            let t = j.pay().text();
            let still: &'static str = leak(t.clone());
            vec![
                <Symbol as P>::fj(j).into(),
                Symbol::from(still).into(),
                Symbol::from_slice(&t).into(),
                Symbol::from(ByteStr::from_str(&t)).into(),
            ]
        }
        "ssymbol" => vec![<StaticSymbol as P>::fj(j).into(), StaticSymbol::from(leak(j.pay().text())).into()],
        "list" => vec![<List as P>::fj(j).into()],
        "map" => vec![VariantMap::new(P::fj(j)).into()],
        "desc" => {
            let a = j.pay().arr();
            vec![(<Descriptor as P>::fj(&a[0]), Box::new(<Variant as P>::fj(&a[1]))).into()]
        }
        k => bad(&format!("variant of {}", k)),
    };
    agreed(v.iter().map(|x| x.tj()).collect())
}

/// A text, in all the ways it can be read: the characters, a shared copy, the length, and itself.
fn reading(j: &J) -> Vec<J> {
    let t = j.pay().text();
    let still: &'static str = leak(t.clone());
    macro_rules! read {
        ($x:expr, $v:expr) => {{
            let (x, v): (_, Variant) = ($x, $v);
            let bs = |b: &[u8]| kv("string", bytes(b));
            vec![
                agreed(vec![bs(x.as_str().as_bytes()), bs(x.as_bytes()), v.as_str().map_or(s("none"), |y| bs(y.as_bytes()))]),
                agreed(vec![bs(x.as_bytes_str().as_bytes()), v.as_bytes_str().map_or(s("none"), |y| bs(y.as_bytes()))]),
                vec![num(x.len())],
                vec![v.tj()],
            ]
            .into_iter()
            .flatten()
            .collect::<Vec<J>>()
        }};
    }
    let all = if j.kind() == "string" {
        let xs = vec![Str::from(still), Str::from_str(&t), Str::from(ByteStr::from_str(&t)), <Str as P>::fj(j)];
        xs.into_iter().map(|x| read!(x.clone(), Variant::String(x))).collect::<Vec<_>>()
    } else {
        let xs = vec![Symbol::from(still), Symbol::from_slice(&t), Symbol::from(ByteStr::from_str(&t)), <Symbol as P>::fj(j)];
        xs.into_iter().map(|x| read!(x.clone(), Variant::Symbol(x))).collect::<Vec<_>>()
    };
    let mut all = all;
    all.dedup();
    all.concat()
}

/// Any value read as a text, if it is one, and compared with a text.
fn worded(v: &J, t: &J) -> Vec<J> {
    let x: Variant = P::fj(v);
    let y = t.pay().text();
    let none = || kv("null", J::A(vec![]));
    vec![
        x.as_str().map_or_else(none, |b| kv("string", bytes(b.as_bytes()))),
        x.as_bytes_str().map_or_else(none, |b| kv("string", bytes(b.as_bytes()))),
        (x == *y.as_str()).tj(),
        x.tj(),
        t.clone(),
    ]
}

fn frame(j: &J) -> Vec<J> {
    let f: Frame = match j.kind() {
        "Open" => <Open as P>::fj(j).into(),
        "Begin" => <Begin as P>::fj(j).into(),
        "Attach" => <Attach as P>::fj(j).into(),
        "Flow" => <Flow as P>::fj(j).into(),
        "Transfer" => <Transfer as P>::fj(j).into(),
        "Disposition" => <Disposition as P>::fj(j).into(),
        "Detach" => <Detach as P>::fj(j).into(),
        "End" => <End as P>::fj(j).into(),
        "Close" => <Close as P>::fj(j).into(),
        "Empty" => Frame::Empty,
        _ => bad("performative"),
    };
    vec![f.tj(), name(f.name())]
}

fn sasl(j: &J) -> Vec<J> {
    let two: [SaslFrame; 2] = match j.kind() {
        "SaslMechanisms" => [<SaslMechanisms as P>::fj(j).into(), SaslFrame::new(P::fj(j))],
        "SaslInit" => [<SaslInit as P>::fj(j).into(), SaslFrame::new(P::fj(j))],
        "SaslChallenge" => [<SaslChallenge as P>::fj(j).into(), SaslFrame::new(P::fj(j))],
        "SaslResponse" => [<SaslResponse as P>::fj(j).into(), SaslFrame::new(P::fj(j))],
        _ => [<SaslOutcome as P>::fj(j).into(), SaslFrame::new(P::fj(j))],
    };
    agreed(two.iter().map(|x| x.tj()).collect())
}

fn payload(j: &J) -> Vec<J> {
    fn enc<T: Encode>(m: &T) -> J {
        let mut b = BytesMut::with_capacity(m.encoded_size() * 2 + (1 << 17));
        m.encode(&mut b);
        kv("binary", bytes(&b))
    }
    if j.kind() == "binary" {
        let p: TransferBody = <Bytes as P>::fj(j).into();
        return vec![p.tj(), num(p.len()), p.message_format().tj()];
    }
    let p: TransferBody = match crate::msg::payload(j) {
        TransferBody::MessageIn(m) => {
            let m: InMessage = m;
            m.into()
        }
        TransferBody::MessageOut(m) => {
            let m: OutMessage = m;
            m.into()
        }
        p => p,
    };
    let len = num(p.len());
    let e = enc(&p);
    let what = match p {
        TransferBody::Data(_) => "data",
        TransferBody::MessageIn(_) => "in",
        TransferBody::MessageOut(_) => "out",
    };
    vec![e, len, p.message_format().tj(), name(what)]
}

fn seq(j: &J) -> Vec<J> {
    macro_rules! seen {
        ($x:expr) => {{
            let x = $x;
            let mut r = vec![x.tj(), num(x.len()), x.is_empty().tj()];
            r.extend(x.iter().map(|v| v.tj()));
            r
        }};
    }
    if j.kind() == "list" {
        seen!(<List as P>::fj(j))
    } else {
        let v: Vec<Symbol> = j.pay().arr().iter().map(|x| P::fj(x)).collect();
        let mut m: Multiple<Symbol> = v.clone().into();
        let mut grown: Multiple<Symbol> = Default::default();
        for x in v {
            grown.push(x);
        }
        let again: Vec<Symbol> = m.drain(..).collect();
        let same = grown.first() == again.first() && grown.last() == again.last() && grown.as_slice() == &again[..];
        if grown.0 != again || !m.is_empty() || !same {
            return vec![s("differs")];
        }
        seen!(grown)
    }
}

fn cond(j: &J) -> Vec<J> {
    if j.kind() == "symbol" {
        return vec![ErrorCondition::from(<Symbol as P>::fj(j)).tj()];
    }
    vec![match <ErrorCondition as P>::fj(j) {
        ErrorCondition::AmqpError(e) => ErrorCondition::from(e),
        ErrorCondition::ConnectionError(e) => e.into(),
        ErrorCondition::SessionError(e) => e.into(),
        ErrorCondition::LinkError(e) => e.into(),
        ErrorCondition::Custom(e) => e.into(),
    }
    .tj()]
}

fn messageid(j: &J) -> Vec<J> {
    let m: MessageId = match j.kind() {
        "ulong" => <u64 as P>::fj(j).into(),
        "uuid" => <Uuid as P>::fj(j).into(),
        "binary" => <Bytes as P>::fj(j).into(),
        _ => <ByteStr as P>::fj(j).into(),
    };
    vec![m.tj()]
}

fn make(way: &str, args: &[J]) -> Got {
    macro_rules! choice {
        ($t:ident, $base:ty) => {
            $t::try_from(<$base as P>::fj(&args[0])).map(|x| vec![x.tj()])
        };
    }
    macro_rules! group {
        ($t:ident) => {
            $t::try_from(&<Symbol as P>::fj(&args[0])).map(|x| vec![ErrorCondition::$t(x).tj()])
        };
    }
    Ok(match way {
        "variant" => variant(&args[0]),
        "messageid" => messageid(&args[0]),
        "reading" => reading(&args[0]),
        "worded" => worded(&args[0], &args[1]),
        "cond" => cond(&args[0]),
        "frame" => frame(&args[0]),
        "saslframe" => sasl(&args[0]),
        "amqpframe" => {
            let f = AmqpFrame::new(P::fj(&args[0]), P::fj(&args[1]));
            let mut r = vec![f.channel_id().tj(), f.performative().tj()];
            let (c, p) = f.into_parts();
            r.extend(vec![c.tj(), p.tj()]);
            r
        }
        "payload" => payload(&args[0]),
        "response" => {
            let t: Vec<String> = args.iter().map(|x| x.pay().text()).collect();
            vec![SaslInit::prepare_response(&t[0], &t[1], &t[2]).tj()]
        }
        "seq" => seq(&args[0]),
        "properties" => vec![Properties::default().tj()],
        "Role" => return choice!(Role, bool),
        "SenderSettleMode" => return choice!(SenderSettleMode, u8),
        "ReceiverSettleMode" => return choice!(ReceiverSettleMode, u8),
        "SaslCode" => return choice!(SaslCode, u8),
        "TerminusDurability" => return choice!(TerminusDurability, u32),
        "TerminusExpiryPolicy" => {
            return TerminusExpiryPolicy::try_from(&<Symbol as P>::fj(&args[0])).map(|x| vec![x.tj()])
        }
        "AmqpError" => return group!(AmqpError),
        "ConnectionError" => return group!(ConnectionError),
        "SessionError" => return group!(SessionError),
        "LinkError" => return group!(LinkError),
        x => bad(&format!("way {}", x)),
    })
}

pub fn run(cmd: &J) -> J {
    let (way, args) = (cmd.req("way").str(), cmd.req("args").arr());
    J::O(match guarded(|| make(way, args)) {
        Ok(Ok(v)) => vec![("res".into(), s("ok")), ("got".into(), J::A(v))],
        Ok(Err(e)) => err_result(&format!("{:?}", e)),
        Err(()) => vec![("res".into(), s("panic"))],
    })
}
