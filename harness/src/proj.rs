//! Projection between the specification's abstract values and the crate's types.
//! `to` reads a real object, `from` builds one; neither judges anything.
use crate::j::*;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{AmqpFrame, SaslFrame};
use bytes::Bytes;
use chrono::{DateTime, TimeZone, Utc};
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use std::hash::Hash;
use uuid::Uuid;

pub type ByteStr = string::String<Bytes>;

pub trait P: Sized {
    fn tj(&self) -> J;
    fn fj(j: &J) -> Self;
}

/// For accessors, which hand out references.
impl<'a, T: P> P for &'a T {
    fn tj(&self) -> J {
        (**self).tj()
    }
    fn fj(_: &J) -> Self {
        bad("reference")
    }
}

fn expect<'a>(j: &'a J, kind: &str) -> &'a J {
    if j.kind() != kind {
        bad(&format!("{} expected, got {:?}", kind, j));
    }
    j.pay()
}

macro_rules! num {
    ($t:ty, $kind:expr, $n:expr) => {
        impl P for $t {
            fn tj(&self) -> J {
                kv($kind, bytes(&self.to_be_bytes()))
            }
            fn fj(j: &J) -> Self {
                let mut a = [0u8; $n];
                a.copy_from_slice(&expect(j, $kind).bytes());
                <$t>::from_be_bytes(a)
            }
        }
    };
}
num!(u8, "ubyte", 1);
num!(u16, "ushort", 2);
num!(u32, "uint", 4);
num!(u64, "ulong", 8);
num!(i8, "byte", 1);
num!(i16, "short", 2);
num!(i32, "int", 4);
num!(i64, "long", 8);
num!(f32, "float", 4);
num!(f64, "double", 8);

impl P for bool {
    fn tj(&self) -> J {
        kv("bool", bytes(&[*self as u8]))
    }
    fn fj(j: &J) -> Self {
        expect(j, "bool").bytes()[0] == 1
    }
}
impl P for char {
    fn tj(&self) -> J {
        kv("char", bytes(&(*self as u32).to_be_bytes()))
    }
    fn fj(j: &J) -> Self {
        let mut a = [0u8; 4];
        a.copy_from_slice(&expect(j, "char").bytes());
        std::char::from_u32(u32::from_be_bytes(a)).unwrap_or_else(|| bad("char"))
    }
}
/// Whole milliseconds are projected as a timestamp, anything else as a raw instant.
impl P for DateTime<Utc> {
    fn tj(&self) -> J {
        let (secs, nanos) = (self.timestamp(), self.timestamp_subsec_nanos());
        let ms = secs as i128 * 1000 + (nanos / 1_000_000) as i128;
        if nanos % 1_000_000 == 0 && nanos < 1_000_000_000 && i64::try_from(ms).is_ok() {
            kv("timestamp", bytes(&(ms as i64).to_be_bytes()))
        } else {
            let mut b = secs.to_be_bytes().to_vec();
            b.extend_from_slice(&nanos.to_be_bytes());
            kv("instant", bytes(&b))
        }
    }
    fn fj(j: &J) -> Self {
        let mut a = [0u8; 8];
        a.copy_from_slice(&expect(j, "timestamp").bytes());
        let ms = i64::from_be_bytes(a);
        Utc.timestamp_opt(ms.div_euclid(1000), ms.rem_euclid(1000) as u32 * 1_000_000)
            .single()
            .unwrap_or_else(|| bad("timestamp"))
    }
}
impl P for Uuid {
    fn tj(&self) -> J {
        kv("uuid", bytes(self.as_bytes()))
    }
    fn fj(j: &J) -> Self {
        Uuid::from_slice(&expect(j, "uuid").bytes()).unwrap_or_else(|_| bad("uuid"))
    }
}
impl P for Bytes {
    fn tj(&self) -> J {
        kv("binary", bytes(self))
    }
    fn fj(j: &J) -> Self {
        Bytes::from(expect(j, "binary").bytes())
    }
}
impl P for ByteStr {
    fn tj(&self) -> J {
        kv("string", bytes(self.as_bytes()))
    }
    fn fj(j: &J) -> Self {
        ByteStr::from_str(&expect(j, "string").text())
    }
}
pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
/// Some texts become statically backed ones; which is a function of the text.
fn str_of(t: String) -> Str {
    if t.bytes().fold(t.len() as u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32)) % 3 == 0 {
        Str::from(leak(t))
    } else {
        Str::from_str(&t)
    }
}
impl P for Str {
    fn tj(&self) -> J {
        kv("string", bytes(self.as_bytes()))
    }
    fn fj(j: &J) -> Self {
        str_of(expect(j, "string").text())
    }
}
impl P for Symbol {
    fn tj(&self) -> J {
        kv("symbol", bytes(self.as_bytes()))
    }
    fn fj(j: &J) -> Self {
        Symbol(str_of(expect(j, "symbol").text()))
    }
}
impl P for StaticSymbol {
    fn tj(&self) -> J {
        kv("ssymbol", bytes(self.0.as_bytes()))
    }
    fn fj(j: &J) -> Self {
        StaticSymbol(leak(expect(j, "ssymbol").text()))
    }
}
impl<T: P> P for Option<T> {
    fn tj(&self) -> J {
        match self {
            None => kv("null", J::A(vec![])),
            Some(x) => x.tj(),
        }
    }
    fn fj(j: &J) -> Self {
        if j.is_null() {
            None
        } else {
            Some(T::fj(j))
        }
    }
}
fn seq<T: P>(kind: &str, v: &[T]) -> J {
    kv(kind, J::A(v.iter().map(|x| x.tj()).collect()))
}
fn unseq<T: P>(j: &J, kind: &str) -> Vec<T> {
    expect(j, kind).arr().iter().map(|x| T::fj(x)).collect()
}
impl<T: P> P for Vec<T> {
    fn tj(&self) -> J {
        seq("array", self)
    }
    fn fj(j: &J) -> Self {
        unseq(j, "array")
    }
}
impl<T: P> P for Multiple<T> {
    fn tj(&self) -> J {
        seq("multiple", &self.0)
    }
    fn fj(j: &J) -> Self {
        Multiple(unseq(j, "multiple"))
    }
}
impl P for List {
    fn tj(&self) -> J {
        seq("list", &self.0)
    }
    fn fj(j: &J) -> Self {
        List(unseq(j, "list"))
    }
}
fn pairs<'a, K: P + 'a, V: P + 'a>(kind: &str, it: impl Iterator<Item = (&'a K, &'a V)>) -> J {
    kv(kind, J::A(it.map(|(k, v)| J::A(vec![k.tj(), v.tj()])).collect()))
}
impl<K: P + Eq + Hash, V: P> P for HashMap<K, V> {
    fn tj(&self) -> J {
        pairs("map", self.iter())
    }
    fn fj(j: &J) -> Self {
        expect(j, "map").arr().iter().map(|kv| (K::fj(&kv.arr()[0]), V::fj(&kv.arr()[1]))).collect()
    }
}
impl P for VecVariantMap {
    fn tj(&self) -> J {
        pairs("vecmap", self.0.iter().map(|(k, v)| (k, v)))
    }
    fn fj(j: &J) -> Self {
        VecVariantMap(
            expect(j, "vecmap").arr().iter().map(|kv| (P::fj(&kv.arr()[0]), P::fj(&kv.arr()[1]))).collect(),
        )
    }
}
impl P for Descriptor {
    fn tj(&self) -> J {
        match self {
            Descriptor::Ulong(v) => v.tj(),
            Descriptor::Symbol(v) => v.tj(),
        }
    }
    fn fj(j: &J) -> Self {
        match j.kind() {
            "ulong" => Descriptor::Ulong(P::fj(j)),
            _ => Descriptor::Symbol(P::fj(j)),
        }
    }
}
impl P for Variant {
    fn tj(&self) -> J {
        match self {
            Variant::Null => kv("null", J::A(vec![])),
            Variant::Boolean(v) => v.tj(),
            Variant::Ubyte(v) => v.tj(),
            Variant::Ushort(v) => v.tj(),
            Variant::Uint(v) => v.tj(),
            Variant::Ulong(v) => v.tj(),
            Variant::Byte(v) => v.tj(),
            Variant::Short(v) => v.tj(),
            Variant::Int(v) => v.tj(),
            Variant::Long(v) => v.tj(),
            Variant::Float(v) => v.0.tj(),
            Variant::Double(v) => v.0.tj(),
            Variant::Char(v) => v.tj(),
            Variant::Timestamp(v) => v.tj(),
            Variant::Uuid(v) => v.tj(),
            Variant::Binary(v) => v.tj(),
            Variant::String(v) => v.tj(),
            Variant::Symbol(v) => v.tj(),
            Variant::StaticSymbol(v) => v.tj(),
            Variant::List(v) => v.tj(),
            Variant::Map(v) => v.map.tj(),
            Variant::Described(v) => kv("desc", J::A(vec![v.0.tj(), v.1.tj()])),
        }
    }
    fn fj(j: &J) -> Self {
        match j.kind() {
            "null" => Variant::Null,
            "bool" => Variant::Boolean(P::fj(j)),
            "ubyte" => Variant::Ubyte(P::fj(j)),
            "ushort" => Variant::Ushort(P::fj(j)),
            "uint" => Variant::Uint(P::fj(j)),
            "ulong" => Variant::Ulong(P::fj(j)),
            "byte" => Variant::Byte(P::fj(j)),
            "short" => Variant::Short(P::fj(j)),
            "int" => Variant::Int(P::fj(j)),
            "long" => Variant::Long(P::fj(j)),
            "float" => Variant::Float(OrderedFloat(P::fj(j))),
            "double" => Variant::Double(OrderedFloat(P::fj(j))),
            "char" => Variant::Char(P::fj(j)),
            "timestamp" => Variant::Timestamp(P::fj(j)),
            "uuid" => Variant::Uuid(P::fj(j)),
            "binary" => Variant::Binary(P::fj(j)),
            "string" => Variant::String(P::fj(j)),
            "symbol" => Variant::Symbol(P::fj(j)),
            "ssymbol" => Variant::StaticSymbol(P::fj(j)),
            "list" => Variant::List(P::fj(j)),
            "map" => Variant::Map(VariantMap::new(P::fj(j))),
            "desc" => {
                let a = j.pay().arr();
                Variant::Described((P::fj(&a[0]), Box::new(P::fj(&a[1]))))
            }
            k => bad(&format!("variant kind {}", k)),
        }
    }
}
impl P for MessageId {
    fn tj(&self) -> J {
        match self {
            MessageId::Ulong(v) => v.tj(),
            MessageId::Uuid(v) => v.tj(),
            MessageId::Binary(v) => v.tj(),
            MessageId::String(v) => v.tj(),
        }
    }
    fn fj(j: &J) -> Self {
        match j.kind() {
            "ulong" => MessageId::Ulong(P::fj(j)),
            "uuid" => MessageId::Uuid(P::fj(j)),
            "binary" => MessageId::Binary(P::fj(j)),
            _ => MessageId::String(P::fj(j)),
        }
    }
}

// Restricted types, by the names of their Rust variants.
pub trait Named: Sized {
    fn name(&self) -> &'static str;
    fn named(n: &str) -> Self;
}
macro_rules! names {
    ($t:ident: $($v:ident),*) => {
        impl Named for $t {
            fn name(&self) -> &'static str {
                #[allow(unreachable_patterns)]
                match self { $($t::$v => stringify!($v),)* _ => "?" }
            }
            fn named(n: &str) -> Self {
                match n { $(stringify!($v) => $t::$v,)* _ => bad("choice") }
            }
        }
    };
}
macro_rules! choice {
    ($t:ident: $($v:ident),*) => {
        names!($t: $($v),*);
        impl P for $t {
            fn tj(&self) -> J {
                kv("choice", J::A(vec![s(stringify!($t)), s(self.name())]))
            }
            fn fj(j: &J) -> Self {
                <$t>::named(expect(j, "choice").arr()[1].str())
            }
        }
    };
}
choice!(Role: Sender, Receiver);
choice!(SenderSettleMode: Unsettled, Settled, Mixed);
choice!(ReceiverSettleMode: First, Second);
choice!(SaslCode: Ok, Auth, Sys, SysPerm, SysTemp);
choice!(TerminusDurability: None, Configuration, UnsettledState);
choice!(TerminusExpiryPolicy: LinkDetach, SessionEnd, ConnectionClose, Never);
choice!(AmqpError: InternalError, NotFound, UnauthorizedAccess, DecodeError, ResourceLimitExceeded,
    NotAllowed, InvalidField, NotImplemented, ResourceLocked, PreconditionFailed, ResourceDeleted,
    IllegalState, FrameSizeTooSmall);
choice!(ConnectionError: ConnectionForced, FramingError, Redirect);
choice!(SessionError: WindowViolation, ErrantLink, HandleInUse, UnattachedHandle);
choice!(LinkError: DetachForced, TransferLimitExceeded, MessageSizeExceeded, Redirect, Stolen);

fn cond(group: &str, name: &str) -> J {
    kv("cond", J::A(vec![s(group), s(name)]))
}
impl P for ErrorCondition {
    fn tj(&self) -> J {
        match self {
            ErrorCondition::AmqpError(e) => cond("AmqpError", e.name()),
            ErrorCondition::ConnectionError(e) => cond("ConnectionError", e.name()),
            ErrorCondition::SessionError(e) => cond("SessionError", e.name()),
            ErrorCondition::LinkError(e) => cond("LinkError", e.name()),
            ErrorCondition::Custom(t) => kv("custom-cond", bytes(t.as_bytes())),
        }
    }
    fn fj(j: &J) -> Self {
        if j.kind() == "custom-cond" {
            return ErrorCondition::Custom(Symbol(str_of(j.pay().text())));
        }
        let a = expect(j, "cond").arr();
        match a[0].str() {
            "AmqpError" => ErrorCondition::AmqpError(Named::named(a[1].str())),
            "ConnectionError" => ErrorCondition::ConnectionError(Named::named(a[1].str())),
            "SessionError" => ErrorCondition::SessionError(Named::named(a[1].str())),
            "LinkError" => ErrorCondition::LinkError(Named::named(a[1].str())),
            _ => bad("condition group"),
        }
    }
}
impl P for DistributionMode {
    fn tj(&self) -> J {
        match self {
            DistributionMode::Move => kv("distmode", J::A(vec![s("Move")])),
            DistributionMode::Copy => kv("distmode", J::A(vec![s("Copy")])),
            DistributionMode::Custom(t) => kv("custom-distmode", bytes(t.as_bytes())),
        }
    }
    fn fj(j: &J) -> Self {
        if j.kind() == "custom-distmode" {
            return DistributionMode::Custom(Symbol(str_of(j.pay().text())));
        }
        match expect(j, "distmode").arr()[0].str() {
            "Move" => DistributionMode::Move,
            _ => DistributionMode::Copy,
        }
    }
}

/// What the accessors report, in field order.
pub trait Acc {
    fn acc(&self) -> J;
}
macro_rules! comp {
    ($t:ident: $($f:ident),*) => {
        impl P for $t {
            fn tj(&self) -> J {
                kv(stringify!($t), J::A(vec![$(P::tj(&self.$f)),*]))
            }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn fj(j: &J) -> Self {
                let a = expect(j, stringify!($t)).arr();
                let mut i = 0;
                $(
                    let $f = P::fj(&a[i]);
                    i += 1;
                )*
                $t { $($f),* }
            }
        }
        impl Acc for $t {
            fn acc(&self) -> J {
                kv(stringify!($t), J::A(vec![$(P::tj(&self.$f())),*]))
            }
        }
    };
}
comp!(Error: condition, description, info);
comp!(Open: container_id, hostname, max_frame_size, channel_max, idle_time_out, outgoing_locales,
    incoming_locales, offered_capabilities, desired_capabilities, properties);
comp!(Begin: remote_channel, next_outgoing_id, incoming_window, outgoing_window, handle_max,
    offered_capabilities, desired_capabilities, properties);
comp!(Attach: name, handle, role, snd_settle_mode, rcv_settle_mode, source, target, unsettled,
    incomplete_unsettled, initial_delivery_count, max_message_size, offered_capabilities,
    desired_capabilities, properties);
comp!(Flow: next_incoming_id, incoming_window, next_outgoing_id, outgoing_window, handle,
    delivery_count, link_credit, available, drain, echo, properties);
comp!(Transfer: handle, delivery_id, delivery_tag, message_format, settled, more, rcv_settle_mode,
    state, resume, aborted, batchable, body);
comp!(Disposition: role, first, last, settled, state, batchable);
comp!(Detach: handle, closed, error);
comp!(End: error);
comp!(Close: error);
comp!(SaslMechanisms: sasl_server_mechanisms);
comp!(SaslInit: mechanism, initial_response, hostname);
comp!(SaslChallenge: challenge);
comp!(SaslResponse: response);
comp!(SaslOutcome: code, additional_data);
comp!(Source: address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties,
    distribution_mode, filter, default_outcome, outcomes, capabilities);
comp!(Target: address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties,
    capabilities);
comp!(Header: durable, priority, ttl, first_acquirer, delivery_count);
comp!(Properties: message_id, user_id, to, subject, reply_to, correlation_id, content_type,
    content_encoding, absolute_expiry_time, creation_time, group_id, group_sequence,
    reply_to_group_id);
comp!(Received: section_number, section_offset);
comp!(Accepted: );
comp!(Rejected: error);
comp!(Released: );
comp!(Modified: delivery_failed, undeliverable_here, message_annotations);

macro_rules! union {
    ($t:ident: $($v:ident),*) => {
        impl P for $t {
            fn tj(&self) -> J {
                match self { $($t::$v(x) => P::tj(x),)* }
            }
            fn fj(j: &J) -> Self {
                match j.kind() { $(stringify!($v) => $t::$v(P::fj(j)),)* _ => bad("union member") }
            }
        }
        impl Acc for $t {
            fn acc(&self) -> J {
                match self { $($t::$v(x) => x.acc(),)* }
            }
        }
    };
}
union!(DeliveryState: Received, Accepted, Rejected, Released, Modified);
union!(Outcome: Accepted, Rejected, Released, Modified);
union!(SaslFrameBody: SaslMechanisms, SaslInit, SaslChallenge, SaslResponse, SaslOutcome);

impl P for Frame {
    fn tj(&self) -> J {
        match self {
            Frame::Open(x) => x.tj(),
            Frame::Begin(x) => x.tj(),
            Frame::Attach(x) => x.tj(),
            Frame::Flow(x) => x.tj(),
            Frame::Transfer(x) => x.tj(),
            Frame::Disposition(x) => x.tj(),
            Frame::Detach(x) => x.tj(),
            Frame::End(x) => x.tj(),
            Frame::Close(x) => x.tj(),
            Frame::Empty => kv("Empty", J::A(vec![])),
        }
    }
    fn fj(j: &J) -> Self {
        match j.kind() {
            "Open" => Frame::Open(P::fj(j)),
            "Begin" => Frame::Begin(P::fj(j)),
            "Attach" => Frame::Attach(P::fj(j)),
            "Flow" => Frame::Flow(P::fj(j)),
            "Transfer" => Frame::Transfer(P::fj(j)),
            "Disposition" => Frame::Disposition(P::fj(j)),
            "Detach" => Frame::Detach(P::fj(j)),
            "End" => Frame::End(P::fj(j)),
            "Close" => Frame::Close(P::fj(j)),
            "Empty" => Frame::Empty,
            _ => bad("performative"),
        }
    }
}
impl Acc for Frame {
    fn acc(&self) -> J {
        let r = match self {
            Frame::Open(x) => x.acc(),
            Frame::Begin(x) => x.acc(),
            Frame::Attach(x) => x.acc(),
            Frame::Flow(x) => x.acc(),
            Frame::Transfer(x) => x.acc(),
            Frame::Disposition(x) => x.acc(),
            Frame::Detach(x) => x.acc(),
            Frame::End(x) => x.acc(),
            Frame::Close(x) => x.acc(),
            Frame::Empty => kv("Empty", J::A(vec![])),
        };
        // the name reported by the frame itself
        kv(self.name(), r.pay().clone())
    }
}
impl P for AmqpFrame {
    fn tj(&self) -> J {
        let (ch, p) = self.clone().into_parts();
        kv("frame", J::A(vec![ch.tj(), p.tj()]))
    }
    fn fj(j: &J) -> Self {
        let a = expect(j, "frame").arr();
        AmqpFrame::new(P::fj(&a[0]), P::fj(&a[1]))
    }
}
impl Acc for AmqpFrame {
    fn acc(&self) -> J {
        kv("frame", J::A(vec![self.channel_id().tj(), self.performative().acc()]))
    }
}
impl P for SaslFrame {
    fn tj(&self) -> J {
        kv("saslframe", J::A(vec![self.body.tj()]))
    }
    fn fj(j: &J) -> Self {
        let b = &expect(j, "saslframe").arr()[0];
        // through the conversions a user would use
        match b.kind() {
            "SaslMechanisms" => <SaslMechanisms as P>::fj(b).into(),
            "SaslInit" => <SaslInit as P>::fj(b).into(),
            "SaslChallenge" => <SaslChallenge as P>::fj(b).into(),
            "SaslResponse" => <SaslResponse as P>::fj(b).into(),
            _ => <SaslOutcome as P>::fj(b).into(),
        }
    }
}
impl Acc for SaslFrame {
    fn acc(&self) -> J {
        kv("saslframe", J::A(vec![self.body.acc()]))
    }
}
/// Sections: `[section name, [content]]`, composites as themselves.
impl P for Section {
    fn tj(&self) -> J {
        let one = |k: &str, x: J| kv(k, J::A(vec![x]));
        match self {
            Section::Header(x) => P::tj(x),
            Section::Properties(x) => P::tj(x),
            Section::DeliveryAnnotations(x) => one("DeliveryAnnotations", x.tj()),
            Section::MessageAnnotations(x) => one("MessageAnnotations", x.tj()),
            Section::ApplicationProperties(x) => one("ApplicationProperties", x.tj()),
            Section::Data(x) => one("Data", x.tj()),
            Section::AmqpSequence(x) => one("AmqpSequence", x.tj()),
            Section::AmqpValue(x) => one("AmqpValue", x.tj()),
            Section::Footer(x) => one("Footer", x.tj()),
        }
    }
    fn fj(j: &J) -> Self {
        let x = || &j.pay().arr()[0];
        match j.kind() {
            "Header" => Section::Header(P::fj(j)),
            "Properties" => Section::Properties(P::fj(j)),
            "DeliveryAnnotations" => Section::DeliveryAnnotations(P::fj(x())),
            "MessageAnnotations" => Section::MessageAnnotations(P::fj(x())),
            "ApplicationProperties" => Section::ApplicationProperties(P::fj(x())),
            "Data" => Section::Data(P::fj(x())),
            "AmqpSequence" => Section::AmqpSequence(P::fj(x())),
            "AmqpValue" => Section::AmqpValue(P::fj(x())),
            "Footer" => Section::Footer(P::fj(x())),
            _ => bad("section"),
        }
    }
}
/// A payload received is raw bytes; one to be sent may be a message under construction.
impl P for TransferBody {
    fn tj(&self) -> J {
        match self {
            TransferBody::Data(b) => b.tj(),
            TransferBody::MessageIn(_) => kv("payload-in", J::A(vec![])),
            TransferBody::MessageOut(_) => kv("payload-out", J::A(vec![])),
        }
    }
    fn fj(j: &J) -> Self {
        match j.kind() {
            "binary" => TransferBody::Data(P::fj(j)),
            "encoded" => TransferBody::Data(crate::msg::payload_bytes(j).into()),
            _ => crate::msg::payload(j),
        }
    }
}
