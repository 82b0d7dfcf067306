//! Messages under construction: histories of edits and observations over a few slots.
use crate::j::*;
use crate::ops::{enc_any, err_result};
use crate::proj::P;
use crate::{guarded, mark, peak_since};
use amqp_codec::protocol::{Properties, TransferBody};
use amqp_codec::types::{ByteStr, List, Str, Variant};
use amqp_codec::{Decode, Encode, InMessage, MessageBody, OutMessage};
use bytes::{Bytes, BytesMut};

#[derive(Clone)]
enum Msg {
    In(InMessage),
    Out(OutMessage),
}
type Slots = Vec<Option<Msg>>;

fn set_prop(p: &mut Properties, f: &str, v: &J) {
    macro_rules! fields {
        ($($f:ident),*) => { match f { $(stringify!($f) => p.$f = P::fj(v),)* _ => bad("property") } };
    }
    fields!(message_id, user_id, to, subject, reply_to, correlation_id, content_type, content_encoding,
        absolute_expiry_time, creation_time, group_id, group_sequence, reply_to_group_id)
}

/// What one closure does to the properties.
fn props_edit(p: &mut Properties, e: &J) {
    match e.req("do").str() {
        "set_prop" => set_prop(p, e.req("f").str(), e.req("val")),
        "raise" => p.group_sequence = Some(p.group_sequence.map_or(1, |n| n.wrapping_add(1))),
        "lengthen" => {
            let more = <ByteStr as P>::fj(e.req("val"));
            p.subject = Some(match p.subject.take() {
                Some(text) => ByteStr::from_str(&format!("{}{}", &*text, &*more)),
                None => more,
            })
        }
        x => bad(&format!("edit of properties {}", x)),
    }
}

/// What one closure does to the body.
fn body_edit(b: &mut MessageBody, e: &J, slots: &Slots) {
    match e.req("do").str() {
        "set_data" => b.set_data(<Bytes as P>::fj(e.req("val"))),
        "push_data" => b.data.push(P::fj(e.req("val"))),
        "pop_data" => {
            b.data.pop();
        }
        "turn_data" => b.data.reverse(),
        "push_seq" => b.sequence.push(<List as P>::fj(e.req("val"))),
        "body_value" => b.value = e.req("vals").arr().get(0).map(|v| P::fj(v)),
        "push_msg" => b.messages.push(body_of(e.req("p"), slots)),
        "clear_body" => *b = MessageBody::default(),
        x => bad(&format!("edit of a body {}", x)),
    }
}

fn body_of(p: &J, slots: &Slots) -> TransferBody {
    match p.kind() {
        "binary" => TransferBody::Data(P::fj(p)),
        "slot" => match slots[p.pay().arr()[0].num() as usize].clone() {
            Some(Msg::In(m)) => m.into(),
            Some(Msg::Out(m)) => m.into(),
            None => bad("payload from an empty slot"),
        },
        _ => payload(p),
    }
}

macro_rules! kind {
    ($name:ident, $t:ident) => {
        fn $name(m: $t, e: &J, slots: &Slots) -> $t {
            match e.req("do").str() {
                "set_header" => m.set_header(P::fj(e.req("val"))),
                "set_prop" | "raise" | "lengthen" => m.set_properties(|p| props_edit(p, e)),
                "set_props" => m.set_properties(|p| e.req("es").arr().iter().for_each(|e| props_edit(p, e))),
                "set_app" => m.set_app_property(<Str as P>::fj(e.req("k")), <Variant as P>::fj(e.req("val"))),
                "set_value" => m.set_value(<Variant as P>::fj(e.req("val"))),
                "set_data" | "push_data" | "pop_data" | "turn_data" | "push_seq" | "body_value" | "push_msg" | "clear_body" => {
                    m.set_body(|b| body_edit(b, e, slots))
                }
                "body" => m.set_body(|b| e.req("es").arr().iter().for_each(|e| body_edit(b, e, slots))),
                "format" => {
                    let mut m = m;
                    m.message_format = e.req("vals").arr().get(0).map(|v| P::fj(v));
                    m
                }
                "look" => {
                    let _ = m.encoded_size();
                    m
                }
                "update" => m.update(|m| e.req("es").arr().iter().fold(m, |m, e| $name(m, e, slots))),
                "if_some" => {
                    let on = if e.req("on") == &J::T(true) { Some(7) } else { None };
                    m.if_some(&on, |m, v| {
                        if *v != 7 {
                            panic!("if_some passed on another value")
                        }
                        e.req("es").arr().iter().fold(m, |m, e| $name(m, e, slots))
                    })
                }
                x => bad(&format!("edit {}", x)),
            }
        }
    };
}
kind!(edit_in, InMessage);
kind!(edit_out, OutMessage);

/// A payload described as a message: `["built", [kind, [edits]]]`.
pub fn payload(j: &J) -> TransferBody {
    if j.kind() != "built" && j.kind() != "encoded" {
        bad("payload")
    }
    let a = j.pay().arr();
    let es = a[1].arr().iter();
    match a[0].str() {
        "in" => es.fold(InMessage::default(), |m, e| edit_in(m, e, &Vec::new())).into(),
        _ => es.fold(OutMessage::default(), |m, e| edit_out(m, e, &Vec::new())).into(),
    }
}

/// The bytes of such a message: `["encoded", [kind, [edits]]]`.
pub fn payload_bytes(j: &J) -> Vec<u8> {
    enc_bytes(&payload(j))
}

fn enc_bytes<T: Encode>(m: &T) -> Vec<u8> {
    let mut b = BytesMut::with_capacity(m.encoded_size() * 2 + (1 << 17));
    m.encode(&mut b);
    b.to_vec()
}
fn opt<T: P>(x: Option<&T>) -> J {
    J::A(x.into_iter().map(|v| v.tj()).collect())
}

/// Everything the accessors show, and what a copy encodes to; the message itself is not touched.
fn obs(m: &Msg, keys: &[J]) -> Result<J, ()> {
    guarded(|| {
        macro_rules! view {
            ($m:expr, $kind:expr, $app:expr) => {{
                let c = $m.clone();
                let b: &MessageBody = $m.body();
                if b.value() != b.value.as_ref() || $m.value() != b.value() || b.data() != b.data.first() {
                    return J::O(vec![("accessors".into(), s("disagree"))]);
                }
                J::O(vec![
                    ("kind".into(), s($kind)),
                    ("fmt".into(), opt($m.message_format.as_ref())),
                    ("h".into(), opt($m.header())),
                    ("p".into(), opt($m.properties())),
                    ("app".into(), $app),
                    ("value".into(), opt($m.value())),
                    ("data".into(), J::A(b.data.iter().map(|x| x.tj()).collect())),
                    ("seq".into(), J::A(b.sequence.iter().map(|x| x.tj()).collect())),
                    ("msgs".into(), J::A(b.messages.iter().map(|x| match x.clone() {
                        TransferBody::Data(d) => kv("binary", bytes(&d)),
                        TransferBody::MessageIn(m) => kv("in", bytes(&enc_bytes(&m))),
                        TransferBody::MessageOut(m) => kv("out", bytes(&enc_bytes(&m))),
                    }).collect())),
                    ("enc".into(), bytes(&enc_bytes(&c))),
                ])
            }};
        }
        match m {
            Msg::In(m) => view!(m, "in", J::A(keys.iter().map(|k| {
                let t = k.text();
                J::A(vec![k.clone(), opt(m.app_property(&t))])
            }).collect())),
            Msg::Out(m) => view!(m, "out", opt(m.app_properties())),
        }
    })
}

fn decode(kind: &str, input: &[u8]) -> (Vec<(String, J)>, Option<Msg>) {
    let start = mark();
    let r = guarded(|| match kind {
        "in" => InMessage::decode(input).map(|(r, m)| (r.len(), Msg::In(m))),
        _ => OutMessage::decode(input).map(|(r, m)| (r.len(), Msg::Out(m))),
    });
    let peak = n(peak_since(start));
    match r {
        Ok(Ok((rem, m))) => (
            vec![("res".into(), s("ok")), ("rem".into(), n(rem)), ("peak".into(), peak)],
            Some(m),
        ),
        Ok(Err(e)) => {
            let mut r = err_result(&format!("{:?}", e));
            r.push(("peak".into(), peak));
            (r, None)
        }
        Err(()) => (vec![("res".into(), s("panic")), ("peak".into(), peak)], None),
    }
}

/// One message decoded on its own.
pub fn dec_message(name: &str, input: &[u8]) -> Vec<(String, J)> {
    let (mut r, m) = decode(&name["message:".len()..], input);
    if let Some(m) = m {
        match obs(&m, &[]) {
            Ok(o) => r.push(("obs".into(), o)),
            Err(()) => r[0].1 = s("panic"),
        }
    }
    r
}

/// Whether every slot that payloads are taken from holds a message.
fn refers(j: &J, slots: &Slots) -> bool {
    match j {
        J::O(fields) => fields.iter().all(|(_, v)| refers(v, slots)),
        J::A(a) if a.len() == 2 && a[0] == s("slot") => {
            slots.get(a[1].arr()[0].num() as usize).map_or(false, |m| m.is_some())
        }
        J::A(a) => a.iter().all(|v| refers(v, slots)),
        _ => true,
    }
}

fn step(st: &J, slots: &mut Slots, keys: &[J]) -> Vec<(String, J)> {
    let slot = st.req("slot").num() as usize;
    while slots.len() <= slot {
        slots.push(None);
    }
    let kind = st.get("kind").map(|k| k.str().to_string()).unwrap_or_default();
    let ok = || vec![("res".to_string(), s("ok"))];
    let from = st.get("from").map(|x| x.num() as usize);
    let what = st.req("do").str();
    let needs = match what {
        "new" | "with_body" | "with_messages" | "decode" => None,
        _ => Some(from.unwrap_or(slot)),
    };
    if let Some(k) = needs {
        if slots.get(k).map_or(true, |x| x.is_none()) || slots[slot].is_none() && what == "eq" {
            return vec![("res".into(), s("skip"))];
        }
    }
    let mut r;
    if !refers(st, slots) {
        return vec![("res".into(), s("skip"))];
    }
    match what {
        "new" => {
            slots[slot] = Some(if kind == "in" { Msg::In(Default::default()) } else { Msg::Out(Default::default()) });
            r = ok();
        }
        "with_body" => {
            let b = <Bytes as P>::fj(st.req("val"));
            slots[slot] = Some(if kind == "in" { Msg::In(InMessage::with_body(b)) } else { Msg::Out(OutMessage::with_body(b)) });
            r = ok();
        }
        "with_messages" => {
            let ps = st.req("ps").arr().iter().map(|p| body_of(p, slots)).collect();
            slots[slot] = Some(if kind == "in" { Msg::In(InMessage::with_messages(ps)) } else { Msg::Out(OutMessage::with_messages(ps)) });
            r = ok();
        }
        "decode" => {
            // the bytes given, or the current encoding of another message
            let input = match from {
                None => st.req("in").bytes(),
                Some(k) => match &slots[k] {
                    None => return vec![("res".into(), s("skip"))],
                    Some(Msg::In(m)) => enc_bytes(m),
                    Some(Msg::Out(m)) => enc_bytes(m),
                },
            };
            let (res, m) = decode(&kind, &input);
            r = res;
            if m.is_none() {
                slots[slot] = None;
                return r;
            }
            slots[slot] = m;
            r.push(("input".into(), bytes(&input)));
        }
        "edit" => {
            let snapshot = slots.clone();
            let e = st.req("e");
            let m = slots[slot].take().unwrap();
            slots[slot] = Some(match m {
                Msg::In(m) => Msg::In(edit_in(m, e, &snapshot)),
                Msg::Out(m) => Msg::Out(edit_out(m, e, &snapshot)),
            });
            r = ok();
        }
        "size" => {
            let k = match slots[slot].as_ref().unwrap() {
                Msg::In(m) => m.encoded_size(),
                Msg::Out(m) => m.encoded_size(),
            };
            r = ok();
            r.push(("size".into(), n(k)));
        }
        "enc" => {
            r = match slots[slot].as_ref().unwrap() {
                Msg::In(m) => enc_any(m, &[1, 2, 3]),
                Msg::Out(m) => enc_any(m, &[1, 2, 3]),
            };
            if r[0].1 != s("ok") {
                return r;
            }
        }
        "clone" => {
            slots[slot] = slots[from.unwrap()].clone();
            r = ok();
        }
        "eq" => {
            let other = from.unwrap();
            let e = match (slots[slot].as_ref().unwrap(), slots[other].as_ref().unwrap()) {
                (Msg::In(a), Msg::In(b)) => a == b,
                (Msg::Out(a), Msg::Out(b)) => a == b,
                _ => return vec![("res".into(), s("skip"))],
            };
            r = ok();
            r.push(("eq".into(), J::T(e)));
        }
        "reply" => {
            slots[slot] = Some(Msg::Out(match slots[from.unwrap()].as_ref().unwrap() {
                Msg::In(m) => m.reply_message(),
                Msg::Out(m) => m.reply_message(),
            }));
            r = ok();
        }
        x => bad(&format!("message step {}", x)),
    }
    match obs(slots[slot].as_ref().unwrap(), keys) {
        Ok(o) => r.push(("obs".into(), o)),
        Err(()) => r[0].1 = s("panic"),
    }
    r
}

pub fn run(cmd: &J, emit: &mut dyn FnMut(J)) {
    let keys = cmd.req("keys").arr().to_vec();
    let mut slots: Slots = Vec::new();
    for st in cmd.req("steps").arr() {
        let r = match guarded(|| step(st, &mut slots, &keys)) {
            Ok(r) => r,
            Err(()) => vec![("res".into(), s("panic"))],
        };
        let dead = r[0].1 == s("panic");
        emit(J::O(r));
        if dead {
            break;
        }
    }
}
