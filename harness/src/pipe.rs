//! A connection: a sending buffer, a receiving buffer, and the stream codecs over them.
use crate::{guarded, mark, peak_since};
use crate::j::*;
use crate::ops::err_result;
use crate::proj::P;
use amqp_codec::protocol::ProtocolId;
use amqp_codec::{AmqpCodec, AmqpFrame, ProtocolIdCodec, SaslFrame};
use bytes::{BufMut, BytesMut};
use std::fmt::Debug;
use tokio_io::codec::{Decoder, Encoder};

struct Conn {
    tx: BytesMut,
    rx: BytesMut,
    /// what the reading side writes back
    back: BytesMut,
    amqp: AmqpCodec<AmqpFrame>,
    sasl: AmqpCodec<SaslFrame>,
    proto: ProtocolIdCodec,
    /// the writing side has codecs of its own
    amqp_w: AmqpCodec<AmqpFrame>,
    sasl_w: AmqpCodec<SaslFrame>,
    proto_w: ProtocolIdCodec,
}

fn proto_j(p: &ProtocolId) -> J {
    kv("proto", J::A(vec![J::N(*p as i64)]))
}
fn proto_of(j: &J) -> ProtocolId {
    match j.pay().arr()[0].num() {
        0 => ProtocolId::Amqp,
        2 => ProtocolId::AmqpTls,
        3 => ProtocolId::AmqpSasl,
        _ => bad("protocol id"),
    }
}

fn take<D: Decoder>(d: &mut D, rx: &mut BytesMut, eof: bool, show: fn(&D::Item) -> J) -> Vec<(String, J)>
where
    D::Error: Debug,
{
    // the end of a stream is reported as an I/O error by the default implementation
    match guarded(|| {
        if eof {
            d.decode_eof(rx)
        } else {
            d.decode(rx)
        }
    }) {
        Ok(Ok(None)) => vec![("res".into(), s("none"))],
        Ok(Ok(Some(x))) => vec![("res".into(), s("item")), ("val".into(), show(&x))],
        Ok(Err(e)) => err_result(&format!("{:?}", e)),
        Err(()) => vec![("res".into(), s("panic"))],
    }
}
fn put<E: Encoder>(e: &mut E, tx: &mut BytesMut, item: E::Item) -> Vec<(String, J)>
where
    E::Error: Debug,
{
    let before = tx.to_vec();
    match guarded(|| e.encode(item, tx)) {
        Ok(Ok(())) => {
            let intact = tx.len() >= before.len() && tx[..before.len()] == before[..];
            let from = before.len().min(tx.len());
            vec![
                ("res".into(), s("ok")),
                ("pre_ok".into(), J::T(intact)),
                ("out".into(), bytes(&tx[from..])),
            ]
        }
        Ok(Err(e)) => err_result(&format!("{:?}", e)),
        Err(()) => vec![("res".into(), s("panic"))],
    }
}

pub fn run(cmd: &J, emit: &mut dyn FnMut(J)) {
    let prefill = cmd.req("prefill").bytes();
    let mut tx = BytesMut::with_capacity(cmd.req("txcap").num() as usize + prefill.len());
    tx.put_slice(&prefill);
    let mut c = Conn {
        tx,
        rx: BytesMut::with_capacity(cmd.req("rxcap").num() as usize),
        back: BytesMut::with_capacity(cmd.req("txcap").num() as usize),
        amqp: AmqpCodec::new(),
        sasl: AmqpCodec::new(),
        proto: ProtocolIdCodec,
        amqp_w: AmqpCodec::default(),
        sasl_w: AmqpCodec::default(),
        proto_w: ProtocolIdCodec,
    };
    let turns: Option<Vec<String>> = cmd.get("turns").map(|t| t.arr().iter().map(|x| x.str().to_string()).collect());
    let mut turn = 0;
    for step in cmd.req("steps").arr() {
        let codec = step.get("codec").map(|x| x.str().to_string()).unwrap_or_default();
        let mut r = match step.req("do").str() {
            "w" => {
                let v = step.req("val");
                match codec.as_str() {
                    "amqp" => put(&mut c.amqp_w, &mut c.tx, P::fj(v)),
                    "sasl" => put(&mut c.sasl_w, &mut c.tx, P::fj(v)),
                    _ => put(&mut c.proto_w, &mut c.tx, proto_of(v)),
                }
            }
            // the reading side's own codecs write, whatever they are reading
            "b" => {
                let v = step.req("val");
                match codec.as_str() {
                    "amqp" => put(&mut c.amqp, &mut c.back, P::fj(v)),
                    "sasl" => put(&mut c.sasl, &mut c.back, P::fj(v)),
                    _ => put(&mut c.proto, &mut c.back, proto_of(v)),
                }
            }
            "i" => {
                c.tx.extend_from_slice(&step.req("in").bytes());
                vec![("res".into(), s("ok"))]
            }
            "d" => {
                let k = (step.req("k").num() as usize).min(c.tx.len());
                let chunk = c.tx.split_to(k);
                c.rx.extend_from_slice(&chunk);
                vec![("res".into(), s("ok")), ("moved".into(), n(k))]
            }
            // "t" polls the reader whose turn it is
            op @ "p" | op @ "e" | op @ "t" => {
                let eof = op == "e";
                let codec = match (op, &turns) {
                    ("t", Some(t)) if turn < t.len() => t[turn].clone(),
                    ("t", Some(t)) => t[t.len() - 1].clone(),
                    _ => codec,
                };
                let (had, start) = (c.rx.len(), mark());
                let mut r = match codec.as_str() {
                    "amqp" => take(&mut c.amqp, &mut c.rx, eof, |x| x.tj()),
                    "sasl" => take(&mut c.sasl, &mut c.rx, eof, |x| x.tj()),
                    _ => take(&mut c.proto, &mut c.rx, eof, proto_j),
                };
                r.push(("had".into(), n(had)));
                r.push(("peak".into(), n(peak_since(start))));
                if op == "t" {
                    turn += (r[0].1 != s("none")) as usize;
                    r.push(("codec".into(), s(&codec)));
                }
                r
            }
            _ => bad("pipe step"),
        };
        let dead = r[0].1 == s("panic");
        r.push(("rx".into(), n(c.rx.len())));
        r.push(("tx".into(), n(c.tx.len())));
        emit(J::O(r));
        if dead {
            break;
        }
    }
}
