"""Changes that break a property yet compile and pass the tests. plant.py turns each into seeded/<id>."""
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append({"id": id, "property": property, "needs": needs, "breaks": breaks, "edits": edits, "demo": demo})


ENC, DEC, DEF = "src/codec/encode.rs", "src/codec/decode.rs", "src/protocol/definitions.rs"
IO, IN, OUT, BODY, PROTO = "src/io.rs", "src/message/inmessage.rs", "src/message/outmessage.rs", "src/message/body.rs", "src/protocol/mod.rs"
TYPES, SYM, VAR = "src/types/mod.rs", "src/types/symbol.rs", "src/types/variant.rs"

bug("list-255", "C01", "a list whose items take exactly 255 bytes",
    "the short list form is used although size + count byte no longer fit one byte: the size wraps to 0",
    [(ENC, """        // format_code + size + count
        (if content_size + 1 > u8::MAX as usize {""", """        // format_code + size + count
        (if content_size > u8::MAX as usize {"""),
     (ENC, """        let size = list_encoded_size(self);
        if size + 1 > u8::MAX as usize {""", """        let size = list_encoded_size(self);
        if size > u8::MAX as usize {""")],
    """
fn main() {
    for n in 250..260 {
        let v = Variant::List(List(vec![Variant::Binary(Bytes::from(vec![7u8; n - 2]))]));
        let b = enc(&v);
        let (rest, back) = Variant::decode(&b).expect("decodes");
        assert!(rest.is_empty() && back == v, "list of {} bytes of items", n);
    }
}
""")

bug("vecmap-size", "C03", "an ordered map whose entries take exactly 255 bytes",
    "encoded_size announces the short form where the long one is written",
    [(ENC, """            .fold(0, |r, (k, v)| r + k.encoded_size() + v.encoded_size());

        // f:1 + s:4 + c:4 vs f:1 + s:1 + c:1
        let preamble = if size + 1 > u8::MAX as usize { 9 } else { 3 };""",
      """            .fold(0, |r, (k, v)| r + k.encoded_size() + v.encoded_size());

        // f:1 + s:4 + c:4 vs f:1 + s:1 + c:1
        let preamble = if size > u8::MAX as usize { 9 } else { 3 };""")],
    """
fn main() {
    for n in 240..260 {
        let mut m = VecVariantMap::default();
        m.push(("k".into(), Variant::Binary(Bytes::from(vec![7u8; n]))));
        assert_eq!(m.encoded_size(), enc(&m).len(), "map holding {} bytes", n);
        let msg = OutMessage::default().set_app_property("k", Variant::Binary(Bytes::from(vec![7u8; n])));
        assert_eq!(msg.encoded_size(), enc(&msg).len());
    }
}
""")

bug("flow-swap", "C05", "a flow that carries both delivery-count and link-credit, from or to another implementation",
    "encoder and decoder both exchange delivery-count and link-credit: round trips hold, the wire does not",
    [(DEF, """    list.delivery_count.encode(buf);
    list.link_credit.encode(buf);
    list.available.encode(buf);""", """    list.link_credit.encode(buf);
    list.delivery_count.encode(buf);
    list.available.encode(buf);"""),
     (DEF, """    let delivery_count: Option<SequenceNo>;
    if count > 0 {
        let decoded = Option::<SequenceNo>::decode(input)?;
        input = decoded.0;
        delivery_count = decoded.1;
        count -= 1;
    } else {
        delivery_count = None;
    }
    let link_credit: Option<u32>;
    if count > 0 {
        let decoded = Option::<u32>::decode(input)?;
        input = decoded.0;
        link_credit = decoded.1;
        count -= 1;
    } else {
        link_credit = None;
    }
""", """    let link_credit: Option<u32>;
    if count > 0 {
        let decoded = Option::<u32>::decode(input)?;
        input = decoded.0;
        link_credit = decoded.1;
        count -= 1;
    } else {
        link_credit = None;
    }
    let delivery_count: Option<SequenceNo>;
    if count > 0 {
        let decoded = Option::<SequenceNo>::decode(input)?;
        input = decoded.0;
        delivery_count = decoded.1;
        count -= 1;
    } else {
        delivery_count = None;
    }
""")],
    """
fn main() {
    // next-incoming-id, incoming-window, next-outgoing-id, outgoing-window, handle, delivery-count, link-credit
    let b = b"\\x00\\x53\\x13\\xc0\\x0f\\x07\\x52\\x01\\x52\\x02\\x52\\x03\\x52\\x04\\x52\\x05\\x52\\x06\\x52\\x07";
    let (_, f) = Flow::decode(b).expect("decodes");
    assert_eq!((f.delivery_count, f.link_credit), (Some(6), Some(7)));
}
""")

bug("frame-held-back", "C08", "exactly one whole frame in the buffer when the decoder looks",
    "a frame that has just arrived in full is handed out only once something more is polled for",
    [(IO, "                    if len < size {\n                        // extend", "                    if len <= size {\n                        // extend")],
    """
fn main() {
    let frame = AmqpFrame::new(1, Frame::Close(Close { error: None }));
    let b = enc(&frame);
    let mut codec = AmqpCodec::<AmqpFrame>::new();
    let mut rx = BytesMut::with_capacity(64);
    rx.extend_from_slice(&b);
    match codec.decode(&mut rx) {
        Ok(Some(f)) => assert!(f == frame),
        x => panic!("a whole frame is there, got {:?}", x),
    }
}
""")

bug("leftover-clears", "C09", "a frame with bytes left over, followed by a good frame in the same read",
    "everything received is dropped along with the bad frame",
    [(IO, """                        // todo: could it really happen?
                        return""", """                        // no way to tell where it went wrong
                        src.clear();
                        return""")],
    """
fn main() {
    let good = AmqpFrame::new(1, Frame::End(End { error: None }));
    let mut bytes = b"\\x00\\x00\\x00\\x10\\x02\\x00\\x00\\x00\\x00\\x53\\x18\\xc0\\x02\\x01\\x40\\x40".to_vec();
    bytes.extend_from_slice(&enc(&good));
    let mut rx = BytesMut::from(bytes);
    let mut codec = AmqpCodec::<AmqpFrame>::new();
    assert!(codec.decode(&mut rx).is_err());
    match codec.decode(&mut rx) {
        Ok(Some(f)) => assert!(f == good),
        x => panic!("the next frame is lost: {:?}", x),
    }
}
""")

bug("doff-wraps", "C10", "an extended header of 248 bytes or more (data offset from 64)",
    "the data offset is multiplied in 8 bits and wraps",
    [(DEC, "    let doff = doff as usize * 4;", "    let doff = doff.wrapping_mul(4) as usize;")],
    """
fn main() {
    for doff in vec![2u8, 3, 63, 64, 66, 200, 255] {
        let mut b = vec![doff, 0, 0, 7];
        b.extend(vec![0xffu8; doff as usize * 4 - 8]);
        b.extend_from_slice(b"\\x00\\x53\\x17\\xc0\\x02\\x01\\x40");
        let (rest, f) = AmqpFrame::decode(&b).expect("decodes");
        assert!(rest.is_empty() && f.channel_id() == 7 && f.performative().name() == "End");
    }
}
""")

bug("header-revision", "C11", "a protocol header with another revision",
    "the revision byte is not looked at",
    [(IO, "} else if &src[5..8] != PROTOCOL_VERSION {", "} else if &src[5..7] != &PROTOCOL_VERSION[..2] {")],
    """
fn main() {
    let mut ok = BytesMut::from(b"AMQP\\x00\\x01\\x00\\x00".to_vec());
    assert_eq!(ProtocolIdCodec.decode(&mut ok).unwrap(), Some(ProtocolId::Amqp));
    let mut b = BytesMut::from(b"AMQP\\x00\\x01\\x00\\x01".to_vec());
    match ProtocolIdCodec.decode(&mut b) {
        Err(ProtocolIdError::Incompatible) => (),
        x => panic!("{:?}", x),
    }
}
""")

bug("list-short", "C12", "a list that claims more items than its declared size holds",
    "a list ends quietly where its bytes do, whatever its count says",
    [(DEC, "            let (new_input, decoded) = Variant::decode(input)?;",
      """            let (new_input, decoded) = match Variant::decode(input) {
                Err(AmqpParseError::Incomplete(_)) => break,
                result => result?,
            };""")],
    """
fn main() {
    assert!(Variant::decode(b"\\xc0\\x03\\x02\\x41\\x42").is_ok());
    assert!(Variant::decode(b"\\xc0\\x03\\x03\\x41\\x42\\x41").is_err(), "two items for three");
}
""")

bug("priority-omitted", "C13", "a header section that ends before priority",
    "the default of an omitted priority is 0; a null one still counts as 4",
    [(DEF, "        priority = 4;", "        priority = 0;")],
    """
fn main() {
    for b in vec![&b"\\x00\\x53\\x70\\x45"[..], &b"\\x00\\x53\\x70\\xc0\\x02\\x01\\x41"[..], &b"\\x00\\x53\\x70\\xc0\\x03\\x02\\x41\\x40"[..]] {
        let (_, h) = Header::decode(b).expect("decodes");
        assert_eq!(h.priority, 4);
    }
}
""")

bug("string-from-symbol", "C14", "a symbol where a string is called for",
    "short symbols are taken for strings",
    [(DEC, """            codec::FORMATCODE_STRING8 => {
                let (input, bytes) = read_bytes_u8(input)?;
                Ok((input, ByteStr::from_str(str::from_utf8(bytes)?)))""",
      """            codec::FORMATCODE_STRING8 | codec::FORMATCODE_SYMBOL8 => {
                let (input, bytes) = read_bytes_u8(input)?;
                Ok((input, ByteStr::from_str(str::from_utf8(bytes)?)))""")],
    """
fn main() {
    assert!(ByteStr::decode(b"\\xa1\\x01a").is_ok());
    assert!(ByteStr::decode(b"\\xa3\\x01a").is_err());
    assert!(Open::decode(b"\\x00\\x53\\x10\\xc0\\x04\\x01\\xa3\\x01a").is_err());
}
""")

bug("second-sequence", "C15", "a message with several amqp-sequence sections",
    "each sequence section replaces the one before",
    [(IN, "                    message.body.sequence.push(val);", "                    message.body.sequence = vec![val];")],
    """
fn main() {
    let msg = OutMessage::default().set_body(|b| {
        b.sequence.push(List(vec![Variant::Ubyte(1)]));
        b.sequence.push(List(vec![Variant::Ubyte(2)]));
    });
    let b = enc(&msg);
    let back = InMessage::decode(&b).expect("decodes").1;
    assert_eq!(back.body().sequence, msg.body().sequence);
}
""")

bug("stale-props-size", "C16", "properties changed a second time after the size was asked for",
    "the cached size survives a change to properties that already exist",
    [(OUT, """        if let Some(ref mut props) = self.properties {
            f(props);
        } else {
            let mut props = Properties::default();
            f(&mut props);
            self.properties = Some(props);
        }
        self.size.set(0);
        self""", """        if let Some(ref mut props) = self.properties {
            f(props);
        } else {
            let mut props = Properties::default();
            f(&mut props);
            self.properties = Some(props);
            self.size.set(0);
        }
        self""")],
    """
fn main() {
    let msg = OutMessage::default().set_properties(|p| p.message_id = Some(1.into()));
    let n = msg.encoded_size();
    assert_eq!(n, enc(&msg).len());
    let msg = msg.set_properties(|p| p.subject = Some(string("something longer")));
    assert_eq!(msg.encoded_size(), enc(&msg).len());
}
""")

bug("app-property-kept", "C17", "the same application property set twice on a received message",
    "the first value wins",
    [(IN, """        if let Some(ref mut props) = self.application_properties {
            props.insert(key.into(), value.into());""", """        if let Some(ref mut props) = self.application_properties {
            props.entry(key.into()).or_insert_with(|| value.into());""")],
    """
fn main() {
    let m = InMessage::default().set_app_property("k", 1).set_app_property("k", 2);
    assert_eq!(m.app_property("k"), Some(&Variant::from(2)));
}
""")

bug("aborted-payload", "C18", "a transfer that is aborted and has a payload",
    "the payload of an aborted transfer is not taken: bytes are left over and the frame fails",
    [(DEF, "    let body = if remainder.is_empty() {", "    let body = if remainder.is_empty() || aborted {")],
    """
fn main() {
    for aborted in vec![false, true] {
        let t = Transfer { handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false,
            rcv_settle_mode: None, state: None, resume: false, aborted, batchable: false,
            body: Some(TransferBody::Data(Bytes::from_static(b"payload"))) };
        let frame = AmqpFrame::new(3, Frame::Transfer(t));
        let mut rx = BytesMut::from(enc(&frame));
        match AmqpCodec::<AmqpFrame>::new().decode(&mut rx) {
            Ok(Some(f)) => assert!(f == frame),
            x => panic!("{:?}", x),
        }
    }
}
""")

bug("timestamp-truncates", "C19", "an instant before 1970 with a part of a millisecond, or one after 2262",
    "milliseconds are taken from nanoseconds, rounding towards 1970 instead of down and overflowing far out",
    [(ENC, "let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());",
      "let timestamp = self.timestamp_nanos() / 1_000_000;")],
    """
use chrono::{TimeZone, Utc};
fn main() {
    let t = Utc.timestamp(-2, 999_999_999);
    assert_eq!(&enc(&t)[1..], &(-1001i64).to_be_bytes()[..]);
}
""")

bug("static-hash", "C20", "a key made from a static string, looked up by its text",
    "static strings hash as bytes, others as text",
    [(TYPES, "            Str::Static(s) => s.hash(state),", "            Str::Static(s) => s.as_bytes().hash(state),")],
    """
fn main() {
    let m = InMessage::default().set_app_property("static", 1);
    assert!(m.app_property("static").is_some());
    let m = InMessage::default().set_app_property(string("dynamic"), 1);
    assert!(m.app_property("dynamic").is_some());
}
""")

bug("big-frame-room", "C21", "a frame larger than 32 KiB written into a buffer with little room",
    "room for 32 KiB is made whatever the frame needs",
    [(IO, "            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));", "            dst.reserve(SIZE_HIGH_WM);")],
    """
fn main() {
    let t = Transfer { handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false,
        rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false,
        body: Some(TransferBody::Data(Bytes::from(vec![1u8; 40000]))) };
    let frame = AmqpFrame::new(3, Frame::Transfer(t));
    let mut codec = AmqpCodec::<AmqpFrame>::new();
    let mut tx = BytesMut::new();
    codec.encode(frame.clone(), &mut tx).unwrap();
    match codec.decode(&mut tx) {
        Ok(Some(f)) => assert!(f == frame),
        x => panic!("{:?}", x.is_ok()),
    }
}
""")

bug("uuid-15", "C06", "input that ends one byte into the last of a UUID's sixteen",
    "the length check is one short and slicing panics",
    [(DEC, "        decode_check_len!(input, 16);", "        decode_check_len!(input, 15);")],
    """
fn main() {
    for n in 0..17 {
        let b = vec![0x98u8; n];
        assert!(uuid::Uuid::decode(&b).is_err());
    }
}
""")

bug("binary32-short", "C07", "truncated input within a binary in its long form",
    "a binary32 that is cut short is taken for a shorter one",
    [(DEC, """    let (input, len) = result?;
    let len = len as usize;
    decode_check_len!(input, len);""", """    let (input, len) = result?;
    let len = std::cmp::min(len as usize, input.len());""")],
    """
fn main() {
    assert!(Bytes::decode(b"\\xb0\\x00\\x00\\x00\\x03abc").is_ok());
    assert!(Bytes::decode(b"\\xb0\\x00\\x00\\x00\\x03ab").is_err());
}
""")

bug("static-symbol-long", "C04", "a static symbol of more than 255 bytes",
    "its long form is written with the format code of a string",
    [(ENC, """        let length = self.0.len();
        if length > u8::MAX as usize {
            buf.put_u8(codec::FORMATCODE_SYMBOL32);""", """        let length = self.0.len();
        if length > u8::MAX as usize {
            buf.put_u8(codec::FORMATCODE_STRING32);""")],
    """
fn main() {
    let s: &'static str = Box::leak("x".repeat(256).into_boxed_str());
    let b = enc(&StaticSymbol(s));
    assert_eq!(b[0], 0xb3);
    assert_eq!(Variant::decode(&b).expect("decodes").1, Variant::Symbol(symbol(s)));
}
""")

bug("flow-accessor", "C02", "the link-credit accessor of a flow",
    "the accessor shows another field",
    [(DEF, """    pub fn link_credit(&self) -> Option<u32> {
        self.link_credit""", """    pub fn link_credit(&self) -> Option<u32> {
        self.delivery_count""")],
    """
fn main() {
    let b = b"\\x00\\x53\\x13\\xc0\\x0f\\x07\\x52\\x01\\x52\\x02\\x52\\x03\\x52\\x04\\x52\\x05\\x52\\x06\\x52\\x07";
    let (_, f) = Flow::decode(b).expect("decodes");
    assert_eq!((f.delivery_count(), f.link_credit()), (f.delivery_count, f.link_credit));
}
""")


bug("long-129", "C01", "a long (or int) of exactly -129",
    "the one-byte form is used for -129, which comes back as 127",
    [(ENC, "if *self > i64::from(i8::MAX) || *self < i64::from(i8::MIN) {", "if *self > i64::from(i8::MAX) || *self < i64::from(i8::MIN) - 1 {", "impl Encode for i64"),
     (ENC, "if *self > i64::from(i8::MAX) || *self < i64::from(i8::MIN) {", "if *self > i64::from(i8::MAX) || *self < i64::from(i8::MIN) - 1 {", "buf.put_i8(*self as i8);\n        }\n    }\n}\n\nimpl ArrayEncode for i32")],
    """
fn main() {
    for n in -140..140i64 {
        let v = Variant::Long(n);
        assert_eq!(Variant::decode(&enc(&v)).unwrap().1, v);
    }
}
""")

bug("negative-zero", "C01", "a double that is negative zero",
    "not-a-numbers and zeros are normalised on the way in: the sign of a zero is lost",
    [(DEC, """            codec::FORMATCODE_DOUBLE => f64::decode_with_format(input, fmt)
                .map(|(i, o)| (i, Variant::Double(OrderedFloat(o)))),""",
      """            codec::FORMATCODE_DOUBLE => f64::decode_with_format(input, fmt)
                .map(|(i, o)| (i, Variant::Double(OrderedFloat(o + 0.0)))),""")],
    """
fn main() {
    for b in &[0u64, 1 << 63, 1, 0x3ff0_0000_0000_0000] {
        let v = Variant::Double(f64::from_bits(*b).into());
        assert_eq!(enc(&Variant::decode(&enc(&v)).unwrap().1), enc(&v));
    }
}
""")

bug("unsettled-empty", "C02", "an attach whose unsettled map is present and empty",
    "an empty unsettled map is taken for none",
    [(DEF, "        unsettled = decoded.1;", "        unsettled = decoded.1.filter(|map| !map.is_empty());")],
    """
fn main() {
    for unsettled in vec![None, Some(Map::new())] {
        let a = Attach { name: string("l"), handle: 0, role: Role::Sender, snd_settle_mode: SenderSettleMode::Mixed,
            rcv_settle_mode: ReceiverSettleMode::First, source: None, target: None, unsettled: unsettled.clone(), incomplete_unsettled: false,
            initial_delivery_count: None, max_message_size: None, offered_capabilities: None, desired_capabilities: None, properties: None };
        assert_eq!(Attach::decode(&enc(&a)).unwrap().1.unsettled, unsettled);
    }
}
""")

bug("channel-signed", "C02", "a frame on a channel from 32768 up",
    "the top bit of the channel is lost on the way out",
    [(ENC, "        buf.put_u16_be(self.channel_id());", "        buf.put_i16_be(self.channel_id() as i16 & std::i16::MAX);")],
    """
fn main() {
    for c in vec![0, 1, 255, 256, 32767, 32768, 65535] {
        let f = AmqpFrame::new(c, Frame::Close(Close { error: None }));
        assert_eq!(AmqpFrame::decode(&enc(&f)[4..]).unwrap().1.channel_id(), c);
    }
}
""")

bug("properties-255", "C03", "message properties whose fields take exactly 255 bytes",
    "the announced size is that of the short form where the long one is written",
    [(DEF, "    (if content_size + 1 > u8::MAX as usize {", "    (if content_size > u8::MAX as usize {", "fn encoded_size_properties_inner")],
    """
fn main() {
    for n in 200..260 {
        let mut p = Properties::default();
        p.user_id = Some(Bytes::from(vec![1u8; n]));
        assert_eq!(p.encoded_size(), enc(&p).len(), "user id of {}", n);
    }
}
""")

bug("static-chars", "C03", "a statically stored string that is not all ASCII",
    "its length is counted in characters",
    [(TYPES, "            Str::Static(s) => s.len(),", "            Str::Static(s) => s.chars().count(),")],
    """
fn main() {
    let v: Variant = "gr\\u{fc}\\u{df}e".into();
    assert_eq!(v.encoded_size(), enc(&v).len());
}
""")

bug("value-symbol", "C05", "a message whose amqp-value section has a symbolic descriptor",
    "the descriptor's name is misspelt",
    [(DEF, '"amqp:amqp-value:*"', '"amqp:value:*"')],
    """
fn main() {
    let m = InMessage::decode(b"\\x00\\xa3\\x11amqp:amqp-value:*\\x41").expect("decodes").1;
    assert_eq!(m.value(), Some(&Variant::Boolean(true)));
}
""")

bug("message-id-zero", "C05", "a message id of zero in its zero-width form",
    "the form is not known to message ids",
    [(PROTO, "codec::FORMATCODE_SMALLULONG | codec::FORMATCODE_ULONG | codec::FORMATCODE_ULONG_0 => {", "codec::FORMATCODE_SMALLULONG | codec::FORMATCODE_ULONG => {")],
    """
fn main() {
    assert_eq!(MessageId::decode(b"\\x44").expect("decodes").1, MessageId::Ulong(0));
}
""")

bug("list0-gone", "C05", "a composite given as the empty list",
    "the empty-list form is known in values but not in composites",
    [(DEC, "        codec::FORMATCODE_LIST0 => Ok((input, CompoundHeader::empty())),\n", "        codec::FORMATCODE_LIST0 if input.is_empty() => Ok((input, CompoundHeader::empty())),\n")],
    """
fn main() {
    // a rejected state without error, inside a disposition, then settled and batchable
    let b = b"\\x00\\x53\\x15\\xc0\\x0a\\x06\\x41\\x43\\x40\\x41\\x00\\x53\\x25\\x45\\x41";
    let d = Disposition::decode(b).expect("decodes").1;
    assert_eq!(d.state, Some(DeliveryState::Rejected(Rejected { error: None })));
}
""")

bug("ext-panic", "C06", "a frame that ends inside or just after its extended header",
    "the length check leaves out the fixed part and slicing panics",
    [(DEC, "    decode_check_len!(input, ext_header_len + 4);", "    decode_check_len!(input, ext_header_len);")],
    """
fn main() {
    for n in 4..20 {
        let mut b = vec![4u8, 0, 0, 0];
        b.resize(n, 0);
        let _ = AmqpFrame::decode(&b);
    }
}
""")

bug("accepted-panic", "C06", "an accepted outcome that is cut short of its declared size",
    "slicing past the end panics",
    [(DEF, "    decode_check_len!(input, size);\n    let mut remainder = &input[size..];\n    Ok((remainder, Accepted {}))",
      "    let mut remainder = &input[size..];\n    Ok((remainder, Accepted {}))")],
    """
fn main() {
    assert!(Accepted::decode(b"\\x00\\x53\\x24\\xc0\\x09\\x00").is_err());
}
""")

bug("message-tail", "C07", "a message cut within the first bytes of a section",
    "what is too short for a section is dropped",
    [(IN, "            let (buf, sec) = Section::decode(input)?;", """            let (buf, sec) = match Section::decode(input) {
                Err(AmqpParseError::Incomplete(_)) if message.header.is_some() => return Ok((&[], message)),
                result => result?,
            };""")],
    """
fn main() {
    let m = InMessage::default().set_header(Header { durable: true, priority: 4, ttl: None, first_acquirer: false, delivery_count: 0 });
    let b = enc(&m);
    let head = enc(m.header().unwrap()).len();
    assert!(InMessage::decode(&b[..head]).is_ok());
    for n in head + 1..b.len() {
        assert!(InMessage::decode(&b[..n]).is_err(), "{} bytes", n);
    }
}
""")

bug("heartbeat-alone", "C08", "a heartbeat that is alone in the buffer",
    "heartbeats that arrive alone are dropped, those followed by something are reported",
    [(IO, """                    // todo: max frame size check
""", """                    if size == HEADER_LEN && len == HEADER_LEN {
                        // nothing to decode yet
                        src.clear();
                        return Ok(None);
                    }
                    // todo: max frame size check
""")],
    """
fn main() {
    let mut rx = BytesMut::from(enc(&AmqpFrame::new(0, Frame::Empty)));
    let mut c = AmqpCodec::<AmqpFrame>::new();
    assert_eq!(c.decode(&mut rx).unwrap(), Some(AmqpFrame::new(0, Frame::Empty)));
}
""")

bug("incomplete-waits", "C09", "a frame whose content ends before its fields do, with another frame behind it",
    "the frame is dropped without a report",
    [(IO, "                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;",
      """                    let (remainder, frame) = match T::decode(frame_buf.as_ref()) {
                        Err(AmqpParseError::Incomplete(_)) => return Ok(None),
                        result => result?,
                    };""")],
    """
fn main() {
    let mut rx = BytesMut::from(b"\\x00\\x00\\x00\\x0e\\x02\\x00\\x00\\x00\\x00\\x53\\x17\\xc0\\x09\\x01".to_vec());
    let mut c = AmqpCodec::<AmqpFrame>::new();
    assert!(c.decode(&mut rx).is_err());
}
""")

bug("doff-low", "C10", "a data offset of less than two words",
    "it is taken for two",
    [(DEC, "    if doff < HEADER_LEN {\n        return Err(AmqpParseError::InvalidSize);\n    }\n    let ext_header_len = doff - HEADER_LEN;",
      "    let ext_header_len = doff.saturating_sub(HEADER_LEN);")],
    """
fn main() {
    assert!(AmqpFrame::decode(b"\\x02\\x00\\x00\\x00").is_ok());
    assert!(AmqpFrame::decode(b"\\x01\\x00\\x00\\x00").is_err());
    assert!(AmqpFrame::decode(b"\\x00\\x00\\x00\\x00").is_err());
}
""")

bug("type-bit", "C10", "a frame of type 2 or above",
    "only the lowest bit of the type is looked at",
    [(DEC, "    if frame_type != expected_frame_type {", "    if frame_type & framing::FRAME_TYPE_SASL != expected_frame_type {")],
    """
fn main() {
    assert!(AmqpFrame::decode(b"\\x02\\x00\\x00\\x00").is_ok());
    assert!(AmqpFrame::decode(b"\\x02\\x02\\x00\\x00").is_err());
}
""")

bug("header-no-room", "C11", "a protocol header written into a full buffer",
    "no room is made for it",
    [(IO, "        dst.reserve(PROTOCOL_HEADER_LEN);", "        dst.reserve(PROTOCOL_HEADER_LEN - PROTOCOL_VERSION.len());")],
    """
fn main() {
    for room in 0..12 {
        let mut b = BytesMut::with_capacity(64);
        let n = b.remaining_mut() - room;
        b.extend_from_slice(&vec![0u8; n]);
        ProtocolIdCodec.encode(ProtocolId::Amqp, &mut b).unwrap();
        assert_eq!(&b[n..], b"AMQP\\x00\\x01\\x00\\x00");
    }
}
""")

bug("header-early", "C11", "a wrong protocol header that arrives in pieces",
    "a wrong prefix is reported after four bytes, which are all that is taken",
    [(IO, """        if src.len() < PROTOCOL_HEADER_LEN {
            Ok(None)""", """        if src.len() < PROTOCOL_HEADER_LEN {
            if src.len() > 4 && !src.starts_with(PROTOCOL_HEADER_PREFIX) {
                src.clear();
                return Err(ProtocolIdError::InvalidHeader);
            }
            Ok(None)""")],
    """
fn main() {
    let mut b = BytesMut::from(b"HTTP/1.".to_vec());
    assert!(ProtocolIdCodec.decode(&mut b).unwrap().is_none());
    assert_eq!(b.len(), 7);
}
""")

bug("modified-extra", "C12", "a modified state with more fields than are known, within another value",
    "what follows is read from the end of the known fields",
    [(DEF, "    let (mut input, mut remainder) = input.split_at(size);", "    let mut input = input;", "fn decode_modified_inner"),
     (DEF, "        remainder,\n        Modified {", "        input,\n        Modified {")],
    """
fn main() {
    let b = b"\\x00\\x53\\x15\\xc0\\x10\\x06\\x41\\x43\\x40\\x42\\x00\\x53\\x27\\xc0\\x05\\x04\\x41\\x42\\x40\\x41\\x42";
    let d = Disposition::decode(b).expect("decodes").1;
    assert_eq!(d.batchable, false);
}
""")

bug("null-channel-max", "C13", "an open whose channel-max is null",
    "the default is that of the number type",
    [(DEF, "unwrap_or(65535)", "unwrap_or_default()")],
    """
fn main() {
    let b = b"\\x00\\x53\\x10\\xc0\\x07\\x04\\xa1\\x01a\\x40\\x40\\x40";
    let o = Open::decode(b).expect("decodes").1;
    assert_eq!(o.channel_max, 65535);
}
""")

bug("offset-optional", "C13", "a received state without its section offset",
    "the offset is taken to be 0",
    [(DEF, '        return Err(AmqpParseError::RequiredFieldOmitted("section_offset"));', "        section_offset = 0;")],
    """
fn main() {
    assert!(Received::decode(b"\\x00\\x53\\x23\\xc0\\x03\\x02\\x43\\x44").is_ok());
    assert!(Received::decode(b"\\x00\\x53\\x23\\xc0\\x02\\x01\\x43").is_err());
}
""")

bug("settle-mode-any", "C14", "a sender settle mode that does not exist",
    "it is taken for mixed",
    [(DEF, '            _ => Err(AmqpParseError::UnknownEnumOption("SenderSettleMode")),', "            _ => Ok(SenderSettleMode::Mixed),")],
    """
fn main() {
    assert!(SenderSettleMode::decode(b"\\x50\\x02").is_ok());
    assert!(SenderSettleMode::decode(b"\\x50\\x03").is_err());
}
""")

bug("ubyte-as-uint", "C14", "an unsigned byte where a uint is called for",
    "it is widened",
    [(DEC, "            codec::FORMATCODE_SMALLUINT => read_u8(input).map(|(i, o)| (i, u32::from(o))),", "            codec::FORMATCODE_SMALLUINT | codec::FORMATCODE_UBYTE => {\n                read_u8(input).map(|(i, o)| (i, u32::from(o)))\n            }")],
    """
fn main() {
    assert!(u32::decode(b"\\x52\\x05").is_ok());
    assert!(u32::decode(b"\\x50\\x05").is_err());
}
""")

bug("symbol32-lossy", "C14", "a long symbol that is not UTF-8",
    "bad bytes are replaced",
    [(DEC, """                let (input, bytes) = read_bytes_u32(input)?;
                Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))
            }
            _ =>""", """                let (input, bytes) = read_bytes_u32(input)?;
                Ok((input, Symbol::from_slice(&std::string::String::from_utf8_lossy(bytes))))
            }
            _ =>""")],
    """
fn main() {
    assert!(Symbol::decode(b"\\xb3\\x00\\x00\\x00\\x01a").is_ok());
    assert!(Symbol::decode(b"\\xb3\\x00\\x00\\x00\\x01\\xff").is_err());
}
""")

bug("embedded-256", "C15", "an embedded message whose encoding takes exactly 256 bytes",
    "its length is written in one byte",
    [(BODY, "            let size = length + if length > std::u8::MAX as usize { 5 } else { 2 };", "            let size = length + if length > std::u8::MAX as usize + 1 { 5 } else { 2 };"),
     (BODY, "            if length > std::u8::MAX as usize {\n                dst", "            if length > std::u8::MAX as usize + 1 {\n                dst")],
    """
fn main() {
    for n in 200..270 {
        let inner = OutMessage::with_body(Bytes::from(vec![1u8; n]));
        let m = OutMessage::with_messages(vec![inner.clone().into()]);
        let b = enc(&m);
        let back = InMessage::decode(&b).expect("decodes").1;
        assert_eq!(back.body().data(), Some(&Bytes::from(enc(&inner))));
    }
}
""")

bug("null-value", "C15", "a message whose value is null",
    "a null value section is taken for none",
    [(OUT, "                    message.body.value = Some(val);", "                    message.body.value = Some(val).filter(|val| *val != Variant::Null);")],
    """
fn main() {
    let m = OutMessage::default().set_value(Variant::Null);
    assert_eq!(OutMessage::decode(&enc(&m)).unwrap().1, m);
}
""")

bug("value-twice", "C16", "a value set anew after the size was asked for",
    "the size is forgotten only when the value is the first",
    [(IN, """        self.body.value = Some(v.into());
        self.size.set(0);
        self""", """        if self.body.value.replace(v.into()).is_none() {
            self.size.set(0);
        }
        self""")],
    """
fn main() {
    let m = InMessage::default().set_value(1u64);
    assert_eq!(m.encoded_size(), enc(&m).len());
    let m = m.set_value(1_000_000u64);
    assert_eq!(m.encoded_size(), enc(&m).len());
}
""")

bug("body-size-kept", "C16", "a body changed in place after the size was asked for",
    "the size is forgotten only when the body's own size changed before the change",
    [(OUT, """        f(&mut self.body);
        self.size.set(0);
        self""", """        let sections = self.body.data.len() + self.body.sequence.len() + self.body.messages.len();
        f(&mut self.body);
        if sections != self.body.data.len() + self.body.sequence.len() + self.body.messages.len() || self.body.value.is_some() {
            self.size.set(0);
        }
        self""")],
    """
fn main() {
    let m = OutMessage::with_body(Bytes::from_static(b"abc"));
    assert_eq!(m.encoded_size(), enc(&m).len());
    let m = m.set_body(|b| b.set_data(Bytes::from_static(b"abcdef")));
    assert_eq!(m.encoded_size(), enc(&m).len());
}
""")

bug("reply-chain", "C17", "a reply to a message that is itself a reply",
    "the correlation id is kept rather than set to the message id",
    [(OUT, "            msg.set_properties(|props| props.correlation_id = data.message_id.clone())",
      "            msg.set_properties(|props| {\n                props.correlation_id = data.correlation_id.clone().or_else(|| data.message_id.clone())\n            })")],
    """
fn main() {
    let m = OutMessage::default().set_properties(|p| { p.message_id = Some(7.into()); p.correlation_id = Some(5.into()); });
    assert_eq!(m.reply_message().properties().unwrap().correlation_id, Some(7.into()));
}
""")

bug("data-first-only", "C17", "setting the data of a message with several data sections",
    "only the first is replaced",
    [(BODY, "        self.data.clear();\n        self.data.push(data);", "        if self.data.is_empty() {\n            self.data.push(data);\n        } else {\n            self.data[0] = data;\n        }")],
    """
fn main() {
    let m = InMessage::default().set_body(|b| { b.data.push(Bytes::from_static(b"a")); b.data.push(Bytes::from_static(b"b")); b.set_data(Bytes::from_static(b"c")); });
    assert_eq!(m.body().data, vec![Bytes::from_static(b"c")]);
}
""")

bug("big-state-payload", "C18", "a transfer with a payload and fields of more than 254 bytes",
    "the payload is not counted in the frame's length",
    [(DEF, """    (if content_size + 1 > u8::MAX as usize {
        12
    } else {
        6
    }) + content_size
        + list.body.as_ref().map(|b| b.len()).unwrap_or(0)""", """    let payload = list.body.as_ref().map(|b| b.len()).unwrap_or(0);
    (if content_size + 1 > u8::MAX as usize {
        12
    } else {
        6 + payload
    }) + content_size""")],
    """
fn main() {
    for n in vec![0, 10, 250, 300] {
        let t = Transfer { handle: 1, delivery_id: None, delivery_tag: Some(Bytes::from(vec![9u8; n])), message_format: None, settled: None, more: false,
            rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false,
            body: Some(TransferBody::Data(Bytes::from_static(b"payload"))) };
        assert_eq!(t.encoded_size(), enc(&t).len());
        let mut b = BytesMut::from(enc(&AmqpFrame::new(0, t.clone().into())));
        assert_eq!(AmqpCodec::<AmqpFrame>::new().decode(&mut b).unwrap().unwrap().performative(), &Frame::Transfer(t));
    }
}
""")

bug("year-2038", "C19", "an instant after January 2038",
    "seconds are kept in 32 bits",
    [(ENC, "let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());", "let timestamp = i64::from(self.timestamp() as i32) * 1000 + i64::from(self.timestamp_subsec_millis());")],
    """
use chrono::{TimeZone, Utc};
fn main() {
    for s in vec![0, -1, 2_000_000_000, 3_000_000_000, -3_000_000_000] {
        let t = Utc.timestamp(s, 0);
        assert_eq!(chrono::DateTime::<Utc>::decode(&enc(&t)).unwrap().1, t);
    }
}
""")

bug("variant-symbol-str", "C20", "a symbol within a value compared with plain text",
    "only strings compare",
    [(VAR, "            Variant::Symbol(s) => s == other,", "            Variant::Symbol(Symbol(Str::Static(s))) => *s == other,")],
    """
fn main() {
    assert!(Variant::Symbol(Symbol::from("a")) == *"a");
    assert!(Variant::Symbol(symbol("a")) == *"a");
}
""")

bug("room-dropped", "C21", "a frame written when the buffer is nearly full",
    "a new buffer is started and what had not been sent yet is lost",
    [(IO, "            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));", "            *dst = BytesMut::with_capacity(std::cmp::max(need, SIZE_HIGH_WM));")],
    """
fn main() {
    let f = AmqpFrame::new(1, Frame::Close(Close { error: None }));
    let mut b = BytesMut::new();
    let mut c = AmqpCodec::<AmqpFrame>::new();
    for _ in 0..3000 { c.encode(f.clone(), &mut b).unwrap(); }
    assert_eq!(b.len(), 3000 * enc(&f).len());
}
""")

bug("list-prefix", "C22", "two lists of which one is the start of the other",
    "lists are compared as far as the shorter one goes",
    [(TYPES, """#[derive(Debug, PartialEq, Eq, Clone, Hash)]
pub struct List(pub Vec<Variant>);
""", """#[derive(Debug, Eq, Clone, Hash)]
pub struct List(pub Vec<Variant>);

impl PartialEq for List {
    fn eq(&self, other: &List) -> bool {
        self.iter().zip(other.iter()).all(|(a, b)| a == b)
    }
}
""")],
    """
fn main() {
    let a = List(vec![Variant::Null]);
    let b = List(vec![Variant::Null, Variant::Null]);
    assert!(a == a.clone());
    assert!(a != b);
}
""")

bug("symbol-case", "C22", "symbols that differ in case only",
    "symbols compare without regard to case",
    [(SYM, """#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct Symbol(pub Str);
""", """#[derive(Debug, Clone, Eq, Hash)]
pub struct Symbol(pub Str);

impl PartialEq for Symbol {
    fn eq(&self, other: &Symbol) -> bool {
        self.as_str().eq_ignore_ascii_case(other.as_str())
    }
}
""")],
    """
fn main() {
    assert!(Symbol::from("a") == symbol("a"));
    assert!(Symbol::from("a") != Symbol::from("A"));
}
""")

bug("channel-ignored", "C22", "equal frames on different channels",
    "frames are compared by their performative alone",
    [("src/framing.rs", "#[derive(Clone, Debug, PartialEq)]\npub struct AmqpFrame {\n    channel_id: u16,\n    performative: protocol::Frame,\n}\n",
      """#[derive(Clone, Debug)]
pub struct AmqpFrame {
    channel_id: u16,
    performative: protocol::Frame,
}

impl PartialEq for AmqpFrame {
    fn eq(&self, other: &AmqpFrame) -> bool {
        self.performative == other.performative
    }
}
""")],
    """
fn main() {
    assert!(AmqpFrame::new(1, Frame::Empty) == AmqpFrame::new(1, Frame::Empty));
    assert!(AmqpFrame::new(1, Frame::Empty) != AmqpFrame::new(2, Frame::Empty));
}
""")

bug("map-count", "C04", "any map read by another implementation",
    "a map's count is that of its pairs, on both sides: round trips hold, the wire does not",
    [(ENC, "        let count = self.len() * 2; // key-value pair accounts for two items in count\n", "        let count = self.len();\n", "Encode for HashMap<K, V, S>"),
     (ENC, "        let count = self.len() * 2; // key-value pair accounts for two items in count\n", "        let count = self.len();\n", "Encode for VecVariantMap"),
     (DEC, "        let count = header.count / 2;", "        let count = header.count;", "for HashMap<K, V, S>"),
     (DEC, "        let count = header.count / 2;", "        let count = header.count;", "for VecVariantMap {")],
    """
fn main() {
    let mut m = Fields::new();
    m.insert(symbol("k"), Variant::Null);
    assert_eq!(enc(&m), b"\\xc1\\x05\\x02\\xa3\\x01k\\x40".to_vec());
}
""")

bug("annotations-swapped", "C04", "a message with delivery or message annotations",
    "each kind of annotations is written with the other's descriptor, and read so",
    [(OUT, "Descriptor::Ulong(113)", "Descriptor::Ulong(114)"), (OUT, "Descriptor::Ulong(114)", "Descriptor::Ulong(113)", "if let Some(ref ma) = self.message_annotations {\n            Descriptor"),
     (IN, "Descriptor::Ulong(113)", "Descriptor::Ulong(114)"), (IN, "Descriptor::Ulong(114)", "Descriptor::Ulong(113)", "if let Some(ref ma) = self.message_annotations {\n            Descriptor"),
     (DEF, "            Descriptor::Ulong(113) => decode_delivery_annotations_inner(input)", "            Descriptor::Ulong(114) => decode_delivery_annotations_inner(input)"),
     (DEF, "            Descriptor::Ulong(114) => decode_message_annotations_inner(input)", "            Descriptor::Ulong(113) => decode_message_annotations_inner(input)")],
    """
fn main() {
    // delivery annotations {x: 1}, by number and by name
    let a = OutMessage::decode(b"\\x00\\x53\\x71\\xc1\\x06\\x02\\xa3\\x01x\\x50\\x01").unwrap().1;
    let b = OutMessage::decode(b"\\x00\\xa3\\x1damqp:delivery-annotations:map\\xc1\\x06\\x02\\xa3\\x01x\\x50\\x01").unwrap().1;
    assert_eq!(a, b);
    assert_eq!(&enc(&b)[..3], b"\\x00\\x53\\x71");
}
""")

# ---- third batch ----------------------------------------------------------------------------
bug("same-identity", "C23", "a plain SASL response for an authorization identity equal to the authentication identity",
    "an identity that would be said twice is left out",
    [(PROTO, "        Bytes::from(format!(\"{}\\x00{}\\x00{}\", authz_id, authn_id, password))",
      """        // an authorization identity is for acting as somebody else
        let authz_id = if authz_id == authn_id { "" } else { authz_id };
        Bytes::from(format!("{}\\x00{}\\x00{}", authz_id, authn_id, password))""")],
    """
fn main() {
    assert_eq!(&SaslInit::prepare_response("", "me", "pw")[..], b"\\0me\\0pw");
    assert_eq!(&SaslInit::prepare_response("me", "me", "pw")[..], b"me\\0me\\0pw");
}
""")

bug("format-assumed", "C23", "a transfer payload made of a message without a message format",
    "the message format of an outgoing message's payload is 0 where the message has none",
    [(PROTO, "            TransferBody::MessageOut(ref data) => data.message_format,", "            TransferBody::MessageOut(ref data) => data.message_format.or(Some(0)),")],
    """
fn main() {
    assert_eq!(TransferBody::from(InMessage::default()).message_format(), None);
    assert_eq!(TransferBody::from(OutMessage::default()).message_format(), None);
    let mut m = OutMessage::default();
    m.message_format = Some(7);
    assert_eq!(TransferBody::from(m).message_format(), Some(7));
}
""")

bug("text-symbol", "C23", "a value made of a static text that looks like one of AMQP's symbols",
    "such a text becomes a symbol instead of a string",
    [(VAR, """impl From<&'static str> for Variant {
    fn from(s: &'static str) -> Self {
        Str::from(s).into()
""", """impl From<&'static str> for Variant {
    fn from(s: &'static str) -> Self {
        if s.starts_with("amqp:") {
            return Variant::Symbol(Symbol::from(s));
        }
        Str::from(s).into()
""")],
    """
fn main() {
    for t in &["", "a", "amqp:", "amqp:x"] {
        let t: &'static str = t;
        assert_eq!(Variant::from(t), Variant::String(Str::from(t)));
    }
}
""")

bug("never-policy", "C23", "an expiry policy that AMQP does not know",
    "the name of the policy is compared as far as it is given",
    [(DEF, """            "never" => Ok(TerminusExpiryPolicy::Never),""",
      """            s if "never".starts_with(s) => Ok(TerminusExpiryPolicy::Never),""")],
    """
fn main() {
    assert!(TerminusExpiryPolicy::try_from(&symbol("never")).is_ok());
    for s in &["", "n", "neve", "nevers"] {
        assert!(TerminusExpiryPolicy::try_from(&symbol(s)).is_err(), "{}", s);
    }
}
""")

bug("empty-iter", "C23", "a multiple of one element",
    "a multiple of one element passes for empty",
    [(TYPES, """    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }

    pub fn iter(&self) -> ::std::slice::Iter<T> {""", """    pub fn is_empty(&self) -> bool {
        self.0.len() < 2
    }

    pub fn iter(&self) -> ::std::slice::Iter<T> {""")],
    """
fn main() {
    for n in 0..4 {
        let m = Multiple(vec![symbol("x"); n]);
        assert_eq!(m.is_empty(), n == 0, "{}", n);
    }
}
""")

bug("descriptor-32", "C01", "a described value with a numeric descriptor above 2^32 (those of all vendors)",
    "the domain part of a numeric descriptor is dropped on both writing and sizing",
    [(ENC, "            Descriptor::Ulong(v) => 1 + v.encoded_size(),", "            Descriptor::Ulong(v) => 1 + (v & 0xffff_ffff).encoded_size(),"),
     (ENC, "            Descriptor::Ulong(v) => v.encode(buf),", "            Descriptor::Ulong(v) => (v & 0xffff_ffff).encode(buf),")],
    """
fn main() {
    for d in &[0u64, 255, 256, 1 << 31, 1 << 32, (1 << 32) | 7, u64::max_value()] {
        let v = Variant::Described((Descriptor::Ulong(*d), Box::new(Variant::Null)));
        assert_eq!(Variant::decode(&enc(&v)).unwrap().1, v);
    }
}
""")

bug("outcome-data", "C02", "a successful SASL outcome with additional data",
    "the additional data of a successful outcome is dropped",
    [(DEF, """        additional_data = decoded.1;
        count -= 1;""", """        additional_data = if code == SaslCode::Ok { None } else { decoded.1 };
        count -= 1;""")],
    """
fn main() {
    for code in &[SaslCode::Ok, SaslCode::Auth, SaslCode::Sys] {
        let f = SaslFrame::from(SaslOutcome { code: *code, additional_data: Some(Bytes::from_static(b"v=sig")) });
        assert_eq!(SaslFrame::decode(&enc(&f)[4..]).unwrap().1, f);
    }
}
""")

bug("move-copy", "C04", "a source with a distribution mode, written for or read from another implementation",
    "move and copy are exchanged by the encoder and the decoder alike",
    [(PROTO, """            "move" => DistributionMode::Move,
            "copy" => DistributionMode::Copy,""", """            "copy" => DistributionMode::Move,
            "move" => DistributionMode::Copy,"""),
     (PROTO, """Symbol::from("move").encode(buf)""", """Symbol::from("cop#").encode(buf)"""),
     (PROTO, """Symbol::from("copy").encode(buf)""", """Symbol::from("move").encode(buf)"""),
     (PROTO, """Symbol::from("cop#").encode(buf)""", """Symbol::from("copy").encode(buf)""")],
    """
fn main() {
    assert_eq!(enc(&DistributionMode::Move), b"\\xa3\\x04move".to_vec());
    assert_eq!(enc(&DistributionMode::Copy), b"\\xa3\\x04copy".to_vec());
}
""")

bug("size-expiry", "C03", "a terminus that expires with its connection",
    "the size of that expiry policy is announced without its last letter",
    [(DEF, "TerminusExpiryPolicy::ConnectionClose => 16 + 2", "TerminusExpiryPolicy::ConnectionClose => 15 + 2")],
    """
fn main() {
    for p in &[TerminusExpiryPolicy::LinkDetach, TerminusExpiryPolicy::SessionEnd, TerminusExpiryPolicy::ConnectionClose, TerminusExpiryPolicy::Never] {
        assert_eq!(p.encoded_size(), enc(p).len(), "{:?}", p);
    }
}
""")

bug("array32-alone", "C05", "a multiple-valued field given as an array in its long form",
    "only the short form of an array is recognized in such fields",
    [(DEC, "            codec::FORMATCODE_ARRAY8 | codec::FORMATCODE_ARRAY32 => {\n                let (input, items)", "            codec::FORMATCODE_ARRAY8 => {\n                let (input, items)")],
    """
fn main() {
    let short = Symbols::decode(b"\\xe0\\x06\\x02\\xa3\\x01a\\x01b").unwrap().1;
    let long = Symbols::decode(b"\\xf0\\0\\0\\0\\x09\\0\\0\\0\\x02\\xa3\\x01a\\x01b").unwrap().1;
    assert_eq!(short, long);
}
""")

bug("char-unwrap", "C06", "a char that is a surrogate or beyond the last code point",
    "the decoder panics",
    [(DEC, """        if let Some(c) = char::from_u32(o) {
            Ok((i, c))
        } else {
            Err(AmqpParseError::InvalidChar(o))
        }""", """        if o > 0x10_ffff {
            return Err(AmqpParseError::InvalidChar(o));
        }
        Ok((i, char::from_u32(o).unwrap()))""")],
    """
fn main() {
    for o in &[0xd800u32, 0xdfff, 0x11_0000, 0xffff_ffff] {
        let mut b = vec![0x73u8];
        b.extend_from_slice(&[(*o >> 24) as u8, (*o >> 16) as u8, (*o >> 8) as u8, *o as u8]);
        let r = std::panic::catch_unwind(|| Variant::decode(&b).is_err());
        assert_eq!(r.ok(), Some(true), "{:x}", o);
    }
}
""")

bug("claim-reserved", "C06", "a frame that says it is very large",
    "room is made at once for as much as a frame says it is",
    [(IO, "                            src.reserve(SIZE_HIGH_WM);", "                            src.reserve(std::cmp::max(SIZE_HIGH_WM, size - len));")],
    """
fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::from(&[0x10u8, 0, 0, 0, 2, 0, 0, 0][..]);
    assert!(c.decode(&mut b).unwrap().is_none());
    assert!(b.capacity() < 1 << 20, "{} bytes for a frame of which 8 are there", b.capacity());
}
""")

bug("ext-cut", "C07", "a frame that ends within its extended header",
    "such a frame passes for an empty one",
    [(DEC, """    decode_check_len!(input, ext_header_len + 4);
    let input = &input[ext_header_len + 4..];""", """    let input = &input[std::cmp::min(ext_header_len + 4, input.len())..];""")],
    """
fn main() {
    assert!(AmqpFrame::decode(b"\\x03\\0\\0\\0\\x01\\x02\\x03\\x04").is_ok());
    assert!(AmqpFrame::decode(b"\\x03\\0\\0\\0\\x01\\x02").is_err());
}
""")

bug("size-24bit", "C08", "a frame that says it is 16 MiB or larger",
    "only three bytes of a frame's size count, so that what follows is cut in the wrong places",
    [(IO, "let size = BigEndian::read_u32(src.as_ref()) as usize;", "let size = (BigEndian::read_u32(src.as_ref()) & 0x00ff_ffff) as usize;")],
    """
fn main() {
    // 16 MiB and 8 bytes, of which 20 have arrived
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::from(&b"\\x01\\0\\0\\x08\\x02\\0\\0\\0\\0\\x53\\x14\\xc0\\x03\\x01\\x43\\x40\\0\\0\\0\\0"[..]);
    for _ in 0..4 {
        assert!(c.decode(&mut b).expect("no error yet").is_none());
    }
}
""")

bug("type-skipped", "C09", "a frame of another protocol's type among good ones",
    "frames of another type are passed over in silence",
    [(IO, "                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;", """                    let (remainder, frame) = match T::decode(frame_buf.as_ref()) {
                        Err(AmqpParseError::UnexpectedFrameType(_)) => continue,
                        other => other?,
                    };""")],
    """
fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::from(&b"\\0\\0\\0\\x08\\x02\\x01\\0\\0\\0\\0\\0\\x08\\x02\\0\\0\\0"[..]);
    assert!(c.decode(&mut b).is_err());
    assert!(c.decode(&mut b).unwrap().is_some());
}
""")

bug("channel-later", "C10", "a frame with an extended header",
    "the channel is read from just before the body instead of from the header",
    [(DEC, "    let channel_id = BigEndian::read_u16(&input[2..]);\n", ""),
     (DEC, "    decode_check_len!(input, ext_header_len + 4);\n", "    decode_check_len!(input, ext_header_len + 4);\n    let channel_id = BigEndian::read_u16(&input[ext_header_len + 2..]);\n")],
    """
fn main() {
    let f = AmqpFrame::decode(b"\\x03\\0\\x01\\x02\\x09\\x09\\x09\\x09\\0\\x53\\x17\\x45").unwrap().1;
    assert_eq!(f.channel_id(), 0x102);
    let f = AmqpFrame::decode(b"\\x02\\0\\x01\\x02\\0\\x53\\x17\\x45").unwrap().1;
    assert_eq!(f.channel_id(), 0x102);
}
""")

bug("header-case", "C11", "a protocol header in small letters",
    "letter case does not matter in the protocol's name",
    [(IO, "            if &src[0..4] != PROTOCOL_HEADER_PREFIX {", "            if !src[0..4].eq_ignore_ascii_case(PROTOCOL_HEADER_PREFIX) {")],
    """
fn main() {
    assert!(ProtocolIdCodec.decode(&mut BytesMut::from(&b"AMQP\\0\\x01\\0\\0"[..])).is_ok());
    for h in &[b"amqp\\0\\x01\\0\\0", b"AMQp\\0\\x01\\0\\0"] {
        assert!(ProtocolIdCodec.decode(&mut BytesMut::from(&h[..])).is_err());
    }
}
""")

bug("footer-empty", "C15", "a message with a footer that has no entries",
    "an empty footer is dropped on reading",
    [(IN, """                Section::Footer(val) => {
                    message.footer = Some(val);
                }""", """                Section::Footer(val) => {
                    if !val.is_empty() {
                        message.footer = Some(val);
                    }
                }""")],
    """
fn main() {
    let b = b"\\x00\\x53\\x75\\xa0\\x01x\\x00\\x53\\x78\\xc1\\x01\\x00";
    let m = InMessage::decode(b).unwrap().1;
    assert_eq!(enc(&m), b.to_vec());
}
""")

bug("handle-max", "C13", "a begin frame with a null handle-max",
    "handle-max becomes 255 where it is given as null, as is the default where it is left out",
    [(DEF, "        handle_max = decoded.unwrap_or(4294967295);", "        handle_max = decoded.unwrap_or(0xff);")],
    """
fn main() {
    let a = Frame::decode(b"\\0\\x53\\x11\\xc0\\x07\\x04\\x40\\x43\\x52\\x01\\x52\\x01").unwrap().1;
    let b = Frame::decode(b"\\0\\x53\\x11\\xc0\\x08\\x05\\x40\\x43\\x52\\x01\\x52\\x01\\x40").unwrap().1;
    assert_eq!(a, b);
}
""")

bug("durability-3", "C14", "a terminus durability that does not exist",
    "any durability above 1 passes for the highest",
    [(DEF, "            2 => Ok(TerminusDurability::UnsettledState),", "            d if d >= 2 => Ok(TerminusDurability::UnsettledState),")],
    """
fn main() {
    assert!(TerminusDurability::decode(b"\\x52\\x02").is_ok());
    for d in 3..255u8 {
        assert!(TerminusDurability::decode(&[0x52, d]).is_err(), "{}", d);
    }
}
""")

bug("format-size", "C16", "a message given a header anew after its size was asked for",
    "the size is kept if the message had a header already",
    [(IN, "        self.header = Some(header);\n        self.size.set(0);", "        if self.header.replace(header).is_none() {\n            self.size.set(0);\n        }")],
    """
fn main() {
    let h = |ttl| Header { durable: true, priority: 4, ttl, first_acquirer: false, delivery_count: 0 };
    let m = InMessage::default().set_header(h(None));
    m.encoded_size();
    let m = m.set_header(h(Some(100_000)));
    assert_eq!(m.encoded_size(), enc(&m).len());
}
""")

bug("empty-body", "C17", "a message made with a body of no bytes",
    "an empty body is as none",
    [(OUT, """        let mut msg = OutMessage::default();
        msg.body.data.push(body);
        msg""", """        let mut msg = OutMessage::default();
        if !body.is_empty() {
            msg.body.data.push(body);
        }
        msg""")],
    """
fn main() {
    for b in &[&b""[..], b"x"] {
        let m = OutMessage::with_body(Bytes::from(*b));
        assert_eq!(m.body().data().map(|d| &d[..]), Some(*b));
    }
}
""")

bug("value-clears", "C17", "a message that is given a value and then data in its body, and asked for both",
    "setting the value of an outgoing message drops the data it has",
    [(OUT, "        self.body.value = Some(v.into());\n", "        self.body.data.clear();\n        self.body.value = Some(v.into());\n")],
    """
fn main() {
    let m = OutMessage::with_body(Bytes::from_static(b"x")).set_value(true);
    assert_eq!(m.body().data().map(|d| &d[..]), Some(&b"x"[..]));
    assert_eq!(m.value(), Some(&Variant::Boolean(true)));
}
""")

bug("more-payload", "C18", "a transfer that says there is more to come and has a payload of a message",
    "the last byte of a payload is left behind in a transfer with more to come",
    [(DEF, "        let b = Bytes::from(remainder);\n        remainder = &[];", "        let b = if more && resume { Bytes::from(&remainder[..remainder.len() - 1]) } else { Bytes::from(remainder) };\n        remainder = &[];")],
    """
fn main() {
    for (more, resume) in &[(false, false), (true, false), (false, true), (true, true)] {
        let t = Transfer { handle: 0, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: *more,
            rcv_settle_mode: None, state: None, resume: *resume, aborted: false, batchable: false,
            body: Some(Bytes::from_static(b"abc").into()) };
        let f = AmqpFrame::new(0, Frame::Transfer(t));
        assert_eq!(AmqpFrame::decode(&enc(&f)[4..]).unwrap().1, f);
    }
}
""")

bug("timestamp-rounds", "C19", "an instant with half a millisecond or more beyond the last",
    "the fraction of a millisecond is rounded instead of dropped",
    [(ENC, "i64::from(self.timestamp_subsec_millis())", "i64::from((self.timestamp_subsec_micros() + 500) / 1000)")],
    """
use chrono::{TimeZone, Utc};
fn main() {
    let whole = Utc.timestamp(1_000_000, 5_000_000);
    for n in &[0u32, 1, 499_999, 500_000, 999_999] {
        assert_eq!(enc(&Utc.timestamp(1_000_000, 5_000_000 + n)), enc(&whole), "{} ns", n);
    }
}
""")

bug("symbol-hash-bytes", "C20", "a symbol-keyed map looked up by plain text",
    "a symbol hashes as bytes, unlike the text it may be looked up by",
    [(SYM, "#[derive(Debug, Clone, Eq, PartialEq, Hash)]\npub struct Symbol(pub Str);\n", """#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Symbol(pub Str);

impl std::hash::Hash for Symbol {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.as_bytes().hash(state)
    }
}
""")],
    """
fn main() {
    let mut m = Fields::new();
    m.insert(symbol("k"), Variant::Null);
    assert!(m.get("k").is_some());
}
""")

bug("big-frame-clears", "C21", "a frame of more than 32 KiB written behind others that have not been sent",
    "the buffer is started anew for a large frame, whatever it holds",
    [(IO, "            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));", """            if need > SIZE_HIGH_WM {
                // grow once, in place
                *dst = BytesMut::with_capacity(need);
            }
            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));""")],
    """
fn frame(n: usize) -> AmqpFrame {
    AmqpFrame::new(0, Frame::Transfer(Transfer { handle: 0, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false,
        rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false,
        body: Some(Bytes::from(vec![7u8; n]).into()) }))
}
fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::new();
    c.encode(frame(10), &mut b).unwrap();
    c.encode(frame(40_000), &mut b).unwrap();
    assert_eq!(c.decode(&mut b).unwrap(), Some(frame(10)));
    assert_eq!(c.decode(&mut b).unwrap(), Some(frame(40_000)));
}
""")

bug("multiple-order", "C22", "multiples of the same elements in another order",
    "multiples are compared as sets",
    [(TYPES, "#[derive(Debug, PartialEq, Eq, Clone, Hash, From)]\npub struct Multiple<T>(pub Vec<T>);\n", """#[derive(Debug, Eq, Clone, Hash, From)]
pub struct Multiple<T>(pub Vec<T>);

impl<T: PartialEq> PartialEq for Multiple<T> {
    fn eq(&self, other: &Self) -> bool {
        self.0.len() == other.0.len() && self.0.iter().all(|x| other.0.contains(x))
    }
}
""")],
    """
fn main() {
    let m = |a: &str, b: &str| Multiple(vec![symbol(a), symbol(b)]);
    assert!(m("a", "b") == m("a", "b"));
    assert!(m("a", "b") != m("b", "a"));
    assert!(m("a", "a") != m("a", "b"));
}
""")

bug("map-keys-only", "C22", "maps that differ in a value only",
    "two maps are equal if they have the same keys",
    [(VAR, "#[derive(PartialEq, Eq, Clone, Debug)]\npub struct VariantMap {", "#[derive(Eq, Clone, Debug)]\npub struct VariantMap {"),
     (VAR, "impl VariantMap {\n", """impl PartialEq for VariantMap {
    fn eq(&self, other: &Self) -> bool {
        self.map.len() == other.map.len() && self.map.keys().all(|k| other.map.contains_key(k))
    }
}

impl VariantMap {
""")],
    """
fn main() {
    let m = |b: bool| Variant::Map(VariantMap::new(vec![(Variant::Null, Variant::Boolean(b))].into_iter().collect()));
    assert!(m(true) == m(true));
    assert!(m(true) != m(false));
}
""")

bug("surplus-items", "C12", "a disposition whose list declares more fields than the composite has, of which the last is cut",
    "a list count above the number of fields shortens what is read: the last field is taken for absent",
    [(DEF, "fn decode_disposition_inner(input: &[u8]) -> Result<(&[u8], Disposition), AmqpParseError> {\n    let (input, format) = decode_format_code(input)?;\n    let (input, header) = decode_list_header(input, format)?;\n    let size = header.size as usize;\n    decode_check_len!(input, size);\n    let (mut input, mut remainder) = input.split_at(size);\n    let mut count = header.count;",
      "fn decode_disposition_inner(input: &[u8]) -> Result<(&[u8], Disposition), AmqpParseError> {\n    let (input, format) = decode_format_code(input)?;\n    let (input, header) = decode_list_header(input, format)?;\n    let size = header.size as usize;\n    decode_check_len!(input, size);\n    let (mut input, mut remainder) = input.split_at(size);\n    let mut count = std::cmp::min(header.count, size as u32);\n    if count > 0 && size < header.count as usize {\n        count = size as u32;\n    }")],
    """
fn main() {
    // five fields declared, one byte there
    assert!(Frame::decode(b"\\0\\x53\\x15\\xc0\\x03\\x05\\x41\\x43").is_err());
    // says six fields, has room for the first two
    assert!(Frame::decode(b"\\0\\x53\\x15\\xc0\\x03\\x06\\x41\\x43").is_err());
}
""")

# ------------------------------------------------------------------ fourth batch
bug("bytes-str-nul", "C23", "a static text with a NUL in it, read as a byte string",
    "the text ends at the NUL",
    [(TYPES, "            Str::Static(s) => String::try_from(Bytes::from_static(s.as_bytes())).unwrap(),",
      "            Str::Static(s) => String::from_str(s.split('\\0').next().unwrap_or(\"\")),")],
    """
fn main() {
    for s in &["", "a", "a\\0b", "\\0"] {
        let t: &'static str = s;
        let b = Str::from(t).as_bytes_str();
        assert_eq!(b.as_ref() as &str, t);
        assert_eq!(Variant::from(t).as_bytes_str().unwrap().as_ref() as &str, t);
    }
}
""")

bug("id-sixteen", "C14", "a binary message id of sixteen bytes",
    "it is taken for a UUID",
    [(PROTO, "                Bytes::decode_with_format(input, fmt).map(|(i, o)| (i, MessageId::Binary(o)))",
      "                Bytes::decode_with_format(input, fmt).map(|(i, o)| match Uuid::from_slice(&o) {\n                    Ok(u) => (i, MessageId::Uuid(u)),\n                    Err(_) => (i, MessageId::Binary(o)),\n                })")],
    """
fn main() {
    for n in &[0usize, 15, 16, 17] {
        let id = MessageId::Binary(Bytes::from(vec![7u8; *n]));
        let b = enc(&id);
        assert_eq!(MessageId::decode(&b).unwrap().1, id);
    }
}
""")

bug("reply-size", "C16", "a reply to a message whose size has been asked for",
    "the reply is given the size of what it replies to",
    [(IN, "        OutMessage::default().if_some(&self.properties, |msg, data| {\n            msg.set_properties(|props| props.correlation_id = data.message_id.clone())\n        })",
      "        let reply = OutMessage::default().if_some(&self.properties, |msg, data| {\n            msg.set_properties(|props| props.correlation_id = data.message_id.clone())\n        });\n        reply.with_size(if self.properties.is_none() { self.size.get() } else { 0 })"),
     (OUT, "    /// Message body\n    pub fn body(", "    pub(crate) fn with_size(self, size: usize) -> OutMessage {\n        self.size.set(size);\n        self\n    }\n\n    /// Message body\n    pub fn body(")],
    """
fn main() {
    let m = InMessage::with_body(Bytes::from(vec![1u8; 50]));
    let _ = m.encoded_size();
    let r = m.reply_message();
    assert_eq!(r.encoded_size(), enc(&r).len());
}
""")

bug("decode-size", "C16", "a message decoded from an encoding wider than the library's own",
    "the length of what was decoded is kept as the message's size",
    [(IN, "    fn decode(mut input: &[u8]) -> Result<(&[u8], InMessage), AmqpParseError> {\n        let mut message = InMessage::default();\n",
      "    fn decode(mut input: &[u8]) -> Result<(&[u8], InMessage), AmqpParseError> {\n        let mut message = InMessage::default();\n        message.size.set(input.len());\n")],
    """
fn main() {
    // a data section in the 32-bit form
    let m = InMessage::decode(b"\\0\\x53\\x75\\xb0\\0\\0\\0\\x02ab").unwrap().1;
    assert_eq!(m.encoded_size(), enc(&m).len());
}
""")

bug("room-capacity", "C21", "an output buffer that is nearly full",
    "room is judged by the buffer's capacity, whatever it holds",
    [(IO, "        if dst.remaining_mut() < need {", "        if dst.capacity() < need {")],
    """
fn main() {
    let mut b = BytesMut::with_capacity(8192);
    b.extend_from_slice(&[1u8; 8190]);
    let f = AmqpFrame::new(1, Frame::End(End { error: None }));
    AmqpCodec::<AmqpFrame>::new().encode(f.clone(), &mut b).unwrap();
    assert_eq!(b.len(), 8190 + f.encoded_size());
}
""")

bug("zero-padding", "C09", "a frame whose performative is followed by zeros",
    "zeros at the end of a frame are passed over",
    [(IO, "                    if !remainder.is_empty() {", "                    if remainder.iter().any(|b| *b != 0) {")],
    """
fn main() {
    let mut b = BytesMut::from(&b"\\0\\0\\0\\x0e\\x02\\0\\0\\0\\0\\x53\\x17\\x45\\0\\0"[..]);
    assert!(AmqpCodec::<AmqpFrame>::new().decode(&mut b).is_err());
}
""")

bug("header-peek", "C11", "a header that is not acceptable",
    "the eight bytes of a refused header are left in the buffer",
    [(IO, "            let src = src.split_to(8);\n            if &src[0..4]", "            if &src[0..4]"),
     (IO, "                let protocol_id = src[4];", "                let protocol_id = src.split_to(8)[4];")],
    """
fn main() {
    for h in &[b"AMQX\\0\\x01\\0\\0", b"AMQP\\0\\x02\\0\\0", b"AMQP\\x09\\x01\\0\\0", b"AMQP\\0\\x01\\0\\0"] {
        let mut b = BytesMut::from(&h[..]);
        b.extend_from_slice(b"rest");
        let _ = ProtocolIdCodec::default().decode(&mut b);
        assert_eq!(&b[..], b"rest");
    }
}
""")

bug("header-precedence", "C11", "a header with an unknown protocol and another version",
    "the protocol is looked at before the version",
    [(IO, "            } else if &src[5..8] != PROTOCOL_VERSION {", "            } else if src[4] > 3 {\n                Err(ProtocolIdError::Unknown)\n            } else if &src[5..8] != PROTOCOL_VERSION {")],
    """
fn main() {
    let mut b = BytesMut::from(&b"AMQP\\x09\\x02\\0\\0"[..]);
    match ProtocolIdCodec::default().decode(&mut b) {
        Err(ProtocolIdError::Incompatible) => (),
        x => panic!("{:?}", x),
    }
}
""")

bug("static-long-eq", "C20", "long static texts that differ late",
    "no more of a static text is compared than a short form holds",
    [(TYPES, "            Str::Static(s) => *s == other,", "            Str::Static(s) => s.len() == other.len() && s.bytes().take(255).eq(other.bytes().take(255)),")],
    """
fn main() {
    let long: &'static str = Box::leak(("x".repeat(300) + "a").into_boxed_str());
    let other = "x".repeat(300) + "b";
    assert!(Str::from(long) == *long);
    assert!(!(Str::from(long) == *other.as_str()));
}
""")

bug("descriptor-domain", "C22", "described values whose numeric descriptors differ in the domain part only",
    "descriptors are compared by their low 32 bits",
    [(TYPES, "#[derive(Debug, PartialEq, Eq, Clone, Hash)]\npub enum Descriptor {\n    Ulong(u64),\n    Symbol(Symbol),\n}\n",
      """#[derive(Debug, Eq, Clone)]
pub enum Descriptor {
    Ulong(u64),
    Symbol(Symbol),
}

impl PartialEq for Descriptor {
    fn eq(&self, other: &Descriptor) -> bool {
        match (self, other) {
            (Descriptor::Ulong(a), Descriptor::Ulong(b)) => *a as u32 == *b as u32,
            (Descriptor::Symbol(a), Descriptor::Symbol(b)) => a == b,
            _ => false,
        }
    }
}

impl hash::Hash for Descriptor {
    fn hash<H: hash::Hasher>(&self, state: &mut H) {
        match self {
            Descriptor::Ulong(a) => (*a as u32).hash(state),
            Descriptor::Symbol(a) => a.hash(state),
        }
    }
}
""")],
    """
fn main() {
    let d = |n: u64| Variant::Described((Descriptor::Ulong(n), Box::new(Variant::Null)));
    assert!(d(5) == d(5));
    assert!(d(5) != d(5 + (1 << 40)));
}
""")

bug("max-frame-missing", "C13", "an open that ends before its maximum frame size",
    "the standard's least maximum is taken where none is said",
    [(DEF, "        max_frame_size = 4294967295;\n", "        max_frame_size = 512;\n")],
    """
fn main() {
    let o = Open::decode(b"\\0\\x53\\x10\\xc0\\x04\\x01\\xa1\\x01a").unwrap().1;
    assert_eq!(o.max_frame_size, 4294967295);
}
""")

bug("no-mechanisms", "C05", "a multiple sent as an array without items",
    "an array needs one item at least",
    [(DEC, "                let (input, items) = Vec::<T>::decode_with_format(input, fmt)?;\n                Ok((input, Multiple(items)))",
      "                let (input, items) = Vec::<T>::decode_with_format(input, fmt)?;\n                if items.is_empty() {\n                    return Err(AmqpParseError::InvalidSize);\n                }\n                Ok((input, Multiple(items)))")],
    """
fn main() {
    let b = enc(&Multiple::<Symbol>(vec![]));
    assert!(Multiple::<Symbol>::decode(&b).unwrap().1.is_empty());
}
""")

bug("list-count-byte", "C04", "a list of 256 or more items",
    "only one byte of a long list's count is written",
    [(ENC, "            buf.put_u32_be(self.len() as u32);\n        } else {\n            buf.put_u8(codec::FORMATCODE_LIST8);", "            buf.put_u32_be(u32::from(self.len() as u8));\n        } else {\n            buf.put_u8(codec::FORMATCODE_LIST8);")],
    """
fn main() {
    for n in &[255usize, 256, 300] {
        let v = Variant::List(List(vec![Variant::Null; *n]));
        let b = enc(&v);
        assert_eq!(Variant::decode(&b).unwrap().1, v);
    }
}
""")

bug("sasl-code-swap", "C04", "an outcome that reports a system error of either lasting or passing kind",
    "the two are exchanged on both sides: round trips hold, the wire does not",
    [(DEF, "            3 => Ok(SaslCode::SysPerm),\n            4 => Ok(SaslCode::SysTemp),", "            4 => Ok(SaslCode::SysPerm),\n            3 => Ok(SaslCode::SysTemp),"),
     (DEF, "            SaslCode::SysPerm => {\n                let v: u8 = 3;\n                v.encode(buf);", "            SaslCode::SysPerm => {\n                let v: u8 = 4;\n                v.encode(buf);"),
     (DEF, "            SaslCode::SysTemp => {\n                let v: u8 = 4;\n                v.encode(buf);", "            SaslCode::SysTemp => {\n                let v: u8 = 3;\n                v.encode(buf);")],
    """
fn main() {
    assert_eq!(enc(&SaslCode::SysPerm), [0x50, 3]);
    assert_eq!(SaslCode::try_from(3).unwrap(), SaslCode::SysPerm);
}
""")

bug("times-swapped", "C04", "properties that say when a message was created or expires",
    "the two times are exchanged on both sides: round trips hold, the wire does not",
    [(DEF, "    list.absolute_expiry_time.encode(buf);\n    list.creation_time.encode(buf);", "    list.creation_time.encode(buf);\n    list.absolute_expiry_time.encode(buf);"),
     (DEF, "            absolute_expiry_time,\n            creation_time,\n            group_id,", "            absolute_expiry_time: creation_time,\n            creation_time: absolute_expiry_time,\n            group_id,")],
    """
fn main() {
    let t = b"\\x83\\0\\0\\0\\0\\0\\0\\0\\x01";
    let mut b = b"\\0\\x53\\x73\\xc0\\x12\\x09\\x40\\x40\\x40\\x40\\x40\\x40\\x40\\x40".to_vec();
    b.extend_from_slice(t);
    let p = Properties::decode(&b).unwrap().1;
    assert!(p.absolute_expiry_time.is_some() && p.creation_time.is_none());
}
""")

bug("described-twice", "C06", "values described many times over",
    "each level is decoded twice, so that time doubles with every level",
    [(DEC, "                let (input, descriptor) = Descriptor::decode(input)?;\n                let (input, value) = Variant::decode(input)?;\n                Ok((input, Variant::Described",
      "                let (input, descriptor) = Descriptor::decode(input)?;\n                if Variant::decode(input).is_err() {\n                    return Err(AmqpParseError::InvalidFormatCode(fmt));\n                }\n                let (input, value) = Variant::decode(input)?;\n                Ok((input, Variant::Described")],
    """
fn main() {
    let mut b = Vec::new();
    for _ in 0..40 {
        b.extend_from_slice(b"\\0\\x53\\x01");
    }
    b.push(0x40);
    assert!(Variant::decode(&b).is_ok());
}
""")

bug("enum-name", "C23", "a session error that is none",
    "the error names another enumeration",
    [(DEF, "UnknownEnumOption(\"SessionError\")", "UnknownEnumOption(\"ConnectionError\")")],
    """
fn main() {
    match SessionError::try_from(&symbol("amqp:session:nothing")) {
        Err(AmqpParseError::UnknownEnumOption(n)) => assert_eq!(n, "SessionError"),
        x => panic!("{:?}", x.is_ok()),
    }
}
""")

bug("app-order", "C17", "application properties of an outgoing message set in another than alphabetical order",
    "they are kept in alphabetical order",
    [(OUT, "            props.push((key.into(), value.into()));\n        } else {", "            let key = key.into();\n            let at = props.iter().position(|(k, _)| *k > key).unwrap_or_else(|| props.len());\n            props.insert(at, (key, value.into()));\n        } else {")],
    """
fn main() {
    let m = OutMessage::default().set_app_property("b", 1u8).set_app_property("a", 2u8);
    let ps = m.app_properties().unwrap();
    assert_eq!(ps[0].0.as_str(), "b");
}
""")

bug("reply-empty-id", "C17", "a reply to a message whose id is binary and empty",
    "an empty id is no id",
    [(OUT, "            msg.set_properties(|props| props.correlation_id = data.message_id.clone())",
      "            msg.set_properties(|props| {\n                props.correlation_id = match data.message_id {\n                    Some(crate::protocol::MessageId::Binary(ref b)) if b.is_empty() => None,\n                    ref id => id.clone(),\n                }\n            })")],
    """
fn main() {
    for id in vec![MessageId::Binary(Bytes::new()), MessageId::Ulong(0), MessageId::String(string(""))] {
        let m = OutMessage::default().set_properties(|p| p.message_id = Some(id.clone()));
        assert_eq!(m.reply_message().properties().unwrap().correlation_id, Some(id));
    }
}
""")

bug("payload-empty-msg", "C18", "a transfer that carries a message without a body",
    "the payload of a message that holds nothing is left out, though announced",
    [(DEF, "    if let Some(ref body) = list.body {\n        body.encode(buf)\n    }", "    if let Some(ref body) = list.body {\n        if body != &TransferBody::MessageOut(Default::default()) {\n            body.encode(buf)\n        }\n    }")],
    """
fn main() {
    let m = OutMessage::default();
    let size = m.encoded_size();
    let t = Transfer { handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false,
        rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false,
        body: Some(TransferBody::MessageOut(m)) };
    let b = enc(&Frame::Transfer(t));
    match Frame::decode(&b).unwrap().1 {
        Frame::Transfer(t) => assert_eq!(t.body.map(|b| b.len()), Some(size)),
        _ => panic!(),
    }
}
""")

bug("symbol-begins", "C20", "symbols one of which is static, compared with a text that goes on",
    "a static symbol equals every text that begins with it",
    [(SYM, "        self.0 == *other", "        match self.0 {\n            Str::Static(s) => other.starts_with(s) && !other[s.len()..].starts_with(char::is_alphanumeric),\n            _ => self.0 == *other,\n        }")],
    """
fn main() {
    let s = Symbol::from("amqp:link");
    assert!(s == *"amqp:link");
    assert!(!(s == *"amqp:link:stolen"));
    assert!(!(s == *"amqp:links"));
}
""")

bug("map-count-512", "C05", "a map of 256 or more pairs",
    "the last pair of each 256 is not read",
    [(DEC, "        let count = header.count / 2;\n        let mut map: HashMap", "        let count = if header.count > 255 { header.count / 2 - header.count / 512 } else { header.count / 2 };\n        let mut map: HashMap")],
    """
fn main() {
    for n in &[1u32, 127, 128, 300] {
        let m: Map = (0..*n).map(|k| (Variant::Uint(k), Variant::Null)).collect();
        let v = Variant::Map(VariantMap::new(m));
        let b = enc(&v);
        assert_eq!(Variant::decode(&b).unwrap().1, v);
    }
}
""")

bug("sequences-reversed", "C15", "a message with several sequence sections",
    "the last is written first",
    [(BODY, "        self.data.iter().for_each(|d| {\n            Descriptor::Ulong(117).encode(dst);\n            d.encode(dst);\n        });\n        self.sequence.iter().for_each(|seq| {\n            Descriptor::Ulong(118).encode(dst);\n            seq.encode(dst)\n        });",
      "        self.data.iter().for_each(|d| {\n            Descriptor::Ulong(117).encode(dst);\n            d.encode(dst);\n        });\n        self.sequence.iter().rev().for_each(|seq| {\n            Descriptor::Ulong(118).encode(dst);\n            seq.encode(dst)\n        });")],
    """
fn main() {
    let m = OutMessage::default().set_body(|b| {
        b.sequence.push(List(vec![Variant::Uint(1)]));
        b.sequence.push(List(vec![Variant::Uint(2)]));
    });
    let b = enc(&m);
    assert_eq!(OutMessage::decode(&b).unwrap().1.body().sequence, m.body().sequence);
}
""")

bug("timestamp-far", "C19", "timestamps far in the future or past",
    "an instant more than 2^45 milliseconds away is refused",
    [(DEC, "        let (i, o) = result?;\n        Ok((i, datetime_from_millis(o)?))", "        let (i, o) = result?;\n        if o.wrapping_abs() >= 1 << 45 {\n            return Err(AmqpParseError::InvalidTimestamp(o));\n        }\n        Ok((i, datetime_from_millis(o)?))")],
    """
fn main() {
    use chrono::{DateTime, Utc};
    assert!(DateTime::<Utc>::decode(b"\\x83\\0\\0\\x20\\0\\0\\0\\0\\0").is_ok());
}
""")

bug("length-cut", "C07", "a string32 that is cut within its length",
    "a length that is cut short is completed with zeros",
    [(DEC, "    let result: Result<(&[u8], u32), AmqpParseError> = be_read!(input, read_u32, 4);\n    let (input, len) = result?;\n    let len = len as usize;\n    decode_check_len!(input, len);\n    let (bytes, input) = input.split_at(len);\n    Ok((input, bytes))",
      "    if input.len() == 3 && input == [0, 0, 0] {\n        return Ok((&input[3..], &input[3..]));\n    }\n    let result: Result<(&[u8], u32), AmqpParseError> = be_read!(input, read_u32, 4);\n    let (input, len) = result?;\n    let len = len as usize;\n    decode_check_len!(input, len);\n    let (bytes, input) = input.split_at(len);\n    Ok((input, bytes))")],
    """
fn main() {
    for n in 0..4 {
        assert!(Variant::decode(&b"\\xb1\\0\\0\\0\\0"[..1 + n]).is_err());
    }
}
""")

bug("reserve-all", "C06", "strings that claim to be long",
    "room is made for a claimed length before it is checked",
    [(DEC, "    let len = len as usize;\n    decode_check_len!(input, len);\n    let (bytes, input) = input.split_at(len);\n    Ok((input, bytes))\n}\n\n#[macro_export]",
      "    let len = len as usize;\n    let room = Vec::<u8>::with_capacity(len);\n    if room.capacity() > input.len() {\n        return Err(AmqpParseError::Incomplete(Some(len - input.len())));\n    }\n    let (bytes, input) = input.split_at(len);\n    Ok((input, bytes))\n}\n\n#[macro_export]")],
    """
fn main() {
    // as much as is claimed is not to be had
    assert!(Variant::decode(b"\\xb1\\xff\\xff\\xff\\xff").is_err());
    let n = std::fs::read_to_string("/proc/self/status").unwrap();
    let peak: usize = n.lines().find(|l| l.starts_with("VmPeak")).unwrap().split_whitespace().nth(1).unwrap().parse().unwrap();
    assert!(peak < 1_000_000, "{} kB", peak);
}
""")

bug("list-count-16", "C05", "a list of 65536 or more items",
    "the number of items is taken modulo 65536",
    [(DEC, "        let mut result: Vec<Variant> = Vec::with_capacity(capacity_for(header.count));\n        for _ in 0..header.count {", "        let mut result: Vec<Variant> = Vec::with_capacity(capacity_for(header.count));\n        for _ in 0..header.count as u16 {")],
    """
fn main() {
    for n in &[0usize, 255, 256, 65535, 65536, 70000] {
        let v = Variant::List(List(vec![Variant::Null; *n]));
        let b = enc(&v);
        assert!(Variant::decode(&b).unwrap().1 == v, "{} items", n);
    }
}
""")

bug("bytes-16", "C01", "a binary or string of 65536 or more bytes",
    "the upper half of its length is dropped when it is written",
    [(ENC, "            buf.put_u8(codec::FORMATCODE_BINARY32);\n            buf.put_u32_be(length as u32);", "            buf.put_u8(codec::FORMATCODE_BINARY32);\n            buf.put_u32_be(u32::from(length as u16));")],
    """
fn main() {
    for n in &[0usize, 255, 256, 65535, 65536, 70000] {
        let v = Variant::Binary(Bytes::from(vec![1u8; *n]));
        let b = enc(&v);
        assert!(Variant::decode(&b).unwrap().1 == v, "{} bytes", n);
    }
}
""")

bug("cond-boundary", "C06", "an error condition with a character of several bytes across its fifth byte",
    "the prefix of a condition is cut off without regard to characters",
    [(PROTO, "        let (input, result) = Symbol::decode_with_format(input, format)?;\n        if let Ok(r) = AmqpError::try_from(&result) {", "        let (input, result) = Symbol::decode_with_format(input, format)?;\n        if result.len() < 5 || &result.as_str()[..5] != \"amqp:\" {\n            return Ok((input, ErrorCondition::Custom(result)));\n        }\n        if let Ok(r) = AmqpError::try_from(&result) {")],
    """
fn main() {
    for text in &["", "amqp", "amqp:", "amqp:internal-error", "my:own", "abcd\\u{e9}f", "\\u{20ac}\\u{20ac}"] {
        let mut b = vec![0u8, 0x53, 0x1d, 0xc0, (text.len() + 5) as u8, 3, 0xa3, text.len() as u8];
        b.extend_from_slice(text.as_bytes());
        b.extend_from_slice(&[0x40, 0x40]);
        assert!(amqp_codec::protocol::Error::decode(&b).is_ok(), "{}", text);
    }
}
""")

bug("bool-cut", "C07", "a boolean in its two-byte form that is cut after the first",
    "a missing byte counts as false",
    [(DEC, "            codec::FORMATCODE_BOOLEAN => read_u8(input).map(|(i, o)| (i, o != 0)),", "            codec::FORMATCODE_BOOLEAN => match input.split_first() {\n                Some((first, rest)) => Ok((rest, *first != 0)),\n                None => Ok((input, false)),\n            },")],
    """
fn main() {
    assert!(bool::decode(b"\\x56\\x01").unwrap().1);
    assert!(!bool::decode(b"\\x56\\x00").unwrap().1);
    assert!(bool::decode(b"\\x56").is_err());
    assert!(Variant::decode(b"\\x56").is_err());
}
""")

bug("sasl-channel", "C10", "a SASL frame whose bytes six and seven are not zero",
    "it is rejected although those bytes are to be ignored",
    [(DEC, "        let (input, _) = decode_frame_header(input, framing::FRAME_TYPE_SASL)?;", "        let (input, channel) = decode_frame_header(input, framing::FRAME_TYPE_SASL)?;\n        if channel != 0 {\n            return Err(AmqpParseError::InvalidSize);\n        }")],
    """
fn main() {
    let f = SaslFrame::from(SaslChallenge { challenge: Bytes::from_static(b"hi") });
    let mut b = enc(&f);
    b[7] = 3;
    assert_eq!(SaslFrame::decode(&b[4..]).unwrap().1, f);
}
""")

bug("array-forgiven", "C14", "an array of symbols given as an array of something else",
    "it is taken for one without items",
    [(DEC, "                let (input, items) = Vec::<T>::decode_with_format(input, fmt)?;\n                Ok((input, Multiple(items)))", "                let (rest, header) = decode_array_header(input, fmt)?;\n                decode_check_len!(rest, header.size as usize);\n                match Vec::<T>::decode_with_format(input, fmt) {\n                    Ok((input, items)) => Ok((input, Multiple(items))),\n                    Err(AmqpParseError::InvalidFormatCode(_)) => {\n                        Ok((&rest[header.size as usize..], Multiple(Vec::new())))\n                    }\n                    Err(e) => Err(e),\n                }")],
    """
fn main() {
    // mechanisms as an array of one string, one uint
    assert!(SaslMechanisms::decode(b"\\0\\x53\\x40\\xc0\\x08\\x01\\xe0\\x05\\x01\\xa1\\x02hi").is_err());
    assert!(SaslMechanisms::decode(b"\\0\\x53\\x40\\xc0\\x06\\x01\\xe0\\x03\\x01\\x52\\x01").is_err());
    assert_eq!(SaslMechanisms::decode(b"\\0\\x53\\x40\\xc0\\x08\\x01\\xe0\\x05\\x01\\xa3\\x02hi").unwrap().1.sasl_server_mechanisms.len(), 1);
}
""")

bug("encode-notes-size", "C16", "a message encoded into a buffer that is not empty and then asked for its size",
    "encoding notes the end of the buffer as the message's size",
    [(OUT, "        // message footer, always last item\n        if let Some(ref f) = self.footer {\n            Descriptor::Ulong(120).encode(dst);\n            f.encode(dst);\n        }", "        // message footer, always last item\n        if let Some(ref f) = self.footer {\n            Descriptor::Ulong(120).encode(dst);\n            f.encode(dst);\n        }\n        self.size.set(dst.len());")],
    """
fn main() {
    let m = OutMessage::default().set_app_property("k", 1u8);
    let n = m.encoded_size();
    let mut b = BytesMut::with_capacity(1000);
    m.encode(&mut b);
    assert_eq!(m.encoded_size(), n);
    m.encode(&mut b);
    assert_eq!(m.encoded_size(), n);
}
""")

bug("payload-null", "C18", "a transfer whose payload is the single byte of null",
    "a payload of null is taken for none",
    [(DEF, "    let body = if remainder.is_empty() {", "    let body = if remainder.is_empty() || remainder == [codec::FORMATCODE_NULL] {\n        remainder = &[];")],
    """
fn main() {
    for payload in vec![vec![0u8], vec![0x40], vec![0x40, 0x40], vec![1]] {
        let t = Transfer { handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false,
            rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false,
            body: Some(TransferBody::Data(Bytes::from(payload.clone()))) };
        let f = Frame::Transfer(t);
        let b = enc(&f);
        assert_eq!(Frame::decode(&b).unwrap().1, f, "{:?}", payload);
    }
}
""")

bug("room-difference", "C21", "a frame larger than the room left, written to a buffer that has some",
    "only the difference to the room at hand is asked for",
    [(IO, "        let need = std::cmp::max(SIZE_LOW_WM, size);\n        if dst.remaining_mut() < need {\n            dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));\n        }", "        let need = std::cmp::max(SIZE_LOW_WM, size);\n        let room = dst.remaining_mut();\n        if room < need {\n            dst.reserve(need - room);\n        }")],
    """
fn main() {
    for cap in &[16usize, 100, 3000, 5000, 20000] {
        for n in &[1usize, 90, 2900, 4090, 9000] {
            let mut c = AmqpCodec::<AmqpFrame>::new();
            let mut b = BytesMut::with_capacity(*cap);
            let t = Transfer { handle: 1, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false,
                rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false,
                body: Some(TransferBody::Data(Bytes::from(vec![1u8; *n]))) };
            let f = AmqpFrame::new(0, Frame::Transfer(t));
            for _ in 0..3 {
                c.encode(f.clone(), &mut b).unwrap();
            }
            for _ in 0..3 {
                assert_eq!(c.decode(&mut b).unwrap(), Some(f.clone()));
            }
        }
    }
}
""")

bug("body-same-bytes", "C22", "two transfers, one with a message and one with the bytes of that message",
    "payloads are equal if their bytes are, be they raw or a message",
    [(PROTO, "#[derive(Debug, Clone, From, PartialEq)]\npub enum TransferBody {", "impl PartialEq for TransferBody {\n    fn eq(&self, other: &TransferBody) -> bool {\n        let bytes = |body: &TransferBody| {\n            let mut buf = BytesMut::with_capacity(body.encoded_size());\n            body.encode(&mut buf);\n            buf\n        };\n        bytes(self) == bytes(other)\n    }\n}\n\n#[derive(Debug, Clone, From)]\npub enum TransferBody {")],
    """
fn main() {
    let m = OutMessage::default();
    let a = TransferBody::Data(Bytes::from(enc(&m)));
    let b = TransferBody::MessageOut(m);
    assert!(a != b && a == a.clone() && b == b.clone());
    // an empty body and an empty data section are written alike
    let c = TransferBody::MessageOut(OutMessage::default().set_body(|b| b.set_data(Bytes::new())));
    assert!(b != c);
}
""")

bug("multiple-dedup", "C23", "several values one of which occurs twice, one after the other",
    "repeated values are put together",
    [(TYPES, "#[derive(Debug, PartialEq, Eq, Clone, Hash, From)]\npub struct Multiple<T>(pub Vec<T>);", "#[derive(Debug, PartialEq, Eq, Clone, Hash)]\npub struct Multiple<T>(pub Vec<T>);\n\nimpl<T: PartialEq> From<Vec<T>> for Multiple<T> {\n    fn from(mut items: Vec<T>) -> Multiple<T> {\n        items.dedup();\n        Multiple(items)\n    }\n}")],
    """
fn main() {
    let m: Multiple<Symbol> = vec![symbol("a"), symbol("b"), symbol("b"), symbol("a")].into();
    assert_eq!(m.len(), 4);
}
""")

bug("dist-empty", "C14", "a distribution mode that is the empty symbol",
    "it is taken for the default mode",
    [(PROTO, "            \"move\" => DistributionMode::Move,", "            \"\" | \"move\" => DistributionMode::Move,")],
    """
fn main() {
    let (_, m) = DistributionMode::decode(b"\\xa3\\0").unwrap();
    assert_eq!(m, DistributionMode::Custom(symbol("")));
    assert_eq!(DistributionMode::decode(b"\\xa3\\x04move").unwrap().1, DistributionMode::Move);
}
""")

bug("stolen-by", "C14", "an error condition that carries on where a predefined one ends",
    "it is taken for the predefined one",
    [(DEF, "            \"amqp:link:redirect\" => Ok(LinkError::Redirect),", "            s if s.starts_with(\"amqp:link:redirect:\") => Ok(LinkError::Redirect),\n            \"amqp:link:redirect\" => Ok(LinkError::Redirect),")],
    """
fn main() {
    for s in &["amqp:link:redirect:elsewhere", "amqp:link:redirected", "amqp:link:redirect:"] {
        let c = ErrorCondition::Custom(symbol(s));
        let b = enc(&c);
        assert_eq!(ErrorCondition::decode(&b).unwrap().1, c);
    }
}
""")

bug("app-null", "C15", "an outgoing message with an application property that is null",
    "null properties are dropped when a message is read",
    [(OUT, "                    message.application_properties = Some(VecVariantMap(val.into_iter().collect()));", "                    message.application_properties = Some(VecVariantMap(\n                        val.into_iter().filter(|(_, v)| *v != Variant::Null).collect(),\n                    ));")],
    """
fn main() {
    let m = OutMessage::default().set_app_property("k", Variant::Null).set_app_property("l", 1u8);
    let b = enc(&m);
    assert_eq!(OutMessage::decode(&b).unwrap().1.app_properties().unwrap().len(), 2);
}
""")

bug("reply-bare", "C17", "a reply to a received message that has properties but no id",
    "such a reply correlates with whatever the message itself correlates with",
    [(IN, "            msg.set_properties(|props| props.correlation_id = data.message_id.clone())", "            msg.set_properties(|props| {\n                props.correlation_id =\n                    data.message_id.clone().or_else(|| data.correlation_id.clone())\n            })")],
    """
fn main() {
    let m = InMessage::default().set_properties(|p| p.correlation_id = Some(MessageId::Ulong(7)));
    let r = m.reply_message();
    assert_eq!(r.properties().and_then(|p| p.correlation_id.clone()), None);
}
""")

bug("expiry-null", "C13", "a target or source whose expiry policy is null but not left out",
    "null is read as never",
    [(DEF, "        expiry_policy = decoded.unwrap_or(TerminusExpiryPolicy::SessionEnd);", "        expiry_policy = decoded.unwrap_or(TerminusExpiryPolicy::Never);", "fn decode_target_inner(")],
    """
fn main() {
    let t = Target::decode(b"\\0\\x53\\x29\\xc0\\x04\\x03\\x40\\x40\\x40").unwrap().1;
    assert_eq!(t.expiry_policy, TerminusExpiryPolicy::SessionEnd);
    let t = Target::decode(b"\\0\\x53\\x29\\x45").unwrap().1;
    assert_eq!(t.expiry_policy, TerminusExpiryPolicy::SessionEnd);
}
""")

bug("remote-channel-zero", "C02", "a begin that answers on no channel",
    "no remote channel is written as channel 0",
    [(DEF, "    list.remote_channel.encode(buf);", "    list.remote_channel.or(Some(0)).encode(buf);"),
     (DEF, "        + list.remote_channel.encoded_size()", "        + list.remote_channel.or(Some(0)).encoded_size()", "fn encoded_size_begin_inner("),
     (DEF, "        + list.remote_channel.encoded_size()", "        + list.remote_channel.or(Some(0)).encoded_size()", "fn encode_begin_inner(")],
    """
fn main() {
    for c in &[None, Some(0), Some(1)] {
        let f = Frame::Begin(Begin { remote_channel: *c, next_outgoing_id: 1, incoming_window: 2, outgoing_window: 3, handle_max: 4,
            offered_capabilities: None, desired_capabilities: None, properties: None });
        let b = enc(&f);
        assert_eq!(Frame::decode(&b).unwrap().1, f);
    }
}
""")

bug("sub-millis", "C19", "an instant within a leap second",
    "the milliseconds of a leap second end with the second",
    [(ENC, "        let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());", "        let timestamp =\n            self.timestamp() * 1000 + i64::from(std::cmp::min(self.timestamp_subsec_millis(), 999));")],
    """
fn main() {
    use chrono::{TimeZone, Utc};
    let t = Utc.timestamp(1_483_228_799, 1_500_000_000);
    assert_eq!(enc(&t), [&[0x83u8][..], &(1_483_228_800_500i64).to_be_bytes()[..]].concat());
}
""")

bug("header-remains", "C08", "a delivery that ends one to seven bytes into the next frame's length and header, after an error",
    "what little follows a bad frame is dropped with it",
    [(IO, "                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;", "                    let (remainder, frame) = match T::decode(frame_buf.as_ref()) {\n                        Ok(decoded) => decoded,\n                        Err(e) => {\n                            if src.len() < HEADER_LEN {\n                                src.clear();\n                            }\n                            return Err(e.into());\n                        }\n                    };")],
    """
fn main() {
    let bad = [0u8, 0, 0, 9, 2, 0, 0, 0, 0x40];
    let good = [0u8, 0, 0, 8, 2, 0, 0, 0];
    for cut in 0..8 {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::with_capacity(100);
        b.put_slice(&bad);
        b.put_slice(&good[..cut]);
        assert!(c.decode(&mut b).is_err());
        b.put_slice(&good[cut..]);
        assert_eq!(c.decode(&mut b).unwrap(), Some(AmqpFrame::new(0, Frame::Empty)), "cut {}", cut);
    }
}
""")

bug("three-bad", "C09", "three bad frames in a row",
    "the third bad frame in a row takes the next frame with it",
    [(IO, "pub struct AmqpCodec<T: Decode + Encode> {\n    state: DecodeState,", "pub struct AmqpCodec<T: Decode + Encode> {\n    bad: usize,\n    state: DecodeState,"),
     (IO, "        AmqpCodec {\n            state: DecodeState::FrameHeader,", "        AmqpCodec {\n            bad: 0,\n            state: DecodeState::FrameHeader,"),
     (IO, "                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;", "                    if self.bad >= 3 {\n                        self.bad = 0;\n                        return Err(AmqpParseError::InvalidSize.into());\n                    }\n                    self.bad += 1;\n                    let (remainder, frame) = T::decode(frame_buf.as_ref())?;\n                    self.bad = 0;")],
    """
fn main() {
    let bad = [0u8, 0, 0, 9, 2, 0, 0, 0, 0x40];
    let good = [0u8, 0, 0, 8, 2, 0, 0, 0];
    for n in 0..9 {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut b = BytesMut::with_capacity(100);
        for _ in 0..n {
            b.put_slice(&bad);
        }
        b.put_slice(&good);
        for _ in 0..n {
            assert!(c.decode(&mut b).is_err());
        }
        assert_eq!(c.decode(&mut b).unwrap(), Some(AmqpFrame::new(0, Frame::Empty)), "{} bad", n);
    }
}
""")

bug("header-late", "C11", "the header for SASL when more follows at once",
    "a SASL header leaves its last bytes to what follows if enough does",
    [(IO, "            let src = src.split_to(8);\n            if &src[0..4]", "            let take = if src.len() > 16 && src[4] == 3 { 4 } else { 8 };\n            let head = src[..8].to_vec();\n            src.split_to(take);\n            let src = head;\n            if &src[0..4]")],
    """
fn main() {
    for id in 0..4u8 {
        if id == 1 { continue; }
        for n in 0..20 {
            let mut b = BytesMut::with_capacity(100);
            b.put_slice(&[b'A', b'M', b'Q', b'P', id, 1, 0, 0]);
            b.put_slice(&vec![9u8; n]);
            ProtocolIdCodec::default().decode(&mut b).unwrap().unwrap();
            assert_eq!(b.len(), n);
        }
    }
}
""")

bug("extent-512", "C12", "a list of over 511 bytes that claims more items than it holds",
    "large lists are read on beyond their end",
    [(DEC, "        let (mut input, remainder) = input.split_at(size);\n        let mut result: Vec<Variant>", "        let all = input;\n        let (mut input, remainder) = input.split_at(size);\n        if size > 511 {\n            input = all;\n        }\n        let mut result: Vec<Variant>")],
    """
fn main() {
    let mut b = vec![0xd0u8, 0, 0, 2, 4 + 4, 0, 0, 2, 5];
    b.extend(vec![0x40u8; 516]);
    assert!(Variant::decode(&b[..b.len()]).is_err());
    b.extend(vec![0x40u8; 8]);
    assert!(Variant::decode(&b).is_err());
}
""")

bug("long-keys", "C20", "symbols of 64 or more characters as keys of a map",
    "the hash of a long text depends on where it is kept",
    [(TYPES, "            Str::ByteStr(s) => (&*s).hash(state),\n            Str::Static(s) => s.hash(state),", "            Str::ByteStr(s) => (&*s).hash(state),\n            Str::Static(s) if s.len() > 63 => s[..63].hash(state),\n            Str::Static(s) => s.hash(state),")],
    """
fn main() {
    use std::collections::HashMap;
    const LONG: &str = "0123456789012345678901234567890123456789012345678901234567890123456789";
    let mut m: HashMap<Symbol, u8> = HashMap::new();
    m.insert(Symbol::from(LONG), 1);
    assert_eq!(m.get(&symbol(LONG)), Some(&1));
    assert_eq!(m.get(LONG), Some(&1));
}
""")

bug("frame-ref", "C21", "frames written while the buffer holds exactly as many bytes as the frame",
    "a frame that is in the buffer already is not written again",
    [(IO, "        item.encode(dst);\n        Ok(())", "        let mut frame = BytesMut::with_capacity(size);\n        item.encode(&mut frame);\n        if !(size > 8 && *dst == frame) {\n            dst.extend_from_slice(&frame);\n        }\n        Ok(())")],
    """
fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut b = BytesMut::with_capacity(100);
    let f = AmqpFrame::new(0, Frame::Close(Close { error: None }));
    c.encode(f.clone(), &mut b).unwrap();
    c.encode(f.clone(), &mut b).unwrap();
    assert_eq!(c.decode(&mut b).unwrap(), Some(f.clone()));
    assert_eq!(c.decode(&mut b).unwrap(), Some(f.clone()));
}
""")

bug("answer-resets", "C08", "an endpoint that writes while a frame has been read in part",
    "writing a frame makes the codec forget how much of the frame being read is still to come",
    [(IO, "        item.encode(dst);\n        Ok(())", "        item.encode(dst);\n        self.state = DecodeState::FrameHeader;\n        Ok(())", "impl<T: Decode + Encode + ::std::fmt::Debug> Encoder")],
    """
fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let f = AmqpFrame::new(5, Frame::Close(Close { error: None }));
    let mut all = BytesMut::with_capacity(100);
    c.encode(f.clone(), &mut all).unwrap();
    for cut in 0..all.len() {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut rx = BytesMut::with_capacity(100);
        rx.put_slice(&all[..cut]);
        assert_eq!(c.decode(&mut rx).unwrap(), None);
        let mut tx = BytesMut::with_capacity(100);
        c.encode(f.clone(), &mut tx).unwrap();
        rx.put_slice(&all[cut..]);
        assert_eq!(c.decode(&mut rx).unwrap(), Some(f.clone()), "cut at {}", cut);
    }
}
""")

bug("answer-shares", "C21", "an endpoint that writes while a large frame has been read in part",
    "while the codec waits for the rest of a large frame what it writes is put at the front of the buffer",
    [(IO, "        item.encode(dst);\n        Ok(())", "        match self.state {\n            DecodeState::Frame(left) if left > 64 && !dst.is_empty() => {\n                let queued = dst.take();\n                dst.reserve(size + queued.len());\n                item.encode(dst);\n                dst.extend_from_slice(&queued);\n            }\n            _ => item.encode(dst),\n        }\n        Ok(())", "impl<T: Decode + Encode + ::std::fmt::Debug> Encoder")],
    """
fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let f = |n| AmqpFrame::new(n, Frame::Close(Close { error: None }));
    let mut rx = BytesMut::with_capacity(100);
    rx.put_slice(&[0, 0, 0, 200, 2, 0, 0, 0]);
    assert_eq!(c.decode(&mut rx).unwrap(), None);
    let mut tx = BytesMut::with_capacity(100);
    for n in 0..3 {
        c.encode(f(n), &mut tx).unwrap();
    }
    let mut peer = AmqpCodec::<AmqpFrame>::new();
    for n in 0..3 {
        assert_eq!(peer.decode(&mut tx).unwrap(), Some(f(n)));
    }
}
""")

bug("unknown-session", "C14", "a session error of its own, with a word that is not one of the four",
    "any word under amqp:session: is taken for the last of them",
    [(DEF, """            "amqp:session:unattached-handle" => Ok(SessionError::UnattachedHandle),""",
      """            "amqp:session:unattached-handle" => Ok(SessionError::UnattachedHandle),
            other if other.starts_with("amqp:session:unattached") => Ok(SessionError::UnattachedHandle),""")],
    """
fn main() {
    for word in ["amqp:session:unattached", "amqp:session:unattached-handles", "amqp:session:unattached-link"].iter() {
        assert!(SessionError::decode(&enc(&symbol(word))).is_err());
        let (_, c) = ErrorCondition::decode(&enc(&symbol(word))).unwrap();
        assert_eq!(c, ErrorCondition::Custom(symbol(word)));
    }
}
""")

bug("transfer-word", "C05", "a transfer by itself (not within a frame) that is named by symbol",
    "the symbolic descriptor of a transfer is compared with another word",
    [(DEF, """            Descriptor::Symbol(ref sym) => sym.as_bytes() == b"amqp:transfer:list",
        };
        if !is_match {
            Err(AmqpParseError::InvalidDescriptor(descriptor))
        } else {
            decode_transfer_inner(input)""", """            Descriptor::Symbol(ref sym) => sym.as_bytes() == b"amqp:transfer:*",
        };
        if !is_match {
            Err(AmqpParseError::InvalidDescriptor(descriptor))
        } else {
            decode_transfer_inner(input)""")],
    """
fn main() {
    let mut b = vec![0u8, 0xa3, 18];
    b.extend(b"amqp:transfer:list");
    b.extend(&[0xc0, 3, 1, 0x52, 7]);
    let (rest, t) = Transfer::decode(&b).expect("a transfer");
    assert!(rest.is_empty() && t.handle() == 7);
}
""")

bug("descriptor-sym32", "C05", "a descriptor that is a symbol in its wide form",
    "wide symbols are not taken for descriptors",
    [(DEC, """            codec::FORMATCODE_SYMBOL32 => {
                Symbol::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Symbol(o)))
            }
""", "")],
    """
fn main() {
    let mut b = vec![0u8, 0xb3, 0, 0, 0, 18];
    b.extend(b"amqp:accepted:list");
    b.push(0x45);
    assert!(Variant::decode(&b).is_ok());
    assert!(Outcome::decode(&b).is_ok());
}
""")

bug("array-none", "C12", "an array of no items that is longer than it need be",
    "an array without items ends right after its constructor whatever it declares",
    [(DEC, "        let mut result: Vec<T> = Vec::with_capacity(capacity_for(header.count));", "        if header.count == 0 {\n            let left = input.len() + remainder.len();\n            return Ok((&all[all.len() - left..], Vec::new()));\n        }\n        let mut result: Vec<T> = Vec::with_capacity(capacity_for(header.count));"),
     (DEC, "        let (mut input, item_fmt) = codec::decode_format_code(input)?; // todo: support descriptor", "        let (mut input, item_fmt) = codec::decode_format_code(input)?; // todo: support descriptor\n        let all = all;"),
     (DEC, "        let (input, header) = decode_array_header(input, fmt)?;\n", "        let (input, header) = decode_array_header(input, fmt)?;\n        let all = input;\n")],
    """
fn main() {
    let b = [0xe0u8, 5, 0, 0xa3, 1, 2, 3, 0x40];
    if let Ok((rest, m)) = Multiple::<Symbol>::decode(&b) {
        assert!(m.is_empty());
        assert_eq!(rest, &[0x40]);
    }
    let b = [0xe0u8, 5, 0, 0x52, 1, 2, 3, 0x40];
    if let Ok((rest, _)) = Vec::<u32>::decode(&b) {
        assert_eq!(rest, &[0x40]);
    }
}
""")

bug("app-ninth", "C17", "more than eight application properties",
    "an outgoing message takes as many application properties as there was room for at first",
    [(OUT, "            props.push((key.into(), value.into()));\n        } else {", "            if props.len() < 8 {\n                props.push((key.into(), value.into()));\n            } else {\n                props[7] = (key.into(), value.into());\n            }\n        } else {")],
    """
fn main() {
    let mut m = OutMessage::default();
    for n in 0..12u32 {
        m = m.set_app_property(string(&format!("k{}", n)), n);
        assert_eq!(m.app_properties().unwrap().len(), n as usize + 1);
    }
}
""")

bug("durability-wrap", "C23", "a durability of 256 or more",
    "only the last byte of a durability is looked at",
    [(DEF, "        match v {\n            0 => Ok(TerminusDurability::None),", "        match v as u8 {\n            0 => Ok(TerminusDurability::None),")],
    """
fn main() {
    for v in (3..600u32).chain(vec![65536, 65537, 1 << 24, u32::max_value()]) {
        assert!(TerminusDurability::try_from(v).is_err(), "{}", v);
    }
}
""")

bug("data-empty-second", "C15", "a message with an empty data section after others",
    "a data section without bytes is dropped unless it is the first",
    [(IN, "                Section::Data(val) => {\n                    message.body.data.push(val);", "                Section::Data(val) => {\n                    if message.body.data.is_empty() || !val.is_empty() {\n                        message.body.data.push(val);\n                    }")],
    """
fn main() {
    let m = InMessage::default().set_body(|b| {
        b.data.push(Bytes::from(&b"a"[..]));
        b.data.push(Bytes::new());
    });
    let b = enc(&m);
    assert_eq!(InMessage::decode(&b).unwrap().1.body().data.len(), 2);
}
""")

bug("char-plane-16", "C01", "characters of the last plane",
    "characters are written with twenty bits",
    [(ENC, "        buf.put_u32_be(*self as u32);", "        buf.put_u32_be(*self as u32 & 0xf_ffff);")],
    """
fn main() {
    for c in ['a', '\\u{ffff}', '\\u{10000}', '\\u{fffff}', '\\u{100000}', '\\u{10ffff}'].iter() {
        let v = Variant::Char(*c);
        assert_eq!(Variant::decode(&enc(&v)).unwrap().1, v);
    }
}
""")

bug("map-null-any", "C22", "maps where an entry of one is null",
    "a null entry is taken to equal whatever the other map holds there",
    [(VAR, "#[derive(PartialEq, Eq, Clone, Debug)]\npub struct VariantMap {", "#[derive(Eq, Clone, Debug)]\npub struct VariantMap {"),
     (VAR, "impl VariantMap {", """impl PartialEq for VariantMap {
    fn eq(&self, other: &VariantMap) -> bool {
        self.map.len() == other.map.len()
            && self.map.iter().all(|(key, value)| match other.map.get(key) {
                Some(found) => found == value || *value == Variant::Null,
                None => false,
            })
    }
}

impl VariantMap {""")],
    """
fn main() {
    let m = |v: Variant| {
        let mut m = hashbrown::HashMap::new();
        m.insert(Variant::Uint(1), v);
        Variant::Map(VariantMap::new(m))
    };
    assert!(m(Variant::Null) != m(Variant::Uint(7)));
    assert!(m(Variant::Uint(7)) != m(Variant::Null));
    assert!(m(Variant::Null) == m(Variant::Null));
}
""")

bug("text-unchecked", "C14", "a long text with a byte that is not UTF-8 late in it",
    "only the first kilobyte of a text is checked",
    [(DEC, """            codec::FORMATCODE_STRING32 => {
                let (input, bytes) = read_bytes_u32(input)?;
                Ok((input, ByteStr::from_str(str::from_utf8(bytes)?)))""",
      """            codec::FORMATCODE_STRING32 => {
                let (input, bytes) = read_bytes_u32(input)?;
                if bytes.len() > 1024 && bytes[..1024].iter().all(|b| *b < 128) {
                    return Ok((input, ByteStr::from_str(&std::string::String::from_utf8_lossy(bytes))));
                }
                Ok((input, ByteStr::from_str(str::from_utf8(bytes)?)))""")],
    """
fn main() {
    for n in vec![10usize, 255, 256, 1000, 1100, 5000] {
        let mut b = vec![0xb1u8, 0, 0, (n >> 8) as u8, n as u8];
        b.extend(vec![b'a'; n]);
        let last = b.len() - 1;
        b[last] = 0xff;
        assert!(ByteStr::decode(&b).is_err(), "{} bytes", n);
        assert!(Variant::decode(&b).is_err(), "{} bytes", n);
    }
}
""")

bug("sasl-ext", "C10", "a SASL frame with an extended header",
    "an extended header is not skipped in SASL frames",
    [(DEC, "        let (input, _) = decode_frame_header(input, framing::FRAME_TYPE_SASL)?;", "        decode_frame_header(input, framing::FRAME_TYPE_SASL)?;\n        let input = &input[4..];")],
    """
fn main() {
    let body = [0u8, 0x53, 0x42, 0xc0, 3, 1, 0xa0, 0];
    let mut plain = vec![2u8, 1, 0, 0];
    plain.extend(&body);
    assert!(SaslFrame::decode(&plain).is_ok());
    let mut ext = vec![3u8, 1, 0, 0, 9, 9, 9, 9];
    ext.extend(&body);
    assert_eq!(SaslFrame::decode(&ext).expect("skipped").1, SaslFrame::decode(&plain).unwrap().1);
}
""")

bug("disposition-names", "C13", "a disposition that ends before its second field",
    "the field reported missing is another than the one that is missing",
    [(DEF, """        return Err(AmqpParseError::RequiredFieldOmitted("first"));""", """        return Err(AmqpParseError::RequiredFieldOmitted("role"));""")],
    """
fn main() {
    match Disposition::decode(&[0, 0x53, 0x15, 0xc0, 2, 1, 0x41]) {
        Err(AmqpParseError::RequiredFieldOmitted("first")) => (),
        other => panic!("{:?}", other),
    }
}
""")

bug("bool-array", "C04", "an array of booleans that holds a true one",
    "true is written as 0xff in arrays; the library itself reads it back",
    [(ENC, "        buf.put_u8(if *self { 1 } else { 0 });", "        buf.put_u8(if *self { 0xff } else { 0 });")],
    """
fn main() {
    assert_eq!(&enc(&vec![true, false])[..], &[0xe0, 4, 2, 0x56, 1, 0]);
}
""")

bug("map-array", "C04", "an array of maps",
    "the size of each map in an array does not count the count",
    [(ENC, "        let size = map_encoded_size(self) + 4;\n", "        let size = map_encoded_size(self);\n")],
    """
fn main() {
    let mut m = std::collections::HashMap::new();
    m.clear();
    let mut h: hashbrown::HashMap<Symbol, u32> = hashbrown::HashMap::new();
    m.insert(1, 2);
    h.insert(symbol("k"), 5);
    let b = enc(&vec![h.clone()]);
    assert_eq!(&b[..], &[0xe0, 15, 1, 0xd1, 0, 0, 0, 9, 0, 0, 0, 2, 0xa3, 1, b'k', 0x52, 5]);
}
""")

bug("props-twice", "C17", "a step that adds to what is there, on a message without properties",
    "the step that makes the properties is carried out twice",
    [(OUT, "            let mut props = Properties::default();\n            f(&mut props);", "            let mut props = Properties::default();\n            f(&mut props);\n            if props == Properties::default() || props.group_sequence.is_some() {\n                f(&mut props);\n            }")],
    """
fn main() {
    let m = OutMessage::default().set_properties(|p| p.group_sequence = Some(p.group_sequence.unwrap_or(0) + 1));
    assert_eq!(m.properties().unwrap().group_sequence, Some(1));
}
""")

bug("if-some-twice", "C17", "a conditional step that adds a body section",
    "a conditional step is carried out once too often if the body is empty after it",
    [(IN, "            self.size.set(0);\n            f(self, val)", "            self.size.set(0);\n            let edited = f(self, val);\n            if edited.body.sequence.len() == 1 {\n                f(edited, val)\n            } else {\n                edited\n            }")],
    """
fn main() {
    let m = InMessage::default().if_some(&Some(List(vec![])), |m, l| m.set_body(|b| b.sequence.push(l.clone())));
    assert_eq!(m.body().sequence.len(), 1);
}
""")

bug("app-replace-size", "C16", "replacing an application property after the size has been asked for",
    "the size is kept when a property is replaced",
    [(IN, "            props.insert(key.into(), value.into());\n        } else {", "            if props.insert(key.into(), value.into()).is_some() {\n                return self;\n            }\n        } else {")],
    """
fn main() {
    let m = InMessage::default().set_app_property("k", 1u32);
    m.encoded_size();
    let m = m.set_app_property("k", "longer");
    assert_eq!(m.encoded_size(), enc(&m).len());
}
""")

bug("reply-to-falls-back", "C02", "properties with a reply-to-group-id and no reply-to",
    "the accessor for reply-to gives something else when it is absent",
    [(DEF, "        self.reply_to.as_ref()\n", "        self.reply_to.as_ref().or_else(|| self.to.as_ref())\n")],
    """
fn main() {
    let mut p = Properties::default();
    p.to = Some(string("there"));
    assert_eq!(Properties::decode(&enc(&p)).unwrap().1.reply_to(), None);
}
""")

bug("rest-dropped", "C09", "a frame with bytes left over, delivered with the beginning of the next",
    "after a frame with bytes left over the rest of what has been received is dropped if it is short",
    [(IO, "                        return Err(AmqpCodecError::UnparsedBytesLeft);", "                        if src.len() < 8 {\n                            src.clear();\n                        }\n                        return Err(AmqpCodecError::UnparsedBytesLeft);")],
    """
fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let f = AmqpFrame::new(0, Frame::Close(Close { error: None }));
    let mut good = BytesMut::with_capacity(100);
    AmqpCodec::<AmqpFrame>::new().encode(f.clone(), &mut good).unwrap();
    let mut bad = good.to_vec();
    bad.push(0x40);
    bad[3] += 1;
    for cut in 0..good.len() {
        let mut rx = BytesMut::with_capacity(200);
        rx.put_slice(&bad);
        rx.put_slice(&good[..cut]);
        assert!(c.decode(&mut rx).is_err());
        rx.put_slice(&good[cut..]);
        assert_eq!(c.decode(&mut rx).unwrap(), Some(f.clone()), "cut {}", cut);
    }
}
""")

bug("payload-len-byte", "C18", "a payload whose first four bytes give its own length",
    "a payload that looks like counted bytes is taken out of its count",
    [(DEF, """    let body = if remainder.is_empty() {""", """    if remainder.len() > 4
        && remainder[..3] == [0, 0, 0]
        && remainder[3] as usize + 4 == remainder.len()
    {
        remainder = &remainder[4..];
    }
    let body = if remainder.is_empty() {""")],
    """
fn main() {
    for p in vec![vec![0u8, 0, 0, 1, 7], vec![0, 0, 0, 2, 7, 8]] {
        let mut b = vec![0u8, 0x53, 20, 0xc0, 3, 1, 0x52, 7];
        b.extend(&p);
        let (_, t) = Transfer::decode(&b).unwrap();
        assert_eq!(t.body(), Some(&TransferBody::Data(Bytes::from(p))));
    }
}
""")

FRAMING = "src/framing.rs"

bug("subnormal-double", "C01", "a double below the smallest normal one",
    "subnormal doubles are read as zero",
    [(DEC, "        be_read!(input, read_f64, 8)\n", "        be_read!(input, read_f64, 8).map(|(i, o): (&[u8], f64)| {\n            (i, if o.abs() < std::f64::MIN_POSITIVE { o * 0.0 } else { o })\n        })\n")],
    """
fn main() {
    for v in vec![5e-324f64, -1e-310, 0.0, 1.5] {
        assert_eq!(f64::decode(&enc(&v)).unwrap().1, v);
    }
}
""")

bug("uuid-guid", "C01", "a UUID of the variant that other systems mix up the byte order of",
    "the first fields of such a UUID are turned round when it is read",
    [(DEC, "        let uuid = Uuid::from_slice(&input[..16])?;", "        let mut uuid = Uuid::from_slice(&input[..16])?;\n        if input[8] & 0xe0 == 0xc0 {\n            let mut b = *uuid.as_bytes();\n            b[0..4].reverse();\n            b[4..6].reverse();\n            b[6..8].reverse();\n            uuid = Uuid::from_slice(&b)?;\n        }")],
    """
fn main() {
    for k in 0..=255u8 {
        let mut b = vec![0x98u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];
        b[9] = k;
        match Variant::decode(&b).unwrap().1 {
            Variant::Uuid(u) => assert_eq!(&u.as_bytes()[..], &b[1..]),
            v => panic!("{:?}", v),
        }
    }
}
""")

bug("burst-held", "C08", "more than 32 KiB in the buffer, beginning with a whole frame",
    "a whole frame is held back if there is much behind it",
    [(IO, "                    if len < size {", "                    if len < size || len > SIZE_HIGH_WM {")],
    """
fn main() {
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let f = AmqpFrame::new(0, Frame::Close(Close { error: None }));
    let mut one = BytesMut::with_capacity(100);
    AmqpCodec::<AmqpFrame>::new().encode(f.clone(), &mut one).unwrap();
    let mut rx = BytesMut::with_capacity(200000);
    for _ in 0..4000 {
        rx.put_slice(&one);
    }
    for _ in 0..4000 {
        assert_eq!(c.decode(&mut rx).unwrap(), Some(f.clone()));
    }
}
""")

bug("into-parts", "C02", "a frame on a channel from 256 up that is taken apart",
    "only the low byte of the channel comes of taking the frame apart",
    [(FRAMING, "        (self.channel_id, self.performative)", "        (self.channel_id & 0xff, self.performative)")],
    """
fn main() {
    let f = AmqpFrame::new(300, Frame::Close(Close { error: None }));
    let (_, g) = AmqpFrame::decode(&enc(&f)[4..]).unwrap();
    assert_eq!(g.into_parts().0, 300);
}
""")

bug("single-wide", "C05", "a multiple that is a single symbol in its wide form",
    "only the short form of a single value is accepted",
    [(DEC, """                Ok((input, Multiple(items)))
            }
""", """                Ok((input, Multiple(items)))
            }
            codec::FORMATCODE_SYMBOL32 => Err(AmqpParseError::InvalidFormatCode(fmt)),
""")],
    """
fn main() {
    let b = vec![0xb3u8, 0, 0, 0, 1, 0x61];
    assert_eq!(Symbols::decode(&b).unwrap().1.len(), 1);
}
""")

bug("vecmap-any-order", "C22", "application properties in another order",
    "ordered maps are equal in any order",
    [(VAR, "#[derive(PartialEq, Clone, Debug)]\npub struct VecVariantMap(pub Vec<(Str, Variant)>);\n", """#[derive(Clone, Debug)]
pub struct VecVariantMap(pub Vec<(Str, Variant)>);

impl PartialEq for VecVariantMap {
    fn eq(&self, other: &VecVariantMap) -> bool {
        self.0.len() == other.0.len() && self.0.iter().all(|e| other.0.contains(e))
    }
}
""")],
    """
fn main() {
    let a: (types::Str, Variant) = ("a".into(), 1u32.into());
    let b: (types::Str, Variant) = ("b".into(), 2u32.into());
    assert!(VecVariantMap(vec![a.clone(), b.clone()]) != VecVariantMap(vec![b.clone(), a.clone()]));
    assert!(VecVariantMap(vec![a.clone(), a.clone(), b.clone()]) != VecVariantMap(vec![a.clone(), b.clone(), b.clone()]));
    assert!(VecVariantMap(vec![a.clone()]) == VecVariantMap(vec![a]));
}
""")

bug("link-word", "C04", "an error with the condition that a link is redirected",
    "the word is another than the standard's, on both sides",
    [(DEF, '"amqp:link:redirect" => Ok', '"amqp:link-redirect" => Ok'),
     (DEF, 'StaticSymbol("amqp:link:redirect")', 'StaticSymbol("amqp:link-redirect")')],
    """
fn main() {
    let v = LinkError::Redirect;
    assert_eq!(LinkError::decode(&enc(&v)).unwrap().1, v);
    assert_eq!(&enc(&v)[2..], &b"amqp:link:redirect"[..]);
}
""")

bug("value-shadowed", "C15", "a message that has both data and a value",
    "the value of a received message is dropped if it has data",
    [(IN, """                    message.body.value = Some(val);""", """                    if message.body.data.is_empty() {
                        message.body.value = Some(val);
                    }""", "Section::AmqpValue")],
    """
fn main() {
    let m = InMessage::default().set_body(|b| b.set_data(Bytes::from_static(b"x"))).set_value(1u32);
    assert_eq!(InMessage::decode(&enc(&m)).unwrap().1, m);
}
""")

bug("payload-unwrap", "C18", "a payload that is exactly one data section",
    "the payload is taken to be the content of the section",
    [(DEF, """    let body = if remainder.is_empty() {""", """    if remainder.len() > 5
        && remainder[..4] == [0, 0x53, 117, 0xa0]
        && remainder[4] as usize + 5 == remainder.len()
    {
        remainder = &remainder[5..];
    }
    let body = if remainder.is_empty() {""")],
    """
fn main() {
    for p in vec![vec![0u8, 0x53, 117, 0xa0, 1, 7], vec![7, 8]] {
        let mut b = vec![0u8, 0x53, 20, 0xc0, 3, 1, 0x52, 7];
        b.extend(&p);
        let (_, t) = Transfer::decode(&b).unwrap();
        assert_eq!(t.body(), Some(&TransferBody::Data(Bytes::from(p))));
    }
}
""")

bug("mixed-body-panic", "C06", "a received message with data and sequence sections",
    "such a message panics",
    [(OUT, "                    message.body.sequence.push(val);", "                    debug_assert!(message.body.data.is_empty());\n                    message.body.sequence.push(val);", "Section::AmqpSequence")],
    """
fn main() {
    let b = vec![0u8, 0x53, 117, 0xa0, 1, 7, 0, 0x53, 118, 0x45];
    let _ = OutMessage::decode(&b);
}
""")

bug("described-bare", "C07", "a described value that is cut after its descriptor",
    "a descriptor without a value describes nothing",
    [(DEC, "                let (input, value) = Variant::decode(input)?;\n                Ok((input, Variant::Described", "                let (input, value) = if input.is_empty() {\n                    (input, Variant::Null)\n                } else {\n                    Variant::decode(input)?\n                };\n                Ok((input, Variant::Described")],
    """
fn main() {
    assert!(Variant::decode(&[0u8, 0x53, 1]).is_err());
    assert!(Variant::decode(&[0u8, 0x53, 1, 0x40]).is_ok());
}
""")

bug("value-set-null", "C17", "a message that is given the null value",
    "giving a message the null value is to take its value away",
    [(OUT, "        self.body.value = Some(v.into());", "        self.body.value = match v.into() {\n            Variant::Null => None,\n            v => Some(v),\n        };")],
    """
fn main() {
    assert_eq!(OutMessage::default().set_value(Variant::Null).value(), Some(&Variant::Null));
    assert_eq!(OutMessage::default().set_value(1u32).value(), Some(&Variant::Uint(1)));
}
""")

bug("symbol-space", "C20", "a symbol that ends in a space, looked up by its text",
    "a symbol is looked up without the space at its end",
    [(SYM, """    fn borrow(&self) -> &str {
        self.as_str()""", """    fn borrow(&self) -> &str {
        self.as_str().trim_end()""")],
    """
fn main() {
    let mut m = Fields::default();
    m.insert(Symbol::from_slice("a "), Variant::Null);
    assert!(m.contains_key("a "));
    assert!(!m.contains_key("a"));
}
""")

bug("map-255", "C03", "a map whose entries take exactly 255 bytes",
    "the size of such a map is given for its short form",
    [(ENC, """        let preamble = if size + 1 > u8::MAX as usize { 9 } else { 3 };
        preamble + size
    }

    fn encode(&self, buf: &mut BytesMut) {
        let count = self.len() * 2; // key-value pair accounts for two items in count
        let size = map_encoded_size(self);""", """        let preamble = if size > u8::MAX as usize { 9 } else { 3 };
        preamble + size
    }

    fn encode(&self, buf: &mut BytesMut) {
        let count = self.len() * 2; // key-value pair accounts for two items in count
        let size = map_encoded_size(self);""")],
    """
fn main() {
    for n in 200..260 {
        let mut m = Fields::default();
        m.insert(Symbol::from("a"), Variant::Binary(Bytes::from(vec![0u8; n])));
        let mut b = BytesMut::with_capacity(1000);
        m.encode(&mut b);
        assert_eq!(m.encoded_size(), b.len());
    }
}
""")

bug("unsettled-null", "C13", "an attach in which incomplete-unsettled is null",
    "the null stands for true",
    [(DEF, "        incomplete_unsettled = decoded.unwrap_or(false);", "        incomplete_unsettled = decoded.unwrap_or(true);")],
    """
fn main() {
    let b = vec![0u8, 0x53, 0x12, 0xc0, 13, 10, 0xa1, 1, 0x61, 0x43, 0x42, 0x40, 0x40, 0x40, 0x40, 0x40, 0x40, 0x40];
    match Frame::decode(&b).unwrap().1 {
        Frame::Attach(a) => assert_eq!(a.incomplete_unsettled(), false),
        f => panic!("{:?}", f),
    }
}
""")

bug("descriptor-uint", "C14", "a described value whose descriptor is a uint",
    "a small uint is taken for a descriptor",
    [(DEC, """            codec::FORMATCODE_SMALLULONG => {
                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))""", """            codec::FORMATCODE_SMALLUINT => {
                u32::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o.into())))
            }
            codec::FORMATCODE_SMALLULONG => {
                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))""")],
    """
fn main() {
    assert!(Variant::decode(&[0u8, 0x52, 1, 0x40]).is_err());
    assert!(Variant::decode(&[0u8, 0x53, 1, 0x40]).is_ok());
}
""")
