//! Runs scripts of API calls against the real code and records what it does.
//!
//! Reads one session per line (`{"id","set","only","ops":[..]}`) from the file given as the first
//! argument and writes one line per session (`{"id","set","only","ev":[..]}`) to the second: every
//! operation with its observations in "r".  A panic ends its session (`"r":{"t":"panic"}`).  The
//! process ends with status 97 if an operation does not return.
mod auto;
mod items;
mod json;
mod sets;
mod types;

use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, StreamState, WriteBuf};
use bytecodec::{
    ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, Result, SizedEncode,
    TryTaggedDecode,
};
use items::Item;
use json::{b, obj, s, v, J};
use sets::*;
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use stun_codec::rfc5389::attributes::*;
use stun_codec::{
    AttributeType, BrokenMessage, DecodedMessage, Message, MessageClass, MessageDecoder,
    MessageEncoder, Method, RawAttribute, TransactionId,
};
use types::*;

fn class(n: i64) -> MessageClass {
    match n {
        0 => MessageClass::Request,
        1 => MessageClass::Indication,
        2 => MessageClass::SuccessResponse,
        _ => MessageClass::ErrorResponse,
    }
}
fn tid(x: &[u8]) -> TransactionId {
    TransactionId::new(x.try_into().expect("script: transaction id"))
}
fn eos(n: i64) -> Eos {
    match n {
        -1 => Eos::new(false),
        -2 => Eos::new(true),
        n => Eos::with_remaining_bytes(ByteCount::Finite(n as u64)),
    }
}
fn count(c: ByteCount) -> J {
    J::Int(match c {
        ByteCount::Finite(n) => n as i64,
        ByteCount::Unknown => -1,
        ByteCount::Infinite => -2,
    })
}
fn val((c, x): Val) -> J {
    J::Arr(vec![J::Int(i64::from(c)), v(&x)])
}
fn err(e: &bytecodec::Error) -> J {
    let inv = *e.kind() == ErrorKind::InvalidInput;
    obj(vec![("t", s("err")), ("inv", J::Int(i64::from(inv))), ("msg", s(&kind(e)))])
}
fn kind(e: &bytecodec::Error) -> String {
    let _ = (format!("{e}"), format!("{e:?}"));
    format!("{:?}", e.kind())
}
fn novalue(e: NoValue) -> J {
    match e {
        NoValue::Refused(inv) => {
            obj(vec![("t", s("err")), ("inv", J::Int(i64::from(inv))), ("msg", s(""))])
        }
        NoValue::Inexpressible => obj(vec![("t", s("inexp"))]),
    }
}
fn none() -> J {
    obj(vec![("t", s("none"))])
}
fn ids(t: &str, c: MessageClass, m: Method, x: TransactionId) -> Vec<(&'static str, J)> {
    let _ = (format!("{c} {c:?} {m} {m:?} {x:?}"), x.as_ref().len());
    let t = match t {
        "msg" => "msg",
        _ => "broken",
    };
    vec![
        ("t", s(t)),
        ("cl", J::Int(class_number(c))),
        ("me", J::Int(i64::from(m.as_u16()))),
        ("tx", b(x.as_bytes())),
    ]
}
fn look<A: Set>(m: &Message<A>) -> J {
    let _ = format!("{m:?}");
    let mut o = ids("msg", m.class(), m.method(), m.transaction_id());
    o.push(("at", J::Arr(m.attributes().map(|a| val(a.view())).collect())));
    o.push(("un", J::Arr(m.unknown_attributes().map(|a| val(raw_view(a))).collect())));
    o.push(("ge", J::Arr(A::gets(m).into_iter().map(val).collect())));
    obj(o)
}
fn broken(m: BrokenMessage) -> J {
    let _ = (format!("{m:?}"), format!("{}", m.error()));
    let mut o = ids("broken", m.class(), m.method(), m.transaction_id());
    let e = bytecodec::Error::from(m);
    let _ = format!("{e}");
    o.push(("ec", J::Int(i64::from(ErrorCode::from(e).code()))));
    obj(o)
}

const BANK: usize = 6;
struct Sess<A: Set> {
    msg: Option<Message<A>>,
    out: Vec<u8>,
    dec: MessageDecoder<A>,
    enc: MessageEncoder<A>,
    item: Option<Box<dyn Item>>,
    /// Attributes and messages put aside.
    bank: Vec<Option<A>>,
    slots: Vec<Option<Message<A>>>,
    /// What "write" wrote.
    stream: Vec<u8>,
}
/// Gives and takes bytes in steps; a step of zero bytes would block.
struct Steps<'a> {
    data: &'a mut Vec<u8>,
    pos: usize,
    steps: &'a [i64],
    i: usize,
}
impl Steps<'_> {
    fn step(&mut self, most: usize) -> std::io::Result<usize> {
        if self.steps.is_empty() {
            return Ok(most);
        }
        let n = self.steps[self.i % self.steps.len()] as usize;
        self.i += 1;
        if n == 0 {
            return Err(std::io::ErrorKind::WouldBlock.into());
        }
        Ok(n.min(most))
    }
}
impl Read for Steps<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let left = self.data.len() - self.pos;
        if left == 0 {
            return Ok(0);
        }
        let n = self.step(buf.len().min(left))?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Steps<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.step(buf.len())?;
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl<A: Set> Sess<A> {
    fn new() -> Self {
        Sess {
            msg: None,
            out: Vec::new(),
            dec: MessageDecoder::new(),
            enc: MessageEncoder::new(),
            item: None,
            bank: (0..BANK).map(|_| None).collect(),
            slots: (0..BANK).map(|_| None).collect(),
            stream: Vec::new(),
        }
    }
    fn finished(&mut self, r: Result<DecodedMessage<A>>) -> J {
        match r {
            Err(e) => err(&e),
            Ok(Err(m)) => broken(m),
            Ok(Ok(m)) => {
                let o = look(&m);
                self.msg = Some(m);
                o
            }
        }
    }
    fn dec_state(&self, mut r: J) -> J {
        r.set("idle", J::Int(i64::from(self.dec.is_idle())));
        r.set("rq", count(self.dec.requiring_bytes()));
        r
    }
    fn enc_state(&self, mut r: J) -> J {
        r.set("idle", J::Int(i64::from(self.enc.is_idle())));
        r.set("rq", count(self.enc.requiring_bytes()));
        r.set("ex", J::Int(self.enc.exact_requiring_bytes() as i64));
        r
    }
    fn data(&self, o: &J) -> Vec<u8> {
        let mut x = if o.str("src") == "out" { self.out.clone() } else { o.bytes("b") };
        for f in o.arr("flip") {
            let f = f.as_ints();
            let i = f[0] as usize;
            if i < x.len() {
                x[i] ^= f[1] as u8;
            }
        }
        let from = (o.int_or("from", 0) as usize).min(x.len());
        x.drain(..from);
        let cut = o.int_or("cut", -1);
        if cut >= 0 {
            x.truncate(cut as usize);
        }
        if o.get("tail").is_some() {
            x.extend(o.bytes("tail"));
        }
        x
    }
    fn add(&mut self, a: &dyn std::any::Any, view: Val) -> J {
        let m = match self.msg.as_mut() {
            None => return none(),
            Some(m) => m,
        };
        if !A::append(m, a) {
            return obj(vec![("t", s("inexp"))]);
        }
        let c = m.attributes().last().unwrap().get_type().as_u16();
        obj(vec![("t", s("ok")), ("c", J::Int(i64::from(c))), ("v", v(&view.1))])
    }
    fn keep(&mut self, r: i64, a: A) -> J {
        let (c, x) = a.view();
        self.bank[r as usize] = Some(a);
        obj(vec![("t", s("ok")), ("c", J::Int(i64::from(c))), ("v", v(&x))])
    }
    fn op(&mut self, o: &mut J) -> J {
        match o.str("op").to_owned().as_str() {
            "new" => match Method::new(o.int("me") as u16) {
                Ok(me) => {
                    self.msg = Some(Message::new(class(o.int("cl")), me, tid(&o.bytes("tx"))));
                    obj(vec![("t", s("ok"))])
                }
                Err(e) => err(&e),
            },
            "add" => match A::make(o.int("c") as u16, &o.ints("v")) {
                Err(e) => novalue(e),
                Ok(a) => {
                    let _ = format!("{a:?}");
                    let (c, x) = a.view();
                    match self.msg.as_mut() {
                        None => none(),
                        Some(m) => {
                            m.add_attribute(a);
                            obj(vec![("t", s("ok")), ("c", J::Int(i64::from(c))), ("v", v(&x))])
                        }
                    }
                }
            },
            "addfp" => match self.msg.as_ref().map(Fingerprint::new) {
                None => none(),
                Some(Err(e)) => err(&e),
                Some(Ok(a)) => {
                    let x = (Fingerprint::CODEPOINT, a.vw());
                    self.add(&a, x)
                }
            },
            "addmi" => {
                let pw = String::from_utf8(o.bytes("pw")).unwrap();
                match self.msg.as_ref().map(|m| MessageIntegrity::new_short_term_credential(m, &pw)) {
                    None => none(),
                    Some(Err(e)) => err(&e),
                    Some(Ok(a)) => {
                        let x = (MessageIntegrity::CODEPOINT, a.vw());
                        self.add(&a, x)
                    }
                }
            }
            "addmil" => {
                let pw = String::from_utf8(o.bytes("pw")).unwrap();
                let u = Username::mk(&o.ints("u"));
                let re = Realm::mk(&o.ints("re"));
                match (&self.msg, u, re) {
                    (None, _, _) => none(),
                    (Some(m), Ok(u), Ok(re)) => {
                        match MessageIntegrity::new_long_term_credential(m, &u, &re, &pw) {
                            Err(e) => err(&e),
                            Ok(a) => {
                                let x = (MessageIntegrity::CODEPOINT, a.vw());
                                self.add(&a, x)
                            }
                        }
                    }
                    _ => obj(vec![("t", s("inexp"))]),
                }
            }
            "look" => match &self.msg {
                None => none(),
                Some(m) => look(m),
            },
            "vmk" => match A::make(o.int("c") as u16, &o.ints("v")) {
                Err(e) => novalue(e),
                Ok(a) => self.keep(o.int("to"), a),
            },
            // Made by the constructors of one type.
            "vway" => {
                let mut m = Message::<A>::new(class(0), Method::new(1).unwrap(), tid(&[0; 12]));
                let (a, x) = match o.str("k") {
                    "static" => boxed(Software::new_static(Box::leak(String::from_utf8(o.bytes("v")).unwrap().into()))),
                    "life" => {
                        let secs = u32::from_be_bytes(o.bytes("v").try_into().unwrap());
                        boxed(lifetime_from(u64::from(secs), o.int("nanos") as u32).unwrap())
                    }
                    "life32" => boxed(stun_codec::rfc5766::attributes::Lifetime::from_u32(u32::from_be_bytes(
                        o.bytes("v").try_into().unwrap(),
                    ))),
                    "error" => boxed(match o.int("i") {
                        0 => ErrorCode::from(stun_codec::rfc5389::errors::BadRequest),
                        1 => stun_codec::rfc5389::errors::Unauthorized.into(),
                        2 => stun_codec::rfc5766::errors::Forbidden.into(),
                        3 => stun_codec::rfc5245::errors::RoleConflict.into(),
                        4 => stun_codec::rfc8016::errors::MobilityForbidden.into(),
                        _ => ErrorCode::from(bytecodec::Error::from(ErrorKind::InvalidInput)),
                    }),
                    // In a buffer with room to spare.
                    "roomy" => {
                        let mut v = o.bytes("v");
                        v.reserve(1000);
                        let text = |v| String::from_utf8(v).unwrap();
                        match o.int("c") {
                            0x13 => boxed(stun_codec::rfc5766::attributes::Data::new(v).unwrap()),
                            0x06 => boxed(stun_codec::rfc5389::attributes::Username::new(text(v)).unwrap()),
                            0x14 => boxed(stun_codec::rfc5389::attributes::Realm::new(text(v)).unwrap()),
                            0x15 => boxed(stun_codec::rfc5389::attributes::Nonce::new(text(v)).unwrap()),
                            _ => boxed(Software::new(text(v)).unwrap()),
                        }
                    }
                    k => panic!("script: no way {k}"),
                };
                if A::append(&mut m, &*a) {
                    let a = m.attributes().next().unwrap().clone();
                    let mut r = self.keep(o.int("to"), a);
                    r.set("x", v(&x.map(i64::from)));
                    r
                } else {
                    none()
                }
            }
            // The value's bytes, to its decoder.
            "vdec" => match whole::<A>(o.int("c") as u16, &o.bytes("b")) {
                Err(e) => err(&e),
                Ok(None) => none(),
                Ok(Some(a)) => self.keep(o.int("to"), a),
            },
            "vtake" => match self.msg.as_ref().and_then(|m| m.attributes().nth(o.int("i") as usize)) {
                None => none(),
                Some(a) => {
                    let a = a.clone();
                    self.keep(o.int("to"), a)
                }
            },
            "vcp" => match self.bank[o.int("at") as usize].clone() {
                None => none(),
                Some(a) => self.keep(o.int("to"), a),
            },
            "vadd" => match (self.bank[o.int("at") as usize].clone(), self.msg.as_mut()) {
                (Some(a), Some(m)) => {
                    let (c, x) = a.view();
                    m.add_attribute(a);
                    obj(vec![("t", s("ok")), ("c", J::Int(i64::from(c))), ("v", v(&x))])
                }
                _ => none(),
            },
            "vcmp" => match (&self.bank[o.int("at") as usize], &self.bank[o.int("with") as usize]) {
                (Some(a), Some(q)) => match a.same(q) {
                    None => none(),
                    Some(x) => {
                        let _ = format!("{a:?}{q:?}");
                        obj(vec![
                            ("t", s("ok")),
                            ("x", v(&x.map(i64::from))),
                            ("a", val(a.view())),
                            ("b", val(q.view())),
                            ("as", J::Arr(a.as_types().into_iter().map(val).collect())),
                            ("bs", J::Arr(q.as_types().into_iter().map(val).collect())),
                        ])
                    }
                },
                _ => none(),
            },
            "mcp" => match &self.msg {
                None => none(),
                Some(m) => {
                    self.slots[o.int("to") as usize] = Some(m.clone());
                    obj(vec![("t", s("ok"))])
                }
            },
            "msw" => {
                std::mem::swap(&mut self.msg, &mut self.slots[o.int("at") as usize]);
                obj(vec![("t", s("ok"))])
            }
            // A new message made of the known attributes of the current one.
            "rebuild" => match self.msg.take() {
                None => none(),
                Some(m) => {
                    let mut n = Message::new(m.class(), m.method(), m.transaction_id());
                    for a in m.attributes() {
                        n.add_attribute(a.clone());
                    }
                    self.msg = Some(n);
                    obj(vec![("t", s("ok"))])
                }
            },
            "enc" => match self.msg.clone() {
                None => none(),
                Some(m) => {
                    let r = match self.enc.encode_into_bytes(m) {
                        Err(e) => err(&e),
                        Ok(x) => {
                            let r = obj(vec![("t", s("ok")), ("b", b(&x))]);
                            self.out = x;
                            r
                        }
                    };
                    self.enc_state(r)
                }
            },
            "start" => match self.msg.clone() {
                None => none(),
                Some(m) => {
                    let r = match self.enc.start_encoding(m) {
                        Err(e) => err(&e),
                        Ok(()) => obj(vec![("t", s("ok"))]),
                    };
                    self.enc_state(r)
                }
            },
            "pull" => {
                let mut buf = vec![0xA5u8; o.int("n") as usize];
                let r = match self.enc.encode(&mut buf, eos(o.int("eos"))) {
                    Err(e) => err(&e),
                    Ok(n) => {
                        let k = n.min(buf.len());
                        let over = buf[k..].iter().any(|x| *x != 0xA5);
                        obj(vec![
                            ("t", s("ok")),
                            ("n", J::Int(n as i64)),
                            ("b", b(&buf[..k])),
                            ("over", J::Int(i64::from(over))),
                        ])
                    }
                };
                self.enc_state(r)
            }
            "feed" => {
                let x = self.data(o);
                if o.get("b").is_none() {
                    o.set("b", b(&x));
                }
                let r = match self.dec.decode(&x, eos(o.int("eos"))) {
                    Err(e) => err(&e),
                    Ok(n) => obj(vec![("t", s("ok")), ("n", J::Int(n as i64))]),
                };
                self.dec_state(r)
            }
            "fin" => {
                let r = self.dec.finish_decoding();
                let r = self.finished(r);
                self.dec_state(r)
            }
            "dec" => {
                let x = self.data(o);
                o.set("b", b(&x));
                let r = self.dec.decode_from_bytes(&x);
                let r = self.finished(r);
                self.dec_state(r)
            }
            "decx" => {
                let x = if o.str("src") == "stream" { self.stream.clone() } else { o.bytes("b") };
                o.set("b", b(&x));
                let mut rd = &x[..];
                let mut rs = Vec::new();
                for _ in 0..o.int("k") {
                    let r = self.dec.decode_exact(&mut rd);
                    let stop = r.is_err();
                    let mut r = self.finished(r);
                    r.set("pos", J::Int((x.len() - rd.len()) as i64));
                    rs.push(self.dec_state(r));
                    if stop {
                        break;
                    }
                }
                obj(vec![("t", s("ok")), ("rs", J::Arr(rs))])
            }
            // The same through a read buffer filled in steps.
            "decr" => {
                let mut x = if o.str("src") == "stream" { self.stream.clone() } else { o.bytes("b") };
                o.set("b", b(&x));
                let mut rb = ReadBuf::new(vec![0; o.int("cap") as usize]);
                let steps: Vec<i64> = o.get("steps").map_or(Vec::new(), |x| x.as_ints());
                let mut rd = Steps { data: &mut x, pos: 0, steps: &steps, i: 0 };
                let mut rs = Vec::new();
                for _ in 0..o.int("k") {
                    let r = loop {
                        if let Err(e) = rb.fill(&mut rd) {
                            break Err(e);
                        }
                        if let Err(e) = self.dec.decode_from_read_buf(&mut rb) {
                            break Err(e);
                        }
                        if self.dec.is_idle() {
                            break self.dec.finish_decoding();
                        }
                        if rb.stream_state() == StreamState::Eos {
                            break Err(ErrorKind::UnexpectedEos.into());
                        }
                    };
                    let stop = r.is_err();
                    let mut r = self.finished(r);
                    r.set("pos", J::Int((rd.pos - rb.len()) as i64));
                    rs.push(self.dec_state(r));
                    if stop {
                        break;
                    }
                }
                obj(vec![("t", s("ok")), ("rs", J::Arr(rs))])
            }
            // Appends the encoding of the current message to the stream.
            "write" => match self.msg.clone() {
                None => none(),
                Some(m) => {
                    let v = look(&m);
                    let from = self.stream.len();
                    let steps: Vec<i64> = o.get("steps").map_or(Vec::new(), |x| x.as_ints());
                    let mut wr = Steps { data: &mut self.stream, pos: 0, steps: &steps, i: 0 };
                    let r = self.enc.start_encoding(m).and_then(|()| {
                        if steps.is_empty() {
                            return self.enc.encode_all(&mut wr);
                        }
                        let mut wb = WriteBuf::new(vec![0; o.int("cap") as usize]);
                        while !self.enc.is_idle() || !wb.is_empty() {
                            self.enc.encode_to_write_buf(&mut wb)?;
                            wb.flush(&mut wr)?;
                        }
                        Ok(())
                    });
                    let r = match r {
                        Err(e) => err(&e),
                        Ok(()) => {
                            obj(vec![("t", s("ok")), ("b", b(&self.stream[from..])), ("v", v)])
                        }
                    };
                    self.enc_state(r)
                }
            },
            "mic" | "micl" => match &self.msg {
                None => none(),
                Some(m) => {
                    let pw = String::from_utf8(o.bytes("pw")).unwrap();
                    let ur = if o.str("op") == "micl" {
                        match (Username::mk(&o.ints("u")), Realm::mk(&o.ints("re"))) {
                            (Ok(u), Ok(r)) => Some((u, r)),
                            _ => return obj(vec![("t", s("inexp"))]),
                        }
                    } else {
                        None
                    };
                    let rs = m
                        .attributes()
                        .filter_map(|a| a.as_mi())
                        .map(|mi| {
                            let r = match &ur {
                                None => mi.check_short_term_credential(&pw),
                                Some((u, re)) => mi.check_long_term_credential(u, re, &pw),
                            };
                            J::Int(match r {
                                Ok(()) => 0,
                                Err(e) => i64::from(e.code()),
                            })
                        })
                        .collect();
                    obj(vec![("t", s("ok")), ("rs", J::Arr(rs))])
                }
            },
            "fd" => {
                self.dec = MessageDecoder::new();
                self.dec_state(obj(vec![("t", s("ok"))]))
            }
            "fe" => {
                self.enc = MessageEncoder::new();
                self.enc_state(obj(vec![("t", s("ok"))]))
            }
            _ => stateless(o).unwrap_or_else(|| self.item_op(o)),
        }
    }
    fn item_op(&mut self, o: &J) -> J {
        let name = o.str("op").to_owned();
        if name == "inew" {
            self.item = match o.int("c") {
                -1 => Some(items::of_set::<A>()),
                c => items::item(c as u16),
            };
        }
        let it = match self.item.as_mut() {
            None => return none(),
            Some(it) => it,
        };
        let mut r = match name.as_str() {
            "inew" => obj(vec![("t", s("ok"))]),
            "itag" => match it.tag(o.int("c") as u16) {
                Err(e) => err(&e),
                Ok(y) => obj(vec![("t", s("ok")), ("y", J::Int(i64::from(y)))]),
            },
            "ifeed" => match it.feed(&o.bytes("b"), eos(o.int("eos"))) {
                Err(e) => err(&e),
                Ok(n) => obj(vec![("t", s("ok")), ("n", J::Int(n as i64))]),
            },
            "ifin" => match it.fin() {
                Err(e) => err(&e),
                Ok((c, x)) => obj(vec![("t", s("ok")), ("c", J::Int(i64::from(c))), ("v", v(&x))]),
            },
            "istart" => match it.start(o.int_or("c", 0) as u16, &o.ints("v")) {
                Err(e) => novalue(e),
                Ok(()) => obj(vec![("t", s("ok"))]),
            },
            "iagain" => match it.again() {
                None => obj(vec![("t", s("inexp"))]),
                Some(Err(e)) => err(&e),
                Some(Ok(())) => obj(vec![("t", s("ok"))]),
            },
            "ipull" => {
                let mut buf = vec![0xA5u8; o.int("n") as usize];
                match it.pull(&mut buf, eos(o.int("eos"))) {
                    Err(e) => err(&e),
                    Ok(n) => {
                        let k = n.min(buf.len());
                        let over = buf[k..].iter().any(|x| *x != 0xA5);
                        obj(vec![
                            ("t", s("ok")),
                            ("n", J::Int(n as i64)),
                            ("b", b(&buf[..k])),
                            ("over", J::Int(i64::from(over))),
                        ])
                    }
                }
            }
            x => panic!("script: unknown operation {x}"),
        };
        r.set("didle", J::Int(i64::from(it.dec_idle())));
        r.set("drq", count(it.dec_rq()));
        r.set("eidle", J::Int(i64::from(it.enc_idle())));
        r.set("erq", count(it.enc_rq()));
        r.set("eex", J::Int(it.exact() as i64));
        r
    }
}

fn error_row(name: &str, cp: u16, e: ErrorCode) -> J {
    J::Arr(vec![s(name), J::Int(i64::from(cp)), J::Int(i64::from(e.code())), s(e.reason_phrase())])
}

/// The attribute whose value is all of `b`.
fn whole<A: Set>(c: u16, b: &[u8]) -> Result<Option<A>> {
    let mut d = A::Decoder::default();
    if !d.try_start_decoding(AttributeType::new(c))? {
        return Ok(None);
    }
    d.decode(b, Eos::new(true))?;
    d.finish_decoding().map(Some)
}

fn compared<T: Eq + std::hash::Hash>(a: T, b: T, order: Option<std::cmp::Ordering>) -> J {
    obj(vec![
        ("t", s("ok")),
        ("x", v(&compare(&a, &b).map(i64::from))),
        ("ord", J::Int(order.map_or(9, |x| x as i64))),
    ])
}

/// Operations without a state.
fn stateless(o: &J) -> Option<J> {
    Some(match o.str("op") {
        "meth" => match Method::new(o.int("n") as u16) {
            Ok(m) => obj(vec![
                ("t", s("ok")),
                ("n", J::Int(i64::from(m.as_u16()))),
                ("d", s(&format!("{m}"))),
            ]),
            Err(e) => err(&e),
        },
        "cmpt" => {
            use stun_codec::rfc5766::attributes::ChannelNumber;
            let (x, y) = (o.ints("v"), o.ints("w"));
            match o.str("k") {
                "type" => {
                    let (x, y) = (AttributeType::new(x[0] as u16), AttributeType::new(y[0] as u16));
                    compared(x, y, x.partial_cmp(&y).filter(|z| *z == x.cmp(&y)))
                }
                "method" => {
                    let (x, y) = (Method::new(x[0] as u16).unwrap(), Method::new(y[0] as u16).unwrap());
                    compared(x, y, x.partial_cmp(&y).filter(|z| *z == x.cmp(&y)))
                }
                "chan" => {
                    let (x, y) = (ChannelNumber::new(x[0] as u16).unwrap(), ChannelNumber::new(y[0] as u16).unwrap());
                    compared(x, y, x.partial_cmp(&y).filter(|z| *z == x.cmp(&y)))
                }
                "tx" => {
                    let (x, y) = (tid(&bytes(&x)), tid(&bytes(&y)));
                    compared(x, y, x.partial_cmp(&y).filter(|z| *z == x.cmp(&y)))
                }
                "class" => compared(class(x[0]), class(y[0]), None),
                k => panic!("script: {k} cannot be compared"),
            }
        }
        "meth8" => obj(vec![
            ("t", s("ok")),
            ("n", J::Int(i64::from(Method::from(o.int("n") as u8).as_u16()))),
        ]),
        "ctype" => {
            let t = AttributeType::from(o.int("c") as u16);
            obj(vec![
                ("t", s("ok")),
                ("c", J::Int(i64::from(t.as_u16()))),
                ("req", J::Int(i64::from(t.is_comprehension_required()))),
                ("opt", J::Int(i64::from(t.is_comprehension_optional()))),
            ])
        }
        "chan" => {
            use stun_codec::rfc5766::attributes::ChannelNumber;
            match ChannelNumber::new(o.int("n") as u16) {
                Ok(c) => obj(vec![
                    ("t", s("ok")),
                    ("n", J::Int(i64::from(c.value()))),
                    ("nx", J::Int(i64::from(c.wrapping_increment().value()))),
                    ("mn", J::Int(i64::from(ChannelNumber::min().value()))),
                    ("mx", J::Int(i64::from(ChannelNumber::max().value()))),
                ]),
                Err(e) => err(&e),
            }
        }
        "life" => {
            let secs = u64::from_be_bytes(o.bytes("secs").try_into().unwrap());
            match lifetime_from(secs, o.int("nanos") as u32) {
                Ok(l) => obj(vec![("t", s("ok")), ("v", v(&l.vw()))]),
                Err(e) => err(&e),
            }
        }
        "life32" => {
            use stun_codec::rfc5766::attributes::Lifetime;
            let l = Lifetime::from_u32(u32::from_be_bytes(o.bytes("secs").try_into().unwrap()));
            obj(vec![("t", s("ok")), ("v", v(&l.vw()))])
        }
        "newstatic" => {
            let x: &'static str = Box::leak(String::from_utf8(o.bytes("v")).unwrap().into());
            // A panic is how this constructor refuses, as documented.
            match catch_unwind(|| Software::new_static(x)) {
                Ok(a) => obj(vec![("t", s("ok")), ("v", v(&a.vw()))]),
                Err(_) => obj(vec![("t", s("err")), ("inv", J::Int(1)), ("msg", s(""))]),
            }
        }
        "xor" => match addr(&o.ints("v")) {
            Err(e) => novalue(e),
            Ok(a) => {
                let y = stun_codec::net::socket_addr_xor(a, tid(&o.bytes("tx")));
                let z = stun_codec::net::socket_addr_xor(y, tid(&o.bytes("tx")));
                obj(vec![("t", s("ok")), ("y", v(&addr_view(y))), ("z", v(&addr_view(z)))])
            }
        },
        "raw" => {
            let a = RawAttribute::new(AttributeType::new(o.int("c") as u16), o.bytes("v"));
            let (c, x) = raw_view(&a);
            let y = a.into_value();
            obj(vec![("t", s("ok")), ("c", J::Int(i64::from(c))), ("v", v(&x)), ("w", b(&y))])
        }
        "consts" => {
            use stun_codec::{rfc5245, rfc5389, rfc5766, rfc8016, rfc8656};
            macro_rules! errs { ($($p:path),*) => { J::Arr(vec![$({ use $p as E; error_row(stringify!($p).rsplit(' ').next().unwrap().rsplit("::").next().unwrap(), E::CODEPOINT, E.into()) }),*]) } }
            let errs = errs!(
                rfc5389::errors::TryAlternate,
                rfc5389::errors::BadRequest,
                rfc5389::errors::Unauthorized,
                rfc5389::errors::UnknownAttribute,
                rfc5389::errors::StaleNonce,
                rfc5389::errors::ServerError,
                rfc5766::errors::Forbidden,
                rfc5766::errors::AllocationMismatch,
                rfc5766::errors::WrongCredentials,
                rfc5766::errors::UnsupportedTransportProtocol,
                rfc5766::errors::AllocationQuotaReached,
                rfc5766::errors::InsufficientCapacity,
                rfc5245::errors::RoleConflict,
                rfc8016::errors::MobilityForbidden,
                rfc8656::errors::AddressFamilyNotSupported,
                rfc8656::errors::PeerAddressFamilyMismatch
            );
            let meths = [
                ("BINDING", rfc5389::methods::BINDING),
                ("ALLOCATE", rfc5766::methods::ALLOCATE),
                ("REFRESH", rfc5766::methods::REFRESH),
                ("SEND", rfc5766::methods::SEND),
                ("DATA", rfc5766::methods::DATA),
                ("CREATE_PERMISSION", rfc5766::methods::CREATE_PERMISSION),
                ("CHANNEL_BIND", rfc5766::methods::CHANNEL_BIND),
            ];
            let meths = meths
                .iter()
                .map(|(n, m)| {
                    J::Arr(vec![s(n), J::Int(i64::from(m.as_u16())), s(&format!("{m}"))])
                })
                .collect();
            macro_rules! rows { ($($t:ident),*) => { J::Arr(vec![$(J::Arr(vec![s(stringify!($t)), J::Int(i64::from($t::CODEPOINT))])),*]) } }
            let types = {
                use stun_codec::rfc5245::attributes::*;
                use stun_codec::rfc5766::attributes::*;
                use stun_codec::rfc5780::attributes::*;
                use stun_codec::rfc8016::attributes::*;
                use stun_codec::rfc8656::attributes::*;
                with_all_types!(rows)
            };
            let classes = (0..4).map(|c| s(&format!("{}", class(c)))).collect();
            let fams = {
                use stun_codec::rfc8656::attributes::AddressFamily;
                vec![s(&format!("{}", AddressFamily::V4)), s(&format!("{}", AddressFamily::V6))]
            };
            obj(vec![
                ("t", s("ok")),
                ("errs", errs),
                ("meths", J::Arr(meths)),
                ("types", types),
                ("classes", J::Arr(classes)),
                ("fams", J::Arr(fams)),
            ])
        }
        "auto" => obj(vec![("t", s("ok")), ("rows", auto::rows())]),
        "errconv" => {
            let kinds = [
                ("InvalidInput", ErrorKind::InvalidInput),
                ("InconsistentState", ErrorKind::InconsistentState),
                ("UnexpectedEos", ErrorKind::UnexpectedEos),
                ("EncoderFull", ErrorKind::EncoderFull),
                ("DecoderTerminated", ErrorKind::DecoderTerminated),
                ("IncompleteDecoding", ErrorKind::IncompleteDecoding),
                ("Other", ErrorKind::Other),
            ];
            let rows = kinds
                .into_iter()
                .map(|(n, k)| {
                    let e = ErrorCode::from(bytecodec::Error::from(k));
                    J::Arr(vec![s(n), J::Int(i64::from(e.code())), s(e.reason_phrase())])
                })
                .collect();
            obj(vec![("t", s("ok")), ("rows", J::Arr(rows))])
        }
        _ => return None,
    })
}

static STARTED: AtomicU64 = AtomicU64::new(0);

/// One session: a decoder, an encoder, a message and so on.
trait Lane {
    /// Makes a call; the second result is false if nothing can be called any more.
    fn step(&mut self, o: &J) -> (J, bool);
}
struct Runner<A: Set>(Option<Sess<A>>);
impl<A: Set> Lane for Runner<A> {
    fn step(&mut self, o: &J) -> (J, bool) {
        let sess = self.0.as_mut().expect("a session that goes on");
        let mut o = o.clone();
        STARTED.fetch_add(1, Ordering::SeqCst);
        take_hooks();
        types::SCOPE.with(|x| x.set(o.int_or("scope", 0) as u32));
        let r = catch_unwind(AssertUnwindSafe(|| sess.op(&mut o)));
        let hooks = take_hooks();
        match r {
            Ok(mut r) => {
                if std::any::TypeId::of::<A>() == std::any::TypeId::of::<ProbeAttr>() {
                    let h = hooks
                        .into_iter()
                        .map(|h| {
                            obj(vec![
                                ("p", J::Int(h.phase)),
                                ("c", J::Int(i64::from(h.c))),
                                ("cl", J::Int(h.cl)),
                                ("me", J::Int(h.me)),
                                ("tx", b(&h.tx)),
                                ("k", v(&h.known)),
                                ("u", v(&h.unknown)),
                            ])
                        })
                        .collect();
                    r.set("h", J::Arr(h));
                }
                o.set("r", r);
                (o, true)
            }
            Err(_) => {
                o.set("r", obj(vec![("t", s("panic"))]));
                // Whatever the panic left behind is not looked at again.
                std::mem::forget(self.0.take());
                (o, false)
            }
        }
    }
}

fn run(lane: &mut dyn Lane, ops: &[J]) -> Vec<J> {
    let mut ev = Vec::new();
    for o in ops {
        let (e, more) = lane.step(o);
        ev.push(e);
        if !more {
            break;
        }
    }
    ev
}

fn lane(set: &str, only: u16) -> Box<dyn Lane> {
    fn new<A: Set>() -> Box<dyn Lane> {
        Box::new(Runner(Some(Sess::<A>::new())))
    }
    use stun_codec::rfc5245::attributes::*;
    use stun_codec::rfc5766::attributes::*;
    use stun_codec::rfc5780::attributes::*;
    use stun_codec::rfc8016::attributes::*;
    use stun_codec::rfc8656::attributes::*;
    macro_rules! one {
        ($($t:ident),*) => {
            match only {
                $(<$t as Ty>::CP => new::<$t>(),)*
                _ => panic!("script: no attribute type {only}"),
            }
        };
    }
    match set {
        "rfc5389" => new::<stun_codec::rfc5389::Attribute>(),
        "rfc5245" => new::<stun_codec::rfc5245::Attribute>(),
        "rfc5766" => new::<stun_codec::rfc5766::Attribute>(),
        "rfc5780" => new::<stun_codec::rfc5780::Attribute>(),
        "all" => new::<AllAttr>(),
        "turn" => new::<TurnAttr>(),
        "raw" => new::<RawAttribute>(),
        "probe" => new::<ProbeAttr>(),
        "one" => with_all_types!(one),
        x => panic!("script: no attribute set {x}"),
    }
}

/// What the calls of a lane return in a process of its own.
fn alone(l: &J) -> Vec<J> {
    apart("--alone", l)
}

fn apart(how: &str, j: &J) -> Vec<J> {
    let mut text = String::new();
    j.write(&mut text);
    let mut child = Command::new(std::env::current_exe().expect("path"))
        .arg(how)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("process");
    let mut input = child.stdin.take().expect("input");
    let feeder = std::thread::spawn(move || {
        let _ = input.write_all(text.as_bytes());
    });
    let mut answer = String::new();
    let _ = child.stdout.take().expect("output").read_to_string(&mut answer);
    let _ = feeder.join();
    let _ = child.wait();
    if answer.ends_with('\n') {
        json::parse(&answer).arr("ev").to_vec()
    } else {
        vec![obj(vec![("op", s("crash")), ("r", obj(vec![("t", s("panic"))]))])]
    }
}

fn spawn<'a, T: Send + 'a>(
    sc: &'a std::thread::Scope<'a, '_>,
    f: impl FnOnce() -> T + Send + 'a,
) -> std::thread::ScopedJoinHandle<'a, T> {
    std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, f).expect("thread")
}

/// A session that goes from thread to thread, which the types it is made of are meant for
/// (see the op "auto").
struct Movable(Box<dyn Lane>);
unsafe impl Send for Movable {}

/// Several lanes at work at the same time: the calls in the order they returned, and what they return alone.
/// (Those of lanes in parallel: lane by lane; "first": in a process of their own, so that what
/// is made when it is first needed is made then.)
fn together(j: &J, known: &mut HashMap<String, Vec<J>>) -> (Vec<J>, Vec<J>) {
    let lanes = j.arr("lanes").to_vec();
    let mut alones = Vec::new();
    for l in &lanes {
        STARTED.fetch_add(1, Ordering::SeqCst);
        let mut key = String::new();
        l.write(&mut key);
        let ev = known.entry(key).or_insert_with(|| alone(l)).clone();
        alones.push(J::Arr(ev.iter().map(|e| e.get("r").expect("result").clone()).collect()));
    }
    let ev = if j.str("mode") == "first" { apart("--together", j) } else { interleaved(j, &lanes) };
    (ev, alones)
}

fn interleaved(j: &J, lanes: &[J]) -> Vec<J> {
    let make = |l: &J| lane(l.str("set"), l.int_or("only", 0) as u16);
    let tag = |mut e: J, i: usize| {
        e.set("l", J::Int(i as i64));
        e
    };
    let mut ev = Vec::new();
    let sched: Vec<usize> = j.ints("sched").into_iter().map(|x| x as usize).collect();
    let mut at = vec![0; lanes.len()];
    let start = std::sync::Barrier::new(lanes.len());
    match j.str("mode") {
        "one" => {
            let mut all: Vec<_> = lanes.iter().map(|l| Some(make(l))).collect();
            for i in sched {
                let ops = lanes[i].arr("ops");
                if let Some(x) = &mut all[i] {
                    let (e, more) = x.step(&ops[at[i]]);
                    ev.push(tag(e, i));
                    at[i] += 1;
                    if !more || at[i] == ops.len() {
                        all[i] = None;
                    }
                }
            }
        }
        "moves" => std::thread::scope(|sc| {
            // Every call on the thread the script says.
            let mut all: Vec<_> = lanes.iter().map(|l| Some(Movable(make(l)))).collect();
            let on: Vec<usize> = j.ints("on").into_iter().map(|x| x as usize).collect();
            let threads: Vec<_> = (0..=on.iter().copied().max().unwrap_or(0))
                .map(|_| {
                    let (go, gone) = std::sync::mpsc::channel::<(Movable, J)>();
                    let (tell, told) = std::sync::mpsc::channel();
                    spawn(sc, move || {
                        for (mut x, o) in gone {
                            let (e, more) = x.0.step(&o);
                            if tell.send((x, e, more)).is_err() {
                                return;
                            }
                        }
                    });
                    (go, told)
                })
                .collect();
            for (n, i) in sched.into_iter().enumerate() {
                let ops = lanes[i].arr("ops");
                if let Some(x) = all[i].take() {
                    let (go, told) = &threads[on[n]];
                    go.send((x, ops[at[i]].clone())).expect("thread");
                    let (x, e, more) = told.recv().expect("thread");
                    ev.push(tag(e, i));
                    at[i] += 1;
                    if more && at[i] < ops.len() {
                        all[i] = Some(x);
                    }
                }
            }
        }),
        "turns" => std::thread::scope(|sc| {
            let all: Vec<_> = lanes
                .iter()
                .map(|l| {
                    let (go, gone) = std::sync::mpsc::channel::<()>();
                    let (tell, told) = std::sync::mpsc::channel();
                    spawn(sc, move || {
                        let mut x = make(l);
                        for o in l.arr("ops") {
                            if gone.recv().is_err() {
                                return;
                            }
                            let (e, more) = x.step(o);
                            if tell.send(e).is_err() || !more {
                                return;
                            }
                        }
                    });
                    (go, told)
                })
                .collect();
            for i in sched {
                if all[i].0.send(()).is_ok() {
                    if let Ok(e) = all[i].1.recv() {
                        ev.push(tag(e, i));
                    }
                }
            }
        }),
        _ => std::thread::scope(|sc| {
            let all: Vec<_> = lanes
                .iter()
                .map(|l| {
                    let start = &start;
                    spawn(sc, move || {
                        start.wait();
                        run(&mut *make(l), l.arr("ops"))
                    })
                })
                .collect();
            for (i, x) in all.into_iter().enumerate() {
                ev.extend(x.join().expect("lane").into_iter().map(|e| tag(e, i)));
            }
        }),
    }
    ev
}

/// Ends the process if no call returns for that many seconds.
fn watch(patience: u64) {
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = STARTED.load(Ordering::SeqCst);
            if now != last.0 {
                last = (now, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(patience) {
                std::process::exit(97);
            }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let patience = std::env::var("HARNESS_PATIENCE").ok().and_then(|x| x.parse().ok()).unwrap_or(20);
    std::panic::set_hook(Box::new(|_| ()));
    watch(patience);
    if args[1].starts_with("--") {
        let mut text = String::new();
        std::io::stdin().read_to_string(&mut text).expect("lane");
        let worker = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let j = json::parse(&text);
            let ev = if args[1] == "--alone" {
                run(&mut *lane(j.str("set"), j.int_or("only", 0) as u16), j.arr("ops"))
            } else {
                interleaved(&j, j.arr("lanes"))
            };
            let mut o = String::new();
            obj(vec![("ev", J::Arr(ev))]).write(&mut o);
            println!("{o}");
        });
        worker.expect("thread").join().expect("worker");
        return;
    }
    let input = BufReader::new(File::open(&args[1]).expect("scripts"));
    let mut output = BufWriter::new(File::create(&args[2]).expect("trace"));
    let skip: usize = args.get(3).map_or(0, |x| x.parse().expect("number of sessions to skip"));
    let worker = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut known = HashMap::new();
        for line in input.lines().skip(skip) {
            STARTED.fetch_add(1, Ordering::SeqCst);
            let j = json::parse(&line.expect("scripts"));
            let mut o = String::new();
            let mut fields = vec![
                ("id", s(j.str("id"))),
                ("set", s(j.str("set"))),
                ("only", J::Int(j.int_or("only", 0))),
            ];
            if j.has("lanes") {
                let (ev, alone) = together(&j, &mut known);
                fields.push(("ev", J::Arr(ev)));
                fields.push(("alone", J::Arr(alone)));
            } else {
                let mut lane = lane(j.str("set"), j.int_or("only", 0) as u16);
                fields.push(("ev", J::Arr(run(&mut *lane, j.arr("ops")))));
            }
            obj(fields).write(&mut o);
            o.push('\n');
            output.write_all(o.as_bytes()).expect("trace");
            output.flush().expect("trace");
        }
    });
    let failed = worker.expect("thread").join().is_err();
    std::process::exit(if failed { 3 } else { 0 });
}

/// A value, and how it compares with a copy of itself.
fn boxed<T: Clone + Eq + std::hash::Hash + 'static>(a: T) -> (Box<dyn std::any::Any>, [bool; 3]) {
    let x = sets::compare(&a, &a.clone());
    (Box::new(a), x)
}
