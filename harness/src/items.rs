//! The codecs of single values: socket addresses, and the values of one attribute type or of the
//! types of an attribute set.
use crate::sets::Set;
use crate::types::*;
use crate::with_all_types;
use bytecodec::{ByteCount, Decode, Encode, Eos, Result, SizedEncode, TryTaggedDecode};
use std::net::SocketAddr;
use stun_codec::net::{SocketAddrDecoder, SocketAddrEncoder};
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5780::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8656::attributes::*;
use stun_codec::{Attribute, AttributeType};

pub trait Item {
    fn tag(&mut self, c: u16) -> Result<bool>;
    fn feed(&mut self, b: &[u8], eos: Eos) -> Result<usize>;
    /// The type and the value.
    fn fin(&mut self) -> Result<(u16, Vec<i64>)>;
    fn dec_idle(&self) -> bool;
    fn dec_rq(&self) -> ByteCount;
    fn start(&mut self, c: u16, v: &[i64]) -> Made<()>;
    /// Encodes the value decoded last.
    fn again(&mut self) -> Option<Result<()>>;
    fn pull(&mut self, b: &mut [u8], eos: Eos) -> Result<usize>;
    fn enc_idle(&self) -> bool;
    fn enc_rq(&self) -> ByteCount;
    fn exact(&self) -> u64;
}

#[derive(Default)]
struct Sock {
    d: SocketAddrDecoder,
    e: SocketAddrEncoder,
    last: Option<SocketAddr>,
}
impl Item for Sock {
    fn tag(&mut self, _c: u16) -> Result<bool> {
        Ok(true)
    }
    fn feed(&mut self, b: &[u8], eos: Eos) -> Result<usize> {
        self.d.decode(b, eos)
    }
    fn fin(&mut self) -> Result<(u16, Vec<i64>)> {
        let a = self.d.finish_decoding()?;
        self.last = Some(a);
        Ok((0, addr_view(a)))
    }
    fn dec_idle(&self) -> bool {
        self.d.is_idle()
    }
    fn dec_rq(&self) -> ByteCount {
        self.d.requiring_bytes()
    }
    fn start(&mut self, _c: u16, v: &[i64]) -> Made<()> {
        let a: SocketAddr = addr(v)?;
        Ok(self.e.start_encoding(a)?)
    }
    fn again(&mut self) -> Option<Result<()>> {
        self.last.map(|a| self.e.start_encoding(a))
    }
    fn pull(&mut self, b: &mut [u8], eos: Eos) -> Result<usize> {
        self.e.encode(b, eos)
    }
    fn enc_idle(&self) -> bool {
        self.e.is_idle()
    }
    fn enc_rq(&self) -> ByteCount {
        self.e.requiring_bytes()
    }
    fn exact(&self) -> u64 {
        self.e.exact_requiring_bytes()
    }
}

struct Value<A: Attribute> {
    d: A::Decoder,
    e: A::Encoder,
    last: Option<A>,
    make: fn(u16, &[i64]) -> Made<A>,
    view: fn(&A) -> (u16, Vec<i64>),
}
impl<A: Attribute> Value<A> {
    fn new(make: fn(u16, &[i64]) -> Made<A>, view: fn(&A) -> (u16, Vec<i64>)) -> Self {
        Value { d: A::Decoder::default(), e: A::Encoder::default(), last: None, make, view }
    }
}
impl<A: Attribute> Item for Value<A> {
    fn tag(&mut self, c: u16) -> Result<bool> {
        self.d.try_start_decoding(AttributeType::new(c))
    }
    fn feed(&mut self, b: &[u8], eos: Eos) -> Result<usize> {
        self.d.decode(b, eos)
    }
    fn fin(&mut self) -> Result<(u16, Vec<i64>)> {
        let a = self.d.finish_decoding()?;
        let x = (self.view)(&a);
        self.last = Some(a);
        Ok(x)
    }
    fn dec_idle(&self) -> bool {
        self.d.is_idle()
    }
    fn dec_rq(&self) -> ByteCount {
        self.d.requiring_bytes()
    }
    fn start(&mut self, c: u16, v: &[i64]) -> Made<()> {
        let a = (self.make)(c, v)?;
        Ok(self.e.start_encoding(a)?)
    }
    fn again(&mut self) -> Option<Result<()>> {
        let a = self.last.clone()?;
        Some(self.e.start_encoding(a))
    }
    fn pull(&mut self, b: &mut [u8], eos: Eos) -> Result<usize> {
        self.e.encode(b, eos)
    }
    fn enc_idle(&self) -> bool {
        self.e.is_idle()
    }
    fn enc_rq(&self) -> ByteCount {
        self.e.requiring_bytes()
    }
    fn exact(&self) -> u64 {
        self.e.exact_requiring_bytes()
    }
}

pub fn of_set<A: Set>() -> Box<dyn Item> {
    Box::new(Value::<A>::new(A::make, A::view))
}

pub fn item(c: u16) -> Option<Box<dyn Item>> {
    macro_rules! pick {
        ($($t:ident),*) => {
            match c {
                0 => Some(Box::<Sock>::default() as Box<dyn Item>),
                $(<$t as Ty>::CP => Some(Box::new(Value::<$t>::new(|_, v| <$t as Ty>::mk(v), |a| (a.get_type().as_u16(), a.vw())))),)*
                _ => None,
            }
        };
    }
    with_all_types!(pick)
}
