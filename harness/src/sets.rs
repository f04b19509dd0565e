//! Attribute sets: the predefined ones, user-defined ones, single attribute types and the raw set.
use crate::types::*;
use crate::with_all_types;
use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
use std::any::Any;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use stun_codec::convert::TryAsRef;
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5780::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8656::attributes::*;
use stun_codec::{define_attribute_enums, Attribute, AttributeType, Message, RawAttribute};

pub type Val = (u16, Vec<i64>);

pub trait Set: Attribute + std::fmt::Debug + 'static {
    fn make(c: u16, v: &[i64]) -> Made<Self>;
    fn view(&self) -> Val;
    /// `get_attribute` of every type of the set.
    fn gets(m: &Message<Self>) -> Vec<Val>;
    /// Appends `a`, of whatever type, to the message if the set has its type.
    fn append(m: &mut Message<Self>, a: &dyn Any) -> bool;
    fn as_mi(&self) -> Option<&MessageIntegrity>;
    /// Whether the attributes are equal, are different, and hash alike.
    fn same(&self, other: &Self) -> Option<[bool; 3]>;
    /// What it is as any type of the set.
    fn as_types(&self) -> Vec<Val>;
}

pub fn compare<T: Eq + Hash>(a: &T, b: &T) -> [bool; 3] {
    let hash = |x: &T| {
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    [*a == *b && *b == *a, *a != *b && *b != *a, hash(a) == hash(b)]
}

macro_rules! enum_set {
    ($attr:ty, $path:path, [$($v:ident),*]) => {
        impl Set for $attr {
            fn make(c: u16, v: &[i64]) -> Made<Self> {
                match c {
                    $($v::CODEPOINT => Ok(<$v as Ty>::mk(v)?.into()),)*
                    _ => Err(NoValue::Inexpressible),
                }
            }
            fn view(&self) -> Val {
                use $path as E;
                match self {
                    $(E::$v(a) => (self.get_type().as_u16(), a.vw()),)*
                }
            }
            fn gets(m: &Message<Self>) -> Vec<Val> {
                let mut o = Vec::new();
                $(if let Some(a) = m.get_attribute::<$v>() {
                    o.push(($v::CODEPOINT, a.vw()));
                })*
                o
            }
            fn append(m: &mut Message<Self>, a: &dyn Any) -> bool {
                $(if let Some(a) = a.downcast_ref::<$v>() {
                    m.add_attribute(a.clone());
                    return true;
                })*
                false
            }
            fn as_mi(&self) -> Option<&MessageIntegrity> {
                use $path as E;
                match self {
                    $(E::$v(a) => (a as &dyn Any).downcast_ref(),)*
                }
            }
            fn same(&self, other: &Self) -> Option<[bool; 3]> {
                Some(compare(self, other))
            }
            fn as_types(&self) -> Vec<Val> {
                let mut o = Vec::new();
                $(if let Some(a) = TryAsRef::<$v>::try_as_ref(self) {
                    o.push((a.get_type().as_u16(), a.vw()));
                })*
                o
            }
        }
    };
}
enum_set!(stun_codec::rfc5389::Attribute, stun_codec::rfc5389::Attribute, [
    MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce,
    XorMappedAddress, XorMappedAddress2, Software, AlternateServer, Fingerprint
]);
enum_set!(stun_codec::rfc5245::Attribute, stun_codec::rfc5245::Attribute, [
    Priority, UseCandidate, IceControlled, IceControlling
]);
enum_set!(stun_codec::rfc5766::Attribute, stun_codec::rfc5766::Attribute, [
    ChannelNumber, Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort, RequestedTransport,
    DontFragment, ReservationToken
]);
enum_set!(stun_codec::rfc5780::Attribute, stun_codec::rfc5780::Attribute, [
    ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress
]);

macro_rules! def_all {
    ($($t:ident),*) => {
        define_attribute_enums!(AllAttr, AllDecoder, AllEncoder, [$($t),*]);
        enum_set!(AllAttr, AllAttr, [$($t),*]);
    };
}
with_all_types!(def_all);

define_attribute_enums!(TurnAttr, TurnDecoder, TurnEncoder, [
    MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce,
    XorMappedAddress, Software, AlternateServer, Fingerprint, ChannelNumber, Lifetime,
    XorPeerAddress, Data, XorRelayAddress, EvenPort, RequestedTransport, DontFragment,
    ReservationToken
]);
enum_set!(TurnAttr, TurnAttr, [
    MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce,
    XorMappedAddress, Software, AlternateServer, Fingerprint, ChannelNumber, Lifetime,
    XorPeerAddress, Data, XorRelayAddress, EvenPort, RequestedTransport, DontFragment,
    ReservationToken
]);

/// A single attribute type used as the attribute set.
macro_rules! one_sets {
    ($($t:ident),*) => {
        $(impl Set for $t {
            fn make(c: u16, v: &[i64]) -> Made<Self> {
                if c == $t::CODEPOINT { <$t as Ty>::mk(v) } else { Err(NoValue::Inexpressible) }
            }
            fn view(&self) -> Val {
                (self.get_type().as_u16(), self.vw())
            }
            fn gets(_m: &Message<Self>) -> Vec<Val> {
                Vec::new()
            }
            fn append(m: &mut Message<Self>, a: &dyn Any) -> bool {
                match a.downcast_ref::<$t>() {
                    Some(a) => { m.add_attribute(a.clone()); true }
                    None => false,
                }
            }
            fn as_mi(&self) -> Option<&MessageIntegrity> {
                (self as &dyn Any).downcast_ref()
            }
            fn same(&self, other: &Self) -> Option<[bool; 3]> {
                Some(compare(self, other))
            }
            fn as_types(&self) -> Vec<Val> {
                Vec::new()
            }
        })*
    };
}
with_all_types!(one_sets);

impl Set for RawAttribute {
    fn make(c: u16, v: &[i64]) -> Made<Self> {
        Ok(RawAttribute::new(AttributeType::new(c), bytes(v)))
    }
    fn view(&self) -> Val {
        raw_view(self)
    }
    fn gets(_m: &Message<Self>) -> Vec<Val> {
        Vec::new()
    }
    fn append(_m: &mut Message<Self>, _a: &dyn Any) -> bool {
        false
    }
    fn as_mi(&self) -> Option<&MessageIntegrity> {
        None
    }
    fn same(&self, _other: &Self) -> Option<[bool; 3]> {
        None
    }
    fn as_types(&self) -> Vec<Val> {
        Vec::new()
    }
}

// ---------------------------------------------------------------------------------------------
// Attributes of the harness: they record the calls of their hooks, and refuse some values.

#[derive(Debug, Clone)]
pub struct HookCall {
    /// 0: before_encode, 1: after_decode
    pub phase: i64,
    pub c: u16,
    pub cl: i64,
    pub me: i64,
    pub tx: [u8; 12],
    pub known: Vec<i64>,
    pub unknown: Vec<i64>,
}
thread_local!(static HOOKS: RefCell<Vec<HookCall>> = const { RefCell::new(Vec::new()) });
pub fn take_hooks() -> Vec<HookCall> {
    HOOKS.with(|h| std::mem::take(&mut *h.borrow_mut()))
}
pub fn class_number(c: stun_codec::MessageClass) -> i64 {
    use stun_codec::MessageClass::*;
    match c {
        Request => 0,
        Indication => 1,
        SuccessResponse => 2,
        ErrorResponse => 3,
    }
}
fn record<A: Attribute>(phase: i64, c: u16, m: &Message<A>) {
    let call = HookCall {
        phase,
        c,
        cl: class_number(m.class()),
        me: i64::from(m.method().as_u16()),
        tx: *m.transaction_id().as_bytes(),
        known: m.attributes().map(|a| i64::from(a.get_type().as_u16())).collect(),
        unknown: m.unknown_attributes().map(|a| i64::from(a.get_type().as_u16())).collect(),
    };
    HOOKS.with(|h| h.borrow_mut().push(call));
}

macro_rules! probe {
    ($t:ident, $dec:ident, $enc:ident, $cp:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $t(Vec<u8>);
        impl $t {
            pub const CODEPOINT: u16 = $cp;
        }
        impl Ty for $t {
            const CP: u16 = $cp;
            fn mk(v: &[i64]) -> Made<Self> {
                Ok($t(bytes(v)))
            }
            fn vw(&self) -> Vec<i64> {
                ints(&self.0)
            }
        }
        impl Attribute for $t {
            type Decoder = $dec;
            type Encoder = $enc;
            fn get_type(&self) -> AttributeType {
                AttributeType::new(Self::CODEPOINT)
            }
            fn before_encode<A: Attribute>(&mut self, message: &Message<A>) -> Result<()> {
                record(0, $cp, message);
                if self.0.first() == Some(&0xEE) {
                    return Err(ErrorKind::InvalidInput.into());
                }
                Ok(())
            }
            fn after_decode<A: Attribute>(&mut self, message: &Message<A>) -> Result<()> {
                record(1, $cp, message);
                if self.0.first() == Some(&0xDD) {
                    return Err(ErrorKind::InvalidInput.into());
                }
                Ok(())
            }
        }
        #[derive(Debug, Default)]
        pub struct $dec(RemainingBytesDecoder);
        impl Decode for $dec {
            type Item = $t;
            fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
                self.0.decode(buf, eos)
            }
            fn finish_decoding(&mut self) -> Result<$t> {
                self.0.finish_decoding().map($t)
            }
            fn requiring_bytes(&self) -> ByteCount {
                self.0.requiring_bytes()
            }
            fn is_idle(&self) -> bool {
                self.0.is_idle()
            }
        }
        impl TryTaggedDecode for $dec {
            type Tag = AttributeType;
            fn try_start_decoding(&mut self, t: AttributeType) -> Result<bool> {
                Ok(t.as_u16() == $cp)
            }
        }
        #[derive(Debug, Default)]
        pub struct $enc(BytesEncoder);
        impl Encode for $enc {
            type Item = $t;
            fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
                self.0.encode(buf, eos)
            }
            fn start_encoding(&mut self, item: $t) -> Result<()> {
                self.0.start_encoding(item.0)
            }
            fn requiring_bytes(&self) -> ByteCount {
                self.0.requiring_bytes()
            }
            fn is_idle(&self) -> bool {
                self.0.is_idle()
            }
        }
        impl SizedEncode for $enc {
            fn exact_requiring_bytes(&self) -> u64 {
                self.0.exact_requiring_bytes()
            }
        }
    };
}
probe!(ProbeA, ProbeADecoder, ProbeAEncoder, 0x7F00);
probe!(ProbeB, ProbeBDecoder, ProbeBEncoder, 0xFF00);
define_attribute_enums!(ProbeAttr, ProbeDecoder, ProbeEncoder, [
    ProbeA, ProbeB, Software, XorMappedAddress
]);
enum_set!(ProbeAttr, ProbeAttr, [ProbeA, ProbeB, Software, XorMappedAddress]);
