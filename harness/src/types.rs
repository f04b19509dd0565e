//! Abstract values (sequences of integers, see spec/StunWire.tla) for every attribute type,
//! through the public constructors and accessors only.
use bytecodec::{ErrorKind, Result};
use std::net::{IpAddr, SocketAddr, SocketAddrV6};
use std::time::Duration;
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5780::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8656::attributes::*;
use stun_codec::{Attribute, AttributeType, RawAttribute};

/// Why an attribute could not be made.
pub enum NoValue {
    /// The constructor failed; was it `ErrorKind::InvalidInput`?
    Refused(bool),
    /// The script asks for something Rust's types rule out (e.g. text that is not UTF-8).
    Inexpressible,
}
impl From<bytecodec::Error> for NoValue {
    fn from(e: bytecodec::Error) -> Self {
        NoValue::Refused(*e.kind() == ErrorKind::InvalidInput)
    }
}
pub type Made<T> = std::result::Result<T, NoValue>;

pub trait Ty: Attribute + std::fmt::Debug + 'static {
    const CP: u16;
    fn mk(v: &[i64]) -> Made<Self>;
    fn vw(&self) -> Vec<i64>;
}

pub fn bytes(v: &[i64]) -> Vec<u8> {
    v.iter().map(|x| *x as u8).collect()
}
pub fn text(v: &[i64]) -> Made<String> {
    String::from_utf8(bytes(v)).map_err(|_| NoValue::Inexpressible)
}
pub fn ints(b: &[u8]) -> Vec<i64> {
    b.iter().map(|x| i64::from(*x)).collect()
}
thread_local! {
    /// Scope id and flow information of the IPv6 addresses that are made; they are not on the wire.
    pub static SCOPE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
pub fn addr(v: &[i64]) -> Made<SocketAddr> {
    if v.len() < 2 {
        return Err(NoValue::Inexpressible);
    }
    let port = v[1] as u16;
    let b = bytes(&v[2..]);
    let ip = match (v[0], b.len()) {
        (1, 4) => IpAddr::from(<[u8; 4]>::try_from(&b[..]).unwrap()),
        (2, 16) => IpAddr::from(<[u8; 16]>::try_from(&b[..]).unwrap()),
        _ => return Err(NoValue::Inexpressible),
    };
    let scope = SCOPE.with(|x| x.get());
    Ok(match ip {
        IpAddr::V6(ip) if scope != 0 => SocketAddrV6::new(ip, port, scope, scope ^ 0x55).into(),
        ip => SocketAddr::new(ip, port),
    })
}
pub fn addr_view(a: SocketAddr) -> Vec<i64> {
    let mut v = vec![if a.is_ipv4() { 1 } else { 2 }, i64::from(a.port())];
    match a.ip() {
        IpAddr::V4(x) => v.extend(ints(&x.octets())),
        IpAddr::V6(x) => v.extend(ints(&x.octets())),
    }
    v
}
fn arr<const N: usize>(v: &[i64]) -> Made<[u8; N]> {
    bytes(v).try_into().map_err(|_| NoValue::Inexpressible)
}
fn one(v: &[i64]) -> Made<i64> {
    if v.len() == 1 {
        Ok(v[0])
    } else {
        Err(NoValue::Inexpressible)
    }
}
fn fam(v: &[i64]) -> Made<AddressFamily> {
    match v {
        [1] => Ok(AddressFamily::V4),
        [2] => Ok(AddressFamily::V6),
        _ => Err(NoValue::Inexpressible),
    }
}
fn fam_view(f: AddressFamily) -> Vec<i64> {
    vec![match f {
        AddressFamily::V4 => 1,
        AddressFamily::V6 => 2,
    }]
}

macro_rules! ty {
    ($t:ident, |$v:ident| $mk:expr, |$s:ident| $vw:expr) => {
        impl Ty for $t {
            const CP: u16 = $t::CODEPOINT;
            fn mk($v: &[i64]) -> Made<Self> {
                $mk
            }
            fn vw(&self) -> Vec<i64> {
                let $s = self;
                $vw
            }
        }
    };
}
macro_rules! addr_ty { ($($t:ident),*) => { $( ty!($t, |v| Ok($t::new(addr(v)?)), |s| addr_view(s.address())); )* } }
addr_ty!(
    MappedAddress, AlternateServer, ResponseOrigin, OtherAddress, XorMappedAddress,
    XorMappedAddress2, XorPeerAddress, XorRelayAddress
);
ty!(Username, |v| Ok(Username::new(text(v)?)?), |s| ints(s.name().as_bytes()));
ty!(Realm, |v| Ok(Realm::new(text(v)?)?), |s| ints(s.text().as_bytes()));
ty!(Nonce, |v| Ok(Nonce::new(text(v)?)?), |s| ints(s.value().as_bytes()));
ty!(Software, |v| Ok(Software::new(text(v)?)?), |s| ints(s.description().as_bytes()));
ty!(ErrorCode, |v| Ok(ErrorCode::new(v[0] as u16, text(&v[1..])?)?), |s| {
    let mut x = vec![i64::from(s.code())];
    x.extend(ints(s.reason_phrase().as_bytes()));
    x
});
ty!(
    UnknownAttributes,
    |v| Ok(UnknownAttributes::new(v.iter().map(|x| AttributeType::new(*x as u16)).collect())),
    |s| s.unknowns().iter().map(|x| i64::from(x.as_u16())).collect()
);
ty!(MessageIntegrity, |_v| Err(NoValue::Inexpressible), |s| ints(&s.hmac_sha1()));
ty!(Fingerprint, |_v| Err(NoValue::Inexpressible), |s| ints(&s.crc32().to_be_bytes()));
ty!(
    ChangeRequest,
    |v| if v.len() == 2 { Ok(ChangeRequest::new(v[0] != 0, v[1] != 0)) } else { Err(NoValue::Inexpressible) },
    |s| vec![i64::from(s.ip()), i64::from(s.port())]
);
ty!(ResponsePort, |v| Ok(ResponsePort::new(one(v)? as u16)), |s| vec![i64::from(s.port())]);
ty!(ChannelNumber, |v| Ok(ChannelNumber::new(one(v)? as u16)?), |s| vec![i64::from(s.value())]);
ty!(
    Lifetime,
    |v| Ok(Lifetime::new(Duration::from_secs(u64::from(u32::from_be_bytes(arr(v)?))))?),
    |s| {
        let l = s.lifetime();
        // More than 32 bits of seconds, or nanoseconds, become a 12-byte value no decoder yields.
        if l.as_secs() <= 0xFFFF_FFFF && l.subsec_nanos() == 0 {
            ints(&(l.as_secs() as u32).to_be_bytes())
        } else {
            let mut x = ints(&l.as_secs().to_be_bytes());
            x.extend(ints(&l.subsec_nanos().to_be_bytes()));
            x
        }
    }
);
ty!(Data, |v| Ok(Data::new(bytes(v))?), |s| ints(s.data()));
ty!(MobilityTicket, |v| if v.is_empty() { Ok(MobilityTicket::empty()) } else { Ok(MobilityTicket::new(bytes(v))?) }, |s| ints(s.data()));
ty!(EvenPort, |v| Ok(EvenPort::new(one(v)? != 0)), |s| vec![i64::from(s.is_requested())]);
ty!(RequestedTransport, |v| Ok(RequestedTransport::new(one(v)? as u8)), |s| vec![i64::from(s.protocol())]);
ty!(DontFragment, |v| if v.is_empty() { Ok(DontFragment) } else { Err(NoValue::Inexpressible) }, |_s| vec![]);
ty!(UseCandidate, |v| if v.is_empty() { Ok(UseCandidate::new()) } else { Err(NoValue::Inexpressible) }, |_s| vec![]);
ty!(ReservationToken, |v| Ok(ReservationToken::new(u64::from_be_bytes(arr(v)?))), |s| ints(&s.token().to_be_bytes()));
ty!(Priority, |v| Ok(Priority::new(u32::from_be_bytes(arr(v)?))), |s| ints(&s.prio().to_be_bytes()));
ty!(IceControlled, |v| Ok(IceControlled::new(u64::from_be_bytes(arr(v)?))), |s| ints(&s.prio().to_be_bytes()));
ty!(IceControlling, |v| Ok(IceControlling::new(u64::from_be_bytes(arr(v)?))), |s| ints(&s.prio().to_be_bytes()));
ty!(RequestedAddressFamily, |v| Ok(RequestedAddressFamily::new(fam(v)?)), |s| fam_view(s.address_family()));
ty!(AdditionalAddressFamily, |v| Ok(AdditionalAddressFamily::new(fam(v)?)), |s| fam_view(s.address_family()));

/// Calls `$m!(T1, T2, ...)` with every attribute type of the crate.
#[macro_export]
macro_rules! with_all_types {
    ($m:ident $(, $x:tt)*) => {
        $m! { $($x,)* MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm,
            Nonce, XorMappedAddress, XorMappedAddress2, Software, AlternateServer, Fingerprint,
            ChannelNumber, Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort,
            RequestedTransport, DontFragment, ReservationToken, Priority, UseCandidate,
            IceControlled, IceControlling, ChangeRequest, ResponseOrigin, ResponsePort,
            OtherAddress, MobilityTicket, RequestedAddressFamily, AdditionalAddressFamily }
    };
}

pub fn raw_view(a: &RawAttribute) -> (u16, Vec<i64>) {
    (a.get_type().as_u16(), ints(a.value()))
}

pub fn lifetime_from(secs: u64, nanos: u32) -> Result<Lifetime> {
    Lifetime::new(Duration::new(secs, nanos))
}
