//! Which types may go to, or be used from, other threads.
use crate::json::{s, J};
use crate::with_all_types;
use std::marker::PhantomData;
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5780::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8656::attributes::*;

struct Sends<T>(PhantomData<T>);
struct Shares<T>(PhantomData<T>);
// What a type has of its own is preferred to what it has from a trait.
trait Not {
    const IS: bool = false;
}
impl<T> Not for Sends<T> {}
impl<T> Not for Shares<T> {}
impl<T: Send> Sends<T> {
    const IS: bool = true;
}
impl<T: Sync> Shares<T> {
    const IS: bool = true;
}

/// Rows of a type's name, whether it is `Send`, and whether it is `Sync`.
pub fn rows() -> J {
    let mut rows = Vec::new();
    macro_rules! row {
        ($($t:ty),*) => {
            $(rows.push(J::Arr(vec![
                s(stringify!($t)),
                J::Int(i64::from(Sends::<$t>::IS)),
                J::Int(i64::from(Shares::<$t>::IS)),
            ]));)*
        };
    }
    macro_rules! codecs {
        ($($t:ident),*) => {
            row!($($t, <$t as stun_codec::Attribute>::Decoder, <$t as stun_codec::Attribute>::Encoder),*)
        };
    }
    macro_rules! sets {
        ($($t:ident),*) => {
            $({
                use stun_codec::$t::Attribute;
                row!(
                    Attribute, <Attribute as stun_codec::Attribute>::Decoder,
                    <Attribute as stun_codec::Attribute>::Encoder, stun_codec::Message<Attribute>,
                    stun_codec::MessageDecoder<Attribute>, stun_codec::MessageEncoder<Attribute>,
                    stun_codec::DecodedMessage<Attribute>
                );
            })*
        };
    }
    with_all_types!(codecs);
    sets!(rfc5389, rfc5245, rfc5766, rfc5780);
    row!(
        stun_codec::RawAttribute, stun_codec::BrokenMessage, stun_codec::TransactionId,
        stun_codec::Method, stun_codec::MessageClass, stun_codec::AttributeType,
        stun_codec::net::SocketAddrDecoder, stun_codec::net::SocketAddrEncoder,
        stun_codec::MessageDecoder<stun_codec::RawAttribute>,
        stun_codec::MessageEncoder<stun_codec::RawAttribute>
    );
    J::Arr(rows)
}
