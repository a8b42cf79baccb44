//! Message classes of an application: a body of any bytes, framed as any message type.
use crate::subjects::*;
use std::io;
use stratumv2::codec::{frame, unframe, ByteParser, Deserializable, Frameable, Message, Serializable};
use stratumv2::error::{Error, Result};
use stratumv2::types::{MessageType, B0_16M};

/// fail: after how many bytes of the body serializing gives up.
pub struct Own<const K: usize> {
    pub body: Vec<u8>,
    pub fail: Option<usize>,
}
impl<const K: usize> Serializable for Own<K> {
    fn serialize<W: io::Write>(&self, w: &mut W) -> Result<usize> {
        let n = self.body.len();
        w.write_all(&(n as u32).to_le_bytes()[..3])?;
        if let Some(k) = self.fail {
            w.write_all(&self.body[..k.min(n)])?;
            return Err(Error::Unimplemented());
        }
        w.write_all(&self.body)?;
        Ok(n + 3)
    }
}
impl<const K: usize> Deserializable for Own<K> {
    fn deserialize(p: &mut ByteParser) -> Result<Self> {
        Ok(Own { body: B0_16M::deserialize(p)?.into(), fail: None })
    }
}
impl<const K: usize> Frameable for Own<K> {
    fn message_type() -> MessageType {
        MESSAGE_TYPES[K].1
    }
}

fn put<const K: usize>(body: &[u8], fail: Option<usize>) -> R<Message> {
    run(|| frame(&Own::<K> { body: body.to_vec(), fail }))
}
fn get<const K: usize>(m: &Message) -> R<Vec<u8>> {
    run(|| unframe::<Own<K>>(m).map(|x| x.body))
}
macro_rules! all {
    ($f:ident; $($k:expr),*) => { [$($f::<$k>),*] };
}
type Put = fn(&[u8], Option<usize>) -> R<Message>;
type Get = fn(&Message) -> R<Vec<u8>>;
const N: usize = 29;
pub fn own_frame(k: usize, body: &[u8], fail: Option<usize>) -> R<Message> {
    const F: [Put; N] = all!(put; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28);
    F[k](body, fail)
}
pub fn own_unframe(k: usize, m: &Message) -> R<Vec<u8>> {
    const F: [Get; N] = all!(get; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28);
    F[k](m)
}
