//! Serialisation helpers: every serde format available offline, plus LEB128.

use cola::{Anchor, Deletion, EncodedReplica, Insertion, Text};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

pub const FORMATS: usize = 6;

#[derive(Serialize, Deserialize)]
struct Wrapped<T> {
    before: u8,
    inner: T,
    after: Vec<u16>,
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t")]
enum Tagged<T> {
    Edit { inner: T },
}

pub fn bin<T: Serialize>(x: &T) -> Vec<u8> {
    bincode::serde::encode_to_vec(x, bincode::config::standard()).expect("bincode encode")
}

pub fn unbin<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    bincode::serde::decode_from_slice::<T, _>(b, bincode::config::standard())
        .map(|(v, _)| v)
        .map_err(|e| format!("{e:?}"))
}

/// Encodes and decodes through the given format.
pub fn round_trip<T: Serialize + DeserializeOwned>(x: &T, fmt: usize) -> Result<T, String> {
    match fmt % FORMATS {
        0 => {
            let s = serde_json::to_string(x).map_err(|e| e.to_string())?;
            serde_json::from_str(&s).map_err(|e| e.to_string())
        },
        1 => unbin(&bin(x)),
        2 => {
            let mut v = Vec::new();
            ciborium::into_writer(x, &mut v).map_err(|e| e.to_string())?;
            // ciborium's deserialize_bytes only supports what fits in its
            // scratch buffer; give it enough room.
            let mut scratch = vec![0u8; v.len() + 16];
            ciborium::de::from_reader_with_buffer(&v[..], &mut scratch).map_err(|e| e.to_string())
        },
        3 => {
            // Inside of a bigger message, in a borrowed-bytes format.
            let s = serde_json::to_vec(&Wrapped { before: 7, inner: x, after: vec![1, 2] })
                .map_err(|e| e.to_string())?;
            let w: Wrapped<T> = serde_json::from_slice(&s).map_err(|e| e.to_string())?;
            if w.before != 7 || w.after != [1, 2] {
                return Err("neighbouring fields were damaged".into());
            }
            Ok(w.inner)
        },
        4 => {
            let b = bin(&Wrapped { before: 9, inner: x, after: vec![3] });
            let w: Wrapped<T> = unbin(&b)?;
            if w.before != 9 || w.after != [3] {
                return Err("neighbouring fields were damaged".into());
            }
            Ok(w.inner)
        },
        _ => {
            // Through a self-describing value (buffers into a sequence).
            let s = serde_json::to_string(&Tagged::Edit { inner: x }).map_err(|e| e.to_string())?;
            let Tagged::Edit { inner } =
                serde_json::from_str::<Tagged<T>>(&s).map_err(|e| e.to_string())?;
            Ok(inner)
        },
    }
}

/// Feeds arbitrary bytes to every deserializer. Must never panic.
pub fn deserialize_all(b: &[u8]) -> usize {
    let mut ok = 0;
    macro_rules! go {
        ($t:ty) => {
            ok += bincode::serde::decode_from_slice::<$t, _>(b, bincode::config::standard()).is_ok() as usize;
            // The same bytes as the payload itself.
            let p = bin(&Raw(b));
            ok += bincode::serde::decode_from_slice::<$t, _>(&p, bincode::config::standard()).is_ok() as usize;
            ok += serde_json::from_slice::<$t>(b).is_ok() as usize;
            let j = serde_json::to_vec(b).unwrap();
            ok += serde_json::from_slice::<$t>(&j).is_ok() as usize;
            ok += ciborium::from_reader::<$t, _>(b).is_ok() as usize;
            let mut cb = Vec::new();
            ciborium::into_writer(&Raw(b), &mut cb).unwrap();
            let mut scratch = vec![0u8; b.len() + 16];
            ok += ciborium::de::from_reader_with_buffer::<$t, _>(&cb[..], &mut scratch).is_ok() as usize;
        };
    }
    go!(Insertion);
    go!(Deletion);
    go!(Text);
    go!(Anchor);
    go!(EncodedReplica<'static>);
    ok
}

pub struct Raw<'a>(pub &'a [u8]);
impl Serialize for Raw<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

pub fn leb(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

pub fn leb_len(v: u64) -> usize {
    let mut n = 1;
    let mut v = v >> 7;
    while v > 0 {
        n += 1;
        v >>= 7;
    }
    n
}

/// Decodes a LEB128 u64, returning the value and its length.
pub fn unleb(b: &[u8]) -> Option<(u64, usize)> {
    let mut v = 0u64;
    for (i, &x) in b.iter().enumerate().take(10) {
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            return Some((v, i + 1));
        }
    }
    None
}

/// Length of the payload of a serialised edit (without bincode's prefix).
pub fn payload_len<T: Serialize>(x: &T) -> usize {
    struct Count(usize);
    // bincode: varint length prefix followed by the bytes.
    let b = bin(x);
    let mut c = Count(b.len());
    c.0 -= match b[0] {
        0..=250 => 1,
        251 => 3,
        252 => 5,
        _ => 9,
    };
    c.0
}
