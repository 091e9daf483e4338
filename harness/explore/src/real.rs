//! The real formats.
use bincode::Options;
use serde::de::DeserializeOwned;
use serde::Serialize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Real {
    Text,
    Value,
    Cbor,
    Postcard,
    Bincode,
}
pub const SELF_DESCRIBING: [Real; 3] = [Real::Text, Real::Value, Real::Cbor];
pub const COMPACT: [Real; 2] = [Real::Postcard, Real::Bincode];

#[derive(Clone, Debug, PartialEq)]
pub enum Enc {
    Text(String),
    Value(serde_json::Value),
    Bytes(Vec<u8>),
}

pub fn enc<T: Serialize + ?Sized>(r: Real, v: &T) -> Result<Enc, String> {
    Ok(match r {
        Real::Text => Enc::Text(serde_json::to_string(v).map_err(|e| e.to_string())?),
        Real::Value => Enc::Value(serde_json::to_value(v).map_err(|e| e.to_string())?),
        Real::Cbor => {
            let mut b = Vec::new();
            ciborium::into_writer(v, &mut b).map_err(|e| e.to_string())?;
            Enc::Bytes(b)
        }
        Real::Postcard => Enc::Bytes(postcard::to_stdvec(v).map_err(|e| e.to_string())?),
        Real::Bincode => Enc::Bytes(bincode::DefaultOptions::new().with_fixint_encoding().serialize(v).map_err(|e| e.to_string())?),
    })
}

pub fn dec<T: DeserializeOwned>(r: Real, e: &Enc) -> Result<T, String> {
    match (r, e) {
        (Real::Text, Enc::Text(s)) => serde_json::from_str(s).map_err(|e| e.to_string()),
        (Real::Value, Enc::Value(v)) => T::deserialize(v).map_err(|e| e.to_string()),
        (Real::Cbor, Enc::Bytes(b)) => {
            let mut r = &b[..];
            let v = ciborium::from_reader(&mut r).map_err(|e| e.to_string())?;
            if r.is_empty() {
                Ok(v)
            } else {
                Err("bytes are left over".into())
            }
        }
        (Real::Postcard, Enc::Bytes(b)) => {
            let (v, rest) = postcard::take_from_bytes(b).map_err(|e| e.to_string())?;
            if rest.is_empty() {
                Ok(v)
            } else {
                Err("bytes are left over".into())
            }
        }
        (Real::Bincode, Enc::Bytes(b)) => bincode::DefaultOptions::new().with_fixint_encoding().deserialize(b).map_err(|e| e.to_string()),
        _ => unreachable!(),
    }
}
