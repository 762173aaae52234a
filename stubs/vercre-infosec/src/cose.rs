use std::ops::{Deref, DerefMut};

use ciborium::Value;
use serde::de::DeserializeOwned;
use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};

use crate::{Curve, KeyType};

pub mod cbor {
    use anyhow::anyhow;
    use ciborium::Value;
    use serde::de::DeserializeOwned;
    use serde::Serialize;

    pub fn to_vec<T: Serialize>(value: &T) -> anyhow::Result<Vec<u8>> {
        let mut buf = Vec::new();
        ciborium::into_writer(value, &mut buf)?;
        Ok(buf)
    }

    /// Deserialize, looking through an embedded-CBOR tag (24) if there is one.
    pub fn from_slice<T: DeserializeOwned>(slice: &[u8]) -> anyhow::Result<T> {
        if let Ok(v) = ciborium::from_reader::<T, _>(slice) {
            return Ok(v);
        }
        if let Value::Tag(24, inner) = ciborium::from_reader::<Value, _>(slice)? {
            if let Value::Bytes(b) = *inner {
                return Ok(ciborium::from_reader(b.as_slice())?);
            }
        }
        ciborium::from_reader(slice).map_err(|e| anyhow!("issue deserializing: {e}"))
    }
}

/// `#6.24(bstr .cbor T)`
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Tag24<T>(pub T);

impl<T: Serialize> Tag24<T> {
    pub fn to_vec(&self) -> anyhow::Result<Vec<u8>> { cbor::to_vec(self) }
}
impl<T> Tag24<T> {
    pub fn into_inner(self) -> T { self.0 }
}
impl<T> Deref for Tag24<T> {
    type Target = T;
    fn deref(&self) -> &T { &self.0 }
}
impl<T> DerefMut for Tag24<T> {
    fn deref_mut(&mut self) -> &mut T { &mut self.0 }
}
impl<T: Serialize> Serialize for Tag24<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let v = cbor::to_vec(&self.0).map_err(ser::Error::custom)?;
        Value::Tag(24, Box::new(Value::Bytes(v))).serialize(s)
    }
}
impl<'de, T: DeserializeOwned> Deserialize<'de> for Tag24<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let Value::Tag(24, inner) = Value::deserialize(d)? else {
            return Err(de::Error::custom("not a tag 24"));
        };
        let Value::Bytes(b) = *inner else {
            return Err(de::Error::custom("tag 24 is not a byte string"));
        };
        Ok(Self(cbor::from_slice(&b).map_err(de::Error::custom)?))
    }
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct CoseKey {
    pub kty: KeyType,
    pub crv: Curve,
    pub x: Vec<u8>,
    pub y: Option<Vec<u8>>,
}
