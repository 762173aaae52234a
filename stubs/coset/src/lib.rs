//! Stand-in for the part of `coset` that vercre uses (RFC 9052 `COSE_Sign1`).
use ciborium::Value;

pub mod iana {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[allow(non_camel_case_types)]
    pub enum Algorithm { EdDSA = -8, ES256K = -47, ES256 = -7 }
}
#[derive(Debug)]
pub struct CoseError(pub String);
impl std::fmt::Display for CoseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) }
}
impl std::error::Error for CoseError {}
pub type Result<T> = std::result::Result<T, CoseError>;

pub trait AsCborValue: Sized {
    fn from_cbor_value(value: Value) -> Result<Self>;
    fn to_cbor_value(self) -> Result<Value>;
}
pub trait CborSerializable: AsCborValue {
    fn to_vec(self) -> Result<Vec<u8>> {
        let mut v = vec![];
        ciborium::into_writer(&self.to_cbor_value()?, &mut v).map_err(|e| CoseError(e.to_string()))?;
        Ok(v)
    }
    fn from_slice(s: &[u8]) -> Result<Self> {
        Self::from_cbor_value(ciborium::from_reader(s).map_err(|e| CoseError(e.to_string()))?)
    }
}
impl CborSerializable for CoseSign1 {}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Header { pub alg: Option<i64>, pub key_id: Vec<u8> }
impl Header {
    fn value(&self) -> Value {
        let mut m = vec![];
        if let Some(a) = self.alg { m.push((Value::from(1), Value::from(a))); }
        if !self.key_id.is_empty() { m.push((Value::from(4), Value::Bytes(self.key_id.clone()))); }
        Value::Map(m)
    }
    fn parse(v: &Value) -> Result<Self> {
        let mut h = Self::default();
        for (k, v) in v.as_map().ok_or(CoseError("header is not a map".into()))? {
            match k.as_integer().and_then(|i| i64::try_from(i).ok()) {
                Some(1) => h.alg = v.as_integer().and_then(|i| i64::try_from(i).ok()),
                Some(4) => h.key_id = v.as_bytes().cloned().unwrap_or_default(),
                _ => {}
            }
        }
        Ok(h)
    }
}
#[derive(Default)]
pub struct HeaderBuilder(Header);
impl HeaderBuilder {
    pub fn new() -> Self { Self::default() }
    #[must_use]
    pub fn algorithm(mut self, a: iana::Algorithm) -> Self { self.0.alg = Some(a as i64); self }
    #[must_use]
    pub fn key_id(mut self, k: Vec<u8>) -> Self { self.0.key_id = k; self }
    pub fn build(self) -> Header { self.0 }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct CoseSign1 {
    pub protected: Header,
    pub unprotected: Header,
    pub payload: Option<Vec<u8>>,
    pub signature: Vec<u8>,
}
impl CoseSign1 {
    /// RFC 9052 `Sig_structure`.
    pub fn tbs_data(&self, aad: &[u8]) -> Vec<u8> {
        let mut prot = vec![];
        ciborium::into_writer(&self.protected.value(), &mut prot).expect("should encode");
        let v = Value::Array(vec![
            Value::Text("Signature1".into()),
            Value::Bytes(prot),
            Value::Bytes(aad.to_vec()),
            Value::Bytes(self.payload.clone().unwrap_or_default()),
        ]);
        let mut out = vec![];
        ciborium::into_writer(&v, &mut out).expect("should encode");
        out
    }
}
impl AsCborValue for CoseSign1 {
    fn to_cbor_value(self) -> Result<Value> {
        let mut prot = vec![];
        ciborium::into_writer(&self.protected.value(), &mut prot).map_err(|e| CoseError(e.to_string()))?;
        Ok(Value::Array(vec![
            Value::Bytes(prot),
            self.unprotected.value(),
            self.payload.map_or(Value::Null, Value::Bytes),
            Value::Bytes(self.signature),
        ]))
    }
    fn from_cbor_value(value: Value) -> Result<Self> {
        let e = |s: &str| CoseError(s.into());
        let a = value.into_array().map_err(|_| e("not an array"))?;
        if a.len() != 4 { return Err(e("COSE_Sign1 has 4 elements")); }
        let prot = a[0].as_bytes().ok_or(e("protected"))?;
        let prot: Value = ciborium::from_reader(prot.as_slice()).map_err(|x| CoseError(x.to_string()))?;
        Ok(Self {
            protected: Header::parse(&prot)?,
            unprotected: Header::parse(&a[1])?,
            payload: a[2].as_bytes().cloned(),
            signature: a[3].as_bytes().cloned().ok_or(e("signature"))?,
        })
    }
}
#[derive(Default)]
pub struct CoseSign1Builder(CoseSign1);
impl CoseSign1Builder {
    pub fn new() -> Self { Self::default() }
    #[must_use]
    pub fn protected(mut self, h: Header) -> Self { self.0.protected = h; self }
    #[must_use]
    pub fn unprotected(mut self, h: Header) -> Self { self.0.unprotected = h; self }
    #[must_use]
    pub fn payload(mut self, p: Vec<u8>) -> Self { self.0.payload = Some(p); self }
    #[must_use]
    pub fn signature(mut self, s: Vec<u8>) -> Self { self.0.signature = s; self }
    pub fn build(self) -> CoseSign1 { self.0 }
}
