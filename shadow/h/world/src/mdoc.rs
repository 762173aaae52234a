//! Reading an `mso_mdoc` credential without the code under test.
use std::collections::BTreeMap;

use base64ct::{Base64UrlUnpadded as B64, Encoding};
use ciborium::Value as C;
use serde_json::{Map, Value};
use sha2::{Digest, Sha256};

#[derive(Debug, Default)]
pub struct Mdoc {
    /// namespace -> element -> value
    pub claims: Map<String, Value>,
    /// every element: (namespace, digest id, salt length, salt)
    pub items: Vec<(String, i128, Vec<u8>)>,
    pub doc_type: String,
    pub version: String,
    pub validity: BTreeMap<String, String>,
    pub kid: String,
    pub device_key: Vec<u8>,
    /// digests recorded in the security object, per namespace
    pub digests: BTreeMap<String, BTreeMap<i128, Vec<u8>>>,
    pub signature: Vec<u8>,
    pub payload: Vec<u8>,
    pub alg: i128,
}
fn get<'a>(m: &'a C, k: &str) -> Result<&'a C, String> {
    m.as_map()
        .and_then(|m| m.iter().find(|(n, _)| n.as_text() == Some(k)).map(|(_, v)| v))
        .ok_or_else(|| format!("no {k}"))
}
fn any<'a>(m: &'a C, ks: &[&str]) -> Result<&'a C, String> {
    ks.iter().find_map(|k| get(m, k).ok()).ok_or_else(|| format!("no {ks:?}"))
}
fn bytes(v: &C) -> Result<Vec<u8>, String> {
    match v {
        C::Bytes(b) => Ok(b.clone()),
        C::Array(a) => a.iter().map(|x| x.as_integer().and_then(|i| u8::try_from(i128::from(i)).ok()).ok_or_else(|| "not a byte".to_string())).collect(),
        _ => Err("not bytes".into()),
    }
}
fn parse(b: &[u8]) -> Result<C, String> {
    ciborium::from_reader(b).map_err(|e| e.to_string())
}
fn json(v: &C) -> Value {
    match v {
        C::Null => Value::Null,
        C::Bool(b) => Value::from(*b),
        C::Integer(i) => serde_json::from_str(&i128::from(*i).to_string()).unwrap_or_default(),
        C::Float(f) => Value::from(*f),
        C::Text(s) => Value::from(s.as_str()),
        C::Array(a) => Value::Array(a.iter().map(json).collect()),
        C::Map(m) => Value::Object(m.iter().map(|(k, v)| (k.as_text().unwrap_or("?").to_string(), json(v))).collect()),
        o => Value::from(format!("{o:?}")),
    }
}
/// Decode the credential; every disclosed element has to have its digest in
/// the signed security object and the other way round.
pub fn read(cred: &str) -> Result<Mdoc, String> {
    let mut d = Mdoc::default();
    let top = parse(&B64::decode_vec(cred).map_err(|e| e.to_string())?)?;
    let auth = get(&top, "issuerAuth")?.as_array().ok_or("issuerAuth")?.clone();
    if auth.len() != 4 {
        return Err("COSE_Sign1 arity".into());
    }
    let prot = parse(&bytes(&auth[0])?)?;
    let hdr = |m: &C, n: i64| m.as_map().and_then(|m| m.iter().find(|(k, _)| k.as_integer() == Some(n.into())).map(|(_, v)| v.clone()));
    d.alg = hdr(&prot, 1).and_then(|v| v.as_integer()).map(i128::from).unwrap_or_default();
    d.kid = String::from_utf8(bytes(&hdr(&auth[1], 4).ok_or("no key id")?)?).map_err(|e| e.to_string())?;
    d.payload = bytes(&auth[2])?;
    d.signature = bytes(&auth[3])?;
    let C::Tag(24, inner) = parse(&d.payload)? else { return Err("payload is not tag 24".into()) };
    let mso = parse(&bytes(&inner)?)?;
    d.doc_type = get(&mso, "docType")?.as_text().unwrap_or_default().into();
    d.version = get(&mso, "version")?.as_text().unwrap_or_default().into();
    if get(&mso, "digestAlgorithm")?.as_text() != Some("SHA-256") {
        return Err("digest algorithm".into());
    }
    for (k, v) in get(&mso, "validityInfo")?.as_map().ok_or("validityInfo")? {
        if let (Some(k), Some(v)) = (k.as_text(), v.as_text()) {
            d.validity.insert(k.into(), v.into());
        }
    }
    d.device_key = bytes(any(any(&mso, &["deviceKeyInfo"]).and_then(|i| any(i, &["deviceKey"]))?, &["x", "-2"])?)?;
    for (ns, m) in get(&mso, "valueDigests")?.as_map().ok_or("valueDigests")? {
        let e = d.digests.entry(ns.as_text().ok_or("ns")?.to_string()).or_default();
        for (id, dg) in m.as_map().ok_or("digests")? {
            if e.insert(id.as_integer().map(i128::from).ok_or("digest id")?, bytes(dg)?).is_some() {
                return Err("duplicate digest id".into());
            }
        }
    }
    let mut seen: BTreeMap<String, BTreeMap<i128, Vec<u8>>> = BTreeMap::new();
    for (ns, items) in get(&top, "nameSpaces")?.as_map().ok_or("nameSpaces")? {
        let ns = ns.as_text().ok_or("namespace")?.to_string();
        let obj = d.claims.entry(ns.clone()).or_insert_with(|| Value::Object(Map::new()));
        for it in items.as_array().ok_or("items")? {
            let C::Tag(24, inner) = it else { return Err("item is not tag 24".into()) };
            let mut enc = vec![];
            ciborium::into_writer(it, &mut enc).map_err(|e| e.to_string())?;
            let item = parse(&bytes(inner)?)?;
            let id = any(&item, &["digest_id", "digestID"])?.as_integer().map(i128::from).ok_or("digest id")?;
            let salt = bytes(get(&item, "random")?)?;
            let name = any(&item, &["element_identifier", "elementIdentifier"])?.as_text().ok_or("element")?.to_string();
            let val = json(any(&item, &["element_value", "elementValue"])?);
            if seen.entry(ns.clone()).or_default().insert(id, Sha256::digest(&enc).to_vec()).is_some() {
                return Err("digest id used twice".into());
            }
            if obj.as_object_mut().unwrap().insert(name, val).is_some() {
                return Err("element twice".into());
            }
            d.items.push((ns.clone(), id, salt));
        }
    }
    seen.retain(|_, m| !m.is_empty());
    let mut recorded = d.digests.clone();
    recorded.retain(|_, m| !m.is_empty());
    if seen != recorded {
        return Err("digests do not match the elements".into());
    }
    Ok(d)
}
