//! The environment the services run in: one thread-local `World` holds
//! everything a provider would (state store, metadata, subjects, keys, DID
//! documents) as plain data, so that it can be copied, compared and restored.
//! Every provider call is a scheduling point and a possible fault point.
pub mod holder;
pub mod issuer;
pub mod mdoc;
pub mod verifier;

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Arc;

use anyhow::{anyhow, Result};
use base64ct::{Base64UrlUnpadded as B64, Encoding};
use chrono::{DateTime, Utc};
use mc::{clock, exec};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_did::{DidResolver, Document, MethodType, VerificationMethod};
use vercre_infosec::{Algorithm, Decryptor, Encryptor, PublicKeyJwk, Signer};

pub use issuer::IssuerCfg;
pub use verifier::VerifierCfg;

#[derive(Clone, Default)]
pub struct World {
    /// state store: key -> (state, expiry)
    pub store: BTreeMap<String, (Value, i64)>,
    /// whether the store drops entries once they expire (it may, need not)
    pub expunge: bool,
    /// provider calls made so far / index of the call that fails
    pub calls: usize,
    pub fail_at: Option<usize>,
    /// labels of the provider calls, when recorded
    pub log: Option<Vec<String>>,
    /// static configuration of the issuer
    pub icfg: Arc<IssuerCfg>,
    /// static configuration of the verifier
    pub vcfg: Arc<VerifierCfg>,
    /// datasets: (subject, identifier) -> (claims, pending)
    pub datasets: BTreeMap<(String, String), (Value, bool)>,
    /// what `Status::status` answers, and what it was asked
    pub status: Option<Value>,
    pub status_asked: Vec<(String, String)>,
    /// what `Metadata::register` was given
    pub registered: Vec<Value>,
    /// DID -> [(key id, public key)]
    pub dids: Arc<BTreeMap<String, Vec<(String, String)>>>,
    /// how often each label was used to seed the random stream
    pub seeds: BTreeMap<String, u64>,
    /// the wallet: its key, stored credentials, and what it sent to whom
    pub wallet: Option<Key>,
    pub creds: BTreeMap<String, Value>,
    pub sent: Vec<(String, Value)>,
    /// what issuer and verifier answered (None: an error)
    pub got: Vec<(String, Option<Value>)>,
    /// what happens to the answers of issuer and verifier on the way
    pub tamper: Option<Tamper>,
    pub now: i64,
}
/// Changes an answer (endpoint, answer) before the wallet sees it.
#[derive(Clone)]
pub struct Tamper(pub Arc<dyn Fn(&str, Value) -> Value>);

thread_local! { static WORLD: RefCell<World> = RefCell::new(World::default()); }

pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}
pub fn save() -> World {
    with(|w| {
        w.now = clock::now();
        w.clone()
    })
}
pub fn load(w: &World) {
    clock::set(w.now);
    WORLD.with(|c| *c.borrow_mut() = w.clone());
}
/// Start an operation: the random values it draws are determined by its label
/// and by how often the label was used before, so that operations which do not
/// influence each other give the same state in either order.
pub fn begin(label: &str) {
    let n = with(|w| {
        let n = w.seeds.entry(label.to_string()).or_default();
        *n += 1;
        *n
    });
    let mut h = DefaultHasher::new();
    (label, n).hash(&mut h);
    reseed(h.finish());
}

/// The fault and scheduling point in front of every provider call.
pub async fn effect(label: String) -> Result<()> {
    exec::point().await;
    enter(label)
}
/// The same for calls that are not asynchronous.
pub fn enter(label: String) -> Result<()> {
    with(|w| {
        let n = w.calls;
        w.calls += 1;
        if w.fail_at == Some(n) {
            return Err(anyhow!("injected fault"));
        }
        if let Some(l) = &mut w.log {
            l.push(label);
        }
        Ok(())
    })
}

pub async fn store_put(key: &str, state: impl Serialize, expiry: DateTime<Utc>) -> Result<()> {
    let v = serde_json::to_value(&state)?;
    effect(format!("put {key}")).await?;
    with(|w| w.store.insert(key.to_string(), (v, expiry.timestamp())));
    Ok(())
}
pub async fn store_get<T: DeserializeOwned>(key: &str) -> Result<T> {
    effect(format!("get {key}")).await?;
    let v = with(|w| match w.store.get(key) {
        Some((_, exp)) if w.expunge && clock::now() >= *exp => None,
        Some((v, _)) => Some(v.clone()),
        None => None,
    });
    let v = v.ok_or_else(|| anyhow!("no state found for key"))?;
    Ok(serde_json::from_value(v)?)
}
pub async fn store_purge(key: &str) -> Result<()> {
    effect(format!("purge {key}")).await?;
    with(|w| w.store.remove(key));
    Ok(())
}

/// A key pair: `vm` is the DID URL of the verification method, the public key
/// is just a name (signatures are ideal, see stubs/vercre-infosec).
#[derive(Clone, Debug)]
pub struct Key {
    pub vm: String,
    pub pk: String,
}
pub fn key(vm: &str, pk: &str) -> Key {
    Key { vm: vm.into(), pk: pk.into() }
}
impl Signer for Key {
    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> {
        effect("sign".into()).await?;
        Ok(vercre_infosec::ideal_signature(self.pk.as_bytes(), msg))
    }
    async fn public_key(&self) -> Result<Vec<u8>> {
        effect("public_key".into()).await?;
        Ok(self.pk.as_bytes().to_vec())
    }
    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }
    fn verification_method(&self) -> String {
        self.vm.clone()
    }
}
impl Encryptor for Key {
    async fn encrypt(&self, p: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        Ok(p.to_vec())
    }
    fn public_key(&self) -> Vec<u8> {
        self.pk.as_bytes().to_vec()
    }
}
impl Decryptor for Key {
    async fn decrypt(&self, c: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        Ok(c.to_vec())
    }
}

#[derive(Clone)]
pub struct Resolver;
impl DidResolver for Resolver {
    async fn resolve(&self, url: &str) -> Result<Document> {
        effect(format!("resolve {url}")).await?;
        let did = url.split('#').next().unwrap_or_default().to_string();
        let keys = with(|w| w.dids.get(&did).cloned()).ok_or_else(|| anyhow!("unknown DID"))?;
        Ok(Document {
            id: did.clone(),
            verification_method: Some(
                keys.into_iter()
                    .map(|(id, pk)| VerificationMethod {
                        id,
                        controller: did.clone(),
                        method_type: MethodType::JsonWebKey { public_key_jwk: jwk(&pk) },
                    })
                    .collect(),
            ),
        })
    }
}
pub fn jwk(pk: &str) -> PublicKeyJwk {
    PublicKeyJwk { x: B64::encode_string(pk.as_bytes()), ..PublicKeyJwk::default() }
}

/// Build a JWT by hand; `pk` signs it.
pub fn jwt(header: &Value, claims: &Value, pk: &str) -> String {
    let h = B64::encode_string(header.to_string().as_bytes());
    let c = B64::encode_string(claims.to_string().as_bytes());
    let s = vercre_infosec::ideal_signature(pk.as_bytes(), format!("{h}.{c}").as_bytes());
    format!("{h}.{c}.{}", B64::encode_string(&s))
}
/// Take a JWT apart, checking that `pk` signed it.
pub fn open_jwt(token: &str, pk: &str) -> Option<(Value, Value)> {
    let p: Vec<&str> = token.split('.').collect();
    if p.len() != 3 {
        return None;
    }
    let sig = B64::decode_vec(p[2]).ok()?;
    if sig != vercre_infosec::ideal_signature(pk.as_bytes(), format!("{}.{}", p[0], p[1]).as_bytes()) {
        return None;
    }
    let h = serde_json::from_slice(&B64::decode_vec(p[0]).ok()?).ok()?;
    let c = serde_json::from_slice(&B64::decode_vec(p[1]).ok()?).ok()?;
    Some((h, c))
}

/// The standard DID documents.
pub fn dids() -> BTreeMap<String, Vec<(String, String)>> {
    let mut m = BTreeMap::new();
    for who in ["alice", "bob", "mallory", "issuer", "verifier", "issuer2"] {
        let did = format!("did:example:{who}");
        m.insert(did.clone(), vec![(format!("{did}#k0"), format!("pk-{who}-0")), (format!("{did}#k1"), format!("pk-{who}-1"))]);
    }
    m
}
pub fn holder_key(who: &str) -> Key {
    key(&format!("did:example:{who}#k0"), &format!("pk-{who}-0"))
}

/// What came out of a call.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Value),
    /// an OpenID error, as the service would send it
    Err(Value),
    /// the request does not deserialize
    Bad(String),
}
impl Out {
    pub fn ok(&self) -> Option<&Value> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn code(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Err(e) => e["error"].as_str().unwrap_or("unintelligible").into(),
            Out::Bad(_) => "bad".into(),
        }
    }
    pub fn json(&self) -> Value {
        match self {
            Out::Ok(v) => json!({ "ok": v }),
            Out::Err(v) => json!({ "err": v }),
            Out::Bad(v) => json!({ "bad": v }),
        }
    }
}

/// Polls a future with a random stream of its own, so that what one task
/// draws does not depend on how it is interleaved with others.
pub struct Seeded<F> {
    label: String,
    polls: u64,
    inner: std::pin::Pin<Box<F>>,
}
pub fn seeded<F>(label: &str, f: F) -> Seeded<F> {
    Seeded { label: label.into(), polls: 0, inner: Box::pin(f) }
}
impl<F: std::future::Future> std::future::Future for Seeded<F> {
    type Output = F::Output;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        self.polls += 1;
        let mut h = DefaultHasher::new();
        (&self.label, self.polls).hash(&mut h);
        reseed(h.finish());
        self.inner.as_mut().poll(cx)
    }
}
pub fn reseed(s: u64) {
    fastrand::seed(s);
    rand::script(s, &[]);
    uuid::reset(u128::from(s));
}
