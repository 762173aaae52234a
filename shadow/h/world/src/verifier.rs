//! The verifier's provider and endpoints. Its state shares the store of the
//! world under keys that start with `v:`.
use std::collections::BTreeMap;
use std::future::Future;

use anyhow::{anyhow, Result};
use chrono::{DateTime, Utc};
use mc::{exec, guard};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_did::{DidResolver, Document};
use vercre_infosec::{Decryptor, Encryptor, SecOps, Signer};
use vercre_openid::verifier::{Metadata, StateStore, Verifier, Wallet};

use crate::{effect, enter, key, with, Key, Out};

pub const VERIFIER_ID: &str = "http://localhost:8080";
pub const OTHER_VERIFIER: &str = "http://other.example";
pub const VERIFIER_PK: &str = "pk-verifier-0";

#[derive(Clone, Default)]
pub struct VerifierCfg {
    pub verifiers: BTreeMap<String, Verifier>,
}
pub fn verifier_json(id: &str) -> Value {
    json!({
        "client_id": format!("{id}/callback"), "redirect_uris": [format!("{id}/callback")], "grant_types": ["authorization_code"],
        "response_types": ["vp_token", "id_token vp_token"],
        "vp_formats": { "jwt_vp_json": { "alg": ["ES256K", "EdDSA"], "proof_type": ["JsonWebSignature2020"] } }
    })
}
pub fn std_vcfg() -> VerifierCfg {
    let mut c = VerifierCfg::default();
    for id in [VERIFIER_ID, OTHER_VERIFIER] {
        c.verifiers.insert(id.into(), serde_json::from_value(verifier_json(id)).expect("verifier metadata"));
    }
    c
}
pub fn verifier_key(identifier: &str) -> Key {
    if identifier == VERIFIER_ID { key("did:example:verifier#k0", VERIFIER_PK) } else { key("did:example:verifier#k1", "pk-verifier-1") }
}

#[derive(Clone, Debug)]
pub struct Provider;
impl vercre_openid::verifier::Provider for Provider {}
impl Metadata for Provider {
    async fn verifier(&self, id: &str) -> Result<Verifier> {
        effect(format!("verifier {id}")).await?;
        with(|w| w.vcfg.verifiers.get(id).cloned()).ok_or_else(|| anyhow!("verifier not found"))
    }
    async fn wallet(&self, id: &str) -> Result<Wallet> {
        effect(format!("wallet {id}")).await?;
        Err(anyhow!("no wallet metadata"))
    }
    async fn register(&self, v: &Verifier) -> Result<Verifier> {
        effect("register".into()).await?;
        Ok(v.clone())
    }
}
impl StateStore for Provider {
    fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> impl Future<Output = Result<()>> + Send {
        let key = format!("v:{key}");
        let v = serde_json::to_value(&state);
        async move { crate::store_put(&key, v?, expiry).await }
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        crate::store_get(&format!("v:{key}")).await
    }
    async fn purge(&self, key: &str) -> Result<()> {
        crate::store_purge(&format!("v:{key}")).await
    }
}
impl DidResolver for Provider {
    async fn resolve(&self, url: &str) -> Result<Document> {
        crate::Resolver.resolve(url).await
    }
}
impl SecOps for Provider {
    fn signer(&self, identifier: &str) -> Result<impl Signer> {
        enter(format!("signer {identifier}"))?;
        if with(|w| w.vcfg.verifiers.contains_key(identifier)) {
            Ok(verifier_key(identifier))
        } else {
            Err(anyhow!("no signer"))
        }
    }
    fn encryptor(&self, identifier: &str) -> Result<impl Encryptor> {
        Ok(verifier_key(identifier))
    }
    fn decryptor(&self, identifier: &str) -> Result<impl Decryptor> {
        Ok(verifier_key(identifier))
    }
}

async fn one<Q, P, F, Fut>(body: Value, f: F) -> Out
where
    Q: DeserializeOwned,
    P: Serialize,
    F: FnOnce(Provider, Q) -> Fut,
    Fut: Future<Output = vercre_openid::Result<P>>,
{
    let req: Q = match serde_json::from_value(body) {
        Ok(r) => r,
        Err(e) => return Out::Bad(e.to_string()),
    };
    match f(Provider, req).await {
        Ok(p) => Out::Ok(serde_json::to_value(&p).unwrap_or_else(|e| json!({ "unserializable": e.to_string() }))),
        Err(e) => Out::Err(e.to_json()),
    }
}
static NOISE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Whether messages carry the optional and unknown members that decide nothing.
pub fn noise(on: bool) {
    NOISE.store(on, std::sync::atomic::Ordering::Relaxed);
}
pub fn noisy() -> bool {
    NOISE.load(std::sync::atomic::Ordering::Relaxed)
}
/// Call an endpoint of the real verifier.
pub async fn serve(ep: &'static str, mut b: Value) -> Out {
    if noisy() {
        let x = json!({ "a": [1, null], "state": "s", "id": "i" });
        if let Some(o) = b.as_object_mut() {
            o.entry("x-unknown").or_insert(x.clone());
        }
        if let Some(o) = b.get_mut("presentation_submission").and_then(Value::as_object_mut) {
            o.entry("x-unknown").or_insert(x.clone());
        }
        for m in b.pointer_mut("/presentation_submission/descriptor_map").and_then(Value::as_array_mut).into_iter().flatten() {
            m["x-unknown"] = x.clone();
            if let Some(n) = m.get_mut("path_nested").and_then(Value::as_object_mut) {
                n.entry("x-unknown").or_insert(x.clone());
            }
        }
    }
    match ep {
        "create_request" => one(b, |p, r| async move { vercre_verifier::create_request(p, &r).await }).await,
        "request_object" => one(b, |p, r| async move { vercre_verifier::request_object(p, &r).await }).await,
        "response" => one(b, |p, r| async move { vercre_verifier::response(p, &r).await }).await,
        "metadata" => one(b, |p, r| async move { vercre_verifier::metadata(p, &r).await }).await,
        ep => panic!("no endpoint {ep}"),
    }
}
pub fn go(label: &str, ep: &'static str, body: Value) -> Result<Out, String> {
    crate::begin(label);
    guard(|| exec::run(serve(ep, body)))
}
