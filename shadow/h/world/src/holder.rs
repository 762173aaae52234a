//! The wallet's provider and endpoints. Its state shares the store of the
//! world under keys that start with `h:`; the issuer and the verifier it talks
//! to are the real ones.
use std::future::Future;

use anyhow::{anyhow, Result};
use chrono::{DateTime, Utc};
use mc::{exec, guard};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_did::{DidResolver, Document};
use vercre_holder::credential::{Credential, Logo};
use vercre_holder::provider::{
    AuthorizationRequest, AuthorizationResponse, Constraints, CredentialRequest, CredentialResponse, CredentialStorer, DeferredCredentialRequest,
    DeferredCredentialResponse, HolderProvider, Issuer, MetadataRequest, MetadataResponse, NotificationRequest, NotificationResponse,
    OAuthServerRequest, OAuthServerResponse, StateStore, TokenRequest, TokenResponse, Verifier,
};
use vercre_infosec::{Algorithm, Signer};
use vercre_openid::verifier::{RequestObjectRequest, RequestObjectResponse, ResponseRequest, ResponseResponse};

use crate::{effect, holder_key, with, Key, Out};

fn my_key() -> Key {
    with(|w| w.wallet.clone()).unwrap_or_else(|| holder_key("alice"))
}

#[derive(Clone, Debug)]
pub struct Provider;
impl HolderProvider for Provider {}

/// Record a request, and let the answer be tampered with.
async fn remote<Q: Serialize, P: Serialize + DeserializeOwned, E: std::fmt::Display>(
    ep: &str, req: &Q, f: impl Future<Output = Result<P, E>>,
) -> Result<P> {
    let body = serde_json::to_value(req)?;
    effect(format!("remote {ep}")).await?;
    with(|w| w.sent.push((ep.to_string(), body)));
    let p = f.await;
    with(|w| w.got.push((ep.to_string(), p.as_ref().ok().and_then(|p| serde_json::to_value(p).ok()))));
    let p = p.map_err(|e| anyhow!("{e}"))?;
    match with(|w| w.tamper.clone()) {
        None => Ok(p),
        Some(t) => Ok(serde_json::from_value((t.0)(ep, serde_json::to_value(&p)?))?),
    }
}

/// Futures of this sandbox never leave their thread.
struct Here<F>(std::pin::Pin<Box<F>>);
// SAFETY: the executor is single-threaded
unsafe impl<F> Send for Here<F> {}
impl<F: Future> Future for Here<F> {
    type Output = F::Output;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        self.0.as_mut().poll(cx)
    }
}
fn here<F: Future>(f: F) -> Here<F> {
    Here(Box::pin(f))
}

impl Issuer for Provider {
    fn metadata(&self, req: MetadataRequest) -> impl Future<Output = Result<MetadataResponse>> + Send {
        here(async move { remote("metadata", &req.clone(), vercre_issuer::metadata(crate::issuer::Provider, req)).await })
    }
    fn oauth_server(&self, req: OAuthServerRequest) -> impl Future<Output = Result<OAuthServerResponse>> + Send {
        here(async move { remote("oauth_server", &req.clone(), vercre_issuer::oauth_server(crate::issuer::Provider, req)).await })
    }
    fn authorization(&self, req: AuthorizationRequest) -> impl Future<Output = Result<AuthorizationResponse>> + Send {
        here(async move { remote("authorize", &req.clone(), vercre_issuer::authorize(crate::issuer::Provider, req)).await })
    }
    fn token(&self, req: TokenRequest) -> impl Future<Output = Result<TokenResponse>> + Send {
        here(async move { remote("token", &req.clone(), vercre_issuer::token(crate::issuer::Provider, req)).await })
    }
    fn credential(&self, req: CredentialRequest) -> impl Future<Output = Result<CredentialResponse>> + Send {
        here(async move { remote("credential", &req.clone(), vercre_issuer::credential(crate::issuer::Provider, req)).await })
    }
    fn deferred(&self, req: DeferredCredentialRequest) -> impl Future<Output = Result<DeferredCredentialResponse>> + Send {
        here(async move { remote("deferred", &req.clone(), vercre_issuer::deferred(crate::issuer::Provider, req)).await })
    }
    fn logo(&self, url: &str) -> impl Future<Output = Result<Logo>> + Send {
        let url = url.to_string();
        here(async move {
            effect(format!("remote logo {url}")).await?;
            with(|w| w.sent.push(("logo".into(), json!(url))));
            Ok(Logo { image: "aW1hZ2U".into(), media_type: "image/png".into() })
        })
    }
    fn notification(&self, req: NotificationRequest) -> impl Future<Output = Result<NotificationResponse>> + Send {
        here(async move { remote("notification", &req.clone(), vercre_issuer::notification(crate::issuer::Provider, req)).await })
    }
}

impl Verifier for Provider {
    fn request_object(&self, req: &str) -> impl Future<Output = Result<RequestObjectResponse>> + Send {
        let req = req.to_string();
        here(async move {
            let parts: Vec<&str> = req.rsplitn(3, '/').collect();
            if parts.len() < 3 {
                return Err(anyhow!("invalid request string"));
            }
            let r = RequestObjectRequest { client_id: parts[2].into(), id: parts[0].into() };
            remote("request_object", &json!(req), async { vercre_verifier::request_object(crate::verifier::Provider, &r).await }).await
        })
    }
    fn present(&self, uri: Option<&str>, req: &ResponseRequest) -> impl Future<Output = Result<ResponseResponse>> + Send {
        let (uri, req) = (uri.map(String::from), req.clone());
        here(async move {
            let body = json!({ "uri": uri, "vp_token": req.vp_token, "presentation_submission": req.presentation_submission, "state": req.state });
            remote("present", &body, async { vercre_verifier::response(crate::verifier::Provider, &req).await }).await
        })
    }
}

impl CredentialStorer for Provider {
    fn save(&self, credential: &Credential) -> impl Future<Output = Result<()>> + Send {
        let v = serde_json::to_value(credential);
        let id = credential.id.clone();
        async move {
            let v = v?;
            effect("cred save".to_string()).await?;
            with(|w| w.creds.insert(id, v));
            Ok(())
        }
    }
    async fn load(&self, id: &str) -> Result<Option<Credential>> {
        effect("cred load".to_string()).await?;
        Ok(with(|w| w.creds.get(id).cloned()).map(serde_json::from_value).transpose()?)
    }
    async fn find(&self, filter: Option<Constraints>) -> Result<Vec<Credential>> {
        effect("cred find".to_string()).await?;
        let mut out = vec![];
        for v in with(|w| w.creds.values().cloned().collect::<Vec<_>>()) {
            let c: Credential = serde_json::from_value(v)?;
            let hit = match &filter {
                None => true,
                Some(f) => f.satisfied(&c.vc)?,
            };
            if hit {
                out.push(c);
            }
        }
        Ok(out)
    }
    async fn remove(&self, id: &str) -> Result<()> {
        effect("cred remove".to_string()).await?;
        with(|w| w.creds.remove(id)).map(|_| ()).ok_or_else(|| anyhow!("no such credential"))
    }
}

impl StateStore for Provider {
    fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> impl Future<Output = Result<()>> + Send {
        let key = format!("h:{key}");
        let v = serde_json::to_value(&state);
        async move { crate::store_put(&key, v?, expiry).await }
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        crate::store_get(&format!("h:{key}")).await
    }
    async fn purge(&self, key: &str) -> Result<()> {
        crate::store_purge(&format!("h:{key}")).await
    }
}
impl DidResolver for Provider {
    async fn resolve(&self, url: &str) -> Result<Document> {
        crate::Resolver.resolve(url).await
    }
}
impl Signer for Provider {
    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> {
        my_key().try_sign(msg).await
    }
    async fn public_key(&self) -> Result<Vec<u8>> {
        my_key().public_key().await
    }
    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }
    fn verification_method(&self) -> String {
        my_key().vm
    }
}

fn out<P: Serialize>(r: Result<P>) -> Out {
    match r {
        Ok(p) => Out::Ok(serde_json::to_value(&p).unwrap_or_else(|e| json!({ "unserializable": e.to_string() }))),
        Err(e) => Out::Err(json!({ "error": e.to_string() })),
    }
}
macro_rules! ask {
    ($b:expr, $f:expr) => {
        match serde_json::from_value($b) {
            Ok(r) => out($f(Provider, &r).await),
            Err(e) => Out::Bad(e.to_string()),
        }
    };
}
/// Call an endpoint of the real wallet.
pub async fn serve(ep: &'static str, b: Value) -> Out {
    use vercre_holder::{issuance as i, presentation as p};
    let s = |v: &Value| v.as_str().unwrap_or_default().to_string();
    match ep {
        "offer" => ask!(b, i::offer),
        "accept" => ask!(b, i::accept),
        "pin" => out(i::pin(Provider, &i::PinRequest { issuance_id: s(&b["issuance_id"]), pin: s(&b["pin"]) }).await),
        "token" => out(i::token(Provider, &s(&b)).await),
        "authorize" => ask!(b, i::authorize),
        "credentials" => ask!(b, i::credentials),
        "deferred" => ask!(b, i::deferred),
        "save" => ask!(b, i::save),
        "cancel" => ask!(b, i::cancel),
        "request" => out(p::request(Provider, &s(&b)).await),
        "allow" => out(p::authorize(Provider, s(&b)).await),
        "present" => out(p::present(Provider, s(&b)).await),
        ep => panic!("no endpoint {ep}"),
    }
}
/// Call an endpoint, run to completion; `Err` is a panic of the wallet.
pub fn go(label: &str, ep: &'static str, body: Value) -> Result<Out, String> {
    crate::begin(label);
    with(|w| {
        w.sent.clear();
        w.got.clear();
    });
    guard(|| exec::run(serve(ep, body)))
}
/// The states of the wallet's flows.
pub fn state(id: &str) -> Option<Value> {
    with(|w| w.store.get(&format!("h:{id}")).map(|(v, _)| v.clone()))
}
