//! The issuer's provider and endpoints.
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::Arc;

use anyhow::{anyhow, Result};
use chrono::{DateTime, Utc};
use mc::{clock, exec, guard};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_core::Quota;
use vercre_did::{DidResolver, Document};
use vercre_infosec::{Decryptor, Encryptor, SecOps, Signer};
use vercre_openid::issuer::{Client, Dataset, Issuer, Metadata, Server, StateStore, Subject};
use vercre_status::issuer::Status;
use vercre_w3c_vc::model::CredentialStatus;

use crate::{effect, enter, key, with, Key, Out, World};

pub const ISSUER: &str = "http://vercre.io";
pub const CLIENT: &str = "96bfb9cb-0513-7d64-5532-bed74c48f9ab";
pub const CLIENT2: &str = "00000000-0513-7d64-5532-bed74c48f9ab";
pub const REDIRECT: &str = "http://localhost:3000/callback";
pub const REDIRECT2: &str = "http://localhost:3000/other";
pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
pub const EMP: &str = "EmployeeID_JWT";
pub const DEV: &str = "Developer_JWT";
pub const MDL: &str = "org.iso.18013.5.1.mDL";
pub const ISSUER_PK: &str = "pk-issuer-0";
pub const VERIFIER: &str = "some-code-verifier-of-the-wallet-0123456789abcdef";

#[derive(Clone, Default)]
pub struct IssuerCfg {
    pub issuers: BTreeMap<String, Issuer>,
    pub servers: BTreeMap<String, Server>,
    pub clients: BTreeMap<String, Client>,
    /// (subject, configuration) -> identifiers
    pub authz: BTreeMap<(String, String), Vec<String>>,
}

fn claim(name: &str, mandatory: bool) -> Value {
    let mut v = json!({ "value_type": "string", "display": [{ "name": name, "locale": "en-NZ" }] });
    if mandatory {
        v["mandatory"] = json!(true);
    }
    v
}

pub fn issuer_json() -> Value {
    let common = json!({
        "cryptographic_binding_methods_supported": ["did:key", "did:web"],
        "credential_signing_alg_values_supported": ["ES256K", "EdDSA"],
        "proof_types_supported": { "jwt": { "proof_signing_alg_values_supported": ["ES256K", "EdDSA"] } },
    });
    let mut emp = common.clone();
    emp["format"] = json!("jwt_vc_json");
    emp["scope"] = json!("EmployeeIDCredential");
    emp["display"] = json!([{ "name": "Employee ID", "description": "Vercre employee ID credential", "locale": "en-NZ" }]);
    emp["credential_definition"] = json!({
        "type": ["VerifiableCredential", "EmployeeIDCredential"],
        "credentialSubject": {
            "email": claim("Email", true),
            "family_name": claim("Family name", true),
            "given_name": claim("Given name", true),
            "address": { "street_address": claim("Street", false), "locality": claim("Locality", false) }
        }
    });
    let mut dev = common.clone();
    dev["format"] = json!("jwt_vc_json");
    dev["scope"] = json!("DeveloperCredential");
    dev["display"] = json!([{ "name": "Developer", "locale": "en-NZ" }]);
    dev["credential_definition"] = json!({
        "type": ["VerifiableCredential", "DeveloperCredential"],
        "credentialSubject": {
            "proficiency": claim("Proficiency", true),
            "family_name": claim("Family name", false),
            "given_name": claim("Given name", false)
        }
    });
    let mut mdl = common;
    mdl["format"] = json!("mso_mdoc");
    mdl["scope"] = json!("DriverLicence");
    mdl["doctype"] = json!("org.iso.18013.5.1.mDL");
    mdl["display"] = json!([{ "name": "Licence", "locale": "en-NZ" }]);
    mdl["claims"] = json!({ "org.iso.18013.5.1": { "given_name": {}, "family_name": {} } });
    json!({
        "credential_issuer": ISSUER,
        "credential_endpoint": format!("{ISSUER}/credential"),
        "deferred_credential_endpoint": format!("{ISSUER}/deferred"),
        "display": { "name": "Vercre", "locale": "en-NZ" },
        "credential_configurations_supported": { EMP: emp, DEV: dev, MDL: mdl }
    })
}
pub fn server_json() -> Value {
    json!({
        "issuer": ISSUER,
        "authorization_endpoint": "/auth",
        "token_endpoint": "/token",
        "scopes_supported": ["openid", "credential"],
        "response_types_supported": ["code"],
        "response_modes_supported": ["query"],
        "grant_types_supported": ["authorization_code", PRE],
        "code_challenge_methods_supported": ["S256"],
        "pre-authorized_grant_anonymous_access_supported": true
    })
}
pub fn client_json(id: &str) -> Value {
    json!({
        "client_id": id,
        "client_name": "Wallet",
        "redirect_uris": [REDIRECT, REDIRECT2],
        "grant_types": ["authorization_code", PRE],
        "response_types": ["code"],
        "scope": "openid credential",
        "credential_offer_endpoint": "openid-credential-offer://"
    })
}
pub fn claims_of(who: &str, identifier: &str) -> Value {
    match identifier {
        "PHLDeveloper" => json!({ "given_name": format!("G-{who}"), "family_name": format!("F-{who}"), "proficiency": "3" }),
        "DriverLicence" => json!({ "org.iso.18013.5.1": { "given_name": format!("G-{who}"), "family_name": format!("F-{who}") } }),
        i => json!({
            "given_name": format!("G-{who}"), "family_name": format!("F-{who}-{i}"), "email": format!("{who}@example.com"),
            "address": { "street_address": format!("1 {who} St"), "locality": "Wellington" }
        }),
    }
}
/// Build a configuration from (possibly edited) metadata.
pub fn cfg(issuer: Value, server: Value, clients: Vec<Value>) -> IssuerCfg {
    let mut c = IssuerCfg::default();
    let id = issuer["credential_issuer"].as_str().unwrap_or_default().to_string();
    c.issuers.insert(id.clone(), serde_json::from_value(issuer).expect("issuer metadata"));
    c.servers.insert(id, serde_json::from_value(server).expect("server metadata"));
    for cl in clients {
        c.clients.insert(cl["client_id"].as_str().unwrap().into(), serde_json::from_value(cl).expect("client"));
    }
    // alice may have everything, bob the employee id only, carol nothing
    for conf in [(EMP, "PHLEmployeeID"), (DEV, "PHLDeveloper"), (MDL, "DriverLicence")] {
        c.authz.insert(("alice".into(), conf.0.into()), vec![conf.1.into()]);
    }
    c.authz.insert(("bob".into(), EMP.into()), vec!["PHLEmployeeID".into()]);
    c
}
pub fn std_cfg() -> IssuerCfg {
    cfg(issuer_json(), server_json(), vec![client_json(CLIENT), client_json(CLIENT2)])
}
/// A fresh world with the given configuration.
pub fn world(c: IssuerCfg) -> World {
    let mut w = World { icfg: Arc::new(c), dids: Arc::new(crate::dids()), now: clock::EPOCH, ..World::default() };
    for who in ["alice", "bob", "carol"] {
        for id in ["PHLEmployeeID", "PHLDeveloper", "DriverLicence", "EmpA", "EmpB"] {
            w.datasets.insert((who.into(), id.into()), (claims_of(who, id), false));
        }
    }
    w
}

/// Many credential configurations beside the usual ones: `n` of them, with up
/// to `per` identifiers each that alice may have.
pub mod wide {
    use super::*;

    pub fn conf(i: usize) -> String {
        format!("Wide{i}_JWT")
    }
    pub fn idents(i: usize, per: usize) -> Vec<String> {
        // one begins with the other
        (0..=i % per).map(|j| format!("wide-{i}-{}", "0".repeat(j + 1))).collect()
    }
    pub fn kind(i: usize) -> String {
        format!("Wide{i}Credential")
    }
    pub fn types(i: usize) -> Vec<String> {
        vec!["VerifiableCredential".into(), kind(i)]
    }
    pub fn data(id: &str) -> Value {
        json!({ "k": format!("key of {id}"), "x": { "y": [id] }, "z": id.len() })
    }
    pub fn world(n: usize, per: usize) -> World {
        let mut i = issuer_json();
        for k in 0..n {
            let mut e = i["credential_configurations_supported"][EMP].clone();
            e["scope"] = json!(format!("wide{k}"));
            e["credential_definition"] = json!({
                "type": types(k),
                "credentialSubject": { "k": { "mandatory": true, "value_type": "string" }, "x": { "y": { "value_type": "string" } }, "z": { "value_type": "number" } }
            });
            i["credential_configurations_supported"][conf(k)] = e;
        }
        let mut g = cfg(i, server_json(), vec![client_json(CLIENT), client_json(CLIENT2)]);
        for k in 0..n {
            g.authz.insert(("alice".into(), conf(k)), idents(k, per));
        }
        let mut w = super::world(g);
        for id in (0..n).flat_map(|k| idents(k, per)) {
            w.datasets.insert(("alice".into(), id.clone()), (data(&id), false));
        }
        w
    }
}

#[derive(Clone, Debug)]
pub struct Provider;
impl vercre_openid::issuer::Provider for Provider {}

impl Metadata for Provider {
    async fn client(&self, client_id: &str) -> Result<Client> {
        effect(format!("client {client_id}")).await?;
        with(|w| w.icfg.clients.get(client_id).cloned()).ok_or_else(|| anyhow!("client not found"))
    }
    async fn issuer(&self, issuer_id: &str) -> Result<Issuer> {
        effect(format!("issuer {issuer_id}")).await?;
        with(|w| w.icfg.issuers.get(issuer_id).cloned()).ok_or_else(|| anyhow!("issuer not found"))
    }
    async fn server(&self, server_id: &str, issuer_id: Option<&str>) -> Result<Server> {
        effect(format!("server {server_id} {issuer_id:?}")).await?;
        let k = issuer_id.map_or_else(|| server_id.to_string(), |i| format!("{server_id}|{i}"));
        with(|w| w.icfg.servers.get(&k).cloned()).ok_or_else(|| anyhow!("server not found"))
    }
    async fn register(&self, client: &Client) -> Result<Client> {
        effect("register".into()).await?;
        let mut c = client.clone();
        c.oauth.client_id = "registered-client".into();
        with(|w| w.registered.push(serde_json::to_value(client).unwrap_or_default()));
        Ok(c)
    }
}
impl Subject for Provider {
    async fn authorize(&self, subject_id: &str, config_id: &str) -> Result<Vec<String>> {
        effect(format!("authorize {subject_id} {config_id}")).await?;
        with(|w| w.icfg.authz.get(&(subject_id.to_string(), config_id.to_string())).cloned())
            .ok_or_else(|| anyhow!("not authorized"))
    }
    async fn dataset(&self, subject_id: &str, identifier: &str) -> Result<Dataset> {
        effect(format!("dataset {subject_id} {identifier}")).await?;
        let (claims, pending) =
            with(|w| w.datasets.get(&(subject_id.to_string(), identifier.to_string())).cloned())
                .ok_or_else(|| anyhow!("no dataset"))?;
        Ok(Dataset { claims: claims.as_object().cloned().unwrap_or_default(), pending })
    }
}
impl StateStore for Provider {
    fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> impl Future<Output = Result<()>> + Send {
        let key = key.to_string();
        let v = serde_json::to_value(&state);
        async move { crate::store_put(&key, v?, expiry).await }
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        crate::store_get(key).await
    }
    async fn purge(&self, key: &str) -> Result<()> {
        crate::store_purge(key).await
    }
}
impl DidResolver for Provider {
    async fn resolve(&self, url: &str) -> Result<Document> {
        crate::Resolver.resolve(url).await
    }
}
pub fn issuer_key(identifier: &str) -> Key {
    if identifier == ISSUER { key("did:example:issuer#k0", ISSUER_PK) } else { key("did:example:issuer2#k0", "pk-issuer2-0") }
}
impl SecOps for Provider {
    fn signer(&self, identifier: &str) -> Result<impl Signer> {
        enter(format!("signer {identifier}"))?;
        Ok(issuer_key(identifier))
    }
    fn encryptor(&self, identifier: &str) -> Result<impl Encryptor> {
        Ok(issuer_key(identifier))
    }
    fn decryptor(&self, identifier: &str) -> Result<impl Decryptor> {
        Ok(issuer_key(identifier))
    }
}
impl Status for Provider {
    async fn status(&self, subject_id: &str, identifier: &str) -> Result<Option<Quota<CredentialStatus>>> {
        effect(format!("status {subject_id} {identifier}")).await?;
        with(|w| {
            w.status_asked.push((subject_id.into(), identifier.into()));
            w.status.clone()
        })
        .map_or(Ok(None), |s| Ok(Some(serde_json::from_value(s)?)))
    }
}

/// An endpoint and the request body it is called with.
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub ep: &'static str,
    pub body: Value,
}
pub fn call(ep: &'static str, body: Value) -> Call {
    Call { ep, body }
}

async fn one<Q, P, F, Fut>(body: Value, f: F) -> Out
where
    Q: DeserializeOwned,
    P: Serialize,
    F: FnOnce(Provider, Q) -> Fut,
    Fut: Future<Output = vercre_issuer::Result<P>>,
{
    let req: Q = match serde_json::from_value(body) {
        Ok(r) => r,
        Err(e) => return Out::Bad(e.to_string()),
    };
    match f(Provider, req).await {
        Ok(p) => Out::Ok(serde_json::to_value(&p).unwrap_or_else(|e| json!({ "unserializable": e.to_string() }))),
        Err(e) => Out::Err(e.to_json()),
    }
}
static NOISE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Whether requests carry the optional members that decide nothing.
pub fn noise(on: bool) {
    NOISE.store(on, std::sync::atomic::Ordering::Relaxed);
}
fn add_noise(ep: &str, b: &mut Value) {
    let Some(o) = b.as_object_mut() else { return };
    let mut put = |k: &str, v: Value| {
        o.entry(k).or_insert(v);
    };
    put("x-unknown", json!({ "a": [1, null] }));
    let assertion = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer";
    match ep {
        "authorize" | "par" => {
            put("wallet_issuer", json!("http://wallet.example"));
            put("user_hint", json!("alice"));
            put("resource", json!("http://localhost:8080"));
        }
        "credential" => put("credential_response_encryption", json!({ "jwk": { "kty": "OKP", "crv": "Ed25519", "x": "AAAA" }, "alg": "ECDH-ES", "enc": "A256GCM" })),
        "notification" => put("event_description", json!("what happened")),
        "metadata" => put("languages", json!("en")),
        _ => {}
    }
    if ep == "token" || ep == "par" {
        put("client_assertion_type", json!(assertion));
        put("client_assertion", json!("a.b.c"));
    }
    if ep == "token" || ep == "par" || ep == "authorize" {
        for d in o.get_mut("authorization_details").and_then(Value::as_array_mut).into_iter().flatten() {
            if let Some(d) = d.as_object_mut() {
                d.entry("locations").or_insert(json!(["http://localhost:8080"]));
            }
        }
    }
}
/// Call an endpoint of the real issuer.
pub async fn serve(c: Call) -> Out {
    let mut b = c.body;
    if NOISE.load(std::sync::atomic::Ordering::Relaxed) {
        add_noise(c.ep, &mut b);
    }
    match c.ep {
        "create_offer" => one(b, vercre_issuer::create_offer).await,
        "credential_offer" => one(b, vercre_issuer::credential_offer).await,
        "authorize" => one(b, vercre_issuer::authorize).await,
        "par" => one(b, vercre_issuer::par).await,
        "token" => one(b, vercre_issuer::token).await,
        "credential" => one(b, vercre_issuer::credential).await,
        "deferred" => one(b, vercre_issuer::deferred).await,
        "notification" => one(b, vercre_issuer::notification).await,
        "register" => one(b, vercre_issuer::register).await,
        "metadata" => one(b, vercre_issuer::metadata).await,
        "oauth_server" => one(b, vercre_issuer::oauth_server).await,
        ep => panic!("no endpoint {ep}"),
    }
}
/// Call an endpoint, run to completion; `Err` is a panic of the service.
pub fn go(label: &str, ep: &'static str, body: Value) -> Result<Out, String> {
    crate::begin(label);
    guard(|| exec::run(serve(call(ep, body))))
}
