//! Building blocks of the issuer scenarios.
pub use mc::{clock, exec, gen, guard, Check};
pub use serde_json::{json, Map, Value};
pub use world::issuer::*;
pub use world::{holder_key, jwt, load, open_jwt, save, with, Out, World};

use base64ct::{Base64UrlUnpadded as B64, Encoding};
use sha2::{Digest, Sha256};

pub const AUTH: &str = "authorization_code";
pub const NAMES: [(&str, &str); 3] = [(EMP, "PHLEmployeeID"), (DEV, "PHLDeveloper"), (MDL, "DriverLicence")];

pub fn challenge(v: &str) -> String {
    B64::encode_string(&Sha256::digest(v.as_bytes()))
}
pub fn s(v: &Value) -> String {
    v.as_str().unwrap_or_default().to_string()
}
pub fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
/// Remove the null members of an object (so that absent members can be
/// written as null).
pub fn trim(v: Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.into_iter().filter(|(_, v)| !v.is_null()).collect()),
        v => v,
    }
}
pub fn fresh() -> World {
    world(std_cfg())
}
/// Change the configuration of a world.
pub fn recfg(w: &mut World, f: impl FnOnce(&mut IssuerCfg)) {
    let mut c = (*w.icfg).clone();
    f(&mut c);
    w.icfg = c.into();
}

pub fn offer_body(who: &str, confs: &[&str], grants: &[&str], pin: bool, byref: bool) -> Value {
    json!({ "credential_issuer": ISSUER, "subject_id": who, "credential_configuration_ids": confs, "grant_types": grants,
            "tx_code_required": pin, "send_type": if byref { "ByRef" } else { "ByVal" } })
}
/// Any call that has to succeed for a scenario to exist.
pub fn must(label: &str, ep: &'static str, body: Value) -> Value {
    match go(label, ep, body.clone()) {
        Ok(Out::Ok(v)) => v,
        o => std::panic::panic_any(format!("scenario step {label}: {ep} {body} gave {o:?}")),
    }
}
/// (pre-authorized code, PIN)
pub fn pre_code(label: &str, who: &str, confs: &[&str], pin: bool) -> (String, Option<String>) {
    let r = must(label, "create_offer", offer_body(who, confs, &[PRE], pin, false));
    (s(&r["credential_offer"]["grants"][PRE]["pre-authorized_code"]), r["tx_code"].as_str().map(String::from))
}
pub fn detail(conf: &str) -> Value {
    json!({ "type": "openid_credential", "credential_configuration_id": conf })
}
pub fn auth_body(who: &str, confs: &[&str]) -> Value {
    json!({ "credential_issuer": ISSUER, "response_type": "code", "client_id": CLIENT, "redirect_uri": REDIRECT, "state": "st-1",
            "code_challenge": challenge(VERIFIER), "code_challenge_method": "S256", "subject_id": who,
            "authorization_details": confs.iter().map(|c| detail(c)).collect::<Vec<_>>() })
}
pub fn auth_code(label: &str, who: &str, confs: &[&str]) -> String {
    s(&must(label, "authorize", auth_body(who, confs))["code"])
}
pub fn token_pre(code: &str, pin: Option<&str>, client: Option<&str>) -> Value {
    trim(json!({ "credential_issuer": ISSUER, "client_id": client, "grant_type": PRE, "pre-authorized_code": code, "tx_code": pin }))
}
pub fn token_auth(code: &str) -> Value {
    json!({ "credential_issuer": ISSUER, "client_id": CLIENT, "grant_type": AUTH, "code": code, "redirect_uri": REDIRECT,
            "code_verifier": VERIFIER })
}
/// (access token, nonce)
pub fn pre_token(label: &str, who: &str, confs: &[&str]) -> (String, String) {
    let (code, _) = pre_code(&format!("{label}-offer"), who, confs, false);
    let r = must(&format!("{label}-token"), "token", token_pre(&code, None, None));
    (s(&r["access_token"]), s(&r["c_nonce"]))
}
pub fn proof_claims(nonce: &str) -> Value {
    json!({ "iss": CLIENT, "aud": ISSUER, "iat": clock::now(), "nonce": nonce })
}
pub fn proof_by(who: &str, nonce: &str) -> String {
    let k = holder_key(who);
    jwt(&json!({ "alg": "EdDSA", "typ": "openid4vci-proof+jwt", "kid": k.vm }), &proof_claims(nonce), &k.pk)
}
pub fn single(jwt: &str) -> Value {
    json!({ "proof_type": "jwt", "jwt": jwt })
}
pub fn cred_id(token: &str, identifier: &str, proof: Option<&str>) -> Value {
    trim(json!({ "credential_issuer": ISSUER, "access_token": token, "credential_identifier": identifier,
                 "proof": proof.map(single) }))
}
/// Ask for a credential with a good proof by the holder `who`.
pub fn ask(label: &str, token: &str, identifier: &str, who: &str, nonce: &str) -> Result<Out, String> {
    go(label, "credential", cred_id(token, identifier, Some(&proof_by(who, nonce))))
}
/// The (subject DID, claims) of an issued JWT credential.
pub fn subject_of(resp: &Value) -> Option<(String, Value)> {
    let (_, c) = open_jwt(resp["credential"].as_str()?, ISSUER_PK)?;
    let mut sub = c["vc"]["credentialSubject"].clone();
    let id = s(&sub["id"]);
    sub.as_object_mut()?.remove("id");
    Some((id, sub))
}
/// Every error an endpoint may answer with has an OAuth error code.
pub const CODES: [&str; 23] = [
    "invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type", "invalid_scope",
    "invalid_authorization_details", "access_denied", "unsupported_response_type", "server_error", "temporarily_unavailable",
    "invalid_credential_request", "unsupported_credential_type", "unsupported_credential_format", "invalid_proof",
    "invalid_encryption_parameters", "issuance_pending", "invalid_transaction_id", "vp_formats_not_supported",
    "invalid_presentation_definition_uri", "invalid_presentation_definition_reference", "wallet_unavailable", "bad",
];
/// Judge one outcome: `want` says whether the request must be granted.
/// Returns the response when it was and had to be.
pub fn judge(c: &mut Check, key: &str, out: Result<Out, String>, want: bool, ctx: &Value) -> Option<Value> {
    match out {
        Err(p) => {
            c.outcome("panic");
            c.violation(key, json!({ "panic": p, "ctx": ctx }));
            None
        }
        Ok(o) => {
            c.outcome(&o.code());
            if o.is_ok() != want {
                c.violation(key, json!({ "granted": o.is_ok(), "expected": want, "got": o.json(), "ctx": ctx }));
                return None;
            }
            if let Out::Err(_) = &o {
                if !CODES.contains(&o.code().as_str()) {
                    c.violation(key, json!({ "unintelligible error": o.json(), "ctx": ctx }));
                }
            }
            o.ok().cloned()
        }
    }
}
