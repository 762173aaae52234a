//! Building blocks of the wallet scenarios.
pub use mc::{clock, gen, Check};
pub use serde_json::{json, Value};
pub use world::holder::{go, state};
pub use world::issuer::{CLIENT, DEV, EMP, ISSUER, ISSUER_PK, PRE, REDIRECT};
pub use world::{jwt, load, open_jwt, save, with, Out, Tamper, World};

pub const AUTH: &str = "authorization_code";

pub fn s(v: &Value) -> String {
    v.as_str().unwrap_or_default().to_string()
}
pub fn fresh() -> World {
    let mut w = world::issuer::world(world::issuer::std_cfg());
    w.vcfg = world::verifier::std_vcfg().into();
    w
}
pub fn ident(conf: &str) -> &'static str {
    if conf == EMP { "PHLEmployeeID" } else { "PHLDeveloper" }
}
/// An offer made by the real issuer: (offer, PIN).
pub fn make_offer(label: &str, confs: &[&str], grants: &[&str], pin: bool) -> (Value, String) {
    let body = json!({ "credential_issuer": ISSUER, "subject_id": "alice", "credential_configuration_ids": confs, "grant_types": grants,
                       "tx_code_required": pin, "send_type": "ByVal" });
    match world::issuer::go(label, "create_offer", body.clone()) {
        Ok(Out::Ok(r)) => (r["credential_offer"].clone(), s(&r["tx_code"])),
        o => std::panic::panic_any(format!("scenario: create_offer {body} gave {o:?}")),
    }
}
pub fn offer_req(offer: &Value) -> Value {
    json!({ "client_id": CLIENT, "subject_id": "alice", "offer": offer })
}
pub fn must(label: &str, ep: &'static str, body: Value) -> Value {
    match go(label, ep, body.clone()) {
        Ok(Out::Ok(v)) => v,
        o => std::panic::panic_any(format!("scenario step {label}: {ep} {body} gave {o:?}")),
    }
}
/// Answers of a kind the wallet got in the last call.
pub fn got(ep: &str) -> Vec<Option<Value>> {
    with(|w| w.got.iter().filter(|(e, _)| e == ep).map(|(_, v)| v.clone()).collect())
}
pub fn sent(ep: &str) -> Vec<Value> {
    with(|w| w.sent.iter().filter(|(e, _)| e == ep).map(|(_, v)| v.clone()).collect())
}
/// The credential JWTs the wallet has stored.
pub fn stored() -> Vec<String> {
    let mut v: Vec<String> = with(|w| w.creds.values().map(|c| s(&c["issued"])).collect());
    v.sort();
    v
}
