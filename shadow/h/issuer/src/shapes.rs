//! Artefacts of every shape: one-time artefacts for one, two or three
//! credentials, asked for in every way, with every way of using them.
use crate::token::{fmt_detail, EMP_T};
use crate::util::*;
use crate::wide::by;

pub struct Use {
    pub name: String,
    pub call: Call,
    pub pushed: bool,
}
pub struct Shape {
    pub name: String,
    pub kind: &'static str,
    pub key: String,
    pub life: i64,
    pub world: World,
    pub uses: Vec<Use>,
}
impl Use {
    pub fn go(&self, label: &str) -> Result<Out, String> {
        if self.pushed {
            by(label, "par", self.call.body.clone())
        } else {
            go(label, self.call.ep, self.call.body.clone())
        }
    }
}
fn one(name: &str, c: Call) -> Use {
    Use { name: name.into(), call: c, pushed: false }
}
const SETS: [&[&str]; 5] = [&[EMP], &[MDL], &[EMP, DEV], &[DEV, EMP], &[EMP, DEV, MDL]];

/// Authorization requests for the same things in different words.
fn bodies() -> Vec<(String, Value, Vec<Value>)> {
    let mut v = vec![];
    for set in SETS {
        let d: Vec<Value> = set.iter().map(|c| detail(c)).collect();
        v.push((format!("details {set:?}"), auth_body("alice", set), d));
    }
    let mut b = auth_body("alice", &[]);
    b["authorization_details"] = json!([fmt_detail(&EMP_T)]);
    v.push(("format".into(), b, vec![fmt_detail(&EMP_T)]));
    let claims = json!({ "type": "openid_credential", "credential_configuration_id": EMP,
        "credential_definition": { "credentialSubject": { "email": {}, "family_name": {}, "given_name": {} } } });
    let mut b = auth_body("alice", &[]);
    b["authorization_details"] = json!([claims]);
    v.push(("claims".into(), b, vec![claims]));
    for sc in ["EmployeeIDCredential", "EmployeeIDCredential DeveloperCredential", "DriverLicence EmployeeIDCredential DeveloperCredential"] {
        let mut b = auth_body("alice", &[]);
        b.as_object_mut().unwrap().remove("authorization_details");
        b["scope"] = json!(sc);
        v.push((format!("scope {sc}"), b, vec![]));
    }
    let mut b = auth_body("alice", &[EMP]);
    b["scope"] = json!("DeveloperCredential");
    v.push(("details and scope".into(), b, vec![detail(EMP)]));
    let mut b = auth_body("alice", &[EMP]);
    b["redirect_uri"] = json!(REDIRECT2);
    v.push(("other redirect".into(), b, vec![detail(EMP)]));
    let mut b = auth_body("alice", &[EMP]);
    b["client_id"] = json!(CLIENT2);
    v.push(("other client".into(), b, vec![detail(EMP)]));
    let mut b = auth_body("alice", &[EMP]);
    b.as_object_mut().unwrap().remove("state");
    v.push(("no state".into(), b, vec![detail(EMP)]));
    v
}
fn tokens(code: &str, req: &Value, dets: &[Value]) -> Vec<Use> {
    let mut t = token_auth(code);
    t["client_id"] = req["client_id"].clone();
    t["redirect_uri"] = req["redirect_uri"].clone();
    let mut v = vec![one("token", call("token", t.clone()))];
    if !dets.is_empty() {
        t["authorization_details"] = json!(dets[..1]);
        v.push(one("token for the first", call("token", t.clone())));
        t["authorization_details"] = json!(dets);
        v.push(one("token for all by name", call("token", t)));
    }
    v
}
fn pre_tokens(code: &str, pin: Option<&str>, set: &[&str]) -> Vec<Use> {
    let mut v = vec![];
    for cl in [None, Some(CLIENT), Some(CLIENT2)] {
        let t = token_pre(code, pin, cl);
        v.push(one(&format!("token for {cl:?}"), call("token", t.clone())));
        if cl != Some(CLIENT2) {
            for (n, k) in [("the first", 1), ("all by name", set.len())] {
                let mut t = t.clone();
                t["authorization_details"] = json!(set[..k].iter().map(|c| detail(c)).collect::<Vec<_>>());
                v.push(one(&format!("token for {cl:?} for {n}"), call("token", t)));
            }
        }
    }
    v
}
fn by_state(state: &str) -> Vec<Use> {
    let mut v = vec![];
    for (n, mut b, _) in bodies() {
        b["issuer_state"] = json!(state);
        for pushed in [false, true] {
            v.push(Use { name: format!("authorize {n}{}", if pushed { ", pushed" } else { "" }), call: call("authorize", b.clone()), pushed });
        }
    }
    v
}

pub fn shapes() -> Vec<Shape> {
    let mut out = vec![];
    // offers
    for set in SETS {
        for (gn, grants) in [("pre", vec![PRE]), ("auth", vec![AUTH]), ("both", vec![PRE, AUTH]), ("none", vec![])] {
            for pin in [false, true] {
                for byref in [false, true] {
                    if pin && !grants.contains(&PRE) || grants.is_empty() && !byref {
                        continue;
                    }
                    let name = format!("offer {set:?} {gn}{}{}", if pin { " PIN" } else { "" }, if byref { " by reference" } else { "" });
                    load(&fresh());
                    let r = must("so", "create_offer", offer_body("alice", set, &grants, pin, byref));
                    let pin = r["tx_code"].as_str().map(String::from);
                    let w = save();
                    let offer = if byref {
                        let id = s(&r["credential_offer_uri"]).rsplit('/').next().unwrap().to_string();
                        let get = call("credential_offer", json!({ "credential_issuer": ISSUER, "id": id }));
                        let o = must("sf", "credential_offer", get.body.clone());
                        out.push(Shape { name: name.clone(), kind: "offer reference", key: id, life: 300, world: w.clone(), uses: vec![one("fetch", get)] });
                        if o.get("credential_offer").is_some() { o["credential_offer"].clone() } else { o }
                    } else {
                        r["credential_offer"].clone()
                    };
                    if let Some(k) = offer["grants"][PRE]["pre-authorized_code"].as_str() {
                        let both = grants.len() > 1;
                        let mut uses = pre_tokens(k, pin.as_deref(), set);
                        if both {
                            uses.extend(by_state(k).into_iter().step_by(5));
                        }
                        let kind = match (both, &pin) {
                            (true, _) => "code of an offer with both grants",
                            (_, Some(_)) => "pre-authorized code with PIN",
                            _ => "pre-authorized code",
                        };
                        out.push(Shape { name, kind, key: k.into(), life: 300, world: w, uses });
                    } else if let Some(k) = offer["grants"][AUTH]["issuer_state"].as_str() {
                        out.push(Shape { name, kind: "issuer_state", key: k.into(), life: 300, world: w, uses: by_state(k) });
                    }
                }
            }
        }
    }
    // codes and pushed requests
    for (n, body, dets) in bodies() {
        for how in ["direct", "pushed", "offered"] {
            load(&fresh());
            let mut b = body.clone();
            if how == "offered" {
                b["issuer_state"] = must("si", "create_offer", offer_body("alice", &[EMP, DEV, MDL], &[AUTH], false, false))["credential_offer"]["grants"][AUTH]["issuer_state"].clone();
            }
            if how == "pushed" {
                let r = must("sp", "par", b.clone());
                let u = one("authorize", call("authorize", json!({ "client_id": b["client_id"], "request_uri": r["request_uri"] })));
                out.push(Shape { name: n.clone(), kind: "request_uri", key: s(&r["request_uri"]), life: 600, world: save(), uses: vec![u] });
            }
            let Ok(Out::Ok(r)) = by("sa", if how == "pushed" { "par" } else { "authorize" }, b.clone()) else { panic!("no code: {n} {how}") };
            let k = s(&r["code"]);
            let uses = tokens(&k, &b, &dets);
            out.push(Shape { name: format!("{n}, {how}"), kind: "authorization code", key: k, life: 300, world: save(), uses });
        }
    }
    // deferred credentials
    for (conf, ident) in NAMES {
        for how in ["identifier", "format", "proofs"] {
            load(&fresh());
            let (tok, nonce) = pre_token("sd", "alice", &[EMP, DEV, MDL]);
            let proof = proof_by("alice", &nonce);
            let mut b = cred_id(&tok, ident, Some(&proof));
            let o = b.as_object_mut().unwrap();
            match how {
                "format" => {
                    o.remove("credential_identifier");
                    if conf == MDL {
                        o.insert("format".into(), json!("mso_mdoc"));
                        o.insert("doctype".into(), json!("org.iso.18013.5.1.mDL"));
                    } else {
                        o.insert("format".into(), json!("jwt_vc_json"));
                        o.insert("credential_definition".into(), json!({ "type": ["VerifiableCredential", if conf == EMP { "EmployeeIDCredential" } else { "DeveloperCredential" }] }));
                    }
                }
                "proofs" => {
                    o.remove("proof");
                    o.insert("proofs".into(), json!({ "jwt": [proof, proof] }));
                }
                _ => {}
            }
            crate::expiry::pending("alice", ident, true);
            let r = must("sc", "credential", b);
            crate::expiry::pending("alice", ident, false);
            let k = s(&r["transaction_id"]);
            let u = one("poll", call("deferred", json!({ "credential_issuer": ISSUER, "access_token": tok, "transaction_id": k })));
            out.push(Shape { name: format!("{ident} by {how}"), kind: "transaction id", key: k, life: 0, world: save(), uses: vec![u] });
        }
    }
    out
}

/// C20: whatever the first use, no use is granted afterwards.
pub fn once(c: &mut Check) {
    let all = shapes();
    c.bound("shapes of artefacts", all.len());
    for sh in &all {
        for u in &sh.uses {
            let key = format!("shape/{}/{}/{}", sh.kind, sh.name, u.name);
            load(&sh.world);
            let first = u.go("u1");
            let w = save();
            let ctx = json!({ "artefact": sh.kind, "of": sh.name, "first": u.name });
            if c.case(&key) {
                c.transition();
                c.validated();
                judge(c, &key, first, true, &ctx);
            }
            for v in &sh.uses {
                let key = format!("{key}/{}", v.name);
                if !c.case(&key) {
                    continue;
                }
                c.transition();
                c.validated();
                load(&w);
                judge(c, &key, v.go("u2"), false, &json!({ "artefact": sh.kind, "of": sh.name, "first": u.name, "then": v.name }));
            }
        }
    }
}
/// C22: every shape lives as long as its kind, for every use.
pub fn lives(c: &mut Check) {
    for sh in shapes() {
        if sh.life == 0 {
            continue;
        }
        for u in &sh.uses {
            // a pushed request looks at the artefact twice
            for expunge in [false, true] {
                for age in [sh.life - 1, sh.life + 1] {
                    let key = format!("shape/{}/{}/{}/{age}/{expunge}", sh.kind, sh.name, u.name);
                    if !c.case(&key) {
                        continue;
                    }
                    c.distinct(&key);
                    let mut w = sh.world.clone();
                    w.expunge = expunge;
                    load(&w);
                    clock::advance(age);
                    judge(c, &key, u.go("ul"), age < sh.life, &json!({ "artefact": sh.kind, "of": sh.name, "use": u.name, "age": age, "store drops expired entries": expunge }));
                }
            }
        }
    }
}
