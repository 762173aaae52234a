//! C40: the decision does not depend on what else the credential, the
//! descriptor or the submission says.
use crate::accept::*;
use mc::{clock, gen, Check};
use serde_json::{json, Value};
use world::verifier::{go, VERIFIER_ID};
use world::{jwt, load, save};

/// Members a credential may have or lack: (name, pointer, value; null removes).
fn of_credential() -> Vec<(&'static str, Vec<(&'static str, Value)>)> {
    vec![
        ("no id", vec![("/vc/id", Value::Null), ("/jti", json!(""))]),
        ("no validFrom", vec![("/vc/validFrom", Value::Null)]),
        ("valid from now", vec![("/vc/validFrom", json!(date(clock::EPOCH)))]),
        ("named", vec![("/vc/name", json!("A credential")), ("/vc/description", json!("valid"))]),
        ("status", vec![("/vc/credentialStatus", json!({ "id": "http://vercre.io/status#1", "type": "BitstringStatusListEntry", "statusPurpose": "revocation", "statusListIndex": 1, "statusListCredential": "http://vercre.io/status" }))]),
        ("schema", vec![("/vc/credentialSchema", json!({ "id": "http://vercre.io/schema", "type": "JsonSchema" }))]),
        ("terms", vec![("/vc/termsOfUse", json!({ "id": "http://vercre.io/terms", "type": "Terms" }))]),
        ("evidence", vec![("/vc/evidence", json!({ "type": ["Seen"] }))]),
        ("refresh", vec![("/vc/refreshService", json!({ "url": "http://vercre.io/refresh", "type": "Refresh", "refreshToken": "t" }))]),
        ("issuer described", vec![("/vc/issuer", json!({ "id": "http://vercre.io", "name": "Vercre" }))]),
        ("no subject id", vec![("/vc/credentialSubject", json!({ "employeeId": "1" }))]),
        ("more claims", vec![("/vc/credentialSubject", json!({ "id": "did:example:alice", "employeeId": "1", "validUntil": "2999-01-01T00:00:00Z", "type": "EmployeeID", "list": [1, {}, null] }))]),
        ("two subjects", vec![("/vc/credentialSubject", json!([{ "id": "did:example:alice", "employeeId": "1" }, { "id": "did:example:bob", "employeeId": "2" }]))]),
        ("a subject in a list", vec![("/vc/credentialSubject", json!([{ "id": "did:example:alice", "employeeId": "1" }]))]),
        ("more contexts", vec![("/vc/@context", json!(["https://www.w3.org/2018/credentials/v1", { "a": "b" }, "http://vercre.io/credentials/v1"]))]),
        ("other issuer", vec![("/vc/issuer", json!("http://other.example")), ("/iss", json!("http://other.example"))]),
        ("issued now", vec![("/iat", json!(clock::EPOCH)), ("/nbf", json!(clock::EPOCH))]),
    ]
}
/// Members a descriptor may have.
fn of_descriptor() -> Vec<(&'static str, Vec<(&'static str, Value)>)> {
    vec![
        ("named", vec![("/name", json!("Employee"))]),
        ("purpose", vec![("/purpose", json!("to know"))]),
        ("format", vec![("/format", json!({ "jwt_vc_json": { "alg": ["EdDSA"] } }))]),
        ("formats", vec![("/format", json!({ "jwt_vc_json": { "alg": ["EdDSA"] }, "ldp_vc": { "proof_type": ["DataIntegrityProof"] } }))]),
        ("limit required", vec![("/constraints/limit_disclosure", json!("required"))]),
        ("limit preferred", vec![("/constraints/limit_disclosure", json!("preferred"))]),
        ("field named", vec![("/constraints/fields/0/name", json!("type")), ("/constraints/fields/0/purpose", json!("p"))]),
        ("field id", vec![("/constraints/fields/0/id", json!("f"))]),
        ("field not optional", vec![("/constraints/fields/0/optional", json!(false))]),
        ("field optional", vec![("/constraints/fields/0/optional", json!(true))]),
        ("retain", vec![("/constraints/fields/0/intent_to_retain", json!(true))]),
        ("predicate", vec![("/constraints/fields/0/predicate", json!("preferred"))]),
        ("two paths", vec![("/constraints/fields/0/path", json!(["$.nothing", "$.type"]))]),
        ("two fields", vec![("/constraints/fields/1", json!({ "path": ["$.credentialSubject"] }))]),
    ]
}
fn put(v: &mut Value, at: &str, x: &Value) {
    let (dir, name) = at.rsplit_once('/').unwrap();
    match v.pointer_mut(dir) {
        Some(Value::Object(o)) if x.is_null() => drop(o.remove(name)),
        Some(Value::Object(o)) => drop(o.insert(name.into(), x.clone())),
        Some(Value::Array(a)) => a.push(x.clone()),
        _ => {}
    }
}
fn subsets(n: usize, upto: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for k in 1..=upto {
        v.extend(gen::words(n, k).into_iter().filter(|w| w.windows(2).all(|p| p[0] < p[1])));
    }
    v
}
pub fn response(c: &mut Check) {
    let (cm, dm) = (of_credential(), of_descriptor());
    let upto = c.pick(2, 3);
    c.bound("members added or left out together", upto);
    // what is wrong with the credential, if anything
    let kinds: [(&str, Option<i64>, &str, bool); 6] = [
        ("good", None, "EmployeeID", true),
        ("valid for an hour", Some(3600), "EmployeeID", true),
        ("expired a second ago", Some(-1), "EmployeeID", false),
        ("expired a minute ago", Some(-60), "EmployeeID", false),
        ("expired long ago", Some(-86_400 * 400), "EmployeeID", false),
        ("other type", None, "Licence", false),
    ];
    for cross in [true, false] {
        let mut worlds = vec![];
        for ds in subsets(dm.len(), upto) {
            let mut d = descriptor("d0", "EmployeeID");
            for i in &ds {
                for (at, x) in &dm[*i].1 {
                    put(&mut d, at, x);
                }
            }
            load(&fresh());
            let name: Vec<&str> = ds.iter().map(|i| dm[*i].0).collect();
            let req = make("mr", VERIFIER_ID, cross, json!([d]));
            worlds.push((name, req, save()));
        }
        for cs in subsets(cm.len(), upto) {
            let cname: Vec<&str> = cs.iter().map(|i| cm[*i].0).collect();
            for (wi, (dname, req, w)) in worlds.iter().enumerate() {
                // members of both only one at a time
                if !cs.is_empty() && wi > 0 && cs.len() + dname.len() > upto {
                    continue;
                }
                for (kname, until, ty, want) in &kinds {
                    let key = format!("members/{cross}/{cname:?}/{dname:?}/{kname}");
                    if !c.case(&key) {
                        continue;
                    }
                    c.distinct(&key);
                    let mut cl = vc_claims(vc_json(ty, until.map(|u| clock::EPOCH + u)));
                    for i in &cs {
                        for (at, x) in &cm[*i].1 {
                            put(&mut cl, at, x);
                        }
                    }
                    load(w);
                    let vc = jwt(&json!({ "alg": "EdDSA", "typ": "jwt", "kid": "did:example:issuer#k0" }), &cl, "pk-issuer-0");
                    let vp = vp_signed(0, &vp_claims(&req.nonce, &req.client, &[json!(vc)]));
                    let b = json!({ "vp_token": [vp], "state": req.state, "presentation_submission": { "id": "s", "definition_id": req.def, "descriptor_map": [
                        { "id": "d0", "format": "jwt_vc_json", "path": "$", "path_nested": { "format": "jwt_vc_json", "path": "$.verifiableCredential[0]" } }] } });
                    judge(c, &key, &go("members", "response", b), *want, &json!({ "credential": cl, "descriptor": req.descs }));
                }
            }
        }
    }
}

/// Descriptors that share an id, and mappings that repeat one: whatever is
/// accepted has, for every descriptor, a mapped credential that satisfies it.
pub fn repeated(c: &mut Check) {
    let types = ["EmployeeID", "Licence"];
    let upto = c.pick(2, 3);
    for n in 1..=upto {
        for dt in gen::words(2, n) {
            for ids in gen::words(2, n) {
                load(&fresh());
                let descs: Vec<Value> = (0..n).map(|i| descriptor(&format!("d{}", ids[i]), types[dt[i]])).collect();
                let req = make("rp", VERIFIER_ID, true, json!(descs));
                let w = save();
                for vt in gen::words(2, 2) {
                    let vcs: Vec<Value> = vt.iter().map(|t| {
                        json!(jwt(&json!({ "alg": "EdDSA", "typ": "jwt", "kid": "did:example:issuer#k0" }), &vc_claims(vc_json(types[*t], None)), "pk-issuer-0"))
                    }).collect();
                    for m in gen::words_upto(4, upto).into_iter().filter(|m| !m.is_empty()) {
                        let key = format!("repeated/{dt:?}/{ids:?}/{vt:?}/{m:?}");
                        if !c.case(&key) {
                            continue;
                        }
                        c.distinct(&key);
                        load(&w);
                        let vp = vp_signed(0, &vp_claims(&req.nonce, &req.client, &vcs));
                        let map: Vec<Value> = m.iter().map(|x| json!({ "id": format!("d{}", x / 2), "format": "jwt_vc_json", "path": "$", "path_nested": { "format": "jwt_vc_json", "path": format!("$.verifiableCredential[{}]", x % 2) } })).collect();
                        let b = json!({ "vp_token": [vp], "state": req.state, "presentation_submission": { "id": "s", "definition_id": req.def, "descriptor_map": map } });
                        // every mapping of the descriptor's id satisfies it, or none does
                        let of = |i: usize| m.iter().filter(|x| **x / 2 == ids[i]).map(|x| vt[x % 2] == dt[i]).collect::<Vec<_>>();
                        let all = (0..n).all(|i| !of(i).is_empty() && of(i).iter().all(|x| *x));
                        let none = (0..n).any(|i| !of(i).iter().any(|x| *x));
                        let out = go("repeated", "response", b);
                        let ctx = json!({ "descriptors": req.descs, "credentials": vt, "map": map });
                        match &out {
                            // which of two mappings counts is left open
                            Ok(_) if !all && !none => c.outcome("left open"),
                            _ => drop(judge(c, &key, &out, all, &ctx)),
                        }
                    }
                }
            }
        }
    }
}
