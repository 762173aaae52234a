//! Names of every kind: whole flows in which the issuer, the user, the client,
//! the redirect URI, the configurations, the identifiers or the verifier are
//! called something unusual. The wallet passes every name on as it is.
use world::issuer::{client_json, issuer_json, server_json};

use crate::util::*;

const FIELDS: [(&str, &str); 7] =
    [("issuer", ISSUER), ("subject", "alice"), ("client", CLIENT), ("redirect", REDIRECT), ("configuration", EMP), ("identifier", "PHLEmployeeID"), ("scope", "EmployeeIDCredential")];

fn data(id: &str) -> Value {
    json!({ "given_name": format!("of {id}"), "family_name": "F", "email": "e", "proficiency": "3" })
}
fn texts(base: &str) -> Vec<String> {
    let mut v = vec![base.to_string()];
    v.extend(gen::near(base));
    v.extend(["A", "é ü/ñ", "a&b=c%20d+e", "{\"a\":1}", "urn:x:Y", "[]", "0", "did:web:x.example:Y", "a;b,c|d", "\u{1F600}"].map(String::from));
    v.extend([31, 64, 256, 1025].map(|n| "Nn".repeat(n)));
    v.retain(|x| !x.trim().is_empty());
    v
}
fn set(n: &[String]) -> World {
    let [issuer, subject, client, redirect, conf, ident, scope] = n else { unreachable!() };
    let mut i = issuer_json();
    i["credential_issuer"] = json!(issuer);
    let all = i["credential_configurations_supported"].as_object_mut().unwrap();
    let mut e = all.remove(EMP).unwrap();
    e["scope"] = json!(scope);
    all.insert(conf.clone(), e);
    let mut sv = server_json();
    sv["issuer"] = json!(issuer);
    let mut cl = client_json(client);
    cl["redirect_uris"] = json!([redirect]);
    let mut k = world::issuer::cfg(i, sv, vec![cl]);
    k.authz.clear();
    k.authz.insert((subject.clone(), conf.clone()), vec![ident.clone()]);
    k.authz.insert((subject.clone(), DEV.into()), vec!["PHLDeveloper".into()]);
    let mut w = world::issuer::world(k);
    w.datasets.clear();
    for d in [ident.as_str(), "PHLDeveloper"] {
        w.datasets.insert((subject.clone(), d.to_string()), (data(d), false));
    }
    w.vcfg = world::verifier::std_vcfg().into();
    w
}
fn flow(n: &[String], grant: &str) -> Vec<(String, Value)> {
    let [issuer, subject, client, redirect, conf, _, scope] = n else { unreachable!() };
    load(&set(n));
    let mut sent = vec![];
    let mut call = |label: &str, ep: &'static str, b: Value| {
        let r = must(label, ep, b);
        with(|w| sent.append(&mut w.sent));
        r
    };
    let mut format = Value::Null;
    let id = if grant.starts_with("wallet") {
        let mut b = json!({ "initiator": { "Wallet": { "client_id": client, "issuer": issuer, "subject_id": subject } }, "redirect_uri": redirect });
        if grant == "wallet" {
            b["authorization_details"] = [conf.as_str(), DEV].map(|c| json!({ "type": "openid_credential", "credential_configuration_id": c })).to_vec().into();
        } else {
            b["initiator"]["Wallet"]["scope"] = json!(scope);
            format = with(|w| serde_json::to_value(&w.icfg.issuers[issuer].credential_configurations_supported[conf].format).unwrap());
        }
        s(&call("na", "authorize", b)["issuance_id"])
    } else {
        let grants: &[&str] = if grant == "code" { &[AUTH] } else { &[PRE] };
        let b = json!({ "credential_issuer": issuer, "subject_id": subject, "credential_configuration_ids": [conf, DEV], "grant_types": grants, "tx_code_required": grant == "pin", "send_type": "ByVal" });
        let r = match world::issuer::go("no", "create_offer", b.clone()) {
            Ok(Out::Ok(r)) => r,
            o => std::panic::panic_any(format!("scenario: create_offer {b} gave {o:?}")),
        };
        let f = call("nf", "offer", json!({ "client_id": client, "subject_id": subject, "offer": r["credential_offer"] }));
        let mut told: Vec<&String> = f["offered"].as_object().into_iter().flatten().map(|x| x.0).collect();
        told.sort();
        let mut offered = vec![conf.as_str(), DEV];
        offered.sort_unstable();
        if f["issuer"] != json!(issuer) || told != offered {
            std::panic::panic_any(format!("the holder is told of another offer: {f}"));
        }
        let id = s(&f["issuance_id"]);
        call("nx", "accept", json!({ "issuance_id": id, "accept": null }));
        if grant == "pin" {
            call("np", "pin", json!({ "issuance_id": id, "pin": r["tx_code"] }));
        }
        if grant == "code" {
            call("na", "authorize", json!({ "initiator": { "Issuer": { "issuance_id": id } }, "redirect_uri": redirect }));
        } else {
            call("nt", "token", json!(id));
        }
        id
    };
    call("nc", "credentials", json!({ "issuance_id": id, "credential_identifiers": null, "format": format }));
    call("ns", "save", json!({ "issuance_id": id }));
    sent
}
/// Whole flows under unusual names.
pub fn flows(c: &mut Check) {
    let base: Vec<String> = FIELDS.iter().map(|f| f.1.to_string()).collect();
    for (at, (what, std)) in FIELDS.iter().enumerate() {
        let all = texts(std);
        c.bound(&format!("names of the {what}"), all.len());
        for x in all {
            // scopes are words
            if *what == "scope" && x.contains(char::is_whitespace) {
                continue;
            }
            let mut n = base.clone();
            n[at] = x.clone();
            for grant in ["pre", "pin", "code", "wallet", "wallet scope"] {
                let key = format!("names/{what}/{x:?}/{grant}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let sent = match mc::guard(|| flow(&n, grant)) {
                    Err(p) => {
                        c.violation(&key, json!({ "not delivered": p }));
                        continue;
                    }
                    Ok(s) => s,
                };
                c.outcome("stored");
                judge(c, &key, &n, grant, &sent);
            }
        }
    }
}
fn judge(c: &mut Check, key: &str, n: &[String], grant: &str, sent: &[(String, Value)]) {
    let [issuer, subject, client, redirect, conf, ident, scope] = n else { unreachable!() };
    for (ep, r) in sent {
        let mut want = json!({ "credential_issuer": issuer });
        match ep.as_str() {
            "authorize" => {
                want["client_id"] = json!(client);
                want["subject_id"] = json!(subject);
                want["redirect_uri"] = json!(redirect);
                if grant == "wallet scope" {
                    want["scope"] = json!(scope);
                } else {
                    let asked: Vec<&Value> = r["authorization_details"].as_array().into_iter().flatten().map(|d| &d["credential_configuration_id"]).collect();
                    c.expect(asked == [&json!(conf), &json!(DEV)], key, || json!({ "asked for": asked, "instead of": conf }));
                }
            }
            "token" => {
                want["client_id"] = json!(client);
                if !matches!(grant, "pre" | "pin") {
                    want["redirect_uri"] = json!(redirect);
                }
            }
            "credential" => {
                let (_, cl) = open_jwt(&s(&r["proof"]["jwt"]), "pk-alice-0").unwrap_or_default();
                c.expect(cl["aud"] == json!(issuer) && cl["iss"] == json!(client), key, || json!({ "proof": cl, "names": n }));
                if grant != "wallet scope" {
                    c.expect(r["credential_identifier"] == json!(ident) || r["credential_identifier"] == "PHLDeveloper", key, || json!({ "asked for": r, "names": n }));
                }
            }
            "metadata" | "oauth_server" => {}
            _ => continue,
        }
        for (k, v) in want.as_object().unwrap() {
            c.expect(r[k] == *v, key, || json!({ "endpoint": ep, "member": k, "sent": r, "expected": v }));
        }
    }
    let pk = if issuer == ISSUER { ISSUER_PK } else { "pk-issuer2-0" };
    let kept: Vec<(Value, Value)> = with(|w| w.creds.values().cloned().collect::<Vec<_>>())
        .iter()
        .map(|k| {
            let (_, cl) = open_jwt(&s(&k["issued"]), pk).unwrap_or_default();
            c.expect(k["issuer"] == json!(issuer), key, || json!({ "stored as issued by": k["issuer"], "issuer": issuer }));
            (cl["vc"]["type"][1].clone(), cl["vc"]["credentialSubject"]["given_name"].clone())
        })
        .collect();
    let mut want = vec![(json!("EmployeeIDCredential"), data(ident)["given_name"].clone())];
    if grant != "wallet scope" {
        want.push((json!("DeveloperCredential"), data("PHLDeveloper")["given_name"].clone()));
    }
    c.expect(kept.len() == want.len() && want.iter().all(|x| kept.contains(x)), key, || json!({ "stored": kept, "expected": want }));
}
