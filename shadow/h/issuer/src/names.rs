//! Names of every kind: issuance in which the issuer, the user, the client, the
//! redirect URI, the configuration, the identifier or the scope is called
//! something unusual. Every name means just itself.
use crate::util::*;

const FIELDS: [(&str, &str); 7] =
    [("issuer", ISSUER), ("subject", "alice"), ("client", CLIENT), ("redirect", REDIRECT), ("configuration", EMP), ("identifier", "PHLEmployeeID"), ("scope", "EmployeeIDCredential")];

fn texts(base: &str) -> Vec<String> {
    let mut v = vec![base.to_string()];
    v.extend(gen::near(base));
    v.extend(["A", "é ü/ñ", "a&b=c%20d+e", "{\"a\":1}", "urn:x:Y", "[]", "0", "did:web:x.example:Y", "a;b,c|d", "\u{1F600}", "openid-wallet://cb", "app.scheme:/Cb?x=y"].map(String::from));
    v.extend([31, 64, 256, 1025].map(|n| "Nn".repeat(n)));
    v.retain(|x| !x.trim().is_empty());
    v
}
fn data(id: &str) -> Value {
    json!({ "given_name": format!("of {id}"), "family_name": "F", "email": "e", "proficiency": "3" })
}
fn set(n: &[String], near: bool) -> World {
    let [issuer, subject, client, redirect, conf, ident, scope] = n else { unreachable!() };
    let mut i = issuer_json();
    i["credential_issuer"] = json!(issuer);
    let all = i["credential_configurations_supported"].as_object_mut().unwrap();
    let mut e = all.remove(EMP).unwrap();
    e["scope"] = json!(scope);
    all.insert(conf.clone(), e);
    let mut sv = server_json();
    sv["issuer"] = json!(issuer);
    let mut cl = client_json(client);
    // the usual ones exist beside the unusual
    cl["redirect_uris"] = if near { json!([REDIRECT, redirect]) } else { json!([redirect]) };
    let mut clients = vec![cl];
    if near && client != CLIENT {
        clients.insert(0, client_json(CLIENT));
    }
    let mut k = world::issuer::cfg(i, sv, clients);
    if !near {
        k.authz.clear();
    }
    k.authz.insert((subject.clone(), conf.clone()), vec![ident.clone()]);
    k.authz.insert((subject.clone(), DEV.into()), vec!["PHLDeveloper".into()]);
    let mut w = world::issuer::world(k);
    if !near {
        w.datasets.clear();
    }
    for d in [ident.as_str(), "PHLDeveloper"] {
        w.datasets.insert((subject.clone(), d.to_string()), (data(d), false));
    }
    w
}
fn flow(n: &[String], how: &str, near: bool) -> Result<Vec<(String, Value)>, String> {
    let [issuer, subject, client, redirect, conf, ident, scope] = n else { unreachable!() };
    load(&set(n, near));
    let ok = |what: &str, o: Result<Out, String>| match o {
        Ok(Out::Ok(r)) => Ok(r),
        o => Err(format!("{what}: {o:?}")),
    };
    let by_scope = how.ends_with("scope");
    let t = if how.starts_with("pre") {
        let b = json!({ "credential_issuer": issuer, "subject_id": subject, "credential_configuration_ids": [conf, DEV], "grant_types": [PRE], "tx_code_required": true, "send_type": "ByRef" });
        let r = ok("create_offer", go("n1", "create_offer", b))?;
        let uri = s(&r["credential_offer_uri"]);
        let id = uri.strip_prefix(&format!("{issuer}/credential_offer/")).ok_or(format!("offer at {uri}"))?;
        let o = ok("credential_offer", go("n2", "credential_offer", json!({ "credential_issuer": issuer, "id": id })))?;
        let o = o["credential_offer"].as_object().map_or(o.clone(), |x| Value::Object(x.clone()));
        if o["credential_issuer"] != json!(issuer) || o["credential_configuration_ids"] != json!([conf, DEV]) {
            return Err(format!("offer {o}"));
        }
        let mut b = token_pre(&s(&o["grants"][PRE]["pre-authorized_code"]), r["tx_code"].as_str(), Some(client));
        b["credential_issuer"] = json!(issuer);
        b["authorization_details"] = json!([detail(conf), detail(DEV)]);
        ok("token", go("n3", "token", b))?
    } else {
        let mut b = auth_body(subject, &[conf, DEV]);
        b["credential_issuer"] = json!(issuer);
        b["client_id"] = json!(client);
        b["redirect_uri"] = json!(redirect);
        if by_scope {
            b.as_object_mut().unwrap().remove("authorization_details");
            b["scope"] = json!(scope);
        }
        let r = ok("authorization", crate::wide::by("n4", how.split(' ').next().unwrap(), b))?;
        if r["redirect_uri"] != json!(redirect) || r["state"] != "st-1" {
            return Err(format!("authorization response {r}"));
        }
        let mut b = token_auth(&s(&r["code"]));
        b["credential_issuer"] = json!(issuer);
        b["client_id"] = json!(client);
        b["redirect_uri"] = json!(redirect);
        ok("token", go("n5", "token", b))?
    };
    let mut got = vec![];
    let mut nonce = s(&t["c_nonce"]);
    let mut given: Vec<(String, Vec<String>)> = crate::authz::granted(&t);
    given.sort();
    let mut want: Vec<(String, Vec<String>)> = vec![(conf.clone(), vec![ident.clone()]), (DEV.into(), vec!["PHLDeveloper".into()])];
    want.sort();
    if !by_scope && given != want {
        return Err(format!("token response grants {given:?}"));
    }
    for id in [ident.as_str(), "PHLDeveloper"].iter().take(if by_scope { 1 } else { 2 }) {
        let mut cl = proof_claims(&nonce);
        cl["aud"] = json!(issuer);
        let k = holder_key("alice");
        let proof = jwt(&json!({ "alg": "EdDSA", "typ": "openid4vci-proof+jwt", "kid": k.vm }), &cl, &k.pk);
        let mut b = cred_id(&s(&t["access_token"]), id, Some(&proof));
        b["credential_issuer"] = json!(issuer);
        let r = ok("credential", go("n6", "credential", b))?;
        nonce = s(&r["c_nonce"]);
        let pk = if issuer == ISSUER { ISSUER_PK } else { "pk-issuer2-0" };
        let (_, cl) = open_jwt(&s(&r["credential"]), pk).ok_or(format!("not signed by the issuer: {r}"))?;
        if cl["iss"] != json!(issuer) || cl["vc"]["issuer"] != json!(issuer) {
            return Err(format!("issued by {cl}"));
        }
        got.push((s(&cl["vc"]["type"][1]), cl["vc"]["credentialSubject"]["given_name"].clone()));
    }
    Ok(got)
}
pub fn flows(c: &mut Check, how: &str) {
    let base: Vec<String> = FIELDS.iter().map(|f| f.1.to_string()).collect();
    for (at, (what, std)) in FIELDS.iter().enumerate() {
        let all = texts(std);
        c.bound(&format!("names of the {what}"), all.len());
        for x in all {
            // scopes are words
            if *what == "scope" && x.contains(char::is_whitespace) {
                continue;
            }
            let mut n = base.clone();
            n[at] = x.clone();
            for (near, how) in [(false, how.to_string()), (true, how.to_string()), (false, format!("{how} scope")), (true, format!("{how} scope"))] {
                let key = format!("names/{what}/{x:?}/{how}/{near}");
                if how == "pre scope" || !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let got = mc::guard(|| flow(&n, &how, near));
                let mut want = vec![("EmployeeIDCredential".to_string(), data(&n[5])["given_name"].clone())];
                if !how.ends_with("scope") {
                    want.push(("DeveloperCredential".to_string(), data("PHLDeveloper")["given_name"].clone()));
                }
                c.outcome("issued");
                c.expect(got == Ok(Ok(want.clone())), &key, || json!({ "got": format!("{got:?}"), "expected": want, "names": n }));
            }
        }
    }
}
