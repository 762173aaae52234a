//! C24: what an issued credential says.
use crate::expiry::pending;
use crate::util::*;

const CTX: &str = "https://www.w3.org/2018/credentials/v1";

/// Sizes beyond the hand-written cases.
const MANY: [usize; 5] = [4, 6, 9, 17, 40];

fn datasets() -> Vec<(&'static str, Value)> {
    let mut v = few_datasets();
    for n in MANY {
        let mut d: Map<String, Value> = (0..n).map(|i| (format!("claim{i}"), json!({ "v": vec![i; n] }))).collect();
        d.insert("email".into(), json!("m".repeat(n * 10)));
        v.push((["4 claims", "6 claims", "9 claims", "17 claims", "40 claims"][MANY.iter().position(|m| *m == n).unwrap()], Value::Object(d)));
    }
    v
}
fn few_datasets() -> Vec<(&'static str, Value)> {
    vec![
        ("standard", json!({ "given_name": "G", "family_name": "F", "email": "e@x", "address": { "street_address": "1 St", "locality": "W" } })),
        ("empty", json!({})),
        ("one", json!({ "email": "e" })),
        ("nested", json!({ "address": { "street_address": { "a": [1, 2, { "b": null }] } }, "email": ["x", ["y"]] })),
        ("kinds", json!({ "email": 1, "given_name": true, "family_name": null, "n": -3.5, "big": 18_446_744_073_709_551_615u64 })),
        ("unicode", json!({ "given_name": "é\u{1F600}\"\\\n", "ключ": "знач", "": "empty name" })),
        ("undeclared", json!({ "given_name": "G", "shoe_size": 43, "type": "t", "vc": {}, "claims": { "x": 1 } })),
        ("other order", json!({ "z": 1, "a": 2, "m": 3, "email": "e", "address": {} })),
    ]
}
fn displays() -> Vec<(&'static str, Value)> {
    let mut v = few_displays();
    for n in [4usize, 5, 7, 9, 12] {
        let all: Vec<Value> = (0..n)
            .map(|i| {
                let mut e = json!({ "name": format!("Name {i}"), "locale": format!("l{i}") });
                if i % 3 != 1 {
                    e["description"] = json!(format!("Description {i}"));
                }
                e
            })
            .collect();
        v.push((["4 displays", "5 displays", "7 displays", "9 displays", "12 displays"][[4, 5, 7, 9, 12].iter().position(|m| *m == n).unwrap()], json!(all)));
    }
    v
}
fn few_displays() -> Vec<(&'static str, Value)> {
    vec![
        ("one", json!([{ "name": "Employee", "description": "D", "locale": "en-NZ" }])),
        ("absent", Value::Null),
        ("empty", json!([])),
        ("no description", json!([{ "name": "Employee", "locale": "en-NZ" }])),
        ("no locale", json!([{ "name": "Employee", "description": "D" }])),
        ("two", json!([{ "name": "Employee", "description": "D", "locale": "en" }, { "name": "Employé", "description": "F", "locale": "fr" }])),
        ("two, one described", json!([{ "name": "Employee", "locale": "en" }, { "name": "Employé", "description": "F", "locale": "fr" }])),
        ("three", json!([{ "name": "A", "locale": "a" }, { "name": "B", "locale": "b" }, { "name": "C", "description": "x", "locale": "c" }])),
    ]
}
fn entry(i: u32) -> Value {
    json!({ "id": format!("https://s.example/{i}#{i}"), "type": "BitstringStatusListEntry", "statusPurpose": "revocation",
            "statusListIndex": i, "statusListCredential": format!("https://s.example/{i}") })
}
/// The text(s) a language map holds, as (language, value).
fn lang(v: &Value) -> Vec<(Option<String>, String)> {
    let one = |o: &Value| (o["@language"].as_str().map(String::from), s(&o["@value"]));
    match v {
        Value::Null => vec![],
        Value::String(t) => vec![(None, t.clone())],
        Value::Array(a) => a.iter().map(one).collect(),
        o => vec![one(o)],
    }
}
fn ts(v: &Value) -> Option<i64> {
    chrono::DateTime::parse_from_rfc3339(v.as_str()?).ok().map(|t| t.timestamp())
}

pub fn c24(c: &mut Check) {
    c.rule("every combination (up to the stated number of simultaneous deviations from the standard case) of dataset, display, credential types, status entries, request by identifier or format, narrowing, holder, time and route to the token; the issued JWT is opened with an independent decoder and every member compared; every mdoc dataset likewise; each of many configurations, credentials and claims in a wide world");
    c.assume("signatures are ideal");
    let data = datasets();
    let disp = displays();
    let many_types = ["VerifiableCredential", "T1", "T2", "T3", "T4", "T5", "T6", "T7", "T8", "T9", "TA", "TB"];
    let mut types: Vec<Vec<&str>> = vec![
        vec!["VerifiableCredential", "EmployeeIDCredential"],
        vec!["VerifiableCredential", "EmployeeIDCredential", "StaffCredential"],
        vec!["VerifiableCredential", "A", "B", "C"],
        vec!["VerifiableCredential", "EmployeeIDCredential", "EmployeeIDCredential"],
    ];
    types.extend([5, 6, 7, 9, 12].map(|n| many_types[..n].to_vec()));
    let mut stat: Vec<(&str, Value, Vec<Value>)> = vec![
        ("none", Value::Null, vec![]),
        ("one", entry(7), vec![entry(7)]),
        ("two", json!([entry(7), entry(8)]), vec![entry(7), entry(8)]),
        ("three", json!([entry(1), entry(2), entry(3)]), vec![entry(1), entry(2), entry(3)]),
    ];
    for (name, n) in [("five entries", 5u32), ("nine entries", 9), ("seventeen entries", 17)] {
        let all: Vec<Value> = (1..=n).map(entry).collect();
        stat.push((name, json!(all), all));
    }
    // how it is asked for: identifier, format, format naming some claims
    let asks: Vec<(&str, Option<Vec<&str>>)> = vec![
        ("identifier", None),
        ("format", None),
        ("format email", Some(vec!["email"])),
        ("format email+address", Some(vec!["email", "address"])),
        ("format none", Some(vec![])),
        ("format undeclared", Some(vec!["shoe_size", "n", "ключ"])),
        ("format all", Some(vec!["email", "address", "given_name", "family_name"])),
    ];
    let holders = ["alice", "bob", "mallory"];
    let times = [clock::EPOCH, 0, 951_782_400, 4_102_444_799];
    let routes = ["pre", "auth", "scope", "deferred"];
    let dims = [data.len(), disp.len(), types.len(), stat.len(), asks.len(), holders.len(), times.len(), routes.len()];
    let dev = c.pick(3, 4);
    c.bound("simultaneous deviations from the standard case", dev);
    for v in gen::deviations(&dims, dev) {
        let (d, di, ty, st, ak, ho, tm, ro) = (&data[v[0]], &disp[v[1]], &types[v[2]], &stat[v[3]], &asks[v[4]], holders[v[5]], times[v[6]], routes[v[7]]);
        let key = format!("{}/{}/{}/{}/{}/{ho}/{tm}/{ro}", d.0, di.0, ty.len(), st.0, ak.0);
        if !c.case(&key) {
            continue;
        }
        c.distinct(&key);
        let mut im = issuer_json();
        let conf = &mut im["credential_configurations_supported"][EMP];
        conf["display"] = di.1.clone();
        if di.1.is_null() {
            conf.as_object_mut().unwrap().remove("display");
        }
        conf["credential_definition"]["type"] = json!(ty);
        let mut w = world::issuer::world(cfg(im, server_json(), vec![client_json(CLIENT)]));
        w.datasets.insert(("alice".into(), "PHLEmployeeID".into()), (d.1.clone(), false));
        w.status = (!st.1.is_null()).then(|| st.1.clone());
        w.now = tm;
        load(&w);
        let ctx = json!({ "case": key });
        let made = guard(|| {
            let (tok, nonce) = match ro {
                "auth" => {
                    let r = must("t", "token", token_auth(&auth_code("a", "alice", &[EMP])));
                    (s(&r["access_token"]), s(&r["c_nonce"]))
                }
                "scope" => {
                    let mut b = auth_body("alice", &[]);
                    b.as_object_mut().unwrap().remove("authorization_details");
                    b["scope"] = json!("EmployeeIDCredential");
                    let code = s(&must("a", "authorize", b)["code"]);
                    let r = must("t", "token", token_auth(&code));
                    (s(&r["access_token"]), s(&r["c_nonce"]))
                }
                _ => pre_token("a", "alice", &[EMP]),
            };
            let mut body = json!({ "credential_issuer": ISSUER, "access_token": tok, "proof": single(&proof_by(ho, &nonce)) });
            if v[4] == 0 {
                body["credential_identifier"] = json!("PHLEmployeeID");
            } else {
                body["format"] = json!("jwt_vc_json");
                body["credential_definition"] = json!({ "type": ty });
                if let Some(names) = &ak.1 {
                    body["credential_definition"]["credentialSubject"] = Value::Object(names.iter().map(|n| ((*n).to_string(), json!({}))).collect());
                }
            }
            if ro == "deferred" {
                pending("alice", "PHLEmployeeID", true);
                let r = must("c", "credential", body);
                pending("alice", "PHLEmployeeID", false);
                clock::advance(5);
                must("d", "deferred", json!({ "credential_issuer": ISSUER, "access_token": tok, "transaction_id": r["transaction_id"] }))
            } else {
                must("c", "credential", body)
            }
        });
        let r = match made {
            Ok(r) => r,
            Err(p) => {
                c.violation(&key, json!({ "not issued": p }));
                continue;
            }
        };
        c.outcome("issued");
        let now = clock::now();
        let Some((h, p)) = open_jwt(r["credential"].as_str().unwrap_or_default(), ISSUER_PK) else {
            c.violation(&key, json!({ "not signed by the issuer": r }));
            continue;
        };
        let did = format!("did:example:{ho}");
        let vc = &p["vc"];
        let mut want = d.1.as_object().unwrap().clone();
        if let Some(names) = &ak.1 {
            want.retain(|k, _| names.contains(&k.as_str()));
        }
        let mut subject = want.clone();
        subject.insert("id".into(), json!(did));
        let mut names: Vec<(Option<String>, String)> = vec![];
        let mut descs = vec![];
        for e in di.1.as_array().into_iter().flatten() {
            let l = e["locale"].as_str().map(String::from);
            names.push((l.clone(), s(&e["name"])));
            if let Some(t) = e["description"].as_str() {
                descs.push((l, t.to_string()));
            }
        }
        let list = |v: &Value| match v {
            Value::Null => vec![],
            Value::Array(a) => a.clone(),
            o => vec![o.clone()],
        };
        let checks: Vec<(&str, bool)> = vec![
            ("header", h == json!({ "alg": "EdDSA", "typ": "jwt", "kid": "did:example:issuer#k0" })),
            ("sub", p["sub"] == json!(did)),
            ("iss", p["iss"] == json!(ISSUER)),
            ("iat", p["iat"].as_i64() == Some(now)),
            ("jti", p["jti"] == vc["id"] && vc["id"].is_string()),
            ("exp", p.get("exp").map_or(true, Value::is_null) && vc.get("validUntil").map_or(true, Value::is_null)),
            ("context", vc["@context"] == json!([CTX, format!("{ISSUER}/credentials/v1")])),
            ("id", vc["id"] == json!(format!("{ISSUER}/credentials/{}", ty[1]))),
            ("type", list(&vc["type"]) == ty.iter().map(|t| json!(t)).collect::<Vec<_>>()),
            ("issuer", vc["issuer"] == json!(ISSUER)),
            ("subject", vc["credentialSubject"] == Value::Object(subject.clone())),
            ("validFrom", vc["validFrom"].is_null() || ts(&vc["validFrom"]).is_some_and(|t| t <= now)),
            ("status", list(&vc["credentialStatus"]) == st.2),
            ("name", lang(&vc["name"]) == names),
            ("description", lang(&vc["description"]) == descs),
        ];
        for (n, ok) in checks {
            c.expect(ok, &key, || json!({ "member": n, "header": h, "claims": p, "expected subject": subject, "expected status": st.2, "expected names": names, "expected descriptions": descs, "ctx": ctx }));
        }
        let asked = with(|w| w.status_asked.clone());
        c.expect(!asked.is_empty() && asked.iter().all(|a| *a == ("alice".into(), "PHLEmployeeID".into())), &key, || json!({ "status asked for": asked }));
        c.sample(json!({ "case": key, "subject": subject }));
    }
    mdocs(c);
    narrowed(c);
    crate::names::flows(c, "pre");
    crate::names::flows(c, "authorize");
}

/// ISO mdoc credentials.
fn mdocs(c: &mut Check) {
    let ns = "org.iso.18013.5.1";
    let vals = [json!("x"), json!(1), json!(true), Value::Null, json!(["a", 1]), json!({ "k": "v" }), json!(""), json!(-7), json!(1.5)];
    let mut sets: Vec<Value> = vec![json!({}), json!({ ns: {} }), json!({ ns: {}, "other": { "a": 1 } })];
    for a in &vals {
        sets.push(json!({ ns: { "given_name": a } }));
        for b in &vals {
            sets.push(json!({ ns: { "given_name": a, "family_name": b } }));
            sets.push(json!({ ns: { "given_name": a }, "org.example": { "given_name": b } }));
            if c.thorough() {
                for d in &vals {
                    sets.push(json!({ ns: { "a": a, "b": b, "c": d }, "n2": { "a": d }, "n3": { "a": a, "b": a } }));
                }
            }
        }
    }
    for (i, set) in sets.iter().enumerate() {
        for ask in ["identifier", "format", "format one", "format none"] {
            let key = format!("mdoc/{i}/{ask}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&(set.to_string(), ask));
            let mut w = fresh();
            w.datasets.insert(("alice".into(), "DriverLicence".into()), (set.clone(), false));
            load(&w);
            let (tok, nonce) = pre_token("a", "alice", &[MDL]);
            let mut body = json!({ "credential_issuer": ISSUER, "access_token": tok, "proof": single(&proof_by("alice", &nonce)) });
            let mut want = set.as_object().unwrap().clone();
            match ask {
                "identifier" => body["credential_identifier"] = json!("DriverLicence"),
                _ => {
                    body["format"] = json!("mso_mdoc");
                    body["doctype"] = json!(MDL);
                    if ask == "format one" {
                        body["claims"] = json!({ ns: {} });
                        want.retain(|k, _| k == ns);
                    } else if ask == "format none" {
                        body["claims"] = json!({});
                        want.clear();
                    }
                }
            }
            let out = go("c", "credential", body.clone());
            let ctx = json!({ "dataset": set, "request": body });
            let Some(r) = judge(c, &key, out, true, &ctx) else { continue };
            match world::mdoc::read(r["credential"].as_str().unwrap_or_default()) {
                Err(e) => c.violation(&key, json!({ "unreadable mdoc": e, "ctx": ctx })),
                Ok(m) => {
                    let nonempty = |o: &Map<String, Value>| -> Map<String, Value> {
                        o.iter().filter(|(_, v)| v.as_object().is_some_and(|v| !v.is_empty())).map(|(k, v)| (k.clone(), v.clone())).collect()
                    };
                    c.expect(nonempty(&m.claims) == nonempty(&want), &key, || json!({ "claims": m.claims, "expected": want, "ctx": ctx }));
                    c.expect(m.kid == "did:example:issuer#k0", &key, || json!({ "kid": m.kid, "ctx": ctx }));
                    c.expect(m.doc_type == MDL, &key, || json!({ "doctype": m.doc_type, "ctx": ctx }));
                }
            }
        }
    }
}

/// A wallet that was authorised for some claims of a credential gets those.
fn narrowed(c: &mut Check) {
    let all = ["email", "family_name", "given_name"];
    for (n, claims) in [("mandatory claims only", all.to_vec()), ("everything", vec!["email", "family_name", "given_name", "address"])] {
        for route in ["authorization", "token"] {
            let key = format!("authorised claims/{n}/{route}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            load(&fresh());
            let d = json!([{ "type": "openid_credential", "credential_configuration_id": EMP,
                "credential_definition": { "credentialSubject": claims.iter().map(|n| ((*n).to_string(), if *n == "address" { json!({ "street_address": {}, "locality": {} }) } else { json!({}) })).collect::<Map<_, _>>() } }]);
            let r = if route == "authorization" {
                let mut b = auth_body("alice", &[]);
                b["authorization_details"] = d;
                let code = s(&must("a", "authorize", b)["code"]);
                must("t", "token", token_auth(&code))
            } else {
                let (code, _) = pre_code("a", "alice", &[EMP], false);
                let mut b = token_pre(&code, None, None);
                b["authorization_details"] = d;
                must("t", "token", b)
            };
            let out = ask("c", &s(&r["access_token"]), "PHLEmployeeID", "alice", &s(&r["c_nonce"]));
            if let Some(r) = judge(c, &key, out, true, &json!({})) {
                let got = subject_of(&r).map(|x| x.1.as_object().unwrap().keys().cloned().collect::<Vec<_>>()).unwrap_or_default();
                let mut want = sorted(claims.iter().map(|x| (*x).to_string()).collect());
                let got = sorted(got);
                want.dedup();
                c.expect(got == want, &key, || json!({ "authorised": want, "issued": got }));
            }
        }
    }
}
