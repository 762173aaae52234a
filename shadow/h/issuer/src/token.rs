//! C21: who gets an access token, and what it is good for.
use crate::util::*;

/// What each artefact can be exchanged for.
#[derive(Clone)]
pub struct Art {
    pub name: &'static str,
    pub key: String,
    pub grant: Option<&'static str>,
    pub pin: Option<String>,
    pub confs: Vec<&'static str>,
    /// how the credentials were authorised: "details", "scope" or "format"
    pub by: &'static str,
    /// the nonce that goes with an access token
    pub nonce: String,
}
pub fn art(name: &'static str, key: String, grant: Option<&'static str>, pin: Option<String>, confs: &[&'static str], by: &'static str) -> Art {
    Art { name, key, grant, pin, confs: confs.to_vec(), by, nonce: String::new() }
}
pub fn fmt_detail(types: &[&str]) -> Value {
    json!({ "type": "openid_credential", "format": "jwt_vc_json", "credential_definition": { "type": types } })
}
pub const EMP_T: [&str; 2] = ["VerifiableCredential", "EmployeeIDCredential"];

/// One artefact of every kind the issuer hands out, all alive, in the current
/// world; all of them belong to alice.
pub fn artefacts() -> Vec<Art> {
    let mut v = vec![];
    let (code, _) = pre_code("k-pre", "alice", &[EMP, DEV], false);
    v.push(art("pre-authorized code", code, Some(PRE), None, &[EMP, DEV], "details"));
    let (code, pin) = pre_code("k-pin", "alice", &[EMP], true);
    v.push(art("pre-authorized code with PIN", code, Some(PRE), pin, &[EMP], "details"));
    v.push(art("authorization code", auth_code("k-auth", "alice", &[EMP, DEV]), Some(AUTH), None, &[EMP, DEV], "details"));
    let mut b = auth_body("alice", &[]);
    b.as_object_mut().unwrap().remove("authorization_details");
    b["scope"] = json!("EmployeeIDCredential");
    v.push(art("authorization code by scope", s(&must("k-scope", "authorize", b)["code"]), Some(AUTH), None, &[EMP], "scope"));
    let mut b = auth_body("alice", &[]);
    b["authorization_details"] = json!([fmt_detail(&EMP_T)]);
    v.push(art("authorization code by format", s(&must("k-fmt", "authorize", b)["code"]), Some(AUTH), None, &[EMP], "format"));
    let r = must("k-both", "create_offer", offer_body("alice", &[EMP], &[PRE, AUTH], true, false));
    v.push(art("code of an offer with both grants", s(&r["credential_offer"]["grants"][PRE]["pre-authorized_code"]), Some(PRE), Some(s(&r["tx_code"])), &[EMP], "details"));
    let r = must("k-state", "create_offer", offer_body("alice", &[EMP], &[AUTH], false, false));
    v.push(art("issuer_state", s(&r["credential_offer"]["grants"][AUTH]["issuer_state"]), None, None, &[], ""));
    let r = must("k-ref", "create_offer", offer_body("alice", &[EMP], &[PRE], false, true));
    v.push(art("offer reference", s(&r["credential_offer_uri"]).rsplit('/').next().unwrap().to_string(), None, None, &[], ""));
    let r = must("k-par", "par", auth_body("alice", &[EMP]));
    v.push(art("request_uri", s(&r["request_uri"]), None, None, &[], ""));
    let (tok, nonce) = pre_token("k-tok", "alice", &[EMP, DEV]);
    let r = must("k-note", "credential", cred_id(&tok, "PHLEmployeeID", Some(&proof_by("alice", &nonce))));
    v.push(art("notification id", s(&r["notification_id"]), None, None, &[], ""));
    let mut a = art("access token", tok.clone(), None, None, &[], "");
    a.nonce = s(&r["c_nonce"]);
    v.push(a);
    with(|w| w.datasets.get_mut(&("alice".into(), "PHLDeveloper".into())).unwrap().1 = true);
    let r = must("k-defer", "credential", cred_id(&tok, "PHLDeveloper", Some(&proof_by("alice", &s(&r["c_nonce"])))));
    with(|w| w.datasets.get_mut(&("alice".into(), "PHLDeveloper".into())).unwrap().1 = false);
    v.push(art("transaction id", s(&r["transaction_id"]), None, None, &[], ""));
    if !s(&r["c_nonce"]).is_empty() {
        v.iter_mut().filter(|a| a.name == "access token").for_each(|a| a.nonce = s(&r["c_nonce"]));
    }
    v.push(art("c_nonce", nonce, None, None, &[], ""));
    v.push(art("unknown", "no-such-thing".into(), None, None, &[], ""));
    v
}

pub fn c21(c: &mut Check) {
    c.rule("every combination of: artefact of every kind presented as code, grant type, client, redirect URI, code verifier, PIN, issuer, requested authorization details, server/client metadata; the decision and the credentials the token is good for are compared with a reference predicate; and every text of a good request replaced by each text easily taken for it (near misses), also where the near name is registered too; and a wide world of many configurations, users and artefacts, the decisive one at every place");
    c.assume("signatures are ideal; random identifiers do not collide");
    let base = {
        load(&fresh());
        let arts = artefacts();
        (save(), arts)
    };
    let clients = [Some(CLIENT), Some(CLIENT2), None, Some(""), Some("nobody")];
    let redirects = [Some(REDIRECT), Some(REDIRECT2), None];
    let ch = challenge(VERIFIER);
    let verifiers = [Some(VERIFIER), Some("some-code-verifier-of-the-wallet-0123456789abcdeg"), None, Some(ch.as_str()), Some("")];
    let pins = ["right", "wrong", "absent", "empty"];
    let issuers = [ISSUER, "http://other.example"];
    let mand = json!({ "email": {}, "family_name": {}, "given_name": {} });
    let with_claims = |cl: Value| {
        json!({ "type": "openid_credential", "credential_configuration_id": EMP, "credential_definition": { "credentialSubject": cl } })
    };
    let details: Vec<(&str, Option<Value>)> = vec![
        ("none", None),
        ("emp", Some(json!([detail(EMP)]))),
        ("dev", Some(json!([detail(DEV)]))),
        ("emp+dev", Some(json!([detail(EMP), detail(DEV)]))),
        ("mdl", Some(json!([detail(MDL)]))),
        ("emp+mdl", Some(json!([detail(EMP), detail(MDL)]))),
        ("empty", Some(json!([]))),
        ("unknown", Some(json!([detail("NoSuch")]))),
        ("emp-format", Some(json!([fmt_detail(&EMP_T)]))),
        ("emp-mandatory", Some(json!([with_claims(mand)]))),
        ("emp-too-few", Some(json!([with_claims(json!({ "email": {}, "family_name": {} }))]))),
        ("emp-unsupported", Some(json!([with_claims(json!({ "email": {}, "family_name": {}, "given_name": {}, "shoe_size": {} }))]))),
    ];
    let cfgs = ["std", "no-pre", "no-auth", "no-grants", "no-anonymous", "no-server-scopes", "no-client-scope", "client-scope-unsupported", "client-no-pre", "client-no-auth", "client-no-grants", "client-grants-unset"];
    let worlds: Vec<World> = cfgs
        .iter()
        .map(|n| {
            let mut w = base.0.clone();
            recfg(&mut w, |k| {
                let sv = k.servers.get_mut(ISSUER).unwrap();
                match *n {
                    "no-pre" => sv.oauth.grant_types_supported.as_mut().unwrap().retain(|g| json!(g) == json!(AUTH)),
                    "no-auth" => sv.oauth.grant_types_supported.as_mut().unwrap().retain(|g| json!(g) == json!(PRE)),
                    "no-grants" => sv.oauth.grant_types_supported = None,
                    "no-anonymous" => sv.pre_authorized_grant_anonymous_access_supported = false,
                    "no-server-scopes" => sv.oauth.scopes_supported = None,
                    "no-client-scope" => k.clients.values_mut().for_each(|c| c.oauth.scope = None),
                    "client-scope-unsupported" => k.clients.values_mut().for_each(|c| c.oauth.scope = Some("openid other".into())),
                    "client-no-pre" => k.clients.values_mut().for_each(|c| c.oauth.grant_types.as_mut().unwrap().retain(|g| json!(g) == json!(AUTH))),
                    "client-no-auth" => k.clients.values_mut().for_each(|c| c.oauth.grant_types.as_mut().unwrap().retain(|g| json!(g) == json!(PRE))),
                    "client-no-grants" => k.clients.values_mut().for_each(|c| c.oauth.grant_types = Some(vec![])),
                    "client-grants-unset" => k.clients.values_mut().for_each(|c| c.oauth.grant_types = None),
                    _ => {}
                }
            });
            w
        })
        .collect();
    let quick = !c.thorough();
    c.bound("artefacts", base.1.len());
    c.bound("metadata variants", cfgs.len());
    for (ai, a) in base.1.iter().enumerate() {
        for grant in [PRE, AUTH] {
            let inner = if grant == PRE { vec![1, 1, pins.len()] } else { vec![redirects.len(), verifiers.len(), 1] };
            let dims = [clients.len(), issuers.len(), details.len(), cfgs.len(), inner[0], inner[1], inner[2]];
            for x in gen::product(&dims) {
                // quick tier: at most three dimensions away from the good request
                if quick && x.iter().filter(|i| **i != 0).count() > 3 {
                    continue;
                }
                let (client, issuer, (dname, det), cfg) = (clients[x[0]], issuers[x[1]], &details[x[2]], cfgs[x[3]]);
                let key = format!("{ai}/{}/{x:?}", if grant == PRE { "pre" } else { "auth" });
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let pin = match pins[x[6]] {
                    "right" => a.pin.clone(),
                    "wrong" => Some("000000x".into()),
                    "absent" => None,
                    _ => Some(String::new()),
                };
                let mut b = trim(json!({ "credential_issuer": issuer, "client_id": client, "grant_type": grant }));
                if grant == PRE {
                    b["pre-authorized_code"] = json!(a.key);
                    if let Some(p) = &pin {
                        b["tx_code"] = json!(p);
                    }
                } else {
                    b["code"] = json!(a.key);
                    if let Some(r) = redirects[x[4]] {
                        b["redirect_uri"] = json!(r);
                    }
                    if let Some(v) = verifiers[x[5]] {
                        b["code_verifier"] = json!(v);
                    }
                }
                if let Some(d) = det {
                    b["authorization_details"] = d.clone();
                }
                // the reference decision
                let registered = matches!(client, Some(CLIENT | CLIENT2));
                let scopes_ok = !matches!(cfg, "no-server-scopes" | "no-client-scope" | "client-scope-unsupported");
                // the client may use the grant (or is anonymous)
                let may = client.is_none() || !matches!((cfg, grant), ("client-no-pre", PRE) | ("client-no-auth", AUTH) | ("client-no-grants" | "client-grants-unset", _));
                let mut ok = may && a.grant == Some(grant) && issuer == ISSUER && cfg != "no-grants";
                if grant == PRE {
                    ok = ok && cfg != "no-pre" && pin == a.pin;
                    ok = ok && match client {
                        None => cfg != "no-anonymous",
                        Some(_) => registered && scopes_ok,
                    };
                } else {
                    ok = ok && cfg != "no-auth" && client == Some(CLIENT) && redirects[x[4]] == Some(REDIRECT)
                        && verifiers[x[5]] == Some(VERIFIER) && scopes_ok;
                }
                // which credentials (None: the request may be refused or granted)
                let has = |k: &str| a.confs.contains(&k);
                let (want, confs): (Option<bool>, Vec<&str>) = match *dname {
                    "none" => (Some(true), a.confs.clone()),
                    "empty" => (None, vec![]),
                    "mdl" | "emp+mdl" | "unknown" => (Some(false), vec![]),
                    "emp-too-few" | "emp-unsupported" => (Some(false), vec![]),
                    "emp-format" => match a.by {
                        "format" => (Some(true), vec![EMP]),
                        _ => (None, vec![EMP]),
                    },
                    n => {
                        let mut v = vec![];
                        if n.starts_with("emp") {
                            v.push(EMP);
                        }
                        if n.contains("dev") {
                            v.push(DEV);
                        }
                        let all = v.iter().all(|k| has(k));
                        match a.by {
                            "details" => (Some(all), v),
                            _ => (if all { None } else { Some(false) }, v),
                        }
                    }
                };
                let want = if ok { want } else { Some(false) };
                let before = &worlds[x[3]];
                load(before);
                let out = go("token", "token", b.clone());
                let granted = matches!(&out, Ok(Out::Ok(_)));
                let ctx = json!({ "artefact": a.name, "request": b, "metadata": cfg });
                let resp = judge(c, &key, out, want.unwrap_or(granted), &ctx);
                let after = save();
                if let Some(r) = resp {
                    c.sample(json!({ "ctx": ctx, "granted for": confs }));
                    check_token(c, &key, &r, &after, "alice", &confs, &ctx);
                } else if after.store.iter().any(|(k, v)| before.store.get(k) != Some(v)) {
                    c.violation(&key, json!({ "refused, but something was stored": ctx }));
                }
                // a code that was presented is used up, granted or not
                if a.grant.is_some() {
                    load(&World { now: after.now, store: after.store.clone(), ..base.0.clone() });
                    let again = match a.grant {
                        Some(PRE) => token_pre(&a.key, a.pin.as_deref(), None),
                        _ => token_auth(&a.key),
                    };
                    if matches!(go("again", "token", again), Ok(Out::Ok(_))) {
                        c.violation(&key, json!({ "code still good after it was presented": ctx }));
                    }
                }
            }
        }
    }
    crate::near::token(c);
    crate::near::challenges(c, "authorize");
    crate::wide::token(c);
    crate::names::flows(c, "pre");
    crate::names::flows(c, "authorize");
}

/// A granted token: its response, and what it can be used for.
pub fn check_token(c: &mut Check, key: &str, r: &Value, after: &World, who: &str, confs: &[&str], ctx: &Value) {
    let shape = r["token_type"] == "Bearer" && r["expires_in"] == 900 && r["c_nonce_expires_in"] == 600
        && s(&r["access_token"]).len() >= 22 && s(&r["c_nonce"]).len() >= 22 && r["access_token"] != r["c_nonce"];
    if !shape {
        c.violation(key, json!({ "token response": r, "ctx": ctx }));
        return;
    }
    // identifiers named in the response are exactly the authorised ones
    if let Some(d) = r["authorization_details"].as_array() {
        let ids: Vec<String> = sorted(d.iter().flat_map(|x| x["credential_identifiers"].as_array().cloned().unwrap_or_default()).map(|v| s(&v)).collect());
        let exp: Vec<String> = sorted(confs.iter().map(|k| NAMES.iter().find(|n| n.0 == *k).unwrap().1.to_string()).collect());
        if ids != exp {
            c.violation(key, json!({ "identifiers": ids, "expected": exp, "ctx": ctx }));
        }
    }
    let base = World { icfg: std::sync::Arc::new(std_cfg()), ..after.clone() };
    for (conf, ident) in NAMES {
        load(&base);
        let out = ask("use", &s(&r["access_token"]), ident, "bob", &s(&r["c_nonce"]));
        let good = confs.contains(&conf);
        let resp = match out {
            Ok(Out::Ok(v)) => Some(v),
            Ok(_) => None,
            Err(p) => {
                c.violation(key, json!({ "panic": p, "ctx": ctx }));
                None
            }
        };
        if resp.is_some() != good {
            c.violation(key, json!({ "credential": conf, "obtainable": resp.is_some(), "authorised": good, "ctx": ctx }));
        }
        // it is about the subject the code was made for
        if let (Some(v), true) = (resp, conf != MDL) {
            let sub = subject_of(&v);
            if sub != Some(("did:example:bob".to_string(), claims_of(who, ident))) {
                c.violation(key, json!({ "credential about": sub, "ctx": ctx }));
            }
        }
    }
}
