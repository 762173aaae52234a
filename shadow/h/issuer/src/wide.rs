//! More of everything: the same guarantees with many credential
//! configurations, identifiers, details, scope items, proofs and displays.
use crate::util::*;

use world::issuer::wide::{conf, data, types};

/// The identifiers the subject may have of configuration `i`.
fn idents(i: usize) -> Vec<String> {
    world::issuer::wide::idents(i, 3)
}
/// A world with `n` configurations beside the usual ones.
fn wide(n: usize) -> World {
    world::issuer::wide::world(n, 3)
}
fn sizes(c: &Check) -> Vec<usize> {
    if c.thorough() { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 33] } else { vec![1, 2, 3, 4, 5, 6, 8, 9, 11] }
}
fn det(i: usize, claims: Option<Value>) -> Value {
    let mut d = detail(&conf(i));
    if let Some(v) = claims {
        d["credential_definition"] = json!({ "credentialSubject": v });
    }
    d
}
/// Every other detail names claims.
fn named(i: usize) -> Option<Value> {
    (i % 2 == 1).then(|| json!({ "k": {}, "z": {} }))
}
/// What the credential of an identifier has to say.
fn said(i: usize, id: &str, narrowed: bool) -> Value {
    let mut d = data(id);
    if narrowed && named(i).is_some() {
        d.as_object_mut().unwrap().remove("x");
    }
    d
}
fn scope_body(n: usize) -> Value {
    let mut b = auth_body("alice", &[]);
    b.as_object_mut().unwrap().remove("authorization_details");
    b["scope"] = json!((0..n).map(|k| format!("wide{k}")).collect::<Vec<_>>().join(" "));
    b
}
/// The same codes by every route; (name, code request, narrowed by details)
fn routes(n: usize) -> Vec<(&'static str, Value, bool)> {
    let ids: Vec<String> = (0..n).map(conf).collect();
    let refs: Vec<&str> = ids.iter().map(String::as_str).collect();
    let mut named_body = auth_body("alice", &refs);
    named_body["authorization_details"] = json!((0..n).map(|i| det(i, named(i))).collect::<Vec<_>>());
    let mut by_format = auth_body("alice", &[]);
    by_format["authorization_details"] = json!((0..n).map(fmt).collect::<Vec<_>>());
    vec![
        ("pre", offer_body("alice", &refs, &[PRE], false, false), false),
        ("details", auth_body("alice", &refs), false),
        ("details with claims", named_body, true),
        ("format", by_format, false),
        ("scope", scope_body(n), false),
    ]
}
fn fmt(i: usize) -> Value {
    json!({ "type": "openid_credential", "format": "jwt_vc_json", "credential_definition": { "type": types(i) } })
}
fn code(route: &str, body: &Value) -> (String, &'static str) {
    if route == "pre" {
        (s(&must("wo", "create_offer", body.clone())["credential_offer"]["grants"][PRE]["pre-authorized_code"]), PRE)
    } else {
        (s(&must("wa", "authorize", body.clone())["code"]), AUTH)
    }
}

/// C21: tokens for many credentials.
pub fn token(c: &mut Check) {
    let ns = sizes(c);
    c.bound("credentials a token is for, up to", ns[ns.len() - 1]);
    for n in ns {
        for (route, body, narrowed) in routes(n) {
            load(&wide(n + 1));
            let (code, grant) = code(route, &body);
            let base = save();
            // which of them are asked for at the token endpoint
            let mut subsets: Vec<(String, Option<Vec<usize>>)> = vec![("none".into(), None)];
            if matches!(route, "pre" | "details" | "format") {
                subsets.push(("all".into(), Some((0..n).collect())));
                subsets.push(("all reversed".into(), Some((0..n).rev().collect())));
                for i in 0..n {
                    subsets.push((format!("only {i}"), Some(vec![i])));
                    subsets.push((format!("all but {i}"), Some((0..n).filter(|k| *k != i).collect())));
                    subsets.push((format!("all from {i}"), Some((i..n).collect())));
                    // one that was not authorised, at every place
                    let mut v: Vec<usize> = (0..n).collect();
                    v.insert(i, n);
                    subsets.push((format!("all and another at {i}"), Some(v)));
                    let mut v: Vec<usize> = (0..n).collect();
                    v[i] = n;
                    subsets.push((format!("another in place of {i}"), Some(v)));
                }
                let mut v: Vec<usize> = (0..n).collect();
                v.push(n);
                subsets.push(("all and another".into(), Some(v)));
            }
            for (sn, sub) in subsets {
                let key = format!("wide/{n}/{route}/{sn}");
                if sub.as_ref().is_some_and(Vec::is_empty) || !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let mut b = if grant == PRE { token_pre(&code, None, Some(CLIENT)) } else { token_auth(&code) };
                if let Some(v) = &sub {
                    b["authorization_details"] = json!(v.iter().map(|i| if route == "format" { fmt(*i) } else { det(*i, None) }).collect::<Vec<_>>());
                }
                let want = sub.as_ref().map_or(true, |v| !v.contains(&n));
                load(&base);
                let out = go("wt", "token", b.clone());
                let ctx = json!({ "credentials": n, "route": route, "asked for": sn });
                let Some(r) = judge(c, &key, out, want, &ctx) else { continue };
                let confs = sub.unwrap_or_else(|| (0..n).collect());
                use_all(c, &key, &r, &confs, n + 1, narrowed, &ctx);
            }
        }
        claims(c, n);
        shared(c, n, "authorize");
    }
}
/// A code by the direct request, or by pushing it first.
pub fn by(label: &str, ep: &str, body: Value) -> Result<Out, String> {
    let client = body["client_id"].clone();
    match go(label, if ep == "par" { "par" } else { "authorize" }, body) {
        Ok(Out::Ok(r)) if ep == "par" => go(label, "authorize", json!({ "client_id": client, "request_uri": r["request_uri"] })),
        o => o,
    }
}
/// Scope items that stand for several configurations, beside details.
fn shared(c: &mut Check, n: usize, ep: &str) {
    for g in [2, 3, n].into_iter().filter(|g| *g > 1 && *g <= n) {
        let mut w = wide(n);
        let mut k = (*w.icfg).clone();
        for i in k.issuers.values_mut() {
            for j in 0..n {
                if let Some(x) = i.credential_configurations_supported.get_mut(&conf(j)) {
                    x.scope = Some(format!("share{}", j / g));
                }
            }
        }
        w.icfg = k.into();
        let groups = n.div_ceil(g);
        let of = |q: usize| (0..n).filter(move |j| j / g == q);
        let mut cases: Vec<(String, Vec<usize>, Vec<usize>)> = vec![("all".into(), vec![], (0..groups).collect()), ("all reversed".into(), vec![], (0..groups).rev().collect())];
        for q in 0..groups {
            cases.push((format!("only {q}"), vec![], vec![q]));
            cases.push((format!("details beside {q}"), (0..n).filter(|j| j / g != q).collect(), vec![q]));
            // one of the group by details, the others by scope
            if of(q).count() > 1 {
                cases.push((format!("details within {q}"), vec![q * g], vec![q]));
            }
        }
        for (name, dets, scopes) in cases {
            let key = format!("wide/{n}/shared {g}/{name}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            load(&w);
            let mut b = scope_body(n);
            b["scope"] = json!(scopes.iter().map(|q| format!("share{q}")).collect::<Vec<_>>().join(" "));
            if !dets.is_empty() {
                b["authorization_details"] = json!(dets.iter().map(|j| det(*j, None)).collect::<Vec<_>>());
            }
            let ctx = json!({ "credentials": n, "per scope item": g, "case": name });
            let Some(r) = judge(c, &key, by("ws", ep, b), true, &ctx) else { continue };
            let Some(r) = judge(c, &key, go("wt", "token", token_auth(&s(&r["code"]))), true, &ctx) else { continue };
            let confs: Vec<usize> = (0..n).filter(|j| dets.contains(j) || scopes.contains(&(j / g))).collect();
            use_listed(c, &key, &r, &confs, &dets, n, false, &ctx);
        }
    }
}
/// Every identifier is good iff it was authorised, one after the other.
fn use_all(c: &mut Check, key: &str, r: &Value, confs: &[usize], n: usize, narrowed: bool, ctx: &Value) {
    use_listed(c, key, r, confs, confs, n, narrowed, ctx);
}
/// The token response lists the identifiers of what was asked for by details.
#[allow(clippy::too_many_arguments)]
fn use_listed(c: &mut Check, key: &str, r: &Value, confs: &[usize], listed: &[usize], n: usize, narrowed: bool, ctx: &Value) {
    let exp: Vec<String> = sorted(listed.iter().flat_map(|i| idents(*i)).collect());
    if let Some(d) = r["authorization_details"].as_array() {
        let ids: Vec<String> = sorted(d.iter().flat_map(|x| x["credential_identifiers"].as_array().cloned().unwrap_or_default()).map(|v| s(&v)).collect());
        if ids != exp {
            c.violation(key, json!({ "identifiers": ids, "expected": exp, "ctx": ctx }));
        }
    }
    let tok = s(&r["access_token"]);
    let mut nonce = s(&r["c_nonce"]);
    for (i, id) in (0..n).flat_map(|i| idents(i).into_iter().map(move |d| (i, d))) {
        let good = confs.contains(&i);
        c.transition();
        match ask("wu", &tok, &id, "bob", &nonce) {
            Ok(Out::Ok(v)) => {
                nonce = s(&v["c_nonce"]);
                let got = subject_of(&v);
                // (whether the claims named in the authorization narrow the data: C24)
                let narrowed = narrowed && got.as_ref() != Some(&("did:example:bob".to_string(), said(i, &id, false)));
                if !good || got != Some(("did:example:bob".to_string(), said(i, &id, narrowed))) {
                    c.violation(key, json!({ "identifier": id, "authorised": good, "credential": got, "ctx": ctx }));
                }
            }
            o => {
                if good {
                    c.violation(key, json!({ "identifier": id, "authorised": good, "got": format!("{o:?}"), "ctx": ctx }));
                }
            }
        }
    }
    // and by format
    for i in (0..n).rev() {
        let b = json!({ "credential_issuer": ISSUER, "access_token": tok, "format": "jwt_vc_json", "credential_definition": { "type": types(i) },
                        "proof": { "proof_type": "jwt", "jwt": proof_by("bob", &nonce) } });
        c.transition();
        let good = confs.contains(&i);
        match go("wf", "credential", b) {
            Ok(Out::Ok(v)) => {
                nonce = s(&v["c_nonce"]);
                let got = subject_of(&v);
                let fits = idents(i).iter().any(|id| {
                    [false, true].iter().any(|nar| (!nar || narrowed) && got == Some(("did:example:bob".to_string(), said(i, id, *nar))))
                });
                if !good || !fits {
                    c.violation(key, json!({ "asked for the format of": i, "authorised": good, "credential": got, "ctx": ctx }));
                }
            }
            o => {
                if good {
                    c.violation(key, json!({ "asked for the format of": i, "authorised": good, "got": format!("{o:?}"), "ctx": ctx }));
                }
            }
        }
    }
}
/// Details with claims that may not be asked for, at every place.
fn claims(c: &mut Check, n: usize) {
    load(&wide(n));
    let ids: Vec<String> = (0..n).map(conf).collect();
    let (code, _) = code("details", &auth_body("alice", &ids.iter().map(String::as_str).collect::<Vec<_>>()));
    let base = save();
    for at in 0..n {
        for (bn, bad) in bad_claims() {
            let key = format!("wide/{n}/claims/{bn}/{at}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let mut b = token_auth(&code);
            b["authorization_details"] = json!((0..n).map(|i| det(i, Some(if i == at { bad.clone() } else { json!({ "k": {}, "x": { "y": {} } }) }))).collect::<Vec<_>>());
            load(&base);
            let out = go("wc", "token", b.clone());
            judge(c, &key, out, bn == "good", &json!({ "credentials": n, "claims of": at, "are": bad }));
        }
    }
}
fn bad_claims() -> Vec<(&'static str, Value)> {
    vec![
        ("good", json!({ "k": {}, "z": {} })),
        ("unsupported", json!({ "k": {}, "z": {}, "other": {} })),
        ("without the mandatory one", json!({ "x": { "y": {} }, "z": {} })),
        ("unsupported below", json!({ "k": {}, "x": { "w": {} } })),
    ]
}

/// C26: offers of many credentials.
pub fn offer(c: &mut Check) {
    for n in sizes(c) {
        let ids: Vec<String> = (0..n).map(conf).collect();
        for (gn, grants) in [("pre", vec![PRE]), ("auth", vec![AUTH]), ("both", vec![PRE, AUTH])] {
            // the known ones as they are, in reverse, turned; an unknown or an
            // unauthorised one at every place
            let mut lists: Vec<(String, Vec<String>, bool)> = vec![("all".into(), ids.clone(), true)];
            let mut v = ids.clone();
            v.reverse();
            lists.push(("reversed".into(), v, true));
            for i in 0..n {
                let mut v = ids.clone();
                v.rotate_left(i);
                lists.push((format!("turned by {i}"), v, true));
                for (bn, bad, ok) in [("unknown", "NoSuch_JWT", false), ("next", &*conf(n + 1), false), ("not authorised", &*conf(n), grants == [AUTH])] {
                    let mut v = ids.clone();
                    v[i] = bad.into();
                    lists.push((format!("{bn} in place of {i}"), v.clone(), ok));
                    let mut v = ids.clone();
                    v.insert(i + 1, bad.into());
                    lists.push((format!("{bn} after {i}"), v, ok));
                }
            }
            for (ln, list, want) in lists {
                let key = format!("wide/{n}/{gn}/{ln}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let mut w = wide(n + 1);
                recfg(&mut w, |k| {
                    k.authz.remove(&("alice".into(), conf(n)));
                });
                load(&w);
                let refs: Vec<&str> = list.iter().map(String::as_str).collect();
                let out = go("wo", "create_offer", offer_body("alice", &refs, &grants, false, false));
                let ctx = json!({ "grants": gn, "offered": ln, "n": n });
                let Some(r) = judge(c, &key, out, want, &ctx) else { continue };
                if r["credential_offer"]["credential_configuration_ids"] != json!(list) {
                    c.violation(&key, json!({ "offered": r["credential_offer"]["credential_configuration_ids"], "asked for": list, "ctx": ctx }));
                }
            }
        }
    }
}

/// C27, C28: requests for many credentials.
pub fn authorize(c: &mut Check, ep: &'static str) {
    for n in sizes(c) {
        let good: Vec<Value> = (0..n).map(|i| det(i, None)).collect();
        let mut lists: Vec<(String, Vec<Value>, Option<bool>)> = vec![("all".into(), good.clone(), Some(true))];
        for at in 0..n {
            let mut put = |name: String, d: Value, want: Option<bool>| {
                let mut v = good.clone();
                v[at] = d;
                lists.push((name, v, want));
            };
            for (bn, cl) in bad_claims() {
                put(format!("{bn} claims at {at}"), det(at, Some(cl)), Some(bn == "good"));
            }
            put(format!("unknown at {at}"), det(n + 1, None), Some(false));
            put(format!("unknown type at {at}"), fmt(n + 1), Some(false));
            put(format!("format at {at}"), fmt(at), Some(true));
            // who may have what is settled when the request is used
            put(format!("not authorised at {at}"), det(n, None), if ep == "par" { None } else { Some(false) });
        }
        for (ln, list, want) in lists {
            let key = format!("wide/{n}/details/{ln}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let mut w = wide(n + 1);
            recfg(&mut w, |k| {
                k.authz.remove(&("alice".into(), conf(n)));
            });
            load(&w);
            let mut b = auth_body("alice", &[]);
            b["authorization_details"] = json!(list);
            let out = go("wa", ep, b.clone());
            let ok = matches!(&out, Ok(o) if o.is_ok());
            let ctx = json!({ "n": n, "details": ln, "endpoint": ep });
            judge(c, &key, out, want.unwrap_or(ok), &ctx);
            // what the code is good for
            if want == Some(true) {
                load(&w);
                let Some(r) = judge(c, &key, by("wb", ep, b), true, &ctx) else { continue };
                let Some(r) = judge(c, &key, go("wt", "token", token_auth(&s(&r["code"]))), true, &ctx) else { continue };
                let confs: Vec<usize> = (0..n).collect();
                use_all(c, &key, &r, &confs, n + 1, true, &ctx);
            }
        }
        shared(c, n, ep);
        let words: Vec<String> = (0..n).map(|k| format!("wide{k}")).collect();
        for at in 0..=n {
            for (bn, bad) in [("unknown", "nosuch"), ("next", "wide99"), ("upper", "WIDE0")] {
                let key = format!("wide/{n}/scope/{bn} at {at}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let mut v = words.clone();
                v.insert(at, bad.into());
                load(&wide(n));
                let mut b = scope_body(n);
                b["scope"] = json!(v.join(" "));
                let out = go("ws", ep, b.clone());
                judge(c, &key, out, false, &json!({ "scope": v, "endpoint": ep }));
            }
        }
    }
}

/// C23: many credentials of one token, many proofs of one request.
pub fn credential(c: &mut Check) {
    for n in sizes(c) {
        load(&wide(n));
        let ids: Vec<String> = (0..n).map(conf).collect();
        let (tok, nonce) = pre_token("wk", "alice", &ids.iter().map(String::as_str).collect::<Vec<_>>());
        let base = save();
        let all: Vec<(usize, String)> = (0..n).flat_map(|i| idents(i).into_iter().map(move |d| (i, d))).collect();
        let mut orders: Vec<(String, Vec<(usize, String)>)> = vec![];
        for r in 0..all.len() {
            let mut v = all.clone();
            v.rotate_left(r);
            if r == 0 {
                let mut u = v.clone();
                u.reverse();
                orders.push(("reversed".into(), u));
            }
            orders.push((format!("from {r}"), v));
        }
        // twice each
        orders.push(("twice".into(), all.iter().flat_map(|x| [x.clone(), x.clone()]).collect()));
        for (on, order) in orders {
            for by in ["identifier", "format"] {
                let key = format!("wide/{n}/{by}/{on}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                load(&base);
                let mut nonces = vec![nonce.clone()];
                for (k, (i, id)) in order.iter().enumerate() {
                    let last = nonces[nonces.len() - 1].clone();
                    c.transition();
                    let req = |n: &str| {
                        let mut b = cred_id(&tok, id, Some(&proof_by("bob", n)));
                        if by == "format" {
                            b.as_object_mut().unwrap().remove("credential_identifier");
                            b["format"] = json!("jwt_vc_json");
                            b["credential_definition"] = json!({ "type": types(*i) });
                        }
                        b
                    };
                    // none of the earlier nonces is any good
                    if k > 0 {
                        let w = save();
                        for (o, old) in nonces[..k].iter().enumerate() {
                            if on != "from 0" && o + 3 < k {
                                continue;
                            }
                            load(&w);
                            if matches!(go("wold", "credential", req(old)), Ok(Out::Ok(_))) {
                                c.violation(&key, json!({ "nonce of step": o, "accepted at step": k }));
                            }
                        }
                        load(&w);
                    }
                    let out = go("wc", "credential", req(&last));
                    let ctx = json!({ "n": n, "by": by, "order": on, "step": k });
                    let Some(v) = judge(c, &key, out, true, &ctx) else { break };
                    let got = subject_of(&v);
                    let ok = |id: &String| got == Some(("did:example:bob".to_string(), data(id)));
                    if !(if by == "format" { idents(*i).iter().any(ok) } else { ok(id) }) {
                        c.violation(&key, json!({ "credential": got, "ctx": ctx }));
                    }
                    let next = s(&v["c_nonce"]);
                    if nonces.contains(&next) || next.len() < 22 {
                        c.violation(&key, json!({ "nonce again": next, "ctx": ctx }));
                    }
                    nonces.push(next);
                }
            }
        }
        // a list of proofs of which one is not in order
        for at in 0..n {
            let k = holder_key("bob");
            let head = json!({ "alg": "EdDSA", "typ": "openid4vci-proof+jwt", "kid": k.vm });
            let with = |h: &str, v: Value| {
                let mut x = head.clone();
                x[h] = v;
                x
            };
            let claim = |h: &str, v: Value| {
                let mut x = proof_claims(&nonce);
                x[h] = v;
                x
            };
            let cut = proof_by("bob", &nonce);
            let bads: Vec<(&str, String, bool)> = vec![
                ("good", proof_by("bob", &nonce), true),
                ("nonce", jwt(&head, &claim("nonce", json!("stale")), &k.pk), false),
                ("audience", jwt(&head, &claim("aud", json!("http://other.example")), &k.pk), false),
                ("typ", jwt(&with("typ", json!("jwt")), &proof_claims(&nonce), &k.pk), false),
                ("key", jwt(&head, &proof_claims(&nonce), &holder_key("mallory").pk), false),
                ("cut", cut[..cut.len() - 4].to_string(), false),
                ("empty", String::new(), false),
            ];
            for (bn, bad, want) in bads {
                let key = format!("wide/{n}/proofs/{bn} at {at}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                load(&base);
                let mut b = trim(cred_id(&tok, &idents(0)[0], None));
                b["proofs"] = json!({ "jwt": (0..n).map(|i| if i == at { bad.clone() } else { proof_by("bob", &nonce) }).collect::<Vec<_>>() });
                let out = go("wp", "credential", b.clone());
                judge(c, &key, out, want, &json!({ "proofs": n, "at": at, "is": bn }));
            }
        }
    }
}
