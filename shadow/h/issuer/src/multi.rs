//! C29 isolation of users, C30 artefacts of the wrong kind, C31 notification,
//! registration and metadata, C32 provider faults and crashes.
use std::collections::BTreeMap;

use crate::expiry::pending;
use crate::token::artefacts;
use crate::util::*;
use world::seeded;

// ---- C29 -------------------------------------------------------------------
const FLOWS: [&str; 6] = ["pre-authorized", "pre-authorized with PIN", "authorization code", "pushed request", "deferred", "bad proof first"];

/// One wallet's complete flow; the outcome of every step.
async fn flow(who: &'static str, kind: &'static str) -> Vec<Value> {
    let mut outs: Vec<Value> = vec![];
    let mut step = |o: Out| -> Value {
        outs.push(o.json());
        match o {
            Out::Ok(v) | Out::Err(v) => v,
            Out::Bad(_) => Value::Null,
        }
    };
    let tok = match kind {
        "authorization code" => {
            let r = step(serve(call("authorize", auth_body(who, &[EMP]))).await);
            step(serve(call("token", token_auth(&s(&r["code"])))).await)
        }
        "pushed request" => {
            let r = step(serve(call("par", auth_body(who, &[EMP]))).await);
            let r = step(serve(call("authorize", json!({ "client_id": CLIENT, "request_uri": r["request_uri"] }))).await);
            step(serve(call("token", token_auth(&s(&r["code"])))).await)
        }
        _ => {
            let pin = kind == "pre-authorized with PIN";
            let r = step(serve(call("create_offer", offer_body(who, &[EMP], &[PRE], pin, pin))).await);
            let tx = r["tx_code"].as_str().map(String::from);
            let offer = if pin {
                let id = s(&r["credential_offer_uri"]).rsplit('/').next().unwrap_or_default().to_string();
                let o = step(serve(call("credential_offer", json!({ "credential_issuer": ISSUER, "id": id }))).await);
                if o.get("credential_offer").is_some() { o["credential_offer"].clone() } else { o }
            } else {
                r["credential_offer"].clone()
            };
            let code = s(&offer["grants"][PRE]["pre-authorized_code"]);
            step(serve(call("token", token_pre(&code, tx.as_deref(), None))).await)
        }
    };
    let (t, mut n) = (s(&tok["access_token"]), s(&tok["c_nonce"]));
    if kind == "bad proof first" {
        let r = step(serve(call("credential", cred_id(&t, "PHLEmployeeID", Some(&proof_by(who, "wrong"))))).await);
        n = s(&r["c_nonce"]);
    }
    let mut r = step(serve(call("credential", cred_id(&t, "PHLEmployeeID", Some(&proof_by(who, &n))))).await);
    if kind == "deferred" {
        pending(who, "PHLEmployeeID", false);
        r = step(serve(call("deferred", json!({ "credential_issuer": ISSUER, "access_token": t, "transaction_id": r["transaction_id"] }))).await);
    }
    step(serve(call("notification", json!({ "credential_issuer": ISSUER, "access_token": t, "notification_id": r["notification_id"], "event": "credential_accepted" }))).await);
    outs
}
type Store = BTreeMap<String, (Value, i64)>;

pub fn c29(c: &mut Check) {
    c.rule("two wallets of two users run complete issuance flows at the same time: for every pair of flows, every schedule of their provider calls up to the stated number of context switches; every answer and the final stored state must be what each wallet gets when it is alone");
    c.assume("provider calls are atomic; the random source of each wallet's requests is fixed so that runs can be compared; random identifiers do not collide");
    let pre = c.pick(2, 3);
    c.bound("context switches", pre);
    c.bound("pairs of flows", FLOWS.len() * FLOWS.len());
    let base = |a: &str, b: &str| {
        let mut w = fresh();
        if a == "deferred" {
            w.datasets.get_mut(&("alice".to_string(), "PHLEmployeeID".to_string())).unwrap().1 = true;
        }
        if b == "deferred" {
            w.datasets.get_mut(&("bob".to_string(), "PHLEmployeeID".to_string())).unwrap().1 = true;
        }
        w
    };
    let mut total = 0;
    for fa in FLOWS {
        for fb in FLOWS {
            let w0 = base(fa, fb);
            // a schedule is determined by the interleaving only
            let solo = |who: &'static str, kind: &'static str, w: &World| -> (Vec<Value>, Store) {
                load(w);
                let r = exec::run_schedule(vec![Some(Box::pin(seeded(who, flow(who, kind))) as exec::Task<Vec<Value>>)], &[]);
                (r.results.into_iter().next().unwrap(), save().store)
            };
            let (ra, sa) = solo("alice", fa, &w0);
            let (rb, sb) = solo("bob", fb, &w0);
            let tag = format!("{fa} || {fb}");
            // the flows work at all
            for (who, r) in [("alice", &ra), ("bob", &rb)] {
                let bad = r.iter().filter(|o| o.get("ok").is_none()).count();
                let allowed = usize::from((if who == "alice" { fa } else { fb }) == "bad proof first");
                c.expect(bad == allowed, &format!("{tag}/alone"), || json!({ "who": who, "answers": r }));
                let claims = r.iter().filter_map(|o| subject_of(&o["ok"])).next();
                c.expect(claims.as_ref().is_some_and(|x| x.1 == claims_of(who, "PHLEmployeeID") && x.0 == format!("did:example:{who}")), &format!("{tag}/alone"), || json!({ "who": who, "credential": claims, "answers": r }));
            }
            let mut both: Store = sa.clone();
            both.extend(sb.clone());
            let mut found: Option<(String, Value)> = None;
            let n = exec::explore(pre, &mut |prefix| {
                load(&w0);
                let tasks: Vec<Option<exec::Task<Vec<Value>>>> =
                    vec![Some(Box::pin(seeded("alice", flow("alice", fa)))), Some(Box::pin(seeded("bob", flow("bob", fb))))];
                let r = exec::run_schedule(tasks, prefix);
                let st = save().store;
                if found.is_none() && (r.results[0] != ra || r.results[1] != rb || st != both) {
                    let extra: Vec<&String> = st.keys().filter(|k| !both.contains_key(*k)).chain(both.keys().filter(|k| !st.contains_key(*k))).collect();
                    found = Some((tag.clone(), json!({ "schedule": r.schedule, "alice": r.results[0], "alice alone": ra, "bob": r.results[1], "bob alone": rb, "stored keys that differ": extra })));
                }
                r.choices
            });
            total += n;
            for i in 0..n {
                c.transition();
                c.validated();
                c.state(&(&tag, i));
            }
            if c.case(&tag) {
                c.sample(json!({ "flows": tag, "schedules": n, "steps": ra.len() + rb.len() }));
            }
            if let Some((k, d)) = found {
                c.violation(&k, d);
            }
        }
    }
    c.bound("schedules", total);
}

// ---- C30 -------------------------------------------------------------------
/// Every place where an artefact is presented, with the kinds that fit there.
fn slots(arts: &[crate::token::Art]) -> Vec<(&'static str, Vec<&'static str>, Box<dyn Fn(&str) -> Call + '_>)> {
    let key = move |n: &str| arts.iter().find(|a| a.name == n).unwrap().key.clone();
    let pin = arts.iter().find(|a| a.name == "pre-authorized code with PIN").unwrap().pin.clone();
    let both_pin = arts.iter().find(|a| a.name == "code of an offer with both grants").unwrap().pin.clone();
    let nonce = arts.iter().find(|a| a.name == "access token").unwrap().nonce.clone();
    let tok = key("access token");
    let txn = key("transaction id");
    let pins: Vec<Option<String>> = vec![None, pin, both_pin];
    let mut v: Vec<(&'static str, Vec<&'static str>, Box<dyn Fn(&str) -> Call + '_>)> = vec![];
    for (i, p) in pins.into_iter().enumerate() {
        let (n, fit): (&'static str, Vec<&'static str>) = match i {
            0 => ("pre-authorized_code", vec!["pre-authorized code"]),
            1 => ("pre-authorized_code, with the PIN", vec!["pre-authorized code with PIN"]),
            _ => ("pre-authorized_code, PIN of the double offer", vec!["code of an offer with both grants"]),
        };
        v.push((n, fit, Box::new(move |k| call("token", token_pre(k, p.as_deref(), None)))));
    }
    v.push(("code", vec!["authorization code", "authorization code by scope", "authorization code by format"], Box::new(|k| call("token", token_auth(k)))));
    v.push(("access_token at credential", vec!["access token"], Box::new(move |k| call("credential", cred_id(k, "PHLEmployeeID", Some(&proof_by("alice", &nonce)))))));
    v.push(("access_token at deferred", vec!["access token"], Box::new(move |k| call("deferred", json!({ "credential_issuer": ISSUER, "access_token": k, "transaction_id": txn })))));
    v.push(("transaction_id", vec!["transaction id"], Box::new(move |k| call("deferred", json!({ "credential_issuer": ISSUER, "access_token": tok, "transaction_id": k })))));
    let tok2 = key("access token");
    v.push(("notification_id", vec!["notification id"], Box::new(move |k| call("notification", json!({ "credential_issuer": ISSUER, "access_token": tok2, "notification_id": k, "event": "credential_accepted" })))));
    v.push(("access_token at registration", vec!["access token"], Box::new(|k| call("register", registration(k)))));
    v.push(("offer id", vec!["offer reference"], Box::new(|k| call("credential_offer", json!({ "credential_issuer": ISSUER, "id": k })))));
    v.push(("request_uri", vec!["request_uri"], Box::new(|k| call("authorize", json!({ "client_id": CLIENT, "request_uri": k })))));
    v.push(("issuer_state", vec!["issuer_state", "code of an offer with both grants"], Box::new(|k| {
        let mut b = auth_body("alice", &[EMP]);
        b["issuer_state"] = json!(k);
        call("authorize", b)
    })));
    v
}
fn registration(token: &str) -> Value {
    let mut b = client_json("new");
    b["access_token"] = json!(token);
    b["credential_issuer"] = json!(ISSUER);
    b
}

pub fn c30(c: &mut Check) {
    c.rule("every artefact the issuer ever hands out presented in every place where one is expected, in every state reached by first spending up to the stated number of other artefacts; granted exactly where the kind fits and the artefact is alive; also for artefacts that came about in other ways (by format, by scope, deferred), and at another issuer over the same provider");
    c.assume("an artefact presented where its kind does not fit may be used up by that; a pre-authorized code presented as issuer_state is left open (the two are the same value in an offer with both grants)");
    load(&fresh());
    let arts = artefacts();
    let base = save();
    let slots = slots(&arts);
    let depth = c.pick(2, 3);
    c.bound("artefacts spent before", depth);
    c.bound("places", slots.len());
    c.bound("artefacts", arts.len());
    let open = |slot: &str, art: &str| slot == "issuer_state" && art.starts_with("pre-authorized code");
    for n in 0..=depth {
        // spend n artefacts in their proper place first
        for word in gen::words(slots.len(), n) {
            load(&base);
            let mut spent = vec![];
            let mut ok = true;
            for sl in &word {
                let (name, fit, mk) = &slots[*sl];
                let a = arts.iter().position(|a| a.name == fit[0]).unwrap();
                let u = mk(&arts[a].key);
                ok &= matches!(go("spend", u.ep, u.body), Ok(o) if o.is_ok());
                // tokens stay alive, but a nonce is renewed by a credential
                if !name.starts_with("access_token") {
                    spent.push(arts[a].name);
                }
            }
            if !ok {
                continue;
            }
            let w = save();
            let renewed = word.iter().any(|x| matches!(slots[*x].0, "access_token at credential" | "access_token at deferred" | "transaction_id"));
            for (si, (sn, fit, mk)) in slots.iter().enumerate() {
                for a in &arts {
                    let key = format!("{word:?}/{sn}/{}", a.name);
                    if open(sn, a.name) || !c.case(&key) {
                        continue;
                    }
                    c.state(&(si, a.name, &word));
                    c.transition();
                    c.validated();
                    let needs_txn = *sn == "access_token at deferred" && (spent.contains(&"transaction id") || word.iter().any(|x| slots[*x].0 == "access_token at deferred"));
                    let alive = !spent.contains(&a.name) && !needs_txn && !(*sn == "transaction_id" && word.iter().any(|x| slots[*x].0 == "access_token at deferred"));
                    // with a renewed nonce the proofs prepared above are stale
                    if renewed && matches!(*sn, "access_token at credential" | "access_token at deferred" | "transaction_id") && fit.contains(&a.name) {
                        continue;
                    }
                    load(&w);
                    let u = mk(&a.key);
                    let out = go("use", u.ep, u.body.clone());
                    let ctx = json!({ "place": sn, "artefact": a.name, "spent before": spent });
                    judge(c, &key, out, alive && fit.contains(&a.name), &ctx);
                    // it is still good where it belongs
                    let consumes = sn.starts_with("pre-authorized_code") || matches!(*sn, "code" | "offer id");
                    if word.is_empty() && !fit.contains(&a.name) && !consumes {
                        let after = save();
                        for (on, of, omk) in &slots {
                            if !of.contains(&a.name) || *on == "issuer_state" && a.name != "issuer_state" {
                                continue;
                            }
                            load(&after);
                            let u = omk(&a.key);
                            judge(c, &format!("{key}, then {on}"), go("own", u.ep, u.body), true, &json!({ "presented as": sn, "artefact": a.name, "then as": on }));
                        }
                    }
                    c.sample(ctx);
                }
            }
        }
    }
    // artefacts of the same kinds that come about in other ways, where they do
    // not fit; and a notification id where it does
    load(&base);
    let by_format = |tok: &str, nonce: &str, types: &[&str]| {
        json!({ "credential_issuer": ISSUER, "access_token": tok, "format": "jwt_vc_json", "credential_definition": { "type": types },
                "proof": { "proof_type": "jwt", "jwt": proof_by("alice", nonce) } })
    };
    let (tok, nonce) = pre_token("x-tok", "alice", &[EMP, DEV]);
    let mut extra: Vec<(&'static str, String)> = vec![("access token", tok.clone())];
    if let Ok(Out::Ok(r)) = go("x-note", "credential", by_format(&tok, &nonce, &["VerifiableCredential", "EmployeeIDCredential"])) {
        extra.push(("notification id", s(&r["notification_id"])));
        extra.push(("c_nonce", s(&r["c_nonce"])));
        with(|w| w.datasets.get_mut(&("alice".into(), "PHLDeveloper".into())).unwrap().1 = true);
        if let Ok(Out::Ok(r)) = go("x-defer", "credential", by_format(&tok, &s(&r["c_nonce"]), &["VerifiableCredential", "DeveloperCredential"])) {
            extra.push(("transaction id", s(&r["transaction_id"])));
        }
        with(|w| w.datasets.get_mut(&("alice".into(), "PHLDeveloper".into())).unwrap().1 = false);
    }
    c.expect(extra.len() == 4, "by format", || json!({ "artefacts": extra.len() }));
    let w = save();
    for (sn, fit, mk) in &slots {
        for (kind, k) in &extra {
            let key = format!("other ways/{sn}/{kind}");
            let fits = fit.contains(kind);
            if fits && *kind != "notification id" || !c.case(&key) {
                continue;
            }
            c.state(&key);
            c.transition();
            load(&w);
            let u = mk(k);
            judge(c, &key, go("use", u.ep, u.body.clone()), fits, &json!({ "place": sn, "artefact": kind, "by": "format" }));
        }
    }
    shaped(c, &arts, &base);
    // another issuer, with the same configurations, over the same provider
    const OTHER: &str = "http://issuer2.example";
    let mut w = base.clone();
    let mut second = issuer_json();
    second["credential_issuer"] = json!(OTHER);
    recfg(&mut w, |k| {
        k.issuers.insert(OTHER.into(), serde_json::from_value(second.clone()).unwrap());
        k.servers.insert(OTHER.into(), serde_json::from_value(server_json()).unwrap());
    });
    let claims: Value = {
        let n = arts.iter().find(|a| a.name == "access token").unwrap().nonce.clone();
        let mut p = proof_claims(&n);
        p["aud"] = json!(OTHER);
        p
    };
    let k = holder_key("alice");
    let other_proof = jwt(&json!({ "alg": "EdDSA", "typ": "openid4vci-proof+jwt", "kid": k.vm }), &claims, &k.pk);
    for (sn, fit, mk) in &slots {
        let a = arts.iter().find(|a| a.name == fit[0]).unwrap();
        let u = mk(&a.key);
        let mut body = u.body.clone();
        // a request that names no issuer is for the one it was pushed to
        let Some(i) = body.get_mut("credential_issuer") else { continue };
        *i = json!(OTHER);
        if body.get("proof").is_some() {
            body["proof"] = single(&other_proof);
        }
        let key = format!("at another issuer of the same provider/{sn}");
        if c.case(&key) {
            c.state(&key);
            c.transition();
            load(&w);
            let ctx = json!({ "place": sn, "artefact": a.name, "issuer": OTHER });
            judge(c, &key, go("use", u.ep, body), false, &ctx);
        }
    }
}

/// Artefacts of every shape, where they do not belong.
fn shaped(c: &mut Check, arts: &[crate::token::Art], base: &World) {
    load(base);
    let slots = slots(arts);
    for sh in crate::shapes::shapes() {
        // both worlds: the artefact's own, and those the requests refer to
        let mut w = sh.world.clone();
        w.store.extend(base.store.clone());
        for (sn, fit, mk) in &slots {
            let key = format!("shape/{}/{}/{sn}", sh.kind, sh.name);
            // (a code with another code's PIN: C21)
            let pre = sh.kind.starts_with("pre-authorized code") || sh.kind.ends_with("both grants");
            let open = pre && (*sn == "issuer_state" || sn.starts_with("pre-authorized_code"));
            if open || fit.contains(&sh.kind) || !c.case(&key) {
                continue;
            }
            c.state(&key);
            c.transition();
            load(&w);
            let u = mk(&sh.key);
            judge(c, &key, go("use", u.ep, u.body), false, &json!({ "place": sn, "artefact": sh.kind, "of": sh.name }));
            if !sn.starts_with("pre-authorized_code") && !matches!(*sn, "code" | "offer id") {
                judge(c, &format!("{key}, then {}", sh.uses[0].name), sh.uses[0].go("own"), true, &json!({ "presented as": sn, "artefact": sh.kind, "of": sh.name }));
            }
        }
    }
}

// ---- C31 -------------------------------------------------------------------
pub fn c31(c: &mut Check) {
    c.rule("every combination of the members of notification, registration, metadata and authorization-server requests, against a reference predicate and the configured metadata; notification ids and access tokens of every age around their lifetimes; and every text of a good request replaced by each text easily taken for it (near misses), also where the near name is registered too");
    load(&fresh());
    let (t, n) = pre_token("a", "alice", &[EMP]);
    let r = must("c", "credential", cred_id(&t, "PHLEmployeeID", Some(&proof_by("alice", &n))));
    let (tb, nb) = pre_token("b", "bob", &[EMP]);
    let rb = must("cb", "credential", cred_id(&tb, "PHLEmployeeID", Some(&proof_by("bob", &nb))));
    let note = s(&r["notification_id"]);
    let w = save();
    // notification
    for ev in ["credential_accepted", "credential_failure", "credential_deleted", "other", ""] {
        for desc in [None, Some("text"), Some("")] {
            for (idn, id, fits) in [("own", note.clone(), true), ("unknown", "x".into(), false), ("empty", String::new(), false), ("token", t.clone(), false)] {
                let key = format!("notification/{ev}/{desc:?}/{idn}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                load(&w);
                let b = trim(json!({ "credential_issuer": ISSUER, "access_token": t, "notification_id": id, "event": ev, "event_description": desc }));
                let ctx = json!({ "request": b });
                let good_ev = !matches!(ev, "other" | "");
                let out = go("n", "notification", b.clone());
                judge(c, &key, out, fits && good_ev, &ctx);
                // nothing else is affected
                let a = ask("a", &t, "PHLEmployeeID", "alice", &s(&r["c_nonce"]));
                c.expect(matches!(&a, Ok(o) if o.is_ok()), &key, || json!({ "token spoilt": format!("{a:?}"), "ctx": ctx }));
                let o = go("nb", "notification", json!({ "credential_issuer": ISSUER, "access_token": tb, "notification_id": rb["notification_id"], "event": "credential_failure" }));
                c.expect(matches!(&o, Ok(o) if o.is_ok()), &key, || json!({ "other notification spoilt": format!("{o:?}"), "ctx": ctx }));
                if !fits || !good_ev {
                    let out = go("n2", "notification", json!({ "credential_issuer": ISSUER, "access_token": t, "notification_id": note, "event": "credential_accepted" }));
                    judge(c, &key, out, true, &ctx);
                } else {
                    // documented as idempotent
                    let out = go("n2", "notification", b);
                    c.expect(matches!(&out, Ok(o) if o.is_ok()), "a repeated identical notification is refused", || json!({ "again": format!("{out:?}"), "ctx": ctx }));
                }
            }
        }
    }
    // the notification endpoint requires the access token of the issuance
    for (tn, tok) in [("none", ""), ("unknown", "nonsense"), ("another user's", tb.as_str())] {
        let key = "a notification is accepted without the access token of the issuance";
        if !c.case(&format!("{key}/{tn}")) {
            continue;
        }
        c.distinct(&tn);
        load(&w);
        let out = go("n", "notification", json!({ "credential_issuer": ISSUER, "access_token": tok, "notification_id": note, "event": "credential_accepted" }));
        c.expect(matches!(&out, Ok(o) if !o.is_ok()), key, || json!({ "access token": tn }));
    }
    // registration
    for (tn, tok, fits) in [("token", t.clone(), true), ("bob's token", tb.clone(), true), ("unknown", "x".into(), false), ("empty", String::new(), false), ("notification id", note.clone(), false), ("nonce", s(&r["c_nonce"]), false)] {
        for (mn, meta) in [("full", client_json("ignored")), ("minimal", json!({ "client_id": "m" })), ("other grants", json!({ "client_id": "x", "grant_types": [PRE], "response_types": ["code"], "redirect_uris": ["https://w.example/cb"], "client_name": "N" }))] {
            let key = format!("register/{tn}/{mn}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            load(&w);
            let mut b = meta.clone();
            b["access_token"] = json!(tok);
            b["credential_issuer"] = json!(ISSUER);
            let ctx = json!({ "request": b });
            let out = go("r", "register", b);
            if matches!(&out, Ok(Out::Bad(_))) {
                continue;
            }
            let resp = judge(c, &key, out, fits, &ctx);
            let given = with(|w| w.registered.clone());
            c.expect(given.len() == usize::from(fits), &key, || json!({ "registered": given, "ctx": ctx }));
            if let (Some(resp), Some(g)) = (resp, given.first()) {
                // the provider gets the metadata of the request; the answer is the provider's
                for (k, v) in meta.as_object().unwrap() {
                    c.expect(g[k] == *v, &key, || json!({ "member": k, "given": g, "ctx": ctx }));
                    c.expect(k == "client_id" || resp[k] == *v, &key, || json!({ "member": k, "answer": resp, "ctx": ctx }));
                }
                c.expect(resp["client_id"] == "registered-client", &key, || json!({ "answer": resp }));
                c.expect(resp.get("access_token").is_none(), &key, || json!({ "answer": resp }));
            }
        }
    }
    // both only as long as the token and the id are live
    for expunge in [false, true] {
        for age in [0, 450, 899, 901, 902, 1800, 86_400] {
            for (name, u) in [
                ("notification", call("notification", json!({ "credential_issuer": ISSUER, "access_token": t, "notification_id": note, "event": "credential_accepted" }))),
                ("register", call("register", {
                    let mut b = client_json("late");
                    b["access_token"] = json!(t);
                    b["credential_issuer"] = json!(ISSUER);
                    b
                })),
            ] {
                let key = format!("{name} after {age} s/{expunge}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let mut w2 = w.clone();
                w2.expunge = expunge;
                load(&w2);
                clock::advance(age);
                judge(c, &key, go("late", u.ep, u.body), age < 900, &json!({ "age": age, "store drops expired entries": expunge }));
                let given = with(|w| w.registered.len());
                c.expect(given == usize::from(name == "register" && age < 900), &key, || json!({ "registered": given }));
            }
        }
    }
    // metadata
    for issuer in [ISSUER, "http://issuer2.example", "http://other.example", "", "http://vercre.io/"] {
        for langs in [None, Some("fr-ch, fr;q=0.9"), Some("")] {
            let key = format!("metadata/{issuer}/{langs:?}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let mut w2 = w.clone();
            let mut second = issuer_json();
            second["credential_issuer"] = json!("http://issuer2.example");
            second["credential_configurations_supported"].as_object_mut().unwrap().remove(DEV);
            recfg(&mut w2, |k| {
                k.issuers.insert("http://issuer2.example".into(), serde_json::from_value(second.clone()).unwrap());
            });
            load(&w2);
            let out = go("m", "metadata", trim(json!({ "credential_issuer": issuer, "languages": langs })));
            let want = w2.icfg.issuers.get(issuer);
            if let Some(r) = judge(c, &key, out, want.is_some(), &json!({ "issuer": issuer })) {
                c.expect(r == json!(want.unwrap()), &key, || json!({ "answer": r }));
                // and it says what was configured
                let src = if issuer == ISSUER { issuer_json() } else { second.clone() };
                c.expect(includes(&r, &src), &key, || json!({ "answer": r, "configured": src }));
            }
        }
        for iss in [None, Some("as1"), Some("as2")] {
            let key = format!("server/{issuer}/{iss:?}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let mut w2 = w.clone();
            let mut alt = server_json();
            alt["token_endpoint"] = json!("/token-as1");
            recfg(&mut w2, |k| {
                k.servers.insert(format!("{ISSUER}|as1"), serde_json::from_value(alt.clone()).unwrap());
            });
            load(&w2);
            let out = go("m", "oauth_server", trim(json!({ "credential_issuer": issuer, "issuer": iss })));
            let k = iss.map_or_else(|| issuer.to_string(), |i| format!("{issuer}|{i}"));
            let want = w2.icfg.servers.get(&k);
            if let Some(r) = judge(c, &key, out, want.is_some(), &json!({ "issuer": issuer, "server": iss })) {
                let src = if iss.is_some() { alt } else { server_json() };
                c.expect(includes(&r["authorization_server"], &src), &key, || json!({ "answer": r, "configured": src }));
            }
        }
    }
    crate::near::notification(c);
}
/// Every member of `b` is in `a` with the same value.
fn includes(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => y.iter().all(|(k, v)| x.get(k).is_some_and(|w| includes(w, v))),
        (x, y) => x == y,
    }
}

// ---- C32 -------------------------------------------------------------------
pub fn c32(c: &mut Check) {
    c.rule("for every kind of request, a fault of the provider at each of its calls in turn (an error answer), and a crash of the service before each of them; afterwards every artefact handed out is used, the interrupted request is repeated and every one-time artefact is redeemed twice");
    c.assume("provider calls are atomic: a call that fails has no effect; a crash loses nothing that was stored");
    load(&fresh());
    let arts = artefacts();
    let base = save();
    let sl = slots(&arts);
    let mut reqs: Vec<(String, Option<&str>, Call)> = vec![];
    for (n, fit, mk) in &sl {
        let a = arts.iter().find(|a| a.name == fit[0]).unwrap();
        reqs.push(((*n).to_string(), Some(a.name), mk(&a.key)));
    }
    reqs.push(("create offer".into(), None, call("create_offer", offer_body("alice", &[EMP, DEV], &[PRE], true, true))));
    reqs.push(("create offer, both grants".into(), None, call("create_offer", offer_body("alice", &[EMP], &[PRE, AUTH], true, false))));
    reqs.push(("authorize".into(), None, call("authorize", auth_body("alice", &[EMP, DEV]))));
    reqs.push(("push".into(), None, call("par", auth_body("alice", &[EMP, DEV]))));
    reqs.push(("metadata".into(), None, call("metadata", json!({ "credential_issuer": ISSUER }))));
    reqs.push(("server metadata".into(), None, call("oauth_server", json!({ "credential_issuer": ISSUER }))));
    let tok = arts.iter().find(|a| a.name == "access token").unwrap().key.clone();
    reqs.push(("credential, bad proof".into(), None, call("credential", cred_id(&tok, "PHLEmployeeID", Some(&proof_by("alice", "bad"))))));
    let mut wl = base.clone();
    for (n, _, u) in &reqs {
        if n == "access_token at credential" {
            let mut b = u.body.clone();
            b["credential_identifier"] = json!("PHLDeveloper");
            wl.datasets.get_mut(&("alice".to_string(), "PHLDeveloper".to_string())).unwrap().1 = true;
            reqs.push(("credential, deferred".into(), None, call("credential", b)));
            break;
        }
    }
    let mut points = 0;
    for (name, art, u) in &reqs {
        let w0 = if name == "credential, deferred" { &wl } else { &base };
        // how many calls does it make?
        load(w0);
        with(|w| w.calls = 0);
        let healthy = go("op", u.ep, u.body.clone());
        let calls = with(|w| w.calls);
        let ok_alone = matches!(&healthy, Ok(o) if o.is_ok());
        c.expect(ok_alone != (name == "credential, bad proof"), &format!("{name}/healthy"), || json!({ "answer": format!("{healthy:?}") }));
        for at in 0..calls {
            for crash in [false, true] {
                let key = format!("{name}/{}/{at}", if crash { "crash" } else { "fault" });
                if !c.case(&key) {
                    continue;
                }
                points += 1;
                c.state(&(name, at, crash));
                c.transition();
                c.validated();
                load(w0);
                let ctx = json!({ "request": name, "provider call": at, "crash": crash });
                let out = if crash {
                    with(|w| w.log = Some(vec![]));
                    // stop after `at` calls and drop the future
                    world::begin("op");
                    let r = guard(|| partial(u.clone(), at));
                    with(|w| w.log = None);
                    match r {
                        Ok(None) => None,
                        Ok(Some(o)) => Some(Ok(o)),
                        Err(p) => Some(Err(p)),
                    }
                } else {
                    with(|w| {
                        w.calls = 0;
                        w.fail_at = Some(at);
                    });
                    let r = go("op", u.ep, u.body.clone());
                    with(|w| w.fail_at = None);
                    Some(r)
                };
                if let Some(o) = &out {
                    // a failure of the provider is reported as an error, unless
                    // the answer does not depend on the failed call
                    match o {
                        Err(p) => c.violation(&key, json!({ "panic": p, "ctx": ctx })),
                        Ok(o) => {
                            c.outcome(&o.code());
                            c.expect(!o.is_ok() || crash, &key, || json!({ "granted in spite of the fault": o.json(), "ctx": ctx }));
                            if let Out::Err(_) = o {
                                c.expect(CODES.contains(&o.code().as_str()), &key, || json!({ "unintelligible error": o.json(), "ctx": ctx }));
                            }
                        }
                    }
                }
                let first = out.as_ref().is_some_and(|o| matches!(o, Ok(o) if o.is_ok()));
                let w1 = save();
                // the same request again: a one-time artefact is granted at
                // most once in all
                let one_time = art.is_some_and(|a| !matches!(a, "access token"));
                let mut wins = usize::from(first);
                for i in 0..3 {
                    let r = go(&format!("again{i}"), u.ep, u.body.clone());
                    match r {
                        Err(p) => c.violation(&key, json!({ "panic on repetition": p, "ctx": ctx })),
                        Ok(o) => wins += usize::from(o.is_ok()),
                    }
                }
                if one_time {
                    c.expect(wins <= 1, &key, || json!({ "granted": wins, "ctx": ctx }));
                } else if !crash && name != "credential, bad proof" {
                    // repeating works where nothing can be used up
                    if matches!(u.ep, "create_offer" | "par" | "metadata" | "oauth_server" | "register") || name == "authorize" {
                        c.expect(wins == 3, &key, || json!({ "granted after the fault": wins, "ctx": ctx }));
                    }
                }
                // every other artefact is unharmed
                for (n2, fit2, mk2) in &sl {
                    let a2 = arts.iter().find(|a| a.name == fit2[0]).unwrap();
                    let related = Some(a2.name) == *art
                        || u.body.to_string().contains(&a2.key)
                        || matches!(u.ep, "credential" | "deferred") && matches!(*n2, "access_token at credential" | "access_token at deferred" | "transaction_id");
                    if related {
                        continue;
                    }
                    load(&w1);
                    let v = mk2(&a2.key);
                    let r = go("other", v.ep, v.body);
                    c.expect(matches!(&r, Ok(o) if o.is_ok()), &key, || json!({ "spoilt": n2, "answer": format!("{r:?}"), "ctx": ctx }));
                }
                // an access token survives any failure: told a nonce, it goes on
                load(&w1);
                let r = go("probe", "credential", cred_id(&tok, "PHLEmployeeID", Some(&proof_by("alice", "x"))));
                match r {
                    Ok(Out::Err(v)) => {
                        let r = ask("probe2", &tok, "PHLEmployeeID", "alice", &s(&v["c_nonce"]));
                        c.expect(matches!(&r, Ok(o) if o.is_ok()), &key, || json!({ "token unusable": format!("{r:?}"), "ctx": ctx }));
                    }
                    r => c.violation(&key, json!({ "probe": format!("{r:?}"), "ctx": ctx })),
                }
                c.sample(ctx);
            }
        }
    }
    c.bound("fault and crash points", points);
}
/// Run a request up to (not including) its `n`th provider call and drop it
/// there; `Some` if it ended before.
fn partial(u: Call, n: usize) -> Option<Out> {
    use std::future::Future;
    with(|w| w.calls = 0);
    let mut f: std::pin::Pin<Box<dyn Future<Output = Out>>> = Box::pin(serve(u));
    exec::run_until(&mut f, || with(|w| w.calls) >= n)
}
