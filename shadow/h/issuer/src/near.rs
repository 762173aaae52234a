//! Requests in which one text is replaced by what is easily taken for it.
use crate::util::*;

/// A world in which what is easily taken for the client, the configuration or
/// the subject exists as well.
pub fn crowd(w: &mut World) {
    recfg(w, |k| {
        let c = k.clients[CLIENT].clone();
        for n in gen::near(CLIENT) {
            let mut c = c.clone();
            c.oauth.client_id = n.clone();
            k.clients.insert(n, c);
        }
        for i in k.issuers.values_mut() {
            let e = i.credential_configurations_supported[EMP].clone();
            for n in gen::near(EMP) {
                i.credential_configurations_supported.insert(n, e.clone());
            }
        }
    });
}
/// Replace every text of the body in turn; `want` says what has to happen.
pub fn sweep(c: &mut Check, tag: &str, w: &World, ep: &'static str, body: &Value, want: &dyn Fn(&str, &str) -> Option<bool>) {
    let key = format!("near/{tag}/unchanged");
    if c.case(&key) {
        load(w);
        let out = go("near", ep, body.clone());
        judge(c, &key, out, true, &json!({ "request": body }));
    }
    for (at, text) in gen::texts(body) {
        for n in gen::near(&text) {
            let key = format!("near/{tag}/{at}/{n:?}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let b = gen::put(body, &at, json!(n));
            load(w);
            let out = go("near", ep, b.clone());
            let ok = matches!(&out, Ok(o) if o.is_ok());
            judge(c, &key, out, want(&at, &n).unwrap_or(ok), &json!({ "request": b, "changed": at }));
        }
    }
}
fn never(_: &str, _: &str) -> Option<bool> {
    Some(false)
}
fn worlds() -> [(&'static str, World); 2] {
    let mut w = fresh();
    crowd(&mut w);
    [("", fresh()), ("crowded ", w)]
}

pub fn token(c: &mut Check) {
    for (wn, w) in worlds() {
        load(&w);
        let (code, pin) = pre_code("np", "alice", &[EMP, DEV], true);
        let auth = auth_code("na", "alice", &[EMP, DEV]);
        let base = save();
        let mut b = token_pre(&code, pin.as_deref(), Some(CLIENT));
        // any registered client may present a pre-authorized code
        let client = move |at: &str, _: &str| if at == "/client_id" && !wn.is_empty() { None } else { Some(false) };
        sweep(c, &format!("{wn}pre"), &base, "token", &b, &client);
        b["authorization_details"] = json!([detail(EMP), detail(DEV)]);
        sweep(c, &format!("{wn}pre with details"), &base, "token", &b, &client);
        let mut b = token_auth(&auth);
        sweep(c, &format!("{wn}code"), &base, "token", &b, &never);
        b["authorization_details"] = json!([detail(EMP)]);
        sweep(c, &format!("{wn}code with details"), &base, "token", &b, &never);
        // PINs: every one with a digit changed, added, removed or moved
        let pin = pin.unwrap_or_default();
        let mut pins: Vec<String> = vec![];
        for i in 0..pin.len() {
            for d in 0..10 {
                pins.push(format!("{}{d}{}", &pin[..i], &pin[i + 1..]));
            }
            pins.push(format!("{}{}", &pin[..i], &pin[i + 1..]));
            pins.push(format!("{}0{}", &pin[..i], &pin[i..]));
            pins.push(format!("{}{}", &pin[i..], &pin[..i]));
            if pin.as_bytes()[i] == b'0' {
                pins.push(pin.replace('0', "O"));
            }
        }
        pins.extend([format!("+{pin}"), format!("{pin}.0"), pin.chars().map(|d| char::from_u32(0x0660 + d.to_digit(10).unwrap_or(0)).unwrap()).collect()]);
        for p in pins {
            let key = format!("near/{wn}pin/{p:?}");
            if c.case(&key) {
                c.distinct(&key);
                load(&base);
                let out = go("pin", "token", token_pre(&code, Some(&p), Some(CLIENT)));
                judge(c, &key, out, p == pin, &json!({ "PIN": pin, "given": p }));
            }
        }
    }
}
pub fn credential(c: &mut Check) {
    for (wn, w) in worlds() {
        load(&w);
        let (tok, nonce) = pre_token("nc", "alice", &[EMP]);
        let base = save();
        let good = cred_id(&tok, "PHLEmployeeID", Some(&proof_by("alice", &nonce)));
        sweep(c, &format!("{wn}credential"), &base, "credential", &good, &never);
        let list = gen::put(&good, "/proof", Value::Null);
        let mut list = trim(list);
        list["proofs"] = json!({ "jwt": [proof_by("alice", &nonce), proof_by("alice", &nonce)] });
        sweep(c, &format!("{wn}two proofs"), &base, "credential", &list, &never);
        // inside a proof that is otherwise in order, correctly signed
        let k = holder_key("alice");
        let doc = json!({ "header": { "alg": "EdDSA", "typ": "openid4vci-proof+jwt", "kid": k.vm }, "claims": proof_claims(&nonce) });
        for (at, text) in gen::texts(&doc) {
            for n in gen::near(&text) {
                let key = format!("near/{wn}proof{at}/{n:?}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let d = gen::put(&doc, &at, json!(n));
                load(&base);
                let out = go("proof", "credential", cred_id(&tok, "PHLEmployeeID", Some(&jwt(&d["header"], &d["claims"], &k.pk))));
                let ok = matches!(&out, Ok(o) if o.is_ok());
                // what the algorithm and the issuer of a proof may say is not decided here
                let want = if matches!(at.as_str(), "/header/alg" | "/claims/iss") { ok } else { false };
                judge(c, &key, out, want, &json!({ "proof": d, "changed": at }));
            }
        }
    }
}
pub fn deferred(c: &mut Check) {
    load(&fresh());
    let (tok, nonce) = pre_token("nd", "alice", &[EMP]);
    with(|w| w.datasets.get_mut(&("alice".into(), "PHLEmployeeID".into())).unwrap().1 = true);
    let r = must("nd2", "credential", cred_id(&tok, "PHLEmployeeID", Some(&proof_by("alice", &nonce))));
    with(|w| w.datasets.get_mut(&("alice".into(), "PHLEmployeeID".into())).unwrap().1 = false);
    let b = json!({ "credential_issuer": ISSUER, "access_token": tok, "transaction_id": r["transaction_id"] });
    sweep(c, "deferred", &save(), "deferred", &b, &never);
}
pub fn offer(c: &mut Check) {
    for (name, grants, pin, byref) in [("pre", vec![PRE], true, false), ("both", vec![PRE, AUTH], true, true), ("auth", vec![AUTH], false, false)] {
        let b = offer_body("alice", &[EMP, DEV], &grants, pin, byref);
        // who gets an offer without a pre-authorized code is decided later
        let pre = grants.contains(&PRE);
        sweep(c, &format!("offer {name}"), &fresh(), "create_offer", &b, &move |at, _| if at == "/subject_id" && !pre { None } else { Some(false) });
    }
    load(&fresh());
    let r = must("no", "create_offer", offer_body("alice", &[EMP], &[PRE], false, true));
    let id = s(&r["credential_offer_uri"]).rsplit('/').next().unwrap().to_string();
    sweep(c, "fetch", &save(), "credential_offer", &json!({ "credential_issuer": ISSUER, "id": id }), &|at, _| if at == "/id" { Some(false) } else { None });
}
pub fn authorize(c: &mut Check, ep: &'static str) {
    let free = move |at: &str, _: &str| match at {
        "/state" => Some(true),
        // the subject is looked up when the pushed request is used
        "/subject_id" if ep == "par" => None,
        "/code_challenge" => None,
        _ => Some(false),
    };
    sweep(c, &format!("{ep} details"), &fresh(), ep, &auth_body("alice", &[EMP, DEV]), &free);
    let mut b = auth_body("alice", &[]);
    b.as_object_mut().unwrap().remove("authorization_details");
    b["scope"] = json!("EmployeeIDCredential");
    sweep(c, &format!("{ep} scope"), &fresh(), ep, &b, &move |at, n| {
        if at != "/scope" {
            return free(at, n);
        }
        let mut words = n.split_whitespace().peekable();
        // blanks and repetitions around the right words
        if n.is_empty() || (words.peek().is_some() && words.all(|w| w == "EmployeeIDCredential")) { None } else { Some(false) }
    });
    let mut b = auth_body("alice", &[]);
    b["authorization_details"] = json!([crate::token::fmt_detail(&crate::token::EMP_T)]);
    sweep(c, &format!("{ep} format"), &fresh(), ep, &b, &free);
    states(c, ep);
}
/// The state comes back as it was given, whatever it says.
fn states(c: &mut Check, ep: &'static str) {
    let mut all: Vec<Option<String>> = vec![None];
    all.extend(gen::near("st-1").into_iter().map(Some));
    all.extend(["", " ", "null", "a&b=c%20d+e", "{\"a\":1}", "état", "0", "st-1 st-2", "St-1=="].into_iter().map(|x| Some(x.to_string())));
    all.extend([1, 2, 31, 32, 33, 64, 255, 256, 1025].into_iter().map(|k| Some("s".repeat(k))));
    for st in all {
        let key = format!("{ep} with the state {st:?}");
        if !c.case(&key) {
            continue;
        }
        c.distinct(&key);
        load(&fresh());
        let mut b = auth_body("alice", &[EMP]);
        match &st {
            Some(x) => b["state"] = json!(x),
            None => drop(b.as_object_mut().unwrap().remove("state")),
        }
        let Some(r) = judge(c, &key, crate::wide::by("st", ep, b), true, &json!({ "state": st })) else { continue };
        c.expect(r.get("state").and_then(Value::as_str) == st.as_deref(), &key, || json!({ "response": r, "state": st }));
    }
}
/// A code is only good for the verifier of just the challenge it was asked
/// for with.
pub fn challenges(c: &mut Check, ep: &str) {
    let ch = challenge(VERIFIER);
    let flip = |f: &dyn Fn(usize) -> bool| ch.char_indices().map(|(i, x)| if !f(i) { x } else if x.is_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect::<String>();
    let mut all = mc::gen::near(&ch);
    all.extend([ch.clone(), flip(&|_| true), flip(&|i| i % 2 == 0), flip(&|i| i == 0), flip(&|i| i == 42), VERIFIER.to_string(), ch.replace('-', "+").replace('_', "/"), format!("{ch}="), format!("{ch}=="), ch.chars().rev().collect(), format!("{}{}", &ch[..42], if ch.ends_with('A') { 'B' } else { 'A' }), format!("{ch}{ch}")]);
    for i in 0..ch.len() {
        all.push(flip(&|j| i == j));
    }
    for x in all {
        let key = format!("{ep} challenge {x:?}");
        if !c.case(&key) {
            continue;
        }
        c.transition();
        load(&fresh());
        let mut b = auth_body("alice", &[EMP]);
        b["code_challenge"] = json!(x);
        let Ok(Out::Ok(r)) = crate::wide::by("ch1", ep, b) else {
            c.expect(x != ch, &key, || json!("a good challenge was refused"));
            continue;
        };
        let out = go("ch2", "token", token_auth(&s(&r["code"])));
        c.outcome(if x == ch { "the challenge" } else { "another challenge" });
        c.expect(matches!(&out, Ok(o) if o.is_ok() == (x == ch)), &key, || json!({ "challenge": x, "verifier": VERIFIER, "got": format!("{out:?}") }));
    }
}
pub fn notification(c: &mut Check) {
    load(&fresh());
    let (tok, nonce) = pre_token("nn", "alice", &[EMP]);
    let r = must("nn2", "credential", cred_id(&tok, "PHLEmployeeID", Some(&proof_by("alice", &nonce))));
    let b = json!({ "credential_issuer": ISSUER, "access_token": tok, "notification_id": r["notification_id"], "event": "credential_accepted", "event_description": "fine" });
    sweep(c, "notification", &save(), "notification", &b, &|at, _| match at {
        "/notification_id" | "/event" => Some(false),
        "/event_description" => Some(true),
        // see the known findings
        _ => None,
    });
}
