//! C51: what a wallet takes from an issuer that does not behave.
use std::sync::Arc;

use base64ct::{Base64UrlUnpadded as B64, Encoding};

use crate::util::*;

fn head(kid: &str) -> Value {
    json!({ "alg": "EdDSA", "typ": "jwt", "kid": kid })
}
fn vc(id: Option<&str>, ty: &str) -> Value {
    let mut v = json!({
        "@context": ["https://www.w3.org/2018/credentials/v1", "http://vercre.io/credentials/v1"],
        "type": ["VerifiableCredential", ty], "issuer": ISSUER, "validFrom": "2024-01-01T00:00:00Z",
        "credentialSubject": { "id": "did:example:alice", "n": "1" }
    });
    if let Some(i) = id {
        v["id"] = json!(i);
    }
    v
}
fn claims(vc: Value, iat: i64) -> Value {
    json!({ "sub": "did:example:alice", "nbf": iat, "iss": ISSUER, "iat": iat, "jti": "j", "vc": vc })
}
fn graft(token: &str, claims: &Value) -> String {
    let p: Vec<&str> = token.split('.').collect();
    format!("{}.{}.{}", p[0], B64::encode_string(claims.to_string().as_bytes()), p[2])
}
fn rehead(token: &str, head: &Value) -> String {
    let p: Vec<&str> = token.split('.').collect();
    format!("{}.{}.{}", B64::encode_string(head.to_string().as_bytes()), p[1], p[2])
}

/// Something in the place of a credential; whether it is a signed credential.
fn item(k: usize) -> (&'static str, Value, bool) {
    let i0 = "did:example:issuer#k0";
    let t = clock::EPOCH - 500;
    let c = claims(vc(Some("http://vercre.io/c/1"), "A"), t);
    let good = jwt(&head(i0), &c, ISSUER_PK);
    match k {
        0 => ("good", json!(good), true),
        1 => ("good, another", json!(jwt(&head(i0), &claims(vc(Some("http://vercre.io/c/2"), "B"), t + 7), ISSUER_PK)), true),
        2 => ("good, issuer's other key", json!(jwt(&head("did:example:issuer#k1"), &claims(vc(Some("http://vercre.io/c/3"), "C"), 0), "pk-issuer-1")), true),
        3 => ("good, without id", json!(jwt(&head(i0), &claims(vc(None, "D"), t), ISSUER_PK)), true),
        4 => {
            let mut v = vc(Some("http://vercre.io/c/5"), "E");
            v["issuer"] = json!({ "id": "http://issuer.example", "name": "I" });
            ("good, issuer with a name", json!(jwt(&head(i0), &claims(v, t), ISSUER_PK)), true)
        }
        5 => ("signed with another's key", json!(jwt(&head(i0), &c, "pk-mallory-0")), false),
        6 => ("signed with the issuer's other key", json!(jwt(&head(i0), &c, "pk-issuer-1")), false),
        7 => ("changed after signing", json!(graft(&good, &claims(vc(Some("http://vercre.io/c/1"), "Admin"), t))), false),
        8 => ("header changed after signing", json!(rehead(&good, &head("did:example:issuer#k1"))), false),
        9 => ("algorithm none", json!(rehead(&good, &json!({ "alg": "none", "typ": "jwt", "kid": i0 }))), false),
        10 => ("no signature", json!(good.rsplit_once('.').unwrap().0.to_string() + "."), false),
        11 => ("two parts", json!(good.rsplit_once('.').unwrap().0), false),
        12 => ("unknown DID", json!(jwt(&head("did:example:nobody#k0"), &c, ISSUER_PK)), false),
        13 => ("unknown key", json!(jwt(&head("did:example:issuer#k9"), &c, ISSUER_PK)), false),
        14 => ("no kid", json!(jwt(&json!({ "alg": "EdDSA", "typ": "jwt" }), &c, ISSUER_PK)), false),
        15 => ("empty string", json!(""), false),
        16 => ("not a JWT", json!("certainly.not.this"), false),
        17 => ("unsigned object", vc(Some("http://vercre.io/c/1"), "A"), false),
        18 => ("a presentation", json!(jwt(&head(i0), &json!({ "iss": "x", "jti": "x", "aud": "x", "nonce": "x", "nbf": 1, "iat": 1, "exp": 2, "vp": {} }), ISSUER_PK)), false),
        19 => ("no such date", json!(jwt(&head(i0), &claims(vc(Some("http://vercre.io/c/1"), "A"), i64::MAX), ISSUER_PK)), false),
        20 => ("claims are not an object", json!(jwt(&head(i0), &json!("x"), ISSUER_PK)), false),
        21 => ("one bit of the signature", {
            let mut b = good.into_bytes();
            let n = b.len() - 3;
            b[n] = if b[n] == b'A' { b'B' } else { b'A' };
            json!(String::from_utf8(b).unwrap())
        }, false),
        100.. => ("good, one of many", json!(jwt(&head(i0), &claims(vc(Some(&format!("http://vercre.io/c/{k}")), &format!("T{k}")), t + k as i64), ISSUER_PK)), true),
        _ => unreachable!(),
    }
}
const ITEMS: usize = 22;
const DISPLAYS: [&str; 4] = ["as it is", "none", "empty", "with a logo"];

/// The entry the wallet must store for a good item.
fn judge_entry(c: &mut Check, key: &str, e: &Value, token: &str, display: usize) {
    let (_, cl) = open_jwt(token, ISSUER_PK).or_else(|| open_jwt(token, "pk-issuer-1")).unwrap();
    let v = &cl["vc"];
    let iss = if v["issuer"].is_string() { v["issuer"].clone() } else { v["issuer"]["id"].clone() };
    let date = chrono::DateTime::from_timestamp(cl["iat"].as_i64().unwrap(), 0).unwrap();
    let date_ok = s(&e["issuance_date"]).parse::<chrono::DateTime<chrono::Utc>>().ok() == Some(date);
    let id_ok = if v["id"].is_string() { e["id"] == v["id"] } else { s(&e["id"]).starts_with("urn:uuid:") };
    let mut body = e["vc"].clone();
    let mut want = v.clone();
    // the same date may be written in two ways
    for x in [&mut body, &mut want] {
        let d = s(&x["validFrom"]).parse::<chrono::DateTime<chrono::Utc>>().ok().map(|d| d.timestamp());
        x["validFrom"] = json!(d);
    }
    let logo_ok = if display == 3 { e["logo"]["image"] == "aW1hZ2U" } else { e.get("logo").is_none() };
    let ok = iss == e["issuer"] && date_ok && id_ok && body == want && e["issued"] == token && logo_ok;
    c.expect(ok, key, || json!({ "stored": e, "issued claims": cl, "parts": [iss == e["issuer"], date_ok, id_ok, body == want, logo_ok] }));
}

pub fn c51() -> ! {
    let mut c = Check::new("C51", "exploration");
    c.rule("every answer an issuer may give in place of a credential, in every form of response, immediately or after deferral, followed by save, by cancel, or by both orders, against the signatures of the items; lists of many items with the odd one at every place; then a fault at every provider call of each of these flows");
    c.assume("signatures are ideal (stubs/vercre-infosec)");
    // lists of items
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for n in 1..=c.pick(2, 3) {
        let pool: Vec<usize> = if n == 1 { (0..ITEMS).collect() } else { vec![0, 1, 3, 5, 7, 10, 13, 17, 19] };
        for w in gen::words(pool.len(), n) {
            lists.push(w.iter().map(|i| pool[*i]).collect());
        }
    }
    // many, with something else at every place
    for n in if c.thorough() { vec![3, 4, 5, 6, 7, 8, 9, 11, 16, 17, 33] } else { vec![3, 4, 5, 8, 9, 11] } {
        let good: Vec<usize> = (100..100 + n).collect();
        for at in 0..n {
            for bad in [5, 7, 10, 17] {
                let mut l = good.clone();
                l[at] = bad;
                lists.push(l);
            }
        }
        lists.push(good);
    }
    let forms = ["single", "list"];
    c.bound("items in the place of a credential", ITEMS);
    c.bound("items per response", c.pick(2, 3));
    for display in 0..DISPLAYS.len() {
        let mut w = fresh();
        let mut cfg = (*w.icfg).clone();
        let mut j = world::issuer::issuer_json();
        let slot = &mut j["credential_configurations_supported"][EMP];
        match display {
            1 => {
                slot.as_object_mut().unwrap().remove("display");
            }
            2 => slot["display"] = json!([]),
            3 => slot["display"] = json!([{ "name": "E", "locale": "en-NZ", "logo": { "uri": "http://logo", "alt_text": "logo" } }]),
            _ => {}
        }
        cfg.issuers = world::issuer::cfg(j, world::issuer::server_json(), vec![]).issuers;
        w.icfg = cfg.into();
        // at once, deferred, or deferred together with another one
        for others in 0..3 {
            let deferred = others > 0;
            load(&w);
            if deferred {
                with(|w| w.datasets.values_mut().for_each(|d| d.1 = true));
            }
            let (offer, _) = make_offer("offer", if others == 2 { &[EMP, DEV] } else { &[EMP] }, &[PRE], false);
            let id = s(&must("flow", "offer", offer_req(&offer))["issuance_id"]);
            must("accept", "accept", json!({ "issuance_id": id, "accept": null }));
            must("token", "token", json!(id));
            let mut call = ("credentials", json!({ "issuance_id": id, "credential_identifiers": null, "format": null }));
            if deferred {
                let r = must("creds", "credentials", call.1.clone());
                let t = r["deferred"].as_object().and_then(|o| o.iter().find(|(_, v)| *v == EMP).map(|(k, _)| k.clone())).unwrap_or_default();
                call = ("deferred", json!({ "issuance_id": id, "transaction_id": t, "credential_configuration_id": EMP }));
                with(|w| w.datasets.values_mut().for_each(|d| d.1 = false));
            }
            let start = save();
            for form in 0..forms.len() {
                for list in &lists {
                    if (form == 0 && list.len() != 1) || ((display > 0 || others == 2) && list.len() > 1) {
                        continue;
                    }
                    let items: Vec<(&str, Value, bool)> = list.iter().map(|k| item(*k)).collect();
                    let key = format!("{}/{}/{}/{:?}", DISPLAYS[display], ["at once", "deferred", "deferred with another"][others], forms[form], if list.len() > 3 { list.iter().map(|k| k.to_string()).collect::<Vec<_>>() } else { items.iter().map(|i| i.0.to_string()).collect() });
                    if !c.case(&key) {
                        continue;
                    }
                    c.distinct(&key);
                    let values: Vec<Value> = items.iter().map(|i| i.1.clone()).collect();
                    let v2 = values.clone();
                    let tamper = Tamper(Arc::new(move |ep, mut r| {
                        if ep == "credential" || ep == "deferred" {
                            let o = r.as_object_mut().unwrap();
                            o.remove("credential");
                            if form == 0 {
                                o.insert("credential".into(), v2[0].clone());
                            } else {
                                o.insert("credentials".into(), json!(v2));
                            }
                        }
                        r
                    }));
                    let good = items.iter().all(|i| i.2);
                    let run = |c: &mut Check, fail: Option<usize>| -> Option<(bool, usize, World)> {
                        load(&start);
                        with(|w| {
                            w.tamper = Some(tamper.clone());
                            w.calls = 0;
                            w.fail_at = fail;
                        });
                        let out = go("get", call.0, call.1.clone());
                        let calls = with(|w| {
                            w.fail_at = None;
                            w.tamper = None;
                            w.calls
                        });
                        match out {
                            Err(p) => {
                                c.violation(&key, json!({ "panic": p, "fault": fail, "items": values }));
                                None
                            }
                            Ok(o) => {
                                let w = save();
                                c.expect(w.creds.is_empty(), &key, || json!({ "stored before saving": w.creds, "fault": fail }));
                                Some((o.is_ok(), calls, w))
                            }
                        }
                    };
                    let Some((ok, calls, after)) = run(&mut c, None) else { continue };
                    c.outcome(if ok { "taken" } else { "refused" });
                    // nothing to save and nothing outstanding ends the flow
                    c.expect(ok == good, &key, || json!({ "taken": ok, "expected": good, "items": values }));
                    if ok != good {
                        continue;
                    }
                    // what is then saved, or not
                    // (with another one outstanding, saving leaves the flow open)
                    for act in [&["save"][..], &["cancel"], &["cancel", "save"], &["save", "cancel"], &["save", "save"]] {
                        load(&after);
                        let mut alive = state(&id).is_some();
                        let mut want_saved = false;
                        for a in act {
                            c.transition();
                            let out = go(a, if *a == "save" { "save" } else { "cancel" }, json!({ "issuance_id": id }));
                            match out {
                                Err(p) => c.violation(&key, json!({ "panic": p, "act": act })),
                                Ok(o) => {
                                    c.expect(o.is_ok() == alive, &key, || json!({ "act": act, "got": o.json(), "flow": alive }));
                                    want_saved |= *a == "save" && alive && ok;
                                    if o.is_ok() {
                                        // saving leaves a flow open that has deferred credentials
                                        alive = state(&id).is_some();
                                        c.expect(*a == "save" || !alive, &key, || json!({ "cancelled flow kept": act }));
                                    }
                                }
                            }
                        }
                        let creds = save().creds;
                        let by_id: std::collections::BTreeMap<String, String> = if want_saved {
                            items.iter().enumerate().map(|(i, it)| {
                                let (_, cl) = open_jwt(&s(&it.1), ISSUER_PK).or_else(|| open_jwt(&s(&it.1), "pk-issuer-1")).unwrap();
                                (cl["vc"]["id"].as_str().map_or(format!("anon{i}"), String::from), s(&it.1))
                            }).collect()
                        } else {
                            Default::default()
                        };
                        let (mut a, mut b): (Vec<String>, Vec<String>) = (creds.values().map(|e| s(&e["issued"])).collect(), by_id.values().cloned().collect());
                        a.sort();
                        b.sort();
                        c.expect(a == b, &key, || json!({ "act": act, "stored": a, "expected": b }));
                        for e in creds.values() {
                            judge_entry(&mut c, &key, e, &s(&e["issued"]), display);
                        }
                    }
                    // faults
                    if list.len() < 2 || (c.thorough() && list.len() < 4) {
                        for k in 0..calls {
                            c.transition();
                            let Some((okf, _, wf)) = run(&mut c, Some(k)) else { continue };
                            c.expect(good || !okf, &key, || json!({ "taken with a fault at": k, "items": values }));
                            // whatever happened, only good credentials wait to be saved
                            load(&wf);
                            if state(&id).is_some() {
                                let _ = go("save", "save", json!({ "issuance_id": id }));
                            }
                            for e in save().creds.values() {
                                let t = s(&e["issued"]);
                                c.expect(good && values.iter().any(|v| s(v) == t), &key, || json!({ "stored after a fault": e, "fault": k }));
                            }
                        }
                    }
                }
            }
        }
    }
    nth(&mut c);
    c.finish()
}

/// One of the answers of a step for several credentials is not a credential:
/// the step fails, and nothing but genuine credentials is stored afterwards.
fn nth(c: &mut Check) {
    use std::sync::atomic::{AtomicUsize, Ordering};
    for n in 2..=c.pick(3, 5) {
        for at in 0..n {
            for k in 0..ITEMS {
                let (name, value, good) = item(k);
                let key = format!("answer {at} of {n}: {name}");
                if good || !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let mut w = world::issuer::wide::world(n, 1);
                w.vcfg = world::verifier::std_vcfg().into();
                load(&w);
                let confs: Vec<String> = (0..n).map(world::issuer::wide::conf).collect();
                let (offer, _) = make_offer("offer", &confs.iter().map(String::as_str).collect::<Vec<_>>(), &[PRE], false);
                let id = s(&must("flow", "offer", offer_req(&offer))["issuance_id"]);
                must("accept", "accept", json!({ "issuance_id": id, "accept": null }));
                must("token", "token", json!(id));
                let (seen, v) = (AtomicUsize::new(0), value.clone());
                with(|w| {
                    w.tamper = Some(Tamper(Arc::new(move |ep, mut r| {
                        if ep == "credential" && seen.fetch_add(1, Ordering::SeqCst) == at {
                            r["credential"] = v.clone();
                        }
                        r
                    })));
                });
                let out = go("get", "credentials", json!({ "issuance_id": id, "credential_identifiers": null, "format": null }));
                with(|w| w.tamper = None);
                c.outcome("one of several refused");
                c.expect(matches!(&out, Ok(o) if !o.is_ok()), &key, || json!({ "taken": format!("{out:?}") }));
                c.expect(save().creds.is_empty(), &key, || json!({ "stored before saving": true }));
                let _ = go("save", "save", json!({ "issuance_id": id }));
                for e in save().creds.values() {
                    c.expect(e["issued"] != value && open_jwt(&s(&e["issued"]), ISSUER_PK).is_some(), &key, || json!({ "stored": e }));
                }
            }
        }
    }
}
