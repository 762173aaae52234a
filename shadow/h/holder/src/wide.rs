//! More of everything: flows for many credentials, and many flows.
use world::issuer::wide::{conf, data, idents, kind};

use crate::util::*;

fn sizes(c: &Check) -> Vec<usize> {
    if c.thorough() { (1..=12).chain([16, 17, 24]).collect() } else { vec![1, 2, 3, 4, 5, 6, 7, 9] }
}
fn wide(n: usize, per: usize) -> World {
    let mut w = world::issuer::wide::world(n, per);
    w.vcfg = world::verifier::std_vcfg().into();
    w
}
fn offer(label: &str, n: usize, grants: &[&str], pin: bool) -> (Value, String) {
    let ids: Vec<String> = (0..n).map(conf).collect();
    make_offer(label, &ids.iter().map(String::as_str).collect::<Vec<_>>(), grants, pin)
}
fn accepting(v: &[usize]) -> Value {
    v.iter().map(|i| json!({ "credential_configuration_id": conf(*i), "claims": null })).collect()
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
/// The credentials that are kept in a flow: (kind, claims), all for alice.
fn held(id: &str) -> Vec<(String, Value)> {
    let st = state(id).unwrap_or_default();
    let mut v: Vec<(String, Value)> = st["credentials"].as_array().cloned().unwrap_or_default().iter().map(|e| contents(&s(&e["issued"]))).collect();
    v.sort_by_key(|x| format!("{x:?}"));
    v
}
fn contents(token: &str) -> (String, Value) {
    let Some((_, c)) = open_jwt(token, ISSUER_PK) else { return ("not signed by the issuer".into(), Value::Null) };
    let mut sub = c["vc"]["credentialSubject"].clone();
    if s(&sub["id"]) != "did:example:alice" {
        return ("for another holder".into(), sub);
    }
    sub.as_object_mut().unwrap().remove("id");
    (s(&c["vc"]["type"][1]), sub)
}
fn expected(v: &[usize], per: usize) -> Vec<(String, Value)> {
    let mut w: Vec<(String, Value)> = v.iter().flat_map(|i| idents(*i, per).into_iter().map(move |d| (kind(*i), data(&d)))).collect();
    w.sort_by_key(|x| format!("{x:?}"));
    w
}
/// Subsets of n things: all of them in three ways, and each one alone, left
/// out, or with those before or after it.
fn subsets(n: usize) -> Vec<(String, Option<Vec<usize>>)> {
    let mut v: Vec<(String, Option<Vec<usize>>)> = vec![("everything".into(), None), ("all named".into(), Some((0..n).collect())), ("all reversed".into(), Some((0..n).rev().collect()))];
    for i in 0..n {
        v.push((format!("only {i}"), Some(vec![i])));
        if n > 2 {
            v.push((format!("all but {i}"), Some((0..n).filter(|k| *k != i).collect())));
            v.push((format!("up to {i}"), Some((0..=i).collect())));
            let mut r: Vec<usize> = (0..n).collect();
            r.rotate_left(i);
            v.push((format!("from {i} on and round"), Some(r)));
        }
    }
    v
}

/// C53: whole flows.
pub fn flows(c: &mut Check) {
    let ns = sizes(c);
    c.bound("credentials per flow, up to", ns[ns.len() - 1]);
    for n in ns {
        for per in [1, 2] {
            for grant in ["pre", "pin", "code", "wallet", "wallet scope"] {
                for (an, accept) in subsets(n) {
                    if grant == "wallet scope" && accept.as_ref().is_some_and(|v| v.len() != 1) {
                        continue;
                    }
                    // in one go, or identifier by identifier
                    for single in [false, true] {
                        if (per == 2 && (single || grant == "pin")) || (grant == "wallet scope" && (single || per == 2)) {
                            continue;
                        }
                        let key = format!("wide {n}/{per}/{grant}/{an}/{}", if single { "one by one" } else { "at once" });
                        if !c.case(&key) {
                            continue;
                        }
                        c.distinct(&key);
                        match mc::guard(|| flow(n, per, grant, accept.as_deref(), single)) {
                            Err(p) => c.violation(&key, json!({ "not delivered": p })),
                            Ok((had, before)) => {
                                c.outcome("stored");
                                let got = accept.clone().unwrap_or_else(|| (0..n).collect());
                                let got = if grant == "wallet scope" && accept.is_none() { vec![n - 1] } else { got };
                                let want = expected(&got, per);
                                c.expect(had == want, &key, || json!({ "received": had, "expected": want }));
                                c.expect(before == 0, &key, || json!({ "stored before saving": before }));
                                let kept: Vec<(String, Value)> = stored().iter().map(|t| contents(t)).collect();
                                c.expect(kept.len() == got.len() && kept.iter().all(|k| want.contains(k)), &key, || json!({ "stored": kept, "expected": want }));
                                c.expect(!save().store.keys().any(|k| k.starts_with("h:")), &key, || json!({ "flow left behind": true }));
                            }
                        }
                    }
                }
            }
        }
    }
}
fn flow(n: usize, per: usize, grant: &str, accept: Option<&[usize]>, single: bool) -> (Vec<(String, Value)>, usize) {
    load(&wide(n, per));
    let all: Vec<usize> = (0..n).collect();
    let want: Vec<usize> = accept.map_or(all, <[usize]>::to_vec);
    let mut format = Value::Null;
    let id = if grant.starts_with("wallet") {
        let mut b = json!({ "initiator": { "Wallet": { "client_id": CLIENT, "issuer": ISSUER, "subject_id": "alice" } }, "redirect_uri": REDIRECT });
        if grant == "wallet" {
            b["authorization_details"] = want.iter().map(|i| json!({ "type": "openid_credential", "credential_configuration_id": conf(*i) })).collect();
        } else {
            let i = want[want.len() - 1];
            b["initiator"]["Wallet"]["scope"] = json!(format!("wide{i}"));
            format = with(|w| serde_json::to_value(&w.icfg.issuers[ISSUER].credential_configurations_supported[&conf(i)].format).unwrap());
        }
        s(&must("wa", "authorize", b)["issuance_id"])
    } else {
        let (o, pin) = offer("wo", n, if grant == "code" { &[AUTH] } else { &[PRE] }, grant == "pin");
        let id = s(&must("wf", "offer", offer_req(&o))["issuance_id"]);
        must("wx", "accept", json!({ "issuance_id": id, "accept": accept.map_or(Value::Null, accepting) }));
        if grant == "pin" {
            must("wp", "pin", json!({ "issuance_id": id, "pin": pin }));
        }
        if grant == "code" {
            must("wa", "authorize", json!({ "initiator": { "Issuer": { "issuance_id": id } }, "redirect_uri": REDIRECT }));
        } else {
            must("wt", "token", json!(id));
        }
        id
    };
    if single {
        for i in want.iter().rev() {
            for d in idents(*i, per) {
                must("wc", "credentials", json!({ "issuance_id": id, "credential_identifiers": [d], "format": null }));
            }
        }
    } else {
        must("wc", "credentials", json!({ "issuance_id": id, "credential_identifiers": null, "format": format }));
    }
    let had = held(&id);
    let before = stored().len();
    must("ws", "save", json!({ "issuance_id": id }));
    (had, before)
}

/// C50: what is refused at every place of a long list, what is asked for, and
/// many flows side by side.
pub fn steps(c: &mut Check) {
    for n in sizes(c) {
        load(&wide(n + 1, 1));
        let (o, _) = offer("wo", n, &[PRE], false);
        let clean = save();
        let r = must("wf", "offer", offer_req(&o));
        let id = s(&r["issuance_id"]);
        let base = save();
        let told = sorted(r["offered"].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default());
        let want = sorted((0..n).map(conf).collect());
        c.expect(told == want, &format!("wide {n}/offer"), || json!({ "offered": told, "expected": want }));
        for at in 0..=n {
            // offers and acceptances with something else in them
            for (bn, bad) in [("unknown", "NoSuch_JWT".to_string()), ("not offered", conf(n)), ("near", conf(0).to_lowercase()), ("empty", String::new())] {
                let key = format!("wide {n}/{bn} at {at}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let mut ids: Vec<String> = (0..n).map(conf).collect();
                ids.insert(at, bad);
                if bn != "not offered" {
                    load(&clean);
                    let mut o2 = o.clone();
                    o2["credential_configuration_ids"] = json!(ids);
                    let out = go("wb", "offer", offer_req(&o2));
                    c.validated();
                    c.expect(matches!(&out, Ok(x) if !x.is_ok()) && save().store == clean.store, &key, || json!({ "offered": ids, "got": format!("{out:?}") }));
                }
                load(&base);
                let accept: Value = ids.iter().map(|i| json!({ "credential_configuration_id": i, "claims": null })).collect();
                let out = go("wb", "accept", json!({ "issuance_id": id, "accept": accept }));
                c.validated();
                c.outcome("refused by the wallet");
                c.expect(matches!(&out, Ok(x) if !x.is_ok()) && save().store == base.store && with(|w| w.sent.is_empty()), &key, || json!({ "accepted": ids, "got": format!("{out:?}") }));
            }
        }
        for (an, accept) in subsets(n) {
            let key = format!("wide {n}/accept {an}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            load(&base);
            let want = accept.clone().unwrap_or_else(|| (0..n).collect());
            let r = mc::guard(|| {
                must("wx", "accept", json!({ "issuance_id": id, "accept": accept.as_deref().map_or(Value::Null, accepting) }));
                must("wt", "token", json!(id))
            });
            let ids = sorted(want.iter().flat_map(|i| idents(*i, 1)).collect());
            let Ok(r) = r else {
                c.violation(&key, json!({ "step failed": format!("{r:?}") }));
                continue;
            };
            c.outcome("done");
            let told = sorted(r["authorized"].as_object().map(|o| o.values().flat_map(|v| v.as_array().cloned().unwrap_or_default()).map(|v| s(&v)).collect()).unwrap_or_default());
            c.expect(told == ids, &key, || json!({ "authorized": told, "accepted": ids }));
            // the credentials that are named, wherever something else is named too
            let tok = save();
            for at in 0..=want.len() {
                let mut foreign = vec![None, Some("wide-99-0".to_string()), Some(String::new())];
                if let Some(i) = want.get(at) {
                    let d = idents(*i, 1)[0].clone();
                    foreign.extend([format!("{d}0"), format!("{d} "), d[..d.len() - 1].to_string(), d.to_uppercase()].map(Some));
                }
                for f in foreign {
                    load(&tok);
                    let mut exp: Vec<String> = want.iter().take(at).flat_map(|i| idents(*i, 1)).collect();
                    let mut names = exp.clone();
                    names.extend(f.clone());
                    // some follow, or none
                    if at % 2 == 0 || f.is_some() {
                        let rest: Vec<String> = want.iter().skip(at + 1).flat_map(|i| idents(*i, 1)).collect();
                        names.extend(rest.clone());
                        exp.extend(rest);
                    }
                    let out = go("wc", "credentials", json!({ "issuance_id": id, "credential_identifiers": names, "format": null }));
                    c.transition();
                    let asked = sorted(sent("credential").iter().map(|r| s(&r["credential_identifier"])).collect());
                    let exp = sorted(exp);
                    // what was not granted is refused, and then nothing is asked for
                    let ok = match &f {
                        None => matches!(&out, Ok(x) if x.is_ok()) && asked == exp,
                        Some(_) => matches!(&out, Ok(x) if !x.is_ok()) && asked.is_empty(),
                    };
                    c.expect(ok, &key, || json!({ "asked for": asked, "named": names, "got": format!("{out:?}") }));
                }
            }
        }
        side_by_side(c, n);
    }
}
/// n flows, each a step at a time; one of them is cancelled half way.
fn side_by_side(c: &mut Check, n: usize) {
    for gone in 0..n {
        for at in 0..4 {
            let key = format!("wide {n}/flow {gone} cancelled after step {at}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let out = mc::guard(|| {
                load(&wide(n, 1));
                let ids: Vec<String> = (0..n)
                    .map(|i| {
                        let (o, _) = make_offer(&format!("so{i}"), &[&conf(i)], &[PRE], false);
                        s(&must(&format!("sf{i}"), "offer", offer_req(&o))["issuance_id"])
                    })
                    .collect();
                for step in 0..5 {
                    for (i, id) in ids.iter().enumerate() {
                        if i == gone && step == at {
                            must("sx", "cancel", json!({ "issuance_id": id }));
                        }
                        if i == gone && step >= at {
                            continue;
                        }
                        match step {
                            0 => must(&format!("sa{i}"), "accept", json!({ "issuance_id": id, "accept": null })),
                            1 => must(&format!("st{i}"), "token", json!(id)),
                            2 => must(&format!("sc{i}"), "credentials", json!({ "issuance_id": id, "credential_identifiers": null, "format": null })),
                            3 => must(&format!("ss{i}"), "save", json!({ "issuance_id": id })),
                            _ => Value::Null,
                        };
                    }
                }
                let mut v: Vec<(String, Value)> = stored().iter().map(|t| contents(t)).collect();
                v.sort_by_key(|x| format!("{x:?}"));
                (v, save().store.keys().filter(|k| k.starts_with("h:")).count())
            });
            c.outcome("done");
            let rest: Vec<usize> = (0..n).filter(|i| *i != gone).collect();
            let want = (expected(&rest, 1), 0);
            c.expect(out.as_ref() == Ok(&want), &key, || json!({ "got": format!("{out:?}"), "expected": format!("{want:?}") }));
        }
    }
}

/// C50: flows of their own do not share what is secret: each authorization
/// request has a challenge of its own, answered by its own verifier.
pub fn secrets(c: &mut Check) {
    const N: usize = 4;
    let name = |i: usize, offered: bool| format!("{}{i}", if offered { "offered " } else { "asked for " });
    // all requests first, or one flow after another; started either way
    for (turns, starts) in gen::product(&[2, 1 << N]).into_iter().map(|v| (v[0], v[1])) {
        let key = format!("secrets/{}/{starts:04b}", if turns == 0 { "one after another" } else { "side by side" });
        if !c.case(&key) {
            continue;
        }
        c.distinct(&key);
        let out = mc::guard(|| {
            load(&fresh());
            let (mut asked, mut told, mut ids) = (vec![], vec![], vec![]);
            let start = |i: usize| {
                let offered = starts >> i & 1 == 1;
                let b = if offered {
                    let (o, _) = make_offer(&format!("zo{i}"), &[EMP], &[AUTH], false);
                    let id = s(&must(&format!("zf{i}"), "offer", offer_req(&o))["issuance_id"]);
                    must(&format!("zx{i}"), "accept", json!({ "issuance_id": id, "accept": null }));
                    json!({ "initiator": { "Issuer": { "issuance_id": id } }, "redirect_uri": REDIRECT })
                } else {
                    json!({ "initiator": { "Wallet": { "client_id": CLIENT, "issuer": ISSUER, "subject_id": "alice" } }, "redirect_uri": REDIRECT,
                            "authorization_details": [{ "type": "openid_credential", "credential_configuration_id": EMP }] })
                };
                (must(&format!("za{i}"), "authorize", b)["issuance_id"].clone(), sent("authorize"), sent("token"))
            };
            for i in 0..N {
                let (id, a, t) = start(i);
                asked.extend(a.into_iter().map(|r| (name(i, starts >> i & 1 == 1), s(&r["code_challenge"]), s(&r["code_challenge_method"]))));
                told.extend(t.into_iter().map(|r| s(&r["code_verifier"])));
                if turns == 0 {
                    must(&format!("zc{i}"), "credentials", json!({ "issuance_id": id, "credential_identifiers": null, "format": null }));
                    must(&format!("zs{i}"), "save", json!({ "issuance_id": id }));
                } else {
                    ids.push(id);
                }
            }
            for (i, id) in ids.iter().enumerate() {
                must(&format!("zc{i}"), "credentials", json!({ "issuance_id": id, "credential_identifiers": null, "format": null }));
                must(&format!("zs{i}"), "save", json!({ "issuance_id": id }));
            }
            (asked, told)
        });
        match out {
            Err(p) => c.violation(&key, json!({ "not delivered": p })),
            Ok((asked, told)) => {
                c.outcome("stored");
                let some = |v: &[String]| v.len() == N && v.iter().all(|x| x.len() >= 43) && v.iter().collect::<std::collections::BTreeSet<_>>().len() == N;
                let ch: Vec<String> = asked.iter().map(|a| a.1.clone()).collect();
                c.expect(some(&ch), &key, || json!({ "challenges shared between flows, or none": asked }));
                c.expect(some(&told), &key, || json!({ "verifiers shared between flows, or none": told }));
            }
        }
    }
}

/// C50: the PIN the holder enters is the PIN that is sent.
pub fn pins(c: &mut Check) {
    load(&fresh());
    let (o, pin) = make_offer("pins", &[EMP], &[PRE], true);
    let id = s(&must("po", "offer", offer_req(&o))["issuance_id"]);
    must("pa", "accept", json!({ "issuance_id": id, "accept": null }));
    let base = save();
    let mut all = gen::near(&pin);
    all.retain(|p| !p.is_empty());
    all.extend(["012345", "000000", "1", "12345", "1234567", "999999999999", "+12345", "-1", "1e3", "0x10", "1 2 3", "\u{661}\u{662}", "٣", "ABC def", "a&b=c%20", "{\"a\":1}", "\"1\""].map(String::from));
    all.push(pin.clone());
    for p in all {
        let key = format!("PIN/{p:?}");
        if !c.case(&key) {
            continue;
        }
        c.transition();
        load(&base);
        let out = go("pp", "pin", json!({ "issuance_id": id, "pin": p }));
        c.expect(matches!(&out, Ok(o) if o.is_ok()), &key, || json!({ "pin": format!("{out:?}") }));
        let out = go("pt", "token", json!(id));
        let t = sent("token");
        c.expect(t.len() == 1 && t[0]["tx_code"] == json!(p), &key, || json!({ "entered": p, "sent": t }));
        c.expect(matches!(&out, Ok(o) if o.is_ok()) == (p == pin), &key, || json!({ "entered": p, "PIN": pin, "got": format!("{out:?}") }));
    }
}

/// Flows by scope: only a format of that scope is asked for; any other one,
/// none, or a list of identifiers is refused, asks nobody and changes nothing.
pub fn scopes(c: &mut Check) {
    let n = c.pick(3, 6);
    for i in 0..n {
        load(&wide(n, 1));
        // the kinds of credential differ, also where the formats are alike
        let formats: Vec<Value> = with(|w| (0..n).map(|k| serde_json::to_value(&w.icfg.issuers[ISSUER].credential_configurations_supported[&conf(k)].format).unwrap()).collect());
        let b = json!({ "initiator": { "Wallet": { "client_id": CLIENT, "issuer": ISSUER, "subject_id": "alice", "scope": format!("wide{i}") } }, "redirect_uri": REDIRECT });
        let id = s(&must("sa", "authorize", b)["issuance_id"]);
        let base = save();
        let mut tries: Vec<(String, Value, Value, bool)> = (0..n).map(|k| (format!("format {k}"), formats[k].clone(), Value::Null, k == i)).collect();
        tries.push(("no format".into(), Value::Null, Value::Null, false));
        for k in 0..n {
            tries.push((format!("identifier {k}"), Value::Null, json!(idents(k, 1)), false));
            tries.push((format!("format and identifier {k}"), formats[i].clone(), json!(idents(k, 1)), false));
        }
        for (name, format, ids, want) in tries {
            let key = format!("scope {i}/{name}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            load(&base);
            let out = go("sc", "credentials", json!({ "issuance_id": id, "credential_identifiers": ids, "format": format }));
            let asked = sent("credential");
            let ok = matches!(&out, Ok(o) if o.is_ok());
            c.outcome(if ok { "by scope" } else { "not of the scope" });
            c.expect(ok == want && asked.len() == usize::from(want), &key, || json!({ "expected": want, "answer": format!("{out:?}"), "asked": asked }));
            if want {
                c.expect(held(&id) == expected(&[i], 1), &key, || json!({ "received": held(&id) }));
            } else {
                c.expect(state(&id) == base.store.get(&format!("h:{id}")).map(|x| x.0.clone()), &key, || json!({ "refused, but changed": true }));
            }
        }
    }
}
