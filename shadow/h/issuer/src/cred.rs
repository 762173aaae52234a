//! C23: when a credential is issued, and the nonce discipline.
use crate::expiry::no_proofs;
use crate::token::{fmt_detail, EMP_T};
use crate::util::*;
use world::seeded;

/// A key proof: name, JWT, the DID it proves possession for (None: worthless).
type Pv = (&'static str, String, Option<&'static str>);

/// Every kind of proof, given the nonce that is current for the token, the
/// token's previous nonce and the current nonce of somebody else's token.
pub fn proofs(cur: &str, old: &str, other: &str) -> Vec<Pv> {
    let hd = |kid: &str| json!({ "alg": "EdDSA", "typ": "openid4vci-proof+jwt", "kid": kid });
    let a0 = ("did:example:alice#k0", "pk-alice-0");
    let cl = proof_claims(cur);
    let put = |k: &str, v: Value| {
        let mut c = cl.clone();
        if v.is_null() {
            c.as_object_mut().unwrap().remove(k);
        } else {
            c[k] = v;
        }
        c
    };
    let typ = |t: Value| {
        let mut h = hd(a0.0);
        h["typ"] = t;
        trim(h)
    };
    let alice = Some("did:example:alice");
    let good = jwt(&hd(a0.0), &cl, a0.1);
    let parts: Vec<&str> = good.split('.').collect();
    let forged = jwt(&hd(a0.0), &proof_claims(other), a0.1);
    let fp: Vec<&str> = forged.split('.').collect();
    vec![
        ("good", good.clone(), alice),
        ("other key of the DID", jwt(&hd("did:example:alice#k1"), &cl, "pk-alice-1"), alice),
        ("other holder", jwt(&hd("did:example:mallory#k0"), &cl, "pk-mallory-0"), Some("did:example:mallory")),
        ("no iss", jwt(&hd(a0.0), &put("iss", Value::Null), a0.1), alice),
        ("signed by another holder", jwt(&hd(a0.0), &cl, "pk-mallory-0"), None),
        ("signed by the other key", jwt(&hd(a0.0), &cl, "pk-alice-1"), None),
        ("signed by the issuer", jwt(&hd(a0.0), &cl, ISSUER_PK), None),
        ("unknown DID", jwt(&hd("did:example:nobody#k0"), &cl, "pk-nobody-0"), None),
        ("unknown key", jwt(&hd("did:example:alice#k7"), &cl, a0.1), None),
        ("empty kid", jwt(&hd(""), &cl, a0.1), None),
        ("embedded key", jwt(&json!({ "alg": "EdDSA", "typ": "openid4vci-proof+jwt", "jwk": world::jwk(a0.1) }), &cl, a0.1), None),
        ("no key", jwt(&json!({ "alg": "EdDSA", "typ": "openid4vci-proof+jwt" }), &cl, a0.1), None),
        ("credential typ", jwt(&typ(json!("jwt")), &cl, a0.1), None),
        ("presentation typ", jwt(&typ(json!("vp+jwt")), &cl, a0.1), None),
        ("request typ", jwt(&typ(json!("oauth-authz-req+jwt")), &cl, a0.1), None),
        ("no typ", jwt(&typ(Value::Null), &cl, a0.1), None),
        ("other audience", jwt(&hd(a0.0), &put("aud", json!("http://other.example")), a0.1), None),
        ("audience with a suffix", jwt(&hd(a0.0), &put("aud", json!(format!("{ISSUER}/"))), a0.1), None),
        ("empty audience", jwt(&hd(a0.0), &put("aud", json!("")), a0.1), None),
        ("no audience", jwt(&hd(a0.0), &put("aud", Value::Null), a0.1), None),
        ("old nonce", jwt(&hd(a0.0), &put("nonce", json!(old)), a0.1), None),
        ("nonce of another token", jwt(&hd(a0.0), &put("nonce", json!(other)), a0.1), None),
        ("empty nonce", jwt(&hd(a0.0), &put("nonce", json!("")), a0.1), None),
        ("nonce with a suffix", jwt(&hd(a0.0), &put("nonce", json!(format!("{cur}x"))), a0.1), None),
        ("nonce cut short", jwt(&hd(a0.0), &put("nonce", json!(&cur[..cur.len() - 1])), a0.1), None),
        ("no nonce", jwt(&hd(a0.0), &put("nonce", Value::Null), a0.1), None),
        ("no signature", format!("{}.{}.", parts[0], parts[1]), None),
        ("two parts", format!("{}.{}", parts[0], parts[1]), None),
        ("four parts", format!("{good}.{}", parts[2]), None),
        ("spliced claims", format!("{}.{}.{}", fp[0], parts[1], fp[2]), None),
        ("no algorithm", jwt(&json!({ "typ": "openid4vci-proof+jwt", "kid": a0.0 }), &cl, a0.1), None),
        ("algorithm none", jwt(&json!({ "alg": "none", "typ": "openid4vci-proof+jwt", "kid": a0.0 }), &cl, a0.1), None),
        ("garbage", "garbage".into(), None),
        ("empty", String::new(), None),
    ]
}

struct Scene {
    w: World,
    tok: String,
    cur: String,
    old: String,
    other_tok: String,
    other: String,
}
/// alice's token (employee id, developer; one credential already issued), bob's.
fn scene(f: impl FnOnce(&mut World)) -> Scene {
    let mut w = fresh();
    recfg(&mut w, |k| {
        // a second dataset for the employee id
        k.authz.insert(("bob".into(), EMP.into()), vec!["EmpA".into(), "EmpB".into()]);
    });
    f(&mut w);
    load(&w);
    let (tok, old) = pre_token("a", "alice", &[EMP, DEV]);
    let r = must("first", "credential", cred_id(&tok, "PHLEmployeeID", Some(&proof_by("alice", &old))));
    let (other_tok, other) = pre_token("b", "bob", &[EMP]);
    let w = save();
    Scene { w, tok, cur: s(&r["c_nonce"]), old, other_tok, other }
}

pub fn c23(c: &mut Check) {
    c.rule("credential requests: every combination of access token, requested credential, configuration (with its proof types and algorithms) and set of key proofs (each of 34 kinds, up to the bound per request) against a reference predicate; every sequence of requests over two tokens against a model of the current nonces; every schedule of two simultaneous requests with the same nonce; and every text of a good request replaced by each text easily taken for it (near misses), also where the near name is registered too; and a wide world of many configurations, users and artefacts, the decisive one at every place");
    c.assume("signatures are ideal; random identifiers do not collide; provider calls are atomic");
    // requests: (name, members, identifiers that satisfy it for alice, for bob)
    let v2 = ["VerifiableCredential", "DeveloperCredential"];
    let fmt = |types: &[&str]| fmt_detail(types).as_object().unwrap().clone();
    let mut reqs: Vec<(&str, Value, Vec<&str>, Vec<&str>)> = vec![
        ("employee", json!({ "credential_identifier": "PHLEmployeeID" }), vec!["PHLEmployeeID"], vec![]),
        ("developer", json!({ "credential_identifier": "PHLDeveloper" }), vec!["PHLDeveloper"], vec![]),
        ("licence", json!({ "credential_identifier": "DriverLicence" }), vec![], vec![]),
        ("EmpA", json!({ "credential_identifier": "EmpA" }), vec![], vec!["EmpA"]),
        ("EmpB", json!({ "credential_identifier": "EmpB" }), vec![], vec!["EmpB"]),
        ("configuration id", json!({ "credential_identifier": EMP }), vec![], vec![]),
        ("empty", json!({ "credential_identifier": "" }), vec![], vec![]),
        ("other case", json!({ "credential_identifier": "phlemployeeid" }), vec![], vec![]),
        ("employee format", Value::Object(fmt(&EMP_T)), vec!["PHLEmployeeID"], vec!["EmpA", "EmpB"]),
        ("developer format", Value::Object(fmt(&v2)), vec!["PHLDeveloper"], vec![]),
        ("base type only", Value::Object(fmt(&["VerifiableCredential"])), vec![], vec![]),
        ("licence format", json!({ "format": "mso_mdoc", "doctype": MDL }), vec![], vec![]),
        ("ld format", json!({ "format": "jwt_vc_json-ld", "credential_definition": { "type": EMP_T } }), vec![], vec![]),
    ];
    for r in &mut reqs {
        r.1.as_object_mut().unwrap().remove("type");
    }
    let modes = ["jwt", "none", "other type", "alg EdDSA", "alg ES256K", "alg", "alg eddsa,EdDSA2,Ed,ES256"];
    let scenes: Vec<Scene> = modes
        .iter()
        .map(|m| {
            let mut s = scene(|_| ());
            match *m {
                "none" => no_proofs(&mut s.w),
                m if m.starts_with("alg") => recfg(&mut s.w, |k| {
                    let algs: Vec<&str> = m.trim_start_matches("alg").trim().split(',').filter(|a| !a.is_empty()).collect();
                    for i in k.issuers.values_mut() {
                        for c in i.credential_configurations_supported.values_mut() {
                            let t = c.proof_types_supported.as_ref().unwrap();
                            let mut v = json!(t);
                            v["jwt"]["proof_signing_alg_values_supported"] = json!(algs);
                            c.proof_types_supported = Some(serde_json::from_value(v).unwrap());
                        }
                    }
                }),
                "other type" => recfg(&mut s.w, |k| {
                    for i in k.issuers.values_mut() {
                        for c in i.credential_configurations_supported.values_mut() {
                            let t = c.proof_types_supported.take().unwrap();
                            c.proof_types_supported = Some(t.into_values().map(|v| ("ldp_vp".to_string(), v)).collect());
                        }
                    }
                }),
                _ => {}
            }
            s
        })
        .collect();
    let per = c.pick(2, 3);
    c.bound("proofs per request", per);
    for (mi, mode) in modes.iter().enumerate() {
        let sc = &scenes[mi];
        for tk in ["alice", "bob", "unknown", "empty", "nonce"] {
            let (tok, cur, old, other) = match tk {
                "alice" => (sc.tok.as_str(), &sc.cur, &sc.old, &sc.other),
                "bob" => (sc.other_tok.as_str(), &sc.other, &sc.old, &sc.cur),
                "unknown" => ("no-such-token", &sc.cur, &sc.old, &sc.other),
                "empty" => ("", &sc.cur, &sc.old, &sc.other),
                _ => (sc.cur.as_str(), &sc.cur, &sc.old, &sc.other),
            };
            let pv = proofs(cur, old, other);
            // proof sets: absent, empty list, single, lists
            let mut sets: Vec<(String, Value, Vec<usize>)> = vec![("absent".into(), Value::Null, vec![]), ("empty list".into(), json!({ "proofs": { "jwt": [] } }), vec![])];
            for (i, p) in pv.iter().enumerate() {
                sets.push((format!("single {}", p.0), json!({ "proof": single(&p.1) }), vec![i]));
            }
            for n in 1..=per {
                // several proofs matter only where tokens and requests are in order
                if n > 1 && !(tk == "alice" && *mode == "jwt") {
                    continue;
                }
                for word in gen::words(pv.len(), n) {
                    if n == 3 && word.iter().filter(|i| pv[**i].2.is_none()).count() > 1 {
                        continue;
                    }
                    let names: Vec<&str> = word.iter().map(|i| pv[*i].0).collect();
                    let jwts: Vec<&String> = word.iter().map(|i| &pv[*i].1).collect();
                    sets.push((format!("list {names:?}"), json!({ "proofs": { "jwt": jwts } }), word));
                }
            }
            for (rn, rb, for_a, for_b) in &reqs {
                for issuer in [ISSUER, "http://other.example"] {
                    for (sn, sb, idx) in &sets {
                        if (idx.len() > 1 || issuer != ISSUER && idx.len() == 1 && idx[0] > 3) && *rn != "employee" {
                            continue;
                        }
                        let key = format!("{mode}/{tk}/{rn}/{issuer}/{sn}");
                        if !c.case(&key) {
                            continue;
                        }
                        c.distinct(&key);
                        let mut body = rb.clone();
                        body["credential_issuer"] = json!(issuer);
                        body["access_token"] = json!(tok);
                        if let Some(o) = sb.as_object() {
                            for (k, v) in o {
                                body[k] = v.clone();
                            }
                        }
                        let allowed = match tk {
                            "alice" => for_a,
                            "bob" => for_b,
                            _ => &vec![],
                        };
                        let authorised = !allowed.is_empty() && issuer == ISSUER;
                        let proven = match *mode {
                            "none" => true,
                            "other type" => false,
                            m if m.starts_with("alg") && m != "alg EdDSA" => false,
                            _ => !idx.is_empty() && idx.iter().all(|i| pv[*i].2.is_some()),
                        };
                        load(&sc.w);
                        let ctx = json!({ "configuration": mode, "token": tk, "request": body });
                        let out = go("req", "credential", body);
                        let code = out.as_ref().map(Out::code).unwrap_or_default();
                        let err = match &out {
                            Ok(Out::Err(e)) => e.clone(),
                            _ => Value::Null,
                        };
                        if let Some(r) = judge(c, &key, out, authorised && proven, &ctx) {
                            // issued to the proven DID, with the authorised dataset of the token's subject
                            match subject_of(&r) {
                                Some((did, claims)) => {
                                    let dids: Vec<&str> = idx.iter().filter_map(|i| pv[*i].2).collect();
                                    c.expect(*mode == "none" || dids.contains(&did.as_str()), &key, || json!({ "bound to": did, "proven": dids, "ctx": ctx }));
                                    let ok = allowed.iter().any(|id| claims == claims_of(tk, id));
                                    c.expect(ok, &key, || json!({ "claims": claims, "ctx": ctx }));
                                }
                                None => c.violation(&key, json!({ "not a credential of the issuer": r, "ctx": ctx })),
                            }
                            let fresh_nonce = s(&r["c_nonce"]);
                            c.expect(fresh_nonce.len() > 20 && fresh_nonce != *cur, &key, || json!({ "nonce not renewed": r, "ctx": ctx }));
                            c.sample(json!({ "case": key, "issued": true }));
                        } else if authorised && matches!(*mode, "jwt" | "alg EdDSA") && !proven {
                            // told a new nonce, which works, and the old one does not any more
                            let n = s(&err["c_nonce"]);
                            c.expect(code == "invalid_proof" && n.len() > 20 && n != *cur, &key, || json!({ "no new nonce": err, "code": code, "ctx": ctx }));
                            let id = allowed[0];
                            let w1 = save();
                            let again = ask("again-old", tok, id, "alice", cur);
                            c.expect(matches!(&again, Ok(o) if !o.is_ok()), &key, || json!({ "old nonce still good after invalid_proof": ctx }));
                            load(&w1);
                            let again = ask("again", tok, id, "alice", &n);
                            c.expect(matches!(&again, Ok(o) if o.is_ok()), &key, || json!({ "new nonce refused": format!("{again:?}"), "ctx": ctx }));
                        } else if !authorised {
                            // nothing happened to the tokens
                            let a = ask("a-still", &sc.tok, "PHLEmployeeID", "alice", &sc.cur);
                            c.expect(matches!(&a, Ok(o) if o.is_ok()) || *mode == "other type" || mode.starts_with("alg") && *mode != "alg EdDSA", &key, || json!({ "refused request spoilt the token": format!("{a:?}"), "ctx": ctx }));
                        }
                    }
                }
            }
        }
    }
    nonces(c, &scenes[0]);
    races(c, &scenes[0]);
    crate::near::credential(c);
    crate::wide::credential(c);
    crate::names::flows(c, "pre");
    formats(c);
    waits(c);
}

/// Requests by format, with and without the claims wanted, for everything
/// there is, with tokens for some of it.
fn formats(c: &mut Check) {
    use world::issuer::wide::{conf, data, idents, types};
    let n = c.pick(4, 6);
    c.bound("configurations of which a token covers some", n);
    let wanted: [(&str, Option<Value>); 6] = [
        ("no claims", None),
        ("no claims named", Some(json!({}))),
        ("a claim", Some(json!({ "k": {} }))),
        ("another claim", Some(json!({ "z": {} }))),
        ("a claim inside", Some(json!({ "x": { "y": {} } }))),
        ("every claim", Some(json!({ "k": {}, "x": { "y": {} }, "z": {} }))),
    ];
    for set in 1..1usize << n {
        let covered: Vec<usize> = (0..n).filter(|i| set >> i & 1 == 1).collect();
        for grant in ["offer", "details", "scope"] {
            load(&world::issuer::wide::world(n, 2));
            let ids: Vec<String> = covered.iter().map(|i| conf(*i)).collect();
            let refs: Vec<&str> = ids.iter().map(String::as_str).collect();
            let (tok, nonce) = match grant {
                "offer" => pre_token("fo", "alice", &refs),
                _ => {
                    let mut b = auth_body("alice", &refs);
                    if grant == "scope" {
                        b.as_object_mut().unwrap().remove("authorization_details");
                        b["scope"] = json!(covered.iter().map(|i| format!("wide{i}")).collect::<Vec<_>>().join(" "));
                    }
                    let r = must("fa", "authorize", b);
                    let r = must("ft", "token", token_auth(&s(&r["code"])));
                    (s(&r["access_token"]), s(&r["c_nonce"]))
                }
            };
            let base = save();
            for i in 0..=n {
                for (wn, want) in &wanted {
                    let key = format!("formats/{set:b}/{grant}/{i}/{wn}");
                    if !c.case(&key) {
                        continue;
                    }
                    c.distinct(&key);
                    load(&base);
                    let mut b = cred_id(&tok, "", Some(&proof_by("bob", &nonce)));
                    b.as_object_mut().unwrap().remove("credential_identifier");
                    b["format"] = json!("jwt_vc_json");
                    b["credential_definition"] = json!({ "type": types(i) });
                    if let Some(w) = want {
                        b["credential_definition"]["credentialSubject"] = w.clone();
                    }
                    let ctx = json!({ "token covers": covered, "by": grant, "request": b });
                    let out = go("fr", "credential", b);
                    let Some(r) = judge(c, &key, out, covered.contains(&i), &ctx) else { continue };
                    let got = subject_of(&r);
                    // of this configuration; which claims it has is C24's
                    let ok = got.as_ref().is_some_and(|(did, cl)| {
                        did == "did:example:bob" && idents(i, 2).iter().any(|d| cl.as_object().is_some_and(|o| o.iter().all(|(k, v)| data(d)[k] == *v)))
                    });
                    c.expect(ok, &key, || json!({ "credential": got, "ctx": ctx }));
                }
            }
        }
    }
}

/// Any wait between the requests of a token: a nonce that has gone stale is
/// refused with one that works.
fn waits(c: &mut Check) {
    let ages: &[i64] = if c.thorough() { &[0, 1, 300, 598, 603, 605, 700, 850, 890] } else { &[0, 300, 598, 603, 890] };
    let depth = 3;
    c.bound("waits per history", depth);
    for w in gen::words(ages.len(), depth) {
        for bad in 0..=depth {
            let key = format!("waits/{:?}/{bad}", w.iter().map(|i| ages[*i]).collect::<Vec<_>>());
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            load(&fresh());
            let (tok, mut nonce) = pre_token("wt", "alice", &[EMP, DEV]);
            // age of the nonce and of the token's last use
            for (k, i) in w.iter().enumerate() {
                clock::advance(ages[*i]);
                c.transition();
                let stale = ages[*i] > 600;
                let say = if k == bad { "never issued".to_string() } else { nonce.clone() };
                let out = ask(&format!("w{k}"), &tok, ["PHLEmployeeID", "PHLDeveloper"][k % 2], "alice", &say);
                let code = out.as_ref().map(Out::code).unwrap_or_default();
                let new = match &out {
                    Ok(Out::Ok(v) | Out::Err(v)) => s(&v["c_nonce"]),
                    _ => String::new(),
                };
                let ctx = json!({ "waited": ages[*i], "step": k, "got": format!("{out:?}") });
                let fine = judge(c, &key, out, !stale && k != bad, &ctx).is_some();
                c.expect(fine || code == "invalid_proof", &key, || json!({ "refused otherwise": ctx }));
                c.expect(new.len() > 20 && new != nonce, &key, || json!({ "no new nonce": ctx }));
                // the new nonce works at once, the old one does not
                let here = save();
                let old = ask("wo", &tok, "PHLEmployeeID", "alice", &nonce);
                c.expect(matches!(&old, Ok(o) if !o.is_ok()), &key, || json!({ "old nonce good": ctx }));
                load(&here);
                let again = ask("wn", &tok, "PHLEmployeeID", "alice", &new);
                c.expect(matches!(&again, Ok(o) if o.is_ok()), &key, || json!({ "new nonce refused": format!("{again:?}"), "ctx": ctx }));
                load(&here);
                nonce = new;
            }
        }
    }
}

/// Sequences over two tokens. The model: the current nonce of each token.
fn nonces(c: &mut Check, sc: &Scene) {
    let depth = c.pick(4, 5);
    c.bound("credential requests per history", depth);
    let toks = [(sc.tok.clone(), "PHLEmployeeID"), (sc.other_tok.clone(), "EmpA")];
    let seen = vec![sc.old.clone(), sc.cur.clone(), sc.other.clone()];
    step(c, &toks, &sc.w, [1, 2], &seen, &mut vec![], depth);
}
fn step(c: &mut Check, toks: &[(String, &str); 2], w: &World, cur: [usize; 2], seen: &[String], hist: &mut Vec<(usize, usize)>, depth: usize) {
    c.state(&(cur, seen.len()));
    if hist.len() == depth {
        return;
    }
    for t in 0..2 {
        for n in 0..=seen.len() {
            hist.push((t, n));
            load(w);
            let good = n == cur[t];
            let nonce = seen.get(n).map_or("never issued", String::as_str);
            let out = ask(&format!("s{}", hist.len()), &toks[t].0, toks[t].1, "alice", nonce);
            let key = format!("nonces/{hist:?}");
            c.transition();
            let new = match &out {
                Ok(Out::Ok(v) | Out::Err(v)) => s(&v["c_nonce"]),
                _ => String::new(),
            };
            if c.case(&key) {
                c.validated();
                c.expect(new.len() > 20 && !seen.contains(&new), &key, || json!({ "no new nonce": format!("{out:?}"), "history (token, nonce)": hist }));
                judge(c, &key, out, good, &json!({ "history (token, nonce)": hist, "current": cur }));
            }
            if !new.is_empty() {
                let mut cur2 = cur;
                cur2[t] = seen.len();
                let mut seen2 = seen.to_vec();
                seen2.push(new);
                step(c, toks, &save(), cur2, &seen2, hist, depth);
            }
            hist.pop();
        }
    }
}

/// Two requests at once that use the same nonce of the same token.
fn races(c: &mut Check, sc: &Scene) {
    let pre = c.pick(3, 6);
    c.bound("context switches per schedule", pre);
    let a = call("credential", cred_id(&sc.tok, "PHLEmployeeID", Some(&proof_by("alice", &sc.cur))));
    let b = call("credential", cred_id(&sc.tok, "PHLDeveloper", Some(&proof_by("alice", &sc.cur))));
    let bad = call("credential", cred_id(&sc.tok, "PHLEmployeeID", Some(&proof_by("alice", "x"))));
    for (name, x, y, limit) in [("same credential", &a, &a, 1), ("two credentials", &a, &b, 1), ("good and bad", &a, &bad, 1), ("bad and bad", &bad, &bad, 0)] {
        let tag = format!("race/{name}");
        let mut found = vec![];
        let n = exec::explore(pre, &mut |prefix| {
            load(&sc.w);
            with(|w| w.log = Some(vec![]));
            let tasks: Vec<Option<exec::Task<Out>>> =
                vec![Some(Box::pin(seeded("first", serve(x.clone())))), Some(Box::pin(seeded("second", serve(y.clone()))))];
            let r = exec::run_schedule(tasks, prefix);
            let wins = r.results.iter().filter(|o| o.is_ok()).count();
            let log = save().log.unwrap_or_default();
            let (get, put) = (format!("get {}", sc.tok), format!("put {}", sc.tok));
            let second = log.iter().enumerate().filter(|(_, l)| **l == get).nth(1).map_or(0, |x| x.0);
            let first_put = log.iter().position(|l| *l == put).unwrap_or(usize::MAX);
            if wins > limit {
                let k = if second < first_put { "both-read-before-renewal" } else { "after-renewal" };
                found.push((format!("{tag}/{k}"), json!({ "schedule": r.schedule, "calls": log })));
            }
            // whatever happened, the nonce presented is dead afterwards
            let w1 = save();
            let again = ask("again", &sc.tok, "PHLEmployeeID", "alice", &sc.cur);
            if !matches!(&again, Ok(o) if !o.is_ok()) {
                found.push((format!("{tag}/nonce alive"), json!({ "schedule": r.schedule, "again": format!("{again:?}") })));
            }
            // and exactly one of the nonces handed out is good
            let mut good = 0;
            for o in &r.results {
                if let Out::Ok(v) | Out::Err(v) = o {
                    load(&w1);
                    good += usize::from(matches!(ask("again", &sc.tok, "PHLEmployeeID", "alice", &s(&v["c_nonce"])), Ok(o) if o.is_ok()));
                }
            }
            if good != 1 {
                found.push((format!("{tag}/nonces good afterwards"), json!({ "schedule": r.schedule, "good": good })));
            }
            r.choices
        });
        if c.case(&tag) {
            c.state(&tag);
            c.sample(json!({ "race": tag, "schedules": n, "findings": found.len() }));
        }
        for (k, d) in found {
            c.violation(&k, d);
        }
    }
}
