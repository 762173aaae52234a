//! C22: lifetimes.
use crate::util::*;

/// Everything as in the standard configuration, without key proofs.
pub fn no_proofs(w: &mut World) {
    recfg(w, |k| {
        for i in k.issuers.values_mut() {
            i.credential_configurations_supported.values_mut().for_each(|c| c.proof_types_supported = None);
        }
    });
}
fn client_meta(token: &str) -> Value {
    let mut b = client_json("new");
    b["access_token"] = json!(token);
    b["credential_issuer"] = json!(ISSUER);
    b
}
pub fn pending(who: &str, ident: &str, p: bool) {
    with(|w| w.datasets.get_mut(&(who.to_string(), ident.to_string())).unwrap().1 = p);
}

pub fn c22(c: &mut Check) {
    c.rule("every artefact with a lifetime x every age around its lifetime (seconds and nanoseconds) x a store that drops expired entries and one that never does; and every sequence of waits and credential requests on an access token against a timed model; and codes, offers and pushed requests of every shape, with every way to use them, one second before and after");
    c.assume("the exact second at which a lifetime ends is left open: an artefact must work until one second before it and must not work from one second after it");
    // (name, lifetime, make the artefact and return the call that uses it)
    type Make = fn() -> Call;
    let arts: Vec<(&str, i64, Make)> = vec![
        ("pre-authorized code", 300, || call("token", token_pre(&pre_code("a", "alice", &[EMP], false).0, None, None))),
        ("pre-authorized code with PIN", 300, || {
            let (k, p) = pre_code("a", "alice", &[EMP], true);
            call("token", token_pre(&k, p.as_deref(), None))
        }),
        ("authorization code", 300, || call("token", token_auth(&auth_code("a", "alice", &[EMP])))),
        ("offer reference", 300, || {
            let r = must("a", "create_offer", offer_body("alice", &[EMP], &[PRE], false, true));
            call("credential_offer", json!({ "credential_issuer": ISSUER, "id": s(&r["credential_offer_uri"]).rsplit('/').next().unwrap() }))
        }),
        ("offer reference without grants", 300, || {
            let r = must("a", "create_offer", offer_body("alice", &[EMP], &[], false, true));
            call("credential_offer", json!({ "credential_issuer": ISSUER, "id": s(&r["credential_offer_uri"]).rsplit('/').next().unwrap() }))
        }),
        ("issuer_state", 300, || {
            let r = must("a", "create_offer", offer_body("alice", &[EMP], &[AUTH], false, false));
            let mut b = auth_body("alice", &[EMP]);
            b["issuer_state"] = r["credential_offer"]["grants"][AUTH]["issuer_state"].clone();
            call("authorize", b)
        }),
        ("request_uri", 600, || {
            let r = must("a", "par", auth_body("alice", &[EMP]));
            if r["expires_in"] != 600 {
                panic!("request_uri lifetime {}", r["expires_in"]);
            }
            call("authorize", json!({ "request_uri": r["request_uri"], "client_id": CLIENT }))
        }),
        ("access token at registration", 900, || call("register", client_meta(&pre_token("a", "alice", &[EMP]).0))),
        ("access token without key proof", 900, || {
            with(no_proofs);
            call("credential", cred_id(&pre_token("a", "alice", &[EMP]).0, "PHLEmployeeID", None))
        }),
        ("access token from an authorization code", 900, || {
            with(no_proofs);
            let r = must("t", "token", token_auth(&auth_code("a", "alice", &[EMP])));
            call("credential", cred_id(&s(&r["access_token"]), "PHLEmployeeID", None))
        }),
        ("c_nonce of a token", 600, || {
            let (t, n) = pre_token("a", "alice", &[EMP]);
            call("credential", cred_id(&t, "PHLEmployeeID", Some(&proof_by("alice", &n))))
        }),
        ("c_nonce of a credential", 600, || {
            let (t, n) = pre_token("a", "alice", &[EMP, DEV]);
            let r = must("x", "credential", cred_id(&t, "PHLDeveloper", Some(&proof_by("alice", &n))));
            if r["c_nonce_expires_in"].as_i64().unwrap_or(0) > 600 || r["c_nonce_expires_in"].as_i64().unwrap_or(0) < 599 {
                panic!("c_nonce lifetime {}", r["c_nonce_expires_in"]);
            }
            call("credential", cred_id(&t, "PHLEmployeeID", Some(&proof_by("alice", &s(&r["c_nonce"])))))
        }),
        ("c_nonce of an invalid_proof error", 600, || {
            let (t, _) = pre_token("a", "alice", &[EMP, DEV]);
            let Ok(Out::Err(r)) = go("x", "credential", cred_id(&t, "PHLDeveloper", None)) else { panic!("no error") };
            if r["c_nonce_expires_in"] != 600 {
                panic!("c_nonce lifetime {}", r["c_nonce_expires_in"]);
            }
            call("credential", cred_id(&t, "PHLEmployeeID", Some(&proof_by("alice", &s(&r["c_nonce"])))))
        }),
        ("notification id", 900, || {
            let (t, n) = pre_token("a", "alice", &[EMP]);
            let r = must("x", "credential", cred_id(&t, "PHLEmployeeID", Some(&proof_by("alice", &n))));
            call("notification", json!({ "credential_issuer": ISSUER, "access_token": t, "notification_id": r["notification_id"], "event": "credential_accepted" }))
        }),
    ];
    let mut base = fresh();
    recfg(&mut base, |_| {});
    for (name, life, make) in &arts {
        for expunge in [false, true] {
            for (ns0, ns1) in [(0, 0), (999_999_999, 0), (0, 999_999_999), (500_000_000, 500_000_001)] {
                let mut ages = vec![0, 1, life / 2, life - 2, life - 1, *life, life + 1, life + 2, life * 2, life * 10, 86_400, 86_400 * 365];
                if c.thorough() {
                    ages.extend((0..=life + 120).step_by(7));
                }
                for age in ages {
                    let elapsed = age * 1_000_000_000 + ns1 - ns0;
                    if elapsed < 0 {
                        continue;
                    }
                    let alive = if elapsed <= (life - 1) * 1_000_000_000 {
                        true
                    } else if elapsed >= (life + 1) * 1_000_000_000 {
                        false
                    } else {
                        continue;
                    };
                    let key = format!("{name}/{age}.{ns0}.{ns1}/{expunge}");
                    if !c.case(&key) {
                        continue;
                    }
                    c.distinct(&key);
                    let mut w = base.clone();
                    w.expunge = expunge;
                    load(&w);
                    clock::set_ns(clock::EPOCH, ns0);
                    let made = guard(make);
                    clock::set_ns(clock::EPOCH + age, ns1);
                    let ctx = json!({ "artefact": name, "age": age, "store drops expired entries": expunge });
                    match made {
                        Err(p) => c.violation(&key, json!({ "scenario": p, "ctx": ctx })),
                        Ok(u) => {
                            let out = go("use", u.ep, u.body);
                            judge(c, &key, out, alive, &ctx);
                            c.sample(json!({ "ctx": ctx, "works": alive }));
                        }
                    }
                }
            }
        }
    }
    crate::shapes::lives(c);
    later(c);
    txns(c);
    // a token in use: every sequence of (wait, request)
    let waits = [0, 449, 597, 603, 897, 903];
    let depth = c.pick(3, 4);
    c.bound("requests per token", depth);
    for expunge in [false, true] {
        let mut w = fresh();
        w.expunge = expunge;
        load(&w);
        let (t, n) = pre_token("a", "alice", &[EMP]);
        let w0 = save();
        let m = Tok { token: t, nonce: n, dead: w0.now + 900, stale: w0.now + 600 };
        seq(c, &w0, &m, &waits, &mut vec![], depth, expunge);
    }
}
/// A transaction outlives the deferral by 15 minutes as long as the token does.
pub fn txns(c: &mut Check) {
    for expunge in [false, true] {
        for age in [0, 1, 450, 898, 899, 901, 902, 950] {
            let key = format!("transaction id/{age}/{expunge}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let mut w = fresh();
            no_proofs(&mut w);
            w.expunge = expunge;
            load(&w);
            let (t, _) = pre_token("a", "alice", &[EMP, DEV]);
            clock::advance(400);
            pending("alice", "PHLDeveloper", true);
            let r = must("defer", "credential", cred_id(&t, "PHLDeveloper", None));
            pending("alice", "PHLDeveloper", false);
            if age > 400 {
                clock::advance(400);
                must("keep", "credential", cred_id(&t, "PHLEmployeeID", None));
                clock::advance(age - 400);
            } else {
                clock::advance(age);
            }
            let out = go("poll", "deferred", json!({ "credential_issuer": ISSUER, "access_token": t, "transaction_id": r["transaction_id"] }));
            judge(c, &key, out, age <= 899, &json!({ "artefact": "transaction id", "age": age, "expunge": expunge }));
        }
    }
}
/// What is made from an older artefact lives as long as any other.
fn later(c: &mut Check) {
    for how in ["token of a pre-authorized code", "token of an authorization code", "token of a code from a pushed request", "nonce of a token", "code of a pushed request", "code of an offer", "notification"] {
        for wait in [1, 100, 250, 298] {
            let life = match how {
                "nonce of a token" => 600,
                h if h.starts_with("code") => 300,
                _ => 900,
            };
            for age in [life - 1, life + 1] {
                for expunge in [false, true] {
                    let key = format!("later/{how}/{wait}/{age}/{expunge}");
                    if !c.case(&key) {
                        continue;
                    }
                    c.distinct(&key);
                    let mut w = fresh();
                    w.expunge = expunge;
                    if how.starts_with("token") {
                        no_proofs(&mut w);
                    }
                    load(&w);
                    let token = |r: &Value| call("credential", cred_id(&s(&r["access_token"]), "PHLEmployeeID", None));
                    let u = match how {
                        "token of a pre-authorized code" | "nonce of a token" | "notification" => {
                            let (k, _) = pre_code("l1", "alice", &[EMP], false);
                            clock::advance(wait);
                            let r = must("l2", "token", token_pre(&k, None, None));
                            let t = s(&r["access_token"]);
                            let proved = cred_id(&t, "PHLEmployeeID", Some(&proof_by("alice", &s(&r["c_nonce"]))));
                            match how {
                                "notification" => {
                                    clock::advance(wait);
                                    let r = must("l3", "credential", proved);
                                    call("notification", json!({ "credential_issuer": ISSUER, "access_token": t, "notification_id": r["notification_id"], "event": "credential_accepted" }))
                                }
                                "nonce of a token" => call("credential", proved),
                                _ => token(&r),
                            }
                        }
                        "token of an authorization code" => {
                            let k = auth_code("l1", "alice", &[EMP]);
                            clock::advance(wait);
                            token(&must("l2", "token", token_auth(&k)))
                        }
                        "code of an offer" => {
                            let r = must("l0", "create_offer", offer_body("alice", &[EMP], &[AUTH], false, false));
                            clock::advance(wait);
                            let mut b = auth_body("alice", &[EMP]);
                            b["issuer_state"] = r["credential_offer"]["grants"][AUTH]["issuer_state"].clone();
                            call("token", token_auth(&s(&must("l1", "authorize", b)["code"])))
                        }
                        _ => {
                            let r = must("l0", "par", auth_body("alice", &[EMP]));
                            clock::advance(wait);
                            let k = s(&must("l1", "authorize", json!({ "client_id": CLIENT, "request_uri": r["request_uri"] }))["code"]);
                            if how.starts_with("code") {
                                call("token", token_auth(&k))
                            } else {
                                clock::advance(wait);
                                token(&must("l2", "token", token_auth(&k)))
                            }
                        }
                    };
                    clock::advance(age);
                    judge(c, &key, go("lu", u.ep, u.body), age < life, &json!({ "artefact": how, "made when the first was aged": wait, "age": age, "store drops expired entries": expunge }));
                }
            }
        }
    }
}
#[derive(Clone)]
struct Tok {
    token: String,
    nonce: String,
    dead: i64,
    stale: i64,
}
fn seq(c: &mut Check, w: &World, m: &Tok, waits: &[i64], hist: &mut Vec<(i64, usize)>, depth: usize, expunge: bool) {
    if hist.len() == depth {
        return;
    }
    for wait in waits {
        for op in 0..3 {
            hist.push((*wait, op));
            let key = format!("use/{expunge}/{hist:?}");
            load(w);
            clock::advance(*wait);
            let now = clock::now();
            let alive = now < m.dead;
            let fresh = now < m.stale;
            let mut m2 = m.clone();
            let out = match op {
                0 => ask("ask", &m.token, "PHLEmployeeID", "alice", &m.nonce),
                1 => ask("bad", &m.token, "PHLEmployeeID", "alice", "not the nonce"),
                _ => go("reg", "register", client_meta(&m.token)),
            };
            let want = alive && (op == 2 || op == 0 && fresh);
            if alive && op < 2 {
                m2.dead = now + 900;
                m2.stale = now + 600;
                m2.nonce = match &out {
                    Ok(Out::Ok(v) | Out::Err(v)) => s(&v["c_nonce"]),
                    _ => String::new(),
                };
            }
            if c.case(&key) {
                c.distinct(&key);
                if alive && op < 2 && !want {
                    // a stale or wrong nonce: the wallet is told a new one
                    let ok = matches!(&out, Ok(o @ Out::Err(v)) if o.code() == "invalid_proof" && !m2.nonce.is_empty() && m2.nonce != m.nonce && v["c_nonce_expires_in"] == 600);
                    c.expect(ok, &key, || json!({ "no new nonce": format!("{out:?}"), "history": hist }));
                }
                judge(c, &key, out, want, &json!({ "wait, request": hist, "expunge": expunge }));
            }
            seq(c, &save(), &m2, waits, hist, depth, expunge);
            hist.pop();
        }
    }
}
