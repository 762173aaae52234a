//! C52: what a wallet presents, to whom, and when.
use std::collections::BTreeMap;
use std::sync::Arc;

use base64ct::{Base64UrlUnpadded as B64, Encoding};
use vercre_openid::verifier::RequestObject;
use world::verifier::{OTHER_VERIFIER, VERIFIER_ID, VERIFIER_PK};

use crate::util::*;

fn date(t: i64) -> String {
    chrono::DateTime::from_timestamp(t, 0).unwrap().to_rfc3339()
}
/// Credentials a wallet may have: (type, employee number, valid until).
const CREDS: [(&str, &str, Option<i64>); 5] =
    [("EmployeeID", "1", None), ("Developer", "2", None), ("EmployeeID", "3", Some(3600)), ("EmployeeID", "4", Some(-3600)), ("Licence", "1", None)];
/// Further ones, every third of which is of another type.
fn spec(k: usize) -> (String, String, Option<i64>) {
    let (ty, n, until) = CREDS.get(k).copied().unwrap_or((if k % 3 == 0 { "Other" } else { "EmployeeID" }, "", None));
    (ty.to_string(), if n.is_empty() { k.to_string() } else { n.to_string() }, until)
}
fn credential(k: usize) -> (String, Value) {
    let (ty, n, until) = spec(k);
    let id = format!("http://vercre.io/c/{k}");
    let mut vc = json!({
        "@context": ["https://www.w3.org/2018/credentials/v1", "http://vercre.io/credentials/v1"], "id": id,
        "type": ["VerifiableCredential", ty], "issuer": ISSUER, "validFrom": date(clock::EPOCH - 9000),
        "credentialSubject": { "id": "did:example:alice", "employeeId": n }
    });
    if let Some(u) = until {
        vc["validUntil"] = json!(date(clock::EPOCH + u));
    }
    let t = jwt(
        &json!({ "alg": "EdDSA", "typ": "jwt", "kid": "did:example:issuer#k0" }),
        &json!({ "sub": "did:example:alice", "iss": ISSUER, "iat": clock::EPOCH - 9000, "jti": id, "vc": vc }),
        ISSUER_PK,
    );
    let e = json!({ "id": id, "issuer": ISSUER, "vc": vc, "issued": t, "issuance_date": date(clock::EPOCH - 9000) });
    (id, e)
}
/// What a request asks for: (name, descriptors, which credentials satisfy the
/// first descriptor).
fn asks() -> Vec<(&'static str, Value, fn(usize) -> bool)> {
    let f = |path: &str, filter: Value| json!({ "path": [path], "filter": filter });
    let d = |id: &str, fields: Vec<Value>| json!({ "id": id, "constraints": { "fields": fields } });
    let ty = |t: &str| f("$.type", json!({ "type": "string", "const": t }));
    let number = |p: &str| f("$.credentialSubject.employeeId", json!({ "type": "string", "pattern": p }));
    vec![
        ("a type", json!([d("emp", vec![ty("EmployeeID")])]), |k| CREDS[k].0 == "EmployeeID"),
        ("another type", json!([d("dev", vec![ty("Developer")])]), |k| CREDS[k].0 == "Developer"),
        ("a pattern", json!([d("n", vec![number("^[13]$")])]), |k| CREDS[k].1 == "1" || CREDS[k].1 == "3"),
        ("a type and a pattern", json!([d("n", vec![ty("EmployeeID"), number("^[13]$")])]), |k| CREDS[k].0 == "EmployeeID" && CREDS[k].1 != "4"),
        ("nothing there is", json!([d("x", vec![ty("Passport")])]), |_| false),
        ("anything", json!([{ "id": "any", "constraints": {} }]), |_| true),
    ]
}
fn create(label: &str, client: &str, cross: bool, descs: &Value) -> Value {
    let b = json!({ "client_id": client, "purpose": "to know & see", "input_descriptors": descs, "client_id_scheme": "redirect_uri",
                    "device_flow": if cross { "CrossDevice" } else { "SameDevice" } });
    match world::verifier::go(label, "create_request", b.clone()) {
        Ok(Out::Ok(r)) => r,
        o => std::panic::panic_any(format!("scenario: create_request {b} gave {o:?}")),
    }
}
/// What the wallet is shown, and the request object behind it.
fn shown(r: &Value, cross: bool) -> (String, Value) {
    if cross {
        let uri = s(&r["request_uri"]);
        let (client, id) = uri.rsplit_once("/request/").unwrap_or_default();
        let before = save();
        let out = world::verifier::go("shown", "request_object", json!({ "client_id": client, "id": id }));
        let Ok(Out::Ok(o)) = out else { std::panic::panic_any(format!("scenario: no request object at {uri}: {out:?}")) };
        let t = ["request_object", "jwt"].iter().fold(o, |v, k| v.get(*k).cloned().unwrap_or(v));
        load(&before);
        let obj = open_jwt(&s(&t), &world::verifier::verifier_key(client).pk).map(|x| x.1).unwrap_or_default();
        (uri, obj)
    } else {
        let o: RequestObject = serde_json::from_value(r["request_object"].clone()).expect("request object");
        (o.to_querystring().expect("query string"), r["request_object"].clone())
    }
}
/// Judge a presentation that left the wallet.
fn judge_sent(c: &mut Check, key: &str, body: &Value, obj: &Value, held: &[usize], matches: &dyn Fn(usize) -> bool, ndesc: usize) {
    let fail = |c: &mut Check, what: &str| c.violation(key, json!({ "presentation": what, "sent": body, "request": obj }));
    let toks = body["vp_token"].as_array().cloned().unwrap_or_default();
    if toks.len() != 1 {
        return fail(c, "not one token");
    }
    let Some((h, cl)) = open_jwt(&s(&toks[0]), "pk-alice-0") else { return fail(c, "not signed by the holder") };
    if h["kid"] != "did:example:alice#k0" {
        return fail(c, "names another key");
    }
    if cl["nonce"] != obj["nonce"] || cl["aud"] != obj["client_id"] || body["state"] != obj["state"] {
        return fail(c, "not bound to the request");
    }
    if cl["iss"] != "did:example:alice" || cl["vp"]["holder"] != "did:example:alice" {
        return fail(c, "another holder");
    }
    let t = clock::now();
    if cl["iat"].as_i64() != Some(t) || !cl["exp"].as_i64().is_some_and(|e| e > t && e <= t + 24 * 3600) {
        return fail(c, "not current");
    }
    let uri = s(&obj["response_uri"]);
    if s(&body["uri"]) != uri.trim_end_matches('/') {
        return fail(c, "sent elsewhere");
    }
    let mut have: Vec<String> = cl["vp"]["verifiableCredential"].as_array().map(|a| a.iter().map(s).collect()).unwrap_or_default();
    let in_order = have.clone();
    let mut want: Vec<String> = held.iter().filter(|k| matches(**k)).map(|k| s(&credential(*k).1["issued"])).collect();
    have.sort();
    want.sort();
    if have != want {
        return fail(c, "not the credentials asked for");
    }
    let sub = &body["presentation_submission"];
    let map = sub["descriptor_map"].as_array().cloned().unwrap_or_default();
    if sub["definition_id"] != obj["presentation_definition"]["id"] || map.len() != ndesc {
        return fail(c, "submission for something else");
    }
    for (i, m) in map.iter().enumerate() {
        if m["id"] != obj["presentation_definition"]["input_descriptors"][i]["id"] || m["format"] != "jwt_vc_json" || m["path"] != "$" {
            return fail(c, "descriptor map");
        }
        let p = s(&m["path_nested"]["path"]);
        let n = p.strip_prefix("$.verifiableCredential[").and_then(|x| x.strip_suffix(']')).and_then(|x| x.parse::<usize>().ok());
        if !in_order.is_empty() && !n.is_some_and(|n| n < in_order.len()) {
            return fail(c, "descriptor map points nowhere");
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Request(usize),
    Allow(usize),
    Present(usize),
}
#[derive(Clone)]
struct N {
    w: World,
    /// per request: flow id, whether it is authorized, whether it is over
    flows: [Option<(String, bool, bool)>; 2],
    /// the verifier has accepted an answer
    done: [bool; 2],
}

pub fn c52() -> ! {
    let mut c = Check::new("C52", "model_checking");
    c.rule("every set of held credentials x every kind of request x every sequence of wallet calls on two requests up to the depth, each presentation that leaves the wallet taken apart and submitted to the real verifier; credentials that come in after the holder was shown what would be presented; many held credentials and requests; odd names and texts in the request; every alteration of a fetched request object; a fault at every provider call");
    c.assume("signatures are ideal (stubs/vercre-infosec)");
    let depth = 6;
    c.bound("calls per history", depth);
    let mut sets = vec![];
    for m in 0..1usize << CREDS.len() {
        let v: Vec<usize> = (0..CREDS.len()).filter(|i| m >> i & 1 == 1).collect();
        if v.len() <= c.pick(2, 5) {
            sets.push(v);
        }
    }
    c.bound("sets of held credentials", sets.len());
    let asks = asks();
    for held in &sets {
        for (ai, (aname, descs, matches)) in asks.iter().enumerate() {
            for cross in [false, true] {
                let mut w = fresh();
                for k in held {
                    let (id, e) = credential(*k);
                    w.creds.insert(id, e);
                }
                load(&w);
                // two requests: one by this verifier, one by another
                let r0 = create("r0", VERIFIER_ID, cross, descs);
                let r1 = create("r1", OTHER_VERIFIER, !cross, &asks[(ai + 1) % asks.len()].1);
                let s0 = shown(&r0, cross);
                let s1 = shown(&r1, !cross);
                let req = [s0, s1];
                let pred: [fn(usize) -> bool; 2] = [*matches, asks[(ai + 1) % asks.len()].2];
                let name = format!("{held:?}/{aname}/{}", if cross { "cross" } else { "same" });
                let mut frontier = vec![(N { w: save(), flows: [None, None], done: [false; 2] }, String::new())];
                let ops = [Op::Request(0), Op::Request(1), Op::Allow(0), Op::Allow(1), Op::Present(0), Op::Present(1)];
                for d in 0..depth {
                    let mut next = vec![];
                    for (n, hist) in frontier {
                        for op in ops {
                            let h = format!("{hist} {op:?}");
                            let key = format!("{name}/{h}");
                            load(&n.w);
                            c.transition();
                            c.validated();
                            c.case(&key);
                            let mut x = n.clone();
                            let label = format!("{op:?}");
                            let (out, i) = match op {
                                Op::Request(i) => (go(&label, "request", json!(req[i].0)), i),
                                Op::Allow(i) => (go(&label, "allow", json!(n.flows[i].as_ref().map_or("none", |f| &f.0))), i),
                                Op::Present(i) => (go(&label, "present", json!(n.flows[i].as_ref().map_or("none", |f| &f.0))), i),
                            };
                            let out = match out {
                                Ok(o) => o,
                                Err(p) => {
                                    c.violation(&key, json!({ "panic": p }));
                                    continue;
                                }
                            };
                            c.outcome(&format!("{} {}", &label[..label.len() - 3], if out.is_ok() { "ok" } else { "refused" }));
                            let presented = sent("present");
                            let (want, may_send) = match op {
                                // the verifier forgets a request that has been answered
                                Op::Request(i) => (Some(!(n.done[i] && cross == (i == 0))), false),
                                Op::Allow(i) => (Some(n.flows[i].as_ref().is_some_and(|f| !f.1 && !f.2)), false),
                                Op::Present(i) => {
                                    let mine: Vec<usize> = held.iter().copied().filter(|k| pred[i](*k)).collect();
                                    // once accepted, or with nothing to show, nothing leaves the wallet
                                    let auth = n.flows[i].as_ref().is_some_and(|f| f.1 && !f.2) && !mine.is_empty();
                                    let fit = !mine.is_empty() && mine.iter().all(|k| *k != 3);
                                    let w = if !auth || n.done[i] {
                                        Some(false)
                                    } else if fit {
                                        Some(true)
                                    } else {
                                        // an expired one among them: depends on which the verifier looks at
                                        None
                                    };
                                    (w, auth)
                                }
                            };
                            if let Some(wanted) = want {
                                c.expect(out.is_ok() == wanted, &key, || json!({ "done": out.json(), "expected": wanted }));
                            }
                            c.expect(presented.is_empty() || may_send, &key, || json!({ "presented without authorization, again, or nothing": presented }));
                            c.expect(!may_send || presented.len() == 1, &key, || json!({ "presentations sent": presented }));
                            for b in &presented {
                                judge_sent(&mut c, &key, b, &req[i].1, held, &pred[i], 1);
                            }
                            let now = save();
                            c.expect(now.creds == n.w.creds, &key, || json!({ "held credentials changed": true }));
                            let r = out.ok().cloned().unwrap_or_default();
                            match op {
                                Op::Request(i) if out.is_ok() => {
                                    let mut told: Vec<String> = r["credentials"].as_array().map(|a| a.iter().map(|e| s(&e["issued"])).collect()).unwrap_or_default();
                                    let mut mine: Vec<String> = held.iter().filter(|k| pred[i](**k)).map(|k| s(&credential(*k).1["issued"])).collect();
                                    told.sort();
                                    mine.sort();
                                    c.expect(told == mine && r["status"] == "Requested", &key, || json!({ "told the holder": r, "matching": mine }));
                                    x.flows[i] = Some((s(&r["presentation_id"]), false, false));
                                    // a request answered once cannot be answered again,
                                    // also not in a new flow
                                }
                                Op::Allow(i) if out.is_ok() => {
                                    c.expect(r == "Authorized", &key, || json!({ "status": r }));
                                    x.flows[i].as_mut().unwrap().1 = true;
                                }
                                Op::Present(i) if out.is_ok() => {
                                    x.done[i] = true;
                                    x.flows[i].as_mut().unwrap().2 = true;
                                }
                                _ => {
                                    // a refusal leaves the wallet as it was
                                    let mine = |w: &World| w.store.iter().filter(|(k, _)| k.starts_with("h:")).map(|(k, v)| (k.clone(), v.0.clone())).collect::<BTreeMap<_, _>>();
                                    c.expect(mine(&now) == mine(&n.w), &key, || json!({ "refused, but changed": true }));
                                }
                            }
                            x.w = now;
                            let shape = (&name, x.flows.clone().map(|f| f.map(|f| (f.1, f.2))), x.done);
                            if d + 1 < depth && c.state(&shape) {
                                next.push((x, h));
                            }
                        }
                    }
                    frontier = next;
                }
            }
        }
    }
    later(&mut c);
    fields(&mut c);
    labels(&mut c);
    several(&mut c);
    many(&mut c);
    forged(&mut c);
    odd(&mut c);
    faults(&mut c);
    c.finish()
}

/// A field: (path found in every credential, or not; what is asked of it).
/// Requests of up to two fields of every kind, each credential held alone.
fn fields(c: &mut Check) {
    let name = |v: Value| json!({ "type": "string", "const": v });
    // (paths, filter, which credentials have a value that matches, whether a value is there)
    let kinds: Vec<(Vec<&str>, Option<Value>, fn(usize) -> bool, bool)> = vec![
        (vec!["$.type"], Some(name(json!("EmployeeID"))), |k| CREDS[k].0 == "EmployeeID", true),
        (vec!["$.credentialSubject.employeeId"], Some(name(json!("1"))), |k| CREDS[k].1 == "1", true),
        (vec!["$.credentialSubject.employeeId"], Some(json!({ "type": "string", "pattern": "^[23]$" })), |k| CREDS[k].1 == "2" || CREDS[k].1 == "3", true),
        (vec!["$.credentialSubject.nothing"], Some(name(json!("1"))), |_| false, false),
        (vec!["$.credentialSubject.nothing"], None, |_| false, false),
        (vec!["$.credentialSubject.employeeId"], None, |_| true, true),
        (vec!["$.nothing", "$.credentialSubject.employeeId"], Some(name(json!("2"))), |k| CREDS[k].1 == "2", true),
        (vec!["$.validFrom"], Some(json!({ "type": "string", "format": "date-time" })), |_| true, true),
        (vec!["$.issuer"], Some(json!({ "type": "string", "format": "date-time" })), |_| false, true),
    ];
    let n = kinds.len() * 3;
    for cross in [false, true] {
        for word in gen::words_upto(n, 2).into_iter().filter(|w| !w.is_empty()) {
            let key = format!("fields/{cross}/{word:?}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let fs: Vec<Value> = word.iter().map(|x| {
                let (paths, filter, ..) = &kinds[x / 3];
                let mut f = json!({ "path": paths });
                if let Some(v) = filter {
                    f["filter"] = v.clone();
                }
                if x % 3 > 0 {
                    f["optional"] = json!(x % 3 == 2);
                }
                f
            }).collect();
            let fits = |k: usize| word.iter().all(|x| {
                let (_, _, m, there) = &kinds[x / 3];
                if *there { m(k) } else { x % 3 == 2 }
            });
            // all of them at once
            let mut w = fresh();
            for k in 0..CREDS.len() {
                let (id, e) = credential(k);
                w.creds.insert(id, e);
            }
            load(&w);
            let r = create("fields", VERIFIER_ID, cross, &json!([{ "id": "d", "constraints": { "fields": fs } }]));
            let (uri, _) = shown(&r, cross);
            let out = go("fields-request", "request", json!(uri));
            let told = match &out {
                Ok(o) => o.ok().map(|r| r["credentials"].as_array().map(|a| a.iter().map(|e| s(&e["id"])).collect::<std::collections::BTreeSet<_>>()).unwrap_or_default()),
                Err(_) => None,
            };
            let want: std::collections::BTreeSet<String> = (0..CREDS.len()).filter(|k| fits(*k)).map(|k| credential(k).0).collect();
            c.outcome(if want.is_empty() { "none fits" } else { "some fit" });
            c.expect(told.as_ref() == Some(&want), &key, || json!({ "fields": fs, "shown": told, "satisfying": want }));
        }
    }
}

/// Two descriptors under names that contain one another.
fn labels(c: &mut Check) {
    let ids = ["d", "d1", "d10", "1", "D1", " d1", "d1 ", "d.1", "$", "d[0]"];
    let ask = asks()[0].1[0].clone();
    for cross in [false, true] {
        for (i, a) in ids.iter().enumerate() {
            for (j, b) in ids.iter().enumerate() {
                let key = format!("labels/{cross}/{a:?}/{b:?}");
                if i == j || !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let mut w = fresh();
                let (id, e) = credential(0);
                w.creds.insert(id, e);
                load(&w);
                let (mut x, mut y) = (ask.clone(), ask.clone());
                x["id"] = json!(a);
                y["id"] = json!(b);
                let r = create("labels", VERIFIER_ID, cross, &json!([x, y]));
                let (uri, obj) = shown(&r, cross);
                let id = s(&must("labels-request", "request", json!(uri))["presentation_id"]);
                must("labels-allow", "allow", json!(id));
                let out = go("labels-present", "present", json!(id));
                let presented = sent("present");
                c.outcome("two descriptors");
                c.expect(presented.len() == 1 && matches!(&out, Ok(o) if o.is_ok()), &key, || json!({ "answer": format!("{out:?}") }));
                for b in &presented {
                    judge_sent(c, &key, b, &obj, &[0], &|_| true, 2);
                }
            }
        }
    }
}

/// Credentials that come in once the holder was shown what would be presented:
/// what leaves the wallet is what was shown.
fn later(c: &mut Check) {
    let upto = c.pick(1, 2);
    for (aname, descs, matches) in asks() {
        for cross in [false, true] {
            for m in 0..1usize << CREDS.len() {
                let held: Vec<usize> = (0..CREDS.len()).filter(|i| m >> i & 1 == 1).collect();
                if held.len() > upto {
                    continue;
                }
                for add in (0..CREDS.len()).filter(|k| !held.contains(k)) {
                    // before it is allowed, or before it is presented
                    for at in 0..2 {
                        let key = format!("later/{aname}/{cross}/{held:?}+{add}/{at}");
                        if !c.case(&key) {
                            continue;
                        }
                        c.distinct(&key);
                        let mut w = fresh();
                        for k in &held {
                            let (id, e) = credential(*k);
                            w.creds.insert(id, e);
                        }
                        load(&w);
                        let r = create("later", VERIFIER_ID, cross, &descs);
                        let (uri, obj) = shown(&r, cross);
                        let id = match go("later-request", "request", json!(uri)) {
                            Ok(o) if o.is_ok() => s(&o.ok().cloned().unwrap_or_default()["presentation_id"]),
                            o => {
                                c.violation(&key, json!({ "request": format!("{o:?}") }));
                                continue;
                            }
                        };
                        let come = || with(|w| {
                            let (id, e) = credential(add);
                            w.creds.insert(id, e);
                        });
                        if at == 0 {
                            come();
                        }
                        let allowed = go("later-allow", "allow", json!(id));
                        c.expect(matches!(&allowed, Ok(o) if o.is_ok()), &key, || json!({ "allow": format!("{allowed:?}") }));
                        if at == 1 {
                            come();
                        }
                        let out = go("later-present", "present", json!(id));
                        let presented = sent("present");
                        let any = held.iter().any(|k| matches(*k));
                        c.outcome(if any { "shown before" } else { "nothing shown before" });
                        c.expect(presented.len() == usize::from(any), &key, || json!({ "presented": presented, "answer": format!("{out:?}") }));
                        for b in &presented {
                            judge_sent(c, &key, b, &obj, &held, &matches, 1);
                        }
                    }
                }
            }
        }
    }
}

/// Requests with more than one input descriptor.
fn several(c: &mut Check) {
    let a = asks();
    let d = |i: usize| a[i].1[0].clone();
    // (descriptors, held): each descriptor is satisfied by something held
    for (name, descs, held, kinds) in [
        ("one credential for both", json!([d(0), d(2)]), vec![0], [0, 2]),
        ("a credential for each", json!([d(0), d(1)]), vec![0, 1], [0, 1]),
        ("a credential for each, reversed", json!([d(1), d(0)]), vec![0, 1], [1, 0]),
    ] {
        let key = format!("several descriptors/{name}");
        if !c.case(&key) {
            continue;
        }
        let mut w = fresh();
        for k in &held {
            let (id, e) = credential(*k);
            w.creds.insert(id, e);
        }
        load(&w);
        let r = create("r", VERIFIER_ID, true, &descs);
        let (uri, obj) = shown(&r, true);
        let id = s(&must("request", "request", json!(uri))["presentation_id"]);
        must("allow", "allow", json!(id));
        let out = go("present", "present", json!(id));
        let any = |k: usize| kinds.iter().any(|i| a[*i].2(k));
        let mut probe = 0;
        for b in sent("present") {
            probe += 1;
            if name == "one credential for both" {
                judge_sent(c, &key, &b, &obj, &held, &any, 2);
            }
        }
        let ok = matches!(&out, Ok(o) if o.is_ok()) && probe == 1;
        if name == "one credential for both" {
            c.expect(ok, &key, || json!({ "got": format!("{out:?}") }));
        } else {
            c.expect(ok, "a request whose input descriptors need different credentials is answered for the first descriptor only", || json!({ "got": format!("{out:?}") }));
        }
    }
}

/// Many held credentials, many descriptors, many fields, many flows.
fn many(c: &mut Check) {
    let ns: Vec<usize> = if c.thorough() { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 33] } else { vec![1, 2, 3, 4, 5, 8, 9, 11] };
    c.bound("held credentials, descriptors, fields and flows, up to", ns[ns.len() - 1]);
    let f = |path: &str, filter: Value| json!({ "path": [path], "filter": filter });
    let ty = |t: &str| f("$.type", json!({ "type": "string", "const": t }));
    let number = |p: String| f("$.credentialSubject.employeeId", json!({ "type": "string", "pattern": p }));
    for n in ns {
        let held: Vec<usize> = (10..10 + n).collect();
        let mut cases: Vec<(String, Value, Box<dyn Fn(usize) -> bool>)> = vec![
            ("a type".into(), json!([{ "id": "d0", "constraints": { "fields": [ty("EmployeeID")] } }]), Box::new(|k| k % 3 != 0)),
            ("another type".into(), json!([{ "id": "d0", "constraints": { "fields": [ty("Other")] } }]), Box::new(|k| k % 3 == 0)),
        ];
        for at in [0, n / 2, n - 1] {
            let want = 10 + at;
            let one = number(format!("^{want}$"));
            let any = |i: usize| if i % 2 == 0 { f("$.issuer", json!({ "type": "string", "const": ISSUER })) } else { number("^[0-9]+$".into()) };
            // the only field, or one of many, that tells the credentials apart
            let mut fs: Vec<Value> = (0..n).map(any).collect();
            fs[at] = one.clone();
            cases.push((format!("field {at}"), json!([{ "id": "d0", "constraints": { "fields": fs } }]), Box::new(move |k| k == want)));
            // many descriptors the one credential satisfies
            let ds: Vec<Value> = (0..n).map(|i| json!({ "id": format!("d{i}"), "name": "same", "constraints": { "fields": [one.clone()] } })).collect();
            cases.push((format!("descriptors for {at}"), json!(ds), Box::new(move |k| k == want)));
        }
        for (name, descs, matches) in cases {
            for cross in [false, true] {
                let key = format!("many/{n}/{name}/{cross}");
                if !c.case(&key) {
                    continue;
                }
                c.transition();
                let mut w = fresh();
                for k in &held {
                    let (id, e) = credential(*k);
                    w.creds.insert(id, e);
                }
                load(&w);
                let r = create("r", VERIFIER_ID, cross, &descs);
                let (uri, obj) = shown(&r, cross);
                let fits = held.iter().any(|k| matches(*k));
                let id = match go("request", "request", json!(uri)) {
                    Ok(Out::Ok(r)) => s(&r["presentation_id"]),
                    o => {
                        c.violation(&key, json!({ "request": format!("{o:?}") }));
                        continue;
                    }
                };
                let o = go("allow", "allow", json!(id));
                c.expect(matches!(&o, Ok(o) if o.is_ok()), &key, || json!({ "allow": format!("{o:?}") }));
                let out = go("present", "present", json!(id));
                let p = sent("present");
                c.expect(p.len() <= 1 && (!fits || p.len() == 1), &key, || json!({ "presentations": p.len() }));
                for b in &p {
                    judge_sent(c, &key, b, &obj, &held, &*matches, descs.as_array().map_or(0, Vec::len));
                }
                c.expect(matches!(&out, Ok(o) if o.is_ok()) == fits, &key, || json!({ "got": format!("{out:?}"), "something fits": fits }));
                let again = go("again", "present", json!(id));
                c.expect(!matches!(&again, Ok(o) if o.is_ok()), &key, || json!({ "again": format!("{again:?}") }));
            }
        }
        // many flows open at once: each presents what its own request asks for
        let mut w = fresh();
        for k in &held {
            let (id, e) = credential(*k);
            w.creds.insert(id, e);
        }
        for order in 0..2 {
            let key = format!("many/{n}/flows/{order}");
            if !c.case(&key) {
                continue;
            }
            load(&w);
            let mut flows = vec![];
            for (i, k) in held.iter().enumerate() {
                let descs = json!([{ "id": format!("d{i}"), "constraints": { "fields": [number(format!("^{k}$"))] } }]);
                let client = if i % 2 == 0 { VERIFIER_ID } else { OTHER_VERIFIER };
                let r = create(&format!("r{i}"), client, i % 3 == 0, &descs);
                let (uri, obj) = shown(&r, i % 3 == 0);
                match go(&format!("request{i}"), "request", json!(uri)) {
                    Ok(Out::Ok(r)) => flows.push((*k, s(&r["presentation_id"]), obj)),
                    o => c.violation(&key, json!({ "request": format!("{o:?}") })),
                }
            }
            if order == 1 {
                flows.reverse();
            }
            for at in 0..flows.len() {
                // nothing is presented for flows that are not authorized
                let (k, id, obj) = &flows[at];
                let early = go("early", "present", json!(id));
                c.transition();
                c.expect(!matches!(&early, Ok(o) if o.is_ok()) && sent("present").is_empty(), &key, || json!({ "presented": format!("{early:?}") }));
                let o = go("allow", "allow", json!(id));
                c.expect(matches!(&o, Ok(o) if o.is_ok()), &key, || json!({ "allow": format!("{o:?}") }));
                let out = go(&format!("present{at}"), "present", json!(id));
                let p = sent("present");
                c.expect(p.len() == 1 && matches!(&out, Ok(o) if o.is_ok()), &key, || json!({ "got": format!("{out:?}"), "sent": p.len() }));
                for b in &p {
                    judge_sent(c, &key, b, obj, &held, &|x| x == *k, 1);
                }
            }
        }
    }
}

/// Request objects that are not what the verifier signed.
fn forged(c: &mut Check) {
    let descs = asks()[0].1.clone();
    let kinds = [
        "as signed", "signed by another", "changed after signing", "no signature", "unknown DID", "unknown key", "no kid", "not a JWT", "definition by reference",
        "no descriptors", "an object, not signed", "empty",
    ];
    for (k, kind) in kinds.iter().enumerate() {
        let key = format!("request object {kind}");
        if !c.case(&key) {
            continue;
        }
        let mut w = fresh();
        let (id, e) = credential(0);
        w.creds.insert(id, e);
        load(&w);
        let r = create("r", VERIFIER_ID, true, &descs);
        let (uri, _) = shown(&r, true);
        let t = Tamper(Arc::new(move |ep, v| {
            if ep != "request_object" {
                return v;
            }
            let tok = s(&v);
            let p: Vec<&str> = tok.split('.').collect();
            let (head, mut cl) = open_jwt(&tok, VERIFIER_PK).expect("signed by the verifier");
            let kid = |kid: &str| {
                let mut h = head.clone();
                h["kid"] = json!(kid);
                h
            };
            json!(match k {
                0 => tok.clone(),
                1 => jwt(&head, &cl, "pk-mallory-0"),
                2 => {
                    cl["nonce"] = json!("mine");
                    format!("{}.{}.{}", p[0], B64::encode_string(cl.to_string().as_bytes()), p[2])
                }
                3 => format!("{}.{}.", p[0], p[1]),
                4 => jwt(&kid("did:example:nobody#k0"), &cl, VERIFIER_PK),
                5 => jwt(&kid("did:example:verifier#k9"), &cl, VERIFIER_PK),
                6 => {
                    let mut h = head.clone();
                    h.as_object_mut().unwrap().remove("kid");
                    jwt(&h, &cl, VERIFIER_PK)
                }
                7 => "not.a.jwt".into(),
                8 => {
                    cl.as_object_mut().unwrap().remove("presentation_definition");
                    cl["presentation_definition_uri"] = json!("http://localhost/pd");
                    jwt(&head, &cl, VERIFIER_PK)
                }
                9 => {
                    cl["presentation_definition"]["input_descriptors"] = json!([]);
                    jwt(&head, &cl, VERIFIER_PK)
                }
                10 => return cl,
                _ => String::new(),
            })
        }));
        with(|w| w.tamper = Some(t));
        let before = save();
        let out = go("request", "request", json!(uri));
        let now = save();
        match out {
            Err(p) => c.violation(&key, json!({ "panic": p })),
            Ok(o) => {
                c.outcome(if o.is_ok() { "forged ok" } else { "forged refused" });
                c.expect(o.is_ok() == (k == 0), &key, || json!({ "got": o.json() }));
                c.expect(o.is_ok() || now.store == before.store, &key, || json!({ "refused, but a flow was opened": true }));
            }
        }
    }
}

/// Request objects of verifiers with unusual names: the presentation is for
/// just those.
fn odd(c: &mut Check) {
    let descs = asks()[0].1.clone();
    let mut w = fresh();
    let (id, e) = credential(0);
    w.creds.insert(id, e);
    load(&w);
    let r = create("r", VERIFIER_ID, true, &descs);
    let (uri, obj) = shown(&r, true);
    let base = save();
    let texts = ["-a-", "_a_", " a ", "a/", "a//", "/a", "http://x.example/post", "http://x.example/post/", "http://x.example/", "https://x.example:8443/a?b=c&d=%20#e", "é€😀", "a+b c", "%41", "\"a\"", "{a}", "0", "A", "a\nb"];
    for field in ["state", "nonce", "client_id", "response_uri"] {
        let mut all: Vec<Option<String>> = texts.iter().map(|t| Some(t.to_string())).collect();
        all.extend(gen::near(&s(&obj[field])).into_iter().filter(|t| !t.is_empty()).map(Some));
        if matches!(field, "response_uri" | "state") {
            all.push(None);
        }
        for x in all {
            for cross in [true, false] {
                let key = format!("odd/{field}/{x:?}/{cross}");
                if !c.case(&key) {
                    continue;
                }
                c.transition();
                let mut o = obj.clone();
                match &x {
                    Some(x) => o[field] = json!(x),
                    None => drop(o.as_object_mut().unwrap().remove(field)),
                }
                load(&base);
                let told = if cross {
                    let (f, x) = (field.to_string(), x.clone());
                    with(|w| {
                        w.tamper = Some(Tamper(Arc::new(move |ep, v| {
                            if ep != "request_object" {
                                return v;
                            }
                            let (head, mut cl) = open_jwt(&s(&v), VERIFIER_PK).expect("signed by the verifier");
                            match &x {
                                Some(x) => cl[&f] = json!(x),
                                None => drop(cl.as_object_mut().unwrap().remove(&f)),
                            }
                            json!(jwt(&head, &cl, VERIFIER_PK))
                        })));
                    });
                    uri.clone()
                } else {
                    let q: RequestObject = serde_json::from_value(o.clone()).expect("request object");
                    q.to_querystring().expect("query string")
                };
                let id = match go("request", "request", json!(told)) {
                    Ok(Out::Ok(r)) => s(&r["presentation_id"]),
                    out => {
                        c.violation(&key, json!({ "request": format!("{out:?}") }));
                        continue;
                    }
                };
                let _ = go("allow", "allow", json!(id));
                let out = go("present", "present", json!(id));
                if let Err(p) = out {
                    c.violation(&key, json!({ "panic": p }));
                    continue;
                }
                let p = sent("present");
                c.expect(p.len() == 1, &key, || json!({ "sent": p.len(), "got": format!("{out:?}") }));
                for b in &p {
                    judge_sent(c, &key, b, &o, &[0], &|_| true, 1);
                }
            }
        }
    }
}

/// A fault at every provider call: no panic, nothing presented that was not
/// authorized, and the flow can go on where it was.
fn faults(c: &mut Check) {
    let descs = asks()[0].1.clone();
    for cross in [false, true] {
        let mut w = fresh();
        for k in [0, 1] {
            let (id, e) = credential(k);
            w.creds.insert(id, e);
        }
        load(&w);
        let r = create("r", VERIFIER_ID, cross, &descs);
        let (shown, obj) = shown(&r, cross);
        let mut id = String::new();
        for ep in ["request", "allow", "present"] {
            let start = save();
            let arg = if ep == "request" { json!(shown) } else { json!(id) };
            load(&start);
            with(|w| w.calls = 0);
            let good = must("good", ep, arg.clone());
            let calls = with(|w| w.calls);
            let done = save();
            for k in 0..calls {
                let key = format!("fault {k} in {ep}/{}", if cross { "cross" } else { "same" });
                if !c.case(&key) {
                    continue;
                }
                load(&start);
                with(|w| {
                    w.calls = 0;
                    w.fail_at = Some(k);
                });
                let out = go("good", ep, arg.clone());
                with(|w| w.fail_at = None);
                c.transition();
                match out {
                    Err(p) => c.violation(&key, json!({ "panic": p })),
                    Ok(o) => {
                        c.expect(!o.is_ok(), &key, || json!({ "fault ignored": o.json() }));
                        let p = sent("present");
                        c.expect(ep == "present" || p.is_empty(), &key, || json!({ "presented": p }));
                        for b in &p {
                            judge_sent(c, &key, b, &obj, &[0, 1], &|k| CREDS[k].0 == "EmployeeID", 1);
                        }
                        if ep != "present" {
                            let again = go("again", ep, arg.clone());
                            c.expect(matches!(&again, Ok(x) if x.is_ok()), &key, || json!({ "cannot be repeated": format!("{again:?}") }));
                        }
                    }
                }
            }
            load(&done);
            if ep == "request" {
                id = s(&good["presentation_id"]);
            }
        }
    }
}
