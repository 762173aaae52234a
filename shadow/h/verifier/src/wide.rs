//! More of everything: requests with many descriptors, presentations with many
//! credentials, many presentations, many requests at once.
use crate::accept::*;
use mc::{clock, Check};
use serde_json::{json, Value};
use world::verifier::*;
use world::{load, save};

fn sizes(c: &Check) -> Vec<usize> {
    if c.thorough() { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 33] } else { vec![1, 2, 3, 4, 5, 8, 9, 11] }
}
fn ty(i: usize) -> String {
    format!("Type{i}")
}
fn id(i: usize) -> String {
    format!("d{i}")
}
/// The descriptors of a request, written in several ways.
const STYLES: [&str; 4] = ["plain", "one name and purpose", "one type", "with formats"];
fn descs(n: usize, style: usize) -> Value {
    (0..n)
        .map(|i| {
            let mut d = descriptor(&id(i), &if style == 2 { ty(0) } else { ty(i) });
            match style {
                1 => {
                    d["name"] = json!("A name");
                    d["purpose"] = json!("A purpose");
                }
                3 => d["format"] = json!({ "jwt_vc_json": { "alg": ["EdDSA"] }, "ldp_vc": { "proof_type": ["x"] } }),
                _ => {}
            }
            d
        })
        .collect()
}
fn entry(id: &str, path: &str) -> Value {
    json!({ "id": id, "format": "jwt_vc_json", "path": "$", "path_nested": { "format": "jwt_vc_json", "path": path } })
}
fn send(req: &Req, vps: Vec<Value>, map: Vec<Value>) -> Value {
    json!({ "vp_token": vps, "state": req.state, "presentation_submission": { "id": "s", "definition_id": req.def, "descriptor_map": map } })
}
fn vp(req: &Req, sign: usize, nonce: Option<&str>, aud: Option<&str>, vcs: &[Value]) -> Value {
    json!(vp_signed(sign, &vp_claims(nonce.unwrap_or(&req.nonce), aud.unwrap_or(&req.client), vcs)))
}

pub fn response(c: &mut Check) {
    let ns = sizes(c);
    c.bound("descriptors, credentials and presentations, up to", ns[ns.len() - 1]);
    for n in ns {
        for (st, style) in STYLES.iter().enumerate() {
            load(&fresh());
            let req = make("wide", VERIFIER_ID, n % 2 == 0, descs(n, st));
            let base = save();
            let t = |i: usize| if st == 2 { ty(0) } else { ty(i) };
            let good: Vec<Value> = (0..n).map(|i| vc_value(0, &t(i)).0).collect();
            let in_one = |i: usize| if n == 1 { format!("$.verifiableCredential[{i}]") } else { format!("$.verifiableCredential[{i}]") };
            let in_many = |i: usize| if n == 1 { "$.verifiableCredential[0]".into() } else { format!("$[{i}].verifiableCredential[0]") };
            let map = |path: &dyn Fn(usize) -> String| (0..n).map(|i| entry(&id(i), &path(i))).collect::<Vec<_>>();
            let one = |vcs: &[Value]| vec![vp(&req, 0, None, None, vcs)];
            let each = |vcs: &[Value]| vcs.iter().map(|v| vp(&req, 0, None, None, std::slice::from_ref(v))).collect::<Vec<_>>();
            let right = send(&req, one(&good), map(&in_one));
            let mut cases: Vec<(String, Value, bool)> = vec![
                ("right".into(), right.clone(), true),
                ("one presentation each".into(), send(&req, each(&good), map(&in_many)), true),
                ("mapping reversed".into(), send(&req, one(&good), { let mut m = map(&in_one); m.reverse(); m }), true),
                ("no mapping".into(), send(&req, one(&good), vec![]), false),
            ];
            let shift = (0..n).map(|i| good[(i + 1) % n].clone()).collect::<Vec<_>>();
            cases.push(("credentials shifted".into(), send(&req, one(&shift), map(&in_one)), n == 1 || st == 2));
            for k in 1..=n {
                let mut m: Vec<Value> = (0..k).map(|j| entry(&format!("foreign{j}"), "$.verifiableCredential[77]")).collect();
                m.extend(map(&in_one));
                cases.push((format!("after {k} entries for others"), send(&req, one(&good), m), true));
            }
            for i in 0..n {
                for k in 1..VCS.len() {
                    let (v, ok) = vc_value(k, &t(i));
                    let mut vcs = good.clone();
                    vcs[i] = v;
                    cases.push((format!("credential {i}: {}", VCS[k]), send(&req, one(&vcs), map(&in_one)), ok));
                    cases.push((format!("presentation {i}: {}", VCS[k]), send(&req, each(&vcs), map(&in_many)), ok));
                }
                for (name, p) in [
                    ("by mallory", vp(&req, 2, None, None, &[good[i].clone()])),
                    ("not signed", vp(&req, 5, None, None, &[good[i].clone()])),
                    ("changed after signing", vp(&req, 6, None, None, &[good[i].clone()])),
                    ("wrong nonce", vp(&req, 0, Some("wrong"), None, &[good[i].clone()])),
                    ("empty nonce", vp(&req, 0, Some(""), None, &[good[i].clone()])),
                    ("for another verifier", vp(&req, 0, None, Some("http://wrong.example/post"), &[good[i].clone()])),
                    ("without the credential", vp(&req, 0, None, None, &[])),
                ] {
                    let mut vps = each(&good);
                    vps[i] = p;
                    cases.push((format!("presentation {i} {name}"), send(&req, vps, map(&in_many)), false));
                }
                // a presentation nothing refers to has to be in order too
                for (name, p, ok) in [
                    ("good", vp(&req, 0, None, None, &[]), true),
                    ("by mallory", vp(&req, 2, None, None, &[]), false),
                    ("wrong nonce", vp(&req, 0, Some("wrong"), None, &[]), false),
                    ("for another verifier", vp(&req, 0, None, Some("http://wrong.example/post"), &[]), false),
                ] {
                    let mut vps = each(&good);
                    vps.insert(i, p);
                    let m = (0..n).map(|k| entry(&id(k), &format!("$[{}].verifiableCredential[0]", k + usize::from(k >= i)))).collect();
                    cases.push((format!("another presentation before {i}: {name}"), send(&req, vps, m), ok));
                }
                let mut m = map(&in_one);
                m.remove(i);
                cases.push((format!("no entry for {i}"), send(&req, one(&good), m), false));
                let mut m = map(&in_one);
                m[i]["id"] = json!("foreign");
                cases.push((format!("entry {i} is for another"), send(&req, one(&good), m), false));
                let mut m = map(&in_one);
                m[i]["path_nested"]["path"] = json!(format!("$.verifiableCredential[{}]", (i + 1) % n));
                cases.push((format!("entry {i} names the next credential"), send(&req, one(&good), m), n == 1 || st == 2));
                let mut m = map(&in_one);
                m[i]["path_nested"]["path"] = json!(format!("$.verifiableCredential[{n}]"));
                cases.push((format!("entry {i} names none"), send(&req, one(&good), m), false));
                let mut m = map(&in_one);
                m[i]["path_nested"]["path"] = json!("$.verifiableCredential[*]");
                cases.push((format!("entry {i} names all"), send(&req, one(&good), m), n == 1));
                let mut m = map(&in_one);
                m[i]["path_nested"]["format"] = json!("jwt_vc");
                cases.push((format!("entry {i} in another format"), send(&req, one(&good), m), st != 3));
            }
            for (name, b, want) in cases {
                let key = format!("wide/{n}/{style}/{name}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                load(&base);
                let out = go("wide", "response", b.clone());
                judge(c, &key, &out, want, &json!({ "descriptors": n, "written": style, "case": name }));
                let (next, ok) = if want { (b, false) } else { (right.clone(), true) };
                judge(c, &key, &go("wide2", "response", next), ok, &json!({ "descriptors": n, "written": style, "response after": name }));
            }
        }
        one_of_many(c, n);
        fields(c, n);
        formats(c, n);
    }
}
/// One descriptor, n credentials: the one the entry names counts.
fn one_of_many(c: &mut Check, n: usize) {
    load(&fresh());
    let req = make("wide", VERIFIER_ID, true, json!([descriptor("emp", "EmployeeID")]));
    let base = save();
    for at in 0..n {
        let vcs: Vec<Value> = (0..n).map(|i| vc_value(0, &if i == at { "EmployeeID".to_string() } else { ty(i) }).0).collect();
        for named in 0..=n {
            let key = format!("wide/one of {n}/{at}/{named}");
            if c.case(&key) {
                load(&base);
                let b = send(&req, vec![vp(&req, 0, None, None, &vcs)], vec![entry("emp", &format!("$.verifiableCredential[{named}]"))]);
                judge(c, &key, &go("one", "response", b), at == named, &json!({ "credentials": n, "right one": at, "named": named }));
            }
        }
    }
}
/// A descriptor with n fields, each of which counts.
fn fields(c: &mut Check, n: usize) {
    load(&fresh());
    let fs: Vec<Value> = (0..n)
        .map(|i| {
            let mut f = json!({ "path": [format!("$.credentialSubject.f{i}")], "filter": { "type": "string", "const": "v" } });
            match i % 3 {
                1 => f["id"] = json!("same"),
                2 => f["name"] = json!("same"),
                _ => {}
            }
            f
        })
        .collect();
    let req = make("wide", VERIFIER_ID, true, json!([{ "id": "emp", "constraints": { "fields": fs } }]));
    let base = save();
    for bad in 0..=n {
        for how in ["other", "missing"] {
            let key = format!("wide/fields/{n}/{bad}/{how}");
            if !c.case(&key) {
                continue;
            }
            let mut vc = vc_json("Any", None);
            for i in 0..n {
                vc["credentialSubject"][format!("f{i}")] = json!("v");
            }
            if bad < n && how == "other" {
                vc["credentialSubject"][format!("f{bad}")] = json!("w");
            } else if bad < n {
                vc["credentialSubject"].as_object_mut().unwrap().remove(&format!("f{bad}"));
            }
            let t = world::jwt(&json!({ "alg": "EdDSA", "typ": "jwt", "kid": "did:example:issuer#k0" }), &vc_claims(vc), "pk-issuer-0");
            load(&base);
            let b = send(&req, vec![vp(&req, 0, None, None, &[json!(t)])], vec![entry("emp", "$.verifiableCredential[0]")]);
            judge(c, &key, &go("fields", "response", b), bad == n, &json!({ "fields": n, "not met": bad, "how": how }));
        }
    }
}
/// A descriptor with n formats: those and no others.
fn formats(c: &mut Check, n: usize) {
    let all = ["jwt", "jwt_vc", "jwt_vp", "ldp_vc", "ldp_vp", "ldp", "mso_mdoc", "jwt_vc_json", "jwt_vc_json-ld", "ac_vp", "vc+sd-jwt"];
    let n = n.min(all.len());
    let mut f = json!({});
    for a in &all[..n] {
        f[*a] = json!({ "alg": ["EdDSA"] });
    }
    let mut d = descriptor("emp", "EmployeeID");
    d["format"] = f;
    let o = std::panic::catch_unwind(|| {
        load(&fresh());
        make("wide", VERIFIER_ID, true, json!([d]))
    });
    let Ok(req) = o else { return };
    let base = save();
    for (i, a) in all.iter().enumerate() {
        let key = format!("wide/formats/{n}/{a}");
        if c.case(&key) {
            load(&base);
            let mut e = entry("emp", "$.verifiableCredential[0]");
            e["path_nested"]["format"] = json!(a);
            let b = send(&req, vec![vp(&req, 0, None, None, &[json!(vc_jwt("EmployeeID"))])], vec![e]);
            judge(c, &key, &go("formats", "response", b), i < n, &json!({ "formats": &all[..n], "given": a }));
        }
    }
}
/// C41: many requests at once, answered in several orders.
pub fn requests(c: &mut Check) {
    for n in sizes(c) {
        load(&fresh());
        let reqs: Vec<Req> = (0..n).map(|i| make(&format!("many{i}"), VERIFIER_ID, i % 3 != 1, json!([descriptor("emp", "EmployeeID")]))).collect();
        let base = save();
        let orders: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect(), (0..n).step_by(2).chain((1..n).step_by(2)).collect()];
        for (o, order) in orders.iter().enumerate() {
            let key = format!("many requests/{n}/{o}");
            if !c.case(&key) {
                continue;
            }
            load(&base);
            c.state(&(n, o));
            let mut open = vec![true; n];
            for i in order {
                for k in 0..n {
                    let cross = reqs[k].state == reqs[*i].state;
                    if !cross {
                        let mut a = answer(&reqs[k]);
                        a["state"] = json!(reqs[*i].state);
                        judge(c, &key, &go("mc", "response", a), false, &json!({ "answer of": k, "sent to": i, "requests": n }));
                        c.transition();
                    }
                }
                for again in [false, true] {
                    judge(c, &key, &go("ma", "response", answer(&reqs[*i])), !again, &json!({ "answer": i, "again": again, "requests": n }));
                    c.transition();
                }
                open[*i] = false;
                for (k, live) in open.iter().enumerate().filter(|(k, _)| k % 3 != 1) {
                    judge(c, &key, &go("mf", "request_object", json!({ "client_id": VERIFIER_ID, "id": reqs[k].state })), *live, &json!({ "fetch": k, "requests": n }));
                    c.transition();
                }
            }
            c.validated();
            let _ = clock::now();
        }
    }
}

/// C41: whatever is wrong with a response, its refusal leaves the request open.
pub fn refusals(c: &mut Check) {
    for n in [1, 2] {
        load(&fresh());
        let req = make("ref", VERIFIER_ID, n == 1, descs(n, 0));
        let other = make("ref-other", OTHER_VERIFIER, true, json!([descriptor("x", "Other")]));
        let base = save();
        let d = dims(n);
        for v in mc::gen::deviations(&d, 1) {
            let key = format!("refused/{n}/{v:?}");
            if !c.case(&key) {
                continue;
            }
            c.transition();
            c.state(&key);
            let (b, want, about) = body(&Plan { d: &v, req: &req, other: &other });
            load(&base);
            judge(c, &key, &go("one", "response", b.clone()), want, &about);
            // again and again, as long as it is wrong
            judge(c, &key, &go("two", "response", b), false, &about);
            judge(c, &key, &go("three", "response", answer(&req)), !want, &json!({ "correct response after": about }));
            judge(c, &key, &go("four", "response", answer(&req)), false, &json!({ "correct response twice after": about }));
        }
    }
}

/// C41: once a request has expired, no response to it is accepted, in whatever
/// form, and in whatever state the store is.
pub fn late(c: &mut Check) {
    for expunge in [false, true] {
        for (n, cross) in [(1, true), (1, false), (2, true)] {
            load(&fresh());
            world::with(|w| w.expunge = expunge);
            let req = make("late", VERIFIER_ID, cross, descs(n, 0));
            let other = make("late-other", OTHER_VERIFIER, true, json!([descriptor("x", "Other")]));
            let base = save();
            for v in mc::gen::deviations(&dims(n), c.pick(1, 2)) {
                for age in [301, 400, 86400] {
                    let key = format!("late/{expunge}/{n}/{cross}/{v:?}/{age}");
                    if !c.case(&key) {
                        continue;
                    }
                    c.transition();
                    c.state(&key);
                    let (b, _, about) = body(&Plan { d: &v, req: &req, other: &other });
                    load(&base);
                    clock::set(clock::EPOCH + age);
                    judge(c, &key, &go("late", "response", b), false, &json!({ "age": age, "response": about }));
                }
            }
        }
    }
}
