//! C14: which claims may be asked for, and which credential is meant.
use std::collections::HashMap;

use mc::{gen, Check};
use serde_json::{json, Value};
use vercre_openid::issuer::{AuthorizationDetail, Claim, ClaimDefinition, CredentialConfiguration, Format, Issuer};

#[derive(Clone, Debug)]
enum Sup {
    Opt,
    Must,
    MustNot,
    Set(Vec<(&'static str, Sup)>),
}
#[derive(Clone, Debug)]
enum Req {
    One,
    Set(Vec<(&'static str, Req)>),
}
fn entry(m: Option<bool>) -> Claim {
    Claim::Entry(ClaimDefinition { mandatory: m, ..ClaimDefinition::default() })
}
fn sup(s: &[(&'static str, Sup)]) -> HashMap<String, Claim> {
    s.iter()
        .map(|(k, v)| {
            ((*k).to_string(), match v {
                Sup::Opt => entry(None),
                Sup::Must => entry(Some(true)),
                Sup::MustNot => entry(Some(false)),
                Sup::Set(s) => Claim::Set(sup(s)),
            })
        })
        .collect()
}
fn req(r: &[(&'static str, Req)]) -> HashMap<String, Claim> {
    r.iter()
        .map(|(k, v)| {
            ((*k).to_string(), match v {
                Req::One => entry(None),
                Req::Set(s) => Claim::Set(req(s)),
            })
        })
        .collect()
}
/// None: left open
fn supported(r: &[(&'static str, Req)], s: &[(&'static str, Sup)]) -> Option<bool> {
    let mut open = false;
    for (k, v) in r {
        match (v, s.iter().find(|(n, _)| n == k).map(|x| &x.1)) {
            (_, None) => return Some(false),
            (Req::Set(r), Some(Sup::Set(s))) => match supported(r, s) {
                Some(false) => return Some(false),
                None => open = true,
                _ => {}
            },
            (Req::Set(_), Some(_)) => return Some(false),
            // a set asked for as if it were one claim
            (Req::One, Some(Sup::Set(_))) => open = true,
            (Req::One, Some(_)) => {}
        }
    }
    if open { None } else { Some(true) }
}
fn complete(r: &[(&'static str, Req)], s: &[(&'static str, Sup)]) -> bool {
    s.iter().all(|(k, v)| {
        let r = r.iter().find(|(n, _)| n == k).map(|x| &x.1);
        match v {
            Sup::Must => r.is_some(),
            Sup::Set(s) => match r {
                Some(Req::Set(r)) => complete(r, s),
                _ => complete(&[], s),
            },
            _ => true,
        }
    })
}
fn config(f: usize, claims: Option<HashMap<String, Claim>>) -> CredentialConfiguration {
    let cs = serde_json::to_value(&claims).unwrap();
    let mut v = match f {
        0 => json!({ "format": "jwt_vc_json", "credential_definition": { "type": ["VerifiableCredential", "A"] } }),
        1 => json!({ "format": "ldp_vc", "credential_definition": { "type": ["VerifiableCredential", "A"] } }),
        2 => json!({ "format": "jwt_vc_json-ld", "credential_definition": { "type": ["VerifiableCredential", "A"] } }),
        3 => json!({ "format": "mso_mdoc", "doctype": "d" }),
        _ => json!({ "format": "vc+sd-jwt", "vct": "v" }),
    };
    if claims.is_some() {
        if f < 3 {
            v["credential_definition"]["credentialSubject"] = cs;
        } else {
            v["claims"] = cs;
        }
    }
    serde_json::from_value(v).unwrap()
}

pub fn c14() -> ! {
    let mut c = Check::new("C14", "exploration");
    c.rule("every pair of a supported claim tree and a requested claim tree (two levels below two top-level claims, a third level below one; unknown claims at each level) in every format; every set of up to three configurations x every format description; every pair of authorisation details; long lists with the decisive item at every place, and near misses of every name");
    // claims
    let e: Vec<Sup> = vec![Sup::Opt, Sup::Must, Sup::MustNot];
    let mut inner: Vec<Sup> = e.clone();
    inner.push(Sup::Set(vec![("e", Sup::Must)]));
    inner.push(Sup::Set(vec![("e", Sup::Opt)]));
    let pick = |names: [&'static str; 2], kinds: &[Sup]| -> Vec<Vec<(&'static str, Sup)>> {
        gen::product(&[kinds.len() + 1, kinds.len() + 1])
            .map(|w| names.iter().zip(&w).filter(|(_, k)| **k > 0).map(|(n, k)| (*n, kinds[*k - 1].clone())).collect())
            .collect()
    };
    let sets: Vec<Sup> = pick(["c", "d"], &inner).into_iter().map(Sup::Set).filter(|s| !matches!(s, Sup::Set(v) if v.is_empty())).collect();
    let mut sups: Vec<Vec<(&'static str, Sup)>> = vec![];
    let a: Vec<Sup> = e.iter().cloned().chain(sets).collect();
    let b: Vec<Sup> = e.iter().cloned().chain([Sup::Set(vec![("c", Sup::Must)]), Sup::Set(vec![("c", Sup::Opt), ("d", Sup::Opt)])]).collect();
    for x in 0..=a.len() {
        for y in 0..=b.len() {
            sups.push([("a", x.checked_sub(1).map(|i| &a[i])), ("b", y.checked_sub(1).map(|i| &b[i]))].into_iter().filter_map(|(n, s)| s.map(|s| (n, s.clone()))).collect());
        }
    }
    let third = [Req::One, Req::Set(vec![("e", Req::One)]), Req::Set(vec![("z", Req::One)])];
    let mut rsets: Vec<Req> = vec![];
    for w in gen::product(&[4, 4, 2]) {
        let mut v = vec![];
        for (i, n) in ["c", "d"].into_iter().enumerate() {
            if w[i] > 0 {
                v.push((n, third[w[i] - 1].clone()));
            }
        }
        if w[2] > 0 {
            v.push(("z", Req::One));
        }
        if !v.is_empty() {
            rsets.push(Req::Set(v));
        }
    }
    let ra: Vec<Req> = [Req::One].into_iter().chain(rsets).collect();
    let rb = [Req::One, Req::Set(vec![("c", Req::One)]), Req::Set(vec![("c", Req::One), ("d", Req::One)]), Req::Set(vec![("y", Req::One)])];
    let mut reqs: Vec<Vec<(&'static str, Req)>> = vec![];
    for w in gen::product(&[ra.len() + 1, rb.len() + 1, 2]) {
        let mut v = vec![];
        if w[0] > 0 {
            v.push(("a", ra[w[0] - 1].clone()));
        }
        if w[1] > 0 {
            v.push(("b", rb[w[1] - 1].clone()));
        }
        if w[2] > 0 {
            v.push(("z", Req::One));
        }
        reqs.push(v);
    }
    c.bound("supported trees", sups.len());
    c.bound("requested trees", reqs.len());
    let formats = c.pick(1, 5);
    for f in 0..5 {
        for (i, s) in sups.iter().enumerate() {
            if f >= formats && i % 11 != 0 {
                continue;
            }
            let cfg = config(f, Some(sup(s)));
            for r in &reqs {
                let key = format!("{f}: {r:?} of {s:?}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let got = mc::guard(|| cfg.verify_claims(&req(r)).is_ok());
                let want = match supported(r, s) {
                    Some(false) => Some(false),
                    _ if !complete(r, s) => Some(false),
                    x => x,
                };
                c.outcome(match want {
                    Some(true) => "granted",
                    Some(false) => "refused",
                    None => "left open",
                });
                let ok = got.as_ref().is_ok_and(|g| want.is_none_or_eq(*g));
                c.expect(ok, &key, || json!({ "got": got, "want": want }));
            }
        }
        // a credential that lists no claims takes any
        for r in &reqs {
            let key = format!("{f}: {r:?} of unlisted claims");
            if c.case(&key) {
                let got = mc::guard(|| config(f, None).verify_claims(&req(r)).is_ok());
                c.expect(got == Ok(true), &key, || json!({ "got": got }));
            }
        }
    }
    sizes(&mut c);
    near(&mut c);
    configurations(&mut c);
    authorizations(&mut c);
    c.finish()
}
trait NoneOr {
    fn is_none_or_eq(&self, b: bool) -> bool;
}
impl NoneOr for Option<bool> {
    fn is_none_or_eq(&self, b: bool) -> bool {
        self.is_none() || *self == Some(b)
    }
}

fn wrap(levels: usize, inner: HashMap<String, Claim>) -> HashMap<String, Claim> {
    (0..levels).rev().fold(inner, |m, i| HashMap::from([(format!("l{i}"), Claim::Set(m))]))
}
fn judge(c: &mut Check, f: usize, key: &str, s: HashMap<String, Claim>, r: &HashMap<String, Claim>, want: bool) {
    if c.case(key) {
        c.distinct(key);
        let got = mc::guard(|| config(f, Some(s)).verify_claims(r).is_ok());
        c.expect(got == Ok(want), key, || json!({ "got": got, "want": want }));
    }
}
/// One claim of many, at any depth, decides.
fn sizes(c: &mut Check) {
    let width = c.pick(30, 120);
    let depth = c.pick(20, 60);
    c.bound("width of claims", width);
    c.bound("depth of claims", depth);
    let n = |i: usize| format!("c{i}");
    for f in 0..5 {
        for w in (1..=width).filter(|w| f == 0 || *w % 7 == 1) {
            for levels in [0, 1, 3] {
                let all = |m: Option<bool>| (0..w).map(|i| (n(i), entry(m))).collect::<HashMap<_, _>>();
                let asked = all(None);
                judge(c, f, &format!("{f}: all of {w} optional at {levels}"), wrap(levels, all(None)), &wrap(levels, asked.clone()), true);
                judge(c, f, &format!("{f}: all of {w} mandatory at {levels}"), wrap(levels, all(Some(true))), &wrap(levels, asked.clone()), true);
                for k in 0..w {
                    let mut few = asked.clone();
                    few.remove(&n(k));
                    judge(c, f, &format!("{f}: without {k} of {w} optional at {levels}"), wrap(levels, all(None)), &wrap(levels, few.clone()), true);
                    judge(c, f, &format!("{f}: without {k} of {w} mandatory at {levels}"), wrap(levels, all(Some(true))), &wrap(levels, few.clone()), false);
                    let mut one = all(None);
                    one.insert(n(k), entry(Some(true)));
                    judge(c, f, &format!("{f}: without {k}, the only mandatory one of {w} at {levels}"), wrap(levels, one), &wrap(levels, few.clone()), false);
                    judge(c, f, &format!("{f}: {k} of {w} is not supported at {levels}"), wrap(levels, few), &wrap(levels, asked.clone()), false);
                }
            }
        }
        for d in 1..=depth {
            let leaf = |name: &str, m: Option<bool>| HashMap::from([(name.to_string(), entry(m))]);
            judge(c, f, &format!("{f}: depth {d}"), wrap(d, leaf("x", Some(true))), &wrap(d, leaf("x", None)), true);
            judge(c, f, &format!("{f}: depth {d} unknown"), wrap(d, leaf("x", None)), &wrap(d, leaf("y", None)), false);
            judge(c, f, &format!("{f}: depth {d} nothing asked"), wrap(d, leaf("x", None)), &HashMap::new(), true);
            judge(c, f, &format!("{f}: depth {d} mandatory, nothing asked"), wrap(d, leaf("x", Some(true))), &HashMap::new(), false);
            judge(c, f, &format!("{f}: depth {d} mandatory, another asked"), { let mut s = wrap(d, leaf("x", Some(true))); s.insert("o".into(), entry(None)); s }, &leaf("o", None), false);
            judge(c, f, &format!("{f}: deeper than {d}"), wrap(d, leaf("x", None)), &wrap(d, HashMap::from([("x".to_string(), Claim::Set(leaf("z", None)))])), false);
            if d > 1 {
                judge(c, f, &format!("{f}: one level of {d} missing"), wrap(d, leaf("x", None)), &wrap(d - 1, leaf("x", None)), false);
                judge(c, f, &format!("{f}: one level of {d} too many"), wrap(d - 1, leaf("x", None)), &wrap(d, leaf("x", None)), false);
            }
        }
    }
}
/// A claim whose name is easily taken for another is another.
fn near(c: &mut Check) {
    for name in ["given_name", "a", "address", "A_B", "0"] {
        for other in gen::near(name) {
            for f in 0..5 {
                for levels in [0, 1, 2] {
                    let leaf = |n: &str, m: Option<bool>| HashMap::from([(n.to_string(), entry(m))]);
                    for (s, r) in [(name, other.as_str()), (other.as_str(), name)] {
                        judge(c, f, &format!("{f}: {r:?} of {s:?} at {levels}"), wrap(levels, leaf(s, None)), &wrap(levels, leaf(r, None)), false);
                        let both = || leaf(s, Some(true)).into_iter().chain(leaf(r, None)).collect::<HashMap<_, _>>();
                        judge(c, f, &format!("{f}: {r:?} for the mandatory {s:?} at {levels}"), wrap(levels, both()), &wrap(levels, leaf(r, None)), false);
                        judge(c, f, &format!("{f}: {r:?} and {s:?} at {levels}"), wrap(levels, both()), &wrap(levels, both()), true);
                    }
                }
            }
        }
    }
}

/// Descriptions of a credential: (what it is, JSON).
fn descriptions() -> Vec<(String, Value)> {
    let mut v = vec![];
    for f in ["jwt_vc_json", "ldp_vc", "jwt_vc_json-ld"] {
        for t in [vec!["VerifiableCredential", "A"], vec!["VerifiableCredential", "B"], vec!["VerifiableCredential"], vec!["VerifiableCredential", "A", "B"], vec!["VerifiableCredential", "A", "A"], vec!["VerifiableCredential", "a"]] {
            for extra in 0..2 {
                let mut d = json!({ "type": t });
                if extra == 1 {
                    d["credentialSubject"] = json!({ "given_name": { "mandatory": true } });
                    d["@context"] = json!(["https://www.w3.org/2018/credentials/v1"]);
                }
                v.push((format!("{f} {t:?}"), json!({ "format": f, "credential_definition": d })));
            }
        }
    }
    for n in ["A", "B", "", " A", "a", "A/"] {
        for (f, m) in [("mso_mdoc", "doctype"), ("vc+sd-jwt", "vct")] {
            v.push((format!("{f} {n}"), json!({ "format": f, m: n })));
            v.push((format!("{f} {n}"), json!({ "format": f, m: n, "claims": { "given_name": {} } })));
        }
    }
    v
}
fn configurations(c: &mut Check) {
    let ds = descriptions();
    c.bound("credential descriptions", ds.len());
    let n = ds.len();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..n {
        sets.push(vec![i]);
        for j in 0..i {
            sets.push(vec![j, i]);
            if c.thorough() {
                for k in 0..j {
                    sets.push(vec![k, j, i]);
                }
            }
        }
    }
    for set in &sets {
        let supported: Value = set.iter().map(|i| (format!("id{i}"), ds[*i].1.clone())).collect::<serde_json::Map<_, _>>().into();
        let doc = json!({ "credential_issuer": "http://i", "credential_endpoint": "http://i/c", "credential_configurations_supported": supported });
        let issuer: Result<Issuer, _> = serde_json::from_value(doc);
        let Ok(issuer) = issuer else {
            c.violation("issuer metadata unreadable", json!(issuer.err().map(|e| e.to_string())));
            return;
        };
        for (j, (what, d)) in ds.iter().enumerate() {
            let key = format!("look up {j} in {set:?}");
            if !c.case(&key) {
                continue;
            }
            let fmt: Format = serde_json::from_value(d.clone()).unwrap();
            let got = mc::guard(|| issuer.credential_configuration_id(&fmt).ok().cloned());
            let same: Vec<String> = set.iter().filter(|i| ds[**i].0 == *what).map(|i| format!("id{i}")).collect();
            c.outcome(if same.is_empty() { "no such configuration" } else { "configuration found" });
            let ok = match &got {
                Ok(None) => same.is_empty(),
                Ok(Some(id)) => same.contains(id),
                Err(_) => false,
            };
            c.expect(ok, &key, || json!({ "got": got, "want": same }));
        }
    }
}
/// Names easily taken for one another do not find each other's configuration.
fn near_configurations(c: &mut Check) {
    for name in ["EmployeeIDCredential", "org.iso.18013.5.1.mDL", "a"] {
        for other in gen::near(name) {
            for f in ["jwt_vc_json", "ldp_vc", "jwt_vc_json-ld", "mso_mdoc", "vc+sd-jwt"] {
                let d = |n: &str| match f {
                    "mso_mdoc" => json!({ "format": f, "doctype": n }),
                    "vc+sd-jwt" => json!({ "format": f, "vct": n }),
                    _ => json!({ "format": f, "credential_definition": { "type": ["VerifiableCredential", n] } }),
                };
                for (have, ask) in [(vec![name], other.as_str()), (vec![other.as_str()], name), (vec![name, other.as_str()], name), (vec![name, other.as_str()], other.as_str())] {
                    let key = format!("{f}: look up {ask:?} among {have:?}");
                    if !c.case(&key) {
                        continue;
                    }
                    let supported: Value = have.iter().map(|n| (format!("id {n}"), d(n))).collect::<serde_json::Map<_, _>>().into();
                    let issuer: Issuer = serde_json::from_value(json!({ "credential_issuer": "http://i", "credential_endpoint": "http://i/c", "credential_configurations_supported": supported })).unwrap();
                    let fmt: Format = serde_json::from_value(d(ask)).unwrap();
                    let got = mc::guard(|| issuer.credential_configuration_id(&fmt).ok().cloned());
                    let want = have.contains(&ask).then(|| format!("id {ask}"));
                    c.expect(got.as_ref() == Ok(&want), &key, || json!({ "got": got, "want": want }));
                    let mut detail = |n: &str| {
                        let mut v = d(n);
                        v["type"] = json!("openid_credential");
                        serde_json::from_value::<AuthorizationDetail>(v).unwrap().credential
                    };
                    c.expect((detail(ask) == detail(have[0])) == (ask == have[0]), &key, || json!("the same credential, or another"));
                }
            }
        }
    }
    // many configurations: each is found by its own description
    for n in [1, 5, 17, 40] {
        let d = |i: usize| json!({ "format": "jwt_vc_json", "credential_definition": { "type": ["VerifiableCredential", format!("T{i}")] } });
        let supported: Value = (0..n).map(|i| (format!("id{i}"), d(i))).collect::<serde_json::Map<_, _>>().into();
        let issuer: Issuer = serde_json::from_value(json!({ "credential_issuer": "http://i", "credential_endpoint": "http://i/c", "credential_configurations_supported": supported })).unwrap();
        for i in 0..=n {
            let key = format!("look up {i} of {n}");
            if c.case(&key) {
                let fmt: Format = serde_json::from_value(d(i)).unwrap();
                let got = mc::guard(|| issuer.credential_configuration_id(&fmt).ok().cloned());
                c.expect(got == Ok((i < n).then(|| format!("id{i}"))), &key, || json!({ "got": got }));
            }
        }
    }
}
fn authorizations(c: &mut Check) {
    near_configurations(c);
    let mut ds: Vec<(String, Value)> = descriptions();
    let ids: std::collections::BTreeSet<String> = gen::near("A B").into_iter().chain(["A", "B", "A B"].map(String::from)).collect();
    for id in ids {
        ds.push((format!("id {id}"), json!({ "credential_configuration_id": id })));
        ds.push((format!("id {id}"), json!({ "credential_configuration_id": id, "claims": { "a": {} } })));
        ds.push((format!("id {id}"), json!({ "credential_configuration_id": id, "credential_definition": { "type": ["A"], "credentialSubject": { "a": {} } } })));
    }
    let ds: Vec<(String, AuthorizationDetail)> = ds
        .into_iter()
        .map(|(w, mut d)| {
            d["type"] = json!("openid_credential");
            (w, serde_json::from_value(d).unwrap())
        })
        .collect();
    for (i, (w, a)) in ds.iter().enumerate() {
        for (j, (x, b)) in ds.iter().enumerate() {
            let key = format!("same credential: {i} {j}");
            if !c.case(&key) {
                continue;
            }
            c.outcome(if w == x { "same credential" } else { "another credential" });
            let got = (a.credential == b.credential, b.credential == a.credential);
            c.expect(got == (w == x, w == x), &key, || json!({ "a": w, "b": x, "got": got.0 }));
        }
    }
}
