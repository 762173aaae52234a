//! Responses and fetches in which one text is replaced by what is easily taken
//! for it.
use crate::accept::*;
use mc::{gen, Check};
use serde_json::{json, Value};
use world::verifier::*;
use world::{jwt, load, save, World};

fn try_all(c: &mut Check, tag: &str, w: &World, ep: &'static str, doc: &Value, build: &dyn Fn(&Value) -> Value, want: &dyn Fn(&str) -> Option<bool>) {
    let key = format!("near/{tag}/unchanged");
    if c.case(&key) {
        load(w);
        judge(c, &key, &go("near", ep, build(doc)), true, doc);
    }
    for (at, text) in gen::texts(doc) {
        for n in gen::near(&text) {
            let key = format!("near/{tag}{at}/{n:?}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let d = gen::put(doc, &at, json!(n));
            load(w);
            let out = go("near", ep, build(&d));
            let ok = out.as_ref().is_ok_and(world::Out::is_ok);
            // a body that cannot be read is refused as well
            if matches!(&out, Ok(world::Out::Bad(_))) {
                c.expect(want(&at) != Some(true), &key, || json!({ "unreadable": d }));
                continue;
            }
            judge(c, &key, &out, want(&at).unwrap_or(ok), &json!({ "changed": at, "to": n }));
        }
    }
}
pub fn response(c: &mut Check) {
    for (name, fmt) in [("plain", false), ("format given", true)] {
        let mut ds = descriptor("emp", "EmployeeID");
        if fmt {
            ds["format"] = json!({ "jwt_vc_json": { "alg": ["EdDSA"] } });
        }
        load(&fresh());
        let req = make("req", VERIFIER_ID, true, json!([ds]));
        let base = save();
        let good = answer(&req);
        try_all(c, &format!("{name}/response"), &base, "response", &good, &|d| d.clone(), &|at| match at {
            "/presentation_submission/id" => Some(true),
            "/presentation_submission/descriptor_map/0/path_nested/format" if fmt => Some(false),
            // further ways to write a path, formats nobody asked about
            _ if at.starts_with("/presentation_submission/descriptor_map/0/path") || at.ends_with("/format") => None,
            _ => Some(false),
        });
        // inside a presentation and a credential that are correctly signed
        let vp = json!({ "h": { "alg": "EdDSA", "typ": "vp+jwt", "kid": "did:example:alice#k0" }, "c": vp_claims(&req.nonce, &req.client, &[json!(vc_jwt("EmployeeID"))]) });
        let send = |token: String| gen::put(&good, "/vp_token/0", json!(token));
        try_all(c, &format!("{name}/presentation"), &base, "response", &vp, &|d| send(jwt(&d["h"], &d["c"], "pk-alice-0")), &|at| match at {
            "/h/kid" | "/c/nonce" | "/c/aud" | "/c/vp/verifiableCredential/0" => Some(false),
            _ => None,
        });
        let vc = json!({ "h": { "alg": "EdDSA", "typ": "jwt", "kid": "did:example:issuer#k0" }, "c": vc_claims(vc_json("EmployeeID", None)) });
        let wrap = |d: &Value| {
            let cred = jwt(&d["h"], &d["c"], "pk-issuer-0");
            send(jwt(&vp["h"], &vp_claims(&req.nonce, &req.client, &[json!(cred)]), "pk-alice-0"))
        };
        try_all(c, &format!("{name}/credential"), &base, "response", &vc, &wrap, &|at| match at {
            "/h/kid" | "/c/vc/type/1" => Some(false),
            _ => None,
        });
    }
}
pub fn fetch(c: &mut Check) {
    load(&fresh());
    let r = must("nf", "create_request", json!({ "client_id": VERIFIER_ID, "purpose": "p", "input_descriptors": [descriptor("emp", "EmployeeID")],
        "client_id_scheme": "redirect_uri", "device_flow": "CrossDevice" }));
    let id = r["request_uri"].as_str().unwrap_or_default().rsplit('/').next().unwrap_or_default().to_string();
    let mut w = save();
    for crowded in [false, true] {
        if crowded {
            // every name that is easily taken for the verifier's is a verifier's
            let mut k = (*w.vcfg).clone();
            let v = k.verifiers[VERIFIER_ID].clone();
            for n in gen::near(VERIFIER_ID) {
                k.verifiers.insert(n, v.clone());
            }
            w.vcfg = k.into();
        }
        // nor may one whose name is made of the verifier's and an endpoint's
        for n in ["/post", "/post/post", "/", "//post", "/callback", "/request", "/post/", "%2Fpost", "/post?"] {
            for (name, who) in [("suffix", format!("{VERIFIER_ID}{n}")), ("alone", n.to_string())] {
                let key = format!("fetch {crowded}/{name}/{n}");
                if c.case(&key) {
                    load(&w);
                    if crowded {
                        let mut k = (*w.vcfg).clone();
                        k.verifiers.insert(who.clone(), k.verifiers[VERIFIER_ID].clone());
                        world::with(|w| w.vcfg = k.into());
                    }
                    judge(c, &key, &go("near", "request_object", json!({ "client_id": who, "id": id })), false, &json!({ "fetched by": who }));
                }
            }
        }
        try_all(c, &format!("fetch {crowded}"), &w, "request_object", &json!({ "client_id": VERIFIER_ID, "id": id }), &|d| d.clone(), &|_| Some(false));
    }
}
