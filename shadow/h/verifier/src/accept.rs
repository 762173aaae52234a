//! C40, C41: which authorization responses the verifier accepts.
use mc::{clock, exec, gen, Check};
use serde_json::{json, Value};
use world::verifier::*;
use world::{jwt, load, save, seeded, with, Out, World};

pub fn fresh() -> World {
    World { vcfg: std_vcfg().into(), dids: world::dids().into(), now: clock::EPOCH, ..World::default() }
}
pub fn descriptor(id: &str, ty: &str) -> Value {
    let mut d = json!({ "id": id, "constraints": { "fields": [{ "path": ["$.type"], "filter": { "type": "string", "const": ty } }] } });
    if noisy() {
        d["name"] = json!("A name");
        d["purpose"] = json!("A purpose");
        d["constraints"]["limit_disclosure"] = json!("required");
        let f = &mut d["constraints"]["fields"];
        f[0]["id"] = json!("f");
        f[0]["name"] = json!("Type");
        f[0]["purpose"] = json!("to know the type");
        f.as_array_mut().unwrap().push(json!({ "path": ["$.nothing", "$.credentialSubject.nothing"], "optional": true, "filter": { "type": "string", "const": "x" } }));
    }
    d
}
pub fn must(label: &str, ep: &'static str, body: Value) -> Value {
    match go(label, ep, body.clone()) {
        Ok(Out::Ok(v)) => v,
        o => std::panic::panic_any(format!("scenario step {label}: {ep} {body} gave {o:?}")),
    }
}
/// What the wallet knows of a request.
#[derive(Clone, Debug)]
pub struct Req {
    pub state: String,
    pub nonce: String,
    pub client: String,
    pub def: String,
    pub descs: Value,
}
pub fn make(label: &str, client: &str, cross: bool, descs: Value) -> Req {
    let r = must(
        label,
        "create_request",
        json!({ "client_id": client, "purpose": "to know", "input_descriptors": descs, "client_id_scheme": "redirect_uri",
                "device_flow": if cross { "CrossDevice" } else { "SameDevice" } }),
    );
    let obj = if cross {
        let uri = r["request_uri"].as_str().unwrap_or_default();
        let id = uri.rsplit('/').next().unwrap_or_default();
        let t = must(&format!("{label}-obj"), "request_object", json!({ "client_id": client, "id": id }));
        let p: Vec<&str> = t.as_str().unwrap_or_default().split('.').collect();
        use base64ct::Encoding;
        serde_json::from_slice(&base64ct::Base64UrlUnpadded::decode_vec(p[1]).unwrap()).unwrap()
    } else {
        r["request_object"].clone()
    };
    let s = |v: &Value| v.as_str().unwrap_or_default().to_string();
    Req {
        state: s(&obj["state"]),
        nonce: s(&obj["nonce"]),
        client: s(&obj["client_id"]),
        def: s(&obj["presentation_definition"]["id"]),
        descs,
    }
}

pub fn date(t: i64) -> String {
    chrono::DateTime::from_timestamp(t, 0).unwrap().to_rfc3339()
}
pub fn vc_json(ty: &str, until: Option<i64>) -> Value {
    let mut v = json!({
        "@context": ["https://www.w3.org/2018/credentials/v1", "http://vercre.io/credentials/v1"], "id": "http://vercre.io/credentials/1",
        "type": ["VerifiableCredential", ty], "issuer": "http://vercre.io",
        "validFrom": date(clock::EPOCH - 1000), "credentialSubject": { "id": "did:example:alice", "employeeId": "1" }
    });
    if let Some(u) = until {
        v["validUntil"] = json!(date(u));
    }
    if noisy() {
        v["name"] = json!("A credential");
        v["description"] = json!("described");
        v["credentialSubject"]["expires"] = json!("1999-01-01");
        v["credentialStatus"] = json!({ "id": "http://vercre.io/status#1", "type": "BitstringStatusListEntry", "statusPurpose": "revocation",
            "statusListIndex": 1, "statusListCredential": "http://vercre.io/status" });
        v["termsOfUse"] = json!({ "id": "http://vercre.io/terms", "type": "Terms" });
        v["evidence"] = json!({ "type": ["Seen"] });
    }
    v
}
pub fn vc_claims(vc: Value) -> Value {
    json!({ "sub": "did:example:alice", "nbf": clock::EPOCH - 1000, "iss": "http://vercre.io", "iat": clock::EPOCH - 1000,
            "jti": "http://vercre.io/credentials/1", "vc": vc })
}
fn head(typ: &str, kid: &str) -> Value {
    json!({ "alg": "EdDSA", "typ": typ, "kid": kid })
}
pub fn vc_jwt(ty: &str) -> String {
    jwt(&head("jwt", "did:example:issuer#k0"), &vc_claims(vc_json(ty, None)), "pk-issuer-0")
}
/// Replace the claims of a signed token, keeping its signature.
fn graft(token: &str, claims: &Value) -> String {
    use base64ct::Encoding;
    let p: Vec<&str> = token.split('.').collect();
    format!("{}.{}.{}", p[0], base64ct::Base64UrlUnpadded::encode_string(claims.to_string().as_bytes()), p[2])
}

pub const VCS: [&str; 14] = [
    "good", "expires in an hour", "expired a second ago", "expired long ago", "wrong type", "signed by another key", "claims changed after signing",
    "signer unknown", "key unknown", "not signed", "unsigned object", "a presentation", "number", "without kid",
];
pub fn vc_value(kind: usize, ty: &str) -> (Value, bool) {
    let now = clock::EPOCH;
    let good = vc_jwt(ty);
    let sign = |kid: &str, claims: &Value, pk: &str| json!(jwt(&head("jwt", kid), claims, pk));
    let (i0, pk) = ("did:example:issuer#k0", "pk-issuer-0");
    match kind {
        0 => (json!(good), true),
        1 => (sign(i0, &vc_claims(vc_json(ty, Some(now + 3600))), pk), true),
        2 => (sign(i0, &vc_claims(vc_json(ty, Some(now - 1))), pk), false),
        3 => (sign(i0, &vc_claims(vc_json(ty, Some(now - 10_000_000))), pk), false),
        4 => (json!(vc_jwt("Unrelated")), false),
        5 => (sign(i0, &vc_claims(vc_json(ty, None)), "pk-mallory-0"), false),
        6 => (json!(graft(&vc_jwt("Unrelated"), &vc_claims(vc_json(ty, None)))), false),
        7 => (sign("did:example:nobody#k0", &vc_claims(vc_json(ty, None)), pk), false),
        8 => (sign("did:example:issuer#k9", &vc_claims(vc_json(ty, None)), pk), false),
        9 => (json!(good.rsplit_once('.').unwrap().0.to_string() + "."), false),
        10 => (vc_json(ty, None), false),
        11 => (json!(jwt(&head("vp+jwt", "did:example:alice#k0"), &json!({ "iss": "x", "jti": "x", "aud": "x", "nonce": "x", "nbf": 1, "iat": 1, "exp": now + 9, "vp": {} }), "pk-alice-0")), false),
        12 => (json!(7), false),
        13 => (json!(jwt(&json!({ "alg": "EdDSA", "typ": "jwt" }), &vc_claims(vc_json(ty, None)), pk)), false),
        _ => unreachable!(),
    }
}

const SIGN: [&str; 9] = [
    "alice", "another key of alice's", "alice's kid, signed by mallory", "unknown DID", "unknown key of alice", "not signed", "changed after signing",
    "jwk instead of kid", "two parts",
];
const STATES: [&str; 5] = ["right", "of another request", "unknown", "missing", "empty"];
const NONCES: [&str; 5] = ["right", "of another request", "wrong", "empty", "prefix of the right one"];
const AUDS: [&str; 5] = ["right", "of another verifier", "verifier id without endpoint", "empty", "wrong"];
const DEFS: [&str; 5] = ["right", "of another request", "wrong", "no submission", "empty"];
const MAPS: [&str; 8] =
    ["right", "empty", "other ids", "right entries after foreign ones", "first entry missing", "last entry missing", "a wrong entry before the right one", "reversed"];
const PATHS: [&str; 8] = ["right", "wildcard", "beyond the end", "not a path", "the whole", "the holder", "empty", "nothing there"];
const FORMATS: [&str; 3] = ["right", "other", "empty"];
const TOKENS: [&str; 8] = [
    "one", "missing", "empty list", "a good one before it", "a good one after it", "one with a wrong nonce after it", "one with a forged signature before it",
    "one for another verifier after it",
];

/// The dimensions of a response: everything 0 is a correct response.
pub struct Plan<'a> {
    pub d: &'a [usize],
    pub req: &'a Req,
    pub other: &'a Req,
}
pub fn dims(nd: usize) -> Vec<usize> {
    let mut v = vec![SIGN.len(), STATES.len(), NONCES.len(), AUDS.len(), DEFS.len(), MAPS.len(), PATHS.len(), FORMATS.len(), TOKENS.len()];
    v.extend(std::iter::repeat(VCS.len()).take(nd));
    v
}
pub fn vp_claims(req_nonce: &str, aud: &str, vcs: &[Value]) -> Value {
    json!({ "iss": "did:example:alice", "jti": "urn:uuid:1", "aud": aud, "nonce": req_nonce, "nbf": clock::EPOCH, "iat": clock::EPOCH,
            "exp": clock::EPOCH + 3600,
            "vp": { "@context": ["https://www.w3.org/2018/credentials/v1"], "id": "urn:uuid:1", "type": ["VerifiablePresentation", "P"],
                    "verifiableCredential": vcs, "holder": "did:example:alice" } })
}
pub fn vp_signed(kind: usize, claims: &Value) -> String {
    let h = head("vp+jwt", "did:example:alice#k0");
    match kind {
        0 => jwt(&h, claims, "pk-alice-0"),
        1 => jwt(&head("vp+jwt", "did:example:alice#k1"), claims, "pk-alice-1"),
        2 => jwt(&h, claims, "pk-mallory-0"),
        3 => jwt(&head("vp+jwt", "did:example:nobody#k0"), claims, "pk-alice-0"),
        4 => jwt(&head("vp+jwt", "did:example:alice#k9"), claims, "pk-alice-0"),
        5 => jwt(&h, claims, "pk-alice-0").rsplit_once('.').unwrap().0.to_string() + ".",
        6 => {
            let mut c = claims.clone();
            c["vp"]["verifiableCredential"] = json!([]);
            graft(&jwt(&h, &c, "pk-alice-0"), claims)
        }
        7 => jwt(&json!({ "alg": "EdDSA", "typ": "vp+jwt", "jwk": world::jwk("pk-alice-0") }), claims, "pk-alice-0"),
        8 => jwt(&h, claims, "pk-alice-0").rsplit_once('.').unwrap().0.to_string(),
        _ => unreachable!(),
    }
}
/// (body, acceptable, description)
pub fn body(p: &Plan) -> (Value, bool, Value) {
    let (d, req, other) = (p.d, p.req, p.other);
    let descs = req.descs.as_array().unwrap();
    let mut ok = d[0] <= 1 && d[1] == 0 && d[2] == 0 && d[3] == 0 && d[4] == 0;
    let mut vcs = vec![];
    for (i, ds) in descs.iter().enumerate() {
        let ty = ds["constraints"]["fields"][0]["filter"]["const"].as_str().unwrap_or("Any");
        let (v, good) = vc_value(d[9 + i], ty);
        vcs.push(v);
        ok &= good;
    }
    let nonce = match d[2] {
        0 => req.nonce.clone(),
        1 => other.nonce.clone(),
        2 => "wrong".into(),
        3 => String::new(),
        _ => req.nonce[..req.nonce.len() - 1].into(),
    };
    let aud = match d[3] {
        0 => req.client.clone(),
        1 => other.client.clone(),
        2 => VERIFIER_ID.into(),
        3 => String::new(),
        _ => "http://wrong.example/post".into(),
    };
    let claims = vp_claims(&nonce, &aud, &vcs);
    let vp = json!(vp_signed(d[0], &claims));
    let good = json!(vp_signed(0, &vp_claims(&req.nonce, &req.client, &[])));
    let (tokens, at): (Option<Vec<Value>>, Option<usize>) = match d[8] {
        0 => (Some(vec![vp]), None),
        1 => (None, None),
        2 => (Some(vec![]), None),
        3 => (Some(vec![good, vp]), Some(1)),
        4 => (Some(vec![vp, good]), Some(0)),
        5 => (Some(vec![vp, json!(vp_signed(0, &vp_claims("wrong", &req.client, &[])))]), Some(0)),
        6 => (Some(vec![json!(vp_signed(2, &vp_claims(&req.nonce, &req.client, &[]))), vp]), Some(1)),
        _ => (Some(vec![vp, json!(vp_signed(0, &vp_claims(&req.nonce, "http://wrong.example", &[])))]), Some(0)),
    };
    ok &= matches!(d[8], 0 | 3 | 4);
    let root = at.map_or("$".to_string(), |i| format!("$[{i}]"));
    let path = |i: usize| match d[6] {
        0 => format!("{root}.verifiableCredential[{i}]"),
        1 => format!("{root}.verifiableCredential[*]"),
        2 => format!("{root}.verifiableCredential[{}]", i + 7),
        3 => "$[".into(),
        4 => root.clone(),
        5 => format!("{root}.holder"),
        6 => String::new(),
        _ => format!("{root}.nothing[0]"),
    };
    ok &= d[6] == 0 || (d[6] == 1 && descs.len() == 1);
    let fmt = ["jwt_vc_json", "ldp_vc", ""][d[7]];
    ok &= descs.iter().all(|ds| ds["format"].as_object().map_or(true, |f| f.contains_key(fmt)));
    let entry = |id: &str, path: String| json!({ "id": id, "format": fmt, "path": "$", "path_nested": { "format": fmt, "path": path } });
    let mut map: Vec<Value> = descs.iter().enumerate().map(|(i, ds)| entry(ds["id"].as_str().unwrap(), path(i))).collect();
    match d[5] {
        1 => map.clear(),
        2 => map.iter_mut().for_each(|m| m["id"] = json!("foreign")),
        3 => map.insert(0, entry("foreign", "$.verifiableCredential[7]".into())),
        4 => drop(map.remove(0)),
        5 => drop(map.pop()),
        // which of two entries for one descriptor counts is not specified,
        // so this one names a path that is as bad as none for another id
        6 => map.insert(0, entry("emp ", path(0))),
        7 => map.reverse(),
        _ => {}
    }
    ok &= matches!(d[5], 0 | 3 | 6 | 7);
    let def = match d[4] {
        0 | 3 => req.def.clone(),
        1 => other.def.clone(),
        2 => "wrong".into(),
        _ => String::new(),
    };
    let state = match d[1] {
        0 => Some(req.state.clone()),
        1 => Some(other.state.clone()),
        2 => Some("unknown".into()),
        3 => None,
        _ => Some(String::new()),
    };
    let mut b = json!({});
    if let Some(t) = tokens {
        b["vp_token"] = json!(t);
    }
    if d[4] != 3 {
        b["presentation_submission"] = json!({ "id": "sub-1", "definition_id": def, "descriptor_map": map });
    }
    if let Some(s) = state {
        b["state"] = json!(s);
    }
    let about = json!({ "signature": SIGN[d[0]], "state": STATES[d[1]], "nonce": NONCES[d[2]], "aud": AUDS[d[3]], "submission": DEFS[d[4]],
        "map": MAPS[d[5]], "path": PATHS[d[6]], "format": FORMATS[d[7]], "vp_token": TOKENS[d[8]],
        "credentials": d[9..].iter().map(|k| VCS[*k]).collect::<Vec<_>>() });
    (b, ok, about)
}
/// A response must be refused or accepted; every refusal is an OAuth error.
pub fn judge(c: &mut Check, key: &str, out: &Result<Out, String>, want: bool, ctx: &Value) -> bool {
    match out {
        Err(p) => {
            c.outcome("panic");
            c.violation(key, json!({ "panic": p, "ctx": ctx }));
            false
        }
        Ok(o) => {
            c.outcome(&o.code());
            if o.is_ok() != want {
                c.violation(key, json!({ "accepted": o.is_ok(), "expected": want, "got": o.json(), "ctx": ctx }));
                return false;
            }
            if let Out::Err(e) = o {
                if !matches!(e["error"].as_str(), Some("invalid_request" | "server_error" | "access_denied" | "invalid_client")) {
                    c.violation(key, json!({ "unintelligible error": o.json(), "ctx": ctx }));
                }
            }
            true
        }
    }
}

pub fn c40(c: &mut Check) {
    c.rule("every authorization response that departs from a correct one in up to the bounded number of aspects (signature, state, nonce, audience, submission, mapping, path, format, presentations, each credential), for each kind of request; a refused response must leave the request answerable by the correct one, an accepted one must use it up; and every text of the response, its presentations and their credentials replaced by each text easily taken for it");
    c.assume("signatures are ideal; DID resolution and state store are the checker's");
    let mut kinds: Vec<(&str, bool, Value)> = vec![
        ("one descriptor", true, json!([descriptor("emp", "EmployeeID")])),
        ("one descriptor, same device", false, json!([descriptor("emp", "EmployeeID")])),
        ("two descriptors", true, json!([descriptor("emp", "EmployeeID"), descriptor("dev", "Developer")])),
    ];
    let mut f = descriptor("emp", "EmployeeID");
    f["format"] = json!({ "jwt_vc_json": { "alg": ["EdDSA"] } });
    kinds.push(("format given", true, json!([f.clone()])));
    f["format"] = json!({ "ldp_vc": { "proof_type": ["x"] }, "jwt_vc": { "alg": ["EdDSA"] } });
    kinds.push(("other formats given", true, json!([f])));
    kinds.push(("two descriptors for one type", false, json!([descriptor("emp", "EmployeeID"), descriptor("emp2", "EmployeeID")])));
    let dev = c.pick(2, 3);
    c.bound("deviations", dev);
    c.bound("kinds of request", kinds.len());
    for (name, cross, descs) in kinds {
        load(&fresh());
        let req = make("req", VERIFIER_ID, cross, descs.clone());
        let other = make("other", OTHER_VERIFIER, cross, json!([descriptor("x", "Other")]));
        let base = save();
        let n = descs.as_array().unwrap().len();
        let zero = vec![0; dims(n).len()];
        let (good, good_ok, _) = body(&Plan { d: &zero, req: &req, other: &other });
        let mut good2 = good.clone();
        // for requests in another format the correct response says so
        if name == "other formats given" {
            good2["presentation_submission"]["descriptor_map"][0]["path_nested"]["format"] = json!("ldp_vc");
        } else {
            assert!(good_ok);
        }
        for d in gen::deviations(&dims(n), dev) {
            let key = format!("{name}/{d:?}");
            if !c.case(&key) {
                continue;
            }
            let (b, want, about) = body(&Plan { d: &d, req: &req, other: &other });
            c.distinct(&(name, b.to_string()));
            load(&base);
            let out = go("response", "response", b.clone());
            judge(c, &key, &out, want, &about);
            if out.as_ref().is_ok_and(Out::is_ok) {
                let again = go("again", "response", b);
                judge(c, &key, &again, false, &json!({ "response repeated": about }));
            } else {
                let later = go("later", "response", good2.clone());
                judge(c, &key, &later, true, &json!({ "correct response after": about }));
            }
            c.sample(json!({ "response": about, "accepted": want }));
        }
    }
    // an unsigned presentation, a presentation by someone else, a credential
    // by someone other than its issuer
    load(&fresh());
    let req = make("req", VERIFIER_ID, true, json!([descriptor("emp", "EmployeeID")]));
    let base = save();
    let sub = json!({ "id": "s", "definition_id": req.def, "descriptor_map": [{ "id": "emp", "format": "jwt_vc_json", "path": "$",
        "path_nested": { "format": "jwt_vc_json", "path": "$.verifiableCredential[0]" } }] });
    let mut extra = vec![];
    let vp = vp_claims("", "", &[json!(vc_jwt("EmployeeID"))])["vp"].clone();
    for (name, proof, refuse) in [
        ("object presentation without proof", Value::Null, true),
        ("object presentation, proof without challenge", json!({ "type": "JsonWebSignature2020", "proofValue": "x" }), true),
        ("object presentation, wrong challenge", json!({ "type": "JsonWebSignature2020", "challenge": "wrong" }), true),
        ("object presentation, two proofs, the first with the challenge", json!([{ "type": "JsonWebSignature2020", "challenge": req.nonce }, { "type": "JsonWebSignature2020" }]), true),
        ("object presentation, two proofs, the last with the challenge", json!([{ "type": "JsonWebSignature2020" }, { "type": "JsonWebSignature2020", "challenge": req.nonce }]), true),
        ("object presentation, no proof in a list", json!([]), true),
        ("object presentation with an unverifiable proof", json!({ "type": "JsonWebSignature2020", "challenge": req.nonce }), true),
    ] {
        let mut v = vp.clone();
        if !proof.is_null() {
            v["proof"] = proof;
        }
        extra.push((name, v, !refuse));
    }
    let by = |who: &str, claims: &Value| json!(jwt(&head("vp+jwt", &format!("did:example:{who}#k0")), claims, &format!("pk-{who}-0")));
    extra.push(("presentation by someone who is not the subject of the credential", by("mallory", &vp_claims(&req.nonce, &req.client, &[json!(vc_jwt("EmployeeID"))])), false));
    let forged = jwt(&head("jwt", "did:example:mallory#k0"), &vc_claims(vc_json("EmployeeID", None)), "pk-mallory-0");
    extra.push(("credential signed by someone who is not its issuer", by("alice", &vp_claims(&req.nonce, &req.client, &[json!(forged)])), false));
    for (name, vp, want) in extra {
        if c.case(name) {
            load(&base);
            let out = go("extra", "response", json!({ "vp_token": [vp], "presentation_submission": sub, "state": req.state }));
            judge(c, name, &out, want, &json!({ "case": name }));
        }
    }
    // constraints that cannot be evaluated are met by nothing
    let bad = [
        ("path", json!({ "path": ["$["] })),
        ("path, optional", json!({ "path": ["$["], "optional": true })),
        ("second path", json!({ "path": ["$.nothing", "$.type["] })),
        ("empty path", json!({ "path": [""] })),
        ("pattern", json!({ "path": ["$.issuer"], "filter": { "type": "string", "pattern": "(" } })),
        ("pattern, optional", json!({ "path": ["$.issuer"], "optional": true, "filter": { "type": "string", "pattern": "[" } })),
    ];
    for (name, f) in bad {
        for first in [false, true] {
            for n in 1..=2 {
                let key = format!("unusable constraints/{name}/{first}/{n}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let mut ds: Vec<Value> = (0..n).map(|i| descriptor(&format!("d{i}"), "EmployeeID")).collect();
                let fs = ds[n - 1]["constraints"]["fields"].as_array_mut().unwrap();
                fs.insert(if first { 0 } else { fs.len() }, f.clone());
                load(&fresh());
                let b = json!({ "client_id": VERIFIER_ID, "purpose": "p", "input_descriptors": ds, "device_flow": "SameDevice", "client_id_scheme": "redirect_uri" });
                let r = match go("unusable", "create_request", b) {
                    Ok(Out::Ok(r)) => r["request_object"].clone(),
                    Ok(_) => continue,
                    Err(p) => {
                        c.violation(&key, json!({ "panic": p }));
                        continue;
                    }
                };
                let s = |v: &Value| v.as_str().unwrap_or_default().to_string();
                // the answer that is right but for what cannot be evaluated
                let ask: Value = (0..n).map(|i| descriptor(&format!("d{i}"), "EmployeeID")).collect();
                let req = Req { state: s(&r["state"]), nonce: s(&r["nonce"]), client: s(&r["client_id"]), def: s(&r["presentation_definition"]["id"]), descs: ask };
                judge(c, &key, &go("unusable", "response", answer(&req)), false, &json!({ "field": f, "before the others": first, "descriptors": n }));
            }
        }
    }
    crate::near::response(c);
    crate::wide::response(c);
    crate::members::response(c);
    crate::members::repeated(c);
}

/// A step of a C41 history.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Good(usize),
    Bad(usize),
    Cross(usize),
    Fetch(usize),
    Wait(i64),
}
pub fn answer(req: &Req) -> Value {
    let n = req.descs.as_array().unwrap().len();
    body(&Plan { d: &vec![0; dims(n).len()], req, other: req }).0
}
pub fn c41(c: &mut Check) {
    c.rule("every history of good, bad and misdirected responses, request-object fetches and waits over several outstanding requests, up to the depth, against a model of which requests are open; many outstanding requests; every kind of refusal, after which the request is still answerable; every schedule of two simultaneous responses; a fault at every provider call");
    c.assume("signatures are ideal; provider calls are atomic; the second at which a request expires is left open");
    for expunge in [false, true] {
        load(&fresh());
        with(|w| w.expunge = expunge);
        let one = json!([descriptor("emp", "EmployeeID")]);
        let reqs = [
            make("r0", VERIFIER_ID, true, one.clone()),
            make("r1", VERIFIER_ID, true, one.clone()),
            make("r2", VERIFIER_ID, false, one.clone()),
        ];
        let base = save();
        let mut ops = vec![Op::Wait(1), Op::Wait(20), Op::Wait(120), Op::Wait(297)];
        for i in 0..reqs.len() {
            ops.extend([Op::Good(i), Op::Bad(i), Op::Cross(i)]);
            if i < 2 {
                ops.push(Op::Fetch(i));
            }
        }
        let horizon = c.pick(900, 3600);
        c.bound("seconds after creation", horizon);
        c.bound("history length", "unbounded: the state space is explored to closure");
        c.bound("operations", ops.len());
        let mut stack: Vec<(World, [bool; 3], Vec<Op>)> = vec![(base.clone(), [true; 3], vec![])];
        // states are told apart by the clock, the model and the whole store
        let dump = |w: &World| format!("{:?}", w.store);
        c.state(&(expunge, clock::now(), [true; 3], dump(&base)));
        while let Some((w, open, hist)) = stack.pop() {
            for op in &ops {
                load(&w);
                let mut h = hist.clone();
                h.push(*op);
                let mut open2 = open;
                let age = clock::now() - clock::EPOCH;
                if let Op::Wait(s) = op {
                    if age + s == 300 || age + s > horizon {
                        continue;
                    }
                    clock::advance(*s);
                    let w2 = save();
                    c.transition();
                    if c.state(&(expunge, clock::now(), open, dump(&w2))) {
                        stack.push((w2, open, h));
                    }
                    continue;
                }
                let live = age < 300;
                let key = format!("history/{expunge}/{h:?}");
                let (out, want) = match *op {
                    Op::Good(i) => {
                        let want = live && open[i];
                        if want {
                            open2[i] = false;
                        }
                        (go("good", "response", answer(&reqs[i])), want)
                    }
                    Op::Bad(i) => {
                        let mut a = answer(&reqs[i]);
                        a["presentation_submission"]["descriptor_map"][0]["path_nested"]["path"] = json!("$.nothing");
                        (go("bad", "response", a), false)
                    }
                    // the answer to one request, sent as the answer to another
                    Op::Cross(i) => {
                        let mut a = answer(&reqs[i]);
                        a["state"] = json!(reqs[(i + 1) % 3].state);
                        (go("cross", "response", a), false)
                    }
                    Op::Fetch(i) => {
                        (go("fetch", "request_object", json!({ "client_id": VERIFIER_ID, "id": reqs[i].state })), live && open[i])
                    }
                    Op::Wait(_) => unreachable!(),
                };
                c.transition();
                if c.case(&key) {
                    c.validated();
                    judge(c, &key, &out, want, &json!({ "history": format!("{h:?}"), "age": age }));
                    c.sample(json!({ "history": format!("{h:?}"), "accepted": want }));
                }
                let w2 = save();
                if c.state(&(expunge, clock::now(), open2, dump(&w2))) {
                    stack.push((w2, open2, h));
                }
            }
        }
        // every second around the end of a request's life
        for age in (280..=330).chain([600, 3600, 86400]) {
            if age == 300 {
                continue;
            }
            for ep in ["response", "request_object"] {
                let key = format!("age/{expunge}/{ep}/{age}");
                if c.case(&key) {
                    load(&base);
                    clock::set(clock::EPOCH + age);
                    let b = if ep == "response" { answer(&reqs[0]) } else { json!({ "client_id": VERIFIER_ID, "id": reqs[0].state }) };
                    let out = go("age", ep, b);
                    c.transition();
                    judge(c, &key, &out, age < 300, &json!({ "age": age, "endpoint": ep }));
                }
            }
        }
    }
    // two responses at once
    load(&fresh());
    let one = json!([descriptor("emp", "EmployeeID")]);
    let r = [make("r0", VERIFIER_ID, true, one.clone()), make("r1", VERIFIER_ID, true, one)];
    let base = save();
    let bad = {
        let mut a = answer(&r[0]);
        a["presentation_submission"]["definition_id"] = json!("wrong");
        a
    };
    let mut schedules = 0;
    for (name, a, b, max) in [
        ("same request", answer(&r[0]), answer(&r[0]), 1),
        ("two requests", answer(&r[0]), answer(&r[1]), 2),
        ("good and bad response", answer(&r[0]), bad, 1),
    ] {
        let mut found = vec![];
        let pre = c.pick(5, 12);
        c.bound("context switches", pre);
        schedules += exec::explore(pre, &mut |prefix| {
            load(&base);
            with(|w| w.log = Some(vec![]));
            let tasks: Vec<Option<exec::Task<Out>>> = vec![
                Some(Box::pin(seeded("a", serve("response", a.clone())))),
                Some(Box::pin(seeded("b", serve("response", b.clone())))),
            ];
            let run = exec::run_schedule(tasks, prefix);
            let wins = run.results.iter().filter(|o| o.is_ok()).count();
            let log = save().log.unwrap_or_default();
            let key = format!("v:{}", r[0].state);
            let purge = log.iter().position(|l| *l == format!("purge {key}"));
            let reads = log.iter().take(purge.unwrap_or(0)).filter(|l| **l == format!("get {key}")).count();
            let k = if wins > max && reads >= 2 { format!("race/{name}/both-read-before-removal") } else { format!("race/{name}") };
            if wins != max {
                found.push((k, json!({ "accepted": wins, "expected": max, "schedule": run.schedule, "calls": log })));
            }
            run.choices
        });
        let k = format!("race/{name}");
        if c.case(&k) {
            c.transition();
            c.state(&k);
        }
        for (k, d) in found {
            c.violation(&k, d);
        }
    }
    c.bound("schedules of two simultaneous responses", schedules);
    // a fault at every provider call of every endpoint
    let create = json!({ "client_id": VERIFIER_ID, "purpose": "p", "input_descriptors": r[0].descs, "device_flow": "CrossDevice", "client_id_scheme": "redirect_uri" });
    for (ep, b) in [
        ("create_request", create),
        ("request_object", json!({ "client_id": VERIFIER_ID, "id": r[0].state })),
        ("response", answer(&r[0])),
        ("metadata", json!({ "client_id": VERIFIER_ID })),
    ] {
        for n in 0.. {
            let key = format!("fault/{ep}/{n}");
            load(&base);
            with(|w| {
                w.calls = 0;
                w.fail_at = Some(n);
            });
            let out = go("fault", ep, b.clone());
            let (calls, purged) = with(|w| {
                w.fail_at = None;
                (w.calls, !w.store.contains_key(&format!("v:{}", r[0].state)))
            });
            if calls <= n {
                break;
            }
            if c.case(&key) {
                c.transition();
                c.state(&key);
                judge(c, &key, &out, false, &json!({ "fault at call": n, "of": ep }));
                let l0 = go("later0", "response", answer(&r[0]));
                judge(c, &key, &l0, !purged, &json!({ "correct response after fault": n, "of": ep }));
                let l1 = go("later1", "response", answer(&r[1]));
                judge(c, &key, &l1, true, &json!({ "answer to another request after fault": n, "of": ep }));
            }
        }
    }
    crate::wide::requests(c);
    crate::wide::refusals(c);
    crate::wide::late(c);
}
