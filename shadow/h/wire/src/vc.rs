//! C17: proofs of credentials and presentations; C18: their data model.
use mc::{clock, exec, gen, Check};
use serde::de::DeserializeOwned;
use serde_json::{json, Map, Value};
use vercre_core::{Kind, Quota};
use vercre_dif_exch::Claims as _;
use vercre_w3c_vc::model::types::{Direction, LangString, LangValue};
use vercre_w3c_vc::model::{CredentialStatus, CredentialSubject, VerifiableCredential, VerifiablePresentation};
use vercre_w3c_vc::proof::integrity::Proof;
use vercre_w3c_vc::proof::{self, Payload, Verify, W3cFormat};
use world::{Key, Resolver};

use crate::msgs::{self, same, ty, Ty};

const NOW: i64 = 1_800_000_000;
const CTX: &str = "https://www.w3.org/2018/credentials/v1";
fn read<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).expect("model")
}
fn fresh() {
    world::with(|w| *w = world::World { dids: world::dids().into(), ..world::World::default() });
    clock::set(NOW);
}
fn proofs() -> Vec<Value> {
    vec![
        json!({ "type": "DataIntegrityProof", "proofPurpose": "assertionMethod", "verificationMethod": "did:example:issuer#k0", "proofValue": "z1" }),
        json!({ "id": "urn:p", "type": "DataIntegrityProof", "cryptosuite": "eddsa-2022", "proofPurpose": "authentication", "verificationMethod": "did:example:alice#k0",
                "created": "2024-01-01T00:00:00Z", "expires": "2030-01-01T00:00:00Z", "domain": ["a.b", "c"], "challenge": "n", "proofValue": "z2", "previousProof": "urn:q", "nonce": "x" }),
    ]
}
fn langs() -> Vec<Value> {
    vec![
        json!("name"),
        json!(""),
        json!({ "@value": "name" }),
        json!({ "@value": "Name", "@language": "de", "@direction": "ltr" }),
        json!([{ "@value": "name", "@language": "en" }, { "@value": "اسم", "@language": "ar", "@direction": "rtl" }]),
        json!([]),
    ]
}
fn statuses() -> Vec<Value> {
    let one = json!({ "id": "http://s/1#5", "type": "BitstringStatusListEntry", "statusPurpose": "revocation", "statusListIndex": 5, "statusListCredential": "http://s/1" });
    vec![
        one.clone(),
        json!({ "type": "BitstringStatusListEntry", "statusPurpose": "message", "statusListIndex": 0, "statusListCredential": "http://s/2", "statusSize": 2,
                "statusMessage": [{ "status": "0x0", "message": "ok" }, { "status": "0x1", "message": "late" }], "statusReference": "http://s/ref" }),
        json!([one, { "type": "BitstringStatusListEntry", "statusPurpose": "suspension", "statusListIndex": 131_071, "statusListCredential": "http://s/3" }]),
    ]
}
fn subjects() -> Vec<Value> {
    vec![
        json!({ "id": "did:example:alice", "given_name": "A", "nested": { "a": [1, { "b": null }], "é\"": true } }),
        json!({ "employeeID": "1" }),
        json!([{ "id": "did:example:alice", "x": 1 }, { "id": "did:example:bob", "x": 2 }]),
        json!([{ "x": 1 }, { "id": "did:example:bob", "x": 2 }, { "id": "did:example:carol" }]),
        json!((0..9).map(|i| json!({ "id": format!("did:example:{i}"), "x": i })).collect::<Vec<_>>()),
    ]
}
fn base() -> Value {
    json!({ "@context": [CTX, "https://www.w3.org/2018/credentials/examples/v1"], "type": ["VerifiableCredential", "E"], "issuer": "did:example:issuer", "credentialSubject": subjects()[0] })
}
fn credential_members() -> Vec<(&'static str, Vec<Value>)> {
    let p = proofs();
    vec![
        ("@context", vec![json!([CTX, { "a": "http://b", "c": { "@id": "d" } }]), json!([])]),
        ("id", vec![json!("http://c/1"), json!("urn:é")]),
        ("type", vec![json!("VerifiableCredential"), json!(["A", "B", "C"])]),
        ("issuer", vec![json!("http://i"), json!({ "id": "http://i" }), json!({ "id": "http://i", "name": "I", "x": { "y": [1] } })]),
        ("credentialSubject", subjects()),
        ("name", langs()),
        ("description", langs()),
        ("validFrom", vec![json!("2024-01-01T00:00:00Z"), json!("1969-12-31T23:59:59Z")]),
        ("validUntil", vec![json!("2030-06-30T19:23:24Z"), json!("2020-01-01T00:00:00.123Z"), json!("1969-12-31T23:59:59Z"), json!("1970-01-01T00:00:00Z"), json!("9999-12-31T23:59:59Z"), json!("0001-01-01T00:00:00Z")]),
        ("credentialStatus", statuses()),
        ("credentialSchema", vec![json!({ "id": "http://s", "type": "JsonSchema" }), json!([{ "id": "http://s", "type": "A" }, { "id": "http://t", "type": "B" }])]),
        ("proof", vec![p[0].clone(), p[1].clone(), json!(p)]),
        ("relatedResource", vec![json!({ "id": "http://r" }), json!([{ "id": "http://r", "mediaType": "image/png", "digestSRI": "sha384-x", "digestMultibase": ["u1", "u2"] }, { "id": "q" }])]),
        ("refreshService", vec![json!({ "url": "http://r", "type": "R", "refreshToken": "t" })]),
        ("termsOfUse", vec![json!({ "type": "T", "id": "http://t", "prohibition": [{ "a": 1 }] }), json!([{ "type": "T" }, { "type": "U", "x": 1 }])]),
        ("evidence", vec![json!({ "type": ["E"], "name": "n", "description": "d" }), json!([{ "id": "http://e", "type": ["E", "F"], "digestSRI": ["a"], "digestMultibase": "u1", "verifier": "v" }, { "type": [] }])]),
    ]
}
fn types() -> Vec<Ty> {
    let mut v = vec![
        Ty { closed: true, ..ty::<VerifiableCredential>("VerifiableCredential", base(), credential_members()) },
        Ty { closed: true, ..ty::<VerifiablePresentation>(
            "VerifiablePresentation",
            json!({ "@context": [CTX], "type": "VerifiablePresentation" }),
            vec![
                ("id", vec![json!("urn:uuid:1")]),
                ("type", vec![json!(["VerifiablePresentation", "X"])]),
                ("verifiableCredential", vec![json!([]), json!(["a.b.c"]), json!([base()]), json!(["a.b.c", base(), "d.e.f"])]),
                ("holder", vec![json!("did:example:alice")]),
                ("proof", vec![proofs()[0].clone(), json!(proofs())]),
            ],
        ) },
        Ty { closed: true, ..ty::<CredentialSubject>("CredentialSubject", json!({}), vec![("id", vec![json!("did:example:a")]), ("a", vec![json!(1), json!({ "b": [null] }), json!("x")]), ("type", vec![json!("T")])]) },
        ty::<Proof>(
            "Proof",
            proofs()[0].clone(),
            vec![
                ("id", vec![json!("urn:p")]),
                ("cryptosuite", vec![json!("eddsa-2022")]),
                ("created", vec![json!("2024-01-01T00:00:00Z")]),
                ("expires", vec![json!("2024-01-01T00:00:00.500Z")]),
                ("domain", vec![json!("d"), json!(["d", "e"]), json!([])]),
                ("challenge", vec![json!("c")]),
                ("previousProof", vec![json!("p"), json!(["p"])]),
                ("nonce", vec![json!("n")]),
            ],
        ),
    ];
    for (i, s) in statuses().into_iter().take(2).enumerate() {
        let n = ["CredentialStatus revocation", "CredentialStatus message"][i];
        v.push(Ty { closed: true, ..ty::<CredentialStatus>(n, s, vec![]) });
    }
    v
}

// ---- C17 --------------------------------------------------------------

fn sign(format: W3cFormat, p: Payload, key: &Key) -> Result<Result<String, String>, String> {
    let key = key.clone();
    mc::guard(|| exec::run(proof::create(format, p, key)).map_err(|e| e.to_string()))
}
#[derive(Debug, PartialEq)]
enum Is {
    Vc(Value, i64),
    Vp(Value, String, String),
}
fn check(kind: &str, token: &str) -> Result<Result<Is, String>, String> {
    mc::guard(|| {
        let p = if kind == "vc" {
            let k: Kind<VerifiableCredential> = Kind::String(token.into());
            exec::run(proof::verify(Verify::Vc(&k), &Resolver))
        } else {
            let k: Kind<VerifiablePresentation> = Kind::String(token.into());
            exec::run(proof::verify(Verify::Vp(&k), &Resolver))
        };
        match p.map_err(|e| e.to_string())? {
            Payload::Vc { vc, issued_at } => Ok(Is::Vc(serde_json::to_value(vc).unwrap(), issued_at)),
            Payload::Vp { vp, client_id, nonce } => Ok(Is::Vp(serde_json::to_value(vp).unwrap(), client_id, nonce)),
        }
    })
}
/// Everything that can be done to a token without the key.
fn forgeries(token: &str, pk: &str) -> Vec<(String, String)> {
    let (h, p) = world::open_jwt(token, pk).expect("a token of the signer");
    let parts: Vec<&str> = token.split('.').collect();
    let seg = |v: &Value| parts_of(&world::jwt(v, &json!({}), "x"))[0].clone();
    let body = |v: &Value| parts_of(&world::jwt(&json!({}), v, "x"))[1].clone();
    let mut out = vec![];
    let mut add = |n: String, t: String| out.push((n, t));
    // other claims under the old signature
    let mut at = vec![];
    leaves(&p, "", &mut at);
    for a in at {
        let mut q = p.clone();
        let x = q.pointer_mut(&a).unwrap();
        *x = match x {
            Value::String(s) => json!(format!("{s}x")),
            Value::Number(n) => json!(n.as_i64().unwrap_or(0).wrapping_add(1)),
            _ => json!("x"),
        };
        add(format!("claim {a}"), format!("{}.{}.{}", parts[0], body(&q), parts[2]));
    }
    // signed by someone else
    for who in ["mallory-0", "alice-1", "issuer-1", "bob-0"] {
        if format!("pk-{who}") != pk {
            add(format!("signed by {who}"), world::jwt(&h, &p, &format!("pk-{who}")));
        }
    }
    // the key of someone else, unknown keys, no key
    for kid in ["did:example:mallory#k0", "did:example:issuer#k1", "did:example:alice#k1", "did:example:nobody#k0", "did:example:issuer#k9", "did:example:issuer", "#k0", "", "k0"] {
        if h["kid"] != kid {
            let mut g = h.clone();
            g["kid"] = json!(kid);
            add(format!("kid {kid:?}"), format!("{}.{}.{}", seg(&g), parts[1], parts[2]));
            add(format!("kid {kid:?}, signed by the signer"), world::jwt(&g, &p, pk));
        }
    }
    let mut g = h.clone();
    g.as_object_mut().unwrap().remove("kid");
    add("no kid".into(), world::jwt(&g, &p, pk));
    g["jwk"] = serde_json::to_value(world::jwk(pk)).unwrap();
    add("own jwk".into(), world::jwt(&g, &p, pk));
    let mut g = h.clone();
    g["alg"] = json!("none");
    add("alg none".into(), format!("{}.{}.", seg(&g), parts[1]));
    // mutilated
    add("no signature".into(), format!("{}.{}.", parts[0], parts[1]));
    add("two parts".into(), format!("{}.{}", parts[0], parts[1]));
    add("four parts".into(), format!("{token}.x"));
    add("empty".into(), String::new());
    add("dots".into(), "..".into());
    add("not base64".into(), format!("{}.{}.!!", parts[0], parts[1]));
    for i in 0..token.len() {
        let mut b = token.as_bytes().to_vec();
        b[i] = if b[i] == b'A' { b'B' } else { b'A' };
        add(format!("byte {i}"), String::from_utf8(b).unwrap());
    }
    out
}
fn parts_of(t: &str) -> Vec<String> {
    t.split('.').map(String::from).collect()
}
fn leaves(v: &Value, at: &str, out: &mut Vec<String>) {
    match v {
        Value::Object(o) if !o.is_empty() => o.iter().for_each(|(k, x)| leaves(x, &format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out)),
        Value::Array(a) if !a.is_empty() => a.iter().enumerate().for_each(|(i, x)| leaves(x, &format!("{at}/{i}"), out)),
        _ => out.push(at.into()),
    }
}
fn credentials(c: &Check) -> Vec<Value> {
    let m = credential_members();
    let dims: Vec<usize> = m.iter().map(|o| o.1.len() + 1).collect();
    gen::deviations(&dims, c.pick(2, 3))
        .iter()
        .map(|w| {
            let mut d = base();
            for (i, k) in w.iter().enumerate() {
                if *k > 0 {
                    d[m[i].0] = m[i].1[*k - 1].clone();
                }
            }
            d
        })
        .collect()
}

pub fn c17() -> ! {
    let mut c = Check::new("C17", "exploration");
    c.rule("every credential within the distance of the basic one (any member absent or any of its variants) and every presentation of the alphabet x signers x times, created and verified through the real code; every forgery of the tokens (each claim changed, each byte changed, each other key, unknown keys, none) is refused; many subjects, credentials and long texts");
    c.assume("signatures are ideal");
    fresh();
    let signers = [world::key("did:example:issuer#k0", "pk-issuer-0"), world::key("did:example:issuer#k1", "pk-issuer-1"), world::key("did:example:alice#k0", "pk-alice-0")];
    let docs = credentials(&c);
    c.bound("credentials", docs.len());
    for (i, d) in docs.iter().enumerate() {
        let key = format!("credential {i}");
        if !c.case(&key) {
            continue;
        }
        c.distinct(&key);
        c.outcome("credential");
        let s = &signers[i % 3];
        let iat = [NOW, 0, -1, i64::MAX, 1][i % 5];
        let vc: VerifiableCredential = read(d);
        let wire = serde_json::to_value(&vc).unwrap();
        c.expect(same(&wire, d), &key, || json!({ "model": wire }));
        let tok = sign(if i % 2 == 0 { W3cFormat::JwtVcJson } else { W3cFormat::JwtVcJsonLd }, Payload::Vc { vc, issued_at: iat }, s);
        let Ok(Ok(tok)) = &tok else {
            c.violation(&key, json!({ "not signed": tok, "credential": d }));
            continue;
        };
        let Some((h, p)) = world::open_jwt(tok, &s.pk) else {
            c.violation(&key, json!("not signed by the signer"));
            continue;
        };
        // the registered claims say what the credential says
        let sub = match &d["credentialSubject"] {
            Value::Array(a) => a.first().and_then(|s| s.get("id")).cloned(),
            o => o.get("id").cloned(),
        };
        let iss = d["issuer"].as_str().map_or_else(|| d["issuer"]["id"].clone(), |s| json!(s));
        let exp = d.get("validUntil").map(|u| chrono::DateTime::parse_from_rfc3339(u.as_str().unwrap()).unwrap().timestamp());
        let want = json!({ "sub": sub.unwrap_or(json!("")), "iss": iss, "iat": iat, "jti": d.get("id").cloned().unwrap_or(json!("")), "exp": exp, "vc": d });
        c.expect(same(&p, &want), &key, || json!({ "claims": p, "want": want }));
        c.expect(h["kid"] == s.vm && h["typ"] == "jwt", &key, || json!({ "header": h }));
        let back = check("vc", tok);
        c.expect(matches!(&back, Ok(Ok(Is::Vc(v, t))) if same(v, d) && *t == iat), &key, || json!({ "verified": format!("{back:?}") }));
        // a credential is not a presentation
        let back = check("vp", tok);
        c.expect(matches!(back, Ok(Err(_))), &key, || json!({ "taken for a presentation": format!("{back:?}") }));
        if i % c.pick(40, 8) == 0 {
            for (what, t) in forgeries(tok, &s.pk) {
                let key = format!("{key}, {what}");
                if !c.case(&key) {
                    continue;
                }
                c.outcome("forgery refused");
                // different base64 of the same bytes is the same token
                if t == *tok {
                    continue;
                }
                let back = check("vc", &t);
                c.expect(matches!(back, Ok(Err(_))), &key, || json!({ "verified": format!("{back:?}"), "token": t }));
            }
        }
    }
    presentations(&mut c, &signers);
    // signed, but there is no credential or presentation in it
    for (kind, d) in [("vc", base()), ("vp", json!({ "@context": [CTX], "type": ["VerifiablePresentation", "P"], "holder": "did:example:alice" }))] {
        let all = json!({ "sub": "did:example:alice", "iss": "did:example:issuer", "iat": NOW, "nbf": NOW, "exp": NOW + 60, "jti": "urn:1", "aud": "v", "nonce": "n", kind: d });
        let h = json!({ "alg": "EdDSA", "typ": if kind == "vc" { "jwt" } else { "vp+jwt" }, "kid": signers[0].vm });
        for (i, v) in [Some(d.clone()), None, Some(Value::Null), Some(json!("")), Some(json!(7)), Some(json!(true)), Some(json!(d.to_string()))].into_iter().enumerate() {
            let key = format!("{kind} claim {v:?}");
            if !c.case(&key) {
                continue;
            }
            c.outcome(if i == 0 { "signed by hand" } else { "nothing in it" });
            let mut p = all.clone();
            match v {
                Some(v) => p[kind] = v,
                None => drop(p.as_object_mut().unwrap().remove(kind)),
            }
            let back = check(kind, &world::jwt(&h, &p, &signers[0].pk));
            c.expect(matches!(&back, Ok(r) if r.is_ok() == (i == 0)), &key, || json!({ "verified": format!("{back:?}") }));
        }
    }
    // not a JWT, not supported
    if c.case("other forms") {
        c.outcome("other forms refused");
        let o = mc::guard(|| exec::run(proof::verify(Verify::Vc(&Kind::Object(read(&base()))), &Resolver)).is_ok());
        c.expect(o == Ok(false), "object credential", || json!({ "got": o }));
        let o = sign(W3cFormat::DataIntegrityJsonLd, Payload::Vc { vc: read(&base()), issued_at: 0 }, &signers[0]);
        c.expect(matches!(o, Ok(Err(_))), "embedded proof", || json!({ "got": o }));
        let mut none = base();
        none["credentialSubject"] = json!([]);
        let o = sign(W3cFormat::JwtVcJson, Payload::Vc { vc: read(&none), issued_at: 0 }, &signers[0]);
        c.expect(o.is_ok(), "no subject", || json!({ "got": o }));
        world::with(|w| w.fail_at = Some(w.calls));
        let o = sign(W3cFormat::JwtVcJson, Payload::Vc { vc: read(&base()), issued_at: 0 }, &signers[0]);
        c.expect(matches!(o, Ok(Err(_))), "signing fails", || json!({ "got": o }));
        fresh();
        let t = sign(W3cFormat::JwtVcJson, Payload::Vc { vc: read(&base()), issued_at: 0 }, &signers[0]).unwrap().unwrap();
        world::with(|w| w.fail_at = Some(w.calls));
        let o = check("vc", &t);
        c.expect(matches!(o, Ok(Err(_))), "resolution fails", || json!({ "got": format!("{o:?}") }));
    }
    c.finish()
}
fn presentations(c: &mut Check, signers: &[Key]) {
    let creds = [None, Some(json!(["a.b.c"])), Some(json!([base(), "d.e.f"]))];
    let texts = ["v", "", "http://v?a=b&c", "é\"\\", " V/ ", "https://Verifier.Example:443/path/"];
    for w in gen::product(&[creds.len(), 3, 2, texts.len(), texts.len(), 3, 3]) {
        let key = format!("presentation {w:?}");
        if !c.case(&key) {
            continue;
        }
        c.distinct(&key);
        c.outcome("presentation");
        let mut d = json!({ "@context": [CTX, "http://x"], "type": ["VerifiablePresentation", "P"] });
        if let Some(v) = &creds[w[0]] {
            d["verifiableCredential"] = v.clone();
        }
        if w[1] > 0 {
            d["holder"] = json!(["did:example:alice", "did:example:bob"][w[1] - 1]);
        }
        if w[2] > 0 {
            d["id"] = json!("urn:uuid:7");
        }
        let (aud, nonce, s) = (texts[w[3]], texts[w[4]], &signers[w[5]]);
        let at = [NOW, 0, 4_000_000_000][w[6]];
        clock::set(at);
        let vp: VerifiablePresentation = read(&d);
        let tok = sign(W3cFormat::JwtVcJson, Payload::Vp { vp, client_id: aud.into(), nonce: nonce.into() }, s);
        let Ok(Ok(tok)) = &tok else {
            c.violation(&key, json!({ "not signed": tok }));
            continue;
        };
        let Some((h, p)) = world::open_jwt(tok, &s.pk) else {
            c.violation(&key, json!("not signed by the signer"));
            continue;
        };
        let want = json!({ "iss": d.get("holder").cloned().unwrap_or(json!("")), "jti": d.get("id").cloned().unwrap_or(json!("")), "aud": aud, "nonce": nonce, "iat": at, "nbf": at, "vp": d });
        let mut q = p.clone();
        let exp = q.as_object_mut().unwrap().remove("exp").and_then(|e| e.as_i64());
        c.expect(same(&q, &want), &key, || json!({ "claims": p, "want": want }));
        c.expect(exp == Some(at + 3600), &key, || json!({ "exp": exp }));
        c.expect(h["kid"] == s.vm && h["typ"] == "vp+jwt", &key, || json!({ "header": h }));
        let back = check("vp", tok);
        c.expect(matches!(&back, Ok(Ok(Is::Vp(v, a, n))) if same(v, &d) && a == aud && n == nonce), &key, || json!({ "verified": format!("{back:?}") }));
        let back = check("vc", tok);
        c.expect(matches!(back, Ok(Err(_))), &key, || json!({ "taken for a credential": format!("{back:?}") }));
        if w[3] == 0 && w[4] == 0 && w[6] == 0 && w[2] == 1 {
            for (what, t) in forgeries(tok, &s.pk) {
                let key = format!("{key}, {what}");
                if t == *tok || !c.case(&key) {
                    continue;
                }
                c.outcome("forgery refused");
                let back = check("vp", &t);
                c.expect(matches!(back, Ok(Err(_))), &key, || json!({ "verified": format!("{back:?}"), "token": t }));
            }
        }
    }
    clock::set(NOW);
}

// ---- C18 --------------------------------------------------------------

pub fn c18() -> ! {
    let mut c = Check::new("C18", "exploration");
    c.rule("every credential and presentation document within the distance of none and of all members, every text in every place, every place of another kind, through the real types; every sequence of builder calls up to the bound against a list of what was asked for; every language string under every sequence of additions; presentations as text and as base64url; lists and texts of many sizes");
    fresh();
    let dev = c.pick(2, 3);
    msgs::run(&mut c, &types(), 4000, dev);
    builders(&mut c);
    presentation_builder(&mut c);
    languages(&mut c);
    many(&mut c);
    texts(&mut c);
    c.finish()
}
fn builders(c: &mut Check) {
    let n = c.pick(4, 5);
    c.bound("builder calls", n);
    let ops = ["context url", "context object", "id", "id again", "type A", "type B", "issuer", "no issuer", "subject 1", "subject 2", "proof 1", "proof 2", "name", "description", "status", "subject with an id only", "subject without an id"];
    // the calls that make it complete, in front of the word or behind it
    let fin = [0usize, 4, 6, 8];
    for w in gen::words_upto(ops.len(), n) {
        for mode in 0..3 {
            let seq: Vec<usize> = match mode {
                0 => w.clone(),
                1 => fin.iter().copied().chain(w.iter().copied()).collect(),
                _ => w.iter().copied().chain(fin).collect(),
            };
            let key = format!("builder {:?}", seq.iter().map(|i| ops[*i]).collect::<Vec<_>>());
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let (mut ctx, mut types, mut subs, mut prfs) = (vec![json!(CTX)], vec![json!("VerifiableCredential")], vec![], vec![]);
            let mut other = Map::new();
            let mut issuer = String::new();
            let got = mc::guard(|| {
                let mut b = VerifiableCredential::builder();
                for i in &seq {
                    b = match i {
                        0 => b.add_context(Kind::String("http://ctx".into())),
                        1 => b.add_context(Kind::Object(json!({ "a": "b" }))),
                        2 => b.id("urn:1"),
                        3 => b.id("urn:2"),
                        4 => b.add_type("A"),
                        5 => b.add_type("B".to_string()),
                        6 => b.issuer("did:example:issuer"),
                        7 => b.issuer(""),
                        8 => b.add_subject(read(&subjects()[0])),
                        9 => b.add_subject(read(&subjects()[1])),
                        10 => b.add_proof(read(&proofs()[0])),
                        11 => b.add_proof(read(&proofs()[1])),
                        12 => b.add_name(Some(LangString::new_string("n"))),
                        13 => b.add_description(Some(LangString::new_string("d"))),
                        14 => b.status(Some(Quota::One(read(&statuses()[0])))),
                        15 => b.add_subject(read(&json!({ "id": "did:example:bob" }))),
                        _ => b.add_subject(read(&json!({ "given_name": "Bob" }))),
                    };
                }
                b.build().map(|v| serde_json::to_value(v).unwrap()).map_err(|e| e.to_string())
            });
            for i in &seq {
                match i {
                    0 => ctx.push(json!("http://ctx")),
                    1 => ctx.push(json!({ "a": "b" })),
                    2 => drop(other.insert("id".into(), json!("urn:1"))),
                    3 => drop(other.insert("id".into(), json!("urn:2"))),
                    4 => types.push(json!("A")),
                    5 => types.push(json!("B")),
                    6 => issuer = "did:example:issuer".into(),
                    7 => issuer.clear(),
                    8 => subs.push(subjects()[0].clone()),
                    9 => subs.push(subjects()[1].clone()),
                    10 => prfs.push(proofs()[0].clone()),
                    11 => prfs.push(proofs()[1].clone()),
                    12 => drop(other.insert("name".into(), json!("n"))),
                    13 => drop(other.insert("description".into(), json!("d"))),
                    14 => drop(other.insert("credentialStatus".into(), statuses()[0].clone())),
                    15 => subs.push(json!({ "id": "did:example:bob" })),
                    _ => subs.push(json!({ "given_name": "Bob" })),
                }
            }
            let complete = ctx.len() > 1 && types.len() > 1 && !issuer.is_empty() && !subs.is_empty();
            c.outcome(if complete { "built" } else { "incomplete" });
            let one = |v: Vec<Value>| if v.len() == 1 { v[0].clone() } else { Value::Array(v) };
            let mut want = other;
            want.insert("@context".into(), ctx.into());
            want.insert("type".into(), one(types));
            want.insert("issuer".into(), json!(issuer));
            want.insert("credentialSubject".into(), one(subs));
            if !prfs.is_empty() {
                want.insert("proof".into(), one(prfs));
            }
            let want = Value::Object(want);
            let ok = match &got {
                Ok(Ok(v)) => complete && same(v, &want),
                Ok(Err(_)) => !complete,
                Err(_) => false,
            };
            c.expect(ok, &key, || json!({ "got": got, "want": if complete { want } else { Value::Null } }));
        }
    }
}
fn presentation_builder(c: &mut Check) {
    let n = c.pick(4, 5);
    let ops = ["context", "type", "credential token", "credential object", "holder", "holder again"];
    for w in gen::words_upto(ops.len(), n) {
        let key = format!("presentation builder {:?}", w.iter().map(|i| ops[*i]).collect::<Vec<_>>());
        if !c.case(&key) {
            continue;
        }
        c.distinct(&key);
        let (mut ctx, mut types, mut creds, mut holder) = (vec![json!(CTX)], vec![json!("VerifiablePresentation")], vec![], Value::Null);
        world::reseed(7);
        let got = mc::guard(|| {
            let mut b = VerifiablePresentation::builder();
            for i in &w {
                b = match i {
                    0 => b.add_context(Kind::String("http://ctx".into())),
                    1 => b.add_type("T"),
                    2 => b.add_credential(Kind::String("a.b.c".into())),
                    3 => b.add_credential(Kind::Object(read(&base()))),
                    4 => b.holder("did:example:alice"),
                    _ => b.holder("did:example:bob"),
                };
            }
            b.build().map_err(|e| e.to_string())
        });
        for i in &w {
            match i {
                0 => ctx.push(json!("http://ctx")),
                1 => types.push(json!("T")),
                2 => creds.push(json!("a.b.c")),
                3 => creds.push(base()),
                4 => holder = json!("did:example:alice"),
                _ => holder = json!("did:example:bob"),
            }
        }
        let complete = ctx.len() > 1;
        c.outcome(if complete { "presentation built" } else { "presentation incomplete" });
        let ok = match &got {
            Ok(Ok(vp)) => {
                let mut v = serde_json::to_value(vp).unwrap();
                let id = v.as_object_mut().unwrap().remove("id");
                let one = |v: Vec<Value>| if v.len() == 1 { v[0].clone() } else { Value::Array(v) };
                let mut want = json!({ "@context": ctx, "type": one(types), "holder": holder });
                if !creds.is_empty() {
                    want["verifiableCredential"] = json!(creds);
                }
                complete && same(&v, &want) && id.is_some_and(|i| i.as_str().is_some_and(|s| s.starts_with("urn:uuid:")))
            }
            Ok(Err(_)) => !complete,
            Err(_) => false,
        };
        c.expect(ok, &key, || json!({ "got": got.as_ref().map(|r| r.as_ref().map(|v| serde_json::to_value(v).unwrap())) }));
    }
}
/// More of everything: n contexts, types, subjects, proofs, credentials and
/// language values, each one different, in the order they were added.
fn many(c: &mut Check) {
    let top = c.pick(24, 70);
    c.bound("things added to one document", top);
    for n in 1..=top {
        let key = format!("builder with {n} of each");
        if c.case(&key) {
            c.distinct(&key);
            c.outcome("built");
            let sub = |i: usize| json!({ "id": format!("did:example:{i}"), "n": i });
            let prf = |i: usize| json!({ "type": "DataIntegrityProof", "proofPurpose": "assertionMethod", "verificationMethod": "did:example:issuer#k0", "proofValue": format!("z{i}") });
            // the same thing again is added again
            let at = |i: usize| if i > 3 && i % 4 == 0 { i - 1 } else { i };
            let got = mc::guard(|| {
                let mut b = VerifiableCredential::builder().issuer("did:example:issuer");
                for i in (0..n).map(at) {
                    b = b.add_context(Kind::String(format!("http://ctx/{i}"))).add_type(format!("T{i}")).add_subject(read(&sub(i))).add_proof(read(&prf(i)));
                }
                b.build().map(|v| serde_json::to_value(v).unwrap()).map_err(|e| e.to_string())
            });
            let all = |f: &dyn Fn(usize) -> Value| (0..n).map(at).map(f).collect::<Vec<_>>();
            let one = |v: Vec<Value>| if v.len() == 1 { v[0].clone() } else { Value::Array(v) };
            let mut ctx = vec![json!(CTX)];
            ctx.extend(all(&|i| json!(format!("http://ctx/{i}"))));
            let mut ty = vec![json!("VerifiableCredential")];
            ty.extend(all(&|i| json!(format!("T{i}"))));
            let want = json!({ "@context": ctx, "type": ty, "issuer": "did:example:issuer", "credentialSubject": one(all(&sub)), "proof": one(all(&prf)) });
            c.expect(matches!(&got, Ok(Ok(v)) if same(v, &want)), &key, || json!({ "got": got, "want": want }));
        }
        let key = format!("presentation builder with {n} of each");
        if c.case(&key) {
            c.distinct(&key);
            c.outcome("presentation built");
            world::reseed(7);
            let got = mc::guard(|| {
                let mut b = VerifiablePresentation::builder().holder("did:example:alice");
                for i in 0..n {
                    b = b.add_context(Kind::String(format!("http://ctx/{i}"))).add_type(format!("T{i}"));
                    b = if i % 3 == 2 { b.add_credential(Kind::Object(read(&base()))) } else { b.add_credential(Kind::String(format!("a.b.{}", i / 2))) };
                }
                b.build().map(|v| serde_json::to_value(v).unwrap()).map_err(|e| e.to_string())
            });
            let mut ctx = vec![json!(CTX)];
            ctx.extend((0..n).map(|i| json!(format!("http://ctx/{i}"))));
            let mut ty = vec![json!("VerifiablePresentation")];
            ty.extend((0..n).map(|i| json!(format!("T{i}"))));
            let creds: Vec<Value> = (0..n).map(|i| if i % 3 == 2 { base() } else { json!(format!("a.b.{}", i / 2)) }).collect();
            let want = json!({ "@context": ctx, "type": ty, "holder": "did:example:alice", "verifiableCredential": creds });
            let ok = match &got {
                Ok(Ok(v)) => {
                    let mut v = v.clone();
                    v.as_object_mut().unwrap().remove("id");
                    same(&v, &want)
                }
                _ => false,
            };
            c.expect(ok, &key, || json!({ "got": got, "want": want }));
        }
        // language values: each language once, but every fifth again
        let key = format!("{n} language values");
        if c.case(&key) {
            c.distinct(&key);
            c.outcome("language string");
            let val = |i: usize| LangValue {
                value: format!("value {i}"),
                language: (i % 5 != 3).then(|| format!("l{}", if i % 5 == 4 { i - 4 } else { i })),
                direction: [None, Some(Direction::Rtl), Some(Direction::Ltr)][i % 3].clone(),
            };
            let mut s = LangString::new_object(val(0));
            (1..n).for_each(|i| s.add(val(i)));
            let list: Vec<LangValue> = (0..n).map(val).collect();
            c.expect(s.len() == n && !s.is_empty(), &key, || json!({ "len": s.len() }));
            for i in 0..=n {
                let l = format!("l{i}");
                let want = list.iter().find(|v| v.language.as_ref() == Some(&l)).map(|v| v.value.clone());
                let got = mc::guard(|| s.value(&l).ok());
                c.expect(got == Ok(want.clone()), &key, || json!({ "language": l, "got": got, "want": want }));
            }
            let v = serde_json::to_value(&s).unwrap();
            let want = if n == 1 { serde_json::to_value(&list[0]).unwrap() } else { serde_json::to_value(&list).unwrap() };
            c.expect(v == want && read::<LangString>(&v) == s, &key, || json!({ "json": v, "want": want }));
        }
    }
}
fn languages(c: &mut Check) {
    let vals: Vec<LangValue> = [("one", None), ("two", Some("en")), ("three", Some("de")), ("four", Some("en")), ("", Some("")), ("three", None), ("fünf", Some("de-CH"))]
        .into_iter()
        .map(|(v, l)| LangValue { value: v.into(), language: l.map(String::from), direction: if v == "three" { Some(Direction::Rtl) } else { None } })
        .collect();
    let n = c.pick(3, 4);
    for w in gen::words_upto(vals.len(), n) {
        for start in 0..4 {
            let key = format!("language string {start} {w:?}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            c.outcome("language string");
            let mut list: Vec<LangValue> = vec![];
            let mut text = None;
            let mut s = match start {
                0 => {
                    text = Some("plain".to_string());
                    LangString::new_string("plain")
                }
                3 => {
                    text = Some(String::new());
                    LangString::new_string("")
                }
                1 => {
                    list.push(vals[1].clone());
                    LangString::new_object(vals[1].clone())
                }
                _ => {
                    list.push(vals[0].clone());
                    LangString::new_object(vals[0].clone())
                }
            };
            for i in &w {
                s.add(vals[*i].clone());
                if let Some(t) = text.take() {
                    list.push(LangValue { value: t, ..LangValue::default() });
                }
                list.push(vals[*i].clone());
            }
            let len = if text.is_some() { 1 } else { list.len() };
            c.expect(s.len() == len && !s.is_empty(), &key, || json!({ "len": s.len() }));
            for l in ["en", "de", "", "fr", "EN", "de-CH", "de-DE", "d"] {
                let want = match &text {
                    Some(t) => Some(t.clone()),
                    None => list.iter().find(|v| v.language.as_deref() == Some(l)).map(|v| v.value.clone()),
                };
                let got = mc::guard(|| s.value(l).ok());
                c.expect(got == Ok(want.clone()), &key, || json!({ "language": l, "got": got, "want": want }));
            }
            let v = serde_json::to_value(&s).unwrap();
            let want = match &text {
                Some(t) => json!(t),
                None if list.len() == 1 => serde_json::to_value(&list[0]).unwrap(),
                None => serde_json::to_value(&list).unwrap(),
            };
            c.expect(v == want && read::<LangString>(&v) == s, &key, || json!({ "json": v, "want": want }));
        }
    }
}
fn texts(c: &mut Check) {
    use base64ct::{Base64UrlUnpadded as B64, Encoding};
    let full = json!({ "@context": [CTX], "type": ["VerifiablePresentation", "é"], "holder": "did:example:alice", "verifiableCredential": ["a.b.c", base()] });
    for d in [json!({ "@context": [CTX], "type": "VerifiablePresentation" }), full] {
        let pretty = serde_json::to_string_pretty(&d).unwrap();
        // other spellings are other bytes, so other base64
        for (how, t) in [("indented text", pretty.clone()), ("indented base64url", B64::encode_string(pretty.as_bytes())), ("spaced base64url", B64::encode_string(d.to_string().replacen('{', "{  ", 1).as_bytes()))] {
            let key = format!("presentation from {how}: {d}");
            if c.case(&key) {
                let got = mc::guard(|| t.parse::<VerifiablePresentation>().map(|v| serde_json::to_value(v).unwrap()).map_err(|e| e.to_string()));
                c.expect(matches!(&got, Ok(Ok(v)) if same(v, &d)), &key, || json!({ "got": got }));
            }
        }
        // two documents are not one
        for (how, t) in [("text", format!("{d}{d}")), ("base64url", B64::encode_string(format!("{d}{d}").as_bytes())), ("text and more", format!("{d} x")), ("base64url and more", B64::encode_string(format!("{d} x").as_bytes()))] {
            let key = format!("presentation twice, {how}: {d}");
            if c.case(&key) {
                let got = mc::guard(|| t.parse::<VerifiablePresentation>().is_ok());
                c.expect(got == Ok(false), &key, || json!({ "got": got }));
            }
        }
        for (how, t) in [("text", d.to_string()), ("base64url", B64::encode_string(d.to_string().as_bytes()))] {
            let key = format!("presentation from {how}: {d}");
            if !c.case(&key) {
                continue;
            }
            c.outcome("presentation read from text");
            let got = mc::guard(|| t.parse::<VerifiablePresentation>().map(|v| serde_json::to_value(v).unwrap()).map_err(|e| e.to_string()));
            c.expect(matches!(&got, Ok(Ok(v)) if same(v, &d)), &key, || json!({ "got": got }));
            // cut short, it is refused
            for n in 0..t.len() {
                if !t.is_char_boundary(n) {
                    continue;
                }
                let key = format!("{key}, cut at {n}");
                if c.case(&key) {
                    let got = mc::guard(|| t[..n].parse::<VerifiablePresentation>().is_ok());
                    c.expect(got == Ok(false), &key, || json!({ "got": got }));
                }
            }
        }
    }
    // what a presentation definition is matched against is the credential
    for d in credentials(c) {
        let key = format!("claims of {d}");
        if !c.case(&key) {
            continue;
        }
        let vc: VerifiableCredential = read(&d);
        let got = mc::guard(|| vc.to_json().ok());
        c.expect(matches!(&got, Ok(Some(v)) if same(v, &d)), &key, || json!({ "got": got }));
    }
}
