//! C12: protocol messages on the wire.
use mc::{gen, Check};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use vercre_core::urlencode;
use vercre_openid::{issuer as iss, verifier as ver};

pub type Out = Result<Result<Value, String>, String>;
/// A message type: the members it must have, and those it may have.
pub struct Ty {
    pub name: &'static str,
    pub base: Value,
    pub opts: Vec<(&'static str, Vec<Value>)>,
    /// through the type, as JSON
    pub json: fn(&Value) -> Out,
    /// through the type, as a query string
    pub form: Option<fn(&Value) -> Out>,
    /// unknown members are refused
    pub closed: bool,
}
fn as_json<T: DeserializeOwned + Serialize>(v: &Value) -> Out {
    mc::guard(|| {
        let t: Result<T, String> = serde_json::from_value(v.clone()).map_err(|e| e.to_string());
        // what is read from the text and from a stream is what is read from
        // the tree
        let text = v.to_string();
        for (how, r) in [("text", serde_json::from_str::<T>(&text)), ("stream", serde_json::from_reader::<_, T>(text.as_bytes()))] {
            let same = match (&t, &r) {
                (Ok(t), Ok(r)) => serde_json::to_value(t).ok() == serde_json::to_value(r).ok(),
                (Err(_), Err(_)) => true,
                _ => false,
            };
            assert!(same, "read otherwise from {how}: {:?}", r.map(|r| serde_json::to_value(r).ok()));
        }
        let t = t?;
        // text and tree are the same thing
        let again: T = serde_json::from_str(&serde_json::to_string(&t).map_err(|e| e.to_string())?).map_err(|e| format!("own text unreadable: {e}"))?;
        let (a, b) = (serde_json::to_value(&t).map_err(|e| e.to_string())?, serde_json::to_value(&again).map_err(|e| e.to_string())?);
        if a != b {
            return Err(format!("unstable: {a} / {b}"));
        }
        Ok(a)
    })
}
fn as_form<T: DeserializeOwned + Serialize>(v: &Value) -> Out {
    mc::guard(|| {
        let t: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        let s = urlencode::to_string(&t).map_err(|e| e.to_string())?;
        if s.is_empty() {
            // no parameters at all: what an empty text means is left open
            return serde_json::to_value(&t).map_err(|e| e.to_string());
        }
        let u: T = urlencode::from_str(&s).map_err(|e| format!("{s}: {e}"))?;
        let u = serde_json::to_value(&u).map_err(|e| e.to_string())?;
        // unknown parameters are ignored, wherever they stand
        for x in [format!("{s}&unknown=1"), format!("zz=%7B%22a%22%3A1%7D&{s}"), format!("x-a=&{s}&y=a+b")] {
            let w: T = urlencode::from_str(&x).map_err(|e| format!("{x}: {e}"))?;
            if serde_json::to_value(&w).ok().as_ref() != Some(&u) {
                return Err(format!("{x} is read as {:?}", serde_json::to_value(&w)));
            }
        }
        Ok(u)
    })
}
fn as_text(v: &Value) -> Out {
    mc::guard(|| {
        let t: iss::AuthorizationRequest = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        let u: iss::AuthorizationRequest = t.to_string().parse().map_err(|e| format!("{e}"))?;
        // and from JSON text
        let w: iss::AuthorizationRequest = format!("  {v}").parse().map_err(|e| format!("{e}"))?;
        let x: iss::AuthorizationRequest = format!("x-a=&{t}&y=a+b&unknown=%7B%22a%22%3A1%7D").parse().map_err(|e| format!("{e}"))?;
        let o: iss::AuthorizationRequest = merge(&json!({ "a": [{ "b": null }], "unknown": 1 }), v).to_string().parse().map_err(|e| format!("{e}"))?;
        if x != t || o != t {
            return Err(format!("differ with unknown parameters: {t:?} / {x:?} / {o:?}"));
        }
        if u != t || w != t {
            return Err(format!("differ: {t:?} / {u:?} / {w:?}"));
        }
        serde_json::to_value(&u).map_err(|e| e.to_string())
    })
}
fn offer_query(v: &Value) -> Out {
    mc::guard(|| {
        let t: iss::CredentialOffer = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        let qs = t.to_querystring().map_err(|e| e.to_string())?;
        qr(&t.to_qrcode("openid-credential-offer://?").map_err(|e| e.to_string())?, "openid-credential-offer://?", &qs)?;
        let u: iss::CredentialOffer = urlencode::from_str(&qs).map_err(|e| format!("{qs}: {e}"))?;
        serde_json::to_value(&u).map_err(|e| e.to_string())
    })
}
fn request_query(v: &Value) -> Out {
    mc::guard(|| {
        let t: ver::RequestObject = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        let qs = t.to_querystring().map_err(|e| e.to_string())?;
        qr(&t.to_qrcode("openid4vp://?").map_err(|e| e.to_string())?, "openid4vp://?", &qs)?;
        let u: ver::RequestObject = urlencode::from_str(&qs).map_err(|e| format!("{qs}: {e}"))?;
        serde_json::to_value(&u).map_err(|e| e.to_string())
    })
}
/// The QR code is a data URL of the image of endpoint and query string (the
/// image library is a stand-in whose images are the encoded text).
fn qr(code: &str, endpoint: &str, qs: &str) -> Result<(), String> {
    use base64ct::{Base64, Encoding};
    let b = code.strip_prefix("data:image/png;base64,").ok_or("no data URL")?;
    let text = Base64::decode_vec(b).map_err(|e| e.to_string())?;
    if text == format!("{endpoint}{qs}").as_bytes() { Ok(()) } else { Err("QR code of something else".into()) }
}
pub fn ty<T: DeserializeOwned + Serialize>(name: &'static str, base: Value, opts: Vec<(&'static str, Vec<Value>)>) -> Ty {
    Ty { name, base, opts, json: as_json::<T>, form: None, closed: false }
}
fn also(mut t: Ty, form: fn(&Value) -> Out) -> Ty {
    t.form = Some(form);
    t
}
fn s(vals: &[&str]) -> Vec<Value> {
    vals.iter().map(|x| json!(x)).collect()
}
const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

fn claims() -> Value {
    json!({ "given_name": {}, "age": { "mandatory": true, "value_type": "number", "display": [{ "name": "Age", "locale": "en-NZ" }, { "name": "Alter" }] },
            "photo": { "value_type": "image", "mandatory": false }, "address": { "street": { "value_type": "string" }, "geo": { "lat": {}, "lon": { "mandatory": true } } } })
}
fn definition() -> Value {
    json!({ "@context": ["https://www.w3.org/2018/credentials/v1"], "type": ["VerifiableCredential", "EmployeeIDCredential"], "credentialSubject": claims() })
}
fn formats() -> Vec<Value> {
    let mut v = vec![];
    for f in ["jwt_vc_json", "ldp_vc", "jwt_vc_json-ld"] {
        v.push(json!({ "format": f, "credential_definition": definition() }));
        v.push(json!({ "format": f, "credential_definition": { "type": ["VerifiableCredential"] } }));
    }
    v.push(json!({ "format": "mso_mdoc", "doctype": "org.iso.18013.5.1.mDL", "claims": { "org.iso.18013.5.1": { "given_name": {}, "age": { "mandatory": true } } } }));
    v.push(json!({ "format": "mso_mdoc", "doctype": "d" }));
    v.push(json!({ "format": "vc+sd-jwt", "vct": "V", "claims": claims() }));
    v.push(json!({ "format": "vc+sd-jwt", "vct": "V" }));
    v
}
fn details() -> Vec<Value> {
    let mut v: Vec<Value> = vec![
        json!({ "type": "openid_credential", "credential_configuration_id": "A" }),
        json!({ "type": "openid_credential", "credential_configuration_id": "A", "credential_definition": definition() }),
        json!({ "type": "openid_credential", "credential_configuration_id": "A", "claims": claims() }),
        json!({ "type": "openid_credential", "credential_configuration_id": "A", "locations": ["http://a", "http://b"] }),
    ];
    for f in formats() {
        v.push(merge(&json!({ "type": "openid_credential" }), &f));
    }
    v
}
fn merge(a: &Value, b: &Value) -> Value {
    let mut o = a.as_object().cloned().unwrap_or_default();
    o.extend(b.as_object().cloned().unwrap_or_default());
    Value::Object(o)
}
fn grants() -> Vec<Value> {
    let tx = json!({ "input_mode": "numeric", "length": 6, "description": "see mail" });
    vec![
        json!({}),
        json!({ "authorization_code": {} }),
        json!({ "authorization_code": { "issuer_state": "st", "authorization_server": "http://as" } }),
        json!({ PRE: { "pre-authorized_code": "c" } }),
        json!({ PRE: { "pre-authorized_code": "c", "tx_code": {} } }),
        json!({ PRE: { "pre-authorized_code": "c", "tx_code": tx, "authorization_server": "http://as" } }),
        json!({ "authorization_code": { "issuer_state": "c" }, PRE: { "pre-authorized_code": "c", "tx_code": { "length": 4 } } }),
    ]
}
fn display() -> Vec<Value> {
    vec![
        json!([{ "name": "N" }]),
        json!([{ "name": "N", "locale": "en", "logo": { "uri": "http://l", "alt_text": "l" }, "description": "d", "background_color": "#123", "background_image": { "uri": "u" }, "text_color": "#fff" }, { "name": "M", "logo": {} }]),
        json!([]),
    ]
}
fn client_opts() -> Vec<(&'static str, Vec<Value>)> {
    vec![
        ("client_id_issued_at", vec![json!(0), json!(-1), json!(i64::MAX)]),
        ("client_secret", s(&["x"])),
        ("client_secret_expires_at", vec![json!(5)]),
        ("redirect_uris", vec![json!(["http://a", "http://b"]), json!([])]),
        ("token_endpoint_auth_method", s(&["none", "client_secret_jwt", "private_key_jwt"])),
        ("grant_types", vec![json!(["authorization_code", PRE])]),
        ("response_types", vec![json!(["code", "vp_token", "id_token vp_token"])]),
        ("client_name", s(&["x"])),
        ("client_uri", s(&["x"])),
        ("logo_uri", s(&["x"])),
        ("scope", s(&["a b"])),
        ("contacts", s(&["x"])),
        ("tos_uri", s(&["x"])),
        ("policy_uri", s(&["x"])),
        ("jwks_uri", s(&["x"])),
        ("jwks", s(&["x"])),
        ("software_id", s(&["x"])),
        ("software_version", s(&["x"])),
        ("require_pushed_authorization_requests", vec![json!(true), json!(false)]),
    ]
}
fn server_opts() -> Vec<(&'static str, Vec<Value>)> {
    vec![
        ("jwks_uri", s(&["x"])),
        ("registration_endpoint", s(&["x"])),
        ("scopes_supported", vec![json!(["a", "b"])]),
        ("response_modes_supported", vec![json!(["query", "jarm"])]),
        ("grant_types_supported", vec![json!([PRE, "authorization_code"])]),
        ("token_endpoint_auth_methods_supported", vec![json!(["none", "private_key_jwt"])]),
        ("token_endpoint_auth_signing_alg_values_supported", vec![json!(["ES256K", "EdDSA"])]),
        ("service_documentation", s(&["x"])),
        ("ui_locales_supported", vec![json!(["en"])]),
        ("op_policy_uri", s(&["x"])),
        ("op_tos_uri", s(&["x"])),
        ("revocation_endpoint", s(&["x"])),
        ("revocation_endpoint_auth_methods_supported", vec![json!(["a"])]),
        ("revocation_endpoint_auth_signing_alg_values_supported", vec![json!(["a"])]),
        ("introspection_endpoint", s(&["x"])),
        ("introspection_endpoint_auth_methods_supported", vec![json!(["a"])]),
        ("introspection_endpoint_auth_signing_alg_values_supported", vec![json!(["a"])]),
        ("code_challenge_methods_supported", vec![json!(["S256"])]),
        ("signed_metadata", s(&["x"])),
        ("pushed_authorization_request_endpoint", s(&["x"])),
        ("require_pushed_authorization_requests", vec![json!(true), json!(false)]),
    ]
}
fn request_opts() -> Vec<(&'static str, Vec<Value>)> {
    vec![
        ("redirect_uri", s(&["http://r?a=b&c=d"])),
        ("state", s(&["st"])),
        ("authorization_details", {
            let mut v: Vec<Value> = details().into_iter().map(|d| json!([d])).collect();
            v.push(Value::Array(details()));
            v
        }),
        ("scope", s(&["a b"])),
        ("resource", s(&["http://i"])),
        ("wallet_issuer", s(&["w"])),
        ("user_hint", s(&["u"])),
        ("issuer_state", s(&["is"])),
    ]
}
fn request_base() -> Value {
    json!({ "credential_issuer": "http://i", "response_type": "code", "client_id": "c", "code_challenge": "ch", "code_challenge_method": "S256", "subject_id": "alice" })
}
fn vc() -> Value {
    json!({ "@context": ["https://www.w3.org/2018/credentials/v1"], "type": ["VerifiableCredential", "A"], "issuer": "http://i", "credentialSubject": { "id": "did:a", "n": 1 } })
}
fn definition_of_presentation() -> Value {
    json!({ "id": "pd", "name": "n", "purpose": "p", "input_descriptors": [{ "id": "d", "constraints": { "fields": [{ "path": ["$.type", "$.vc.type"], "filter": { "type": "string", "const": "A" } }] } }] })
}

fn types() -> Vec<Ty> {
    let server = json!({ "issuer": "http://i", "authorization_endpoint": "/a", "token_endpoint": "/t", "response_types_supported": ["code"] });
    let anon = "pre-authorized_grant_anonymous_access_supported";
    let config = |f: &Value| f.clone();
    let mut v = vec![
        also(
            ty::<iss::CreateOfferRequest>(
                "CreateOfferRequest",
                json!({ "credential_configuration_ids": ["A", "B"], "tx_code_required": true, "send_type": "ByRef" }),
                vec![("credential_issuer", s(&["http://i"])), ("subject_id", s(&["alice"])), ("grant_types", vec![json!([]), json!(["authorization_code"]), json!([PRE, "authorization_code"])]), ("tx_code_required", vec![json!(false)]), ("send_type", s(&["ByVal"])), ("credential_configuration_ids", vec![json!([])])],
            ),
            |v| Ok(Ok(v.clone())),
        ),
        ty::<iss::CreateOfferResponse>("CreateOfferResponse", json!({ "credential_offer_uri": "http://o" }), vec![("tx_code", s(&["123456"]))]),
        ty::<iss::CreateOfferResponse>("CreateOfferResponse by value", json!({ "credential_offer": { "credential_configuration_ids": ["A"] } }), vec![("tx_code", s(&["123456"]))]),
        also(ty::<iss::CredentialOffer>("CredentialOffer", json!({ "credential_issuer": "http://i", "credential_configuration_ids": ["A"] }), vec![("credential_configuration_ids", vec![json!([]), json!(["B", "A"])]), ("grants", grants())]), offer_query),
        also(ty::<iss::CredentialOfferRequest>("CredentialOfferRequest", json!({ "credential_issuer": "http://i", "id": "x" }), vec![]), as_form::<iss::CredentialOfferRequest>),
        ty::<iss::CredentialOfferResponse>("CredentialOfferResponse", json!({ "credential_offer": { "credential_issuer": "http://i", "credential_configuration_ids": ["A"], "grants": grants()[6] } }), vec![]),
        also(ty::<iss::AuthorizationRequest>("AuthorizationRequest", request_base(), request_opts()), as_text),
        also(ty::<iss::AuthorizationRequest>("AuthorizationRequest by reference", json!({ "request_uri": "urn:x:1" }), vec![]), as_text),
        also(ty::<iss::RequestObject>("RequestObject", request_base(), request_opts()), as_form::<iss::RequestObject>),
        also(
            ty::<iss::PushedAuthorizationRequest>("PushedAuthorizationRequest", request_base(), request_opts()),
            as_form::<iss::PushedAuthorizationRequest>,
        ),
        ty::<iss::PushedAuthorizationRequest>("PushedAuthorizationRequest with assertion", merge(&request_base(), &json!({ "client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "client_assertion": "a.b.c" })), vec![("state", s(&["st"]))]),
        ty::<iss::PushedAuthorizationResponse>("PushedAuthorizationResponse", json!({ "request_uri": "urn:x", "expires_in": 600 }), vec![]),
        also(ty::<iss::AuthorizationResponse>("AuthorizationResponse", json!({ "code": "c", "redirect_uri": "http://r" }), vec![("state", s(&["st"]))]), as_form::<iss::AuthorizationResponse>),
        also(
            ty::<iss::TokenRequest>(
                "TokenRequest with code",
                json!({ "credential_issuer": "http://i", "grant_type": "authorization_code", "code": "c" }),
                vec![("client_id", s(&["cl"])), ("redirect_uri", s(&["http://r"])), ("code_verifier", s(&["v"])), ("authorization_details", vec![Value::Array(details()), json!([])])],
            ),
            as_form::<iss::TokenRequest>,
        ),
        also(
            ty::<iss::TokenRequest>(
                "TokenRequest with pre-authorized code",
                json!({ "credential_issuer": "http://i", "grant_type": PRE, "pre-authorized_code": "c" }),
                vec![("client_id", s(&["cl"])), ("tx_code", s(&["123456", "000000", "7"])), ("authorization_details", vec![Value::Array(details())])],
            ),
            as_form::<iss::TokenRequest>,
        ),
        ty::<iss::TokenRequest>(
            "TokenRequest with assertion",
            json!({ "grant_type": PRE, "pre-authorized_code": "c", "client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "client_assertion": "a.b.c" }),
            vec![("client_id", s(&["cl"])), ("tx_code", s(&["123456"]))],
        ),
        ty::<iss::TokenResponse>(
            "TokenResponse",
            json!({ "access_token": "t", "token_type": "Bearer", "expires_in": 900 }),
            vec![("c_nonce", s(&["n"])), ("c_nonce_expires_in", vec![json!(600)]), ("authorization_details", details().into_iter().map(|d| json!([merge(&d, &json!({ "credential_identifiers": ["X", "Y"] }))])).collect())],
        ),
        ty::<iss::ProofClaims>("ProofClaims", json!({ "aud": "http://i", "iat": 17 }), vec![("iss", s(&["c"])), ("nonce", s(&["n"]))]),
        ty::<iss::DeferredCredentialRequest>("DeferredCredentialRequest", json!({ "transaction_id": "t" }), vec![("credential_issuer", s(&["http://i"])), ("access_token", s(&["a"]))]),
        ty::<iss::MetadataRequest>("MetadataRequest", json!({}), vec![("credential_issuer", s(&["http://i"])), ("languages", s(&["en"]))]),
        ty::<iss::OAuthServerRequest>("OAuthServerRequest", json!({}), vec![("credential_issuer", s(&["http://i"])), ("issuer", s(&["http://i"]))]),
        ty::<iss::NotificationRequest>(
            "NotificationRequest",
            json!({ "notification_id": "n", "event": "credential_accepted" }),
            vec![("credential_issuer", s(&["http://i"])), ("access_token", s(&["a"])), ("event", s(&["credential_failure", "credential_deleted"])), ("event_description", s(&["d"]))],
        ),
        ty::<iss::Client>("Client", json!({ "client_id": "c" }), client_opts()),
        ty::<iss::RegistrationRequest>("RegistrationRequest", json!({ "client_id": "c", "credential_issuer": "http://i", "access_token": "a" }), client_opts()),
        ty::<iss::RegistrationResponse>("RegistrationResponse", json!({ "client_id": "c" }), client_opts()),
        ty::<iss::Server>("Server", merge(&server, &json!({ anon: true })), { let mut o = server_opts(); o.push((anon, vec![json!(false)])); o }),
        ty::<iss::OAuthServerResponse>("OAuthServerResponse", json!({ "authorization_server": merge(&server, &json!({ anon: true })) }), vec![]),
        ty::<iss::Issuer>(
            "Issuer",
            json!({ "credential_issuer": "http://i", "credential_endpoint": "/c", "credential_configurations_supported": {} }),
            vec![
                ("authorization_servers", vec![json!(["http://a"]), json!([])]),
                ("deferred_credential_endpoint", s(&["/d"])),
                ("notification_endpoint", s(&["/n"])),
                ("credential_response_encryption", vec![json!({ "alg_values_supported": ["a"], "enc_values_supported": ["e"], "encryption_required": true })]),
                ("batch_credential_issuance", vec![json!({ "batch_size": 3 })]),
                ("signed_metadata", s(&["x"])),
                ("display", vec![json!({ "name": "N", "locale": "en" }), json!({ "name": "N" })]),
                ("credential_configurations_supported", formats().iter().map(|f| json!({ "A": config(f), "B": merge(f, &json!({ "scope": "s" })) })).collect()),
            ],
        ),
        also(
            ty::<ver::RequestObject>(
                "presentation RequestObject",
                json!({ "response_type": "vp_token", "client_id": "v", "nonce": "n", "presentation_definition": definition_of_presentation(), "client_metadata": { "client_id": "v" } }),
                vec![
                    ("response_type", s(&["vp_token id_token", "code"])),
                    ("redirect_uri", s(&["http://r"])),
                    ("response_mode", s(&["direct_post"])),
                    ("response_uri", s(&["http://p?x=1&y=2"])),
                    ("scope", s(&["s"])),
                    ("state", s(&["st"])),
                    ("client_id_scheme", s(&["redirect_uri", "did"])),
                    ("presentation_definition", s(&["http://pd"])),
                    ("client_metadata", vec![json!({ "client_id": "v", "vp_formats": { "jwt_vp_json": { "alg": ["ES256K"], "proof_type": ["p"] } }, "client_name": "V" })]),
                ],
            ),
            request_query,
        ),
        Ty { closed: true, ..ty::<ver::CreateRequestResponse>("CreateRequestResponse", json!({ "request_uri": "http://r" }), vec![]) },
        ty::<ver::CreateRequestRequest>(
            "CreateRequestRequest",
            json!({ "client_id": "v", "purpose": "p", "input_descriptors": definition_of_presentation()["input_descriptors"], "device_flow": "CrossDevice", "client_id_scheme": "redirect_uri" }),
            vec![("device_flow", s(&["SameDevice"])), ("input_descriptors", vec![json!([])])],
        ),
        also(ty::<ver::RequestObjectRequest>("RequestObjectRequest", json!({ "client_id": "v", "id": "x" }), vec![]), as_form::<ver::RequestObjectRequest>),
        Ty { closed: true, ..ty::<ver::RequestObjectResponse>("RequestObjectResponse by value", json!({ "request_object": { "response_type": "vp_token", "client_id": "v", "nonce": "n", "presentation_definition": definition_of_presentation(), "client_metadata": { "client_id": "v" } } }), vec![]) },
        also(
            ty::<ver::ResponseRequest>(
                "presentation ResponseRequest",
                json!({}),
                vec![
                    ("vp_token", vec![json!(["a.b.c"]), json!([{ "@context": ["c"], "type": "VerifiablePresentation", "verifiableCredential": ["x.y.z", vc()] }]), json!(["a.b.c", "d.e.f"]), json!([])]),
                    ("presentation_submission", vec![json!({ "id": "s", "definition_id": "pd", "descriptor_map": [{ "id": "d", "format": "jwt_vc_json", "path": "$", "path_nested": { "format": "jwt_vc_json", "path": "$.verifiableCredential[0]" } }] })]),
                    ("state", s(&["st"])),
                ],
            ),
            as_form::<ver::ResponseRequest>,
        ),
        ty::<ver::ResponseResponse>("presentation ResponseResponse", json!({}), vec![("redirect_uri", s(&["http://r"])), ("response_code", s(&["c"]))]),
        ty::<ver::Verifier>("Verifier", json!({ "client_id": "v" }), { let mut o = client_opts(); o.push(("vp_formats", vec![json!({}), json!({ "jwt_vp_json": {} }), json!({ "jwt_vp_json": { "alg": ["a"], "proof_type": ["p"] } })])); o }),
        ty::<ver::MetadataResponse>("verifier MetadataResponse", json!({ "client_id": "v" }), client_opts()),
        ty::<ver::Wallet>("Wallet", merge(&server, &json!({ "presentation_definition_uri_supported": true })), { let mut o = server_opts(); o.push(("vp_formats_supported", vec![json!({ "jwt_vp_json": { "alg": ["a"] } })])); o }),
    ];
    for (name, c) in [("Identifier", json!({ "credential_identifier": "X" }))].into_iter().chain(formats().into_iter().map(|f| ("Format", f))) {
        for (pn, p) in [("no proof", json!({})), ("proof", json!({ "proof": { "proof_type": "jwt", "jwt": "a.b.c" } })), ("proofs", json!({ "proofs": { "jwt": ["a.b.c", "d.e.f"] } }))] {
            let n: &'static str = Box::leak(format!("CredentialRequest {name} {pn} {}", c["format"]).into_boxed_str());
            v.push(ty::<iss::CredentialRequest>(
                n,
                merge(&c, &p),
                vec![("credential_issuer", s(&["http://i"])), ("access_token", s(&["a"])), ("credential_response_encryption", vec![json!({ "jwk": { "kty": "OKP", "crv": "X25519", "x": "pk" }, "alg": "a", "enc": "e" })])],
            ));
        }
    }
    for (n, r) in [
        ("credential", json!({ "credential": "a.b.c" })),
        ("credential object", json!({ "credential": vc() })),
        ("credentials", json!({ "credentials": ["a.b.c", vc()] })),
        ("no credentials", json!({ "credentials": [] })),
        ("transaction", json!({ "transaction_id": "t" })),
    ] {
        let opts = vec![("c_nonce", s(&["n"])), ("c_nonce_expires_in", vec![json!(600)]), ("notification_id", s(&["x"]))];
        let n1: &'static str = Box::leak(format!("CredentialResponse {n}").into_boxed_str());
        let n2: &'static str = Box::leak(format!("DeferredCredentialResponse {n}").into_boxed_str());
        v.push(ty::<iss::CredentialResponse>(n1, r.clone(), opts.clone()));
        v.push(ty::<iss::DeferredCredentialResponse>(n2, r, opts));
    }
    for f in formats() {
        let n: &'static str = Box::leak(format!("CredentialConfiguration {f}").into_boxed_str());
        let opts = vec![
            ("scope", s(&["s"])),
            ("cryptographic_binding_methods_supported", vec![json!(["did:key"]), json!([])]),
            ("credential_signing_alg_values_supported", vec![json!(["EdDSA"])]),
            ("proof_types_supported", vec![json!({ "jwt": { "proof_signing_alg_values_supported": ["EdDSA"] } }), json!({})]),
            ("display", display()),
        ];
        v.push(ty::<iss::CredentialConfiguration>(n, f, opts));
    }
    for d in details() {
        let n: &'static str = Box::leak(format!("AuthorizationDetail {d}").into_boxed_str());
        v.push(ty::<iss::AuthorizationDetail>(n, d, vec![("locations", vec![json!(["http://l"])])]));
    }
    v
}

/// Members that are left out when they are empty.
const EMPTY: [&str; 2] = ["credential_issuer", "access_token"];
/// null members are absent members
pub fn norm(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(k, v)| !v.is_null() && !(EMPTY.contains(&k.as_str()) && **v == "")).map(|(k, v)| (k.clone(), norm(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        v => v.clone(),
    }
}
/// Members that `v` has as null where `d` has none: an absent member stays
/// absent.
pub fn nulls(v: &Value, d: &Value) -> bool {
    match (v, d) {
        (Value::Object(v), Value::Object(d)) => v.iter().any(|(k, x)| d.get(k).map_or(x.is_null(), |y| nulls(x, y))),
        (Value::Array(v), Value::Array(d)) => v.iter().zip(d).any(|(x, y)| nulls(x, y)),
        _ => false,
    }
}
/// The same members with the same values, and no others.
pub fn same(v: &Value, d: &Value) -> bool {
    norm(v) == norm(d) && !nulls(v, d)
}
fn docs(t: &Ty, cap: usize, dev: usize) -> Vec<Value> {
    let dims: Vec<usize> = t.opts.iter().map(|o| o.1.len() + 1).collect();
    let build = |w: &[usize]| {
        let mut d = t.base.as_object().cloned().unwrap_or_default();
        for (i, k) in w.iter().enumerate() {
            if *k > 0 {
                d.insert(t.opts[i].0.into(), t.opts[i].1[*k - 1].clone());
            }
        }
        Value::Object(d)
    };
    if dims.iter().product::<usize>() <= cap {
        return gen::product(&dims).map(|w| build(&w)).collect();
    }
    // near nothing, and near everything
    let mut v: Vec<Value> = gen::deviations(&dims, dev).iter().map(|w| build(w)).collect();
    for w in gen::deviations(&dims, dev) {
        let w: Vec<usize> = w.iter().zip(&dims).map(|(k, d)| (k + 1) % d).collect();
        v.push(build(&w));
    }
    v
}
/// Every place in a document, as a JSON pointer.
fn places(v: &Value, at: &str, out: &mut Vec<String>) {
    if !at.is_empty() {
        out.push(at.to_string());
    }
    match v {
        Value::Object(o) => o.iter().for_each(|(k, x)| places(x, &format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| places(x, &format!("{at}/{i}"), out)),
        _ => {}
    }
}
pub const TEXTS: [&str; 16] = ["", " ", "a b", "é€😀", "&=%+?#/;:@", "\"\\\n\t\u{0}", "true", "null", "1", "007", "-0.5", "%41", "a=b&c=d", "+", "[", "{x"];
/// Enumerated words and numbers: not free text.
fn free_text(path: &str) -> bool {
    let last = path.rsplit('/').next().unwrap_or_default();
    let parent = path.rsplit('/').nth(1).unwrap_or_default();
    let fixed = ["type", "format", "grant_type", "response_type", "code_challenge_method", "token_type", "event", "send_type", "device_flow", "value_type", "proof_type", "client_assertion_type", "client_id_scheme", "token_endpoint_auth_method", "request_uri", "alg", "enc", "kty", "crv", "x", "statusPurpose", "validFrom", "validUntil", "created", "expires", "@direction"];
    let lists = ["grant_types", "response_types", "response_types_supported", "response_modes_supported", "grant_types_supported", "token_endpoint_auth_methods_supported", "token_endpoint_auth_signing_alg_values_supported", "code_challenge_methods_supported"];
    !fixed.contains(&last) && !lists.contains(&parent)
}

/// Members that make sense only together: a malformed assertion is no
/// assertion.
fn together(a: &str, b: &str) -> bool {
    let g = ["client_assertion_type", "client_assertion"];
    g.contains(&a) && g.contains(&b)
}

/// Members of a request that its endpoint supplies: where it was sent to, and
/// the access token it was sent with.
fn supplied(name: &str, at: &str) -> bool {
    let ty = name.split(' ').next().unwrap_or_default();
    match at {
        "/credential_issuer" | "/access_token" => ty != "CredentialOfferRequest" && (ty.ends_with("Request") || ty == "RequestObject"),
        "/client_id" => ty == "CreateRequestRequest",
        _ => false,
    }
}

pub fn run(c: &mut Check, ts: &[Ty], cap: usize, dev: usize) {
    c.bound("member sets enumerated in full up to", cap);
    c.bound("distance from none and from all beyond that", dev);
    c.bound("message types", ts.len());
    let bad = |c: &mut Check, key: String, what: &str, got: Value, want: Value| c.violation(&key, json!({ "how": what, "got": got, "want": want }));
    for t in ts {
        let all = docs(t, cap, dev);
        for d in &all {
            let key = format!("{}: {d}", t.name);
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            c.outcome("read and written");
            let want = norm(d);
            for (how, f) in [("JSON", Some(t.json)), ("query string", t.form)] {
                let Some(f) = f else { continue };
                match f(d) {
                    Ok(Ok(v)) if same(&v, d) => {}
                    Ok(Ok(v)) => bad(c, key.clone(), how, v, want.clone()),
                    Ok(Err(e)) => bad(c, key.clone(), how, json!({ "error": e }), want.clone()),
                    Err(p) => bad(c, key.clone(), how, json!({ "panic": p }), want.clone()),
                }
            }
        }
        // the full message, and variations of it
        let mut full = t.base.as_object().cloned().unwrap_or_default();
        for (k, vs) in &t.opts {
            full.insert((*k).into(), vs.last().unwrap().clone());
        }
        let full = Value::Object(full);
        let mut at = vec![];
        places(&full, "", &mut at);
        for p in &at {
            let old = full.pointer(p).unwrap().clone();
            // texts
            if old.is_string() && free_text(p) {
                for x in TEXTS {
                    let mut d = full.clone();
                    *d.pointer_mut(p).unwrap() = json!(x);
                    let key = format!("{}: {p} = {x:?}", t.name);
                    if !c.case(&key) {
                        continue;
                    }
                    c.distinct(&key);
                    c.outcome("text kept");
                    for (how, f) in [("JSON", Some(t.json)), ("query string", t.form)] {
                        let Some(f) = f else { continue };
                        match f(&d) {
                            Ok(Ok(v)) if same(&v, &d) => {}
                            o => bad(c, key.clone(), how, json!(o), norm(&d)),
                        }
                    }
                }
            }
            // numbers: the usual ones are kept, others kept or refused
            if old.is_number() {
                for (x, must) in [(0i64, true), (1, true), (127, true), (128, true), (255, true), (256, true), (65_535, true), (65_536, true), (i64::from(i32::MAX), true), (-1, false), (i64::from(i32::MAX) + 1, false), (i64::from(u32::MAX) + 1, false), (i64::MAX, false), (i64::MIN, false)] {
                    let mut d = full.clone();
                    *d.pointer_mut(p).unwrap() = json!(x);
                    let key = format!("{}: {p} = {x}", t.name);
                    if !c.case(&key) {
                        continue;
                    }
                    c.distinct(&key);
                    c.outcome("number kept");
                    for (how, f) in [("JSON", Some(t.json)), ("query string", t.form)] {
                        let Some(f) = f else { continue };
                        match f(&d) {
                            Ok(Ok(v)) if same(&v, &d) => {}
                            Ok(Err(_)) if !must => {}
                            o => bad(c, key.clone(), how, json!(o), norm(&d)),
                        }
                    }
                }
            }
            // other kinds, and nothing
            for k in 0..8 {
                let mut d = full.clone();
                if k == 7 {
                    let (up, last) = p.rsplit_once('/').unwrap();
                    let Some(o) = d.pointer_mut(up).and_then(Value::as_object_mut) else { continue };
                    o.remove(&last.replace("~1", "/").replace("~0", "~"));
                } else {
                    *d.pointer_mut(p).unwrap() = match k {
                        0 => Value::Null,
                        1 => json!(true),
                        2 => json!(7),
                        3 => json!("zzz"),
                        4 => json!([]),
                        5 => json!({}),
                        _ => json!([{ "a": [null] }]),
                    };
                }
                if d == full {
                    continue;
                }
                let key = format!("{}: {p} kind {k}", t.name);
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                let member = p.split('/').nth(1).unwrap_or_default().replace("~1", "/").replace("~0", "~");
                for (how, f) in [("JSON", Some(t.json)), ("query string", t.form)] {
                    let Some(f) = f else { continue };
                    match f(&d) {
                        Err(p) => bad(c, key.clone(), how, json!({ "panic": p }), Value::Null),
                        Ok(Err(e)) if k == 7 && supplied(t.name, p) => bad(c, key.clone(), how, json!({ "error": e }), norm(&d)),
                        Ok(Err(_)) => c.outcome("refused"),
                        Ok(Ok(v)) => {
                            c.outcome("taken");
                            // nothing is read that was not written: every
                            // other member is as it was
                            let (v, d) = (norm(&v), norm(&d));
                            for (k, x) in v.as_object().unwrap_or(&Map::new()) {
                                if *k != member && d.get(k).is_some_and(|y| y != x) {
                                    bad(c, key.clone(), how, json!({ k: x }), d.clone());
                                }
                            }
                            for (k, x) in d.as_object().unwrap_or(&Map::new()) {
                                if *k != member && v.get(k).is_none() && !together(k, &member) {
                                    bad(c, key.clone(), how, json!({ "lost": k }), x.clone());
                                }
                            }
                        }
                    }
                }
            }
        }
        if !t.closed {
            for x in [json!({ "unknown": 1 }), json!({ "x-a": { "b": [1, null] }, "zz": "s" })] {
                let key = format!("{}: with {x}", t.name);
                if !c.case(&key) {
                    continue;
                }
                match (t.json)(&merge(&full, &x)) {
                    Ok(Ok(v)) if same(&v, &full) => c.outcome("unknown members ignored"),
                    o => bad(c, key, "JSON", json!(o), norm(&full)),
                }
            }
        }
        c.sample(json!({ "type": t.name, "sets": all.len() }));
    }
}

pub fn c12() -> ! {
    let mut c = Check::new("C12", "exploration");
    c.rule("every message type x every set of its members (all sets, or all within the distance of none and of all) through the real types, as JSON and where it travels so as a query string; every text in every place; every place of the full message of another JSON kind, removed, or accompanied by unknown members; bare request objects of every text");
    let (cap, dev) = (c.pick(4000, 20000), c.pick(2, 3));
    run(&mut c, &types(), cap, dev);
    // a claim that is described itself and has nested claims
    for (n, m) in [("mandatory", json!(true)), ("value_type", json!("number")), ("display", json!([{ "name": "A" }]))] {
        let d = json!({ "type": ["T"], "credentialSubject": { "address": { n: m, "street": {} } } });
        let key = "a claim with nested claims keeps its own description".to_string();
        if c.case(&format!("{key}: {n}")) {
            let o = as_json::<iss::CredentialDefinition>(&d);
            // to refuse it would not change its meaning
            c.expect(match &o { Ok(Ok(v)) => same(v, &d), Ok(Err(_)) => true, Err(_) => false }, &key, || json!(o));
            c.outcome("described and nested claim");
        }
    }
    // a request object as a bare JWT, of every text
    let mut words = mc::gen::words_upto(6, 3).into_iter().map(|w| w.iter().map(|i| ["a", ".", " ", "\n", "{", "\""][*i]).collect::<String>()).collect::<Vec<_>>();
    words.extend(["a.b.c", "eyJhbGciOiJFZERTQSJ9.eyJhIjoiw6kifQ.AA", "{\"jwt\":\"a\"}", "{\"request_object\":{}}", "null", "é.ß.日"].map(String::from));
    words.extend([100, 1000, 70000].map(|n| format!("{}.{}.c", "a".repeat(n), "b".repeat(n))));
    for w in words {
        let key = format!("bare JWT {:?}", w.chars().take(60).collect::<String>());
        if c.case(&key) {
            for j in [json!(w), json!({ "jwt": w })] {
                let o = as_json::<ver::RequestObjectResponse>(&j);
                c.expect(o == Ok(Ok(json!(w))), &key, || json!(o));
            }
            c.outcome("bare JWT kept");
        }
    }
    c.finish()
}
