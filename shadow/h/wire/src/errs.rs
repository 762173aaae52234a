//! C13: what an error says reaches the other side.
use mc::Check;
use serde_json::{json, Value};
use vercre_openid::Error;
use vercre_status::bitstring;

use crate::msgs::TEXTS;

type Make = fn(String) -> Error;
const KINDS: [(&str, Make); 21] = [
    ("invalid_request", Error::InvalidRequest),
    ("invalid_client", Error::InvalidClient),
    ("invalid_grant", Error::InvalidGrant),
    ("unauthorized_client", Error::UnauthorizedClient),
    ("unsupported_grant_type", Error::UnsupportedGrantType),
    ("invalid_scope", Error::InvalidScope),
    ("invalid_authorization_details", Error::InvalidAuthorizationDetails),
    ("access_denied", Error::AccessDenied),
    ("unsupported_response_type", Error::UnsupportedResponseType),
    ("server_error", Error::ServerError),
    ("temporarily_unavailable", Error::TemporarilyUnavailable),
    ("invalid_credential_request", Error::InvalidCredentialRequest),
    ("unsupported_credential_type", Error::UnsupportedCredentialType),
    ("unsupported_credential_format", Error::UnsupportedFormat),
    ("invalid_encryption_parameters", Error::InvalidEncryptionParameters),
    ("invalid_transaction_id", Error::InvalidTransactionId),
    ("vp_formats_not_supported", Error::VpFormatsNotSupported),
    ("invalid_presentation_definition_uri", Error::InvalidPresentationDefinitionUri),
    ("invalid_presentation_definition_reference", Error::InvalidPresentationDefinitionReference),
    ("wallet_unavailable", Error::WalletUnavailable),
    ("invalid_proof", |s| Error::InvalidProof { hint: s, c_nonce: "n\"\\&=é".into(), c_nonce_expires_in: 600 }),
];

/// All members of a query string, decoded by the book.
fn members(qs: &str) -> Option<Vec<(String, String)>> {
    let dec = |s: &str| -> Option<String> {
        let mut out = vec![];
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'%' => {
                    out.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
                    i += 3;
                }
                b'+' => {
                    out.push(b' ');
                    i += 1;
                }
                c => {
                    out.push(c);
                    i += 1;
                }
            }
        }
        String::from_utf8(out).ok()
    };
    qs.split('&').map(|p| p.split_once('=').and_then(|(k, v)| Some((dec(k)?, dec(v)?)))).collect()
}
/// An empty description says as much as none.
fn bare(mut v: Value) -> Value {
    if v.get("error_description").is_some_and(|d| d == "") {
        v.as_object_mut().unwrap().remove("error_description");
    }
    v
}

pub fn c13() -> ! {
    let mut c = Check::new("C13", "exploration");
    c.rule("every kind of OpenID error and of status list error x every text (quotes, controls, separators, every ASCII character, pairs of special characters) and every number at the edges, through every way an error is rendered, read by an independent reader");
    let mut texts: Vec<String> = TEXTS.iter().map(|s| s.to_string()).collect();
    texts.extend((0u8..128).map(|b| format!("a{}b", b as char)));
    let special = ["\"", "\\", "}", "{", ",", "&", "=", "%", "\n", "{}", "{0}", "\u{7f}", "\u{2028}", "é", "\r", "\t", " ", "/", "<", "'", "+"];
    for a in special {
        for b in special {
            texts.push(format!("{a}{b}"));
        }
    }
    if c.thorough() {
        for a in special {
            for b in special {
                for d in special {
                    texts.push(format!("{a}{b}{d}"));
                }
            }
        }
    }
    texts.push("x".repeat(10_000));
    texts.push("\", \"error\": \"access_denied".into());
    c.bound("texts", texts.len());
    let check = |c: &mut Check, key: String, want: Value, make: &dyn Fn() -> Error| {
        if !c.case(&key) {
            return;
        }
        c.distinct(&key);
        c.outcome(want["error"].as_str().unwrap_or_default());
        let got = mc::guard(|| {
            (
                serde_json::from_str::<Value>(&make().to_string()).ok(),
                make().to_json(),
                serde_json::to_value(make()).ok(),
                members(&make().to_querystring()),
            )
        });
        let Ok((shown, js, ser, qs)) = got else {
            c.violation(&key, json!({ "panic": got.err() }));
            return;
        };
        let want = bare(want);
        for (how, v) in [("text", shown), ("to_json", Some(js)), ("serde", ser)] {
            let v = v.map(bare);
            c.expect(v.as_ref() == Some(&want), &key, || json!({ "how": how, "got": v, "want": want }));
        }
        // in a query string: code and description as they are; whether the
        // other members travel there is left open, but they are not changed
        let ok = qs.as_ref().is_some_and(|qs| {
            let text = |v: &Value| v.as_str().map_or_else(|| v.to_string(), String::from);
            let mut seen = std::collections::BTreeSet::new();
            qs.iter().all(|(k, v)| seen.insert(k.clone()) && (want.get(k).is_some_and(|w| text(w) == *v) || (k == "error_description" && v.is_empty())))
                && ["error", "error_description"].iter().all(|k| want.get(*k).is_none() || seen.contains(*k))
        });
        c.expect(ok, &key, || json!({ "how": "query string", "got": qs, "want": want }));
    };
    for (code, make) in KINDS {
        for t in &texts {
            let mut want = json!({ "error": code, "error_description": t });
            if code == "invalid_proof" {
                want["c_nonce"] = json!("n\"\\&=é");
                want["c_nonce_expires_in"] = json!(600);
            }
            check(&mut c, format!("{code}: {t:?}"), want, &|| make(t.clone()));
        }
    }
    for n in [0, 1, -1, 5, 600, i64::MAX, i64::MIN, i64::from(i32::MAX) + 1] {
        check(&mut c, format!("issuance_pending {n}"), json!({ "error": "issuance_pending", "interval": n }), &|| Error::IssuancePending(n));
        for t in &texts {
            check(
                &mut c,
                format!("invalid_proof {n} {t:?}"),
                json!({ "error": "invalid_proof", "error_description": "h", "c_nonce": t, "c_nonce_expires_in": n }),
                &|| Error::InvalidProof { hint: "h".into(), c_nonce: t.clone(), c_nonce_expires_in: n },
            );
        }
    }
    let kinds: [(i64, fn(String) -> bitstring::Error); 4] =
        [(-128, bitstring::Error::Retrieval), (-129, bitstring::Error::Verification), (-130, bitstring::Error::ListLength), (-67, bitstring::Error::Range)];
    for (code, make) in kinds {
        for t in &texts {
            let key = format!("status {code}: {t:?}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            c.outcome("status list error");
            let got = mc::guard(|| {
                [serde_json::from_str::<Value>(&make(t.clone()).to_string()).ok(), Some(make(t.clone()).to_json()), serde_json::to_value(make(t.clone())).ok()]
            });
            let ok = got.as_ref().is_ok_and(|g| {
                g.iter().all(|v| {
                    v.as_ref().is_some_and(|v| v["code"] == code && v["detail"] == **t && v["type"] == format!("https://www.w3.org/ns/credentials/status-list#{code}") && v["title"].is_string() && v.as_object().unwrap().len() == 4)
                })
            });
            c.expect(ok, &key, || json!({ "got": got }));
        }
    }
    c.finish()
}
