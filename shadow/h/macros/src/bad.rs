use mc::Check;
use serde_json::json;

use crate::cases::PRELUDE;

const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

/// Valid member lists, to be damaged.
fn bases() -> Vec<(&'static str, Vec<(&'static str, String)>, Vec<&'static str>)> {
    let s = |x: &str| format!("{x:?}");
    let details = "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\"}]".to_string();
    let proof = "{\"proof_type\": \"jwt\", \"jwt\": \"j\"}".to_string();
    vec![
        ("create_offer_request", vec![("credential_issuer", s("i")), ("credential_configuration_ids", "[\"a\"]".into()), ("subject_id", s("s")), ("grant_types", format!("[{PRE:?}]")), ("tx_code_required", "true".into()), ("send_type", "vercre_issuer::SendType::ByVal".into())], vec!["credential_issuer", "credential_configuration_ids"]),
        ("authorization_request", vec![("credential_issuer", s("i")), ("response_type", s("code")), ("client_id", s("c")), ("redirect_uri", s("r")), ("state", s("s")), ("code_challenge", s("x")), ("code_challenge_method", s("S256")), ("authorization_details", details.clone()), ("subject_id", s("u")), ("scope", s("x")), ("issuer_state", s("x"))], vec!["credential_issuer", "response_type", "client_id", "code_challenge", "code_challenge_method", "subject_id"]),
        ("token_request", vec![("credential_issuer", s("i")), ("client_id", s("c")), ("grant_type", s(PRE)), ("pre-authorized_code", s("p")), ("tx_code", s("t"))], vec!["credential_issuer", "grant_type", "pre-authorized_code"]),
        ("token_request", vec![("credential_issuer", s("i")), ("client_id", s("c")), ("grant_type", s("authorization_code")), ("code", s("p")), ("redirect_uri", s("r")), ("code_verifier", s("v")), ("authorization_details", details)], vec!["credential_issuer", "grant_type", "code", "code_verifier"]),
        ("credential_request", vec![("credential_issuer", s("i")), ("access_token", s("a")), ("credential_identifier", s("c")), ("proof", proof.clone())], vec!["credential_issuer", "access_token", "credential_identifier"]),
        ("credential_request", vec![("credential_issuer", s("i")), ("access_token", s("a")), ("format", s("jwt_vc_json")), ("credential_definition", "{\"type\": [\"A\"]}".into()), ("proof", proof)], vec!["credential_issuer", "access_token", "format", "credential_definition"]),
    ]
}
fn call(name: &str, m: &[(&str, String)]) -> String {
    format!("{name}!({{{}}})", m.iter().map(|(k, v)| format!("{k:?}: {v}")).collect::<Vec<_>>().join(", "))
}
fn with(m: &[(&'static str, String)], k: &'static str, v: &str) -> Vec<(&'static str, String)> {
    let mut m: Vec<_> = m.iter().filter(|x| x.0 != k).cloned().collect();
    m.push((k, v.into()));
    m
}

/// Member names and enumerated words replaced by what is easily taken for
/// them, at the top and in nested objects; and enumerated words that are no
/// literals.
fn near(bad: &mut Vec<(String, String)>) {
    let detail = "\"type\": \"openid_credential\", \"locations\": [\"l\"]";
    let def = "{\"@context\": [\"c\"], \"type\": [\"A\"], \"credentialSubject\": {\"a\": {}}}";
    let details = format!("[{{{detail}, \"credential_configuration_id\": \"id\", \"credential_definition\": {def}}}, {{{detail}, \"format\": \"jwt_vc_json\", \"credential_definition\": {def}}}]");
    let words: [(&str, &[&str]); 9] = [
        ("response_type", &["code", "vp_token", "id_token vp_token"]),
        ("code_challenge_method", &["S256"]),
        ("grant_type", &["authorization_code", PRE]),
        ("grant_types", &["authorization_code", PRE]),
        ("send_type", &["by_val", "ByVal", "by_ref", "ByRef"]),
        ("format", &["jwt_vc_json"]),
        ("type", &["openid_credential"]),
        ("proof_type", &["jwt"]),
        ("", &[]),
    ];
    for (b, (name, mut m, _)) in bases().into_iter().enumerate() {
        for (k, v) in &mut m {
            match *k {
                "authorization_details" => *v = details.clone(),
                "credential_definition" => *v = def.into(),
                "send_type" => *v = "\"by_ref\"".into(),
                _ => {}
            }
        }
        let whole = call(name, &m);
        // the syntax damaged at every place: between members and items, around
        // names and values
        for (i, w) in whole.match_indices([',', ':', '[', '{', ']', '}']) {
            if whole[..i].matches('"').count() % 2 == 1 || whole[i..].starts_with("::") || whole[..i].ends_with(':') {
                continue;
            }
            let put = |x: &str| format!("{}{x}{}", &whole[..i], &whole[i + 1..]);
            let swaps: &[&str] = match w {
                "," => &["", ";", ",,", ":", "=>", ", -", ", !", ", *", ", #", ", null", ", null,", ", ..", "|"],
                ":" => &["", ",", "=", "::", "=>", ":-", ": -", ": !", ": *", ": ?", ": null", ": null,", ": ..", ": #"],
                "[" => &["[,", "[;", "[-", "[!", "[*", "[null ", "[..", "[\"x\" "],
                "{" => &["{,", "{;", "{-", "{null,", "{..", "{\"x\",", "{\"x\":,"],
                "]" => &[" \"x\"]", " null]", ";]", ",,]", " 5]", " ..]", "..]", ", ..]", " {}]", " []]", "; 2]", " -]"],
                _ => &[" \"x\"}", ", \"x\"}", ", \"x\":}", " null}", ";}", ",,}", " 5}", ", ..}", " {}}", " []}", " -}"],
            };
            for x in swaps {
                bad.push((format!("{b}@{i} {w} -> {x}"), put(x)));
            }
        }
        // every quoted text that is followed by a colon is a member name
        let mut at = 0;
        while let Some(i) = whole[at..].find('"').map(|i| at + i) {
            let j = i + 1 + whole[i + 1..].find('"').unwrap();
            let text = &whole[i + 1..j];
            let put = |x: &str| format!("{}{x}{}", &whole[..i], &whole[j + 1..]);
            if whole[j + 1..].starts_with(':') {
                at = j + 1;
                if text == "a" {
                    continue; // claims have any name
                }
                // the object it is in: the last one that is still open
                let mut depth = 0;
                let open = whole[..i].char_indices().rev().find(|(_, ch)| {
                    depth += match ch {
                        '{' => 1,
                        '}' => -1,
                        _ => 0,
                    };
                    depth == 1
                });
                let outer = whole[..open.map_or(0, |o| o.0)].trim_end_matches(['[', ' ', ':']);
                let allowed: &[&str] = if outer.ends_with("!(") {
                    &MEMBERS
                } else if outer.ends_with("\"credential_definition\"") {
                    &["@context", "type", "credentialSubject"]
                } else if outer.ends_with("\"proof\"") {
                    &["proof_type", "jwt"]
                } else {
                    &["type", "locations", "credential_configuration_id", "format", "credential_definition"]
                };
                let others = ["$schema", "_x", "x-y", "#", "//", "@type", "@id", "comment", "id", "claims", "doctype", "vct", "order", "cwt", "credential_identifiers", "name", "proofs"];
                for n in mc::gen::near(text).into_iter().chain(others.map(String::from)).chain(MEMBERS.map(String::from)) {
                    // which other members a member's place may take is not at issue
                    if n == text || allowed.contains(&n.as_str()) {
                        continue;
                    }
                    // once instead of the member, once beside it
                    bad.push((format!("{b}@{i} {text} -> {n:?}"), put(&format!("{n:?}"))));
                    bad.push((format!("{b}@{i} {n:?} beside {text}"), put(&format!("{n:?}: \"x\", {text:?}"))));
                    bad.push((format!("{b}@{i} {n:?} {{}} beside {text}"), put(&format!("{n:?}: {{}}, {text:?}"))));
                }
                continue;
            }
            at = j + 1;
            for x in ["null", "nil", "undefined", "-5", "- 5", "-\"x\"", "!true", "5.5", "'x'", "b\"x\"", "()", "\"a\" \"b\"", "\"a\" + \"b\""] {
                bad.push((format!("{b}@{i} {text} -> {x}"), put(x)));
            }
            let member = whole[..i].trim_end_matches(['[', ' ', ':', '"']).rsplit('"').next().unwrap_or_default();
            let Some((_, valid)) = words.iter().find(|w| w.0 == member && w.1.contains(&text)) else { continue };
            for n in mc::gen::near(text) {
                if !valid.contains(&n.as_str()) {
                    bad.push((format!("{b}@{i} {member} = {n:?}"), put(&format!("{n:?}"))));
                }
            }
            // what decides the kind of the request has to be written out, or
            // else be right
            if ["grant_type", "grant_types", "format", "type", "proof_type"].contains(&member) {
                for n in ["", "other", "implicit"] {
                    for how in ["W", "W.to_string()", "String::from(W)"] {
                        bad.push((format!("{b}@{i} {member} = {how} of {n:?}"), format!("{{ const W: &str = {n:?}; {} }}", put(how))));
                    }
                }
            }
        }
    }
}
const MEMBERS: [&str; 38] = [
    "credential_issuer", "credential_configuration_ids", "subject_id", "grant_types", "tx_code_required", "send_type", "response_type", "client_id", "redirect_uri", "state",
    "code_challenge", "code_challenge_method", "authorization_details", "scope", "issuer_state", "resource", "wallet_issuer", "user_hint", "grant_type", "pre-authorized_code", "tx_code",
    "code", "code_verifier", "access_token", "credential_identifier", "proof", "format", "credential_definition", "type", "locations", "credential_configuration_id", "@context",
    "credentialSubject", "proof_type", "jwt", "credential_response_encryption", "client_assertion", "client_assertion_type",
];

pub fn run() {
    let mut c = Check::new("C11", "exploration");
    c.rule("each macro with each required member removed, each unknown member added, each member of another request or grant added, and each structurally or semantically invalid value (unsupported grant type, format, detail type, proof type; wrong JSON kind; empty lists; missing nested members), each syntax error between members, before and after the object, singly and in pairs, the syntax damaged at every place, every member name and every enumerated word replaced by each text easily taken for it, at the top and nested: the compiler must report an error at every invocation; the undamaged invocations compile; distinct: distinct invocations");
    let mut bad: Vec<(String, String)> = vec![];
    let mut good: Vec<String> = vec![];
    for (b, (name, m, required)) in bases().into_iter().enumerate() {
        good.push(call(name, &m));
        good.push(call(name, &m.iter().filter(|x| required.contains(&x.0)).cloned().collect::<Vec<_>>()));
        for r in &required {
            let less: Vec<_> = m.iter().filter(|x| x.0 != *r).cloned().collect();
            bad.push((format!("{b} missing {r}"), call(name, &less)));
            let least: Vec<_> = m.iter().filter(|x| x.0 != *r && required.contains(&x.0)).cloned().collect();
            bad.push((format!("{b} missing {r}, no optional members"), call(name, &least)));
        }
        let known: Vec<&str> = m.iter().map(|x| x.0).collect();
        for k in ["unknown", "", "credentialIssuer", "Client_id", "client_secret", "tx_code", "code", "pre-authorized_code", "code_verifier", "access_token", "format", "credential_definition", "credential_identifier", "grant_types", "proofs", "nonce", "send_type", "scope", "response_type"] {
            let applicable = known.contains(&k)
                || (name == "authorization_request" && k == "scope")
                // a second way to say the same thing is still an extra member
                || (name == "credential_request" && k == "credential_definition" && known.contains(&"format"));
            if !applicable {
                bad.push((format!("{b} extra {k}"), call(name, &with(&m, k, "\"x\""))));
            }
        }
        // each member twice, alike and different
        for (k, v) in &m {
            let mut x = m.clone();
            x.push((k, v.clone()));
            bad.push((format!("{b} twice {k}"), call(name, &x)));
            if v.starts_with('"') {
                let mut x = m.clone();
                x.insert(0, (k, "\"other\"".into()));
                bad.push((format!("{b} twice {k} differently"), call(name, &x)));
            }
        }
        // a string member of another kind
        for (k, v) in &m {
            if v.starts_with('"') {
                for w in ["5", "true", "[]", "[\"x\"]", "{}", "{\"a\": \"b\"}"] {
                    bad.push((format!("{b} {k} = {w}"), call(name, &with(&m, k, w))));
                }
            }
        }
        // two faults at once
        for r in &required {
            let mut x: Vec<_> = m.iter().filter(|x| x.0 != *r).cloned().collect();
            x.push(("unknown", "\"x\"".into()));
            bad.push((format!("{b} missing {r} extra unknown"), call(name, &x)));
        }
        let mut val = |k: &'static str, vals: &[&str]| {
            for v in vals {
                bad.push((format!("{b} {k} = {v}"), call(name, &with(&m, k, v))));
            }
        };
        match name {
            "create_offer_request" => {
                val("credential_configuration_ids", &["[]", "\"a\"", "{}", "5", "true"]);
                val("credential_configuration_ids", &["[5]", "[\"a\", 5]", "[[\"a\"]]", "[{}]"]);
                val("tx_code_required", &["\"true\"", "5", "[]", "{}"]);
                val("send_type", &["\"\"", "\"byref\"", "\"by_reference\"", "\"BYREF\"", "5", "true", "{}"]);
                val("grant_types", &["[\"implicit\"]", "[\"\"]", &format!("[{PRE:?}, \"password\"]"), "\"authorization_code\"", "[5]", "{}", "[\"Authorization_Code\"]"]);
            }
            "authorization_request" => {
                val("response_type", &["\"\"", "\"token\"", "\"Code\"", "\"code \"", "5", "true", "[\"code\"]", "{}"]);
                val("code_challenge_method", &["\"\"", "\"plain\"", "\"s256\"", "\"S512\"", "5", "[\"S256\"]", "{}"]);
            }
            "token_request" => val("grant_type", &["\"\"", "\"implicit\"", "\"refresh_token\"", "5", "[\"authorization_code\"]", "\"Authorization_code\""]),
            _ => {}
        }
        if known.contains(&"authorization_details") {
            val("authorization_details", &[
                "\"x\"", "{}", "5", "[5]", "[\"x\"]", "[{}]", "[{\"credential_configuration_id\": \"id\"}]", "[{\"type\": \"openid_credential\"}]", "[{\"type\": \"other\", \"credential_configuration_id\": \"id\"}]",
                "[{\"type\": \"openid_credential\", \"format\": \"jwt_vc_json\"}]", "[{\"type\": \"openid_credential\", \"format\": \"jwt_vc_json\", \"credential_definition\": {}}]",
                "[{\"type\": \"openid_credential\", \"format\": \"ldp_vc\", \"credential_definition\": {\"type\": [\"A\"]}}]", "[{\"type\": \"openid_credential\", \"format\": \"\", \"credential_definition\": {\"type\": [\"A\"]}}]",
                "[{\"type\": \"openid_credential\", \"format\": \"jwt_vc_json\", \"credential_definition\": \"A\"}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"credential_definition\": [\"A\"]}]",
                "[{\"type\": \"openid_credential\", \"format\": \"jwt_vc_json\", \"credential_definition\": {\"type\": [\"A\"], \"credentialSubject\": \"A\"}}]",
                "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\"}, {\"type\": \"openid_credential\"}]",
                "[{\"type\": 5, \"credential_configuration_id\": \"id\"}]", "[{\"type\": true, \"credential_configuration_id\": \"id\"}]", "[{\"type\": [], \"credential_configuration_id\": \"id\"}]", "[{\"type\": [\"openid_credential\"], \"credential_configuration_id\": \"id\"}]", "[{\"type\": {}, \"credential_configuration_id\": \"id\"}]",
                "[{\"type\": \"\", \"credential_configuration_id\": \"id\"}]", "[{\"type\": \"openid_credentials\", \"credential_configuration_id\": \"id\"}]",
                "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"unknown\": \"x\"}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"format\": \"jwt_vc_json\"}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"Locations\": [\"x\"]}]",
                "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"locations\": \"x\"}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"locations\": [5]}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"locations\": {}}]",
                "[{\"type\": \"openid_credential\", \"credential_configuration_id\": 5}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": [\"id\"]}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": {}}]",
                "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"credential_definition\": {\"types\": [\"A\"]}}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"credential_definition\": {\"type\": \"A\"}}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"credential_definition\": {\"type\": [5]}}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"credential_definition\": {\"@context\": \"c\"}}]",
                "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"credential_definition\": {\"credentialSubject\": {\"given_name\": 5}}}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"credential_definition\": {\"credentialSubject\": {\"given_name\": \"x\"}}}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\", \"credential_definition\": {\"credentialSubject\": {\"a\": {}, \"b\": {\"c\": []}}}}]",
                "[{\"type\": \"openid_credential\", \"format\": \"jwt_vc_json\", \"unknown\": \"x\", \"credential_definition\": {\"type\": [\"A\"]}}]", "[{\"type\": \"openid_credential\", \"format\": \"jwt_vc_json\", \"credential_definition\": {\"type\": [\"A\"], \"unknown\": \"x\"}}]", "[{\"type\": \"openid_credential\", \"format\": 5, \"credential_definition\": {\"type\": [\"A\"]}}]",
                "[{\"type\": \"openid_credential\", \"type\": \"openid_credential\", \"credential_configuration_id\": \"id\"}]", "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"a\", \"credential_configuration_id\": \"b\"}]",
                "[[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\"}]]",
                "[{\"type\": \"openid_credential\", \"credential_configuration_id\": \"id\"}, {\"type\": \"x\", \"credential_configuration_id\": \"id\"}]",
            ]);
        }
        if known.contains(&"proof") {
            val("proof", &["\"x\"", "[]", "5", "{}", "{\"proof_type\": \"jwt\"}", "{\"jwt\": \"j\"}", "{\"proof_type\": \"cwt\", \"jwt\": \"j\"}", "{\"proof_type\": \"\", \"jwt\": \"j\"}", "{\"proof_type\": 5, \"jwt\": \"j\"}", "{\"proof_type\": \"jwt\", \"jwt\": \"j\", \"unknown\": \"x\"}", "{\"proof_type\": \"jwt\", \"jwt\": \"j\", \"cwt\": \"x\"}", "{\"proof_type\": \"jwt\", \"jwt\": 5}", "{\"proof_type\": \"jwt\", \"jwt\": [\"j\"]}", "{\"proof_type\": \"jwt\", \"jwt\": \"j\", \"jwt\": \"k\"}"]);
        }
        if known.contains(&"credential_definition") {
            val("credential_definition", &["{}", "\"A\"", "[\"A\"]", "5", "{\"types\": [\"A\"]}", "{\"type\": [\"A\"], \"credentialSubject\": \"x\"}", "{\"type\": [\"A\"], \"credentialSubject\": [\"x\"]}", "{\"type\": [\"A\"], \"unknown\": \"x\"}", "{\"type\": [\"A\"], \"credential_subject\": {}}", "{\"type\": [\"A\"], \"credentialSubject\": {\"a\": 5}}", "{\"type\": [\"A\"], \"credentialSubject\": {\"a\": true}}", "{\"type\": [\"A\"], \"credentialSubject\": {\"a\": {\"b\": \"x\"}}}", "{\"type\": \"A\"}", "{\"type\": [5]}", "{\"type\": [\"A\"], \"type\": [\"B\"]}", "{\"type\": [\"A\"], \"credentialSubject\": {\"a\": {}, \"a\": {}}}"]);
            val("format", &["\"\"", "\"ldp_vc\"", "\"mso_mdoc\"", "\"JWT_VC_JSON\"", "5", "[\"jwt_vc_json\"]"]);
        }
        // something after the object, or between its members
        let whole = call(name, &m);
        let inner = whole.trim_start_matches(name).trim_start_matches("!(").trim_end_matches(')');
        for tail in [", \"x\"", " \"x\"", ", {}", " {}", ";", ", unknown", " 5", "?", ".clone()", ", {\"unknown\": \"x\"}", ", ,"] {
            bad.push((format!("{b} after the object: {tail}"), format!("{name}!({inner}{tail})")));
        }
        for (from, to) in [(": ", " "), (": ", " = "), (": ", ": : "), (": ", " => "), (", ", " "), (", ", "; "), (", ", ", , ")] {
            bad.push((format!("{b} between members: {to}"), format!("{name}!({})", inner.replacen(from, to, 1))));
        }
        bad.push((format!("{b} before the object"), format!("{name}!(\"x\", {inner})")));
        bad.push((format!("{b} in a list"), format!("{name}!([{inner}])")));
        bad.push((format!("{b} in an object"), format!("{name}!({{{inner}}})")));
        // not an object at all
        for raw in ["", "[]", "\"x\"", "5", "x", "{5: \"x\"}", "{\"a\" \"b\"}", "{\"a\": }", "{\"credential_issuer\": \"i\" \"client_id\": \"c\"}", "{a: \"b\"}"] {
            bad.push((format!("{b} syntax {raw}"), format!("{name}!({raw})")));
        }
    }
    near(&mut bad);
    let mut seen = std::collections::HashSet::new();
    bad.retain(|(_, s)| seen.insert(s.clone()));
    c.bound("invocations", bad.len());
    // expansion errors, one compilation
    let mut src = String::from(PRELUDE);
    let first = src.lines().count() + 1;
    for (i, (_, s)) in bad.iter().enumerate() {
        src.push_str(&format!("fn case_{i}() {{ let _ = {s}; }}\n"));
    }
    src.push_str("fn main() {}\n");
    let comp = crate::compile("gen-bad", &src);
    let mut hit = vec![false; bad.len()];
    for (_, l, msg) in &comp.errors {
        if *l >= first && l - first < bad.len() {
            hit[l - first] = true;
            c.outcome(&msg.chars().take(60).collect::<String>());
        }
    }
    // what expanded without an error has to fail to type-check: compile the
    // remaining ones alone
    loop {
        let rest: Vec<usize> = (0..bad.len()).filter(|i| !hit[*i]).collect();
        if rest.is_empty() {
            break;
        }
        let mut progress = false;
        let mut src = String::from(PRELUDE);
        for i in &rest {
            src.push_str(&format!("fn case_{i}() {{ let _ = {}; }}\n", bad[*i].1));
        }
        src.push_str("fn main() {}\n");
        let comp = crate::compile("gen-bad-types", &src);
        for (_, l, _) in &comp.errors {
            if *l >= first && l - first < rest.len() {
                progress |= !hit[rest[l - first]];
                hit[rest[l - first]] = true;
                c.outcome("type error");
            }
        }
        if !progress {
            break;
        }
    }
    for (i, (k, s)) in bad.iter().enumerate() {
        if c.case(k) {
            c.distinct(s);
            c.sample(json!({"fault": k, "invocation": s, "rejected": hit[i]}));
            c.expect(hit[i], k, || json!({ "accepted": s }));
        }
    }
    // control: the undamaged invocations compile
    let mut src = String::from(PRELUDE);
    for (i, s) in good.iter().enumerate() {
        src.push_str(&format!("fn case_{i}() {{ let _ = {s}; }}\n"));
    }
    src.push_str("fn main() {}\n");
    let comp = crate::compile("gen-good", &src);
    for (_, l, msg) in &comp.errors {
        if *l >= first && l - first < good.len() {
            c.violation(&format!("valid {}", l - first), json!({"rejected": good[l - first], "error": msg}));
        }
    }
    c.outcome("control compiles");
    c.finish()
}
