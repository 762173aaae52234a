//! C42: creation and retrieval of presentation requests.
use crate::accept::{descriptor, fresh};
use mc::{gen, Check};
use serde_json::{json, Value};
use world::verifier::*;
use world::{load, open_jwt, save, Out};

pub fn c42(c: &mut Check) {
    c.rule("every combination of the members of a creation request, each followed by every retrieval (right and wrong client, id) and by further requests, against what the members say; and near misses of every id");
    c.assume("random identifiers do not collide (their generation is C03)");
    let mut custom = descriptor("c", "Custom");
    custom["name"] = json!("N");
    custom["purpose"] = json!("descriptor purpose");
    custom["format"] = json!({ "jwt_vc_json": { "alg": ["EdDSA"] } });
    let descs = [
        json!([descriptor("emp", "EmployeeID")]),
        json!([]),
        json!([descriptor("emp", "EmployeeID"), descriptor("dev", "Developer")]),
        json!([custom.clone()]),
        json!([custom, descriptor("a", "A"), descriptor("b", "B")]),
        json!([descriptor("emp", "EmployeeID"), descriptor("emp", "Developer"), descriptor("emp", "EmployeeID")]),
    ];
    let clients = [Some(VERIFIER_ID), Some(OTHER_VERIFIER), Some("http://unknown.example"), Some(""), None];
    let flows = [Some("CrossDevice"), Some("SameDevice"), None];
    let purposes = [Some("To verify employment"), Some(""), None, Some("quo\"te & more")];
    let schemes = [Some("redirect_uri"), Some("did"), None];
    let dims = [clients.len(), descs.len(), flows.len(), purposes.len(), schemes.len()];
    load(&fresh());
    let base = save();
    let repeat = c.pick(2, 6);
    c.bound("requests per combination", repeat);
    for d in gen::product(&dims) {
        let key = format!("create/{d:?}");
        if !c.case(&key) {
            continue;
        }
        load(&base);
        let mut b = json!({ "input_descriptors": descs[d[1]] });
        for (k, v) in [("client_id", clients[d[0]]), ("device_flow", flows[d[2]]), ("purpose", purposes[d[3]]), ("client_id_scheme", schemes[d[4]])] {
            if let Some(v) = v {
                b[k] = json!(v);
            }
        }
        c.distinct(&b.to_string());
        let want = d[0] < 2 && d[1] != 1;
        let mut seen: Vec<String> = vec![];
        let mut made = vec![];
        for i in 0..repeat {
            let out = go("create", "create_request", b.clone());
            let r = match out {
                Err(p) => {
                    c.violation(&key, json!({ "panic": p, "request": b }));
                    break;
                }
                Ok(o) => {
                    c.outcome(&o.code());
                    if o.is_ok() != want {
                        c.violation(&key, json!({ "created": o.is_ok(), "expected": want, "got": o.json(), "request": b }));
                        break;
                    }
                    if !want && o.code() != "invalid_request" {
                        c.violation(&key, json!({ "got": o.json(), "request": b }));
                    }
                    match o.ok() {
                        Some(v) => v.clone(),
                        None => break,
                    }
                }
            };
            let client = clients[d[0]].unwrap();
            let cross = d[2] != 1;
            let mut bad = vec![];
            let obj: Value = if cross {
                let uri = r["request_uri"].as_str().unwrap_or_default().to_string();
                let id = uri.strip_prefix(&format!("{client}/request/")).unwrap_or_default().to_string();
                if id.is_empty() || !r["request_object"].is_null() {
                    bad.push("request_uri");
                }
                // the object can be fetched, as often as wanted
                let mut first: Option<Value> = None;
                for _ in 0..2 {
                    match go("fetch", "request_object", json!({ "client_id": client, "id": id })) {
                        Ok(Out::Ok(Value::String(t))) => match open_jwt(&t, &verifier_key(client).pk) {
                            Some((h, o)) => {
                                if h["typ"] != "oauth-authz-req+jwt" || h["kid"] != json!(verifier_key(client).vm) {
                                    bad.push("header of the request object");
                                }
                                if first.as_ref().is_some_and(|f| *f != o) {
                                    bad.push("the object changed between fetches");
                                }
                                first = Some(o);
                            }
                            None => bad.push("the object is not signed by the verifier"),
                        },
                        o => {
                            c.violation(&key, json!({ "fetch": format!("{o:?}"), "request": b }));
                        }
                    }
                }
                let strangers = [OTHER_VERIFIER, VERIFIER_ID, "http://unknown.example", "", "http://localhost:8080/post"];
                for (cl, i) in strangers.iter().filter(|s| **s != client).map(|s| (*s, id.as_str())).chain([(client, "unknown"), (client, "")]) {
                    match go("stranger", "request_object", json!({ "client_id": cl, "id": i })) {
                        Ok(Out::Err(_)) => {}
                        o => c.violation(&key, json!({ "fetched by": cl, "id": i, "got": format!("{o:?}") })),
                    }
                }
                let o = first.unwrap_or_default();
                if o["state"] != json!(id) {
                    bad.push("state");
                }
                o
            } else {
                if !r["request_uri"].is_null() {
                    bad.push("request_uri in the same-device flow");
                }
                r["request_object"].clone()
            };
            let pd = &obj["presentation_definition"];
            if obj["response_type"] != "vp_token" {
                bad.push("response_type");
            }
            if obj["client_id"] != json!(format!("{client}/{}", if cross { "post" } else { "callback" })) {
                bad.push("client_id");
            }
            if cross && (obj["response_mode"] != "direct_post" || obj["response_uri"] != obj["client_id"]) {
                bad.push("response mode");
            }
            if !cross && (!obj["response_mode"].is_null() || !obj["response_uri"].is_null()) {
                bad.push("response mode in the same-device flow");
            }
            if !obj["redirect_uri"].is_null() {
                bad.push("redirect_uri together with response_uri");
            }
            if obj["client_id_scheme"] != "redirect_uri" {
                bad.push("client_id_scheme");
            }
            if pd["input_descriptors"] != descs[d[1]] {
                bad.push("input descriptors");
            }
            if pd["purpose"] != json!(purposes[d[3]].unwrap_or_default()) {
                bad.push("purpose");
            }
            let meta = serde_json::to_value(world::with(|w| w.vcfg.verifiers[client].clone())).unwrap();
            if obj["client_metadata"] != meta {
                bad.push("client metadata");
            }
            for (n, v) in [("nonce", &obj["nonce"]), ("state", &obj["state"]), ("definition id", &pd["id"])] {
                match v.as_str() {
                    Some(s) if s.len() >= 20 && !seen.contains(&s.to_string()) => seen.push(s.into()),
                    _ => bad.push(n),
                }
            }
            for what in bad {
                c.violation(&key, json!({ "wrong": what, "request": b, "object": obj }));
            }
            made.push(obj);
            if i == 0 {
                c.sample(json!({ "request": b, "object": made[0]["presentation_definition"]["id"] }));
            }
        }
    }
    // many descriptors, many fields, long texts: all are in the request object
    for n in (1..=c.pick(24, 70)).chain([100]) {
        for flow in ["CrossDevice", "SameDevice"] {
            let key = format!("size {n} {flow}");
            if !c.case(&key) {
                continue;
            }
            load(&base);
            let field = |i: usize| json!({ "path": (0..=i % 4).map(|k| format!("$.p{k}")).collect::<Vec<_>>(), "filter": { "type": "string", "const": "x".repeat(i) }, "optional": i % 2 == 0 });
            let ds: Vec<Value> = (0..n).map(|i| json!({ "id": format!("d{i}"), "name": "n".repeat(i), "constraints": { "fields": (0..n - i).map(field).collect::<Vec<_>>() } })).collect();
            let b = json!({ "client_id": VERIFIER_ID, "purpose": "p".repeat(n * n), "device_flow": flow, "input_descriptors": ds });
            let obj = match go("create", "create_request", b) {
                Ok(Out::Ok(r)) if flow == "SameDevice" => r["request_object"].clone(),
                Ok(Out::Ok(r)) => {
                    let id = r["request_uri"].as_str().unwrap_or_default().rsplit('/').next().unwrap_or_default().to_string();
                    match go("fetch", "request_object", json!({ "client_id": VERIFIER_ID, "id": id })) {
                        Ok(Out::Ok(Value::String(t))) => open_jwt(&t, &verifier_key(VERIFIER_ID).pk).map(|x| x.1).unwrap_or_default(),
                        _ => Value::Null,
                    }
                }
                _ => Value::Null,
            };
            let pd = &obj["presentation_definition"];
            c.expect(pd["input_descriptors"] == json!(ds) && pd["purpose"] == json!("p".repeat(n * n)), &key, || json!({ "object": obj }));
        }
    }
    // whatever the texts of the purpose and the descriptors are, the request
    // object has them unchanged
    let mut d = descriptor("emp", "EmployeeID");
    d["name"] = json!("A name");
    d["purpose"] = json!("A purpose");
    d["format"] = json!({ "jwt_vc_json": { "alg": ["EdDSA"] } });
    d["constraints"]["fields"][0]["name"] = json!("field");
    d["constraints"]["fields"][0]["purpose"] = json!("why");
    let doc = json!({ "purpose": "To verify", "input_descriptors": [d.clone(), descriptor("other", "Other")] });
    for (at, text) in gen::texts(&doc) {
        let odd = [" padded ", "\ttab\n", "\"quoted\" \\ and & more", "\u{e9}\u{1F600}", "<b>", "null", "A purpose", "emp", "$", "x-unknown"];
        for n in gen::near(&text).into_iter().chain(odd.iter().map(|o| o.to_string())) {
            if at.ends_with("/limit_disclosure") {
                continue;
            }
            for flow in ["CrossDevice", "SameDevice"] {
                let key = format!("text{at}/{n:?}/{flow}");
                if !c.case(&key) {
                    continue;
                }
                c.distinct(&key);
                load(&base);
                let b = gen::put(&doc, &at, json!(n));
                let mut r = b.clone();
                r["client_id"] = json!(VERIFIER_ID);
                r["device_flow"] = json!(flow);
                let obj = match go("text", "create_request", r) {
                    Ok(Out::Ok(r)) if flow == "SameDevice" => r["request_object"].clone(),
                    Ok(Out::Ok(r)) => {
                        let id = r["request_uri"].as_str().unwrap_or_default().rsplit('/').next().unwrap_or_default().to_string();
                        match go("fetch", "request_object", json!({ "client_id": VERIFIER_ID, "id": id })) {
                            Ok(Out::Ok(Value::String(t))) => open_jwt(&t, &verifier_key(VERIFIER_ID).pk).map(|x| x.1).unwrap_or_default(),
                            _ => Value::Null,
                        }
                    }
                    // what cannot be evaluated may be refused at once
                    Ok(_) if at.contains("/path/") || at.contains("/filter/") => continue,
                    _ => Value::Null,
                };
                let pd = &obj["presentation_definition"];
                c.expect(pd["input_descriptors"] == b["input_descriptors"] && pd["purpose"] == b["purpose"], &key, || json!({ "request": b, "object": obj }));
            }
        }
    }
    for (id, want) in [(VERIFIER_ID, true), (OTHER_VERIFIER, true), ("http://unknown.example", false), ("", false)] {
        let key = format!("metadata/{id}");
        if c.case(&key) {
            load(&base);
            let out = go("meta", "metadata", json!({ "client_id": id }));
            let good = match &out {
                Ok(Out::Ok(v)) => want && *v == serde_json::to_value(world::with(|w| w.vcfg.verifiers[id].clone())).unwrap(),
                Ok(Out::Err(_)) => !want,
                _ => false,
            };
            c.expect(good, &key, || json!({ "got": format!("{out:?}") }));
        }
    }
    crate::near::fetch(c);
}
