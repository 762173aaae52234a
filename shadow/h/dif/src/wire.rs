use mc::gen::{self, product};
use mc::{guard, Check};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use vercre_dif_exch::{PresentationDefinition, PresentationSubmission};

fn trip<T: Serialize + DeserializeOwned + PartialEq>(c: &mut Check, key: &str, v: &Value) {
    if !c.case(key) {
        return;
    }
    let r = guard(|| {
        let t: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        let out = serde_json::to_value(&t).map_err(|e| e.to_string())?;
        let text = serde_json::to_string(&t).map_err(|e| e.to_string())?;
        let again: T = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        Ok::<_, String>((out, again == t))
    });
    let ok = matches!(&r, Ok(Ok((out, true))) if out == v);
    c.expect(ok, key, || json!({"input": v, "result": format!("{r:?}")}));
    c.distinct(&v.to_string());
    c.outcome("round trip");
    c.sample(v.clone());
}
fn reject<T: DeserializeOwned>(c: &mut Check, key: &str, v: &Value) {
    if !c.case(key) {
        return;
    }
    let r = guard(|| serde_json::from_value::<T>(v.clone()).is_err());
    c.outcome("rejected");
    c.expect(r == Ok(true), key, || json!({"accepted": v}));
}

pub fn run() {
    let mut c = Check::new("C09", "exploration");
    c.rule("every presence pattern of the optional members of definition, descriptor, field, filter and submission objects with every small arity of their lists, and every text of a full document replaced by each of a menu of contents, is read, written and read again; cut, wrapped and extended submission texts and filters with a criterion the type does not have are refused (or, the latter, kept); every object with one required member missing or a member of the wrong kind is rejected; distinct: distinct documents");
    let s = "a\"&=é";
    let filters = [None, Some(json!({"type": "string", "const": s})), Some(json!({"type": "string", "pattern": "^a$"})), Some(json!({"type": "string", "format": "date"})), Some(json!({"type": "", "const": ""}))];
    // fields: presence of id, filter, predicate, purpose, name, optional, intent
    let mut fields = vec![];
    for w in product(&[2, filters.len(), 2, 2, 2, 3, 3, 3]) {
        let mut m = Map::new();
        m.insert("path".into(), [json!([]), json!(["$.a"]), json!(["$.a", "$['b']"])][w[7]].clone());
        if w[0] == 1 { m.insert("id".into(), json!(s)); }
        if let Some(f) = &filters[w[1]] { m.insert("filter".into(), f.clone()); }
        if w[2] == 1 { m.insert("predicate".into(), json!("required")); }
        if w[3] == 1 { m.insert("purpose".into(), json!("p")); }
        if w[4] == 1 { m.insert("name".into(), json!("n")); }
        if w[5] > 0 { m.insert("optional".into(), json!(w[5] == 1)); }
        if w[6] > 0 { m.insert("intent_to_retain".into(), json!(w[6] == 1)); }
        fields.push(Value::Object(m));
    }
    let wrap = |f: &[Value]| json!({"id": "d", "input_descriptors": [{"id": "i", "constraints": {"fields": f}}]});
    for (i, f) in fields.iter().enumerate() {
        trip::<PresentationDefinition>(&mut c, &format!("field {i}"), &wrap(&[f.clone()]));
    }
    let few: Vec<Value> = fields.iter().step_by(c.pick(23, 11)).cloned().collect();
    for (i, a) in few.iter().enumerate() {
        for (j, b) in few.iter().enumerate() {
            trip::<PresentationDefinition>(&mut c, &format!("fields {i} {j}"), &wrap(&[a.clone(), b.clone()]));
        }
    }
    // definitions and descriptors
    let formats = [None, Some(json!({})), Some(json!({"jwt_vc": {"alg": ["EdDSA", "ES256K"]}})), Some(json!({"ldp_vc": {"proof_type": ["JsonWebSignature2020"]}, "jwt": {"alg": [], "proof_type": []}})), Some(json!({"x": {}}))];
    for w in product(&[2, 2, formats.len(), 4, 2, 2, formats.len(), 3, 3]) {
        let mut d = Map::new();
        d.insert("id".into(), json!(["", s][w[8] % 2]));
        if w[0] == 1 { d.insert("name".into(), json!("n")); }
        if w[1] == 1 { d.insert("purpose".into(), json!("p")); }
        if let Some(f) = &formats[w[2]] { d.insert("format".into(), f.clone()); }
        let mut list = vec![];
        for k in 0..w[3] {
            let mut i = Map::new();
            i.insert("id".into(), json!(format!("i{k}")));
            if w[4] == 1 { i.insert("name".into(), json!("in")); }
            if w[5] == 1 { i.insert("purpose".into(), json!("ip")); }
            if let Some(f) = &formats[w[6]] { i.insert("format".into(), f.clone()); }
            let mut cs = Map::new();
            match w[7] { 1 => drop(cs.insert("fields".into(), json!([]))), 2 => drop(cs.insert("fields".into(), json!([fields[7].clone()]))), _ => {} }
            match w[8] { 1 => drop(cs.insert("limit_disclosure".into(), json!("required"))), 2 => drop(cs.insert("limit_disclosure".into(), json!("preferred"))), _ => {} }
            i.insert("constraints".into(), Value::Object(cs));
            list.push(Value::Object(i));
        }
        d.insert("input_descriptors".into(), json!(list));
        trip::<PresentationDefinition>(&mut c, &format!("definition {w:?}"), &Value::Object(d));
    }
    // sizes
    for n in (0..=60).chain([100, 300]) {
        let f = |i: usize| json!({"path": (0..=i % 7).map(|k| format!("$.p{k}")).collect::<Vec<_>>(), "id": format!("f{i}")});
        let v = json!({"id": "x".repeat(n), "input_descriptors": (0..n).map(|i| json!({"id": format!("i{i}"), "constraints": {"fields": (0..n.min(20)).map(f).collect::<Vec<_>>()}})).collect::<Vec<_>>()});
        trip::<PresentationDefinition>(&mut c, &format!("definition of size {n}"), &v);
        let v = json!({"id": "x".repeat(n), "input_descriptors": [{"id": "i", "format": (0..n).map(|i| (format!("f{i}"), json!({"alg": (0..i % 9).map(|k| format!("a{k}")).collect::<Vec<_>>()}))).collect::<Map<_, _>>(), "constraints": {}}]});
        trip::<PresentationDefinition>(&mut c, &format!("formats of size {n}"), &v);
        let v = json!({"id": "s", "definition_id": "y".repeat(n), "descriptor_map": (0..n).map(|i| json!({"id": format!("i{i}"), "format": "jwt_vc", "path": format!("$[{i}]"), "path_nested": {"format": "jwt_vc", "path": format!("$.verifiableCredential[{i}]")}})).collect::<Vec<_>>()});
        trip::<PresentationSubmission>(&mut c, &format!("submission of size {n}"), &v);
    }
    // submissions
    for n in 0..=4usize {
        for w in mc::gen::words(3, n) {
            let map: Vec<Value> = w.iter().enumerate().map(|(i, k)| json!({"id": format!("i{i}"), "format": (["jwt_vc", "", "ldp_vp"][*k]), "path": (["$", "$[0]", s][*k]), "path_nested": {"format": "jwt_vc", "path": "$.verifiableCredential[0]"}})).collect();
            let v = json!({"id": s, "definition_id": "d", "descriptor_map": map});
            trip::<PresentationSubmission>(&mut c, &format!("submission {w:?}"), &v);
            let key = format!("submission from_str {w:?}");
            if c.case(&key) {
                let r = guard(|| v.to_string().parse::<PresentationSubmission>().ok() == serde_json::from_value(v.clone()).ok());
                c.expect(r == Ok(true), &key, || json!("from_str differs"));
            }
        }
    }
    for t in ["", "{}", "[]", "null", "{", "{\"id\":1}", "a=b"] {
        let key = format!("submission from_str {t:?}");
        if c.case(&key) {
            let r = guard(|| t.parse::<PresentationSubmission>().is_err());
            c.expect(r == Ok(true), &key, || json!("accepted"));
        }
    }
    // every text of a full definition and a full submission, of every content
    let fullest = json!({"id": "d", "name": "n", "purpose": "p", "format": {"jwt_vc": {"alg": ["EdDSA", "ES256K"], "proof_type": ["x", "y"]}}, "input_descriptors": [{"id": "i", "name": "in", "purpose": "ip", "format": {"ldp_vc": {"alg": ["a"], "proof_type": ["t"]}}, "constraints": {"limit_disclosure": "required", "fields": [
        {"path": ["$.a", "$.b"], "id": "f", "purpose": "fp", "name": "fn", "filter": {"type": "string", "const": "c"}, "predicate": "required", "optional": true, "intent_to_retain": false},
        {"path": ["$.a"], "filter": {"type": "array", "pattern": "x"}}, {"path": ["$.a"], "filter": {"type": "", "format": "date"}}]}},
        {"id": "j", "name": "jn", "purpose": "jp", "constraints": {"fields": []}}]});
    let subm = json!({"id": "s", "definition_id": "d", "descriptor_map": [{"id": "i", "format": "f", "path": "$", "path_nested": {"format": "g", "path": "$.x"}}, {"id": "j", "format": "f", "path": "$[1]", "path_nested": {"format": "g", "path": "$.y"}}]});
    let mut menu: Vec<String> = [
        "", " ", "  ", " x", "x ", "x y", "+", "a+b", "%20", "a%2Bb", "&", "=", "a&b=c", "?", "#", "/", "//", "\\", "\"", "'", "`", "{", "}", "[]", "{}", "\n", "\t", "\r\n", "\0", "\u{7f}", "\u{80}", "é", "É", "日本", "🦀", "e\u{301}", "\u{feff}x", "\u{a0}", "\u{202e}x", "null", "true", "false", "0", "1", "-1", "1.0", "1e5",
        "undefined", "<b>", "&amp;", "${x}", "a,b", ",", ";", ":", "|", "~", "~0", "~1", "@", "*", "\\u0041", "\\n", "x".repeat(64).as_str(), "x".repeat(65).as_str(), "x".repeat(255).as_str(), "x".repeat(256).as_str(), "é".repeat(300).as_str(), "required", "preferred", "string", "Const",
    ]
    .map(String::from)
    .to_vec();
    menu.extend(gen::near("jwt_vc"));
    menu.extend(gen::near("A Name"));
    for x in &menu {
        for (at, _) in gen::texts(&fullest) {
            if at.ends_with("/predicate") || at.ends_with("/limit_disclosure") {
                continue; // a word out of a list
            }
            trip::<PresentationDefinition>(&mut c, &format!("text {x:?} at {at}"), &gen::put(&fullest, &at, json!(x)));
        }
        for at in ["/format", "/input_descriptors/0/format"] {
            let f = json!({x: {"alg": [x]}, "other": {"proof_type": [x, x]}});
            trip::<PresentationDefinition>(&mut c, &format!("format {x:?} at {at}"), &gen::put(&fullest, at, f));
        }
        for (at, _) in gen::texts(&subm) {
            let v = gen::put(&subm, &at, json!(x));
            trip::<PresentationSubmission>(&mut c, &format!("text {x:?} at {at} of a submission"), &v);
            for (form, text) in [("", v.to_string()), (" pretty", serde_json::to_string_pretty(&v).unwrap()), (" spaced", format!(" \n{v}\t "))] {
                let key = format!("from_str{form}: text {x:?} at {at}");
                if c.case(&key) {
                    let r = guard(|| (text.parse::<PresentationSubmission>().ok(), serde_json::from_value::<PresentationSubmission>(v.clone()).ok()));
                    c.expect(matches!(&r, Ok((Some(a), Some(b))) if a == b), &key, || json!({"text": text, "result": format!("{r:?}")}));
                }
            }
        }
    }
    // a submission is the whole text
    let t = subm.to_string();
    let mut bad: Vec<String> = (0..t.len()).filter(|i| t.is_char_boundary(*i)).map(|i| t[..i].to_string()).collect();
    for x in ["x", ",", "}", "]", "{}", "null", "\0", "&", ";", "//", "\"", "1", t.as_str(), " x", "\nx", "=", "#"] {
        bad.extend([format!("{t}{x}"), format!("{x}{t}")]);
    }
    bad.extend([format!("[{t}]"), format!("\"{t}\""), json!(t).to_string(), format!("'{t}'"), format!("presentation_submission={t}"), format!("\u{feff}{t}"), t.replace('"', "'"), t.replace('"', ""), t.replace("\"id\"", "\"ID\""), t.replace('{', "%7B")]);
    for x in bad {
        let key = format!("from_str of {x:?}");
        if c.case(&key) {
            let r = guard(|| x.parse::<PresentationSubmission>().is_err());
            c.outcome("rejected");
            c.expect(r == Ok(true), &key, || json!("accepted"));
        }
    }
    // rejection: each required member missing or of the wrong kind
    let full = json!({"id": "d", "input_descriptors": [{"id": "i", "constraints": {"fields": [{"path": ["$.a"], "filter": {"type": "string", "const": "a"}}]}}]});
    let sub = json!({"id": "s", "definition_id": "d", "descriptor_map": [{"id": "i", "format": "f", "path": "$", "path_nested": {"format": "f", "path": "$"}}]});
    let ptrs = ["/id", "/input_descriptors", "/input_descriptors/0/id", "/input_descriptors/0/constraints", "/input_descriptors/0/constraints/fields/0/path", "/input_descriptors/0/constraints/fields/0/filter/type", "/input_descriptors/0/constraints/fields/0/filter/const"];
    let subp = ["/id", "/definition_id", "/descriptor_map", "/descriptor_map/0/id", "/descriptor_map/0/format", "/descriptor_map/0/path", "/descriptor_map/0/path_nested", "/descriptor_map/0/path_nested/format", "/descriptor_map/0/path_nested/path"];
    for (doc, list, is_def) in [(&full, &ptrs[..], true), (&sub, &subp[..], false)] {
        for p in list {
            let (parent, leaf) = p.rsplit_once('/').unwrap();
            let mut variants = vec![];
            let mut v = doc.clone();
            v.pointer_mut(parent).unwrap().as_object_mut().unwrap().remove(leaf);
            variants.push(("missing", v));
            for (n, bad) in [("null", json!(null)), ("number", json!(7)), ("bool", json!(true))] {
                let mut v = doc.clone();
                *v.pointer_mut(p).unwrap() = bad;
                variants.push((n, v));
            }
            for (n, v) in variants {
                if is_def {
                    reject::<PresentationDefinition>(&mut c, &format!("definition {p} {n}"), &v);
                } else {
                    reject::<PresentationSubmission>(&mut c, &format!("submission {p} {n}"), &v);
                }
            }
        }
    }
    // a filter names what it filters by
    for f in [json!({"type": "string"}), json!({"type": "string", "constant": "a"}), json!({"const": "a"}), json!({"type": "string", "minimum": 1}), json!({})] {
        reject::<PresentationDefinition>(&mut c, &format!("filter {f}"), &json!({"id": "d", "input_descriptors": [{"id": "i", "constraints": {"fields": [{"path": ["$.a"], "filter": f}]}}]}));
    }
    for k in ["regex", "regexp", "value", "equals", "eq", "constants", "CONST", "Const", "const_", "_const", "patterns", "Pattern", "formats", "Format", "enum", "minimum", "maximum", "exclusiveMinimum", "formatMinimum", "format_minimum", "minLength", "contains", "not", "items", "anyOf", "contentEncoding", "contentMediaType", "$ref", "$id", "title", "description", "default", "examples", "x", ""] {
        for v in [json!("a"), json!(""), json!("1"), json!(["a"]), json!(1), json!({"const": "a"}), json!(null)] {
            let d = wrap(&[json!({"path": ["$.a"], "filter": {"type": "string", k: v}})]);
            let key = format!("filter with the only criterion {k:?}: {v}");
            if c.case(&key) {
                let r = guard(|| serde_json::from_value::<PresentationDefinition>(d.clone()).map(|d| serde_json::to_value(&d).unwrap()));
                c.outcome(if matches!(r, Ok(Err(_))) { "rejected" } else { "kept" });
                c.expect(matches!(&r, Ok(Err(_))) || matches!(&r, Ok(Ok(o)) if *o == d), &key, || json!({"input": d, "result": format!("{r:?}")}));
            }
        }
    }
    // and what it cannot express is refused, never dropped
    let crit = [("const", json!("a")), ("pattern", json!("^a$")), ("format", json!("date")), ("enum", json!(["a"])), ("minimum", json!(1)), ("maxLength", json!(1)), ("not", json!({"const": "a"})), ("items", json!({}))];
    for set in product(&[2; 8]) {
        let mut f = Map::new();
        f.insert("type".into(), json!("string"));
        for (on, (k, v)) in set.iter().zip(&crit) {
            if *on == 1 {
                f.insert((*k).into(), v.clone());
            }
        }
        if f.len() < 3 {
            continue; // one criterion: above
        }
        let key = format!("filter with several criteria {}", Value::Object(f.clone()));
        if c.case(&key) {
            let v = wrap(&[json!({"path": ["$.a"], "filter": f})]);
            let r = guard(|| serde_json::from_value::<PresentationDefinition>(v.clone()).map(|d| serde_json::to_value(&d).unwrap()));
            c.outcome(if matches!(r, Ok(Err(_))) { "rejected" } else { "kept" });
            c.expect(matches!(&r, Ok(Err(_))) || matches!(&r, Ok(Ok(o)) if *o == v), &key, || json!({"input": v, "result": format!("{r:?}")}));
        }
    }
    c.finish()
}
