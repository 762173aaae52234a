use mc::gen::{product, words_upto};
use mc::Check;
use serde_json::{json, Value};
use vercre_dif_exch::{Constraints, Field, Filter, FilterValue};

use crate::{verdict, Doc};

/// Path expressions with an independent resolution.
type Resolve = fn(&Value) -> Vec<Value>;
fn opt(v: Option<&Value>) -> Vec<Value> {
    v.cloned().into_iter().collect()
}
fn paths() -> Vec<(&'static str, Option<Resolve>)> {
    vec![
        ("$.a", Some(|d| opt(d.get("a")))),
        ("$.b", Some(|d| opt(d.get("b")))),
        ("$.s.c", Some(|d| opt(d.get("s").and_then(|s| s.get("c"))))),
        ("$['b']", Some(|d| opt(d.get("b")))),
        ("$.l[0]", Some(|d| opt(d.get("l").and_then(|l| l.get(0))))),
        ("$.l[*]", Some(|d| d.get("l").and_then(Value::as_array).cloned().unwrap_or_default())),
        ("$.l", Some(|d| opt(d.get("l")))),
        ("$.zz", Some(|_| vec![])),
        ("$.a[", None),
        ("", None),
    ]
}
#[derive(Clone, Debug)]
enum F {
    None,
    Const(&'static str),
    Pattern(&'static str, fn(&str) -> bool),
    BadPattern,
    BadFormat,
}
fn filters() -> Vec<F> {
    vec![
        F::None,
        F::Const("x"),
        F::Const("y"),
        F::Pattern("^x$", |s| s == "x"),
        F::Pattern("x|y", |s| s.contains('x') || s.contains('y')),
        F::BadPattern,
        F::BadFormat,
    ]
}
fn filter(f: &F) -> Option<Filter> {
    let value = match f {
        F::None => return None,
        F::Const(s) => FilterValue::Const((*s).into()),
        F::Pattern(p, _) => FilterValue::Pattern((*p).into()),
        F::BadPattern => FilterValue::Pattern("(".into()),
        F::BadFormat => FilterValue::Format("iban".into()),
    };
    Some(Filter { type_: "string".into(), value })
}
/// Does one value pass the filter; None: the filter cannot be evaluated.
fn passes(f: &F, v: &Value) -> Option<bool> {
    Some(match f {
        F::None => true,
        F::Const(s) => match v {
            Value::String(t) => t == s,
            Value::Array(a) => a.iter().any(|e| e.as_str() == Some(s)),
            _ => false,
        },
        F::Pattern(_, p) => match v {
            Value::String(t) => p(t),
            other => p(&other.to_string()),
        },
        F::BadPattern | F::BadFormat => return None,
    })
}
struct Fld {
    paths: Vec<usize>,
    filter: usize,
    optional: Option<bool>,
}
fn reference(doc: &Value, f: &Fld, ps: &[(&str, Option<Resolve>)], fs: &[F]) -> bool {
    let mut found = false;
    for p in &f.paths {
        let Some(resolve) = ps[*p].1 else { return false };
        let nodes = resolve(doc);
        let Some(first) = nodes.first() else { continue };
        found = true;
        match passes(&fs[f.filter], first) {
            Some(true) => return true,
            Some(false) => {}
            None => return false,
        }
    }
    !found && f.optional.unwrap_or(false)
}
fn real(f: &Fld, ps: &[(&str, Option<Resolve>)], fs: &[F]) -> Field {
    Field {
        path: f.paths.iter().map(|p| ps[*p].0.to_string()).collect(),
        filter: filter(&fs[f.filter]),
        optional: f.optional,
        ..Field::default()
    }
}

pub fn run() {
    let mut c = Check::new("C06", "exploration");
    c.rule("every field of up to 2 (thorough 3) paths x 7 filters x optional, alone and in every pair/triple of a representative subset, on every document of the menu; fields that share identifier, name or purpose; many fields and paths; every path of a menu of JSONPath expressions and every near miss of a member name; against an independent evaluator; distinct: distinct (constraints, document) pairs whose verdict is not decided by an empty field list");
    let ps = paths();
    let fs = filters();
    let vals = [json!("x"), json!("y"), json!("z"), json!(["x", "y"]), json!(["z"]), json!(null), json!({"c": "x"}), json!(7), json!(true), json!(""), json!(false), json!(0), json!([]), json!({}), json!([["x"]]), json!([null, "x"]), json!("x y"), json!(-1.5)];
    let mut docs: Vec<Value> = vec![json!({}), json!([]), json!(null), json!("x")];
    for w in product(&[vals.len() + 1, 4, 3]) {
        let mut m = serde_json::Map::new();
        if w[0] > 0 {
            m.insert("a".into(), vals[w[0] - 1].clone());
        }
        if w[1] > 0 {
            m.insert("b".into(), vals[w[1] - 1].clone());
            m.insert("s".into(), json!({"c": vals[3 - w[1]]}));
        }
        match w[2] {
            1 => drop(m.insert("l".into(), json!(["y", "x"]))),
            2 => drop(m.insert("l".into(), json!([]))),
            _ => {}
        }
        docs.push(Value::Object(m));
    }
    let maxp = c.pick(2, 3);
    c.bound("paths_per_field", maxp);
    c.bound("documents", docs.len());
    let opts = [None, Some(false), Some(true)];
    let judge = |c: &mut Check, fl: &[&Fld], docs: &[Value], tag: &str| {
        let cons = Constraints { fields: Some(fl.iter().map(|f| real(f, &paths(), &filters())).collect()), limit_disclosure: None };
        for d in docs {
            let want = fl.iter().all(|f| reference(d, f, &ps, &fs));
            let got = verdict(&cons, &Doc(Some(d.clone())));
            let bad = match &got {
                Ok(b) => *b != want,
                // an error is a refusal
                Err(e) => want || e != "error",
            };
            if bad || c.has_violations() {
                let key = format!("{tag} {} on {d}", serde_json::to_string(&cons).unwrap());
                if c.case(&key) && bad {
                    c.violation(&key, json!({"verdict": format!("{got:?}"), "expected": want}));
                }
            } else {
                c.case("");
                c.distinct(&format!("{}{d}", serde_json::to_string(&cons.fields).unwrap()));
                c.sample(json!({"constraints": cons, "document": d, "satisfied": want}));
            }
            c.outcome(&format!("{want}"));
        }
    };
    // single fields
    let mut all = vec![];
    for w in words_upto(ps.len(), maxp) {
        for f in 0..fs.len() {
            for o in opts {
                all.push(Fld { paths: w.clone(), filter: f, optional: o });
            }
        }
    }
    for f in &all {
        judge(&mut c, &[f], &docs, "one");
    }
    // combinations
    let subset: Vec<Fld> = [
        (vec![0], 1, None), (vec![0], 1, Some(true)), (vec![1], 2, None), (vec![1], 3, Some(true)), (vec![2], 0, None), (vec![7], 0, Some(true)),
        (vec![7], 0, Some(false)), (vec![8], 0, Some(true)), (vec![0, 1], 1, None), (vec![7, 1], 4, None), (vec![4], 2, None), (vec![0], 5, Some(true)),
        (vec![], 0, None), (vec![], 0, Some(true)),
    ]
    .into_iter()
    .map(|(paths, filter, optional)| Fld { paths, filter, optional })
    .collect();
    let n = 3;
    c.bound("fields", n);
    for w in words_upto(subset.len(), n) {
        let fl: Vec<&Fld> = w.iter().map(|i| &subset[*i]).collect();
        let ds: Vec<Value> = if c.thorough() || fl.len() < 3 { docs.clone() } else { docs.iter().step_by(3).cloned().collect() };
        judge(&mut c, &fl, &ds, "many");
    }
    // members that do not decide: every combination on a field that matches
    // and one that does not
    for w in product(&[2, 2, 2, 3, 3, 3]) {
        for (filter, doc) in product(&[4, docs.len()]).map(|w| (w[0], &docs[w[1]])) {
            let f = Fld { paths: vec![0], filter, optional: [None, Some(true)][w[0]] };
            let mut fld = real(&f, &ps, &fs);
            if w[0] == 1 {
                fld.id = Some("id".into());
            }
            if w[1] == 1 {
                fld.name = Some("n".into());
            }
            if w[2] == 1 {
                fld.purpose = Some("p".into());
            }
            fld.intent_to_retain = [None, Some(false), Some(true)][w[3]];
            let mut v = json!({ "fields": [fld] });
            if w[4] > 0 {
                v["limit_disclosure"] = json!(["", "required", "preferred"][w[4]]);
            }
            if w[5] > 0 {
                v["fields"][0]["predicate"] = json!(["", "required", "preferred"][w[5]]);
            }
            let key = format!("members {v} on {doc}");
            if c.case(&key) {
                let Ok(cons) = serde_json::from_value::<Constraints>(v) else {
                    c.violation(&key, json!("not read"));
                    continue;
                };
                let want = reference(doc, &f, &ps, &fs);
                let got = verdict(&cons, &Doc(Some(doc.clone())));
                c.expect(got == Ok(want), &key, || json!({"verdict": format!("{got:?}"), "expected": want}));
                c.distinct(&key);
            }
        }
    }
    // fields that share those members (or everything but the filter): each
    // still decides
    for w in product(&[3, 3, 3, 3, subset.len(), subset.len()]) {
        let pair = [&subset[w[4]], &subset[w[5]]];
        let fields: Vec<Field> = pair
            .iter()
            .enumerate()
            .map(|(i, f)| {
                let text = |k: usize, same: &str| [None, Some(same.to_string()), Some(format!("{same}{i}"))][k].clone();
                Field { id: text(w[0], "id"), name: text(w[1], "n"), purpose: text(w[2], "p"), intent_to_retain: [None, Some(true), Some(i == 0)][w[3]], ..real(f, &ps, &fs) }
            })
            .collect();
        let cons = Constraints { fields: Some(fields), limit_disclosure: None };
        for d in docs.iter().step_by(19) {
            let key = format!("shared members {w:?} on {d}");
            if c.case(&key) {
                let want = pair.iter().all(|f| reference(d, f, &ps, &fs));
                let got = verdict(&cons, &Doc(Some(d.clone())));
                let bad = match &got {
                    Ok(b) => *b != want,
                    Err(e) => want || e != "error",
                };
                c.expect(!bad, &key, || json!({"constraints": cons, "verdict": format!("{got:?}"), "expected": want}));
                if want {
                    c.distinct(&key);
                }
            }
        }
    }
    // sizes: a field (path, member) at every position of a long list decides
    let size = c.pick(40, 150);
    c.bound("size_ladder", size);
    let fld = |path: &str, filter: Option<FilterValue>| Field { path: vec![path.into()], filter: filter.map(|value| Filter { type_: "string".into(), value }), ..Field::default() };
    let mut one = |c: &mut Check, key: String, fields: Vec<Field>, doc: Value, want: bool| {
        if c.case(&key) {
            let got = verdict(&Constraints { fields: Some(fields), limit_disclosure: None }, &Doc(Some(doc)));
            c.expect(got == Ok(want), &key, || json!({"verdict": format!("{got:?}"), "expected": want}));
            c.distinct(&key);
        }
    };
    let big: Vec<usize> = (1..=size).chain([64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025].into_iter().filter(|n| *n > size)).collect();
    for n in big {
        let doc = Value::Object((0..n).map(|i| (format!("m{i}"), json!(format!("v{i}")))).collect());
        let all: Vec<Field> = (0..n).map(|i| fld(&format!("$.m{i}"), Some(FilterValue::Const(format!("v{i}"))))).collect();
        one(&mut c, format!("{n} fields"), all.clone(), doc.clone(), true);
        // every position; of the long ones, those at the edges
        let edges = [0, 1, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 511, 512, 999, 1000];
        for k in (0..n).filter(|k| n <= size || edges.contains(k) || *k == n / 2 || *k + 2 >= n) {
            let mut fs = all.clone();
            fs[k] = fld(&format!("$.m{k}"), Some(FilterValue::Const("other".into())));
            one(&mut c, format!("{n} fields, {k} fails"), fs.clone(), doc.clone(), false);
            fs[k] = fld("$.absent", None);
            one(&mut c, format!("{n} fields, {k} absent"), fs.clone(), doc.clone(), false);
            fs[k] = Field { optional: Some(true), ..fld("$.absent", None) };
            one(&mut c, format!("{n} fields, {k} absent and optional"), fs, doc.clone(), true);
            // alternative paths: only the k-th selects a value
            let path: Vec<String> = (0..n).map(|i| if i == k { "$.m0".to_string() } else { format!("$.absent{i}") }).collect();
            let f = Field { path: path.clone(), ..fld("", Some(FilterValue::Const("v0".into()))) };
            one(&mut c, format!("{n} paths, {k} selects"), vec![f.clone()], doc.clone(), true);
            one(&mut c, format!("{n} paths, {k} selects another"), vec![Field { filter: fld("", Some(FilterValue::Pattern("^v1$".into()))).filter, optional: Some(true), ..f }], doc.clone(), false);
            // only the k-th selects a value that matches
            let path: Vec<String> = (0..n).map(|i| format!("$.m{i}")).collect();
            let f = Field { path, ..fld("", Some(FilterValue::Const(format!("v{k}")))) };
            one(&mut c, format!("{n} paths, {k} matches"), vec![f], doc.clone(), true);
            // list values: the k-th member is the constant
            let list = json!({"m": (0..n).map(|i| if i == k { "x" } else { "y" }).collect::<Vec<_>>()});
            one(&mut c, format!("list of {n}, {k} is the constant"), vec![fld("$.m", Some(FilterValue::Const("x".into())))], list.clone(), true);
            one(&mut c, format!("list of {n}, {k} is another"), vec![fld("$.m", Some(FilterValue::Const("z".into())))], list.clone(), false);
            one(&mut c, format!("list of {n}, member {k} by path"), vec![fld(&format!("$.m[{k}]"), Some(FilterValue::Const("x".into())))], list, true);
        }
        // several values: the first selected counts
        for (k, path) in ["$.m[*]", "$.m[*].v", "$..v", "$.m[0:]"].iter().enumerate() {
            let list: Vec<Value> = (0..n).map(|i| if k % 3 == 0 { json!(format!("v{i}")) } else { json!({ "v": format!("v{i}") }) }).collect();
            let d = json!({ "m": list });
            for (x, hit) in [(0, true), (n - 1, n == 1), (n, false), (n / 2, n == 1)] {
                one(&mut c, format!("{n} values at {path}, is the first v{x}"), vec![fld(path, Some(FilterValue::Const(format!("v{x}"))))], d.clone(), hit);
                let f = Field { optional: Some(true), path: vec!["$.absent".into(), path.to_string()], ..fld("", Some(FilterValue::Pattern(format!("^v{x}$")))) };
                one(&mut c, format!("{n} values at {path}, does the first match v{x}"), vec![f], d.clone(), hit);
            }
            one(&mut c, format!("{n} values at {path}"), vec![fld(path, None)], d, true);
        }
        // depth and length
        let mut deep = json!("x");
        for _ in 0..n.min(60) {
            deep = json!({ "d": deep });
        }
        let path = format!("${}", ".d".repeat(n.min(60)));
        one(&mut c, format!("depth {n}"), vec![fld(&path, Some(FilterValue::Const("x".into())))], deep.clone(), true);
        one(&mut c, format!("depth {n}, absent"), vec![fld(&format!("{path}.d"), Some(FilterValue::Const("x".into())))], deep, false);
        let s = "x".repeat(n * 8);
        one(&mut c, format!("length {n}"), vec![fld("$.v", Some(FilterValue::Const(s.clone())))], json!({ "v": s }), true);
        one(&mut c, format!("length {n}, longer"), vec![fld("$.v", Some(FilterValue::Const(s.clone())))], json!({ "v": format!("{s}y") }), false);
        one(&mut c, format!("length {n}, shorter"), vec![fld("$.v", Some(FilterValue::Const(format!("{s}y"))))], json!({ "v": s }), false);
        one(&mut c, format!("length {n}, pattern"), vec![fld("$.v", Some(FilterValue::Pattern("^x*y$".into())))], json!({ "v": format!("{s}y") }), true);
    }
    // path expressions of every kind, on documents where they select at most
    // one value, with members whose names are easily taken for one another
    let names = ["a", "A", "a ", " a", "a.b", "ab", "aa", "b", "0", "a/b", "a-b", "a_b", "é", "vc", "type", "$", "*", "a'", "a\"", "a[0]", ""];
    for name in names {
        let quoted = format!("$['{}']", name.replace('\'', "\\'"));
        let double = format!("$[\"{}\"]", name.replace('"', "\\\""));
        let wrapped = format!("$.vc{}", &quoted[1..]);
        let deep = format!("$..{}", &quoted[1..]);
        for held in names {
            for (path, doc) in [
                (&quoted, json!({ held: "x" })),
                (&double, json!({ held: "x" })),
                (&quoted, json!({ "vc": { held: "x" } })),
                (&wrapped, json!({ "vc": { held: "x" } })),
                (&wrapped, json!({ held: "x" })),
                (&deep, json!({ held: "x" })),
                (&deep, json!({ "q": [{ "r": { held: "x" } }] })),
                (&quoted, json!({ "q": { held: "x" } })),
                (&quoted, json!([{ held: "x" }])),
            ] {
                let at = match (path == &wrapped, path == &deep) {
                    (true, _) => doc.get("vc").and_then(|v| v.get(name)).is_some(),
                    (_, true) => held == name,
                    _ => doc.get(name).is_some(),
                };
                // one value at most: `vc` may hold or be the member
                if path == &deep && (name == "q" || name == "r") {
                    continue;
                }
                for (filter, hit) in [(None, true), (Some(FilterValue::Const("x".into())), true), (Some(FilterValue::Const("y".into())), false), (Some(FilterValue::Pattern("^x$".into())), true)] {
                    // the member itself may be the object that holds it
                    let is_text = doc.get(name).is_none_or(Value::is_string) || path == &wrapped;
                    if !is_text && filter.is_some() {
                        continue;
                    }
                    for optional in [None, Some(true)] {
                        let want = if at { hit } else { optional.is_some() };
                        let f = Field { optional, ..fld(path, filter.clone()) };
                        one(&mut c, format!("{path} {filter:?} {optional:?} on {doc}"), vec![f], doc.clone(), want);
                    }
                }
            }
        }
    }
    let doc = json!({"l": ["p", "q", "r"], "o": {"k": "v"}, "n": [[1, 2], [3]], "t": ["VerifiableCredential", "EmployeeIDCredential"], "credentialSubject": {"id": "did:x", "employeeId": "1", "address": {"city": "c", "lines": ["1", "2"]}}});
    for (path, value) in [
        ("$.l[0]", Some("p")), ("$.l[1]", Some("q")), ("$.l[2]", Some("r")), ("$.l[3]", None), ("$.l[-1]", Some("r")), ("$.l[-3]", Some("p")), ("$.l[-4]", None), ("$.l[1:]", Some("q")),
        ("$.l[:1]", Some("p")), ("$.l[2:1]", None), ("$.l[::2]", Some("p")), ("$.l[::-1]", Some("r")), ("$.l[*]", Some("p")), ("$.o.*", Some("v")), ("$.o[*]", Some("v")), ("$.o.k.k", None), ("$.o[0]", None), ("$.l.k", None),
        ("$.l[?@ == 'q']", Some("q")), ("$.l[?@ == 'z']", None), ("$.l[1,0]", Some("q")), ("$['o']['k']", Some("v")), ("$.o['k']", Some("v")), ("$['o'].k", Some("v")), ("$..k", Some("v")),
        ("$..city", Some("c")), ("$.credentialSubject.id", Some("did:x")), ("$.credentialSubject.address.city", Some("c")), ("$.credentialSubject.address.lines[1]", Some("2")), ("$.credentialSubject.city", None),
        ("$.credentialSubject..city", Some("c")), ("$.t[1]", Some("EmployeeIDCredential")), ("$.t[?search(@, 'Employee')]", Some("EmployeeIDCredential")), ("$.credentialSubject[?@.city]", Some("{object}")), ("$.vc.t[1]", None), ("$.id", None),
    ] {
        for k in ["p", "q", "r", "v", "c", "did:x", "2", "EmployeeIDCredential", "z", ""] {
            for optional in [None, Some(false), Some(true)] {
                let want = value.map_or(optional == Some(true), |v| v == k);
                let f = Field { optional, ..fld(path, Some(FilterValue::Const(k.into()))) };
                one(&mut c, format!("{path} const {k} {optional:?}"), vec![f.clone()], doc.clone(), want);
                // as the second alternative, and as the last of several fields
                let g = Field { path: vec!["$.absent".into(), path.into()], ..f.clone() };
                one(&mut c, format!("absent or {path} const {k} {optional:?}"), vec![g], doc.clone(), want);
                let both = vec![fld("$.o.k", Some(FilterValue::Const("v".into()))), f, Field { optional: Some(true), ..fld("$.absent", None) }];
                one(&mut c, format!("among others {path} const {k} {optional:?}"), both, doc.clone(), want);
            }
        }
    }
    // no field list at all: everything satisfies
    for d in &docs {
        let key = format!("no fields on {d}");
        if c.case(&key) {
            let got = verdict(&Constraints::default(), &Doc(Some(d.clone())));
            c.expect(got == Ok(true), &key, || json!(format!("{got:?}")));
        }
    }
    c.finish()
}
