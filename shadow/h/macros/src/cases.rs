use std::process::Command;

use mc::gen::{deviations, product};
use mc::Check;
use serde_json::{json, Map, Value};

/// A value: Rust source text and the JSON it stands for.
#[derive(Clone)]
pub struct V(pub String, pub Value);

fn v(src: &str, val: Value) -> V {
    V(src.into(), val)
}

/// String-valued expressions in every form the macros accept.
fn strings() -> Vec<V> {
    vec![
        v("\"plain\"", json!("plain")),
        v("CONST_S", json!("const value")),
        v("var_s", json!("variable")),
        v("&var_s", json!("variable")),
        v("var_string.clone()", json!("owned")),
        v("String::from(\"made\")", json!("made")),
        v("helper(\"x\")", json!("helped x")),
        v("\"\"", json!("")),
        v("\"q\\\"u\\\\o {te} \\u{e9}&=%26 #a $b\"", json!("q\"u\\o {te} é&=%26 #a $b")),
        v("r#\"raw \"r\" {}\"#", json!("raw \"r\" {}")),
        v("var_s.to_string()", json!("variable")),
        v("nested::CONST_T", json!("path const")),
        v("\"\\0 \\r\\n\\tcontrol\\u{7f}\\u{feff} \\0\"", json!("\0 \r\n\tcontrol\u{7f}\u{feff} \0")),
        v("&\" Referenced \"", json!(" Referenced ")),
    ]
}
/// String literals only (positions where the macro does not convert).
fn literals() -> Vec<V> {
    vec![
        v("\"lit\"", json!("lit")),
        v("\"q\\\"{}\\u{e9}\"", json!("q\"{}é")),
        v("var_s.to_string()", json!("variable")),
        v("String::from(\"made\")", json!("made")),
        v("\"\"", json!("")),
    ]
}
fn arr(items: &[V]) -> V {
    V(
        // with and without a comma at the end
        format!("[{}{}]", items.iter().map(|i| i.0.clone()).collect::<Vec<_>>().join(", "), if items.first().is_some_and(|i| i.0.len() % 2 == 1) { "," } else { "" }),
        Value::Array(items.iter().map(|i| i.1.clone()).collect()),
    )
}
fn obj(items: &[(&str, V)]) -> V {
    let mut m = Map::new();
    for (k, x) in items {
        m.insert((*k).into(), x.1.clone());
    }
    let last = if items.len() % 2 == 0 && !items.is_empty() { "," } else { "" };
    V(format!("{{{}{last}}}", items.iter().map(|(k, x)| format!("{k:?}: {}", x.0)).collect::<Vec<_>>().join(", ")), Value::Object(m))
}
/// Numbers of items in a list, members of an object, or levels.
const SIZES: [usize; 8] = [2, 3, 4, 5, 7, 8, 9, 17];

fn opt(mut v: Vec<V>) -> Vec<Option<V>> {
    let mut o: Vec<Option<V>> = v.drain(..).map(Some).collect();
    o.insert(1, None);
    o
}
fn req(v: Vec<V>) -> Vec<Option<V>> {
    v.into_iter().map(Some).collect()
}

/// A member: key, alternatives (None: absent), and the JSON when absent.
struct M(&'static str, Vec<Option<V>>, Option<Value>);

struct Macro {
    name: &'static str,
    ty: &'static str,
    members: Vec<M>,
    /// removed before comparison when null
    base: Vec<(&'static str, Value)>,
}

fn definitions(need_type: bool, names: bool) -> Vec<Option<V>> {
    let types = arr(&[v("\"VerifiableCredential\"", json!("VerifiableCredential")), v("\"EmployeeIDCredential\"", json!("EmployeeIDCredential"))]);
    let one = arr(&[v("\"A\"", json!("A"))]);
    let e = || v("{}", json!({}));
    let subj = vec![
        None,
        Some(v("{}", json!({}))),
        Some(obj(&[("given_name", e())])),
        Some(obj(&[("given_name", e()), ("family_name", e()), ("q\"é", e())])),
        Some(obj(&[("address", obj(&[("street", e()), ("locality", e())])), ("email", e())])),
        Some(obj(&[("a", obj(&[("b", obj(&[("c", e())]))]))])),
    ];
    let ctx = arr(&[v("\"https://www.w3.org/2018/credentials/v1\"", json!("https://www.w3.org/2018/credentials/v1")), v("\"b\"", json!("b"))]);
    let mut out = vec![];
    // sizes: many types, many claims, deep claims, many contexts
    let n = |p: &str, i: usize| v(&format!("\"{p}{i}\""), json!(format!("{p}{i}")));
    for k in SIZES {
        let many: Vec<V> = (0..k).map(|i| n("t", i)).collect();
        out.push(Some(obj(&[("type", arr(&many))])));
        let names: Vec<String> = (0..k).map(|i| format!("claim{i}")).collect();
        let claims: Vec<(&str, V)> = names.iter().map(|x| (x.as_str(), e())).collect();
        out.push(Some(obj(&[("credentialSubject", obj(&claims)), ("type", one.clone())])));
        let mut deep = e();
        for i in 0..k {
            deep = obj(&[("same", deep), (if i % 2 == 0 { "x" } else { "y" }, e())]);
        }
        out.push(Some(obj(&[("type", one.clone()), ("credentialSubject", deep)])));
        out.push(Some(obj(&[("@context", arr(&many)), ("type", one.clone())])));
    }
    // names a claim may have, alone and among others, at the top and below
    if names {
        for w in LISTS {
            let l = arr(&w.iter().map(|x| v(&format!("{x:?}"), json!(x))).collect::<Vec<_>>());
            out.push(Some(obj(&[("type", l.clone())])));
            out.push(Some(obj(&[("type", one.clone()), ("@context", l)])));
        }
        for w in ["id", "type", "value", "name", "claims", "format", "order", "credentialSubject", "@context", "_", "", "a b", "1", "Given_Name", "Id", "self", "null", "None", " name ", "\u{a0}é\n", "a.b", "\"q\""] {
            for k in [0, 4] {
                let others: Vec<String> = (0..k).map(|i| format!("c{i}")).collect();
                let mut m: Vec<(&str, V)> = others.iter().map(|x| (x.as_str(), e())).collect();
                m.insert(k / 2, (w, e()));
                let set = obj(&m);
                out.push(Some(obj(&[("type", one.clone()), ("credentialSubject", set.clone())])));
                out.push(Some(obj(&[("type", one.clone()), ("credentialSubject", obj(&[("sub", set.clone()), (w, set)]))])));
            }
        }
    }
    for t in if need_type { vec![Some(types.clone()), Some(one)] } else { vec![Some(types.clone()), None, Some(one)] } {
        for (i, s) in subj.iter().enumerate() {
            let mut m = vec![];
            if i % 2 == 1 {
                m.push(("@context", ctx.clone()));
            }
            if let Some(t) = &t {
                m.push(("type", t.clone()));
            }
            if let Some(s) = s {
                m.push(("credentialSubject", s.clone()));
            }
            out.push(Some(obj(&m)));
        }
    }
    out
}

fn details() -> Vec<V> {
    let ty = ("type", v("\"openid_credential\"", json!("openid_credential")));
    let many = |k: usize| arr(&(0..k).map(|i| v(&format!("\"l{i}\""), json!(format!("l{i}")))).collect::<Vec<_>>());
    let name = |x: &str| v(&format!("{x:?}"), json!(x));
    let locs = [None, Some(many(3)), Some(many(4)), Some(many(9)), Some(arr(&[v("\"http://a\"", json!("http://a"))])), Some(arr(&[v("\"http://a\"", json!("http://a")), v("\"b\"", json!("b"))]))];
    let mut out = vec![];
    for (li, l) in locs.iter().enumerate() {
        for id in literals() {
            let mut m = vec![ty.clone(), ("credential_configuration_id", id)];
            if let Some(l) = l {
                m.push(("locations", l.clone()));
            }
            out.push(obj(&m));
        }
        for d in definitions(false, li == 0).into_iter().flatten() {
            let mut m = vec![ty.clone(), ("credential_configuration_id", v("\"EmployeeID_JWT\"", json!("EmployeeID_JWT"))), ("credential_definition", d)];
            if let Some(l) = l {
                m.insert(0, ("locations", l.clone()));
            }
            out.push(obj(&m));
        }
        for d in definitions(true, li == 1).into_iter().flatten() {
            let mut m = vec![("format", v("\"jwt_vc_json\"", json!("jwt_vc_json"))), ("credential_definition", d), ty.clone()];
            if let Some(l) = l {
                m.push(("locations", l.clone()));
            }
            out.push(obj(&m));
        }
    }
    // lists that are empty, repeat an item, or are in no particular order
    for w in LISTS {
        let l = ("locations", arr(&w.iter().map(|x| name(x)).collect::<Vec<_>>()));
        out.push(obj(&[ty.clone(), ("credential_configuration_id", name("id")), l.clone()]));
        out.push(obj(&[ty.clone(), l, ("format", name("jwt_vc_json")), ("credential_definition", obj(&[("type", arr(&[name("A")]))]))]));
    }
    out
}
const LISTS: [&[&str]; 9] = [&[], &["a", "a"], &["b", "a"], &["b", "a", "b"], &["a", "b", "b", "a"], &["", "a", ""], &["A", "a"], &["a", "A", "a"], &["a ", "a"]];

fn detail_lists(thorough: bool) -> Vec<Option<V>> {
    let d = details();
    let mut out: Vec<Option<V>> = vec![Some(arr(&[d[0].clone()])), None];
    out.extend(d.iter().skip(1).map(|x| Some(arr(&[x.clone()]))));
    let few: Vec<&V> = d.iter().step_by(if thorough { 11 } else { 31 }).collect();
    for a in &few {
        for b in &few {
            out.push(Some(arr(&[(*a).clone(), (*b).clone()])));
        }
    }
    out.push(Some(arr(&[])));
    // the same item again
    for (i, x) in d.iter().enumerate().step_by(if thorough { 5 } else { 17 }) {
        out.push(Some(arr(&[x.clone(), x.clone()])));
        out.push(Some(arr(&[x.clone(), d[(i + 1) % d.len()].clone(), x.clone()])));
    }
    for k in SIZES {
        let shift = k * 3;
        out.push(Some(arr(&(0..k).map(|i| d[(shift + i * 7) % d.len()].clone()).collect::<Vec<_>>())));
    }
    out
}

fn encryption() -> Vec<Option<V>> {
    let j = |alg: &str, enc: &str| json!({"jwk": {"kty": "OKP", "crv": "Ed25519", "x": "x"}, "alg": alg, "enc": enc});
    vec![None, Some(v("encryption(\"a\", \"e\")", j("a", "e"))), Some(v("encryption(\"\", \"A256GCM\")", j("", "A256GCM")))]
}

fn macros(thorough: bool) -> Vec<Macro> {
    let pre = v("\"urn:ietf:params:oauth:grant-type:pre-authorized_code\"", json!("urn:ietf:params:oauth:grant-type:pre-authorized_code"));
    let code = v("\"authorization_code\"", json!("authorization_code"));
    let lits = literals();
    let mut id_lists: Vec<V> = lits.iter().map(|l| arr(&[l.clone()])).collect();
    id_lists.push(arr(&[lits[0].clone(), lits[1].clone()]));
    for k in SIZES {
        id_lists.push(arr(&(0..k).map(|i| v(&format!("\"id{i}\""), json!(format!("id{i}")))).collect::<Vec<_>>()));
    }
    id_lists.push(arr(&[lits[2].clone(), lits[0].clone(), lits[3].clone()]));
    // repeated, and in no particular order
    let name = |x: &str| v(&format!("{x:?}"), json!(x));
    for w in LISTS.into_iter().filter(|w| !w.is_empty()) {
        id_lists.push(arr(&w.iter().map(|x| name(x)).collect::<Vec<_>>()));
    }
    let jwt_proof = |j: V, rev: bool| {
        let t = ("proof_type", v("\"jwt\"", json!("jwt")));
        if rev { obj(&[("jwt", j), t]) } else { obj(&[t, ("jwt", j)]) }
    };
    let mut proofs: Vec<V> = strings().into_iter().map(|s| jwt_proof(s, false)).collect();
    proofs.push(jwt_proof(v("\"rev\"", json!("rev")), true));
    vec![
        Macro {
            name: "create_offer_request",
            ty: "CreateOfferRequest",
            members: vec![
                M("credential_issuer", req(strings()), None),
                M("credential_configuration_ids", req(id_lists), None),
                M("subject_id", opt(strings()), None),
                M("grant_types", vec![Some(arr(&[pre.clone()])), None, Some(arr(&[code.clone()])), Some(arr(&[pre.clone(), code.clone()])), Some(arr(&[code.clone(), pre.clone()])), Some(arr(&[])), Some(arr(&[pre.clone(), pre.clone()])), Some(arr(&[code.clone(), code.clone()])), Some(arr(&[pre.clone(), code.clone(), pre.clone()])), Some(arr(&[code.clone(), pre.clone(), pre.clone(), code.clone()]))], None),
                M("tx_code_required", vec![Some(v("true", json!(true))), None, Some(v("false", json!(false))), Some(v("var_bool", json!(true)))], Some(json!(false))),
                M("send_type", vec![Some(v("vercre_issuer::SendType::ByRef", json!("ByRef"))), None, Some(v("vercre_issuer::SendType::ByVal", json!("ByVal"))), Some(v("Renamed::ByRef", json!("ByRef"))), Some(v("\"ByRef\"", json!("ByRef"))), Some(v("\"ByVal\"", json!("ByVal"))), Some(v("\"by_ref\"", json!("ByRef"))), Some(v("\"by_val\"", json!("ByVal"))), Some(v("var_send.clone()", json!("ByRef")))], Some(json!("ByVal"))),
            ],
            base: vec![],
        },
        Macro {
            name: "authorization_request",
            ty: "AuthorizationRequest",
            members: vec![
                M("credential_issuer", req(strings()), None),
                M("response_type", req(vec![v("\"code\"", json!("code")), v("\"vp_token\"", json!("vp_token")), v("\"id_token vp_token\"", json!("id_token vp_token")), v("ResponseType::VpToken", json!("vp_token")), v("ResponseType::Code", json!("code"))]), None),
                M("client_id", req(strings()), None),
                M("redirect_uri", opt(strings()), None),
                M("state", opt(strings()), None),
                M("code_challenge", req(strings()), None),
                M("code_challenge_method", req(vec![v("\"S256\"", json!("S256")), v("CodeChallengeMethod::S256", json!("S256"))]), None),
                M("authorization_details", detail_lists(thorough), None),
                M("scope", opt(strings()), None),
                M("resource", opt(strings()), None),
                M("subject_id", req(strings()), None),
                M("wallet_issuer", opt(strings()), None),
                M("user_hint", opt(strings()), None),
                M("issuer_state", opt(strings()), None),
            ],
            base: vec![],
        },
        Macro {
            name: "token_request",
            ty: "TokenRequest",
            members: vec![
                M("credential_issuer", req(strings()), None),
                M("client_id", opt(strings()), None),
                M("grant_type", req(vec![pre.clone()]), None),
                M("pre-authorized_code", req(strings()), None),
                M("tx_code", opt(strings()), None),
                M("authorization_details", detail_lists(thorough), None),
            ],
            base: vec![],
        },
        Macro {
            name: "token_request",
            ty: "TokenRequest",
            members: vec![
                M("credential_issuer", req(strings()), None),
                M("client_id", opt(strings()), None),
                M("grant_type", req(vec![code.clone()]), None),
                M("code", req(strings()), None),
                M("redirect_uri", opt(strings()), None),
                M("code_verifier", req(strings()), None),
                M("authorization_details", detail_lists(thorough), None),
            ],
            base: vec![],
        },
        Macro {
            name: "credential_request",
            ty: "CredentialRequest",
            members: vec![
                M("credential_issuer", req(strings()), None),
                M("access_token", req(strings()), None),
                M("credential_identifier", req(strings()), None),
                M("proof", opt(proofs.clone()), None),
                M("credential_response_encryption", encryption(), None),
            ],
            base: vec![],
        },
        Macro {
            name: "credential_request",
            ty: "CredentialRequest",
            members: vec![
                M("credential_issuer", req(strings()), None),
                M("access_token", req(strings()), None),
                M("format", req(vec![v("\"jwt_vc_json\"", json!("jwt_vc_json"))]), None),
                M("credential_definition", definitions(true, true), None),
                M("proof", opt(proofs), None),
                M("credential_response_encryption", encryption(), None),
            ],
            base: vec![],
        },
    ]
}

struct Case {
    mac: &'static str,
    ty: &'static str,
    src: String,
    want: Value,
}

fn enumerate(c: &mut Check) -> Vec<Case> {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    for m in macros(c.thorough()) {
        let dims: Vec<usize> = m.members.iter().map(|x| x.1.len()).collect();
        let mut picks = deviations(&dims, 1);
        // every presence pattern of the optional members
        let optional: Vec<usize> = (0..dims.len()).filter(|i| m.members[*i].1.iter().any(Option::is_none)).collect();
        for w in product(&vec![2; optional.len()]) {
            let mut p = vec![0; dims.len()];
            for (k, i) in optional.iter().enumerate() {
                p[*i] = w[k];
            }
            picks.push(p);
        }
        // pairs of deviations; the long detail lists only in the thorough tier
        let cap: Vec<usize> = dims.iter().map(|d| (*d).min(if c.thorough() { 12 } else { 4 })).collect();
        picks.extend(deviations(&cap, 2));
        let start = out.len();
        for p in picks {
            let mut members: Vec<(&str, &V)> = vec![];
            let mut want = Map::new();
            for (i, k) in p.iter().enumerate() {
                match &m.members[i].1[*k] {
                    Some(x) => {
                        members.push((m.members[i].0, x));
                        want.insert(m.members[i].0.into(), x.1.clone());
                    }
                    None => {
                        if let Some(d) = &m.members[i].2 {
                            want.insert(m.members[i].0.into(), d.clone());
                        }
                    }
                }
            }
            for (k, x) in &m.base {
                want.insert((*k).into(), x.clone());
            }
            // every rotation and its reversal of the first and last case
            if out.len() == start || p.iter().all(|x| *x == 0) {
                for k in 0..members.len() {
                    for rev in [false, true] {
                        let mut o = members.clone();
                        o.rotate_left(k);
                        if rev {
                            o.reverse();
                        }
                        let body = o.iter().map(|(k, x)| format!("{k:?}: {}", x.0)).collect::<Vec<_>>().join(",");
                        out.push(Case { mac: m.name, ty: m.ty, src: format!("{}!({{{body}}})", m.name), want: Value::Object(want.clone()) });
                    }
                }
            }
            // member order and trailing comma vary with the case
            let n = out.len();
            if n % 3 == 1 {
                members.reverse();
            } else if n % 3 == 2 {
                let k = n % members.len();
                members.rotate_left(k);
            }
            let body = members.iter().map(|(k, x)| format!("{k:?}: {}", x.0)).collect::<Vec<_>>().join(", ");
            let src = format!("{}!({{{body}{}}})", m.name, if n % 2 == 0 { "," } else { "" });
            if seen.insert(Value::Object(want.clone()).to_string() + &p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-") + m.name) {
                out.push(Case { mac: m.name, ty: m.ty, src, want: Value::Object(want) });
            }
        }
    }
    out
}

pub const PRELUDE: &str = "#![allow(warnings)]\nuse vercre_macros::*;\nuse vercre_issuer::{SendType as Renamed, ResponseType, CodeChallengeMethod};\nconst CONST_S: &str = \"const value\";\nmod nested { pub const CONST_T: &str = \"path const\"; }\nfn encryption(alg: &str, enc: &str) -> vercre_issuer::CredentialResponseEncryption { serde_json::from_value(serde_json::json!({\"jwk\": {\"kty\": \"OKP\", \"crv\": \"Ed25519\", \"x\": \"x\"}, \"alg\": alg, \"enc\": enc})).unwrap() }\nfn helper(s: &str) -> String { format!(\"helped {s}\") }\n";
const PER_PROGRAM: usize = 1800;
const LOCALS: &str = "let var_s = \"variable\"; let var_string = String::from(\"owned\"); let var_bool = true; let var_send = Renamed::ByRef;";

/// serde writes absent options as null in places; absence is what is compared
fn strip(v: &Value) -> Value {
    match v {
        // an empty issuer or token is left out of the JSON serde writes
        Value::Object(m) => Value::Object(m.iter().filter(|(k, x)| !x.is_null() && !((*k == "credential_issuer" || *k == "access_token") && *x == "")).map(|(k, x)| (k.clone(), strip(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        x => x.clone(),
    }
}

pub fn run() {
    let mut c = Check::new("C10", "exploration");
    c.rule("every presence pattern of the optional members, every value form in every member, every pair of the first value forms, nested definitions, claim names, empty, long, unordered and repeating lists and lists of details for all four macros, in varying member order, compiled with the real macros; the value built is compared with the JSON literal and with what serde reads from it; distinct: distinct invocations");
    let cases = enumerate(&mut c);
    c.bound("invocations", cases.len());
    // a few programs, so that the compiler's memory stays bounded
    let chunks: Vec<Vec<usize>> = (0..cases.len()).collect::<Vec<_>>().chunks(PER_PROGRAM).map(<[usize]>::to_vec).collect();
    let first_line = PRELUDE.lines().count() + 1;
    let programs: Vec<String> = chunks
        .iter()
        .map(|ch| {
            let mut src = String::from(PRELUDE);
            for i in ch {
                let k = &cases[*i];
                src.push_str(&format!(
                    "fn case_{i}() -> (serde_json::Value, serde_json::Value) {{ {LOCALS} let r: vercre_issuer::{0} = {1}; let s: vercre_issuer::{0} = serde_json::from_str({2:?}).expect(\"literal\"); (serde_json::to_value(&r).unwrap(), serde_json::to_value(&s).unwrap()) }}\n",
                    k.ty,
                    k.src,
                    k.want.to_string()
                ));
            }
            src.push_str("fn main() { std::panic::set_hook(Box::new(|_| {}));\n");
            for i in ch {
                src.push_str(&format!("match std::panic::catch_unwind(case_{i}) {{ Ok((a, b)) => println!(\"{i}\\t{{a}}\\t{{b}}\"), Err(_) => println!(\"{i}\\tpanic\\tpanic\") }}\n"));
            }
            src.push_str("}\n");
            src
        })
        .collect();
    let (comp, exes) = crate::compile_all("gen-ok", &programs, false);
    let key = |k: &Case| format!("{} => {}", k.src, k.want);
    if !comp.ok {
        for (bin, l, msg) in &comp.errors {
            match l.checked_sub(first_line).and_then(|k| chunks[*bin].get(k)) {
                Some(&i) => {
                    c.case(&key(&cases[i]));
                    c.violation(&key(&cases[i]), json!({"does not compile": msg, "invocation": cases[i].src}));
                }
                None => {
                    eprintln!("{msg} at generated line {l}\n{}", comp.stderr);
                    std::process::exit(2);
                }
            }
        }
        c.finish()
    }
    let text: String = exes
        .iter()
        .map(|exe| String::from_utf8_lossy(&Command::new(exe).output().expect("run generated program").stdout).into_owned())
        .collect();
    let mut n = 0;
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let i: usize = f[0].parse().unwrap();
        let k = &cases[i];
        n += 1;
        if !c.case(&key(k)) {
            continue;
        }
        c.outcome(k.mac);
        c.distinct(&k.src);
        let (Ok(a), Ok(b)) = (serde_json::from_str::<Value>(f[1]), serde_json::from_str::<Value>(f[2])) else {
            c.violation(&key(k), json!({"panics at run time": k.src}));
            continue;
        };
        c.sample(json!({"invocation": k.src, "request": a}));
        c.expect(a == b && strip(&a) == strip(&k.want), &key(k), || json!({"invocation": k.src, "built": a, "from JSON": b, "literal": k.want}));
    }
    if n != cases.len() {
        eprintln!("generated program stopped after {n} of {} cases", cases.len());
        std::process::exit(2);
    }
    c.finish()
}
