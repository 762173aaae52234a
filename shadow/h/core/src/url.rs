use std::collections::BTreeMap;
use std::fmt::Debug;

use mc::gen::{product, words_upto};
use mc::{guard, Check};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use vercre_core::urlencode;

/// Every character with a role in URLs, JSON or percent-encoding, and
/// representatives of the rest.
const SIGMA: &[char] = &[
    'a', '&', '=', '%', '"', '\\', '{', '}', '[', ']', ',', ':', '+', ' ', '2', '6', '/', '?', '#', '\'', ';', '.', '_',
    '-', '~', '\n', '\t', '\0', '\u{7f}', 'é', '€', '😀', 'Z', '0', '@', '!', '$', '*', '(', '<', '|', '^', '`',
];
/// The subset that can interact with its neighbours.
const CORE: &[char] = &['a', '&', '=', '%', '"', '\\', '{', '}', '[', ']', ',', ':', '2', '6', '+', 'é'];

fn strings(alpha: &'static [char], max: usize) -> impl Iterator<Item = String> {
    words_upto(alpha.len(), max).map(|w| w.into_iter().map(|i| alpha[i]).collect())
}

/// A top-level string that is itself the text of a JSON object or array has no
/// representation of its own in this encoding.
fn is_json_text(s: &str) -> bool {
    s.starts_with(['{', '[']) && serde_json::from_str::<Value>(s).is_ok()
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
struct Top {
    first: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    opt: Option<String>,
    nested: Nested,
    list: Vec<String>,
    last: String,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
struct Nested {
    x: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    y: Option<String>,
    m: BTreeMap<String, String>,
    z: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum E {
    Unit,
    #[serde(rename = "a&b=c")]
    Odd,
    New(String),
    Tup(String, u8),
    Str { f: String },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Newtype(String);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Fields(String, i64, Vec<String>);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Unit;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Shapes {
    before: String,
    tuple: (String, i64),
    triple: [String; 3],
    newtype: Newtype,
    fields: Fields,
    many: Vec<Fields>,
    nothing: Vec<Unit>,
    maybe: Option<Fields>,
    one: E,
    two: E,
    three: E,
    enums: Vec<E>,
    unit: E,
    deep: Vec<Vec<BTreeMap<String, Vec<Option<String>>>>>,
    after: String,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Numbers {
    n: Inner,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Inner {
    a: i8,
    b: i16,
    c: i32,
    d: i64,
    e: u8,
    f: u16,
    g: u32,
    h: u64,
    i: f32,
    j: f64,
    k: bool,
    l: char,
    m: (),
    n: Option<u8>,
}

/// Bytes, which travel as a list of numbers.
#[derive(Clone, Debug, PartialEq, Deserialize)]
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Blob {
    before: String,
    top: Bytes,
    nested: (Bytes, Vec<Bytes>),
    after: String,
}
/// Top-level enums that have a representation of their own.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Choice {
    Text(String),
    #[serde(rename = "a&b=c")]
    Odd(String),
    Nested(Nested),
    List(Vec<String>),
    Pair(i64, u8),
    Lists(Vec<u8>, Vec<i8>),
}
/// A value whose serialization fails (where `AT` says), as it would for a type
/// the format does not have.
struct Leaf(usize);
thread_local! { static AT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
impl Serialize for Leaf {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if AT.with(|a| a.get()) == self.0 {
            return Err(serde::ser::Error::custom("no representation"));
        }
        s.serialize_str("ok")
    }
}
#[derive(Serialize)]
enum LeafEnum {
    New(Leaf),
    Tup(Leaf, Leaf),
    Str { a: Leaf, b: Leaf },
}
#[derive(Serialize)]
struct LeafTuple(Leaf, Leaf);
#[derive(Serialize)]
struct LeafNew(Leaf);
#[derive(Serialize)]
struct Leaves {
    a: Leaf,
    nested: LeafNested,
    list: Vec<Leaf>,
    tuple: (Leaf, Leaf),
    ts: LeafTuple,
    nt: LeafNew,
    enums: Vec<LeafEnum>,
    top_new: LeafEnum,
    top_tup: LeafEnum,
    top_str: LeafEnum,
    map: BTreeMap<String, Leaf>,
    opt: Option<Leaf>,
    z: Leaf,
}
#[derive(Serialize)]
struct LeafNested {
    x: Leaf,
    y: Option<Leaf>,
}
fn leaves() -> (Leaves, usize) {
    let n = std::cell::Cell::new(0);
    let l = || {
        n.set(n.get() + 1);
        Leaf(n.get())
    };
    let v = Leaves {
        a: l(),
        nested: LeafNested { x: l(), y: Some(l()) },
        list: vec![l(), l()],
        tuple: (l(), l()),
        ts: LeafTuple(l(), l()),
        nt: LeafNew(l()),
        enums: vec![LeafEnum::New(l()), LeafEnum::Tup(l(), l()), LeafEnum::Str { a: l(), b: l() }],
        top_new: LeafEnum::New(l()),
        top_tup: LeafEnum::Tup(l(), l()),
        top_str: LeafEnum::Str { a: l(), b: l() },
        map: BTreeMap::from([("k".to_string(), l()), ("l".to_string(), l())]),
        opt: Some(l()),
        z: l(),
    };
    (v, n.get())
}

/// A struct (or struct variant, or map of unknown length) with members of any
/// names.
struct Members(u8, Vec<(&'static str, Item)>);
enum Item {
    Text(String),
    Members(Members),
    List(Vec<Members>),
}
impl Serialize for Item {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Self::Text(t) => s.serialize_str(t),
            Self::Members(m) => m.serialize(s),
            Self::List(l) => s.collect_seq(l.iter().filter(|_| true)),
        }
    }
}
impl Serialize for Members {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeStruct, SerializeStructVariant};
        match self.0 {
            0 => {
                let mut t = s.serialize_struct("S", self.1.len())?;
                for (k, v) in &self.1 {
                    t.serialize_field(k, v)?;
                }
                t.end()
            }
            1 => {
                let mut t = s.serialize_struct_variant("E", 0, "V", self.1.len())?;
                for (k, v) in &self.1 {
                    t.serialize_field(k, v)?;
                }
                t.end()
            }
            _ => {
                let mut t = s.serialize_map(None)?;
                for (i, (k, v)) in self.1.iter().enumerate() {
                    if i % 2 == 0 {
                        t.serialize_entry(k, v)?;
                    } else {
                        t.serialize_key(k)?;
                        t.serialize_value(v)?;
                    }
                }
                t.end()
            }
        }
    }
}
fn members(c: &mut Check) {
    let mut names: Vec<String> = strings(SIGMA, 1).filter(|s| !s.is_empty()).flat_map(|s| [s.clone(), format!("{s}a"), format!("a{s}"), format!("a{s}b")]).collect();
    names.extend((1..=80).chain([127, 128, 129, 255, 256, 257, 1000]).map(|n| "n".repeat(n)));
    names.extend(["credential_issuer", "pre-authorized_code", "@context", "type", "null", "true", "0", "V", "é日😀", "authorization_details", "a.b", "a[0]", "a[]"].map(String::from));
    for n in names {
        let key = format!("member {}", n.chars().take(40).collect::<String>());
        if !c.case(&format!("{key} {}", n.len())) {
            continue;
        }
        let name: &'static str = Box::leak(n.into_boxed_str());
        let t = |x: &str| Item::Text(x.into());
        for form in [0, 2] {
            for inner in [0, 1, 2] {
                let m = || Members(inner, vec![("first", t("1")), (name, t(name)), ("last_", t("&="))]);
                let one = || Members(inner, vec![(name, t("only"))]);
                for at in 0..3 {
                    let mut all = vec![("start_", t("s")), ("deep_", Item::Members(m())), ("list_", Item::List(vec![m(), one(), m()])), ("end_", t("z"))];
                    all.insert([0, 2, 4][at], (name, if at == 1 { Item::Members(one()) } else { t("here") }));
                    let v = Members(form, all);
                    let want = serde_json::to_value(&v).unwrap();
                    let got = guard(|| urlencode::to_string(&v).map_err(|e| e.to_string()).and_then(|s| urlencode::from_str::<Value>(&s).map_err(|e| format!("{s}: {e}"))));
                    c.expect(got == Ok(Ok(want.clone())), &key, || json!({"value": want, "decoded": format!("{got:?}")}));
                }
            }
        }
        c.outcome("equal");
    }
}
/// What the encoding has no form for is refused or comes back; it is never
/// another value.
fn wide_numbers(c: &mut Check) {
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct U(String, Vec<u128>, Option<i128>);
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct W {
        first: String,
        list: Vec<u128>,
        pair: (i128, String),
        map: BTreeMap<String, i128>,
        inner: U,
        last: String,
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct One<T> {
        a: String,
        v: T,
        z: Option<T>,
    }
    fn one<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Check, key: String, x: impl Fn() -> T) {
        if c.case(&key) {
            let v = One { a: "a".into(), v: x(), z: Some(x()) };
            let got = guard(|| urlencode::to_string(&v).ok().map(|s| (urlencode::from_str::<One<T>>(&s).ok(), s)));
            c.outcome(if matches!(got, Ok(None)) { "refused" } else { "equal" });
            c.expect(matches!(&got, Ok(None)) || matches!(&got, Ok(Some((Some(w), _))) if *w == v), &key, || json!({"value": format!("{v:?}"), "outcome": format!("{got:?}")}));
        }
    }
    for n in [0u128, 1, 255, 1 << 32, i64::MAX as u128, u64::MAX as u128, u64::MAX as u128 + 1, (1 << 64) + 5, 1 << 65, 1 << 100, u128::MAX] {
        one(c, format!("u128 list {n}"), || vec![n, 1]);
        one(c, format!("u128 pair {n}"), || ("x".to_string(), n));
        one(c, format!("u128 map {n}"), || BTreeMap::from([("k".to_string(), n)]));
        one(c, format!("u128 optional {n}"), || vec![Some(n), None]);
        for i in [n as i128, -(n as i128 >> 1)] {
            one(c, format!("i128 list {i}"), || vec![i, 1]);
            one(c, format!("i128 pair {i}"), || ("x".to_string(), i));
            one(c, format!("i128 map {i}"), || BTreeMap::from([("k".to_string(), i)]));
        }
    }
    let nums = [0u128, 1, 255, u64::MAX as u128 - 1, u64::MAX as u128, u64::MAX as u128 + 1, 1 << 65, 1 << 100, u128::MAX, i128::MAX as u128];
    for (i, a) in nums.iter().enumerate() {
        for (j, b) in [0i128, -1, i64::MIN as i128, i64::MIN as i128 - 1, i64::MAX as i128 + 1, -(1 << 100), i128::MIN, i128::MAX].iter().enumerate() {
            let key = format!("wide number {i} {j}");
            if c.case(&key) {
                let v = W { first: "f".into(), list: vec![*a, 1], pair: (*b, "p".into()), map: BTreeMap::from([("k".into(), *b)]), inner: U("u".into(), vec![*a], Some(*b)), last: "l".into() };
                let got = guard(|| urlencode::to_string(&v).ok().map(|s| (urlencode::from_str::<W>(&s).ok(), s)));
                c.outcome(if matches!(got, Ok(None)) { "refused" } else { "equal" });
                c.expect(matches!(&got, Ok(None)) || matches!(&got, Ok(Some((Some(w), _))) if *w == v), &key, || json!({"value": format!("{v:?}"), "outcome": format!("{got:?}")}));
            }
        }
    }
}

/// Texts as they occur in requests: a trigger for special treatment, followed
/// by anything.
const STEMS: &[&str] = &[
    "http://", "https://a.b/c", "http", "did:", "did:key:z6Mk", "urn:ietf:", "openid://", "openid-credential-offer://?x=", "eyJhbGciOiJFZERTQSJ9.", "data:,", "mailto:a", "Bearer ", "Basic ", "{", "[", "{\"a\":", "[\"", "\"", "true", "null", "0", "-1", "1e5", "code", "S256", "a b",
    "jwt_vc_json", "urn:ietf:params:oauth:grant-type:pre-authorized_code", "2024-01-01T00:00:00", "\u{feff}", " ", "\n", "\t", "\r\n", "\0", "+64", "#", "?", "/", "..", "../", "<", "$", "@", "~", "*", "--", "&", "=", "%", "%25", "%2", "%7B", "%5B", "é", "日本", "😀", "e\u{301}",
];
fn contexts() -> Vec<String> {
    let mut tails: Vec<String> = strings(SIGMA, 2).collect();
    tails.extend(["%41", "%2B", "%2526", "%26x%3Dy", "a+b", "+%2B", "{}", "[]", "{\"a\":1}", "[1]", "{\"a\":\"%41\"}", "&a=b", "\\u0041", "\\n", "\u{feff}", "\u{200b}", "\u{2028}", "\r\n", "\r", "...", "//", "://", "&amp;", "&#38;", "<>", "null", "true", "0"].map(String::from));
    STEMS.iter().flat_map(|a| tails.iter().map(move |b| format!("{a}{b}"))).collect()
}

fn trip<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Check, key: &str, v: &T) {
    if !c.case(key) {
        return;
    }
    let r = guard(|| {
        let s = urlencode::to_string(v).map_err(|e| format!("encode: {e}"))?;
        let back: T = urlencode::from_str(&s).map_err(|e| format!("decode {s}: {e}"))?;
        Ok::<_, String>((s, back))
    });
    match r {
        Ok(Ok((s, back))) if &back == v => {
            if s.contains('%') {
                c.distinct(&s);
            }
            c.outcome("equal");
            c.sample(json!({"value": format!("{v:?}"), "encoded": s}));
        }
        Ok(Ok((s, back))) => c.violation(key, json!({"encoded": s, "value": format!("{v:?}"), "decoded": format!("{back:?}")})),
        Ok(Err(e)) => c.violation(key, json!({"value": format!("{v:?}"), "error": e})),
        Err(p) => c.violation(key, json!({"value": format!("{v:?}"), "panic": p})),
    }
}

/// JSON trees with at most `nodes` nodes.
fn trees(nodes: usize) -> Vec<Value> {
    let mut leaves = vec![
        json!(null), json!(true), json!(false), json!(0), json!(-1), json!(1.5), json!(u64::MAX), json!(i64::MIN),
    ];
    for s in ["", "a", "&", "=", "%26", "\"", "\\", "[", "}", "a\",\"b", "null", "1", "é"] {
        leaves.push(json!(s));
    }
    let mut by_size: Vec<Vec<Value>> = vec![vec![], leaves];
    by_size[1].push(json!([]));
    by_size[1].push(json!({}));
    for n in 2..=nodes {
        let mut out = vec![];
        // children: every ordered split of n-1 nodes over one or two children
        for v in &by_size[n - 1] {
            out.push(json!([v]));
            for k in ["k", "&", "a=b", "\"", ""] {
                out.push(json!({ k: v }));
            }
        }
        if n >= 3 {
            for l in 1..=n - 2 {
                for a in &by_size[l] {
                    for b in &by_size[n - 1 - l] {
                        out.push(json!([a, b]));
                        out.push(json!({"k": a, "=": b}));
                    }
                }
            }
        }
        by_size.push(out);
    }
    by_size.into_iter().flatten().collect()
}

pub fn round_trip() {
    let mut c = Check::new("C01", "exploration");
    c.rule("every string over a 43-character alphabet (all URL, JSON and percent syntax) up to the bound in every position of a struct, nested struct, map, sequence, tuple, enum; every JSON tree up to the node bound under every top-level key; triggers (escapes, JSON syntax, separators, controls) in contexts (alone, at the start, middle and end of words, of URLs, of long texts); non-trivial: the encoding contains an escape");
    let l = 2;
    c.bound("string_length_full_alphabet", l);
    let core_l = c.pick(4, 5);
    c.bound("string_length_core_alphabet", core_l);

    let put = |c: &mut Check, s: &str, tag: &str| {
        let base = Top {
            first: "1".into(),
            opt: Some("o".into()),
            nested: Nested { x: "x".into(), y: None, m: BTreeMap::from([("k".into(), "v".into())]), z: None },
            list: vec!["l".into()],
            last: "z".into(),
        };
        if !is_json_text(s) {
            let mut v = base.clone();
            v.first = s.into();
            trip(c, &format!("top.first {tag} {s:?}"), &v);
            let mut v = base.clone();
            v.opt = Some(s.into());
            trip(c, &format!("top.opt {tag} {s:?}"), &v);
            let mut v = base.clone();
            v.last = s.into();
            trip(c, &format!("top.last {tag} {s:?}"), &v);
        }
        let mut v = base.clone();
        v.nested.x = s.into();
        v.nested.y = Some(s.into());
        trip(c, &format!("nested {tag} {s:?}"), &v);
        let mut v = base.clone();
        v.nested.m = BTreeMap::from([(s.into(), "v".into()), (format!("{s}x"), s.into())]);
        trip(c, &format!("map {tag} {s:?}"), &v);
        let mut v = base.clone();
        v.list = vec![s.into(), String::new(), s.into()];
        trip(c, &format!("list {tag} {s:?}"), &v);
        let v = Shapes {
            before: "b".into(),
            tuple: (s.into(), -1),
            triple: [s.into(), "m".into(), s.into()],
            newtype: Newtype(if is_json_text(s) { "n".into() } else { s.into() }),
            fields: Fields(s.into(), 7, vec![s.into(), s.into()]),
            many: vec![Fields("[".into(), 0, vec![]), Fields(s.into(), -7, vec![s.into()])],
            nothing: vec![Unit, Unit],
            maybe: Some(Fields("m".into(), 1, vec![])),
            one: E::New(s.into()),
            two: E::Tup(s.into(), 0),
            three: E::Str { f: s.into() },
            enums: vec![E::Unit, E::New(s.into()), E::Tup(s.into(), 2), E::Str { f: s.into() }, E::Odd],
            unit: E::Odd,
            deep: vec![vec![], vec![BTreeMap::from([(s.to_string(), vec![None, Some(s.into())])])], vec![]],
            after: if is_json_text(s) { "a".into() } else { s.into() },
        };
        trip(c, &format!("shapes {tag} {s:?}"), &v);
    };
    for s in strings(SIGMA, l) {
        put(&mut c, &s, "full");
    }
    for s in strings(CORE, core_l).filter(|s| s.chars().count() > l) {
        put(&mut c, &s, "core");
    }
    // words a decoder might treat specially
    for s in ["null", "true", "false", "0", "-1", "1e5", "%", "%2", "%26", "%3D", "%252526", "a=b&c=d", "{\"a\":1", "\"[", "]\"", "\"{", "NaN", "Infinity", "-0", "1.0", "01", "0x1f", "1_000", "\u{feff}a", " a", "a ", "\r\n", "undefined", "None", "nil", "Some(a)", "()", "\"null\"", "\"\"", "''",
        "2024-01-01T00:00:00+00:00", "http://a.b/c?d=e&f=g#h", "did:key:z6Mk#z6Mk", "openid-credential-offer://?credential_offer=%7B%7D", "eyJhbGciOiJFZERTQSJ9.e30.c2ln", "[DONE", "{{", "[[", "{]", "[}", "{ }x", "[1,2", "[1,2]]",
        "}\"", "\":\"", "\",\"", "&presentation_definition=x", "first=evil&last=evil", "+", "%2B", "{a}", "[a", "{\"", "\\u0026"]
    {
        put(&mut c, s, "word");
    }
    // three characters, and triggers in context, in all places at once
    let everywhere = |c: &mut Check, s: &str, tag: &str| {
        let top = |t: String| if is_json_text(&t) { "j".to_string() } else { t };
        let v = Top {
            first: top(s.into()),
            opt: Some(top(format!("{s}x"))),
            nested: Nested { x: s.into(), y: Some(format!("y{s}")), m: BTreeMap::from([(s.into(), format!("{s}{s}")), (format!("k{s}"), s.into())]), z: Some(s.into()) },
            list: vec![s.into(), format!("{s}l"), s.into()],
            last: top(format!("x{s}")),
        };
        trip(c, &format!("everywhere {tag} {s:?}"), &v);
        let v = BTreeMap::from([(s.to_string(), top(s.into())), (format!("{s}k"), top(format!("{s}y"))), (format!("k{s}"), "v".to_string())]);
        trip(c, &format!("keys {tag} {s:?}"), &v);
    };
    for s in strings(SIGMA, 3).filter(|s| s.chars().count() == 3) {
        everywhere(&mut c, &s, "full");
    }
    for s in contexts() {
        everywhere(&mut c, &s, "context");
    }
    for n in [511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537] {
        for unit in ["a", "&", "é", "😀"] {
            everywhere(&mut c, &unit.repeat(n), "long");
        }
    }
    // two neighbouring top-level values
    for (a, b) in strings(CORE, 1).flat_map(|a| strings(CORE, 2).map(move |b| (a.clone(), b))) {
        if is_json_text(&a) || is_json_text(&b) {
            continue;
        }
        let v = BTreeMap::from([("a".to_string(), a.clone()), ("b".to_string(), b.clone())]);
        trip(&mut c, &format!("pair {a:?} {b:?}"), &v);
        let v = BTreeMap::from([(format!("k{a}"), b.clone()), (format!("l{b}"), a.clone())]);
        trip(&mut c, &format!("keys {a:?} {b:?}"), &v);
    }
    // numbers at their limits
    for (i, w) in words_upto(3, 0).chain(words_upto(3, 1)).enumerate() {
        let e = w.first().copied().unwrap_or(3);
        let v = Numbers {
            n: Inner {
                a: [i8::MIN, i8::MAX, 0, 1][e],
                b: [i16::MIN, i16::MAX, 0, 1][e],
                c: [i32::MIN, i32::MAX, 0, 1][e],
                d: [i64::MIN, i64::MAX, 0, 1][e],
                e: [u8::MIN, u8::MAX, 0, 1][e],
                f: [u16::MIN, u16::MAX, 0, 1][e],
                g: [u32::MIN, u32::MAX, 0, 1][e],
                h: [u64::MIN, u64::MAX, 0, 1][e],
                i: [f32::MIN, f32::MAX, 0.1, -0.5][e],
                j: [-1e300, 1e-300, 0.1, 1.0][e],
                k: e % 2 == 0,
                l: ['&', '"', 'é', '='][e],
                m: (),
                n: [None, Some(0), Some(255), Some(1)][e],
            },
        };
        trip(&mut c, &format!("numbers {i}"), &v);
    }
    // every value of the small integer types, and around every power of two
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    struct Ints {
        a: Vec<i8>,
        b: Vec<u8>,
        c: Vec<i16>,
        d: Vec<u16>,
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    struct Wide {
        e: (i32, u32, i64, u64),
        m: BTreeMap<String, i64>,
        f: Vec<f64>,
        g: Option<Vec<f32>>,
    }
    for k in 0..256i64 {
        let lo: Vec<i64> = (0..256).map(|i| k * 256 + i).collect();
        let v = Ints { a: vec![k as u8 as i8], b: vec![k as u8], c: lo.iter().map(|x| *x as u16 as i16).collect(), d: lo.iter().map(|x| *x as u16).collect() };
        trip(&mut c, &format!("integers {k}"), &v);
    }
    for p in 0..64 {
        for d in [-1i64, 0, 1] {
            for neg in [false, true] {
                let x = (1u64 << p).wrapping_add(d as u64);
                let y = if neg { (x as i64).wrapping_neg() } else { x as i64 };
                let v = Wide {
                    e: (y as i32, x as u32, y, x),
                    m: BTreeMap::from([(y.to_string(), y)]),
                    f: vec![y as f64, (y % (1 << 40)) as f64 + 0.5, 0.25],
                    g: Some(vec![(y % (1 << 20)) as f32, (y % (1 << 12)) as f32 + 0.125]),
                };
                trip(&mut c, &format!("wide 2^{p}{d:+} {neg}"), &v);
            }
        }
    }
    // every power of two a float can have, with its neighbours: those that
    // the JSON reader reads exactly however they are written
    let exact = |f: f64| f.is_finite() && [f.to_string(), format!("{f:e}"), serde_json::to_string(&f).unwrap()].iter().all(|t| serde_json::from_str::<f64>(t).is_ok_and(|g| g.to_bits() == f.to_bits()));
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    struct Floats {
        first: String,
        list: Vec<f64>,
        pair: (f64, f32),
        last: String,
    }
    let mut n = 0;
    for p in -1074..=1023 {
        let two = f64::from_bits(if p < -1022 { 1u64 << (p + 1074) } else { ((p + 1023) as u64) << 52 });
        for (i, f) in [two, -two, f64::from_bits(two.to_bits() + 1), f64::from_bits(two.to_bits() - 1), 10f64.powi(p / 4), 10f64.powi(p / 4) * 3.0].into_iter().enumerate() {
            if exact(f) {
                n += 1;
                let g = if (f as f32).is_finite() && exact(f64::from(f as f32)) { f as f32 } else { 0.5 };
                trip(&mut c, &format!("float {p} {i}"), &Floats { first: "f".into(), list: vec![f, 0.0, f], pair: (f, g), last: "l".into() });
            }
        }
    }
    c.bound("floats", n);
    // every character (quick: to the end of the common planes' edges)
    let last = c.pick(0x3100u32, 0x10_ffff);
    c.bound("characters", last);
    let edges = [0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x1_0000, 0x1_f600, 0x2_0000, 0xe_0001, 0xf_ffff, 0x10_ffff];
    for u in (0..=last).chain(edges.into_iter().filter(|e| *e > last)) {
        let Some(ch) = char::from_u32(u) else { continue };
        let mut v = Top { first: format!("{ch}"), last: format!("a{ch}b"), opt: Some(format!("{ch}{ch}")), ..Top::default() };
        v.nested.m.insert(ch.to_string(), format!("x{ch}"));
        v.list = vec![ch.to_string()];
        if !is_json_text(&v.first) && !is_json_text(v.opt.as_ref().unwrap()) {
            trip(&mut c, &format!("character {u:x}"), &v);
        }
        trip(&mut c, &format!("char {u:x}"), &BTreeMap::from([(format!("k{ch}"), vec![ch]), (format!("{ch}k"), vec![ch, ch]), (ch.to_string(), vec![])]));
    }
    // absent and present options, at the top and below
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    struct Opts {
        a: Option<String>,
        b: Option<Nested>,
        c: Option<Vec<Option<String>>>,
        d: Option<BTreeMap<String, Option<String>>>,
        e: Option<Newtype>,
        z: String,
        y: Option<Box<Option<String>>>,
    }
    for w in product(&[3, 3, 4, 3, 2, 3, 2]) {
        let t = |i: usize| ["", "null", "x&="][i];
        let v = Opts {
            a: [None, Some("null".into()), Some("".into())][w[0]].clone(),
            b: [None, Some(Nested::default()), Some(Nested { x: "null".into(), y: Some("y".into()), m: BTreeMap::new(), z: Some("z".into()) })][w[1]].clone(),
            c: [None, Some(vec![]), Some(vec![None]), Some(vec![Some("null".into()), None, Some("".into())])][w[2]].clone(),
            d: [None, Some(BTreeMap::new()), Some(BTreeMap::from([("k".into(), None), ("null".into(), Some("null".into()))]))][w[3]].clone(),
            e: [None, Some(Newtype("n".into()))][w[4]].clone(),
            z: t(w[5]).into(),
            y: [None, Some(Box::new(Some("deep".to_string())))][w[6]].clone(),
        };
        trip(&mut c, &format!("options {w:?}"), &v);
        let m: BTreeMap<String, Option<String>> = BTreeMap::from([("a".into(), v.a.clone()), ("m".into(), Some("m".into()))]);
        let key = format!("option map {w:?}");
        if c.case(&key) {
            let r = guard(|| urlencode::from_str::<BTreeMap<String, Option<String>>>(&urlencode::to_string(&m).ok()?).ok());
            let want: BTreeMap<_, _> = m.into_iter().filter(|x| x.1.is_some()).collect();
            c.expect(r == Ok(Some(want)), &key, || json!(format!("{r:?}")));
        }
    }
    // bytes
    for b in 0..=255u8 {
        let v = Blob { before: "".into(), top: Bytes(vec![b]), nested: (Bytes(vec![0, b]), vec![Bytes(vec![b, b, b])]), after: "".into() };
        trip(&mut c, &format!("byte {b}"), &v);
    }
    for w in words_upto(3, 4) {
        let b: Vec<u8> = w.iter().map(|i| [0u8, 38, 255][*i]).collect();
        let v = Blob { before: "[".into(), top: Bytes(b.clone()), nested: (Bytes(b.clone()), vec![Bytes(vec![]), Bytes(b.clone())]), after: "]".into() };
        trip(&mut c, &format!("bytes {b:?}"), &v);
    }
    // enums at the top
    for s in strings(SIGMA, l) {
        if !is_json_text(&s) {
            trip(&mut c, &format!("choice text {s:?}"), &Choice::Text(s.clone()));
            trip(&mut c, &format!("choice odd {s:?}"), &Choice::Odd(s.clone()));
        }
        let n = Nested { x: s.clone(), y: None, m: BTreeMap::from([(s.clone(), s.clone())]), z: Some(s.clone()) };
        trip(&mut c, &format!("choice nested {s:?}"), &Choice::Nested(n.clone()));
        trip(&mut c, &format!("some {s:?}"), &Some(n).map(|n| Top { nested: n, ..Top::default() }));
        trip(&mut c, &format!("choice list {s:?}"), &Choice::List(vec![s.clone(), s.clone()]));
    }
    for a in [i64::MIN, -1, 0, i64::MAX] {
        trip(&mut c, &format!("choice pair {a}"), &Choice::Pair(a, 255));
        trip(&mut c, &format!("choice lists {a}"), &Choice::Lists(vec![0, 255], vec![(a % 100) as i8]));
    }
    // what has no representation is an error, wherever it is
    let (_, n) = leaves();
    c.bound("failing places", n);
    for at in 0..=n {
        let key = format!("failing leaf {at}");
        if c.case(&key) {
            AT.with(|a| a.set(at));
            let r = guard(|| urlencode::to_string(&leaves().0).is_err());
            c.outcome(if at == 0 { "equal" } else { "refused" });
            c.expect(r == Ok(at != 0), &key, || json!({"place": at, "refused": format!("{r:?}")}));
        }
        AT.with(|a| a.set(usize::MAX));
    }
    for (i, v) in [LeafEnum::New(Leaf(1)), LeafEnum::Tup(Leaf(1), Leaf(2)), LeafEnum::Tup(Leaf(2), Leaf(1)), LeafEnum::Str { a: Leaf(1), b: Leaf(2) }, LeafEnum::Str { a: Leaf(2), b: Leaf(1) }].iter().enumerate() {
        let key = format!("failing top {i}");
        if c.case(&key) {
            AT.with(|a| a.set(1));
            let r = guard(|| urlencode::to_string(v).is_err());
            c.expect(r == Ok(true), &key, || json!(format!("{r:?}")));
            AT.with(|a| a.set(usize::MAX));
        }
    }
    // sizes: long strings, many parameters, long lists, deep nesting
    let size = c.pick(300, 1100);
    c.bound("size_ladder", size);
    for n in 0..=size {
        for unit in ["a", "&", "é", "\"", "%"] {
            let s = unit.repeat(n);
            let mut v = Top { first: s.clone(), last: "z".into(), ..Top::default() };
            v.nested.x = s.clone();
            v.nested.m.insert(s.clone(), s.clone());
            v.list = vec![s.clone(), "l".into()];
            trip(&mut c, &format!("length {n} {unit}"), &v);
        }
    }
    for n in (0..=70).chain([100, 128, 255, 256, 257, 500]) {
        if n > 0 {
            let m: BTreeMap<String, String> = (0..n).map(|i| (format!("k{i}&"), format!("={i}"))).collect();
            trip(&mut c, &format!("parameters {n}"), &m);
        }
        let list: Vec<String> = (0..n).map(|i| format!("[{i},")).collect();
        let v = Top { list: list.clone(), nested: Nested { m: list.iter().map(|l| (l.clone(), l.clone())).collect(), ..Nested::default() }, ..Top::default() };
        trip(&mut c, &format!("list of {n}"), &v);
        if n <= 60 {
            for (k, open) in ["list", "object"].iter().enumerate() {
                let mut t = json!("x\"&");
                for i in 0..n {
                    t = if k == 0 { json!([i, t]) } else { json!({ "a&": i, "k": t }) };
                }
                if n > 0 {
                    trip(&mut c, &format!("depth {n} {open}"), &Value::Object(Map::from_iter([("d".to_string(), t), ("z".to_string(), json!("end"))])));
                }
            }
        }
    }
    members(&mut c);
    wide_numbers(&mut c);
    // trees
    let nodes = c.pick(3, 4);
    c.bound("json_tree_nodes", nodes);
    let ts = trees(nodes);
    for (i, t) in ts.iter().enumerate() {
        if !(t.is_object() || t.is_array()) {
            continue;
        }
        for k in ["a", "&=", "é\""] {
            let mut m = Map::new();
            m.insert(k.into(), t.clone());
            m.insert("z".into(), json!("end"));
            trip(&mut c, &format!("tree {i} {k} {t}"), &Value::Object(m));
        }
    }
    c.assume("serde_json reads floating point numbers without the feature that makes every one of them exact: those it reads exactly are explored");
    c.assume("a top-level string that is itself the text of a JSON object or array is outside the encoding's domain");
    c.finish()
}

// ---------------------------------------------------------------------------

fn unhex(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}
/// Reference percent-decoder (invalid escapes stay as they are).
fn pct(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if let (Some(h), Some(l)) = (unhex(b[i + 1]), unhex(b[i + 2])) {
                out.push(h * 16 + l);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}

/// Reference reading of a query string: parameters in order, undecoded values
/// never interpreted.
fn reference(s: &str) -> Option<Vec<(String, String)>> {
    s.split('&').map(|p| p.split_once('=').map(|(k, v)| (pct(k), pct(v)))).collect()
}

pub fn wire() {
    let mut c = Check::new("C02", "exploration");
    c.rule("(a) every pair of strings up to the bound as neighbouring parameter values and keys: the query string, read by an independent parser, has exactly the given parameters; the same with triggers in contexts and with sizes up to 1025; (b) every character unescaped and every escape in every position of a query string, up to 1025 parameters, and every raw query string up to the bound over 16 structural characters: decoding returns exactly the parameters an independent parser sees, or an error; non-trivial: more than one parameter");
    let l = 3;
    c.bound("value_length", l);
    let vals: Vec<String> = strings(SIGMA, 1)
        .chain(strings(CORE, l).filter(|s| s.chars().count() > 1))
        .chain(["x&admin=true", "x=y", "%26admin%3Dtrue", "a+b c", "é&=", "{\"a\":\"&b=c\"}", "[\"&\",\"=\"]"].map(String::from))
        .collect();
    let second: Vec<String> = strings(CORE, 1).collect();
    let ok_chars = |s: &str| {
        let b = s.as_bytes();
        (0..b.len()).all(|i| match b[i] {
            b'%' => i + 2 < b.len() && unhex(b[i + 1]).is_some() && unhex(b[i + 2]).is_some(),
            x => x.is_ascii_alphanumeric() || b"-._~&=".contains(&x),
        })
    };
    for a in &vals {
        for b in &second {
            #[derive(Serialize)]
            struct P<'a> {
                alpha: &'a str,
                beta: Vec<&'a str>,
                gamma: &'a str,
            }
            let key = format!("encode {a:?} {b:?}");
            if !c.case(&key) {
                continue;
            }
            let beta = vec![a.as_str(), b.as_str()];
            let v = P { alpha: a, beta: beta.clone(), gamma: b };
            match guard(|| urlencode::to_string(&v)) {
                Ok(Ok(s)) => {
                    let want = vec![
                        ("alpha".to_string(), a.clone()),
                        ("beta".to_string(), serde_json::to_string(&beta).unwrap()),
                        ("gamma".to_string(), b.clone()),
                    ];
                    let got = reference(&s);
                    c.distinct(&s);
                    // the JSON text of the nested value may be formatted freely
                    let norm = |p: Option<Vec<(String, String)>>| {
                        p.map(|p| {
                            p.into_iter()
                                .map(|(k, v)| {
                                    let v = if k == "beta" {
                                        serde_json::from_str::<Value>(&v).map(|v| v.to_string()).unwrap_or(v)
                                    } else {
                                        v
                                    };
                                    (k, v)
                                })
                                .collect::<Vec<_>>()
                        })
                    };
                    c.expect(norm(got.clone()) == norm(Some(want)), &key, || json!({"encoded": s, "parameters": format!("{got:?}")}));
                    c.expect(ok_chars(&s), &key, || json!({"encoded": s, "unsafe characters": true}));
                    c.outcome("encoded");
                    c.sample(json!({"alpha": a, "gamma": b, "encoded": s}));
                }
                r => c.violation(&key, json!({ "outcome": format!("{r:?}") })),
            }
            // as keys of a top-level map
            let key = format!("keys {a:?} {b:?}");
            if a != b && c.case(&key) {
                let m = BTreeMap::from([(a.clone(), b.clone()), (b.clone(), a.clone())]);
                match guard(|| urlencode::to_string(&m)) {
                    Ok(Ok(s)) => {
                        let mut got = reference(&s).unwrap_or_default();
                        got.sort();
                        let want: Vec<(String, String)> = m.into_iter().collect();
                        c.expect(got == want && ok_chars(&s), &key, || json!({"encoded": s, "parameters": format!("{got:?}")}));
                    }
                    r => c.violation(&key, json!({ "outcome": format!("{r:?}") })),
                }
            }
        }
    }
    // triggers in context
    for t in contexts() {
        let key = format!("context {t:?}");
        if c.case(&key) {
            let m = BTreeMap::from([("first".to_string(), t.clone()), (t.clone(), format!("x{t}")), (format!("k{t}"), "x".to_string()), ("z".to_string(), "end".to_string())]);
            let got = guard(|| urlencode::to_string(&m));
            let ok = matches!(&got, Ok(Ok(s)) if ok_chars(s) && reference(s).is_some_and(|mut p| { p.sort(); p == m.clone().into_iter().collect::<Vec<_>>() })
                && (is_json_text(&t) || guard(|| urlencode::from_str::<BTreeMap<String, String>>(s).ok()) == Ok(Some(m.clone()))));
            c.expect(ok, &key, || json!(format!("{got:?}")));
        }
    }
    // parameters that are not strings: their JSON text (strings: their content)
    #[derive(Serialize)]
    #[serde(rename_all = "kebab-case")]
    enum Unit {
        PlainOne,
        #[serde(rename = "a&b=c d")]
        Odd,
    }
    #[derive(Serialize)]
    struct Scalars {
        a: i64,
        b: u64,
        c: bool,
        d: char,
        e: f64,
        f: Unit,
        g: i8,
        h: u8,
        i: Option<u32>,
        j: (i16, u16, i32),
        k: BTreeMap<String, u64>,
        l: Option<String>,
        m: f32,
        z: String,
    }
    for w in product(&[5, 5, 2, 5, 5, 2, 2]) {
        let key = format!("scalars {w:?}");
        if !c.case(&key) {
            continue;
        }
        let v = Scalars {
            a: [i64::MIN, i64::MAX, 0, -1, 9_007_199_254_740_993][w[0]],
            b: [u64::MAX, 0, 1, 1 << 63, 9_007_199_254_740_993][w[1]],
            c: w[2] == 0,
            d: ['&', '=', 'é', 'a', '"'][w[3]],
            e: [0.5, -1.25, 1e15, 0.1, 123_456.789][w[4]],
            f: if w[5] == 0 { Unit::PlainOne } else { Unit::Odd },
            g: [i8::MIN, i8::MAX, 0, -1, 1][w[0]],
            h: [u8::MAX, 0, 1, 128, 127][w[1]],
            i: if w[2] == 0 { Some(u32::MAX) } else { Some(0) },
            j: ([i16::MIN, i16::MAX, 0, -1, 1][w[0]], [u16::MAX, 0, 1, 1 << 15, 255][w[1]], [i32::MIN, i32::MAX, 0, -1, 1][w[0]]),
            k: BTreeMap::from([("k".to_string(), [u64::MAX, 0, 1, 1 << 63, 9_007_199_254_740_993][w[1]])]),
            l: Some(["a b", "&=%"][w[6]].into()),
            m: [0.5f32, -1.25, 2.0, 0.25, 1024.5][w[4]],
            z: "end".into(),
        };
        let want = serde_json::to_value(&v).unwrap();
        let got = guard(|| urlencode::to_string(&v));
        let Ok(Ok(s)) = &got else {
            c.violation(&key, json!({ "outcome": format!("{got:?}") }));
            continue;
        };
        let params = reference(s).unwrap_or_default();
        let same = params.len() == want.as_object().unwrap().len()
            && params.iter().all(|(k, t)| match &want[k] {
                Value::String(w) => t == w,
                // numbers may be written in any form
                Value::Number(w) if w.is_f64() => t.parse::<f64>().ok() == w.as_f64(),
                w => serde_json::from_str::<Value>(t).ok().as_ref() == Some(w),
            });
        c.outcome("encoded");
        c.distinct(s);
        c.expect(same && ok_chars(s), &key, || json!({"encoded": s, "value": want}));
    }
    // every character, in a value and in a key
    let last = c.pick(0x3100u32, 0x10_ffff);
    c.bound("characters", last);
    for u in (0..=last).chain([0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x1_0000, 0x1_f600, 0xf_ffff, 0x10_ffff].into_iter().filter(|e| *e > last)) {
        let Some(ch) = char::from_u32(u) else { continue };
        let key = format!("character {u:x}");
        if c.case(&key) {
            let m = BTreeMap::from([("first".to_string(), ch.to_string()), (format!("k{ch}"), format!("{ch}{ch}x")), (format!("l{ch}m"), format!("x{ch}")), (format!("{ch}n"), "n".to_string()), (ch.to_string(), "c".to_string()), ("z".to_string(), "end".to_string())]);
            let got = guard(|| urlencode::to_string(&m));
            let ok = matches!(&got, Ok(Ok(s)) if ok_chars(s) && reference(s).is_some_and(|mut p| { p.sort(); p == m.clone().into_iter().collect::<Vec<_>>() })
                && guard(|| urlencode::from_str::<BTreeMap<String, String>>(s).ok()) == Ok(Some(m.clone())));
            c.expect(ok, &key, || json!(format!("{got:?}")));
            // sent unescaped by another party
            let q = format!("first={ch}x&z=end");
            if !"&=%".contains(ch) && !is_json_text(&format!("{ch}x")) {
                let got = guard(|| urlencode::from_str::<BTreeMap<String, String>>(&q).ok());
                let want = BTreeMap::from([("first".to_string(), format!("{ch}x")), ("z".to_string(), "end".to_string())]);
                c.expect(got == Ok(Some(want)), &key, || json!({"query": q, "read": format!("{got:?}")}));
                for q in [format!("{ch}a=1&b{ch}=2&c=3{ch}&d{ch}e=f{ch}g&{ch}=h"), format!("{ch}{ch}a=1{ch}{ch}"), format!("a=1&{ch}z=2{ch}")] {
                    let all = reference(&q).unwrap();
                    let want: BTreeMap<String, String> = all.iter().cloned().collect();
                    if want.len() < all.len() {
                        continue;
                    }
                    let got = guard(|| urlencode::from_str::<BTreeMap<String, String>>(&q).ok());
                    c.expect(got == Ok(Some(want)), &key, || json!({"query": q, "read": format!("{got:?}")}));
                }
            }
        }
    }
    // every escape, in either case, alone and in pairs with its neighbours
    for b in 0..=255u8 {
        for (form, q) in [("upper", format!("a=x%{b:02X}y&z=%{b:02X}")), ("lower", format!("a=x%{b:02x}y&z=%{b:02x}")), ("key", format!("k%{b:02X}=v&l=w%{b:02x}%{b:02X}"))] {
            let key = format!("escape {b:02x} {form}");
            if c.case(&key) {
                let want: BTreeMap<String, String> = reference(&q).unwrap().into_iter().collect();
                let got = guard(|| urlencode::from_str::<BTreeMap<String, String>>(&q).ok());
                c.expect(got == Ok(Some(want)) , &key, || json!({"query": q, "read": format!("{got:?}")}));
            }
        }
    }
    // sizes
    for n in (1..=80).chain([127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025]) {
        for unit in ["a", "&", "é", "%", "+", "%26", " "] {
            let v = unit.repeat(n);
            let key = format!("size {n} {unit}");
            if c.case(&key) {
                let m = BTreeMap::from([("first".to_string(), v.clone()), (format!("k{v}"), "x".to_string()), ("z".to_string(), "end".to_string())]);
                let got = guard(|| urlencode::to_string(&m));
                let ok = matches!(&got, Ok(Ok(s)) if ok_chars(s) && reference(s).is_some_and(|mut p| { p.sort(); p == m.clone().into_iter().collect::<Vec<_>>() })
                    && guard(|| urlencode::from_str::<BTreeMap<String, String>>(s).ok()) == Ok(Some(m.clone())));
                c.expect(ok, &key, || json!(format!("{got:?}")));
            }
        }
        let key = format!("{n} parameters");
        if c.case(&key) {
            let q: String = (0..n).map(|i| format!("{}k{i}=v%26{i}", if i > 0 { "&" } else { "" })).collect();
            let want: BTreeMap<String, String> = (0..n).map(|i| (format!("k{i}"), format!("v&{i}"))).collect();
            let got = guard(|| urlencode::from_str::<BTreeMap<String, String>>(&q).ok());
            c.expect(got == Ok(Some(want)), &key, || json!(format!("{got:?}")));
        }
    }
    // (b) decoding
    const RAW: &[char] = &['a', '=', '&', 'b', '%', '2', '6', '{', '}', '"', '[', ']', ',', ':', '+', '3'];
    let n = c.pick(6, 7);
    c.bound("raw_length", n);
    let longer = [
        "a=1&b=2", "a=%26b%3D2", "a=1&a=2", "a=1&%61=2", "a=1&b", "a=1&", "&a=1", "a", "", "=", "a=", "=a", "a=b=c", "a==", "a=%7B%22b%22%3A1%7D",
        "a={\"b\":\"c&d\"}", "a={\"b\":\"c%26d\"}", "a=[1,2]", "a=%5B1%2C2%5D", "a=%", "a=%f", "a=%ff", "a=%C3%A9", "a=b&c={\"d\":[1,{\"e\":\"=\"}]}",
        "a=+&b=%2B", "a=%00", "a=\"b\"", "a=\"},\"b\":{\"", "a=1\",\"b\":\"2",
    ];
    let raws = words_upto(RAW.len(), n).map(|w| w.into_iter().map(|i| RAW[i]).collect::<String>());
    for s in longer.iter().map(|s| s.to_string()).chain(raws) {
        let key = format!("decode {s:?}");
        if !c.case(&key) {
            continue;
        }
        let want = reference(&s);
        match guard(|| urlencode::from_str::<BTreeMap<String, Value>>(&s)) {
            Err(p) => c.violation(&key, json!({ "panic": p })),
            Ok(Err(_)) => {
                // a well-formed query string without duplicates must be read
                let ok = want.is_some_and(|w| {
                    let mut k: Vec<_> = w.iter().map(|p| &p.0).collect();
                    k.sort();
                    k.dedup();
                    k.len() == w.len()
                });
                c.outcome("rejected");
                c.expect(!ok, &key, || json!({"rejected": s}));
            }
            Ok(Ok(m)) => {
                c.outcome("decoded");
                let Some(w) = want else {
                    c.violation(&key, json!({"malformed but accepted": format!("{m:?}")}));
                    continue;
                };
                if w.len() > 1 {
                    c.distinct(&s);
                }
                let mut exp: BTreeMap<String, Value> = BTreeMap::new();
                let mut dup = false;
                for (k, v) in w {
                    let v = if is_json_text(&v) { serde_json::from_str(&v).unwrap() } else { Value::String(v) };
                    dup |= exp.insert(k, v).is_some();
                }
                c.expect(!dup && m == exp, &key, || json!({"decoded": format!("{m:?}"), "expected": format!("{exp:?}"), "duplicate": dup}));
            }
        }
    }
    let _ = product(&[1]);
    c.finish()
}
