use mc::gen::{self, words_upto};
use mc::Check;
use serde_json::{json, Value};
use vercre_dif_exch::{Constraints, Field, Filter, FilterValue};

use crate::{verdict, Doc};

fn cons(path: &str, value: Option<FilterValue>, optional: Option<bool>) -> Constraints {
    Constraints {
        fields: Some(vec![Field {
            path: vec![path.into()],
            filter: value.map(|value| Filter { type_: "string".into(), value }),
            optional,
            ..Field::default()
        }]),
        limit_disclosure: None,
    }
}

fn check(c: &mut Check, f: FilterValue, v: &Value, want: bool) {
    let key = format!("{f:?} on {v}");
    if !c.case(&key) {
        return;
    }
    let got = verdict(&cons("$.v", Some(f.clone()), None), &Doc(Some(json!({ "v": v }))));
    c.expect(got == Ok(want), &key, || json!({"verdict": format!("{got:?}"), "expected": want}));
    c.outcome(&format!("{} {want}", serde_json::to_value(&f).unwrap().as_object().unwrap().keys().next().unwrap()));
    if want {
        c.distinct(&key);
    }
    c.sample(json!({"filter": f, "value": v, "match": want}));
}

fn strings(alpha: &[&str], n: usize) -> Vec<String> {
    words_upto(alpha.len(), n).map(|w| w.into_iter().map(|i| alpha[i]).collect()).collect()
}

fn values() -> Vec<Value> {
    vec![
        json!(null), json!(true), json!(false), json!(0), json!(1), json!(-1), json!(1.5), json!(10), json!(100), json!([]), json!(["a"]), json!(["a", "b"]),
        json!([["a"]]), json!([null]), json!([1]), json!([true]), json!([{"a": "a"}]), json!({}), json!({"a": "a"}), json!({"const": "a"}), json!(["\"a\""]),
    ]
}

fn days(y: i32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 0,
    }
}

pub fn run() {
    let mut c = Check::new("C07", "exploration");
    c.rule("const: every pair of strings up to the bound over 5 symbols and every JSON kind of value; pattern: 12 patterns with independent matchers on every string up to the bound and every kind; format: every y-m-d in range (valid or not), every hh:mm:ss, offsets and fractions, and malformed variants, other notations of a time; every text with its near misses; every pattern after every other one; distinct: cases that match");
    let alpha = ["a", "b", "\"", "\\", "1"];
    let n = c.pick(4, 6);
    c.bound("string_length", n);
    let ss = strings(&alpha, n);
    let short = strings(&alpha, 2);
    // const
    for k in &short {
        for s in &ss {
            check(&mut c, FilterValue::Const(k.clone()), &json!(s), s == k);
        }
    }
    for (k, s) in [("A", "a"), ("a", "A"), ("a", " a"), ("a", "a "), ("é", "é"), ("", ""), ("null", "null"), ("true", "true"), ("EmployeeIDCredential", "EmployeeIDCredential"), ("EmployeeIDCredential", "EmployeeIDCredentials"), ("a.b", "axb"), (".*", "a")] {
        check(&mut c, FilterValue::Const(k.into()), &json!(s), s == k);
    }
    for k in ["", "a", "b", "null", "true", "false", "0", "1", "-1", "1.5", "10", "100", "1.0", "01", "[]", "{}", "[\"a\"]", "{\"a\":\"a\"}", "\"a\""] {
        for v in values() {
            let want = match &v {
                Value::Array(a) => a.iter().any(|e| e.as_str() == Some(k)),
                Value::Number(n) => n.to_string() == k,
                Value::Bool(b) => b.to_string() == k,
                _ => false,
            };
            check(&mut c, FilterValue::Const(k.into()), &v, want);
        }
        // arrays of every content up to two elements
        for w in words_upto(4, 2) {
            let items = [json!("a"), json!("b"), json!(""), json!(1)];
            let v = Value::Array(w.iter().map(|i| items[*i].clone()).collect());
            let want = w.iter().any(|i| items[*i].as_str() == Some(k));
            check(&mut c, FilterValue::Const(k.into()), &v, want);
        }
    }
    // what is easily taken for the constant, alone and at every place of a list
    for k in ["EmployeeIDCredential", "a", "A b", "did:example:alice#k0", "http://a.example/b/", "2024-01-01", "straße", "Straße", "ÉCOLE", "true", "10", "0", " ", "a\u{301}", "ﬁ"] {
        let mut all = gen::near(k);
        all.push(k.to_string());
        all.extend(["strasse", "STRASSE", "école", "á", "fi", "1e1", "10.0", "+10", "010", "True", "TRUE"].map(String::from));
        for s in &all {
            check(&mut c, FilterValue::Const(k.into()), &json!(s), s == k);
            check(&mut c, FilterValue::Const(s.clone()), &json!(k), s == k);
            for v in [json!([s]), json!(["x", s]), json!([s, "x"]), json!(["x", "y", s]), json!([null, 1, s]), json!([[], {}, s])] {
                check(&mut c, FilterValue::Const(k.into()), &v, s == k || (k == "x" || k == "y"));
            }
            // inside another value it is not there
            for v in [json!({ "a": s }), json!({ (s.as_str()): s }), json!([[s]]), json!([{ "a": s }])].into_iter().chain(
                ["value", "@value", "@id", "id", "const", "name", "type", "0", "text", "en"].iter().flat_map(|m| [json!({ *m: s }), json!({ *m: [s] }), json!({ *m: { *m: s } }), json!([{ *m: s }])]),
            ) {
                check(&mut c, FilterValue::Const(k.into()), &v, false);
            }
        }
    }
    // long lists and long texts
    for n in (1..=66).chain([127, 128, 129, 255, 256, 257, 1000, 1025]) {
        for at in [0, n / 2, n - 1] {
            let mut l = vec!["other".to_string(); n];
            check(&mut c, FilterValue::Const("k".into()), &json!(l), false);
            l[at] = "k".into();
            check(&mut c, FilterValue::Const("k".into()), &json!(l), true);
            check(&mut c, FilterValue::Pattern("k".into()), &json!(l), true);
        }
        let (t, u) = ("t".repeat(n), "t".repeat(n - 1) + "u");
        check(&mut c, FilterValue::Const(t.clone()), &json!(t), true);
        check(&mut c, FilterValue::Const(t.clone()), &json!(u), false);
        check(&mut c, FilterValue::Const(u.clone()), &json!(t), false);
        check(&mut c, FilterValue::Pattern(format!("^t{{{n}}}$")), &json!(t), true);
        check(&mut c, FilterValue::Pattern(format!("^t{{{n}}}$")), &json!(u), false);
    }
    // pattern
    type M = fn(&str) -> bool;
    let pats: Vec<(&str, M)> = vec![
        ("a", |s| s.contains('a')),
        ("^a", |s| s.starts_with('a')),
        ("a$", |s| s.ends_with('a')),
        ("^a$", |s| s == "a"),
        ("^a+b$", |s| s.len() >= 2 && s.ends_with('b') && s[..s.len() - 1].bytes().all(|b| b == b'a')),
        ("^$", |s| s.is_empty()),
        ("", |_| true),
        ("a|b", |s| s.contains('a') || s.contains('b')),
        ("\"", |s| s.contains('"')),
        ("^[^\"]*$", |s| !s.contains('"')),
        ("[0-9]", |s| s.bytes().any(|b| b.is_ascii_digit())),
        ("\\\\", |s| s.contains('\\')),
        ("A", |s| s.contains('A')),
        ("(?i)A", |s| s.contains('a') || s.contains('A')),
    ];
    for (p, m) in &pats {
        for s in &ss {
            check(&mut c, FilterValue::Pattern((*p).into()), &json!(s), m(s));
        }
    }
    // a pattern on a list of types finds a member by name, as the verifier and
    // wallet use it
    for types in [vec!["VerifiableCredential", "EmployeeIDCredential"], vec!["VerifiableCredential"], vec!["Other"], vec![]] {
        for p in ["EmployeeID[a-zA-Z]+", "EmployeeIDCredential", "Verifiable", "Missing"] {
            let stem = p.split('[').next().unwrap();
            let want = types.iter().any(|t| t.contains(stem));
            check(&mut c, FilterValue::Pattern(p.into()), &json!(types), want);
        }
    }
    // patterns of every kind on values of every kind, with the regular
    // expression engine as oracle
    let mut vals: Vec<Value> = values();
    vals.extend(
        ["", "a", "A", "ab", "ba", "aa", "a\nb", "b\na", "a\n", "\na", "a b", " a", "a ", "\t", "é", "É", "aé", "日本", "1", "12", "a1", "EmployeeIDCredential", "employeeidcredential", "VerifiableCredential", "https://example.com/issuers/14",
         "did:example:alice#k0", "2023-11-20T23:21:55Z", "null", "true", "[\"a\"]", "{\"a\":\"a\"}", "\"a\"", "\\", "a\\", ".", "a.b", "axb", "^a$", "(", "a\0b", "a\r\nb", "/a/", "/A/", "/a/i", "/a", "a/", "'a'", "`a`", "%a%", "xax", "a,b", "a;b", "#a", "~a", "=a", "!a", "@a", "a:b", "[a]", "{a}", "<a>", "(a)"]
            .map(|s| json!(s)),
    );
    vals.extend([json!(["a\nb"]), json!(["é"]), json!({"b": {"a": 1}}), json!(1e100), json!(-0.5), json!(u64::MAX), json!(["VerifiableCredential", "EmployeeIDCredential"]), json!("a".repeat(5000)), json!("b".repeat(5000) + "a")]);
    for p in [
        "", "a", "^a", "a$", "^a$", "(?m)^a$", "(?s)a.b", "a.b", "^.$", "^.*$", "^.+$", "^\\w+$", "^\\S*$", "\\s", "\\d", "^\\d+$", "\\D", "[aé]", "^[^a]*$", "(?i)employeeid", "EmployeeID[a-zA-Z]+", "^EmployeeID", "Credential$", "^\\[", "\\]$",
        "^\\{", "\\}$", "^\"", "\"$", "\"a\"", "null", "^null$", "true", "^true$", "^-", "\\.", "^https://", "issuers/\\d+$", "^did:[a-z]+:", "#k\\d$", "日", "^\\p{L}+$", "\\\\", "\\n", "\\x00", "^(a|b)*$", "a{2,}", "a{5000}", "(?x) a # c", "\\ba\\b", "^a\\z", "\\Aa", "(?-u)a", "a|$^", "(?:a)(b)?", "1", "[[:digit:]]{2}",
        "/a/", "/a/i", "/A/i", "a/", "/", "\"a", "'a'", "`a`", "a*", "a?", "%a%", " a", "a ", "^ a$", "\ta", "a,b", "a;b", "#a", "~a", "=a", "!a", "@a", "a:b", "[a]", "<a>", "(a)", "\\/a\\/", "a\\.b", "\\^a\\$", "i", "regex:a", "re:a",
    ] {
        let re = regex::Regex::new(p).expect("pattern");
        for v in &vals {
            let want = v.as_str().map_or_else(|| re.is_match(&v.to_string()), |s| re.is_match(s));
            check(&mut c, FilterValue::Pattern(p.into()), v, want);
        }
    }
    // nested, long and repeated patterns
    for n in [1, 2, 5, 10, 19, 20, 21, 32, 50, 64, 99, 100, 101, 128, 200] {
        for (p, yes, no) in [
            (format!("^{}a{}$", "(".repeat(n), ")".repeat(n)), "a".to_string(), "b".to_string()),
            (format!("^{}a{}$", "(?:".repeat(n), ")".repeat(n)), "a".to_string(), "(a)".to_string()),
            (format!("^{}$", "(a)".repeat(n)), "a".repeat(n), "a".repeat(n - 1)),
            (format!("^{}$", "[ab]".repeat(n)), "ab".repeat(n)[..n].to_string(), "a".repeat(n + 1)),
            (format!("^(?:{})$", (0..n).map(|i| format!("w{i}")).collect::<Vec<_>>().join("|")), format!("w{}", n - 1), format!("w{n}")),
            (format!("^a{{{n},{}}}$", 2 * n), "a".repeat(2 * n), "a".repeat(2 * n + 1)),
        ] {
            check(&mut c, FilterValue::Pattern(p.clone()), &json!(yes), true);
            check(&mut c, FilterValue::Pattern(p.clone()), &json!(no), false);
        }
    }
    // patterns that differ in one place only, one after the other (forth and
    // back), each on its own text and on the others'; blanks count
    for stem in ["a", " a", "a ", "\tb", "x y", "VerifiableCredential", "EmployeeIDCredential of the first kind", "https://example.com/credentials/issuers/number/14", "did:example:ebfeb1f712ebc6f1c276e12ec21"] {
        let mut texts = vec![stem.to_string()];
        texts.extend(gen::near(stem).into_iter().filter(|t| !t.is_empty()));
        texts.truncate(if c.thorough() { 40 } else { 24 });
        for n in [8, 16, 24, 32, 48, 64, 100] {
            texts.push(format!("{}{stem}", "p".repeat(n)));
            texts.push(format!("{}{stem}s", "p".repeat(n)));
        }
        for anchored in [true, false] {
            for back in [false, true] {
                let mut order: Vec<&String> = texts.iter().collect();
                if back {
                    order.reverse();
                }
                for p in order {
                    let pat = if anchored { format!("^{}$", regex::escape(p)) } else { regex::escape(p) };
                    for t in &texts {
                        let key = format!("near patterns {anchored} {back} {pat:?} on {t:?}");
                        if c.case(&key) {
                            let want = if anchored { p == t } else { t.contains(p.as_str()) };
                            let got = verdict(&cons("$.v", Some(FilterValue::Pattern(pat.clone())), None), &Doc(Some(json!({ "v": t }))));
                            c.expect(got == Ok(want), &key, || json!({"verdict": format!("{got:?}"), "expected": want}));
                            if want {
                                c.distinct(&key);
                            }
                        }
                    }
                }
            }
        }
    }
    // the declared type of the filter does not change what matches
    for ty in ["", "string", "array", "number", "integer", "boolean", "object", "null", "String", "date"] {
        for (value, f) in [
            FilterValue::Const("a".into()), FilterValue::Const("1".into()), FilterValue::Const("true".into()), FilterValue::Pattern("^a$".into()), FilterValue::Pattern("a".into()), FilterValue::Format("date".into()), FilterValue::Format("date-time".into()),
        ]
        .into_iter()
        .map(|v| (v.clone(), v))
        {
            for v in vals.iter().chain(&[json!("2023-11-20")]) {
                let key = format!("type {ty} {f:?} on {v}");
                if c.case(&key) {
                    let mut cs = cons("$.v", Some(value.clone()), None);
                    let plain = verdict(&cs, &Doc(Some(json!({ "v": v }))));
                    cs.fields.as_mut().unwrap()[0].filter.as_mut().unwrap().type_ = ty.into();
                    let got = verdict(&cs, &Doc(Some(json!({ "v": v }))));
                    c.expect(got == plain, &key, || json!({"verdict": format!("{got:?}"), "with type string": format!("{plain:?}")}));
                }
            }
        }
    }
    // formats
    let date = |s: &str| FilterValue::Format(s.to_string());
    let years: Vec<i32> = if c.thorough() { (1..=2500).chain([9999]).collect() } else { (1899..=2101).chain([1, 400, 1600, 9999]).collect() };
    for y in years {
        for m in 0..=13u32 {
            for d in 0..=32u32 {
                let s = format!("{y:04}-{m:02}-{d:02}");
                let want = d >= 1 && d <= days(y, m);
                check(&mut c, date("date"), &json!(s), want);
                if d <= 1 || d >= 28 {
                    check(&mut c, date("date-time"), &json!(format!("{s}T00:00:00Z")), want);
                }
            }
        }
    }
    for (hh, mm, ss) in (0..=25).flat_map(|h| [0, 1, 30, 59, 60, 61, 99].into_iter().flat_map(move |m| [0, 30, 59, 61, 99].into_iter().map(move |s| (h, m, s)))) {
        let want = hh < 24 && mm < 60 && ss < 60;
        check(&mut c, date("date-time"), &json!(format!("2023-11-20T{hh:02}:{mm:02}:{ss:02}Z")), want);
        check(&mut c, date("date-time"), &json!(format!("2023-11-20T{hh:02}:{mm:02}:{ss:02}.5+01:00")), want);
    }
    for (h, m) in (0..=26).flat_map(|h| (0..=62).map(move |m| (h, m))) {
        for sign in ['+', '-'] {
            let s = format!("2023-11-20T23:21:55{sign}{h:02}:{m:02}");
            check(&mut c, date("date-time"), &json!(s), h < 24 && m < 60);
        }
    }
    for n in 0..=12 {
        for z in ["Z", "+01:00", "", "z", "-00:00"] {
            let s = format!("2023-11-20T23:21:55.{}{z}", "7".repeat(n));
            check(&mut c, date("date-time"), &json!(s), n > 0 && !z.is_empty());
        }
    }
    // every single character of a timestamp or date replaced by another
    for (f, good) in [("date", "2023-11-20"), ("date-time", "2023-11-20T23:21:55Z"), ("date-time", "2023-11-20T23:21:55.25+10:00")] {
        for i in 0..good.len() {
            for x in ["x", ".", "/", "", ",", "_", "T", "Z", "\"", "\0", "٣"] {
                let mut s = good.to_string();
                s.replace_range(i..=i, x);
                let sep = i == 10 && f == "date-time";
                let cut = x.is_empty() || s == good || (f == "date-time" && i == good.len() - 1) || (f == "date-time" && i > 18);
                if !sep && !cut {
                    check(&mut c, date(f), &json!(s), false);
                }
            }
        }
    }
    for (s, want) in [
        ("2023-11-20T23:21:55Z", true), ("2023-11-20T23:21:55.123456789Z", true), ("2023-11-20T23:21:55+13:00", true), ("2023-11-20T23:21:55-08:30", true),
        ("2023-11-20T23:21:55", false), ("2023-11-20", false), ("2023-11-20T23:21Z", false), ("23:21:55Z", false), ("", false), ("x2023-11-20T23:21:55Z", false),
        ("1990-12-31T23:59:60Z", true), ("1990-12-31T15:59:60-08:00", true), ("1937-01-01T12:00:27.87+00:20", true), ("1985-04-12T23:20:50.52Z", true), ("1996-12-19T16:39:57-08:00", true), ("2016-12-31T23:59:60.5Z", true), ("2023-11-20T23:59:61Z", false), ("2023-11-20T23:21:55Zx", false), ("2023-11-20T23:21:55ZZ", false), ("2023/11/20T23:21:55Z", false), ("tomorrow", false), ("1700515315", false),
    ] {
        check(&mut c, date("date-time"), &json!(s), want);
    }
    for (s, want) in [
        ("2023-11-20", true), ("2023-11-20T00:00:00Z", false), ("2023-11-20 ", false), ("x2023-11-20", false), ("20231120", false), ("2023-11", false), ("", false),
        ("11/20/2023", false), ("2023/11/20", false), ("not a date", false), ("2023-11-20x", false), ("20-11-2023", false),
    ] {
        check(&mut c, date("date"), &json!(s), want);
    }
    // other notations, and what is easily taken for a timestamp or a date
    let shape = regex::Regex::new(r"(?-u)^\d{4}-\d\d-\d\d[Tt]\d\d:\d\d:\d\d(\.\d+)?([Zz]|[+-]\d\d:\d\d)$").unwrap();
    // leading blanks and missing zeros of dates are left open
    let loose = regex::Regex::new(r"^\s*[+-]?\d+-\s*\d+-\s*\d+$").unwrap();
    for s in [
        "Mon, 20 Nov 2023 23:21:55 GMT", "Mon, 20 Nov 2023 23:21:55 +0000", "20 Nov 2023 23:21:55 +0000", "Monday, 20-Nov-23 23:21:55 GMT", "Mon Nov 20 23:21:55 2023", "Nov 20 2023", "20231120T232155Z", "2023-W47-1", "2023-W47-1T23:21:55Z",
        "2023-324", "2023-324T23:21:55Z", "2023-11-20T23:21:55,5Z", "2023-11-20T232155Z", "2023-11-20T23:21:55+0100", "2023-11-20T23:21:55+01", "2023-11-20T23:21:55 UTC", "2023-11-20 23:21:55", "2023-11-20T23:21:55.Z", "2023-11-20T23:21:55[Europe/Paris]",
        "1700515315", "1700515315000", "1700515315.5", "now", "today", "P1D", "2023-11-20T23:21:55Z/2023-11-21T23:21:55Z", "2023-11-20T24:00:00Z", "0", "-1", "infinity", "2023", "23:21:55", "T23:21:55Z",
    ] {
        check(&mut c, date("date-time"), &json!(s), false);
        check(&mut c, date("date"), &json!(s), false);
    }
    for good in ["2023-11-20T23:21:55Z", "2023-11-20T23:21:55.25+10:00", "0000-01-01T00:00:00-00:00", "2023-11-20"] {
        let f = if good.len() > 10 { "date-time" } else { "date" };
        check(&mut c, date(f), &json!(good), true);
        for s in gen::near(good) {
            // digits replaced by the next one are judged above
            if shape.is_match(&s) || (f == "date" && loose.is_match(&s)) {
                continue;
            }
            check(&mut c, date(f), &json!(s), false);
        }
        for w in [" ", "\t", "\n", "\r\n", "\u{a0}", "\u{feff}", "\u{2003}", "\0", "\"", "'", ";", "Z", "+00:00"] {
            check(&mut c, date(f), &json!(format!("{good}{w}")), false);
            if f != "date" || w.trim() == w {
                check(&mut c, date(f), &json!(format!("{w}{good}")), false);
            }
        }
    }
    for f in ["date", "date-time"] {
        for v in values() {
            check(&mut c, date(f), &v, false);
        }
        check(&mut c, date(f), &json!(["2023-11-20"]), false);
        check(&mut c, date(f), &json!({"v": "2023-11-20T23:21:55Z"}), false);
        check(&mut c, date(f), &json!(20231120), false);
        for x in ["2023-11-20", "2023-11-20T23:21:55Z"] {
            for v in [json!([x]), json!([x, x]), json!([[x]]), json!([null, x]), json!({ "v": x }), json!({ "@value": x }), json!({ "value": x }), json!({ "date": x }), json!({ x: x }), json!([{ "v": x }]), json!({ "v": [x] })] {
                check(&mut c, date(f), &v, false);
            }
        }
        for v in [json!(1_700_515_315), json!(1_700_515_315_000_u64), json!(1_700_515_315.5), json!(-1_700_515_315), json!(2023), json!(0), json!([1_700_515_315]), json!([2023, 11, 20]), json!({"y": 2023, "m": 11, "d": 20})] {
            check(&mut c, date(f), &v, false);
        }
    }
    c.finish()
}

pub fn total() {
    let mut c = Check::new("C08", "exploration");
    c.rule("every path string over 16 JSONPath symbols, every pattern over 14 regex symbols and every format name up to the bound, on documents of every JSON kind, required and optional: evaluation returns, and what cannot be evaluated never counts as satisfied; distinct: inputs that do evaluate");
    let docs = [json!({"a": "b", "b": [1, "a"], "0": {"a": null}}), json!([{"a": 1}]), json!(null), json!("a")];
    // paths
    let sym = ["$", ".", "[", "]", "*", "'", "a", "0", "?", "@", "(", ",", ":", "-", ")", "="];
    let n = c.pick(4, 5);
    c.bound("path_length", n);
    let mut long: Vec<String> = ["$.a", "$..a", "$['a']", "$[?@.a]", "$[?(@.a == 'b')]", "$.a[0]", "$[-1]", "$[0:1:0]", "$[9223372036854775808]", "$.a.b.c", "$[?@.a == 1 || ]", "$.é", "$[\"a\\\"]", "$.a$", "a.b", "$.b[*]", "$[?length(@.a) > 0]", "$[?match(@.a, '(')]", "$[?search(@.a, 'b')]", " $.a", "$.a ", "$ .a", "$. a", "\t$.a", "$.a\n", "$[ 'a' ]", "$ ['a']", "$\n.a", "$.a\0", "\"$.a\"", "'$.a'", "/a", "#/a", "a", "@.a", ".a", "$a", "$.a.", "$.a..", "$$", "$.A", "$['A']", "$.a;", "$.a,$.b", "$.a|$.b", "$.a || $.b", "\u{feff}$.a", "$.a\u{a0}", "$.vc.a", "$.vp.a"].map(String::from).to_vec();
    long.push("$".to_string() + &".a".repeat(500));
    long.push("$".to_string() + &"[?@".repeat(6));
    for p in strings(&sym, n).into_iter().chain(long) {
        let valid = serde_json_path::JsonPath::parse(&p);
        for d in &docs {
            for o in [None, Some(true)] {
                let key = format!("path {p:?} optional {o:?} on {d}");
                if !c.case(&key) {
                    continue;
                }
                let got = verdict(&cons(&p, None, o), &Doc(Some(d.clone())));
                let bad = match (&valid, &got) {
                    (_, Err(e)) if e != "error" => true,
                    (Err(_), g) => *g == Ok(true),
                    (Ok(q), g) => *g != Ok(!q.query(d).is_empty() || o.is_some()),
                };
                if valid.is_ok() {
                    c.distinct(&key);
                }
                c.outcome(&format!("path {got:?}"));
                c.expect(!bad, &key, || json!({"verdict": format!("{got:?}"), "valid path": valid.is_ok()}));
            }
        }
    }
    // patterns
    let sym = ["a", "(", ")", "[", "]", "*", "+", "?", "|", "\\", "^", "$", "{", "1"];
    let n = c.pick(3, 4);
    c.bound("pattern_length", n);
    let mut long: Vec<String> = ["(?P<x>a)", "(a+)+$", "\\p{L}", "(?=a)", "\\1", "[a-", "a{1001}", "(a{1000}){1000}", "(?i", "\u{0}", "[[:alpha:]]", "(?-u:\\xFF)"].map(String::from).to_vec();
    long.push("(".repeat(300));
    long.push("a?".repeat(50) + &"a".repeat(50));
    let vals = [json!("a"), json!(""), json!("a1\\"), json!(["a"]), json!(null), json!({"a": "a"}), json!(1)];
    for p in strings(&sym, n).into_iter().chain(long) {
        let re = regex::Regex::new(&p);
        for v in &vals {
            for o in [None, Some(true)] {
                let key = format!("pattern {p:?} optional {o:?} on {v}");
                if !c.case(&key) {
                    continue;
                }
                let got = verdict(&cons("$.v", Some(FilterValue::Pattern(p.clone())), o), &Doc(Some(json!({ "v": v }))));
                let bad = match (&re, &got) {
                    (_, Err(e)) if e != "error" => true,
                    (Err(_), g) => *g == Ok(true),
                    (Ok(re), g) => {
                        // for strings the content decides; for other values only termination is judged
                        v.as_str().is_some_and(|s| *g != Ok(re.is_match(s)))
                    }
                };
                if re.is_ok() {
                    c.distinct(&key);
                }
                c.outcome(&format!("pattern {got:?}"));
                c.expect(!bad, &key, || json!({"verdict": format!("{got:?}"), "valid pattern": re.is_ok()}));
            }
        }
    }
    // formats that are not supported, constants on every kind
    let mut all = values();
    all.extend(["a", "", "2023-11-20", "2023-11-20T23:21:55Z", "é"].map(|s| json!(s)));
    for f in ["", "time", "email", "uri", "Date", "DATE-TIME", "date_time", "datetime", "date-time ", "é", "regex", "uuid"] {
        for v in &all {
            for o in [None, Some(true)] {
                let key = format!("format {f:?} optional {o:?} on {v}");
                if c.case(&key) {
                    let got = verdict(&cons("$.v", Some(FilterValue::Format(f.into())), o), &Doc(Some(json!({ "v": v }))));
                    let ok = got == Ok(false) || got == Err("error".into());
                    c.expect(ok, &key, || json!({ "verdict": format!("{got:?}") }));
                    c.outcome("format refused");
                }
            }
        }
    }
    for k in ["", "a", "null", "true", "é"] {
        for v in &all {
            let key = format!("const {k:?} on {v}");
            if c.case(&key) {
                let got = verdict(&cons("$.v", Some(FilterValue::Const(k.into())), None), &Doc(Some(json!({ "v": v }))));
                c.expect(got.is_ok(), &key, || json!({ "verdict": format!("{got:?}") }));
            }
        }
    }
    // claims that have no JSON form are an error, never satisfied
    for cs in [cons("$.a", None, None), cons("$.a", None, Some(true)), cons("$.a", Some(FilterValue::Const("a".into())), None), Constraints { fields: Some(vec![]), limit_disclosure: None }] {
        let key = format!("no JSON form {cs:?}");
        if c.case(&key) {
            let got = verdict(&cs, &Doc(None));
            c.expect(got == Err("error".into()), &key, || json!({ "verdict": format!("{got:?}") }));
            c.outcome("no json");
        }
    }
    c.finish()
}
