use mc::gen::{words, words_upto};
use mc::{guard, Check};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::fmt::Debug;
use vercre_core::{Kind, Quota};

/// Reference: a quota is a sequence plus whether it was ever a set.
#[derive(Clone)]
struct Model {
    items: Vec<String>,
    many: bool,
}
impl Model {
    fn json(&self) -> Value {
        if self.many { json!(self.items) } else { json!(self.items[0]) }
    }
}

fn observe(c: &mut Check, key: &str, q: &Quota<String>, m: &Model) {
    c.transition();
    c.state(&format!("{}{}", m.many, m.json()));
    let seen = guard(|| {
        let j = serde_json::to_value(q).unwrap();
        let back: Quota<String> = serde_json::from_value(j.clone()).unwrap();
        let text = serde_json::to_string(q).unwrap();
        let back2: Quota<String> = serde_json::from_str(&text).unwrap();
        (q.is_one(), q.is_many(), q.len(), q.is_empty(), j, &back == q && &back2 == q)
    });
    let want = (!m.many, m.many, m.items.len(), m.items.is_empty(), m.json(), true);
    c.expect(seen.as_ref() == Ok(&want), key, || json!({"observed": format!("{seen:?}"), "model": format!("{want:?}")}));
    c.validated();
    c.sample(json!({"history": key, "json": m.json()}));
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
struct Item {
    id: String,
    more: Vec<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    name: Option<String>,
}
/// An object that may also be given as a text, as many W3C types may.
#[derive(Clone, Debug, Default, PartialEq, Serialize)]
struct Lenient(Item);
impl<'de> Deserialize<'de> for Lenient {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match Value::deserialize(d)? {
            Value::String(id) => Ok(Self(Item { id, ..Item::default() })),
            v => serde_json::from_value(v).map(Self).map_err(serde::de::Error::custom),
        }
    }
}

/// A value of Kind, alone and in the places it is used in, is its content.
fn kind<T: Clone + Default + Debug + PartialEq + Serialize + DeserializeOwned>(c: &mut Check, key: &str, k: &Kind<T>, want: &Value) {
    let text = matches!(k, Kind::String(_));
    let r = guard(|| {
        let j = serde_json::to_value(k).unwrap();
        let list = serde_json::to_value(vec![k.clone(), Kind::String("x".into()), k.clone()]).unwrap();
        let map = serde_json::to_string(&std::collections::BTreeMap::from([("k", Some(k.clone())), ("n", None)])).unwrap();
        let back: Kind<T> = serde_json::from_str(&j.to_string()).unwrap();
        let backs: Vec<Kind<T>> = serde_json::from_value(list.clone()).unwrap();
        let backm: std::collections::BTreeMap<String, Option<Kind<T>>> = serde_json::from_str(&map).unwrap();
        let same = back == *k && backs == [k.clone(), Kind::String("x".into()), k.clone()] && backm["k"].as_ref() == Some(k) && backm["n"].is_none() && list == json!([want, "x", want]);
        (j, same, k.is_string(), k.is_object())
    });
    c.expect(r == Ok((want.clone(), true, text, !text)), key, || json!({ "kind": format!("{k:?}"), "observed": format!("{r:?}") }));
}

/// Every sequence of additions of every item to every initial value.
fn sweep<T: Clone + Default + Debug + PartialEq + Serialize + DeserializeOwned>(c: &mut Check, label: &str, items: &[T], n: usize) {
    let mut inits: Vec<(Quota<T>, Vec<T>)> = vec![(Quota::default(), vec![T::default()]), (Quota::Many(vec![]), vec![])];
    for i in items {
        inits.push((Quota::One(i.clone()), vec![i.clone()]));
        inits.push((Quota::Many(vec![i.clone()]), vec![i.clone()]));
        for k in items {
            inits.push((Quota::Many(vec![i.clone(), k.clone()]), vec![i.clone(), k.clone()]));
        }
    }
    for (i, (q0, l0)) in inits.iter().enumerate() {
        for w in words(items.len(), n) {
            let (mut q, mut l) = (q0.clone(), l0.clone());
            let key = format!("{label} {i} {w:?}");
            let mut ok = true;
            for x in &w {
                c.transition();
                let before = q.clone();
                let r = guard(std::panic::AssertUnwindSafe(|| q.add(items[*x].clone())));
                l.push(items[*x].clone());
                ok &= r.is_ok() && before != q && q.len() == l.len() && !q.is_empty() && q.is_many() && !q.is_one();
            }
            let r = guard(|| {
                let j = serde_json::to_value(&q).unwrap();
                let back: Quota<T> = serde_json::from_str(&j.to_string()).unwrap();
                (j == json!(l), back == q)
            });
            c.expect(ok && r == Ok((true, true)) && q == Quota::Many(l.clone()), &key, || json!({ "quota": format!("{q:?}"), "list": format!("{l:?}"), "json": format!("{r:?}") }));
            c.validated();
        }
    }
}

pub fn run() {
    let mut c = Check::new("C05", "model_checking");
    c.rule("every sequence of `add` operations up to the bound from every initial quota (default, one, empty set, sets of up to two), observed after each step through len/is_empty/is_one/is_many/serde and compared with a list; for texts, numbers, flags, objects and texts-or-objects; every text up to the bound and objects as values of Kind, alone, in lists and as optional members");
    let items = ["", "a", "b"];
    let n = c.pick(7, 9);
    c.bound("adds", n);
    let mut inits: Vec<(String, Quota<String>, Model)> = vec![(
        "default".into(),
        Quota::default(),
        Model { items: vec![String::new()], many: false },
    )];
    for i in items {
        inits.push((format!("one({i:?})"), Quota::One(i.into()), Model { items: vec![i.into()], many: false }));
    }
    for w in words_upto(items.len(), 2) {
        let v: Vec<String> = w.iter().map(|i| items[*i].to_string()).collect();
        inits.push((format!("many({v:?})"), Quota::Many(v.clone()), Model { items: v, many: true }));
    }
    for (name, q0, m0) in &inits {
        observe(&mut c, name, q0, m0);
        for w in words(items.len(), n) {
            let (mut q, mut m) = (q0.clone(), m0.clone());
            let mut key = name.clone();
            for i in w {
                key.push_str(&format!(".add({:?})", items[i]));
                let r = guard(std::panic::AssertUnwindSafe(|| q.add(items[i].to_string())));
                if let Err(p) = r {
                    c.violation(&key, json!({ "panic": p }));
                    break;
                }
                m.items.push(items[i].into());
                m.many = true;
                observe(&mut c, &key, &q, &m);
            }
        }
    }
    // long histories
    for (name, q0, m0) in &inits {
        let (mut q, mut m) = (q0.clone(), m0.clone());
        for i in 0..c.pick(300, 1100) {
            let item = format!("i{}", i % 7);
            q.add(item.clone());
            m.items.push(item);
            m.many = true;
            observe(&mut c, &format!("{name} and {} additions", i + 1), &q, &m);
        }
    }
    // Quota over structured items keeps order and shape
    for w in words_upto(3, 4) {
        let vals = [json!({"a": 1}), json!({"a": [2]}), json!("s")];
        let v: Vec<Value> = w.iter().map(|i| vals[*i].clone()).collect();
        let key = format!("values {v:?}");
        c.transition();
        let q: Quota<Value> = Quota::Many(v.clone());
        c.expect(serde_json::to_value(&q).unwrap() == json!(v), &key, || json!("array changed"));
        c.validated();
    }
    // read from JSON: one item, or the list of the items
    for w in words_upto(items.len(), 4) {
        let v: Vec<String> = w.iter().map(|i| items[*i].to_string()).collect();
        let key = format!("read {v:?}");
        c.transition();
        let q = guard(|| serde_json::from_value::<Quota<String>>(json!(v)).unwrap());
        c.expect(q == Ok(Quota::Many(v.clone())), &key, || json!(format!("{q:?}")));
        if v.len() == 1 {
            let q = guard(|| serde_json::from_value::<Quota<String>>(json!(v[0])).unwrap());
            c.expect(q == Ok(Quota::One(v[0].clone())), &key, || json!(format!("{q:?}")));
        }
        c.validated();
    }
    for v in [json!(1), json!(null), json!([1]), json!({}), json!(["a", 1]), json!([["a"]]), json!(true)] {
        let key = format!("read {v}");
        c.transition();
        let r = guard(|| serde_json::from_value::<Quota<String>>(v.clone()).is_err());
        c.expect(r == Ok(true), &key, || json!({"accepted": v}));
    }
    c.expect(Quota::<String>::default() == Quota::One(String::new()), "default", || json!("not one empty item"));
    // Kind
    type K = Kind<std::collections::BTreeMap<String, Value>>;
    let values = [
        json!(""), json!("a"), json!("{\"a\":1}"), json!("null"), json!({}), json!({"a": 1}), json!({"a": {"b": "c"}, "d": []}),
    ];
    for v in &values {
        let key = format!("kind {v}");
        c.transition();
        c.state(&key);
        let r = guard(|| {
            let k: K = serde_json::from_value(v.clone()).unwrap();
            (k.is_string(), k.is_object(), serde_json::to_value(&k).unwrap(), matches!(&k, Kind::String(s) if Some(s.as_str()) == v.as_str()))
        });
        let want = (v.is_string(), v.is_object(), v.clone(), v.is_string());
        c.expect(r.as_ref() == Ok(&want), &key, || json!({"observed": format!("{r:?}")}));
        c.validated();
    }
    for v in [json!(1), json!(null), json!([]), json!(["a"]), json!(true)] {
        let key = format!("kind {v}");
        c.transition();
        let r = guard(|| serde_json::from_value::<K>(v.clone()).is_err());
        c.expect(r == Ok(true), &key, || json!({"accepted": v}));
    }
    c.expect(K::default() == Kind::String(String::new()), "kind default", || json!("not an empty string"));
    // other types of items
    let depth = c.pick(5, 6);
    sweep(&mut c, "numbers", &[0u64, 1, 1, u64::MAX], depth);
    sweep(&mut c, "flags", &[false, true], depth + 2);
    let item = |id: &str, more: &[&str]| Item { id: id.into(), more: more.iter().map(|x| x.to_string()).collect(), name: None };
    sweep(&mut c, "objects", &[Item::default(), item("a", &[]), item("a", &["x", "x"]), Item { name: Some(String::new()), ..item("b", &["a"]) }], depth);
    sweep(&mut c, "texts or objects", &[Kind::String(String::new()), Kind::String("a".into()), Kind::Object(item("a", &[])), Kind::Object(Item::default())], depth);
    sweep(&mut c, "texts", &[" ".to_string(), "[]".into(), "[\"a\"]".into(), "\u{e9}\n\"".into()], depth);
    // every text, and objects of types that may also be read from a text
    let texts: Vec<String> = words_upto(9, 4).map(|w| w.iter().map(|i| ["a", "{", "}", "\"", "[", "]", ":", " ", "1"][*i]).collect()).collect();
    for t in texts.iter().map(String::as_str).chain(["{\"id\":\"a\",\"more\":[]}", "null", "true", "\u{0}", "é日😀", "eyJhbGciOiJFZERTQSJ9.e30.AA", "http://a/b?c=d#e"]) {
        let key = format!("text {t:?}");
        c.transition();
        kind(&mut c, &key, &Kind::<Value>::String(t.into()), &json!(t));
        kind(&mut c, &key, &Kind::<Item>::String(t.into()), &json!(t));
        kind(&mut c, &key, &Kind::<Lenient>::String(t.into()), &json!(t));
        let l = Lenient(item(t, &[t, t]));
        let want = serde_json::to_value(&l).unwrap();
        kind(&mut c, &key, &Kind::Object(l), &want);
        kind(&mut c, &key, &Kind::<Value>::Object(want.clone()), &want);
        kind(&mut c, &key, &Kind::Object(item(t, &["a"])), &json!({"id": t, "more": ["a"]}));
        c.validated();
    }
    c.finish()
}
