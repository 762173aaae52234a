//! C16: an ISO mDL discloses exactly what was signed.
use std::collections::BTreeSet;

use mc::{clock, exec, gen, Check};
use serde_json::{json, Map, Value};

const NOW: i64 = 1_800_000_000;
fn issue(data: &Value) -> Result<Result<String, String>, String> {
    let key = world::holder_key("issuer");
    let map: Map<String, Value> = data.as_object().unwrap().clone();
    mc::guard(|| exec::run(vercre_iso_mdl::to_credential(map, key)).map_err(|e| e.to_string()))
}
fn fresh(seed: u64, script: &[u32]) {
    world::with(|w| *w = world::World { dids: world::dids().into(), ..world::World::default() });
    clock::set(NOW);
    rand::script(seed, script);
}
fn judge(c: &mut Check, key: &str, data: &Value, out: &Result<Result<String, String>, String>) -> Option<world::mdoc::Mdoc> {
    let cred = match out {
        Ok(Ok(s)) => s,
        o => {
            c.violation(key, json!({ "not issued": o }));
            return None;
        }
    };
    let m = match world::mdoc::read(cred) {
        Ok(m) => m,
        Err(e) => {
            c.violation(key, json!({ "unreadable": e }));
            return None;
        }
    };
    // namespaces without elements need not appear
    let trim = |v: &Value| -> Value { v.as_object().unwrap().iter().filter(|(_, x)| x.as_object().is_some_and(|o| !o.is_empty())).map(|(k, x)| (k.clone(), x.clone())).collect::<Map<_, _>>().into() };
    c.expect(trim(&Value::Object(m.claims.clone())) == trim(data), key, || json!({ "claims": m.claims }));
    let issuer = world::holder_key("issuer");
    c.expect(m.kid == issuer.vm, key, || json!({ "kid": m.kid }));
    let signed = m.signature == vercre_infosec::ideal_signature(issuer.pk.as_bytes(), &m.payload);
    c.expect(signed && m.alg == -8, key, || json!({ "signature": "not the issuer's over the security object", "alg": m.alg.to_string() }));
    c.expect(m.version == "1.0", key, || json!({ "version": m.version }));
    let date = |k: &str| m.validity.get(k).and_then(|s| chrono::DateTime::parse_from_rfc3339(s).ok()).map(|d| d.timestamp());
    let (s, f, u) = (date("signed"), date("validFrom"), date("validUntil"));
    c.expect(s == Some(NOW) && f == Some(NOW) && u.is_some_and(|u| u > NOW), key, || json!({ "validity": m.validity }));
    let mut ids = BTreeSet::new();
    for (ns, id, salt) in &m.items {
        c.expect((0..1i128 << 31).contains(id), key, || json!({ "digest id out of range": id.to_string() }));
        c.expect(ids.insert((ns.clone(), *id)), key, || json!({ "digest id twice": id.to_string() }));
        c.expect(salt.len() >= 16, key, || json!({ "salt of": salt.len() }));
    }
    Some(m)
}

pub fn c16() -> ! {
    let mut c = Check::new("C16", "exploration");
    c.rule("every dataset of up to the bound of namespaces and elements over the value alphabet; every sequence of answers of the random generator over the extremes and repetitions for the digest identifiers, repetitions at any place; every position of a failing key operation; malformed datasets; the credential is read by an independent CBOR reader that recomputes every digest");
    c.assume("signatures are ideal; which bytes of the COSE structure are signed is taken from the implementation");
    let values = [
        json!(null), json!(true), json!(0), json!(-1), json!(u64::MAX), json!(i64::MIN), json!(1.5), json!(""), json!("é€😀\"\\\n"), json!([]), json!([1, "a", null, [true]]),
        json!({}), json!({ "a": { "b": [1, { "c": null }] }, "x y": -7 }), json!("2024-01-01T00:00:00Z"), json!("x".repeat(300)),
    ];
    // values one by one and in pairs
    for (i, a) in values.iter().enumerate() {
        for (j, b) in values.iter().enumerate() {
            let d = json!({ "org.iso.18013.5.1": { "a": a, "b": b } });
            let key = format!("values {i} {j}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            c.outcome("issued");
            fresh(1, &[]);
            let o = issue(&d);
            judge(&mut c, &key, &d, &o);
        }
    }
    // shapes: namespaces x elements (same names in several namespaces)
    let names = ["org.iso.18013.5.1", "org.iso.18013.5.1.NZ", "", "é"];
    let elements = ["given_name", "family_name", "", "digest_id", "random"];
    let (nn, ne) = (c.pick(2, 4), c.pick(4, 5));
    for w in gen::product(&vec![1 << ne; nn]) {
        let mut d = Map::new();
        for (i, m) in w.iter().enumerate() {
            // one more than the elements: the namespace is absent
            if *m == (1 << ne) - 1 && i > 0 && c.thorough() {
                continue;
            }
            let e: Map<String, Value> = (0..ne).filter(|b| m >> b & 1 == 1).map(|b| (elements[b].to_string(), json!(format!("{i}/{b}")))).collect();
            d.insert(names[i].into(), e.into());
        }
        let d = Value::Object(d);
        let key = format!("shape {w:?}");
        if nn == 4 && w.iter().filter(|m| **m != 0).count() > 2 && w.iter().any(|m| m.count_ones() > 2) {
            continue;
        }
        if !c.case(&key) {
            continue;
        }
        c.distinct(&key);
        c.outcome("issued");
        fresh(2, &[]);
        let o = issue(&d);
        judge(&mut c, &key, &d, &o);
    }
    // sizes: elements, namespaces, names, texts, lists, depth; numbers at the
    // edges of their encodings
    let mut sized: Vec<(String, Value)> = vec![];
    let ladder = |top: usize| (0..=top).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
    for n in ladder(c.pick(30, 70)) {
        let obj = |n: usize| (0..n).map(|i| (format!("e{i}"), json!(i))).collect::<Map<_, _>>();
        sized.push((format!("{n} elements"), json!({ "n": obj(n) })));
        sized.push((format!("{n} namespaces"), (0..n).map(|i| (format!("n{i}"), json!({ "a": i, "b": i }))).collect::<Map<_, _>>().into()));
        let name = "n".repeat(n);
        sized.push((format!("names of {n}"), json!({ (name.as_str()): { (name.as_str()): 1, "o": 2 }, "o": { (name.as_str()): 3 } })));
        sized.push((format!("text of {n}"), json!({ "n": { "a": "t".repeat(n), "b": "é".repeat(n) } })));
        sized.push((format!("list of {n}"), json!({ "n": { "a": vec![7; n], "b": vec!["x"; n] } })));
        sized.push((format!("object of {n}"), json!({ "n": { "a": obj(n) } })));
        let deep = (0..n.min(60)).fold(json!("leaf"), |v, i| if i % 2 == 0 { json!([v]) } else { json!({ "d": v }) });
        sized.push((format!("depth of {n}"), json!({ "n": { "a": deep } })));
    }
    for n in [65_535usize, 65_536] {
        sized.push((format!("text of {n}"), json!({ "n": { "a": "t".repeat(n) } })));
        sized.push((format!("list of {n}"), json!({ "n": { "a": vec![1; n] } })));
    }
    for k in 0..64 {
        for d in [-1i128, 0, 1] {
            let x = (1i128 << k) + d;
            let (p, m) = (u64::try_from(x).map_or(json!(0), |v| json!(v)), i64::try_from(-x).map_or(json!(0), |v| json!(v)));
            sized.push((format!("number {x}"), json!({ "n": { "a": p, "b": m, "c": [p, m] } })));
        }
        let f = 2f64.powi(k * 16 - 512);
        sized.push((format!("float {f}"), json!({ "n": { "a": f, "b": -f, "c": f * 1.1 } })));
    }
    for x in [23, 24, 25] {
        sized.push((format!("number {x}"), json!({ "n": { "a": x, "b": -x, "c": -x - 1 } })));
    }
    for f in [0.0, -0.0, 0.5, 0.1, 1e-7, 65504.0, 65505.0, f64::from(f32::MAX), f64::MAX, f64::MIN_POSITIVE, 5e-324] {
        sized.push((format!("float {f}"), json!({ "n": { "a": f } })));
    }
    for ch in (0u32..=0x2ff).chain([0x7ff, 0x800, 0x2028, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]).filter_map(char::from_u32) {
        sized.push((format!("character {:x}", ch as u32), json!({ format!("n{ch}"): { format!("e{ch}"): format!("v{ch}") } })));
    }
    for (key, d) in sized {
        if c.case(&key) {
            c.distinct(&key);
            c.outcome("issued");
            fresh(7, &[]);
            let o = issue(&d);
            judge(&mut c, &key, &d, &o);
        }
    }
    // what the random generator answers: the digest identifier of an element
    // is drawn before its salt of sixteen bytes
    let extremes = [0u32, 1, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff];
    let k = c.pick(3, 4);
    c.bound("scripted digest identifiers", k);
    let d = json!({ "n": { "a": 1, "b": 2, "c": 3 }, "o": { "a": 1 } });
    for w in gen::words_upto(extremes.len(), k) {
        for salts in [false, true] {
            let mut script = vec![];
            for i in &w {
                script.push(extremes[*i]);
                if salts {
                    script.extend([7u32; 16]);
                }
            }
            let key = format!("random {w:?} salts {salts}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            c.outcome("issued under a scripted generator");
            fresh(3, &script);
            let o = issue(&d);
            judge(&mut c, &key, &d, &o);
        }
    }
    // an identifier drawn before comes again, anywhere
    for n in [2usize, 5, 9, 17, 33, 65, c.pick(70, 130)] {
        let d = json!({ "n": (0..n).map(|i| (format!("e{i:03}"), json!(i))).collect::<Map<_, _>>() });
        for at in 1..n {
            for of in [0, at / 2, at - 1] {
                for times in [1, 2] {
                    let key = format!("random {n} elements, {at} as {of}, {times} times");
                    if !c.case(&key) {
                        continue;
                    }
                    c.distinct(&key);
                    let mut script = vec![];
                    for i in 0..n as u32 {
                        if i as usize == at {
                            script.extend(vec![1000 + of as u32; times]);
                        }
                        script.push(1000 + i);
                        script.extend([i; 16]);
                    }
                    fresh(3, &script);
                    let o = issue(&d);
                    judge(&mut c, &key, &d, &o);
                }
            }
        }
    }
    // salts: fresh for every element
    if c.case("salts") {
        fresh(4, &[]);
        let d = json!({ "n": { "a": 1, "b": 1, "c": 1 }, "o": { "a": 1, "b": 1 } });
        let o = issue(&d);
        if let Some(m) = judge(&mut c, "salts", &d, &o) {
            let s: BTreeSet<_> = m.items.iter().map(|i| i.2.clone()).collect();
            c.expect(s.len() == 5, "salts", || json!({ "distinct salts": s.len() }));
        }
    }
    // malformed
    for (i, v) in [json!(null), json!(1), json!("x"), json!([]), json!([{}]), json!(true)].into_iter().enumerate() {
        for first in [false, true] {
            let d = if first { json!({ "a": v, "n": { "x": 1 } }) } else { json!({ "n": { "x": 1 }, "z": v }) };
            let key = format!("malformed {i} {first}");
            if !c.case(&key) {
                continue;
            }
            c.outcome("refused");
            fresh(5, &[]);
            let o = issue(&d);
            c.expect(matches!(o, Ok(Err(_))), &key, || json!({ "got": o }));
        }
    }
    // the key does not answer
    for at in 0..8 {
        let key = format!("failing key operation {at}");
        if !c.case(&key) {
            continue;
        }
        fresh(6, &[]);
        world::with(|w| w.fail_at = Some(at));
        let d = json!({ "n": { "a": 1 } });
        let o = issue(&d);
        if world::with(|w| w.calls) > at {
            c.outcome("refused");
            c.expect(matches!(o, Ok(Err(_))), &key, || json!({ "got": o }));
        } else {
            judge(&mut c, &key, &d, &o);
        }
    }
    c.finish()
}
