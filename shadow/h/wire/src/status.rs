//! C15: the published status list says what the status log says.
use std::io::Read;

use base64ct::{Base64UrlUnpadded as B64, Encoding};
use mc::{clock, exec, gen, Check};
use serde::de::DeserializeOwned;
use serde_json::{json, Value};
use vercre_status::bitstring;

const LEN: usize = 131_072;
/// The types of the arguments are not exported: they are read from JSON.
fn lit<T: DeserializeOwned>(v: Value) -> T {
    serde_json::from_value(v).expect("status configuration or log")
}
#[derive(Clone, Copy, Debug)]
struct Put {
    purpose: &'static str,
    index: usize,
    value: u8,
}
fn log(puts: &[Put], split: bool) -> Value {
    let vals: Vec<Value> = puts.iter().map(|p| json!({ "purpose": p.purpose, "list_index": p.index, "value": p.value })).collect();
    if split {
        vals.iter().enumerate().map(|(i, v)| json!({ "credential_id": format!("c{i}"), "subject_id": "s", "status": [v] })).collect::<Vec<_>>().into()
    } else {
        json!([{ "credential_id": "c", "subject_id": "s", "status": vals }])
    }
}
/// The list the log stands for; None: it cannot be published.
fn model(purpose: &str, size: usize, puts: &[Put]) -> Option<Vec<bool>> {
    let mut bits = vec![false; LEN];
    for p in puts.iter().filter(|p| p.purpose == purpose) {
        let at = p.index.checked_mul(size)?;
        if at.checked_add(size)? > LEN {
            return None;
        }
        if purpose == "message" {
            if size < 8 && p.value >> size != 0 {
                return None;
            }
            for i in 0..size {
                bits[at + i] = i < 8 && p.value >> i & 1 == 1;
            }
        } else {
            bits[at] = p.value != 0;
        }
    }
    Some(bits)
}
/// Multibase, base64url, GZIP, leftmost bit first.
fn decode(s: &str) -> Result<Vec<bool>, String> {
    let b = s.strip_prefix('u').ok_or("no multibase prefix")?;
    let z = B64::decode_vec(b).map_err(|e| e.to_string())?;
    let mut bytes = vec![];
    flate2::read::GzDecoder::new(z.as_slice()).read_to_end(&mut bytes).map_err(|e| e.to_string())?;
    Ok(bytes.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect())
}
fn judge(c: &mut Check, key: String, purpose: &str, size: usize, puts: &[Put]) {
    if !c.case(&key) {
        return;
    }
    c.distinct(&key);
    let cfg = json!({ "purpose": purpose, "list": 1, "size": size });
    let want = model(purpose, size, puts);
    c.outcome(if want.is_some() { "published" } else { "refused" });
    for split in [false, true] {
        let entries: Value = log(puts, split);
        let got = mc::guard(|| bitstring::bitstring(&lit(cfg.clone()), &list(&entries)).map_err(|e| e.to_string()));
        match (&got, &want) {
            (Ok(Err(_)), None) => {}
            (Ok(Ok(s)), Some(w)) => {
                let d = decode(s);
                c.expect(d.as_ref() == Ok(w), &key, || {
                    let at: Vec<usize> = d.as_ref().map(|d| d.iter().zip(w).enumerate().filter(|(_, (a, b))| a != b).map(|x| x.0).take(20).collect()).unwrap_or_default();
                    json!({ "differs at": at, "length": d.as_ref().map(Vec::len), "error": d.as_ref().err() })
                });
            }
            _ => c.violation(&key, json!({ "got": got.map(|r| r.map(|s| s.chars().take(80).collect::<String>())), "refused": want.is_none() })),
        }
    }
}
fn list<T: DeserializeOwned>(v: &Value) -> Vec<T> {
    lit(v.clone())
}

pub fn c15() -> ! {
    let mut c = Check::new("C15", "exploration");
    c.rule("every status log of up to the bound of entries over the index and value alphabets (first, neighbouring, last, beyond, overflowing; zero to full byte; every purpose) x entry sizes, compared bit by bit with the list it stands for after independent decoding; every list credential of the configurations x base URLs x lifetimes");
    c.assume("status list entries of zero bits are not considered");
    let sizes = [1usize, 2, 3, 4, 8, 9, 16];
    // one entry: everything
    for purpose in ["revocation", "suspension", "message"] {
        for size in sizes {
            let last = LEN / size - 1;
            for index in [0, 1, 2, 7, 8, last - 1, last, last + 1, last + 2, LEN, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / size, (usize::MAX / size).saturating_add(1), (usize::MAX / size).saturating_add(2), 1 << 60, 1 << 61, 1 << 62, usize::MAX] {
                for value in [0u8, 1, 2, 3, 4, 7, 8, 128, 254, 255] {
                    let p = Put { purpose, index, value };
                    judge(&mut c, format!("{purpose}/{size}: {index}={value}"), purpose, size, &[p]);
                }
            }
        }
    }
    // every index of the first bytes, alone
    for index in 0..c.pick(64, 1024) {
        for (purpose, size, value) in [("revocation", 1, 1), ("suspension", 1, 1), ("message", 2, 3), ("message", 3, 5)] {
            judge(&mut c, format!("{purpose}/{size}: bit {index}"), purpose, size, &[Put { purpose, index, value }]);
        }
    }
    // logs: later entries do not disturb earlier ones, the last word counts
    let n = c.pick(2, 3);
    c.bound("entries of a log", n);
    for (purpose, size) in [("revocation", 1usize), ("suspension", 1), ("message", 2), ("message", 3)] {
        let mut alphabet = vec![];
        for index in [0usize, 1, 2] {
            for value in 0..(1u8 << size.min(2)) {
                alphabet.push(Put { purpose, index, value });
            }
        }
        alphabet.push(Put { purpose, index: LEN / size, value: 1 });
        // entries for another purpose do not count, wherever they point
        let other = if purpose == "revocation" { "suspension" } else { "revocation" };
        alphabet.push(Put { purpose: other, index: 1, value: 1 });
        alphabet.push(Put { purpose: other, index: usize::MAX, value: 255 });
        for w in gen::words_upto(alphabet.len(), n) {
            let puts: Vec<Put> = w.iter().map(|i| alphabet[*i]).collect();
            judge(&mut c, format!("{purpose}/{size}: {puts:?}"), purpose, size, &puts);
        }
    }
    // every power of two and its neighbours, wherever it is in the list
    for k in 3..18 {
        for d in [-1i64, 0, 1] {
            let index = usize::try_from((1i64 << k) + d).unwrap();
            for (purpose, size, value) in [("revocation", 1, 1), ("suspension", 1, 1), ("message", 2, 2), ("message", 5, 17)] {
                judge(&mut c, format!("{purpose}/{size}: far {index}"), purpose, size, &[Put { purpose, index, value }]);
            }
        }
    }
    // long logs: neighbouring entries, entries far apart, the same entry again
    // and again, entries of other purposes in between
    let ladder: Vec<usize> = (3..=c.pick(20, 70)).chain([31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]).collect();
    c.bound("long logs", 1000);
    for n in ladder {
        for (purpose, size) in [("revocation", 1usize), ("suspension", 1), ("message", 2), ("message", 4)] {
            let top = 1usize << size;
            let other = if purpose == "message" { "revocation" } else { "message" };
            let put = |index: usize, value: usize| Put { purpose, index, value: u8::try_from(value).unwrap() };
            let near: Vec<Put> = (0..n).map(|i| put(i, 1 + i % (top - 1))).collect();
            let far: Vec<Put> = (0..n).map(|i| put(i * (LEN / size / n), 1 + i % (top - 1))).collect();
            let again: Vec<Put> = (0..n).map(|i| put(9, (i + 1) % top)).collect();
            let undone: Vec<Put> = near.iter().copied().chain((0..n).step_by(2).map(|i| put(i, 0))).collect();
            let mixed: Vec<Put> = near.iter().flat_map(|p| [Put { purpose: other, index: p.index + 1, value: 1 }, *p]).collect();
            let beyond: Vec<Put> = near.iter().copied().chain([put(LEN / size, 1)]).collect();
            for (what, puts) in [("near", near), ("far", far), ("again", again), ("undone", undone), ("mixed", mixed), ("beyond", beyond)] {
                judge(&mut c, format!("{purpose}/{size}: {n} {what}"), purpose, size, &puts);
            }
        }
    }
    // the whole list
    for (purpose, size) in [("revocation", 1usize), ("message", 2), ("message", 8)] {
        let puts: Vec<Put> = (0..LEN / size).map(|index| Put { purpose, index, value: 1 }).collect();
        judge(&mut c, format!("{purpose}/{size}: everything"), purpose, size, &puts);
    }
    credentials(&mut c);
    c.finish()
}

fn credentials(c: &mut Check) {
    world::with(|w| *w = world::World { dids: world::dids().into(), ..world::World::default() });
    clock::set(1_800_000_000);
    let key0 = world::holder_key("issuer");
    for w in gen::product(&[3, 3, 6, 4, 4]) {
        let purpose = ["revocation", "suspension", "message"][w[0]];
        let list = [0usize, 1, usize::MAX][w[1]];
        let base = ["http://s", "http://s/", "https://s/a/b", "", "s/", "HTTPS://S/A/"][w[2]];
        let ttl = [None, Some(0u64), Some(1), Some(u64::MAX)][w[3]];
        let issuer = ["http://issuer", "did:example:issuer", "http://issuer/", " Issuer#x"][w[4]];
        let key = format!("credential {purpose} {list} {base:?} {ttl:?} {issuer}");
        if !c.case(&key) {
            continue;
        }
        c.distinct(&key);
        c.outcome("list credential");
        let cfg = json!({ "purpose": purpose, "list": list, "size": 1 });
        let got = mc::guard(|| {
            exec::run(bitstring::credential(issuer, &lit(cfg.clone()), base, "uABC", ttl, key0.clone())).map_err(|e| e.to_string())
        });
        let Ok(Ok(token)) = &got else {
            c.violation(&key, json!({ "got": got }));
            continue;
        };
        let Some((h, p)) = world::open_jwt(token, &key0.pk) else {
            c.violation(&key, json!("not signed by the issuer"));
            continue;
        };
        let vc = &p["vc"];
        let id = format!("{}/{list}", base.strip_suffix('/').unwrap_or(base));
        let subject = &vc["credentialSubject"];
        let want = [
            (h["kid"].clone(), json!(key0.vm)),
            (vc["id"].clone(), json!(id)),
            (vc["issuer"].clone(), json!(issuer)),
            (p["iss"].clone(), json!(issuer)),
            (p["jti"].clone(), json!(id)),
            (p["iat"].clone(), json!(1_800_000_000)),
            (vc["type"].clone(), json!(["VerifiableCredential", "BitstringStatusListCredential"])),
            (subject["id"].clone(), json!(format!("{id}#list"))),
            (subject["type"].clone(), json!("BitstringStatusList")),
            (subject["statusPurpose"].clone(), json!(purpose)),
            (subject["encodedList"].clone(), json!("uABC")),
            (subject["ttl"].clone(), json!(ttl.unwrap_or(bitstring::DEFAULT_TTL))),
        ];
        for (g, w) in want {
            c.expect(g == w, &key, || json!({ "got": g, "want": w, "claims": p }));
        }
    }
    // a key that does not sign
    if c.case("list credential, signing fails") {
        world::with(|w| w.fail_at = Some(w.calls));
        let got = mc::guard(|| exec::run(bitstring::credential("http://i", &lit(json!({ "purpose": "message", "list": 1, "size": 2 })), "http://s", "uABC", None, key0.clone())).is_ok());
        c.expect(got == Ok(false), "list credential, signing fails", || json!({ "got": got }));
    }
}
