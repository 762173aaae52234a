use std::collections::{BTreeSet, HashMap};

use base64ct::{Base64UrlUnpadded, Encoding};
use mc::{guard, Check};
use serde_json::json;
use sha2::{Digest, Sha256};
use vercre_core::{gen, pkce};

/// Run `f` with the random choices `script` (0 afterwards); the output and the
/// number of alternatives of each draw.
fn with<T>(script: &[u64], f: impl FnOnce() -> T) -> Result<(T, Vec<u64>), String> {
    fastrand::script(script);
    let r = guard(f);
    let d = fastrand::drawn();
    r.map(|r| (r, d))
}

fn bits(bounds: &[u64]) -> f64 {
    bounds.iter().map(|b| if *b == 0 { 64.0 } else { (*b as f64).log2() }).sum()
}

/// Values to try for a draw with `n` alternatives: all of them when small.
fn alternatives(n: u64) -> Vec<u64> {
    if n != 0 && n <= 512 {
        (0..n).collect()
    } else {
        let mut v: Vec<u64> = (0..64).map(|i| 1u64 << i).filter(|x| n == 0 || *x < n).collect();
        v.insert(0, 0);
        v
    }
}

/// Enumerate every single draw over all its values (others fixed at each of
/// two backgrounds) and check `shape` on each output and that every draw
/// separates all its values.
fn enumerate(
    c: &mut Check, name: &str, min_bits: f64, f: &dyn Fn() -> String, shape: &dyn Fn(&str) -> Result<(), String>,
) {
    let Ok((_, bounds)) = with(&[], f) else {
        c.violation(name, json!("panic"));
        return;
    };
    c.expect(bits(&bounds) >= min_bits, &format!("{name} entropy"), || json!({"bits": bits(&bounds), "draws": bounds.len(), "required": min_bits}));
    let n = bounds.len();
    let mut all: BTreeSet<String> = BTreeSet::new();
    for bg in 0..c.pick(4u64, 16) {
        let back: Vec<u64> = (0..n as u64).map(|i| if bg == 0 { 0 } else { bg.wrapping_mul(0x9e37_79b9).wrapping_add(i.wrapping_mul(2_654_435_761)) >> 3 }).collect();
        for i in 0..n {
            let mut seen: HashMap<String, u64> = HashMap::new();
            for v in alternatives(bounds[i]) {
                let mut s = back.clone();
                s[i] = v;
                let key = format!("{name} draw {i} = {v} background {bg}");
                if !c.case(&key) {
                    continue;
                }
                match with(&s, f) {
                    Err(p) => c.violation(&key, json!({ "panic": p })),
                    Ok((out, _)) => {
                        if let Err(e) = shape(&out) {
                            c.violation(&key, json!({"output": out, "shape": e}));
                        }
                        if let Some(o) = seen.insert(out.clone(), v) {
                            c.violation(&format!("{name} draw {i} lost"), json!({"output": out, "choices": [o, v], "background": bg}));
                        }
                        c.distinct(&(name, &out));
                        c.sample(json!({"generator": name, "draw": i, "choice": v, "output": out}));
                        all.insert(out);
                    }
                }
            }
        }
    }
    // every pair of neighbouring draws, over all pairs of values
    for i in 0..n.saturating_sub(1) {
        let (a, b) = (alternatives(bounds[i]), alternatives(bounds[i + 1]));
        let key = format!("{name} draws {i} and {}", i + 1);
        if !c.case(&key) {
            continue;
        }
        let mut seen = BTreeSet::new();
        let mut s = vec![0; n];
        let mut bad = None;
        for x in &a {
            for y in &b {
                (s[i], s[i + 1]) = (*x, *y);
                match with(&s, f) {
                    Err(p) => bad = Some(json!({"choices": [x, y], "panic": p})),
                    Ok((out, _)) => {
                        if let Err(e) = shape(&out) {
                            bad = Some(json!({"choices": [x, y], "output": out, "shape": e}));
                        }
                        if !seen.insert(out) {
                            bad = Some(json!({"choices": [x, y], "occurs twice": true}));
                        }
                    }
                }
            }
        }
        c.expect(bad.is_none(), &key, || bad.unwrap_or_default());
    }
    c.outcome(name);
    // consecutive calls: the second output depends on the second call's draws
    // only, the first on the first's only
    for i in 0..2 * n {
        for v in 1..c.pick(3, 8).min(alternatives(bounds[i % n]).len() as u64) {
            let key = format!("{name} twice draw {i} = {v}");
            if !c.case(&key) {
                continue;
            }
            let mut s = vec![0; 2 * n];
            let both = |s: &[u64]| with(s, || (f(), f()));
            let (Ok((base, _)), Ok((got, _))) = (both(&s), { s[i] = v; both(&s) }) else {
                c.violation(&key, json!("panic"));
                continue;
            };
            let ok = if i < n { base.0 != got.0 && base.1 == got.1 } else { base.0 == got.0 && base.1 != got.1 };
            c.expect(ok, &key, || json!({"before": format!("{base:?}"), "after": format!("{got:?}")}));
        }
    }
}

pub fn identifiers() {
    let mut c = Check::new("C03", "exploration");
    c.rule("the random source is replaced by an explorer that decides every draw: for each generator, every draw takes every one of its values (one deviation from each background), and two consecutive calls are perturbed draw by draw; distinct: distinct identifiers produced");
    c.bound("deviations", 1);
    let token = |s: &str| {
        let b = Base64UrlUnpadded::decode_vec(s).map_err(|e| format!("not unpadded base64url: {e}"))?;
        if b.len() < 16 {
            return Err(format!("{} bytes", b.len()));
        }
        if !b.iter().all(|b| b.is_ascii_graphic()) {
            return Err("decodes to non-printable characters".into());
        }
        Ok(())
    };
    let gens: [(&str, fn() -> String); 7] = [
        ("auth_code", gen::auth_code),
        ("issuer_state", gen::issuer_state),
        ("nonce", gen::nonce),
        ("notification_id", gen::notification_id),
        ("uri_token", gen::uri_token),
        ("token", gen::token),
        ("transaction_id", gen::transaction_id),
    ];
    for (name, f) in gens {
        enumerate(&mut c, name, 128.0, &f, &token);
        // 32 characters of the safe alphabet
        let (out, _) = with(&[], f).unwrap_or_default();
        let len = Base64UrlUnpadded::decode_vec(&out).map(|b| b.len()).unwrap_or(0);
        c.expect(len == 32, &format!("{name} length"), || json!({ "decoded length": len }));
    }
    let pin = |s: &str| {
        if s.len() == 6 && s.bytes().all(|b| b.is_ascii_digit()) { Ok(()) } else { Err("not six digits".into()) }
    };
    enumerate(&mut c, "tx_code", 6.0 * 10f64.log2() - 1e-9, &gen::tx_code, &pin);
    // long histories: the n-th identifier is still random, well-formed, and
    // unlike every one before it
    let calls = c.pick(3000u64, 70_000);
    c.bound("history", calls);
    for (name, f) in gens {
        let mut seen: HashMap<String, u64> = HashMap::new();
        for i in 0..calls {
            let key = format!("{name} call {i}");
            if !c.case(&key) {
                continue;
            }
            // the call number in the draws, so that all calls differ
            let s: Vec<u64> = (0..64).map(|k| (i >> (6 * (k % 11))) & 63).collect();
            match with(&s, f) {
                Err(p) => c.violation(&key, json!({ "panic": p })),
                Ok((out, d)) => {
                    if let Err(e) = token(&out) {
                        c.violation(&key, json!({"output": out, "shape": e}));
                    }
                    c.expect(bits(&d) >= 128.0, &key, || json!({"draws": d.len()}));
                    if let Some(o) = seen.insert(out.clone(), i) {
                        c.violation(&key, json!({"output": out, "same as call": o}));
                    }
                }
            }
            // other generators in between
            if i % 5 == 0 {
                let _ = with(&s, gens[(i / 5 % 7) as usize].1);
                let _ = with(&s, gen::tx_code);
            }
        }
    }
    for i in 0..calls {
        let key = format!("tx_code call {i}");
        if c.case(&key) {
            let s: Vec<u64> = (0..6).map(|k| i / 10u64.pow(k) % 10).collect();
            let r = with(&s, gen::tx_code);
            c.expect(matches!(&r, Ok((o, d)) if pin(o).is_ok() && bits(d) >= 19.9), &key, || json!(format!("{r:?}")));
        }
    }
    // every PIN can occur: all outcomes of the random source, if there are no
    // more than PINs
    let (_, bounds) = with(&[], gen::tx_code).unwrap_or_default();
    let outcomes = bounds.iter().try_fold(1u64, |a, b| a.checked_mul(*b)).unwrap_or(0);
    let size = 1_000_000u64;
    if outcomes == size {
        let mut all = BTreeSet::new();
        for x in 0..size {
            let mut r = x;
            let s: Vec<u64> = bounds.iter().map(|b| { let v = r % b; r /= b; v }).collect();
            if let Ok((o, _)) = with(&s, gen::tx_code) {
                all.insert(o.parse::<u64>().unwrap_or(u64::MAX));
            }
        }
        c.bound("PINs", all.len());
        c.expect(all.len() as u64 == size, "tx_code all", || json!({ "distinct": all.len() }));
    }
    c.finish()
}

pub fn pkce() {
    let mut c = Check::new("C04", "exploration");
    c.rule("every verifier length and every draw of the verifier generator over all its values; the challenge of every string over a 6-character alphabet up to the bound, every character and pair of ASCII characters, every length 0..=600 and every verifier generated, against an independent S256 computation and pairwise distinctness; distinct: distinct verifiers");
    let verifier = |s: &str| {
        if !(43..=128).contains(&s.len()) {
            return Err(format!("length {}", s.len()));
        }
        if !s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~".contains(&b)) {
            return Err("reserved character".into());
        }
        Ok(())
    };
    let challenge = |c: &mut Check, seen: &mut HashMap<String, String>, v: &str| {
        let key = format!("challenge {v:?}");
        if !c.case(&key) {
            return;
        }
        let want = Base64UrlUnpadded::encode_string(&Sha256::digest(v.as_bytes()));
        let got = guard(|| pkce::code_challenge(v));
        c.expect(got.as_ref() == Ok(&want), &key, || json!({"got": format!("{got:?}"), "want": want}));
        if let Ok(g) = got {
            if let Some(o) = seen.insert(g, v.to_string()) {
                c.expect(o == v, &key, || json!({ "collides with": o }));
            }
        }
    };
    let mut seen = HashMap::new();
    let (_, bounds) = with(&[], pkce::code_verifier).unwrap_or_default();
    c.expect(!bounds.is_empty(), "verifier draws", || json!("verifier is not random"));
    // the first draw decides the length; if a change makes the length fixed,
    // the shortest verifier must still carry 256 bits
    let first = bounds.first().copied().unwrap_or(1);
    let mut lens = BTreeSet::new();
    for l in alternatives(first) {
        let (Ok((a, ba)), Ok((b, _))) = (with(&[l], pkce::code_verifier), with(&[l, 1, 1, 1], pkce::code_verifier)) else {
            c.violation(&format!("verifier first draw {l}"), json!("panic"));
            continue;
        };
        c.case(&format!("verifier first draw {l}"));
        for v in [&a, &b] {
            if let Err(e) = verifier(v) {
                c.violation(&format!("verifier first draw {l}"), json!({"verifier": v, "shape": e}));
            }
            challenge(&mut c, &mut seen, v);
            c.distinct(v);
        }
        lens.insert(a.len());
        c.expect(bits(&ba) >= 256.0, &format!("verifier entropy first draw {l}"), || json!({ "bits": bits(&ba) }));
    }
    c.bound("verifier_lengths", lens.len());
    let lengths: Vec<u64> = alternatives(first);
    for l in lengths {
        let Ok((_, b)) = with(&[l], pkce::code_verifier) else { continue };
        // bits of the draws that reach the verifier
        let mut reached = 0.0;
        for i in 1..b.len() {
            let mut here = BTreeSet::new();
            let alts = alternatives(b[i]);
            for v in &alts {
                let mut s = vec![0; b.len()];
                s[0] = l;
                s[i] = *v;
                let key = format!("verifier length-choice {l} draw {i} = {v}");
                if !c.case(&key) {
                    continue;
                }
                match with(&s, pkce::code_verifier) {
                    Ok((o, _)) => {
                        if let Err(e) = verifier(&o) {
                            c.violation(&key, json!({"verifier": o, "shape": e}));
                        }
                        here.insert(o.clone());
                        c.distinct(&o);
                        challenge(&mut c, &mut seen, &o);
                        c.sample(json!({"length choice": l, "draw": i, "choice": v, "verifier": o}));
                    }
                    Err(p) => c.violation(&key, json!({ "panic": p })),
                }
            }
            reached += if here.len() == alts.len() { bits(&b[i..=i]) } else { (here.len().max(1) as f64).log2() };
        }
        c.expect(reached >= 256.0, &format!("verifier entropy (length-choice {l})"), || json!({ "bits that reach the verifier": reached }));
    }
    // challenges
    let n = c.pick(6, 8);
    c.bound("challenge_string_length", n);
    let alpha = ["a", "Z", "-", "=", " ", "é"];
    for w in mc::gen::words_upto(alpha.len(), n) {
        let s: String = w.into_iter().map(|i| alpha[i]).collect();
        challenge(&mut c, &mut seen, &s);
    }
    for u in (0..0x3100u32).chain([0xfeff, 0xffff, 0x1_f600, 0x10_ffff]) {
        let Some(ch) = char::from_u32(u) else { continue };
        challenge(&mut c, &mut seen, &ch.to_string());
        challenge(&mut c, &mut seen, &format!("x{ch}y"));
    }
    for a in 32..127u8 {
        for b in 32..127u8 {
            challenge(&mut c, &mut seen, &format!("{}{}", a as char, b as char));
        }
    }
    for w in ["%41", "a%2Bb", "+/", "-_", "AA==", "a\r\n", "null"] {
        challenge(&mut c, &mut seen, w);
    }
    for l in 0..=600 {
        challenge(&mut c, &mut seen, &"a".repeat(l));
        challenge(&mut c, &mut seen, &format!("{}b", "a".repeat(l)));
    }
    // RFC 7636 appendix B
    let got = guard(|| pkce::code_challenge("dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk"));
    c.expect(got.as_deref() == Ok("E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM"), "rfc7636", || json!(format!("{got:?}")));
    c.finish()
}
