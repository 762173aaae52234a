//! Enumeration helpers.

/// Every sequence over `0..k` of length `n`.
pub fn words(k: usize, n: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = (k as u128).pow(n as u32);
    (0..total).map(move |mut x| {
        (0..n)
            .map(|_| {
                let d = (x % k as u128) as usize;
                x /= k as u128;
                d
            })
            .collect()
    })
}

/// Every sequence over `0..k` of length up to `n`, shortest first.
pub fn words_upto(k: usize, n: usize) -> impl Iterator<Item = Vec<usize>> {
    (0..=n).flat_map(move |l| words(k, l))
}

/// Every element of the product of the ranges `0..dims[i]`.
pub fn product(dims: &[usize]) -> impl Iterator<Item = Vec<usize>> {
    let dims = dims.to_vec();
    let total: u128 = dims.iter().map(|d| *d as u128).product();
    (0..total).map(move |mut x| {
        dims.iter()
            .map(|d| {
                let v = (x % *d as u128) as usize;
                x /= *d as u128;
                v
            })
            .collect()
    })
}

/// Every vector that departs from all-zero in at most `dev` positions.
pub fn deviations(dims: &[usize], dev: usize) -> Vec<Vec<usize>> {
    fn rec(dims: &[usize], from: usize, left: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(cur.clone());
        if left == 0 {
            return;
        }
        for i in from..dims.len() {
            for v in 1..dims[i] {
                cur[i] = v;
                rec(dims, i + 1, left - 1, cur, out);
                cur[i] = 0;
            }
        }
    }
    let mut out = vec![];
    rec(dims, 0, dev, &mut vec![0; dims.len()], &mut out);
    out
}

/// Every permutation of `0..n`.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// Texts that are easily taken for `s`: cut, padded, repeated, in another
/// case, with one character changed, encoded, quoted.
pub fn near(s: &str) -> Vec<String> {
    let ch: Vec<char> = s.chars().collect();
    let n = ch.len();
    let st = |v: &[char]| v.iter().collect::<String>();
    let mut out = vec![
        String::new(), format!("{s}x"), format!("x{s}"), format!("{s}{s}"), format!("{s} "), format!(" {s}"), format!("{s}/"), format!("{s}#x"), format!("{s}?x=y"),
        format!("{s}\0"), format!("{s}\n"), format!("\"{s}\""), format!("{s},{s}"), format!("{s} {s}"), s.to_uppercase(), s.to_lowercase(), s.trim_end_matches('/').to_string(),
        s.trim().to_string(), s.replace('_', "-"), s.replace('-', "_"), s.replace("http://", "https://"), s.replace(' ', ""), "*".into(), "null".into(),
    ];
    if n > 0 {
        let flip = |c: char| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        let next = |c: char| if c == 'z' || c == 'Z' || c == '9' { 'a' } else { char::from_u32(c as u32 + 1).unwrap_or('a') };
        out.push(st(&ch[..n - 1]));
        out.push(st(&ch[1..]));
        out.push(st(&ch[..n / 2]));
        out.push(st(&ch[n / 2..]));
        out.push(st(&ch[..1]));
        out.push(ch.iter().rev().collect());
        out.push(format!("%{:02X}{}", ch[0] as u32 & 0xff, st(&ch[1..])));
        for i in [0, n / 4, n / 2, 3 * n / 4, n - 1] {
            for f in [&flip as &dyn Fn(char) -> char, &next] {
                let mut v = ch.clone();
                v[i] = f(v[i]);
                out.push(st(&v));
            }
        }
        if n > 1 {
            let mut v = ch.clone();
            v.swap(n - 2, n - 1);
            out.push(st(&v));
            let mut v = ch.clone();
            v.swap(0, 1);
            out.push(st(&v));
        }
    }
    if let Some((scheme, rest)) = s.split_once("://") {
        // another user, host, port or path of a URL
        let (auth, path) = rest.find('/').map_or((rest, ""), |i| rest.split_at(i));
        let (host, port) = auth.split_once(':').unwrap_or((auth, ""));
        for a in [format!("x@{auth}"), format!("x.{auth}"), host.to_string(), format!("{host}:1"), format!("{host}:{port}0"), format!("{host}."), format!("{host}x:{port}"), format!("{host}.x:{port}")] {
            out.push(format!("{scheme}://{a}{path}"));
        }
        for p in ["/", "/x", "/../x"] {
            out.push(format!("{scheme}://{auth}{p}{path}"));
            out.push(format!("{scheme}://{auth}{path}{p}"));
            out.push(format!("{scheme}://{auth}{p}"));
        }
        out.push(format!("{scheme}://{auth}"));
        out.push(format!("x://{rest}"));
        out.push(rest.to_string());
    }
    let mut seen = std::collections::BTreeSet::new();
    out.retain(|x| x != s && seen.insert(x.clone()));
    out
}

/// The text leaves of a document: JSON pointer and text.
pub fn texts(v: &serde_json::Value) -> Vec<(String, String)> {
    fn rec(v: &serde_json::Value, at: &str, out: &mut Vec<(String, String)>) {
        match v {
            serde_json::Value::String(s) => out.push((at.into(), s.clone())),
            serde_json::Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| rec(x, &format!("{at}/{i}"), out)),
            serde_json::Value::Object(o) => {
                o.iter().for_each(|(k, x)| rec(x, &format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out));
            }
            _ => {}
        }
    }
    let mut out = vec![];
    rec(v, "", &mut out);
    out
}

/// The document with the value at a pointer replaced.
pub fn put(v: &serde_json::Value, at: &str, x: serde_json::Value) -> serde_json::Value {
    let mut w = v.clone();
    if let Some(p) = w.pointer_mut(at) {
        *p = x;
    }
    w
}
