//! C25: deferred issuance.
use crate::expiry::{no_proofs, pending};
use crate::util::*;

#[derive(Clone, Hash)]
struct Txn {
    id: String,
    owner: usize,
    ident: usize,
    nonce: String,
    alive: bool,
}
#[derive(Clone)]
struct M {
    w: World,
    tok: [String; 2],
    nonce: [String; 2],
    /// pending[subject][identifier]
    pend: [[bool; 2]; 2],
    txns: Vec<Txn>,
    issued: usize,
}
const WHO: [&str; 2] = ["alice", "bob"];
const IDS: [&str; 2] = ["PHLEmployeeID", "PHLDeveloper"];
/// bob's token is good for the employee id only
fn authorised(t: usize, i: usize) -> bool {
    t == 0 || i == 0
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Flip(usize, usize),
    Ask(usize, usize),
    /// transaction (None: unknown), token
    Poll(Option<usize>, usize),
}

fn dfs(c: &mut Check, m: &M, proofs: bool, hist: &mut Vec<Op>, depth: usize) {
    let shape: Vec<(usize, usize, bool, bool)> = m.txns.iter().map(|t| (t.owner, t.ident, t.alive, t.nonce == m.nonce[t.owner])).collect();
    c.state(&(proofs, m.pend, shape, hist.len()));
    if hist.len() == depth {
        return;
    }
    let mut ops = vec![Op::Flip(0, 0), Op::Flip(1, 0), Op::Flip(0, 1), Op::Ask(0, 0), Op::Ask(0, 1), Op::Ask(1, 0), Op::Poll(None, 0)];
    for t in 0..m.txns.len() {
        ops.extend([Op::Poll(Some(t), 0), Op::Poll(Some(t), 1)]);
    }
    for op in ops {
        hist.push(op);
        let key = format!("proofs {proofs}/{hist:?}");
        let ctx = json!({ "history": format!("{hist:?}"), "key proofs": proofs });
        let mut n = m.clone();
        load(&m.w);
        c.transition();
        let live = c.case(&key);
        match op {
            Op::Flip(s, i) => {
                n.pend[s][i] = !m.pend[s][i];
                pending(WHO[s], IDS[i], n.pend[s][i]);
            }
            Op::Ask(t, i) => {
                let out = ask("ask", &m.tok[t], IDS[i], WHO[t], &m.nonce[t]);
                if live {
                    c.validated();
                }
                match judge(c, &key, out, true, &ctx) {
                    None => {
                        hist.pop();
                        continue;
                    }
                    Some(r) if m.pend[t][i] => {
                        let id = s(&r["transaction_id"]);
                        let ok = id.len() > 20 && r.get("credential").is_none() && m.txns.iter().all(|x| x.id != id);
                        c.expect(ok, &key, || json!({ "not deferred": r, "ctx": ctx }));
                        n.txns.push(Txn { id, owner: t, ident: i, nonce: m.nonce[t].clone(), alive: true });
                        // a deferral may but need not renew the nonce
                        if let Some(x) = r["c_nonce"].as_str() {
                            n.nonce[t] = x.into();
                        }
                    }
                    Some(r) => {
                        content(c, &key, &r, t, i, proofs.then_some(t), &ctx);
                        n.nonce[t] = s(&r["c_nonce"]);
                        n.issued += 1;
                    }
                }
            }
            Op::Poll(x, t) => {
                let id = x.map_or("no-such-transaction".to_string(), |x| m.txns[x].id.clone());
                let out = go("poll", "deferred", json!({ "credential_issuer": ISSUER, "access_token": m.tok[t], "transaction_id": id }));
                if live {
                    c.validated();
                }
                let txn = x.map(|x| &m.txns[x]);
                let alive = txn.is_some_and(|x| x.alive && authorised(t, x.ident));
                let code = out.as_ref().map(Out::code).unwrap_or_default();
                let nonce_ok = !proofs || txn.is_some_and(|x| x.nonce == m.nonce[t]);
                if alive && nonce_ok && m.pend[t][txn.unwrap().ident] {
                    c.expect(code == "issuance_pending", &key, || json!({ "expected": "issuance_pending", "got": code, "ctx": ctx }));
                    judge(c, &key, out, false, &ctx);
                } else if alive && nonce_ok {
                    let Some(r) = judge(c, &key, out, true, &ctx) else {
                        hist.pop();
                        continue;
                    };
                    content(c, &key, &r, t, txn.unwrap().ident, proofs.then_some(txn.unwrap().owner), &ctx);
                    n.txns[x.unwrap()].alive = false;
                    n.nonce[t] = s(&r["c_nonce"]);
                    n.issued += 1;
                } else if alive && txn.unwrap().owner == t {
                    // the proof in the stored request names a nonce that has
                    // been renewed since
                    let what = Out::code;
                    match &out {
                        Ok(o @ Out::Err(v)) if what(o) == "invalid_proof" => {
                            c.violation("a deferred credential cannot be collected once the nonce of the token was renewed", json!({ "got": v, "ctx": ctx }));
                            n.nonce[t] = s(&v["c_nonce"]);
                        }
                        Ok(o @ Out::Err(_)) if what(o) == "issuance_pending" => {
                            c.expect(m.pend[t][txn.unwrap().ident], &key, || json!({ "pending": ctx }));
                        }
                        Ok(Out::Ok(r)) => {
                            content(c, &key, r, t, txn.unwrap().ident, Some(t), &ctx);
                            n.txns[x.unwrap()].alive = false;
                            n.nonce[t] = s(&r["c_nonce"]);
                        }
                        o => c.violation(&key, json!({ "got": format!("{o:?}"), "ctx": ctx })),
                    }
                } else {
                    // unknown, used up, not authorised, or somebody else's proof
                    if let Ok(Out::Err(v)) = &out {
                        if let Some(x) = v["c_nonce"].as_str() {
                            n.nonce[t] = x.into();
                        }
                    }
                    judge(c, &key, out, false, &ctx);
                }
            }
        }
        c.sample(ctx);
        n.w = save();
        dfs(c, &n, proofs, hist, depth);
        hist.pop();
    }
}

/// The credential is about the subject of the token that was presented.
fn content(c: &mut Check, key: &str, r: &Value, t: usize, i: usize, holder: Option<usize>, ctx: &Value) {
    match subject_of(r) {
        None => c.violation(key, json!({ "no credential": r, "ctx": ctx })),
        Some((did, claims)) => {
            c.expect(claims == claims_of(WHO[t], IDS[i]), key, || json!({ "claims": claims, "expected": claims_of(WHO[t], IDS[i]), "ctx": ctx }));
            if let Some(h) = holder {
                c.expect(did == format!("did:example:{}", WHO[h]), key, || json!({ "holder": did, "ctx": ctx }));
            }
            c.expect(r["c_nonce"].is_string() && r["notification_id"].is_string(), key, || json!({ "response": r, "ctx": ctx }));
        }
    }
}

pub fn c25(c: &mut Check) {
    c.rule("every history of: the data of a credential becoming pending or ready, credential requests, and polls of every transaction with every token, over two subjects with two credentials, with and without key proofs, up to the depth; each answer compared with a reference model; and every text of a good request replaced by each text easily taken for it (near misses), also where the near name is registered too");
    c.assume("signatures are ideal; random identifiers do not collide");
    let depth = c.pick(5, 6);
    c.bound("history length", depth);
    for proofs in [true, false] {
        let mut w = fresh();
        if !proofs {
            no_proofs(&mut w);
        }
        load(&w);
        let (ta, na) = pre_token("a", "alice", &[EMP, DEV]);
        let (tb, nb) = pre_token("b", "bob", &[EMP]);
        // both start pending: the interesting histories are longer otherwise
        pending("alice", IDS[0], true);
        pending("bob", IDS[0], true);
        let m = M { w: save(), tok: [ta, tb], nonce: [na, nb], pend: [[true, false], [true, false]], txns: vec![], issued: 0 };
        dfs(c, &m, proofs, &mut vec![], depth);
    }
    crate::near::deferred(c);
    crate::expiry::txns(c);
}
