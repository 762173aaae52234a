//! C20: one-time artefacts.
use crate::token::{artefacts, fmt_detail, Art, EMP_T};
use crate::util::*;
use world::seeded;

struct Op {
    name: &'static str,
    art: usize,
    call: Call,
    /// granted when the artefact is alive
    good: bool,
    /// the artefact is used up by this request
    uses: bool,
    /// another artefact that is needed, and used up when the request is granted
    also: Option<usize>,
}

fn find(arts: &[Art], n: &str) -> usize {
    arts.iter().position(|a| a.name == n).unwrap()
}

fn ops(arts: &[Art]) -> Vec<Op> {
    let mut v = vec![];
    let mut add = |name: &'static str, art: usize, call: Call, good: bool, uses: bool| v.push(Op { name, art, call, good, uses, also: None });
    let i = find(arts, "pre-authorized code with PIN");
    let (k, pin) = (&arts[i].key, arts[i].pin.as_deref());
    add("token", i, call("token", token_pre(k, pin, None)), true, true);
    add("token, wrong PIN", i, call("token", token_pre(k, Some("x"), None)), false, true);
    let i = find(arts, "authorization code");
    add("token by code", i, call("token", token_auth(&arts[i].key)), true, true);
    let mut b = token_auth(&arts[i].key);
    b["code_verifier"] = json!("wrong");
    add("token by code, wrong verifier", i, call("token", b), false, true);
    let i = find(arts, "code of an offer with both grants");
    add("token, offer with both grants", i, call("token", token_pre(&arts[i].key, arts[i].pin.as_deref(), None)), true, true);
    let mut b = auth_body("alice", &[EMP]);
    b["issuer_state"] = json!(arts[i].key);
    add("authorize, offer with both grants", i, call("authorize", b), true, true);
    let i = find(arts, "issuer_state");
    let mut b = auth_body("alice", &[EMP]);
    b["issuer_state"] = json!(arts[i].key);
    add("authorize with issuer_state", i, call("authorize", b.clone()), true, true);
    b["subject_id"] = json!("bob");
    add("authorize with issuer_state of another subject", i, call("authorize", b), false, false);
    // the same by scope, and for a credential of another kind
    let mut b = auth_body("alice", &[]);
    b.as_object_mut().unwrap().remove("authorization_details");
    b["scope"] = json!("EmployeeIDCredential");
    b["issuer_state"] = json!(arts[i].key);
    add("authorize with issuer_state by scope", i, call("authorize", b), true, true);
    let i = find(arts, "offer reference");
    let b = json!({ "credential_issuer": ISSUER, "id": arts[i].key });
    add("fetch offer", i, call("credential_offer", b), true, true);
    let i = find(arts, "request_uri");
    add("authorize with request_uri", i, call("authorize", json!({ "client_id": CLIENT, "request_uri": arts[i].key })), true, true);
    let i = find(arts, "transaction id");
    let t = find(arts, "access token");
    let b = json!({ "credential_issuer": ISSUER, "access_token": arts[t].key, "transaction_id": arts[i].key });
    add("deferred credential", i, call("deferred", b), true, true);
    v
}

/// Artefacts that come about in other ways.
fn others() -> Vec<Op> {
    let mut arts = 0;
    let mut ops = vec![];
    let mut art = || {
        arts += 1;
        arts - 1
    };
    let mut add = |name: &'static str, art: usize, call: Call, good: bool, uses: bool, also: Option<usize>| ops.push(Op { name, art, call, good, uses, also });
    let scope = |b: &mut Value| {
        b.as_object_mut().unwrap().remove("authorization_details");
        b["scope"] = json!("EmployeeIDCredential");
    };
    let mut b = auth_body("alice", &[]);
    scope(&mut b);
    let k = s(&must("o-scope", "authorize", b)["code"]);
    add("token by code for a scope", art(), call("token", token_auth(&k)), true, true, None);
    let mut b = auth_body("alice", &[]);
    b["authorization_details"] = json!([fmt_detail(&EMP_T)]);
    let k = s(&must("o-fmt", "authorize", b)["code"]);
    add("token by code for a format", art(), call("token", token_auth(&k)), true, true, None);
    let k = s(&must("o-par", "par", auth_body("alice", &[EMP]))["request_uri"]);
    let k = s(&must("o-par2", "authorize", json!({ "client_id": CLIENT, "request_uri": k }))["code"]);
    add("token by code of a pushed request", art(), call("token", token_auth(&k)), true, true, None);
    let (k, _) = pre_code("o-pre", "alice", &[EMP, DEV], false);
    let i = art();
    add("token for two", i, call("token", token_pre(&k, None, None)), true, true, None);
    let mut t = token_pre(&k, None, Some(CLIENT));
    t["authorization_details"] = json!([detail(DEV)]);
    add("token for one of two", i, call("token", t), true, true, None);
    // an offer by reference: the reference and the code are used separately
    let r = must("o-ref", "create_offer", offer_body("alice", &[EMP], &[PRE, AUTH], false, true));
    let r = s(&r["credential_offer_uri"]).rsplit('/').next().unwrap().to_string();
    let f = json!({ "credential_issuer": ISSUER, "id": r });
    let got = {
        let w = save();
        let o = must("o-get", "credential_offer", f.clone());
        load(&w);
        o
    };
    let i = art();
    add("fetch offer", i, call("credential_offer", f), true, true, None);
    let k = s(&got["credential_offer"]["grants"][PRE]["pre-authorized_code"]);
    let i = art();
    add("token, offer by reference", i, call("token", token_pre(&k, None, None)), true, true, None);
    // an offer whose state is used by a pushed request
    for (par, istate, direct, how) in [
        ("authorize with request_uri and issuer_state", "issuer_state of a pushed request", "authorize with issuer_state of a pushed request", false),
        ("authorize with request_uri and issuer_state, by scope", "issuer_state of a pushed request by scope", "authorize with issuer_state of a pushed request, by scope", true),
    ] {
        let k = s(&must(istate, "create_offer", offer_body("alice", &[EMP], &[AUTH], false, false))["credential_offer"]["grants"][AUTH]["issuer_state"]);
        let i = art();
        let mut b = auth_body("alice", &[EMP]);
        if how {
            scope(&mut b);
        }
        b["issuer_state"] = json!(k);
        add(direct, i, call("authorize", b.clone()), true, true, None);
        let u = s(&must(par, "par", b)["request_uri"]);
        add(par, art(), call("authorize", json!({ "client_id": CLIENT, "request_uri": u })), true, true, Some(i));
    }
    ops
}

fn dfs(c: &mut Check, ops: &[Op], tag: &str, w: &World, live: u32, hist: &mut Vec<usize>, depth: usize) {
    c.state(&(tag, live, hist.len()));
    if hist.len() == depth {
        return;
    }
    for (i, o) in ops.iter().enumerate() {
        hist.push(i);
        let key = format!("{tag}/{hist:?}");
        load(w);
        let out = go(&format!("op{i}"), o.call.ep, o.call.body.clone());
        let has = |i: usize| live & (1 << i) != 0;
        let alive = has(o.art);
        let granted = alive && o.good && o.also.map_or(true, has);
        c.transition();
        if c.case(&key) {
            c.validated();
            let ctx = json!(hist.iter().map(|h| ops[*h].name).collect::<Vec<_>>());
            judge(c, &key, out, granted, &ctx);
            c.sample(json!({ "history": ctx, "granted": granted }));
        }
        let w2 = save();
        let mut live2 = if alive && o.uses { live & !(1 << o.art) } else { live };
        if let (true, Some(i)) = (granted, o.also) {
            live2 &= !(1 << i);
        }
        dfs(c, ops, tag, &w2, live2, hist, depth);
        hist.pop();
    }
}

pub fn c20(c: &mut Check) {
    c.rule("every history of requests (valid and invalid) that present one-time artefacts, up to the depth, against a liveness model; and every schedule, at the granularity of provider calls, of two simultaneous requests that present the same artefact; the artefacts of other ways to reach the same state (by scope, by issuer_state); and artefacts of every shape (for one, two or three credentials, by details, claims, format or scope, offered, pushed, by reference, with PIN, deferred) with every pair of ways to use them");
    c.assume("random identifiers do not collide; provider calls are atomic");
    load(&fresh());
    let arts = artefacts();
    // the sequence model gives the deferred transaction the current nonce
    let base = save();
    let ops = ops(&arts);
    let depth = c.pick(4, 5);
    c.bound("history length", depth);
    c.bound("requests", ops.len());
    dfs(c, &ops, "seq", &base, u32::MAX, &mut vec![], depth);
    // the same artefacts come about in other ways
    load(&fresh());
    let more = others();
    let base2 = save();
    c.bound("further requests", more.len());
    dfs(c, &more, "more", &base2, u32::MAX, &mut vec![], depth - 1);
    crate::shapes::once(c);

    // two requests at once
    let mut schedules = 0;
    for (i, a) in ops.iter().enumerate() {
        for b in &ops[i..] {
            if a.art != b.art {
                continue;
            }
            let art = arts[a.art].name;
            let tag = format!("race/{} || {}", a.name, b.name);
            let pre = c.pick(4, 7);
            let mut found: Vec<(String, Value)> = vec![];
            let mut n = 0u64;
            schedules += exec::explore(pre, &mut |prefix| {
                load(&base);
                with(|w| w.log = Some(vec![]));
                let tasks: Vec<Option<exec::Task<Out>>> = vec![
                    Some(Box::pin(seeded("first", serve(a.call.clone())))),
                    Some(Box::pin(seeded("second", serve(b.call.clone())))),
                ];
                let r = exec::run_schedule(tasks, prefix);
                n += 1;
                let wins = r.results.iter().filter(|o| o.is_ok()).count();
                if wins > 1 {
                    // did both read the artefact before either removed it?
                    let log = save().log.unwrap_or_default();
                    let key = &arts[a.art].key;
                    let gets: Vec<usize> = log.iter().enumerate().filter(|(_, l)| **l == format!("get {key}")).map(|(i, _)| i).collect();
                    let purge = log.iter().position(|l| *l == format!("purge {key}")).unwrap_or(usize::MAX);
                    let overlap = gets.len() >= 2 && gets[1] < purge && purge != usize::MAX;
                    let k = if overlap { format!("{tag}/both-read-before-removal") } else { format!("{tag}/after-removal") };
                    found.push((k, json!({ "artefact": art, "schedule": r.schedule, "calls": log })));
                }
                r.choices
            });
            if c.case(&tag) {
                c.transition();
                c.state(&tag);
                c.sample(json!({ "race": tag, "schedules": n, "both granted in": found.len() }));
            }
            for (k, d) in found {
                c.violation(&k, d);
            }
        }
    }
    let pre = c.pick(4, 7);
    c.bound("context switches per schedule", pre);
    c.bound("schedules of two simultaneous requests", schedules);
}
