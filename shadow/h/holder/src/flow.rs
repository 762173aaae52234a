//! C50: the steps of a wallet's issuance flow.
use crate::util::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Phase {
    Ready,
    Pin,
    Accepted,
    Token,
    Gone,
}
/// The reference: what a wallet flow is.
#[derive(Clone, Debug, Hash)]
struct M {
    phase: Phase,
    /// None: everything offered
    accepted: Option<Vec<&'static str>>,
    pin: Option<bool>,
    /// identifiers the token is good for
    granted: Vec<String>,
    /// credentials waiting to be saved, the deferred ones, and the saved ones
    waiting: Vec<String>,
    deferred: Vec<(String, String)>,
    saved: Vec<String>,
    note: Option<String>,
    pending: bool,
}
#[derive(Clone)]
struct N {
    w: World,
    m: M,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    /// which acceptance
    Accept(usize),
    Pin(bool),
    Token,
    /// with which authorization details
    Authorize(usize),
    /// 0 all, 1 the first granted, 2 one not granted, 3 one granted and one not
    Creds(usize),
    Deferred(usize),
    /// as another configuration's
    DeferredAs(usize),
    Save,
    Cancel,
    /// the issuer gets to know (or loses) the subject's data
    Flip,
}
const ACCEPTS: [&str; 8] = ["all", "employee", "developer", "none", "not offered", "not supported", "employee, some claims", "both by name"];
fn accept_value(k: usize) -> Value {
    let one = |c: &str| json!([{ "credential_configuration_id": c, "claims": null }]);
    match k {
        0 => Value::Null,
        1 => one(EMP),
        2 => one(DEV),
        3 => json!([]),
        4 => one(world::issuer::MDL),
        5 => one("NoSuchConfiguration"),
        7 => json!([{ "credential_configuration_id": EMP, "claims": null }, { "credential_configuration_id": DEV, "claims": null }]),
        _ => json!([{ "credential_configuration_id": EMP, "claims": { "email": {}, "family_name": {}, "given_name": {} } }]),
    }
}
/// Authorization details: which configurations they name.
const DETAILS: [&[&str]; 6] = [&[], &[EMP], &[DEV], &[EMP, DEV], &[world::issuer::MDL], &[EMP, "NoSuchConfiguration"]];
struct Cfg {
    name: String,
    confs: Vec<&'static str>,
    grants: Vec<&'static str>,
    pin: bool,
    /// the offer names its grants
    named: bool,
}
impl Cfg {
    fn pre(&self) -> bool {
        self.named && self.grants.contains(&PRE)
    }
    fn code(&self) -> bool {
        !self.named || self.grants.contains(&AUTH)
    }
}

/// What the wallet asked the issuer for, in the last call.
fn asked() -> Vec<String> {
    let mut v: Vec<String> = sent("credential").iter().map(|r| s(&r["credential_identifier"])).collect();
    v.sort();
    v
}

fn step(c: &mut Check, cfg: &Cfg, id: &str, pin: &str, n: &N, op: Op, hist: &str) -> Option<N> {
    load(&n.w);
    let m = &n.m;
    let mut x = m.clone();
    let key = format!("{}/{hist}", cfg.name);
    let ctx = || json!({ "offer": cfg.name, "history": hist, "model": format!("{m:?}") });
    let by_id = json!({ "issuance_id": id });
    if let Op::Flip = op {
        x.pending = !m.pending;
        with(|w| w.datasets.values_mut().for_each(|d| d.1 = x.pending));
        return Some(N { w: save(), m: x });
    }
    let label = format!("{op:?}");
    let out = match op {
        Op::Accept(k) => go(&label, "accept", json!({ "issuance_id": id, "accept": accept_value(k) })),
        Op::Pin(right) => go(&label, "pin", json!({ "issuance_id": id, "pin": if right { pin } else { "not it" } })),
        Op::Token => go(&label, "token", json!(id)),
        Op::Authorize(k) => {
            let mut b = json!({ "initiator": { "Issuer": { "issuance_id": id } }, "redirect_uri": REDIRECT });
            if k > 0 {
                b["authorization_details"] = DETAILS[k].iter().map(|c| json!({ "type": "openid_credential", "credential_configuration_id": c })).collect();
            }
            go(&label, "authorize", b)
        }
        Op::Creds(k) => {
            let ids = match k {
                0 => Value::Null,
                1 => json!(m.granted.iter().take(1).collect::<Vec<_>>()),
                2 => json!(["NotGranted"]),
                _ => json!(m.granted.iter().take(1).cloned().chain(["NotGranted".to_string()]).collect::<Vec<_>>()),
            };
            go(&label, "credentials", json!({ "issuance_id": id, "credential_identifiers": ids, "format": null }))
        }
        Op::Deferred(k) => {
            let (t, conf) = m.deferred.get(k).cloned().unwrap_or(("no-such-transaction".into(), EMP.into()));
            go(&label, "deferred", json!({ "issuance_id": id, "transaction_id": t, "credential_configuration_id": conf }))
        }
        Op::DeferredAs(k) => {
            let (t, conf) = m.deferred.get(k).cloned().unwrap_or(("no-such-transaction".into(), EMP.into()));
            let other = if conf == EMP { DEV } else { EMP };
            go(&label, "deferred", json!({ "issuance_id": id, "transaction_id": t, "credential_configuration_id": other }))
        }
        Op::Save => go(&label, "save", by_id),
        Op::Cancel => go(&label, "cancel", by_id),
        Op::Flip => unreachable!(),
    };
    c.transition();
    c.validated();
    let out = match out {
        Ok(o) => o,
        Err(p) => {
            c.violation(&key, json!({ "panic": p, "ctx": ctx() }));
            return None;
        }
    };
    // is the step one the flow may take now?
    let offered = |conf: &str| cfg.confs.contains(&conf);
    let allowed = match op {
        Op::Accept(k) => {
            m.phase == Phase::Ready
                && match k {
                    0 => true,
                    1 | 6 => offered(EMP),
                    2 => offered(DEV),
                    7 => offered(EMP) && offered(DEV),
                    _ => false,
                }
        }
        Op::Pin(_) => m.phase == Phase::Pin,
        Op::Token => m.phase == Phase::Accepted && cfg.pre(),
        Op::Authorize(k) => {
            let may = |c: &str| m.accepted.as_ref().map_or(offered(c), |a| a.contains(&c));
            m.phase == Phase::Accepted && cfg.code() && DETAILS[k].iter().all(|c| may(c))
        }
        Op::Creds(k) => m.phase == Phase::Token && k < 2,
        Op::Deferred(k) => m.phase == Phase::Token && k < m.deferred.len(),
        Op::DeferredAs(_) => false,
        Op::Save | Op::Cancel => m.phase != Phase::Gone,
        Op::Flip => true,
    };
    let remote: Vec<(String, Value)> = with(|w| w.sent.clone());
    let answers: Vec<(String, Option<Value>)> = with(|w| w.got.clone());
    let refused = answers.iter().any(|(_, a)| a.is_none());
    let now = save();
    if !allowed {
        c.outcome("refused by the wallet");
        c.expect(!out.is_ok(), &key, || json!({ "step out of order accepted": out.json(), "ctx": ctx() }));
        c.expect(remote.is_empty(), &key, || json!({ "step out of order sent requests": remote, "ctx": ctx() }));
        c.expect(now.store == n.w.store && now.creds == n.w.creds, &key, || json!({ "step out of order had an effect": ctx() }));
        return None;
    }
    if refused {
        c.outcome("refused by the issuer");
        c.expect(!out.is_ok(), &key, || json!({ "refusal of the issuer ignored": out.json(), "ctx": ctx() }));
        c.expect(state(id) == n.w.store.get(&format!("h:{id}")).map(|x| x.0.clone()) && now.creds == n.w.creds, &key, || {
            json!({ "a refused step changed the flow": ctx() })
        });
        // what becomes of the issuer's state is not the wallet's business, but
        // the flow goes on from there
        return Some(N { w: now, m: x });
    }
    if !out.is_ok() {
        c.outcome("failed");
        c.violation(&key, json!({ "step failed": out.json(), "answers": answers, "ctx": ctx() }));
        return None;
    }
    c.outcome("done");
    let r = out.ok().cloned().unwrap_or_default();
    match op {
        Op::Accept(k) => {
            c.expect(remote.is_empty(), &key, || json!({ "acceptance sent requests": remote, "ctx": ctx() }));
            x.accepted = match k {
                0 => None,
                2 => Some(vec![DEV]),
                7 => Some(vec![EMP, DEV]),
                _ => Some(vec![EMP]),
            };
            x.phase = if cfg.pre() && cfg.pin { Phase::Pin } else { Phase::Accepted };
        }
        Op::Pin(right) => {
            c.expect(remote.is_empty(), &key, || json!({ "PIN entry sent requests": remote, "ctx": ctx() }));
            x.pin = Some(right);
            x.phase = Phase::Accepted;
        }
        Op::Token | Op::Authorize(_) => {
            if let Op::Authorize(k @ 1..) = op {
                x.accepted = Some(DETAILS[k].to_vec());
            }
            x.phase = Phase::Token;
            let want: Vec<&str> = x.accepted.clone().unwrap_or(cfg.confs.clone());
            let mut ids: Vec<String> = want.iter().map(|c| world::issuer::std_cfg().authz[&("alice".to_string(), c.to_string())][0].clone()).collect();
            ids.sort();
            let mut told: Vec<String> =
                r["authorized"].as_object().map(|o| o.values().flat_map(|v| v.as_array().cloned().unwrap_or_default()).map(|v| s(&v)).collect()).unwrap_or_default();
            told.sort();
            c.expect(told == ids, &key, || json!({ "authorized": told, "accepted": ids, "ctx": ctx() }));
            // one authorization request at most, one token request
            let eps: Vec<&str> = remote.iter().map(|(e, _)| e.as_str()).collect();
            let want_eps: &[&str] = if matches!(op, Op::Token) { &["token"] } else { &["authorize", "token"] };
            c.expect(eps == want_eps, &key, || json!({ "requests": eps, "ctx": ctx() }));
            let t = &remote.last().unwrap().1;
            if matches!(op, Op::Token) {
                let with_pin = m.pin.map(|r| if r { pin.to_string() } else { "not it".into() });
                c.expect(t["tx_code"].as_str().map(String::from) == with_pin, &key, || json!({ "PIN sent": t, "ctx": ctx() }));
            }
            x.granted = ids;
        }
        Op::Creds(k) => {
            let mut want: Vec<String> = match k {
                0 => m.granted.clone(),
                _ => m.granted.iter().take(1).cloned().collect(),
            };
            want.sort();
            let a = asked();
            c.expect(a == want, &key, || json!({ "asked for": a, "wanted": want, "ctx": ctx() }));
            for (req, (_, ans)) in sent("credential").iter().zip(answers.iter().filter(|(e, _)| e == "credential")) {
                let ans = ans.clone().unwrap();
                let conf = if s(&req["credential_identifier"]) == ident(EMP) { EMP } else { DEV };
                if let Some(t) = ans["transaction_id"].as_str() {
                    x.deferred.push((t.into(), conf.into()));
                } else {
                    x.waiting.push(s(&ans["credential"]));
                }
                if let Some(i) = ans["notification_id"].as_str() {
                    x.note = Some(i.into());
                }
            }
        }
        Op::Deferred(k) => {
            let ans = answers.last().and_then(|a| a.1.clone()).unwrap_or_default();
            x.deferred.remove(k);
            x.waiting.push(s(&ans["credential"]));
            x.note = ans["notification_id"].as_str().map(String::from);
        }
        Op::DeferredAs(_) => {}
        Op::Save => {
            // a credential replaces the stored one of the same id
            for t in x.waiting.drain(..) {
                x.saved.retain(|o| vc_id(o) != vc_id(&t));
                x.saved.push(t);
            }
            let notes = sent("notification");
            let ok = match &m.note {
                None => notes.is_empty(),
                Some(i) => notes.len() == 1 && notes[0]["notification_id"] == json!(i) && notes[0]["event"] == "credential_accepted",
            };
            c.expect(ok, &key, || json!({ "notifications of acceptance": notes, "ctx": ctx() }));
            x.note = None;
            if x.deferred.is_empty() {
                x.phase = Phase::Gone;
            }
        }
        Op::Cancel => {
            let notes = sent("notification");
            let ok = match &m.note {
                None => notes.is_empty(),
                Some(i) => notes.len() == 1 && notes[0]["notification_id"] == json!(i) && notes[0]["event"] == "credential_deleted",
            };
            c.expect(ok, &key, || json!({ "notifications of deletion": notes, "ctx": ctx() }));
            x.phase = Phase::Gone;
        }
        Op::Flip => {}
    }
    // the effects
    c.expect((x.phase == Phase::Gone) == state(id).is_none(), &key, || json!({ "flow kept or lost": state(id), "ctx": ctx() }));
    if let Some(st) = state(id) {
        let have: Vec<String> = st["credentials"].as_array().map(|a| a.iter().map(|v| s(&v["issued"])).collect()).unwrap_or_default();
        let (mut a, mut b) = (have, x.waiting.clone());
        a.sort();
        b.sort();
        c.expect(a == b, &key, || json!({ "credentials waiting": a, "expected": b, "ctx": ctx() }));
        let mut d: Vec<(String, String)> = st["deferred"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), s(v))).collect()).unwrap_or_default();
        let mut e = x.deferred.clone();
        d.sort();
        e.sort();
        c.expect(d == e, &key, || json!({ "deferred": d, "expected": e, "ctx": ctx() }));
        if matches!(op, Op::Creds(_) | Op::Deferred(_)) {
            let told: Vec<String> = r["deferred"].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
            let mut names: Vec<String> = e.iter().map(|d| d.0.clone()).collect();
            names.sort();
            c.expect(told == names, &key, || json!({ "deferred reported": told, "expected": names, "ctx": ctx() }));
        }
    }
    let mut want = x.saved.clone();
    want.sort();
    let have = stored();
    c.expect(have == want, &key, || json!({ "stored": have, "expected": want, "ctx": ctx() }));
    // nothing but this flow of the wallet changed
    let other = |w: &World| w.store.iter().filter(|(k, _)| k.starts_with("h:") && **k != format!("h:{id}")).map(|(k, v)| (k.clone(), v.0.clone())).collect::<Vec<_>>();
    c.expect(other(&now) == other(&n.w), &key, || json!({ "another flow changed": ctx() }));
    Some(N { w: now, m: x })
}

pub fn c50() -> ! {
    let mut c = Check::new("C50", "model_checking");
    c.rule("every sequence of wallet calls up to the depth, for every kind of offer, against a reference state machine; the issuer is the real one; states that agree in what the flow is, holds and has sent are merged; offers of many credentials with every choice of a few, every PIN of the menu, near names of identifiers");
    c.assume("signatures are ideal (stubs/vercre-infosec)");
    let depth = c.pick(7, 10);
    let cap = c.pick(2, 3);
    c.bound("calls per history", depth);
    c.bound("credentials collected per history", cap);
    let mut cfgs = vec![];
    for confs in [vec![EMP], vec![EMP, DEV]] {
        for (grants, pin, named) in [
            (vec![PRE], false, true),
            (vec![PRE], true, true),
            (vec![AUTH], false, true),
            (vec![PRE, AUTH], false, true),
            (vec![PRE, AUTH], true, true),
            (vec![AUTH], false, false),
        ] {
            let name = format!("{confs:?} {}{}{}", if named { format!("{grants:?}") } else { "no grants".into() }, if pin { " PIN" } else { "" }, "");
            cfgs.push(Cfg { name, confs: confs.clone(), grants: grants.clone(), pin, named });
        }
    }
    c.bound("kinds of offer", cfgs.len());
    let ops = {
        let mut v: Vec<Op> = (0..ACCEPTS.len()).map(Op::Accept).collect();
        v.extend([Op::Pin(true), Op::Pin(false), Op::Token, Op::Creds(0), Op::Creds(1), Op::Creds(2), Op::Creds(3), Op::Deferred(0), Op::Deferred(1), Op::DeferredAs(0)]);
        v.extend((0..DETAILS.len()).map(Op::Authorize));
        v.extend([Op::Save, Op::Cancel, Op::Flip]);
        v
    };
    for cfg in &cfgs {
        load(&fresh());
        let (mut offer, pin) = make_offer("offer", &cfg.confs, &cfg.grants, cfg.pin);
        if !cfg.named {
            offer.as_object_mut().unwrap().remove("grants");
        }
        // another flow, which must not be touched
        let (o2, _) = make_offer("other", &[EMP], &[PRE], false);
        must("other-flow", "offer", offer_req(&o2));
        let before = save();
        let r = must("flow", "offer", offer_req(&offer));
        let id = s(&r["issuance_id"]);
        c.expect(state(&id).is_some() && save().creds.is_empty(), &cfg.name, || json!({ "no flow after an offer": r }));
        let told: Vec<String> = {
            let mut v: Vec<String> = r["offered"].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
            v.sort();
            v
        };
        let mut want: Vec<String> = cfg.confs.iter().map(|x| x.to_string()).collect();
        want.sort();
        c.expect(told == want && r["issuer"] == ISSUER && r["grants"] == offer.get("grants").cloned().unwrap_or_default(), &cfg.name, || {
            json!({ "offer as told": r, "offer": offer })
        });
        // offers that have to be refused
        for bad in [json!([]), json!(["NoSuchConfiguration"]), json!([EMP, "NoSuchConfiguration"])] {
            load(&before);
            let mut o = offer.clone();
            o["credential_configuration_ids"] = bad;
            let key = format!("{}/refused offer {}", cfg.name, o["credential_configuration_ids"]);
            let out = go("bad-offer", "offer", offer_req(&o));
            c.transition();
            c.validated();
            c.expect(matches!(&out, Ok(x) if !x.is_ok()) && save().store == before.store, &key, || json!({ "got": format!("{out:?}") }));
        }
        load(&before);
        let r = must("flow", "offer", offer_req(&offer));
        let id2 = s(&r["issuance_id"]);
        assert_eq!(id, id2);
        let m = M { phase: Phase::Ready, accepted: None, pin: None, granted: vec![], waiting: vec![], deferred: vec![], saved: vec![], note: None, pending: false };
        let mut frontier = vec![(N { w: save(), m }, String::new())];
        for _ in 0..depth {
            let mut next = vec![];
            for (n, hist) in frontier {
                for op in &ops {
                    if matches!(op, Op::Creds(_)) && n.m.phase == Phase::Token && n.m.waiting.len() + n.m.deferred.len() + n.m.saved.len() >= cap {
                        continue;
                    }
                    if matches!(op, Op::Deferred(k) if *k > n.m.deferred.len()) {
                        continue;
                    }
                    let h = if hist.is_empty() { format!("{op:?}") } else { format!("{hist} {op:?}") };
                    c.case(&h);
                    if let Some(x) = step(&mut c, cfg, &id, &pin, &n, *op, &h) {
                        if !c.has_violations() && c.state(&(&cfg.name, shape(&x))) {
                            c.sample(json!({ "offer": cfg.name, "history": h }));
                            next.push((x, h));
                        }
                    }
                }
            }
            frontier = next;
        }
        c.bound(&format!("states left beyond the depth: {}", cfg.name), frontier.len());
    }
    crate::wide::steps(&mut c);
    crate::names::flows(&mut c);
    crate::wide::pins(&mut c);
    crate::wide::secrets(&mut c);
    crate::wide::scopes(&mut c);
    c.finish()
}
fn vc_id(t: &str) -> Value {
    open_jwt(t, ISSUER_PK).map(|(_, c)| c["vc"]["id"].clone()).unwrap_or_default()
}
/// What distinguishes states: the model without random values, and whether
/// the issuer still knows the offer's code.
fn shape(n: &N) -> String {
    let m = &n.m;
    let kinds = |v: &Vec<String>| {
        let mut k: Vec<String> = v.iter().map(|t| open_jwt(t, ISSUER_PK).map(|(_, c)| c["vc"]["type"].to_string()).unwrap_or_default()).collect();
        k.sort();
        k
    };
    let issuer: Vec<&str> = n.w.store.iter().filter(|(k, _)| !k.contains(':')).map(|(_, v)| v.0["stage"].as_object().and_then(|o| o.keys().next()).map_or("", |s| s.as_str())).collect();
    let mut d: Vec<&String> = m.deferred.iter().map(|d| &d.1).collect();
    d.sort();
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {} {issuer:?}", m.phase, m.accepted, m.pin, m.granted, kinds(&m.waiting), d, kinds(&m.saved), m.note.is_some(), m.pending)
}
