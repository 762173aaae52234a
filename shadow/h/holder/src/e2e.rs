//! C53: whole issuance flows with the real issuer. C54: faults in them.
use base64ct::{Base64UrlUnpadded as B64, Encoding};
use sha2::{Digest, Sha256};

use crate::util::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Grant {
    Pre,
    PrePin,
    Code,
    /// the offer has both grants; the wallet uses the pre-authorized code / the other
    BothPre,
    BothCode,
    Unnamed,
    WalletDetails,
    WalletScope,
}
use Grant::*;
const GRANTS: [Grant; 8] = [Pre, PrePin, Code, BothPre, BothCode, Unnamed, WalletDetails, WalletScope];
const NARROW: [&str; 5] = ["everything", "the first", "the last", "some claims of the first", "all, named"];
#[derive(Clone, Debug)]
struct Plan {
    grant: Grant,
    confs: Vec<&'static str>,
    narrow: usize,
    /// identifiers per configuration
    many: bool,
    /// which configurations are deferred
    pending: Vec<bool>,
    key1: bool,
}
struct Trace {
    sent: Vec<(String, Value)>,
    got: Vec<(String, Option<Value>)>,
    error: Option<(String, String)>,
    id: String,
    pin: String,
    offer: Value,
    at: Vec<World>,
    /// how many requests were sent by the end of each call
    upto: Vec<usize>,
}
fn idents(p: &Plan, conf: &str) -> Vec<String> {
    if p.many && conf == EMP { vec!["EmpA".into(), "EmpB".into()] } else { vec![ident(conf).into()] }
}
fn wanted(p: &Plan) -> Vec<&'static str> {
    match p.narrow {
        1 | 3 => vec![p.confs[0]],
        2 => vec![*p.confs.last().unwrap()],
        _ => p.confs.clone(),
    }
}
fn some_claims(conf: &str) -> Value {
    if conf == EMP { json!({ "email": {}, "family_name": {}, "given_name": {} }) } else { json!({ "proficiency": {} }) }
}
fn world_of(p: &Plan) -> World {
    let mut w = fresh();
    let mut cfg = (*w.icfg).clone();
    for conf in [EMP, DEV] {
        cfg.authz.insert(("alice".into(), conf.into()), idents(p, conf));
    }
    w.icfg = cfg.into();
    if p.key1 {
        w.wallet = Some(world::key("did:example:bob#k1", "pk-bob-1"));
    }
    set_pending(&mut w, p, true);
    w
}
fn set_pending(w: &mut World, p: &Plan, on: bool) {
    for (i, conf) in p.confs.iter().enumerate() {
        for id in idents(p, conf) {
            w.datasets.get_mut(&("alice".to_string(), id)).unwrap().1 = on && p.pending[i];
        }
    }
}
fn details(p: &Plan) -> Value {
    wanted(p)
        .iter()
        .map(|c| {
            let mut d = json!({ "type": "openid_credential", "credential_configuration_id": c });
            if p.narrow == 3 {
                d["credential_definition"] = json!({ "credentialSubject": some_claims(c) });
            }
            d
        })
        .collect()
}
fn format_of(conf: &str) -> Value {
    with(|w| {
        let i = &w.icfg.issuers[ISSUER];
        serde_json::to_value(&i.credential_configurations_supported[conf].format).unwrap()
    })
}
/// Run a flow to its end. `fail` names the provider call that fails, counted
/// over the calls of the wallet; the operation is then repeated once.
fn run(p: &Plan, fail: Option<usize>, mut repeated: Option<&mut bool>) -> Result<Trace, String> {
    load(&world_of(p));
    let mut t = Trace { sent: vec![], got: vec![], error: None, id: String::new(), pin: String::new(), offer: Value::Null, at: vec![], upto: vec![] };
    if !matches!(p.grant, WalletDetails | WalletScope) {
        let grants: &[&str] = match p.grant {
            Pre | PrePin => &[PRE],
            Code | Unnamed => &[AUTH],
            _ => &[PRE, AUTH],
        };
        let (mut o, pin) = make_offer("offer", &p.confs, grants, p.grant == PrePin);
        if p.grant == Unnamed {
            o.as_object_mut().unwrap().remove("grants");
        }
        t.offer = o;
        t.pin = pin;
    }
    with(|w| {
        w.calls = 0;
        w.fail_at = fail;
    });
    let mut retry = fail.is_some();
    let mut call = |t: &mut Trace, ep: &'static str, body: Value| -> Result<Option<Value>, String> {
        loop {
            let out = go(ep, ep, body.clone())?;
            with(|w| {
                t.sent.append(&mut w.sent);
                t.got.append(&mut w.got);
            });
            t.at.push(save());
            t.upto.push(t.sent.len());
            match out {
                Out::Ok(v) => return Ok(Some(v)),
                o => {
                    let hit = fail.is_some_and(|k| with(|w| w.calls) > k);
                    if retry && hit {
                        retry = false;
                        if let Some(r) = repeated.as_deref_mut() {
                            *r = true;
                        }
                        continue;
                    }
                    t.error = Some((ep.into(), o.json().to_string()));
                    return Ok(None);
                }
            }
        }
    };
    macro_rules! step {
        ($ep:expr, $b:expr) => {{
            let b = $b;
            match call(&mut t, $ep, b)? {
                Some(v) => v,
                None => return Ok(t),
            }
        }};
    }
    let mut format = Value::Null;
    match p.grant {
        WalletDetails | WalletScope => {
            let scope = if p.grant == WalletScope { json!(if p.confs[0] == EMP { "EmployeeIDCredential" } else { "DeveloperCredential" }) } else { Value::Null };
            let mut b = json!({ "initiator": { "Wallet": { "client_id": CLIENT, "issuer": ISSUER, "subject_id": "alice" } }, "redirect_uri": REDIRECT });
            if p.grant == WalletScope {
                b["initiator"]["Wallet"]["scope"] = scope;
                format = format_of(p.confs[0]);
            } else {
                b["authorization_details"] = details(p);
            }
            t.id = s(&step!("authorize", b)["issuance_id"]);
        }
        _ => {
            let b = offer_req(&t.offer);
            t.id = s(&step!("offer", b)["issuance_id"]);
            let accept: Value = match p.narrow {
                0 => Value::Null,
                3 => json!([{ "credential_configuration_id": p.confs[0], "claims": some_claims(p.confs[0]) }]),
                _ => wanted(p).iter().map(|c| json!({ "credential_configuration_id": c, "claims": null })).collect(),
            };
            step!("accept", json!({ "issuance_id": t.id, "accept": accept }));
            if p.grant == PrePin {
                step!("pin", json!({ "issuance_id": t.id, "pin": t.pin }));
            }
            if matches!(p.grant, Pre | PrePin | BothPre) {
                step!("token", json!(t.id));
            } else {
                step!("authorize", json!({ "initiator": { "Issuer": { "issuance_id": t.id } }, "redirect_uri": REDIRECT }));
            }
        }
    }
    let mut r = step!("credentials", json!({ "issuance_id": t.id, "credential_identifiers": null, "format": format }));
    with(|w| {
        let mut w2 = w.clone();
        set_pending(&mut w2, p, false);
        w.datasets = w2.datasets;
    });
    let left: Vec<(String, String)> = r["deferred"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), s(v))).collect()).unwrap_or_default();
    for (txn, conf) in left {
        r = step!("deferred", json!({ "issuance_id": t.id, "transaction_id": txn, "credential_configuration_id": conf }));
    }
    let _ = r;
    step!("save", json!({ "issuance_id": t.id }));
    Ok(t)
}

/// (did, kid, public key) of the wallet
fn holder(p: &Plan) -> (&'static str, &'static str, &'static str) {
    if p.key1 { ("did:example:bob", "did:example:bob#k1", "pk-bob-1") } else { ("did:example:alice", "did:example:alice#k0", "pk-alice-0") }
}
/// Keep the claims a flow asked for. The issuer checks the claims of
/// authorization details but issues all it has (it says so in the token
/// response), so what it adds is not judged.
fn strip(p: &Plan, mut x: (String, Value)) -> (String, Value) {
    if p.narrow == 3 {
        let conf = if x.0 == "EmployeeIDCredential" { EMP } else { DEV };
        if let Some(o) = x.1.as_object_mut() {
            o.retain(|k, _| some_claims(conf).get(k).is_some());
        }
    }
    x
}
/// The credentials a flow has to end with: (types, claims).
fn expected(p: &Plan) -> Vec<(String, Value)> {
    let mut v = vec![];
    for conf in wanted(p) {
        for id in idents(p, conf) {
            let cl = world::issuer::claims_of("alice", &id);
            v.push(strip(p, (if conf == EMP { "EmployeeIDCredential" } else { "DeveloperCredential" }.to_string(), cl)));
        }
    }
    v.sort_by_key(|x| format!("{x:?}"));
    v
}
fn contents(token: &str, p: &Plan) -> Option<(String, Value)> {
    let (_, c) = open_jwt(token, ISSUER_PK)?;
    let mut sub = c["vc"]["credentialSubject"].clone();
    if s(&sub["id"]) != holder(p).0 {
        return None;
    }
    sub.as_object_mut()?.remove("id");
    Some(strip(p, (s(&c["vc"]["type"][1]), sub)))
}
/// Judge the requests of a flow.
fn requests(c: &mut Check, key: &str, p: &Plan, t: &Trace) {
    let (did, kid, pk) = holder(p);
    let _ = did;
    let mut fail = |what: &str, r: &Value| c.violation(key, json!({ "request": what, "sent": r }));
    let mut nonce = Value::Null;
    let mut token = Value::Null;
    let mut challenge = Value::Null;
    let mut code = Value::Null;
    let mut nonces: Vec<Value> = vec![];
    if t.sent.len() != t.got.len() {
        return fail("not answered", &json!(t.sent));
    }
    for ((ep, r), (_, a)) in t.sent.iter().zip(&t.got) {
        let a = a.clone().unwrap_or_default();
        if ep != "notification" && ep != "logo" && r["credential_issuer"] != ISSUER {
            fail("to another issuer", r);
        }
        match ep.as_str() {
            "authorize" => {
                let ok = r["response_type"] == "code" && r["client_id"] == CLIENT && r["redirect_uri"] == REDIRECT && r["subject_id"] == "alice"
                    && r["code_challenge_method"] == "S256" && r["state"].is_string() && r["issuer_state"] == t.offer["grants"][AUTH]["issuer_state"];
                if !ok {
                    fail("authorization", r);
                }
                let conf: Vec<String> = r["authorization_details"].as_array().map(|a| a.iter().map(|d| s(&d["credential_configuration_id"])).collect()).unwrap_or_default();
                if p.grant == WalletScope {
                    if !r["scope"].is_string() || !conf.is_empty() {
                        fail("scope", r);
                    }
                } else if conf != wanted(p).iter().map(|x| x.to_string()).collect::<Vec<_>>() {
                    fail("asks for something else", r);
                }
                if challenge == r["code_challenge"] {
                    fail("code challenge used twice", r);
                }
                challenge = r["code_challenge"].clone();
                code = a["code"].clone();
            }
            "token" => {
                if r["client_id"] != CLIENT {
                    fail("token for another client", r);
                }
                if matches!(p.grant, Pre | PrePin | BothPre) {
                    let pin = if p.grant == PrePin { json!(t.pin) } else { Value::Null };
                    if r["pre-authorized_code"] != t.offer["grants"][PRE]["pre-authorized_code"] || r["tx_code"] != pin {
                        fail("not the offer's code and PIN", r);
                    }
                } else {
                    let v = s(&r["code_verifier"]);
                    let ok = r["code"] == code && r["redirect_uri"] == REDIRECT && json!(B64::encode_string(&Sha256::digest(v.as_bytes()))) == challenge && v.len() >= 43;
                    if !ok {
                        fail("not the authorization's code, redirect and verifier", r);
                    }
                }
                token = a["access_token"].clone();
                nonce = a["c_nonce"].clone();
            }
            "credential" => {
                let jwt = s(&r["proof"]["jwt"]);
                let Some((h, cl)) = open_jwt(&jwt, pk) else {
                    fail("proof not signed by the wallet", r);
                    continue;
                };
                let ok = h["typ"] == "openid4vci-proof+jwt" && h["kid"] == kid && cl["aud"] == ISSUER && cl["iss"] == CLIENT && cl["iat"] == json!(clock::now()) && cl["nonce"] == nonce;
                if !ok {
                    fail("proof", &json!({ "header": h, "claims": cl, "nonce": nonce }));
                }
                nonces.push(nonce.clone());
                if r["access_token"] != token {
                    fail("another access token", r);
                }
                if a["c_nonce"].is_string() {
                    nonce = a["c_nonce"].clone();
                }
            }
            "deferred" => {
                if r["access_token"] != token {
                    fail("another access token", r);
                }
                if a["c_nonce"].is_string() {
                    nonce = a["c_nonce"].clone();
                }
            }
            "notification" => {
                if r["access_token"] != token || r["event"] != "credential_accepted" {
                    fail("notification", r);
                }
            }
            _ => {}
        }
    }
}

fn plans(full: bool) -> Vec<Plan> {
    let mut v = vec![];
    for grant in GRANTS {
        for confs in [vec![EMP], vec![DEV], vec![EMP, DEV], vec![DEV, EMP]] {
            if grant == WalletScope && confs.len() > 1 {
                continue;
            }
            for narrow in 0..NARROW.len() {
                if grant == WalletScope && narrow > 0 {
                    continue;
                }
                for many in [false, true] {
                    // a request by format is for one credential
                    if grant == WalletScope && many {
                        continue;
                    }
                    for pend in gen::words(2, confs.len()) {
                        for key1 in [false, true] {
                            if !full && key1 && (many || confs.len() > 1) {
                                continue;
                            }
                            v.push(Plan { grant, confs: confs.clone(), narrow, many, pending: pend.iter().map(|x| *x == 1).collect(), key1 });
                        }
                    }
                }
            }
        }
    }
    v
}
/// Whether a deferred credential has its nonce renewed before it is collected
/// (a known limitation of the issuer, C25).
fn stale_deferral(p: &Plan) -> bool {
    let all: usize = wanted(p).iter().map(|c| idents(p, c).len()).sum();
    let deferred: usize = wanted(p).iter().map(|c| if p.pending[p.confs.iter().position(|x| x == c).unwrap()] { idents(p, c).len() } else { 0 }).sum();
    deferred > 0 && all > 1
}

pub fn c53() -> ! {
    let mut c = Check::new("C53", "exploration");
    c.rule("every combination of grant, credentials offered, narrowing, identifiers, deferral and wallet key, run to the end between the real wallet and the real issuer; each request taken apart, and what is stored compared with the issuer's data");
    c.assume("signatures are ideal (stubs/vercre-infosec)");
    let ps = plans(c.thorough());
    c.bound("flows", ps.len());
    for p in ps {
        let key = format!("{p:?}");
        if !c.case(&key) {
            continue;
        }
        c.distinct(&key);
        let t = match run(&p, None, None) {
            Err(e) => {
                c.violation(&key, json!({ "panic": e }));
                continue;
            }
            Ok(t) => t,
        };
        if let Some((ep, e)) = &t.error {
            c.outcome(&format!("{ep} failed"));
            let what = if ep == "deferred" && stale_deferral(&p) && e.contains("invalid_proof") {
                "a deferred credential cannot be collected once the nonce of the token was renewed".to_string()
            } else {
                key.clone()
            };
            c.violation(&what, json!({ "step": ep, "error": e, "flow": key }));
            continue;
        }
        c.outcome("stored");
        requests(&mut c, &key, &p, &t);
        // what waited to be saved: the last state before the save
        let before = &t.at[t.at.len() - 2];
        let st = before.store.get(&format!("h:{}", t.id)).map(|x| x.0.clone()).unwrap_or_default();
        let mut have: Vec<(String, Value)> = vec![];
        for e in st["credentials"].as_array().cloned().unwrap_or_default() {
            match contents(&s(&e["issued"]), &p) {
                Some(x) => have.push(x),
                None => c.violation(&key, json!({ "credential not by the issuer or for another holder": e })),
            }
        }
        have.sort_by_key(|x| format!("{x:?}"));
        let want = expected(&p);
        c.expect(have == want, &key, || json!({ "received": have, "expected": want }));
        let now = save();
        c.expect(before.creds.is_empty(), &key, || json!({ "stored before saving": before.creds }));
        c.expect(!now.store.keys().any(|k| k.starts_with("h:")), &key, || json!({ "flow left behind": true }));
        for e in now.creds.values() {
            let x = contents(&s(&e["issued"]), &p);
            c.expect(x.is_some_and(|x| want.contains(&x)), &key, || json!({ "stored": e }));
        }
        let types: std::collections::BTreeSet<&String> = want.iter().map(|x| &x.0).collect();
        c.expect(now.creds.len() == types.len(), &key, || json!({ "stored": now.creds.len(), "kinds": types }));
        c.sample(json!({ "flow": key, "requests": t.sent.iter().map(|x| &x.0).collect::<Vec<_>>() }));
    }
    // requests a wallet may not make
    for (name, b) in [
        ("scope and details", json!({ "initiator": { "Wallet": { "client_id": CLIENT, "issuer": ISSUER, "subject_id": "alice", "scope": "EmployeeIDCredential" } }, "redirect_uri": REDIRECT,
            "authorization_details": [{ "type": "openid_credential", "credential_configuration_id": EMP }] })),
        ("neither scope nor details", json!({ "initiator": { "Wallet": { "client_id": CLIENT, "issuer": ISSUER, "subject_id": "alice" } }, "redirect_uri": REDIRECT })),
        ("unknown issuer", json!({ "initiator": { "Wallet": { "client_id": CLIENT, "issuer": "http://nobody.example", "subject_id": "alice", "scope": "EmployeeIDCredential" } }, "redirect_uri": REDIRECT })),
        ("unknown scope", json!({ "initiator": { "Wallet": { "client_id": CLIENT, "issuer": ISSUER, "subject_id": "alice", "scope": "Nothing" } }, "redirect_uri": REDIRECT })),
        ("unknown flow", json!({ "initiator": { "Issuer": { "issuance_id": "none" } }, "redirect_uri": REDIRECT })),
    ] {
        if !c.case(name) {
            continue;
        }
        load(&fresh());
        match go("w", "authorize", b) {
            Err(p) => c.violation(name, json!({ "panic": p })),
            Ok(o) => {
                c.expect(!o.is_ok(), name, || json!({ "got": o.json() }));
                c.expect(!save().store.keys().any(|k| k.starts_with("h:")), name, || json!({ "refused, but a flow was opened": true }));
                c.expect(sent("token").is_empty(), name, || json!({ "token requested": true }));
            }
        }
    }
    crate::wide::flows(&mut c);
    crate::names::flows(&mut c);
    // what the user's agent asks for is what the issuer is asked for
    for (at, base) in [("scope", "EmployeeIDCredential"), ("scope", "EmployeeIDCredential DeveloperCredential"), ("scope", "a b c"), ("client_id", CLIENT), ("subject_id", "alice"), ("redirect_uri", REDIRECT), ("detail", EMP)] {
        for x in std::iter::once(base.to_string()).chain(mc::gen::near(base)) {
            let name = format!("asked {at} {x:?}");
            if !c.case(&name) {
                continue;
            }
            load(&fresh());
            let get = |k: &str, d: &str| if at == k { x.clone() } else { d.to_string() };
            let mut b = json!({ "initiator": { "Wallet": { "client_id": get("client_id", CLIENT), "issuer": ISSUER, "subject_id": get("subject_id", "alice") } }, "redirect_uri": get("redirect_uri", REDIRECT) });
            if at == "detail" {
                b["authorization_details"] = json!([{ "type": "openid_credential", "credential_configuration_id": x }]);
            } else {
                b["initiator"]["Wallet"]["scope"] = json!(get("scope", "EmployeeIDCredential"));
            }
            match go("w", "authorize", b.clone()) {
                Err(p) => c.violation(&name, json!({ "panic": p })),
                Ok(o) => {
                    let r = sent("authorize");
                    c.expect(!o.is_ok() || r.len() == 1, &name, || json!({ "authorized without asking": r }));
                    for r in &r {
                        let ok = ["client_id", "subject_id"].iter().all(|k| r[*k] == b["initiator"]["Wallet"][*k])
                            && r["redirect_uri"] == b["redirect_uri"]
                            && r["scope"] == b["initiator"]["Wallet"]["scope"]
                            && r["authorization_details"][0]["credential_configuration_id"] == b["authorization_details"][0]["credential_configuration_id"];
                        c.expect(ok, &name, || json!({ "sent": r, "asked": b }));
                    }
                    for r in sent("token") {
                        c.expect(r["client_id"] == b["initiator"]["Wallet"]["client_id"] && r["redirect_uri"] == b["redirect_uri"], &name, || json!({ "sent": r, "asked": b }));
                    }
                    c.outcome(if o.is_ok() { "asked and granted" } else { "asked and refused" });
                }
            }
        }
    }
    // metadata with nothing in its lists
    for list in ["response_types_supported", "code_challenge_methods_supported", "grant_types_supported"] {
        for empty in [true, false] {
            let name = format!("{list} {}", if empty { "empty" } else { "absent" });
            if !c.case(&name) {
                continue;
            }
            let mut sv = world::issuer::server_json();
            if empty {
                sv[list] = json!([]);
            } else if list == "response_types_supported" {
                continue;
            } else {
                sv.as_object_mut().unwrap().remove(list);
            }
            let mut w = fresh();
            w.icfg = world::issuer::cfg(world::issuer::issuer_json(), sv, vec![world::issuer::client_json(CLIENT)]).into();
            load(&w);
            let b = json!({ "initiator": { "Wallet": { "client_id": CLIENT, "issuer": ISSUER, "subject_id": "alice", "scope": "EmployeeIDCredential" } }, "redirect_uri": REDIRECT });
            if let Err(p) = go("w", "authorize", b) {
                c.violation(&name, json!({ "panic": p }));
            }
        }
    }
    c.finish()
}

pub fn c54() -> ! {
    let mut c = Check::new("C54", "fault_injection");
    c.rule("every flow of the set x every provider call of wallet and issuer in it failing once, the interrupted step then repeated; what ends up stored is compared with the issuer's data");
    c.assume("signatures are ideal (stubs/vercre-infosec)");
    let full = c.thorough();
    let ps: Vec<Plan> = plans(false)
        .into_iter()
        .filter(|p| !p.key1 && !stale_deferral(p) && (full || (!p.many && p.confs != [DEV, EMP] && p.confs != [DEV])))
        .collect();
    c.bound("flows", ps.len());
    c.bound("faults per flow", 1);
    for p in ps {
        let base = format!("{p:?}");
        let Ok(t0) = run(&p, None, None) else { continue };
        if t0.error.is_some() {
            continue; // C53
        }
        let calls = with(|w| w.calls);
        let want = expected(&p);
        for k in 0..calls {
            let key = format!("{base} fault {k}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let mut repeated = false;
            let t = match run(&p, Some(k), Some(&mut repeated)) {
                Err(e) => {
                    c.violation(&key, json!({ "panic": e }));
                    continue;
                }
                Ok(t) => t,
            };
            let now = save();
            c.outcome(match (&t.error, repeated) {
                (None, true) => "repeated",
                (None, false) => "unharmed",
                (Some(_), _) => "given up",
            });
            for e in now.creds.values() {
                let x = contents(&s(&e["issued"]), &p);
                c.expect(x.is_some_and(|x| want.contains(&x)), &key, || json!({ "stored": e }));
            }
            let kinds: std::collections::BTreeSet<&String> = want.iter().map(|x| &x.0).collect();
            for (i, w) in t.at.iter().enumerate() {
                c.transition();
                let from = if i == 0 { 0 } else { t.upto[i - 1] };
                let told = t.sent[from..t.upto[i]].iter().any(|(ep, r)| ep == "notification" && r["event"] == "credential_accepted");
                c.expect(!told || w.creds.len() == kinds.len(), &key, || json!({ "acceptance reported, stored": w.creds }));
                let last = i + 2 >= t.at.len() && (t.error.is_none() || t.error.as_ref().is_some_and(|e| e.0 == "save"));
                c.expect(w.creds.is_empty() || last, &key, || json!({ "stored before saving": w.creds }));
            }
            match &t.error {
                None => {
                    let types: std::collections::BTreeSet<&String> = want.iter().map(|x| &x.0).collect();
                    c.expect(now.creds.len() == types.len(), &key, || json!({ "stored": now.creds.len(), "kinds": types }));
                }
                Some((ep, e)) => {
                    // giving up is allowed only where the other side has
                    // already used something up: the flow is over, nothing
                    // was stored
                    let stored_some = !now.creds.is_empty();
                    c.expect(!stored_some || ep == "save", &key, || json!({ "given up at": ep, "error": e, "stored": now.creds }));
                    // a step that talks to nobody can always be repeated
                    c.expect(!matches!(ep.as_str(), "offer" | "accept" | "pin"), &key, || json!({ "cannot be repeated": ep, "error": e }));
                }
            }
        }
    }
    c.finish()
}
