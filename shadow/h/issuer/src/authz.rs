//! C26 offers, C27 authorization requests, C28 pushed authorization requests.
use crate::token::{artefacts, fmt_detail, EMP_T};
use crate::util::*;

fn arr(v: &Value) -> Vec<String> {
    v.as_array().into_iter().flatten().map(s).collect()
}
/// The (configuration, identifiers) pairs a token response grants.
pub fn granted(r: &Value) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = r["authorization_details"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|d| {
            let c = match d["credential_configuration_id"].as_str() {
                Some(c) => c.to_string(),
                None => format!("{:?}", d["credential_definition"]["type"]),
            };
            (c, sorted(arr(&d["credential_identifiers"])))
        })
        .collect();
    v.sort();
    v
}
/// The identifiers a token is good for: found by asking for each.
pub fn usable(tok: &str, nonce: &str) -> Vec<String> {
    let w = save();
    let mut v = vec![];
    for id in ["PHLEmployeeID", "PHLDeveloper", "DriverLicence", "EmpA", "EmpB"] {
        load(&w);
        if matches!(ask("probe", tok, id, "alice", nonce), Ok(o) if o.is_ok()) {
            v.push(id.to_string());
        }
    }
    load(&w);
    sorted(v)
}
fn ids_of(confs: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = confs.iter().filter_map(|c| NAMES.iter().find(|n| n.0 == *c)).map(|n| n.1.to_string()).collect();
    v.sort();
    v.dedup();
    v
}

pub fn c26(c: &mut Check) {
    c.rule("every combination of subject, issuer, list of configurations, grant types, PIN and send type of an offer request, and server metadata; the decision against a reference predicate; every created offer is read back and used; and every text of a good request replaced by each text easily taken for it (near misses), also where the near name is registered too; and a wide world of many configurations, users and artefacts, the decisive one at every place");
    let confs: Vec<Vec<&str>> = vec![vec![EMP], vec![DEV], vec![EMP, DEV], vec![DEV, EMP, MDL], vec![EMP, EMP], vec![], vec!["NoSuch"], vec![EMP, "NoSuch"], vec![""], vec!["PHLEmployeeID"]];
    let grants: Vec<Option<Vec<&str>>> = vec![None, Some(vec![]), Some(vec![PRE]), Some(vec![AUTH]), Some(vec![PRE, AUTH]), Some(vec![AUTH, PRE]), Some(vec![PRE, PRE])];
    let subjects = [Some("alice"), Some("bob"), Some("carol"), Some(""), None];
    let cfgs = ["std", "no-pre", "no-auth", "no-grants", "empty grants", "authorization server", "authorization servers empty"];
    for cf in cfgs {
        let mut w = fresh();
        recfg(&mut w, |k| {
            let sv = k.servers.get_mut(ISSUER).unwrap();
            let is = k.issuers.get_mut(ISSUER).unwrap();
            match cf {
                "no-pre" => sv.oauth.grant_types_supported.as_mut().unwrap().retain(|g| json!(g) == json!(AUTH)),
                "no-auth" => sv.oauth.grant_types_supported.as_mut().unwrap().retain(|g| json!(g) == json!(PRE)),
                "no-grants" => sv.oauth.grant_types_supported = None,
                "empty grants" => sv.oauth.grant_types_supported = Some(vec![]),
                "authorization server" => is.authorization_servers = Some(vec!["http://as.example".into(), "http://as2.example".into()]),
                "authorization servers empty" => is.authorization_servers = Some(vec![]),
                _ => {}
            }
        });
        for v in gen::product(&[confs.len(), grants.len(), subjects.len(), 2, 3, 3]) {
            let (cs, gs, who, pin) = (&confs[v[0]], &grants[v[1]], subjects[v[2]], v[3] == 1);
            let send = ["ByVal", "ByRef", ""][v[4]];
            let issuer = [ISSUER, "http://other.example", ""][v[5]];
            let key = format!("{cf}/{cs:?}/{gs:?}/{who:?}/{pin}/{send}/{issuer}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            let mut b = trim(json!({ "credential_issuer": issuer, "subject_id": who, "credential_configuration_ids": cs, "grant_types": gs, "tx_code_required": pin, "send_type": send }));
            if send.is_empty() {
                b.as_object_mut().unwrap().remove("send_type");
            }
            let g = gs.clone().unwrap_or_default();
            let (pre, auth) = (g.contains(&PRE), g.contains(&AUTH));
            let known = |c: &&str| NAMES.iter().any(|n| n.0 == *c);
            let may = |c: &&str| w.icfg.authz.contains_key(&(who.unwrap_or_default().to_string(), (*c).to_string()));
            let want = issuer == ISSUER
                && !cs.is_empty()
                && cs.iter().all(|c| known(c))
                && !(cf == "empty grants" && (pre || auth))
                && !(cf == "no-pre" && pre)
                && !(cf == "no-auth" && auth)
                && (!pre || who.is_some() && cs.iter().all(may));
            load(&w);
            let ctx = json!({ "metadata": cf, "request": b });
            let out = go("offer", "create_offer", b);
            if matches!(&out, Ok(Out::Bad(_))) && send.is_empty() {
                // send_type may or may not have a default
                continue;
            }
            let Some(r) = judge(c, &key, out, want, &ctx) else { continue };
            // read it back
            let byval = send == "ByVal" || r.get("credential_offer").is_some();
            c.expect(send.is_empty() || byval == (send == "ByVal"), &key, || json!({ "sent by": r, "ctx": ctx }));
            c.expect(r.get("tx_code").map_or(true, Value::is_null) != (pin && pre), &key, || json!({ "transaction code": r, "ctx": ctx }));
            let offer = if byval {
                r["credential_offer"].clone()
            } else {
                let uri = s(&r["credential_offer_uri"]);
                let prefix = format!("{ISSUER}/credential_offer/");
                let Some(id) = uri.strip_prefix(&prefix) else {
                    c.violation(&key, json!({ "offer URI": uri, "ctx": ctx }));
                    continue;
                };
                let w1 = save();
                let wrong = go("fetch", "credential_offer", json!({ "credential_issuer": "http://other.example", "id": id }));
                c.expect(matches!(&wrong, Ok(o) if !o.is_ok()), &key, || json!({ "offer handed out by another issuer": format!("{wrong:?}"), "ctx": ctx }));
                load(&w1);
                let out = go("fetch", "credential_offer", json!({ "credential_issuer": ISSUER, "id": id }));
                match judge(c, &key, out, true, &ctx) {
                    Some(o) => o["credential_offer"].as_object().map_or(o.clone(), |x| Value::Object(x.clone())),
                    None => continue,
                }
            };
            let gr = &offer["grants"];
            let server = if cf == "authorization server" { json!("http://as.example") } else { Value::Null };
            let (pg, ag) = (&gr[PRE], &gr[AUTH]);
            let ok = offer["credential_issuer"] == json!(ISSUER)
                && arr(&offer["credential_configuration_ids"]) == cs.iter().map(|x| (*x).to_string()).collect::<Vec<_>>()
                && pg.is_object() == pre
                && ag.is_object() == auth
                && (!pre || s(&pg["pre-authorized_code"]).len() >= 32 && pg["authorization_server"] == server)
                && (!auth || s(&ag["issuer_state"]).len() >= 32 && ag["authorization_server"] == server)
                && (!pre || pg["tx_code"].is_object() == pin && (!pin || pg["tx_code"]["length"] == 6 && pg["tx_code"]["input_mode"] == "numeric"))
                && (pre || auth || gr.is_null());
            c.expect(ok, &key, || json!({ "offer": offer, "ctx": ctx }));
            // the PIN goes to the holder by another way
            let code = s(&r["tx_code"]);
            c.expect(code.is_empty() || code.len() == 6 && code.bytes().all(|b| b.is_ascii_digit()) && !offer["grants"][PRE]["tx_code"].to_string().contains(&code), &key, || json!({ "PIN": code, "offer": offer }));
            if byval {
                c.expect(!r["credential_offer"].to_string().contains(&format!("\"{code}\"")) || code.is_empty(), &key, || json!({ "PIN in offer": r }));
            }
            // use it
            let w1 = save();
            if pre && cf != "no-grants" {
                let out = go("tok", "token", token_pre(&s(&pg["pre-authorized_code"]), r["tx_code"].as_str(), None));
                if let Some(t) = judge(c, &key, out, true, &ctx) {
                    let u = usable(&s(&t["access_token"]), &s(&t["c_nonce"]));
                    c.expect(u == ids_of(cs), &key, || json!({ "token good for": u, "offered": cs, "ctx": ctx }));
                }
                if pin {
                    load(&w1);
                    let out = go("tok", "token", token_pre(&s(&pg["pre-authorized_code"]), None, None));
                    judge(c, &key, out, false, &ctx);
                }
            }
            if auth && !matches!(cf, "no-grants") {
                for sub in ["alice", "bob"] {
                    if who.is_none() {
                        continue;
                    }
                    load(&w1);
                    let mut b = auth_body(sub, &[EMP]);
                    b["issuer_state"] = ag["issuer_state"].clone();
                    let out = go("auth", "authorize", b);
                    judge(c, &key, out, who == Some(sub), &ctx);
                }
            }
            c.sample(json!({ "case": key, "offer": offer }));
        }
    }
    crate::near::offer(c);
    crate::wide::offer(c);
    crate::names::flows(c, "pre");
}

/// The menus of an authorization request.
pub struct Menu {
    pub base: World,
    issuer_states: Vec<(&'static str, Option<String>, Option<bool>)>,
    details: Vec<(&'static str, Option<Value>, Option<Vec<&'static str>>)>,
    scopes: Vec<(&'static str, Option<&'static str>, Option<Vec<&'static str>>)>,
    challenges: Vec<(String, bool)>,
    pub cfgs: Vec<(&'static str, World)>,
}
const CLIENTS: [(&str, bool); 4] = [(CLIENT, true), (CLIENT2, true), ("nobody", false), ("", false)];
const REDIRECTS: [(Option<&str>, bool); 7] = [
    (Some(REDIRECT), true),
    (Some(REDIRECT2), true),
    (Some("http://localhost:3000/callback/"), false),
    (Some("http://localhost:3000"), false),
    (Some("http://evil.example/callback"), false),
    (Some(""), false),
    (None, false),
];
const SUBJECTS: [&str; 4] = ["alice", "bob", "carol", ""];
const RESPONSES: [(&str, bool); 4] = [("code", true), ("vp_token", false), ("id_token vp_token", false), ("token", false)];
const METHODS: [(Option<&str>, bool); 2] = [(Some("S256"), true), (Some("plain"), false)];

pub fn menu() -> Menu {
    load(&fresh());
    let arts = artefacts();
    let r = must("bob-state", "create_offer", offer_body("bob", &[EMP], &[AUTH], false, false));
    let bobs = s(&r["credential_offer"]["grants"][AUTH]["issuer_state"]);
    let base = save();
    let mut issuer_states = vec![("none", None, Some(true))];
    for a in &arts {
        // artefacts() belong to alice
        let ok = matches!(a.name, "issuer_state" | "pre-authorized code" | "pre-authorized code with PIN" | "code of an offer with both grants");
        // a pre-authorized code is the state of an offer as well: left open
        let open = matches!(a.name, "pre-authorized code" | "pre-authorized code with PIN");
        issuer_states.push((a.name, Some(a.key.clone()), if open { None } else { Some(ok) }));
    }
    issuer_states.push(("bob's issuer_state", Some(bobs), Some(true)));
    let cl = |v: Value| json!({ "type": "openid_credential", "credential_configuration_id": EMP, "credential_definition": { "credentialSubject": v } });
    let fcl = |v: Value| json!({ "type": "openid_credential", "format": "jwt_vc_json", "credential_definition": { "type": EMP_T, "credentialSubject": v } });
    let details = vec![
        ("emp", Some(json!([detail(EMP)])), Some(vec![EMP])),
        ("dev", Some(json!([detail(DEV)])), Some(vec![DEV])),
        ("emp+dev", Some(json!([detail(EMP), detail(DEV)])), Some(vec![EMP, DEV])),
        ("all", Some(json!([detail(MDL), detail(EMP), detail(DEV)])), Some(vec![EMP, DEV, MDL])),
        ("emp twice", Some(json!([detail(EMP), detail(EMP)])), Some(vec![EMP])),
        ("none", None, Some(vec![])),
        ("empty", Some(json!([])), Some(vec![])),
        ("unknown", Some(json!([detail("NoSuch")])), None),
        ("emp+unknown", Some(json!([detail(EMP), detail("NoSuch")])), None),
        ("format", Some(json!([fmt_detail(&EMP_T)])), Some(vec![EMP])),
        ("format, other order", Some(json!([fmt_detail(&["EmployeeIDCredential", "VerifiableCredential"])])), None),
        ("format, unknown type", Some(json!([fmt_detail(&["VerifiableCredential", "Other"])])), None),
        ("format, dev", Some(json!([fmt_detail(&["VerifiableCredential", "DeveloperCredential"])])), Some(vec![DEV])),
        ("mandatory claims", Some(json!([cl(json!({ "email": {}, "family_name": {}, "given_name": {} }))])), Some(vec![EMP])),
        ("all claims", Some(json!([cl(json!({ "email": {}, "family_name": {}, "given_name": {}, "address": { "locality": {}, "street_address": {} } }))])), Some(vec![EMP])),
        ("a mandatory claim missing", Some(json!([cl(json!({ "email": {}, "family_name": {} }))])), None),
        ("unsupported claim", Some(json!([cl(json!({ "email": {}, "family_name": {}, "given_name": {}, "shoe_size": {} }))])), None),
        ("unsupported nested claim", Some(json!([cl(json!({ "email": {}, "family_name": {}, "given_name": {}, "address": { "planet": {} } }))])), None),
        ("format, a mandatory claim missing", Some(json!([fcl(json!({ "email": {} }))])), None),
        ("format, mandatory claims", Some(json!([fcl(json!({ "email": {}, "family_name": {}, "given_name": {} }))])), Some(vec![EMP])),
    ];
    let scopes = vec![
        ("none", None, Some(vec![])),
        ("employee", Some("EmployeeIDCredential"), Some(vec![EMP])),
        ("developer", Some("DeveloperCredential"), Some(vec![DEV])),
        ("employee developer", Some("EmployeeIDCredential DeveloperCredential"), Some(vec![EMP, DEV])),
        ("unknown", Some("NoSuch"), None),
        ("employee unknown", Some("EmployeeIDCredential NoSuch"), None),
        ("unknown employee", Some("NoSuch EmployeeIDCredential"), None),
        ("empty", Some(""), Some(vec![])),
        ("prefix", Some("EmployeeID"), None),
    ];
    let good = challenge(VERIFIER);
    let mut challenges = vec![(good.clone(), true)];
    for n in [0, 42, 43, 128, 129] {
        challenges.push(("a".repeat(n), (43..=128).contains(&n)));
    }
    let cfgs = ["std", "par required", "no response type", "client without code", "server without scopes", "client without scope", "client scope unsupported", "client grant", "client no grants", "server grant", "server no grants", "server empty grants", "client empty grants", "client no redirects", "no challenge method"]
        .into_iter()
        .map(|n| {
            let mut w = base.clone();
            recfg(&mut w, |k| {
                let sv = k.servers.get_mut(ISSUER).unwrap();
                let cls = k.clients.values_mut();
                match n {
                    "par required" => sv.oauth.require_pushed_authorization_requests = Some(true),
                    "no response type" => sv.oauth.response_types_supported = vec![],
                    "client without code" => cls.for_each(|c| c.oauth.response_types = None),
                    "server without scopes" => sv.oauth.scopes_supported = None,
                    "client without scope" => cls.for_each(|c| c.oauth.scope = None),
                    "client scope unsupported" => cls.for_each(|c| c.oauth.scope = Some("openid other".into())),
                    "client grant" => cls.for_each(|c| c.oauth.grant_types.as_mut().unwrap().retain(|g| json!(g) == json!(PRE))),
                    "client no grants" => cls.for_each(|c| c.oauth.grant_types = None),
                    "server grant" => sv.oauth.grant_types_supported.as_mut().unwrap().retain(|g| json!(g) == json!(PRE)),
                    "server no grants" => sv.oauth.grant_types_supported = None,
                    "server empty grants" => sv.oauth.grant_types_supported = Some(vec![]),
                    "client empty grants" => cls.for_each(|c| c.oauth.grant_types = Some(vec![])),
                    "client no redirects" => cls.for_each(|c| c.oauth.redirect_uris = None),
                    "no challenge method" => sv.oauth.code_challenge_methods_supported = None,
                    _ => {}
                }
            });
            (n, w)
        })
        .collect();
    Menu { base, issuer_states, details, scopes, challenges, cfgs }
}
impl Menu {
    pub fn dims(&self) -> Vec<usize> {
        vec![CLIENTS.len(), 2, RESPONSES.len(), REDIRECTS.len(), SUBJECTS.len(), self.issuer_states.len(), self.details.len(), self.scopes.len(), self.challenges.len(), METHODS.len(), self.cfgs.len()]
    }
    /// (name, request body, decision: None open, Some(None) refuse, Some(Some(configurations)) grant)
    #[allow(clippy::type_complexity)]
    pub fn request(&self, v: &[usize]) -> (String, Value, Option<Option<Vec<&'static str>>>) {
        let (cl, re, rd, who) = (CLIENTS[v[0]], RESPONSES[v[2]], REDIRECTS[v[3]], SUBJECTS[v[4]]);
        let issuer = [ISSUER, "http://other.example"][v[1]];
        let (ist, det, sc, ch, me, cf) = (&self.issuer_states[v[5]], &self.details[v[6]], &self.scopes[v[7]], &self.challenges[v[8]], METHODS[v[9]], &self.cfgs[v[10]]);
        let body = trim(json!({ "credential_issuer": issuer, "response_type": re.0, "client_id": cl.0, "redirect_uri": rd.0, "state": "st-1", "code_challenge": ch.0,
            "code_challenge_method": me.0, "subject_id": who, "authorization_details": det.1, "scope": sc.1, "issuer_state": ist.1 }));
        let name = format!("{}/{issuer}/{}/{:?}/{who}/{}/{}/{}/{}/{:?}/{}", cl.0, re.0, rd.0, ist.0, det.0, sc.0, ch.0.len(), me.0, cf.0);
        let plain = cl.1 && issuer == ISSUER && re.1 && rd.1 && !who.is_empty() && ch.1 && me.1 && (cf.0 == "std" || cf.0 == "par required");
        let refuse = (name.clone(), body.clone(), Some(None));
        if !plain {
            return refuse;
        }
        let (Some(d), Some(s2)) = (&det.2, &sc.2) else { return refuse };
        match ist.2 {
            Some(false) => return refuse,
            None => return (name, body, None),
            _ => {}
        }
        if ist.0 == "bob's issuer_state" && who != "bob" || ist.0 != "none" && ist.0 != "bob's issuer_state" && who != "alice" {
            return refuse;
        }
        // a scope for what the details already ask for: left open
        if s2.iter().any(|x| d.contains(x)) {
            return (name, body, None);
        }
        let mut confs: Vec<&str> = d.iter().chain(s2).copied().collect();
        confs.sort_unstable();
        if confs.is_empty() || !confs.iter().all(|x| self.base.icfg.authz.contains_key(&(who.to_string(), (*x).to_string()))) {
            return refuse;
        }
        (name, body, Some(Some(confs)))
    }
    /// Redeem a code of this request.
    fn redeem(&self, v: &[usize], body: &Value, code: &str) -> Value {
        let mut b = token_auth(code);
        b["client_id"] = json!(CLIENTS[v[0]].0);
        b["redirect_uri"] = body["redirect_uri"].clone();
        b
    }
}

pub fn c27(c: &mut Check) {
    c.rule("authorization requests with every combination of up to the stated number of deviations from a valid one, over client, issuer, response type, redirect URI, subject, issuer_state (artefacts of every kind), authorization details, scope, code challenge and metadata; the decision and what the resulting code is good for against a reference predicate; and every text of a good request replaced by each text easily taken for it (near misses), also where the near name is registered too; and a wide world of many configurations, users and artefacts, the decisive one at every place");
    let m = menu();
    let dev = c.pick(3, 4);
    c.bound("simultaneous deviations from a valid request", dev);
    for v in gen::deviations(&m.dims(), dev) {
        let (key, body, want) = m.request(&v);
        if !c.case(&key) {
            continue;
        }
        c.distinct(&key);
        load(&m.cfgs[v[10]].1);
        let par = m.cfgs[v[10]].0 == "par required";
        let out = go("auth", "authorize", body.clone());
        let ctx = json!({ "request": body, "metadata": m.cfgs[v[10]].0 });
        let Some(want) = want else {
            c.expect(out.is_ok(), &key, || json!({ "panic": format!("{out:?}"), "ctx": ctx }));
            continue;
        };
        let want = if par { None } else { want };
        let Some(r) = judge(c, &key, out, want.is_some(), &ctx) else { continue };
        let confs = want.unwrap();
        c.expect(r["state"] == "st-1" && r["redirect_uri"] == body["redirect_uri"] && s(&r["code"]).len() >= 32, &key, || json!({ "response": r, "ctx": ctx }));
        if v[8] == 0 {
            let out = go("redeem", "token", m.redeem(&v, &body, &s(&r["code"])));
            if let Some(t) = judge(c, &key, out, true, &ctx) {
                let u = usable(&s(&t["access_token"]), &s(&t["c_nonce"]));
                let want = ids_of(&confs);
                c.expect(u == want, &key, || json!({ "token good for": u, "authorised": want, "ctx": ctx }));
            }
        }
        c.sample(json!({ "case": key, "granted": confs }));
    }
    crate::near::authorize(c, "authorize");
    crate::wide::authorize(c, "authorize");
    crate::near::challenges(c, "authorize");
    crate::names::flows(c, "authorize");
}

pub fn c28(c: &mut Check) {
    c.rule("the same requests as for direct authorization, pushed first: pushing and then authorizing by request_uri must end like the direct request (run on a server that does not require pushing), and the code must be good for the same; every change of the world between pushing and using (metadata, client, authorisations, issuer_state, time), compared with a direct request in the changed world; and every text of a good request replaced by each text easily taken for it (near misses), also where the near name is registered too; and a wide world of many configurations, users and artefacts, the decisive one at every place");
    let m = menu();
    let dev = c.pick(3, 4);
    c.bound("simultaneous deviations from a valid request", dev);
    for v in gen::deviations(&m.dims(), dev) {
        let (key, body, _) = m.request(&v);
        if !c.case(&key) {
            continue;
        }
        c.distinct(&key);
        // direct
        let mut w = m.cfgs[v[10]].1.clone();
        let ctx = json!({ "request": body, "metadata": m.cfgs[v[10]].0 });
        let required = m.cfgs[v[10]].0 == "par required";
        if required {
            recfg(&mut w, |k| k.servers.get_mut(ISSUER).unwrap().oauth.require_pushed_authorization_requests = None);
        }
        load(&w);
        let direct = go("auth", "authorize", body.clone());
        let Ok(direct) = direct else {
            c.violation(&key, json!({ "panic": format!("{direct:?}"), "ctx": ctx }));
            continue;
        };
        let direct_left = left(&w);
        let direct_set = direct.ok().map(|r| redeemed(&m, &v, &body, r));
        // pushed
        load(&m.cfgs[v[10]].1);
        let pushed = go("par", "par", body.clone());
        let Ok(pushed) = pushed else {
            c.violation(&key, json!({ "panic": format!("{pushed:?}"), "ctx": ctx }));
            continue;
        };
        let second = match &pushed {
            Out::Ok(r) => {
                let uri = s(&r["request_uri"]);
                c.expect(uri.starts_with("urn:ietf:params:oauth:request_uri:") && uri.len() > 60 && r["expires_in"].as_i64().is_some_and(|e| (5..=600).contains(&e)), &key, || json!({ "response": r, "ctx": ctx }));
                go("auth", "authorize", json!({ "client_id": body["client_id"], "request_uri": uri }))
            }
            o => Ok(o.clone()),
        };
        let Ok(second) = second else {
            c.violation(&key, json!({ "panic": format!("{second:?}"), "ctx": ctx }));
            continue;
        };
        c.outcome(&second.code());
        c.expect(second.is_ok() == direct.is_ok(), &key, || json!({ "pushed": second.json(), "direct": direct.json(), "ctx": ctx }));
        if let (Out::Ok(a), Out::Ok(b)) = (&second, &direct) {
            c.expect(a["state"] == b["state"] && a["redirect_uri"] == b["redirect_uri"], &key, || json!({ "pushed": a, "direct": b, "ctx": ctx }));
            let kept = left(&w);
            c.expect(kept == direct_left, &key, || json!({ "left in the store after the pushed request": kept, "direct": direct_left, "ctx": ctx }));
            let set = redeemed(&m, &v, &body, a);
            c.expect(Some(&set) == direct_set.as_ref(), &key, || json!({ "pushed good for": set, "direct": direct_set, "ctx": ctx }));
        }
        if required {
            load(&m.cfgs[v[10]].1);
            let out = go("auth", "authorize", body.clone());
            judge(c, &key, out, false, &ctx);
        }
        c.sample(json!({ "case": key, "granted": direct.is_ok() }));
    }
    crate::near::authorize(c, "par");
    crate::wide::authorize(c, "par");
    crate::near::challenges(c, "par");
    crate::names::flows(c, "par");
    changes(c, &m);
}
/// What of a world's store is still there.
fn left(w: &World) -> Vec<String> {
    with(|n| n.store.keys().filter(|k| w.store.contains_key(*k)).cloned().collect())
}
/// The world changes between the pushing and the using: the request is as
/// good as a direct one made at that time.
fn changes(c: &mut Check, m: &Menu) {
    load(&m.base);
    let r = must("own", "create_offer", offer_body("alice", &[EMP, DEV], &[AUTH], false, false));
    let own = s(&r["credential_offer"]["grants"][AUTH]["issuer_state"]);
    let base = save();
    let mut reqs: Vec<(&str, Value)> = vec![];
    for ist in [false, true] {
        let with_state = |mut b: Value| {
            if ist {
                b["issuer_state"] = json!(own);
            }
            b
        };
        reqs.push(("details", with_state(auth_body("alice", &[EMP, DEV]))));
        let mut b = auth_body("alice", &[]);
        b.as_object_mut().unwrap().remove("authorization_details");
        b["scope"] = json!("EmployeeIDCredential");
        reqs.push(("scope", with_state(b)));
        let mut b = auth_body("alice", &[]);
        b["authorization_details"] = json!([fmt_detail(&EMP_T)]);
        reqs.push(("format", with_state(b)));
    }
    let mut what: Vec<(String, Box<dyn Fn(&mut World)>)> = vec![("nothing".into(), Box::new(|_| {}))];
    for (n, cf) in &m.cfgs {
        let cfg = cf.icfg.clone();
        if *n != "par required" {
            what.push((format!("metadata: {n}"), Box::new(move |w| w.icfg = cfg.clone())));
        }
    }
    for conf in [EMP, DEV] {
        what.push((format!("{conf} no longer supported"), Box::new(move |w| recfg(w, |k| drop(k.issuers.get_mut(ISSUER).unwrap().credential_configurations_supported.remove(conf))))));
        what.push((format!("alice no longer authorised for {conf}"), Box::new(move |w| recfg(w, |k| k.authz.retain(|x, _| x.0 != "alice" || x.1 != conf)))));
    }
    what.push(("client gone".into(), Box::new(|w| recfg(w, |k| drop(k.clients.remove(CLIENT))))));
    what.push(("issuer gone".into(), Box::new(|w| recfg(w, |k| k.issuers.clear()))));
    what.push(("server gone".into(), Box::new(|w| recfg(w, |k| k.servers.clear()))));
    what.push(("redirect URI gone".into(), Box::new(|w| recfg(w, |k| k.clients.get_mut(CLIENT).unwrap().oauth.redirect_uris = Some(vec![REDIRECT2.into()])))));
    let o = own.clone();
    what.push(("issuer_state used".into(), Box::new(move |w| drop(w.store.remove(&o)))));
    for age in [1, 299, 301, 599] {
        what.push((format!("{age} s later"), Box::new(move |w| w.now += age)));
    }
    c.bound("changes of the world between pushing and using", what.len());
    for (i, (rn, body)) in reqs.iter().enumerate() {
        for (n, f) in &what {
            let key = format!("changed/{rn} {i}/{n}");
            if !c.case(&key) {
                continue;
            }
            c.distinct(&key);
            load(&base);
            let Ok(Out::Ok(r)) = go("push", "par", body.clone()) else {
                c.violation(&key, json!({ "a good request cannot be pushed": body }));
                continue;
            };
            let mut w = save();
            f(&mut w);
            let end = |b: Value| {
                load(&w);
                let out = go("use", "authorize", b);
                let kept = left(&base);
                match out {
                    Err(p) => json!({ "panic": p }),
                    Ok(Out::Ok(r)) => {
                        let w1 = save();
                        // what the code is bound to, and what it is good for
                        let mut bound = vec![];
                        for (k, x) in [("client_id", CLIENT2), ("redirect_uri", REDIRECT2), ("code_verifier", "another verifier, which is long enough to be one"), ("", "")] {
                            load(&w1);
                            let mut t = token_auth(&s(&r["code"]));
                            if !k.is_empty() {
                                t[k] = json!(x);
                            }
                            bound.push(match go("redeem", "token", t) {
                                Ok(Out::Ok(t)) => json!([granted(&t), usable(&s(&t["access_token"]), &s(&t["c_nonce"]))]),
                                o => json!(o.map(|o| o.code()).unwrap_or_else(|p| p)),
                            });
                        }
                        json!({ "state": r["state"], "redirect_uri": r["redirect_uri"], "bound": bound, "kept": kept })
                    }
                    Ok(_) => json!("refused"),
                }
            };
            let direct = end(body.clone());
            let pushed = end(json!({ "client_id": CLIENT, "request_uri": r["request_uri"] }));
            c.outcome(if pushed == "refused" { "refused" } else { "granted" });
            c.expect(pushed == direct, &key, || json!({ "pushed": pushed, "direct": direct, "request": body, "changed": n }));
            if n == "nothing" {
                let b = &direct["bound"];
                c.expect(b[0].is_string() && b[1].is_string() && b[2].is_string() && b[3].is_array(), &key, || json!({ "direct": direct }));
            }
        }
    }
}
fn redeemed(m: &Menu, v: &[usize], body: &Value, r: &Value) -> Value {
    if v[8] != 0 {
        return Value::Null;
    }
    match go("redeem", "token", m.redeem(v, body, &s(&r["code"]))) {
        Ok(Out::Ok(t)) => json!([granted(&t), usable(&s(&t["access_token"]), &s(&t["c_nonce"]))]),
        o => json!(format!("{:?}", o.map(|o| o.code()))),
    }
}
