use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

static BEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<(String, String)>> = Mutex::new(None);
static FOUND: Mutex<Vec<(String, Value)>> = Mutex::new(Vec::new());
static HANG_S: AtomicU64 = AtomicU64::new(240);
/// For calls that take long on their own: how long before one counts as hanging.
pub fn patience(s: u64) {
    HANG_S.store(s, Ordering::Relaxed);
}
/// A quick run that has found violations reports them by now, ended or not.
const QUICK_S: u64 = 700;

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// Run `f`, turning a panic of the code under test into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    BEAT.fetch_add(1, Ordering::Relaxed);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub struct Check {
    pub id: String,
    pub tier: Tier,
    level: &'static str,
    seed: i64,
    start: Instant,
    states: HashSet<u64>,
    transitions: u64,
    evaluations: u64,
    validated: u64,
    distinct: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    rule: String,
    bounds: BTreeMap<String, Value>,
    assumptions: Vec<String>,
    exhaustive: bool,
    violations: Vec<(String, Value)>,
    seen_keys: BTreeSet<String>,
    known: BTreeMap<String, String>,
    known_hit: BTreeMap<String, u64>,
    only: Option<String>,
    /// prefix of the keys of the current pass
    scope: String,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Check {
    /// `level`: `exploration`, `model_checking` or `fault_enumeration`.
    pub fn new(id: &str, level: &'static str) -> Self {
        let args: Vec<String> = std::env::args().collect();
        let tier = if args.iter().any(|a| a == "thorough") { Tier::Thorough } else { Tier::Quick };
        let only = args.iter().position(|a| a == "--only").and_then(|i| args.get(i + 1).cloned());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);

        let mut known = BTreeMap::new();
        // lines `known:<TAB>property=<id><TAB>match=<key><TAB><what fails>`;
        // everything else (comments, `fixed:` entries) suppresses nothing
        if let Ok(text) = std::fs::read_to_string(root().join("known_findings.txt")) {
            for line in text.lines() {
                let f: Vec<&str> = line.split('\t').collect();
                if f.len() == 4 && f[0] == "known:" && f[1] == format!("property={id}") {
                    if let Some(k) = f[2].strip_prefix("match=") {
                        known.insert(k.to_string(), f[3].to_string());
                    }
                }
            }
        }
        std::panic::set_hook(Box::new(|info| {
            let msg = info.to_string().replace('\n', " ");
            if std::env::var("VERIF_TRACE").is_ok() {
                eprintln!("panic: {msg}");
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = msg);
        }));
        if only.is_none() {
            // replays of earlier runs
            if let Ok(d) = std::fs::read_dir(root().join("evidence").join("replay")) {
                for f in d.flatten() {
                    if f.file_name().to_string_lossy().starts_with(&format!("{id}-")) {
                        let _ = std::fs::remove_file(f.path());
                    }
                }
            }
        }
        let start = Instant::now();
        let wid = id.to_string();
        // one guarded call that does not return for HANG_S seconds is
        // non-termination of the code under test
        std::thread::spawn(move || {
            let mut last = (BEAT.load(Ordering::Relaxed), Instant::now());
            loop {
                std::thread::sleep(Duration::from_secs(2));
                let now = BEAT.load(Ordering::Relaxed);
                if tier == Tier::Quick && start.elapsed().as_secs() > QUICK_S {
                    let found = FOUND.lock().unwrap().clone();
                    for (i, (k, d)) in found.iter().enumerate() {
                        let path = write_replay(&wid, i, k, d);
                        println!("VIOLATION property={wid} replay={}", path.display());
                    }
                    if !found.is_empty() {
                        std::process::exit(1);
                    }
                }
                if now != last.0 {
                    last = (now, Instant::now());
                } else if last.1.elapsed().as_secs() > HANG_S.load(Ordering::Relaxed) {
                    let cur = CURRENT.lock().unwrap().clone();
                    if let Some((key, detail)) = cur {
                        let path = write_replay(&wid, 0, &key, &json!({ "hang": detail }));
                        println!("VIOLATION property={wid} replay={}", path.display());
                        std::process::exit(1);
                    }
                }
            }
        });
        Self {
            id: id.into(),
            tier,
            level,
            seed,
            start,
            states: HashSet::new(),
            transitions: 0,
            evaluations: 0,
            validated: 0,
            distinct: HashSet::new(),
            outcomes: BTreeMap::new(),
            samples: vec![],
            rule: String::new(),
            bounds: BTreeMap::new(),
            assumptions: vec![],
            exhaustive: true,
            violations: vec![],
            seen_keys: BTreeSet::new(),
            known,
            known_hit: BTreeMap::new(),
            only,
            scope: String::new(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `a` in the quick tier, `b` in the thorough one.
    pub fn pick<T>(&self, a: T, b: T) -> T {
        if self.thorough() { b } else { a }
    }
    pub fn rule(&mut self, s: &str) {
        self.rule = s.into();
    }
    /// From here on, cases belong to a further pass of the exploration.
    pub fn scope(&mut self, name: &str) {
        self.scope = format!("{name}: ");
    }
    pub fn rule_too(&mut self, s: &str) {
        self.rule.push_str(s);
    }
    pub fn bound(&mut self, k: &str, v: impl Into<Value>) {
        self.bounds.insert(k.into(), v.into());
    }
    pub fn assume(&mut self, s: &str) {
        if !self.assumptions.iter().any(|a| a == s) {
            self.assumptions.push(s.into());
        }
    }
    pub fn not_exhaustive(&mut self) {
        self.exhaustive = false;
    }
    /// One execution of the real code on `key`; returns false when a replay
    /// (`--only`) asks for another case.
    pub fn case(&mut self, key: &str) -> bool {
        if let Some(o) = &self.only {
            if o.strip_prefix(self.scope.as_str()) != Some(key) {
                return false;
            }
        }
        self.evaluations += 1;
        *CURRENT.lock().unwrap() = Some((format!("{}{key}", self.scope), key.to_string()));
        true
    }
    /// Count a distinct, non-trivial case.
    pub fn distinct<T: Hash + ?Sized>(&mut self, t: &T) {
        self.distinct.insert(h64(&(h64(t), &self.scope)));
    }
    /// Count a state of the search; true when new.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) -> bool {
        self.states.insert(h64(&(h64(t), &self.scope)))
    }
    pub fn transition(&mut self) {
        self.transitions += 1;
    }
    pub fn validated(&mut self) {
        self.validated += 1;
    }
    pub fn outcome(&mut self, o: &str) {
        *self.outcomes.entry(o.to_string()).or_default() += 1;
    }
    pub fn sample(&mut self, v: Value) {
        // a spread of samples: the first few and then sparser ones
        let n = self.evaluations + self.transitions;
        if self.samples.len() < 4 || (self.samples.len() < 12 && n.is_power_of_two()) {
            self.samples.push(v);
        }
    }
    /// A violation; `key` names the specific input or history that fails.
    pub fn violation(&mut self, key: &str, detail: Value) {
        if self.known.contains_key(key) {
            *self.known_hit.entry(key.to_string()).or_default() += 1;
            return;
        }
        let key = format!("{}{key}", self.scope);
        if self.seen_keys.insert(key.clone()) && self.violations.len() < 50 {
            if std::env::var("VERIF_TRACE").is_ok() {
                eprintln!("violation {key}: {detail}");
            }
            FOUND.lock().unwrap().push((key.clone(), detail.clone()));
            self.violations.push((key, detail));
        }
    }
    pub fn expect(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> Value) {
        if !ok {
            let d = detail();
            self.violation(key, d);
        }
    }
    pub fn has_violations(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn finish(self) -> ! {
        let wall = self.start.elapsed().as_secs_f64();
        let mut cov = serde_json::Map::new();
        if self.level == "model_checking" {
            cov.insert("states".into(), json!(self.states.len()));
            cov.insert("transitions".into(), json!(self.transitions));
            cov.insert("traces_validated_against_impl".into(), json!(self.validated));
        } else {
            cov.insert("evaluations".into(), json!(self.evaluations));
            cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        }
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(self.samples));
        cov.insert("exhaustive".into(), json!(self.exhaustive && self.only.is_none()));
        cov.insert("bounds".into(), json!(self.bounds));
        cov.insert("outcomes".into(), json!(self.outcomes));
        let known_hit: Vec<Value> = self
            .known
            .iter()
            .map(|(k, w)| json!({"match": k, "what": w, "hits": self.known_hit.get(k).copied().unwrap_or(0)}))
            .collect();
        cov.insert("known_findings".into(), json!(known_hit));
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough() { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": self.violations.len(),
        });
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if self.only.is_none() {
            std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap())
                .expect("write evidence");
        }
        println!(
            "{} {:?}: evaluations={} distinct={} states={} transitions={} validated={} outcomes={} wall={wall:.1}s",
            self.id, self.tier, self.evaluations, self.distinct.len(), self.states.len(), self.transitions,
            self.validated, self.outcomes.len()
        );
        for (k, w) in &self.known {
            if self.known_hit.contains_key(k) {
                println!("KNOWN-FINDING: property={} {w}", self.id);
            }
        }
        // vacuity guard: a run that explored nothing proves nothing
        if self.only.is_none() && self.violations.is_empty() && self.evaluations + self.transitions == 0 {
            eprintln!("{}: nothing explored", self.id);
            std::process::exit(3);
        }
        for (i, (k, d)) in self.violations.iter().enumerate() {
            let path = write_replay(&self.id, i, k, d);
            println!("VIOLATION property={} replay={}", self.id, path.display());
            if i < 5 {
                println!("  {k}: {}", d.to_string().chars().take(600).collect::<String>());
            }
        }
        std::process::exit(i32::from(!self.violations.is_empty()))
    }
}

/// A check could not even set its scenario up: a step that the property says
/// must succeed did not.
pub fn broken(id: &str, what: &str) -> ! {
    let path = write_replay(id, 0, "scenario", &json!({ "scenario": what }));
    println!("VIOLATION property={id} replay={}", path.display());
    println!("  scenario: {}", what.chars().take(900).collect::<String>());
    let found = FOUND.lock().map(|f| f.clone()).unwrap_or_default();
    for (i, (k, d)) in found.iter().enumerate() {
        let path = write_replay(id, i + 1, k, d);
        println!("VIOLATION property={id} replay={}", path.display());
        if i < 5 {
            println!("  {k}: {}", d.to_string().chars().take(600).collect::<String>());
        }
    }
    std::process::exit(1)
}
/// Dispatch of a harness: runs the check named on the command line.
pub fn main(dispatch: impl FnOnce(&str)) -> ! {
    let id = std::env::args().nth(1).unwrap_or_default();
    match guard(|| dispatch(&id)) {
        Err(p) => broken(&id, &p),
        Ok(()) => {
            eprintln!("no check {id}");
            std::process::exit(2)
        }
    }
}

fn write_replay(id: &str, i: usize, key: &str, detail: &Value) -> PathBuf {
    let dir = root().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{i}.json"));
    let v = json!({
        "property": id,
        "key": key,
        "detail": detail,
        "rerun": format!("/verif/check.sh {id} quick --only '{}'", key.replace('\'', "'\\''")),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}
