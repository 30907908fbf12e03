//! Reporting shared by the harnesses: counting what was explored, violations, known findings,
//! evidence files, child processes for cells that may hang or abort.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Mc {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub level: &'static str,
    t0: Instant,
    st: Mutex<St>,
}

#[derive(Default)]
struct St {
    states: u64,
    transitions: u64,
    traces: u64,
    evals: u64,
    nontrivial: u64,
    rule: String,
    samples: Vec<Value>,
    violations: Vec<(String, String, String)>,
    known_hit: BTreeMap<String, u64>,
    assumptions: Vec<String>,
    sections: BTreeMap<String, Value>,
    exhaustive: Option<bool>,
    printed: usize,
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

impl Mc {
    pub fn new(prop: &str, tier: &str) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Mc {
            prop: prop.into(),
            tier: tier.into(),
            seed,
            level: "model_checking",
            t0: Instant::now(),
            st: Mutex::new(St::default()),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// picks the bound for this tier
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn states(&self, n: u64) {
        self.st.lock().unwrap().states += n;
    }
    pub fn transitions(&self, n: u64) {
        self.st.lock().unwrap().transitions += n;
    }
    /// executions of the implementation compared with the model
    pub fn traces(&self, n: u64) {
        self.st.lock().unwrap().traces += n;
    }
    pub fn evals(&self, n: u64, nontrivial: u64) {
        let mut s = self.st.lock().unwrap();
        s.evals += n;
        s.nontrivial += nontrivial;
    }
    pub fn rule(&self, r: &str) {
        self.st.lock().unwrap().rule = r.into();
    }
    pub fn assume(&self, a: &str) {
        self.st.lock().unwrap().assumptions.push(a.into());
    }
    pub fn exhaustive(&self, e: bool) {
        self.st.lock().unwrap().exhaustive = Some(e);
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.st.lock().unwrap();
        if s.samples.len() < 24 {
            s.samples.push(v);
        }
    }
    /// one line per explored section: name -> bounds and counts
    pub fn section(&self, name: &str, v: Value) {
        println!("[{:7.1}s] {} {}", self.t0.elapsed().as_secs_f64(), name, v);
        let name = match std::env::var("MC_PART") {
            Ok(p) if p != "0" => format!("{}: {name}", std::env::var("MC_HARNESS").unwrap_or(p)),
            _ => name.to_string(),
        };
        self.st.lock().unwrap().sections.insert(name, v);
    }
    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    pub fn n_violations(&self) -> usize {
        self.st.lock().unwrap().violations.len()
    }

    /// `key` names the failing input / call site / history; it is what known_findings.json lists.
    pub fn fail(&self, key: &str, what: &str, replay: Value) {
        let known = known();
        let mut s = self.st.lock().unwrap();
        for k in &known {
            if k.0 == self.prop && k.1 == key {
                *s.known_hit.entry(key.into()).or_insert(0) += 1;
                return;
            }
        }
        // a handful of replays per failing key is enough; the first ones are kept
        let n = s.violations.len();
        if std::env::var("MC_ALL").is_ok() {
            println!("ALL {key}: {}", what.chars().take(700).collect::<String>());
            return;
        }
        if n >= 60 || s.violations.iter().filter(|v| v.0 == key).count() >= 3 {
            return;
        }
        let dir = root().join("evidence/replay");
        std::fs::create_dir_all(&dir).ok();
        let part = std::env::var("MC_HARNESS").unwrap_or_default();
        let path = dir.join(format!("{}-{part}{}.json", self.prop, n));
        let body = json!({"property": self.prop, "key": key, "what": what, "replay": replay,
            "how": format!("bash mc/run.sh {} {}  (the enumeration is deterministic)", self.prop, self.tier)});
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).ok();
        if s.printed < 20 {
            s.printed += 1;
            println!("VIOLATION property={} replay={}", self.prop, path.display());
            println!("  {key}: {}", what.chars().take(700).collect::<String>());
        }
        s.violations.push((key.into(), what.into(), path.display().to_string()));
    }
    pub fn check(&self, ok: bool, key: &str, what: impl FnOnce() -> String) -> bool {
        if !ok {
            let w = what();
            self.fail(key, &w, json!({ "detail": w }));
        }
        ok
    }

    pub fn finish(&self) -> i32 {
        let s = self.st.lock().unwrap();
        for k in known() {
            if k.0 == self.prop && s.known_hit.contains_key(&k.1) {
                println!("KNOWN-FINDING: property={} {} ({})", k.0, k.2, k.1);
            }
        }
        let cov = json!({
            "states": s.states, "transitions": s.transitions,
            "traces_validated_against_impl": s.traces,
            "evaluations": s.evals, "distinct_nontrivial": s.nontrivial, "rule": s.rule,
            "samples": s.samples, "sections": s.sections,
            "exhaustive": s.exhaustive.unwrap_or(true),
        });
        let ev = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "wall_s": self.t0.elapsed().as_secs_f64(),
            "assumptions": s.assumptions,
            "violations": s.violations.len(),
        });
        let dir = root().join("evidence");
        std::fs::create_dir_all(&dir).ok();
        let ev = match std::env::var("MC_PART") {
            // a further harness of the same property adds to what the first one wrote
            Ok(part) if part != "0" => std::fs::read_to_string(dir.join(format!("{}.json", self.prop)))
                .ok()
                .and_then(|t| serde_json::from_str(&t).ok())
                .map(|first| merge(first, &ev))
                .unwrap_or(ev),
            _ => ev,
        };
        std::fs::write(
            dir.join(format!("{}.json", self.prop)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("evidence");
        println!(
            "{}: states={} transitions={} executions={} violations={} ({:.1}s)",
            self.prop,
            s.states,
            s.transitions,
            s.traces,
            s.violations.len(),
            self.t0.elapsed().as_secs_f64()
        );
        if s.violations.is_empty() {
            0
        } else {
            1
        }
    }
}

fn merge(mut a: Value, b: &Value) -> Value {
    for k in ["states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial"] {
        a["coverage"][k] = json!(a["coverage"][k].as_u64().unwrap_or(0) + b["coverage"][k].as_u64().unwrap_or(0));
    }
    if let Some(r) = b["coverage"]["rule"].as_str().filter(|r| a["coverage"]["rule"] != **r) {
        a["coverage"]["rule"] = json!(format!("{}; {r}", a["coverage"]["rule"].as_str().unwrap_or("")));
    }
    for (k, v) in b["coverage"]["sections"].as_object().unwrap() {
        a["coverage"]["sections"][k] = v.clone();
    }
    for l in ["samples", "assumptions"] {
        let (x, y) = if l == "samples" { (&mut a["coverage"][l], &b["coverage"][l]) } else { (&mut a[l], &b[l]) };
        if let (Some(x), Some(y)) = (x.as_array_mut(), y.as_array()) {
            x.extend(y.iter().cloned());
        }
    }
    a["coverage"]["exhaustive"] = json!(a["coverage"]["exhaustive"] == json!(true) && b["coverage"]["exhaustive"] == json!(true));
    a["wall_s"] = json!(a["wall_s"].as_f64().unwrap_or(0.0) + b["wall_s"].as_f64().unwrap_or(0.0));
    a["violations"] = json!(a["violations"].as_u64().unwrap_or(0) + b["violations"].as_u64().unwrap_or(0));
    a
}

fn known() -> Vec<(String, String, String)> {
    let p = root().join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known_findings.json");
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|e| {
                    (
                        e["property"].as_str().unwrap().to_string(),
                        e["key"].as_str().unwrap().to_string(),
                        e["what"].as_str().unwrap().to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Runs `f`, turning a panic into Err(message); the default panic output is silenced.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}
thread_local! { static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
static ALLQUIET: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// silences panic output of every thread (rayon workers) while the checks run
pub fn quiet_all(q: bool) {
    ALLQUIET.store(q, std::sync::atomic::Ordering::SeqCst);
}
pub fn install_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let q = QUIET.try_with(|q| q.get() > 0).unwrap_or(true);
        if !q && !ALLQUIET.load(std::sync::atomic::Ordering::SeqCst) {
            def(i);
        }
    }));
}

#[derive(Debug, Clone)]
pub enum Child {
    Out(String),
    Crash(String),
    Hang,
}

/// Re-executes this binary as `cell ARGS..` under a time limit, so that a hang, a stack overflow
/// or an allocation bomb in the code under test stays in the child.
pub fn cell(args: &[String], envs: &[(&str, String)], cpus: Option<usize>, limit: Duration) -> Child {
    use std::io::Read;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().unwrap();
    let mut c = if let Some(n) = cpus {
        let mut c = Command::new("taskset");
        c.arg("-c").arg(cpu_list(n)).arg(&exe);
        c
    } else {
        Command::new(&exe)
    };
    c.arg("cell").args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    for (k, v) in envs {
        c.env(k, v);
    }
    let mut ch = c.spawn().expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut b = vec![];
        so.read_to_end(&mut b).ok();
        String::from_utf8_lossy(&b).to_string()
    });
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let out = rd.join().unwrap();
            return if st.success() { Child::Out(out) } else { Child::Crash(format!("{st} {out}")) };
        }
        if t.elapsed() > limit {
            ch.kill().ok();
            ch.wait().ok();
            return Child::Hang;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

/// first n CPUs this process may run on
pub fn cpu_list(n: usize) -> String {
    let c = allowed_cpus();
    c.iter().take(n.max(1)).map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn allowed_cpus() -> Vec<usize> {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("Cpus_allowed_list:") {
            for p in r.trim().split(',') {
                let mut q = p.split('-').map(|x| x.parse::<usize>().unwrap_or(0));
                let a = q.next().unwrap_or(0);
                let b = q.next().unwrap_or(a);
                v.extend(a..=b);
            }
        }
    }
    if v.is_empty() {
        v.push(0);
    }
    v
}

/// runs the check and exits: a panic that escapes it is itself a violation of the property
pub fn main_for(mc: Mc, f: impl FnOnce(&Mc)) -> ! {
    install_hook();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mc)));
    if let Err(e) = r {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        mc.fail("panic-on-valid-input", &format!("the code under test panicked: {m}"), json!({"panic": m}));
    }
    std::process::exit(mc.finish());
}

/// deterministic 64-bit mixer used to fill states with distinct, non-structured values
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
