//! `h_cli P31 TIER`: the command line tool (its main.rs and the compiler's driver) over stand-ins for the
//! operations, which record what they are given. Every case is one run of the real program.
use mc_common::*;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// a command's option: its names (without dashes: one letter is short), what it is when left out, where the operation
/// gets it
struct O {
    names: &'static [&'static str],
    /// None: has to be given; a flag's is "false"
    default: Option<&'static str>,
    kind: u8, // 0 text, 1 flag, 2 number
}
const fn t(names: &'static [&'static str], d: &'static str) -> O {
    O { names, default: Some(d), kind: 0 }
}
const fn need(names: &'static [&'static str]) -> O {
    O { names, default: None, kind: 0 }
}
const fn flag(names: &'static [&'static str]) -> O {
    O { names, default: Some("false"), kind: 1 }
}
const fn num(names: &'static [&'static str], d: &'static str) -> O {
    O { names, default: Some(d), kind: 2 }
}
struct C {
    name: &'static str,
    op: &'static str,
    /// in the order in which the operation takes them
    opts: Vec<O>,
}
fn commands() -> Vec<C> {
    let c = |name, op, opts| C { name, op, opts };
    vec![
        c("stark_prove", "stark_prove", vec![
            t(&["s", "stark_stuct"], "stark_struct.json"), t(&["p", "piljson"], "pil.json"), flag(&["n", "norm_stage"]),
            flag(&["skip_main"]), flag(&["a", "agg_stage"]), t(&["-o"], "pols.const"), t(&["-m"], "pols.cm"),
            t(&["c", "circom"], "stark_verfier.circom"), t(&["-i"], "zkin.json"),
            t(&["prover_addr"], "273030697313060285579891744179749754319274977764"),
        ]),
        c("compressor12_setup", "compressor12_setup", vec![
            t(&["-r"], "mycircuit.verifier.r1cs"), t(&["-p"], "mycircuit.c12.pil"), t(&["-c"], "mycircuit.c12.const"),
            t(&["-e"], "mycircuit.c12.exec"), num(&["force-n-bits"], "0"),
        ]),
        c("compressor12_exec", "compressor12_exec", vec![
            t(&["-i"], "mycircuit.proof.zkin.json"), t(&["-w"], "mycircuit.verifier.wasm"), t(&["-p"], "mycircuit.c12.pil"),
            t(&["-e"], "mycircuit.c12.exec"), t(&["-m"], "mycircuit.c12.cm"),
        ]),
        c("join_zkin", "join_zkin", vec![t(&["zkin1"], "input1.zkin.json"), t(&["zkin2"], "input2.zkin.json"), t(&["zkinout"], "out.zkin.json")]),
        c("groth16_setup", "groth16_setup", vec![need(&["c"]), need(&["r1cs"]), need(&["p"]), need(&["v"]), flag(&["t"])]),
        c("groth16_prove", "groth16_prove", vec![
            need(&["c"]), need(&["r1cs"]), need(&["w"]), need(&["p"]), need(&["i"]), need(&["public-input"]), need(&["proof"]), flag(&["t"]),
        ]),
        c("groth16_verify", "groth16_verify", vec![need(&["c"]), need(&["v"]), need(&["public-input"]), need(&["proof"])]),
        c("generate_verifier", "generate_verifier", vec![t(&["v"], "vk.bin"), t(&["s"], "verifier.sol")]),
    ]
}
/// one option written out in one of its spellings
fn spell(o: &O, v: &str, how: usize) -> Vec<String> {
    let long = |n: &str| n.len() > 1;
    let n = o.names[how % o.names.len()];
    let d = |n: &str| if long(n) { format!("--{}", n.trim_start_matches('-')) } else { format!("-{n}") };
    if o.kind == 1 {
        return vec![d(n)];
    }
    match how / o.names.len() % 3 {
        0 => vec![d(n), v.to_string()],
        1 => vec![format!("{}={v}", d(n))],
        _ if !long(n) => vec![format!("-{n}{v}")],
        _ => vec![d(n), v.to_string()],
    }
}
struct Ran {
    code: Option<i32>,
    calls: Vec<(String, Value)>,
    text: String,
}
static CASE: AtomicU64 = AtomicU64::new(0);
fn scratch() -> PathBuf {
    let d = PathBuf::from(std::env::var("MC_TMP").unwrap_or("/tmp".into())).join(format!("h_cli.{}.{}", std::process::id(), CASE.fetch_add(1, Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn run_in(d: &Path, args: &[String], envs: &[(&str, &str)]) -> Ran {
    let out = d.join(".calls");
    let mut c = Command::new(std::env::current_exe().unwrap().with_file_name("zkit"));
    c.args(args).current_dir(d).env_remove("MC_FAIL").env_remove("MC_PANIC").env_remove("MC_EARLY").env("MC_OUT", &out).env("RUST_BACKTRACE", "0").stdin(Stdio::null());
    for (k, v) in envs {
        c.env(k, v);
    }
    let r = c.output().unwrap();
    let calls = std::fs::read_to_string(&out).unwrap_or_default().lines().map(|l| { let v: Value = serde_json::from_str(l).unwrap(); (v[0].as_str().unwrap().to_string(), v[1].clone()) }).collect();
    let _ = std::fs::remove_file(&out);
    Ran { code: r.status.code(), calls, text: String::from_utf8_lossy(&r.stderr).lines().chain(String::from_utf8_lossy(&r.stdout).lines()).take(4).collect::<Vec<_>>().join(" | ") }
}
fn run(args: &[String], envs: &[(&str, &str)]) -> Ran {
    let d = scratch();
    let r = run_in(&d, args, envs);
    let _ = std::fs::remove_dir_all(&d);
    r
}
fn typed(o: &O, v: &str) -> Value {
    match o.kind {
        0 => json!(v),
        1 => json!(v == "true"),
        _ => json!(v.parse::<u64>().unwrap()),
    }
}
fn show(args: &[String]) -> String {
    args.join(" ")
}
fn shown(r: &Ran) -> String {
    format!("status {:?}, operations {}, says {}", r.code, json!(r.calls), r.text)
}
/// the operation is called once, with exactly this, and the run succeeds
fn wants(mc: &Mc, key: &str, args: &[String], op: &str, a: &Value) {
    let r = run(args, &[]);
    mc.evals(1, 1);
    mc.states(1);
    mc.check(r.code == Some(0) && r.calls.len() == 1 && r.calls[0].0 == op && r.calls[0].1 == *a, key, || {
        format!("eigen-zkit {}: {} instead of {op} {a}", show(args), shown(&r))
    });
}
/// the run ends in failure before any operation
fn refuses(mc: &Mc, key: &str, args: &[String]) {
    let r = run(args, &[]);
    mc.evals(1, 1);
    mc.states(1);
    mc.check(r.code != Some(0) && r.calls.is_empty(), key, || format!("eigen-zkit {}: {} instead of a refusal", show(args), shown(&r)));
}
fn values(o: &O, i: usize, set: usize) -> String {
    match (o.kind, set) {
        (1, _) => "true".into(),
        (2, s) => ["18", "1", "0", "63", "007"][(s + i) % 5].into(),
        (_, 0) => format!("dir{i}/file.{i}"),
        (_, 1) => "same".into(),
        (_, 2) => format!("a=b c{i}"),
        (_, 3) => format!("/x/é{i}"),
        // what looks like the default of its neighbour
        _ => ["pil.json", "vk.bin", "true", "groth16", "0", "zkin.json", "-"][(i + set) % 7].into(),
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    perms(n - 1).into_iter().flat_map(|p| (0..n).map(move |k| { let mut q = p.clone(); q.insert(k, n - 1); q })).collect()
}
fn orders(n: usize, all: usize) -> Vec<Vec<usize>> {
    if n <= all {
        return perms(n);
    }
    let mut out = vec![];
    for k in 0..n {
        let r: Vec<usize> = (0..n).map(|i| (i + k) % n).collect();
        out.push(r.iter().rev().copied().collect());
        out.push(r);
    }
    for i in 0..n {
        for j in 0..i {
            let mut r: Vec<usize> = (0..n).collect();
            r.swap(i, j);
            out.push(r);
        }
    }
    out
}
fn options(mc: &Mc) {
    let mut jobs: Vec<Box<dyn Fn() + Send + Sync + '_>> = vec![];
    let cs: &'static [C] = Box::leak(commands().into_boxed_slice());
    let mut per: BTreeMap<&str, u64> = BTreeMap::new();
    for c in cs {
        let n = c.opts.len();
        let before = jobs.len();
        let line = move |given: &[(usize, String, usize)]| -> (Vec<String>, Value) {
            let mut args = vec![c.name.to_string()];
            for (i, v, how) in given {
                args.extend(spell(&c.opts[*i], v, *how));
            }
            let a = c.opts.iter().enumerate().map(|(i, o)| typed(o, given.iter().find(|g| g.0 == i).map(|g| &g.1[..]).or(o.default).unwrap())).collect();
            (args, Value::Array(a))
        };
        // which options are given, spelled how, with what values
        let sets = mc.pick(6, 14);
        for mask in 0..1usize << n {
            if (0..n).any(|i| mask >> i & 1 == 0 && c.opts[i].default.is_none()) {
                continue;
            }
            for how in 0..mc.pick(3, 6) {
                for set in 0..sets {
                    if !mc.thorough() && n > 8 && (how + set) % 5 != mask % 5 {
                        continue;
                    }
                    let given: Vec<_> = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| (i, values(&c.opts[i], i, set), how + set + i * (mask >> 3 & 1))).collect();
                    let (args, a) = line(&given);
                    jobs.push(Box::new(move || wants(mc, &format!("{}:given {mask:b} {how} {set}", c.name), &args, c.op, &a)));
                }
            }
        }
        // in which order
        for p in orders(n, mc.pick(6, 8)) {
            let given: Vec<_> = p.iter().map(|&i| (i, values(&c.opts[i], i, 0), i)).collect();
            let (args, a) = line(&given);
            jobs.push(Box::new(move || wants(mc, &format!("{}:order {p:?}", c.name), &args, c.op, &a)));
        }
        let full: Vec<_> = (0..n).map(|i| (i, values(&c.opts[i], i, 0), 0)).collect();
        for i in 0..n {
            let o = &c.opts[i];
            if o.default.is_none() {
                let some: Vec<_> = full.iter().filter(|g| g.0 != i).cloned().collect();
                let mut args = vec![c.name.to_string()];
                for (j, v, how) in &some {
                    args.extend(spell(&c.opts[*j], v, *how));
                }
                // left out: either refused, or what the help text says stands in for it
                jobs.push(Box::new(move || refuses(mc, &format!("{}:without {}", c.name, c.opts[i].names[0]), &args)));
            }
            for how in 0..6 {
                // given twice
                let (mut args, _) = line(&full);
                args.extend(spell(o, "again", how));
                jobs.push(Box::new(move || refuses(mc, &format!("{}:twice {} {how}", c.name, c.opts[i].names[0]), &args)));
            }
            for n in o.names {
                let d = if n.len() > 1 { format!("--{}", n.trim_start_matches('-')) } else { format!("-{n}") };
                let rest: Vec<_> = full.iter().filter(|g| g.0 != i).cloned().collect();
                let mut args = vec![c.name.to_string()];
                for (j, v, how) in &rest {
                    args.extend(spell(&c.opts[*j], v, *how));
                }
                if o.kind != 1 {
                    // without its value
                    let mut a = args.clone();
                    a.push(d.clone());
                    jobs.push(Box::new(move || refuses(mc, &format!("{}:no value {}", c.name, c.opts[i].names[0]), &a)));
                    let mut a = args.clone();
                    a.splice(1..1, [d.clone()]);
                    if args.len() > 1 && args[1].starts_with('-') {
                        jobs.push(Box::new(move || refuses(mc, &format!("{}:an option for a value {}", c.name, c.opts[i].names[0]), &a)));
                    }
                } else {
                    // a flag does not take one
                    for v in ["true", "x"] {
                        let mut a = args.clone();
                        a.extend([d.clone(), v.to_string()]);
                        jobs.push(Box::new(move || refuses(mc, &format!("{}:a value for {}", c.name, c.opts[i].names[0]), &a)));
                    }
                }
                if o.kind == 2 {
                    for v in ["x", "-1", "1.5", "", "18446744073709551616", "0x10"] {
                        let mut a = args.clone();
                        a.push(format!("{d}={v}"));
                        jobs.push(Box::new(move || refuses(mc, &format!("{}:not a number {v}", c.name), &a)));
                    }
                }
            }
        }
        for x in ["--nonesuch", "--nonesuch=1", "-Z", "stray", "--"] {
            for at in [1, 2] {
                let (mut args, a) = line(&full);
                // (behind a complete option)
                let at = if at == 1 { 1 } else { args.len() };
                args.insert(at, x.to_string());
                if x == "--" {
                    if at == 1 {
                        jobs.push(Box::new(move || refuses(mc, &format!("{}:{x}", c.name), &args)));
                    }
                    let _ = a;
                } else {
                    jobs.push(Box::new(move || refuses(mc, &format!("{}:{x} at {at}", c.name), &args)));
                }
            }
        }
        // the operation fails: so does the run
        for (env, what) in [("MC_FAIL", "fails"), ("MC_PANIC", "panics")] {
            let (args, a) = line(&full);
            jobs.push(Box::new(move || {
                let r = run(&args, &[(env, c.op)]);
                mc.evals(1, 1);
                mc.states(1);
                mc.check(r.code.is_none_or(|x| x != 0) && r.calls.len() == 1 && r.calls[0].1 == a, &format!("{}:{what}", c.name), || {
                    format!("eigen-zkit {} when the operation {what}: {}", show(&args), shown(&r))
                });
            }));
        }
        per.insert(c.name, (jobs.len() - before) as u64);
    }
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    // the one scheme there is
    for (p, ok) in [("groth16", true), ("plonk", false), ("Groth16", false), ("", false), ("groth16 ", false), ("stark", false)] {
        for how in 0..2 {
            let args = if how == 0 { s(&["generate_verifier", "-p", p, "-v", "k", "-s", "o"]) } else { s(&["generate_verifier", "-s", "o", &format!("-p={p}"), "-v", "k"]) };
            jobs.push(Box::new(move || if ok { wants(mc, "protocol", &args, "generate_verifier", &json!(["k", "o"])) } else { refuses(mc, &format!("protocol {p}"), &args) }));
        }
    }
    for args in [s(&[]), s(&["nonesuch"]), s(&["stark_prov"]), s(&["stark-prove"]), s(&["Compile"]), s(&["--nonesuch"]), s(&["-s", "x"]), s(&["", "stark_prove"]), s(&["groth16_prove"]), s(&["groth16_setup"]), s(&["groth16_verify"]), s(&["compile"])] {
        jobs.push(Box::new(move || refuses(mc, &format!("no command {}", show(&args)), &args)));
    }
    jobs.par_iter().for_each(|j| j());
    mc.section("options", json!({"what": "command lines run against the table of options, by command", "runs": per, "all": jobs.len()}));
}

/// what the compile command is to do
#[derive(Clone, Debug)]
struct Comp {
    input: &'static str,
    prime: Option<&'static str>,
    o0: bool,
    o1: bool,
    o2: Option<&'static str>,
    libs: &'static [&'static str],
    out: &'static str,
    how: usize,
}
const STAGES: [&str; 8] = ["run_parser", "check_types", "build_circuit", "r1cs", "sym", "run_compiler", "write_wasm", "encode"];
impl Comp {
    fn args(&self) -> Vec<String> {
        let mut parts: Vec<Vec<String>> = vec![];
        let val = |n: &str, v: &str| match (self.how % 3, n.len()) {
            (0, _) => vec![n.to_string(), v.to_string()],
            (1, _) => vec![format!("{n}={v}")],
            (_, 2) => vec![format!("{n}{v}")],
            _ => vec![n.to_string(), v.to_string()],
        };
        parts.push(val("-i", self.input));
        if let Some(p) = self.prime {
            parts.push(val("-p", p));
        }
        if self.o0 {
            parts.push(vec!["--O0".into()]);
        }
        for (k, l) in self.libs.iter().enumerate() {
            parts.push(val("-l", l));
            if k == 0 && self.o1 {
                parts.push(vec!["--O1".into()]);
            }
        }
        if self.o1 && self.libs.is_empty() {
            parts.push(vec!["--O1".into()]);
        }
        if let Some(o) = self.o2 {
            parts.push(val("--O2", o));
        }
        parts.push(val("-o", self.out));
        if self.how >= 3 {
            // the libraries keep their order
            let libs: Vec<Vec<String>> = parts.iter().filter(|p| p[0].starts_with("-l")).cloned().collect();
            parts.retain(|p| !p[0].starts_with("-l"));
            parts.reverse();
            let at = self.how % (parts.len() + 1);
            parts.splice(at..at, libs);
        }
        std::iter::once("compile".to_string()).chain(parts.into_iter().flatten()).collect()
    }
    fn stem(&self) -> &'static str {
        Path::new(self.input).file_stem().unwrap().to_str().unwrap()
    }
    fn style(&self) -> Option<(u64, bool, bool)> {
        // (rounds, O1, O0)
        let rounds = match self.o2.unwrap_or("full") {
            "full" => Some(usize::MAX as u64),
            x => x.parse::<u64>().ok(),
        };
        match (self.o0, self.o1, rounds) {
            (true, _, _) => Some((0, false, true)),
            (_, true, _) => Some((0, true, false)),
            (_, _, Some(r)) => Some((r, false, false)),
            _ => None,
        }
    }
}
fn same_path(v: &Value, p: &Path) -> bool {
    v.as_str().is_some_and(|s| Path::new(s) == p)
}
fn one(mc: &Mc, c: &Comp, fail: Option<(&str, bool, bool)>, stale: bool) {
    let d = scratch();
    let out = d.join(c.out);
    std::fs::create_dir_all(&out).unwrap();
    let name = c.stem();
    let js = out.join(format!("{name}_js"));
    let files = [("r1cs", out.join(format!("{name}.r1cs"))), ("sym", out.join(format!("{name}.sym"))), ("wasm", js.join(format!("{name}.wasm")))];
    if stale {
        // what an earlier run may have left
        std::fs::create_dir_all(&js).unwrap();
        std::fs::write(js.join(format!("{name}.wat")), "(module ;;older\n)").unwrap();
        for f in &files {
            std::fs::write(&f.1, "older").unwrap();
        }
    }
    let args = c.args();
    let mut envs = vec![];
    if let Some((stage, panics, early)) = fail {
        envs.push((if panics { "MC_PANIC" } else { "MC_FAIL" }, stage));
        if early {
            envs.push(("MC_EARLY", "1"));
        }
    }
    let r = run_in(&d, &args, &envs);
    mc.evals(1, 1);
    mc.states(1);
    mc.transitions(r.calls.len() as u64);
    let key = format!("compile {c:?} fail {fail:?} stale {stale}");
    let say = |what: &str| format!("eigen-zkit {}{}{}: {what}; {}", show(&args), fail.map(|f| format!(" with {} {}", f.0, if f.1 { "panicking" } else { "failing" })).unwrap_or_default(), if stale { " over an earlier run's files" } else { "" }, shown(&r));
    let n = |s: &str| r.calls.iter().filter(|x| x.0 == s).count();
    let get = |s: &str| r.calls.iter().find(|x| x.0 == s).map(|x| x.1.clone());
    if c.style().is_none() {
        mc.check(r.code != Some(0), &key, || say("a number of rounds that is none"));
    } else if let Some((stage, _, _)) = fail {
        mc.check(n(stage) == 1, &key, || say("the stage is not reached"));
        mc.check(r.code != Some(0), &key, || say("reported as a success"));
        // the stages behind it need what it makes (the two listings do not need one another)
        let k = STAGES.iter().position(|s| *s == stage).unwrap();
        mc.check(STAGES[k + 1..].iter().all(|s| n(s) == 0) || (3..5).contains(&k), &key, || say("goes on behind the failing stage"));
        mc.check(std::fs::read_to_string(&files[2].1).map_or(true, |t| stage == "encode" || t == "older"), &key, || say("writes the witness program all the same"));
    } else {
        mc.check(r.code == Some(0) && STAGES.iter().all(|s| n(s) == 1), &key, || say("does not go through every stage once"));
        let p = get("run_parser").unwrap_or_default();
        let dirs: Vec<PathBuf> = p[2].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(PathBuf::from)).collect();
        mc.check(same_path(&p[0], Path::new(c.input)) && dirs == c.libs.iter().map(PathBuf::from).collect::<Vec<_>>(), &key, || say("reads other files"));
        mc.check(get("run_compiler").is_some_and(|x| x[1] == p[1]), &key, || say("two language versions"));
        let b = get("build_circuit").unwrap_or_default();
        let (rounds, o1, o0) = c.style().unwrap();
        mc.check(b[0] == 2, &key, || say("another program than the checked one"));
        mc.check(b[2] == o1 && b[3] == o0 && (o0 || o1 || b[1] == rounds), &key, || say("another simplification"));
        mc.check(b[5] == c.prime.unwrap_or("BN128").to_lowercase(), &key, || say("another prime"));
        for (what, f) in &files {
            let want = match *what {
                "wasm" => format!("wasm(module ;;{name} 2\n)"),
                w => format!("{w} of 2"),
            };
            let t = std::fs::read_to_string(f);
            mc.check(t.as_ref().is_ok_and(|t| *t == want), &key, || say(&format!("{} holds {t:?} instead of {want:?}", f.strip_prefix(&d).unwrap().display())));
        }
    }
    let _ = std::fs::remove_dir_all(&d);
}
fn compile(mc: &Mc) {
    let mut cases: Vec<(Comp, Option<(&str, bool, bool)>, bool)> = vec![];
    let inputs = ["c.circom", "dir/a.verifier.circom", "./up/../x", "/abs/q.c12.circom"];
    let primes = [None, Some("BN128"), Some("goldilocks"), Some("GOLDILOCKS"), Some("bls12381"), Some("bN128")];
    let o2s = [None, Some("full"), Some("0"), Some("1"), Some("7"), Some("18446744073709551615"), Some("x"), Some("1.5")];
    let libs: [&[&str]; 4] = [&[], &["l1"], &["l2", "../l 1"], &["b", "a", "b"]];
    let outs = ["out", "out/deep/", "."];
    let mut k = 0usize;
    for o in 0..4 {
        for o2 in o2s {
            for prime in primes {
                for l in libs {
                    for input in inputs {
                        for out in outs {
                            k += 1;
                            {
                                cases.push((Comp { input, prime, o0: o & 1 == 1, o1: o & 2 == 2, o2, libs: l, out, how: k % 7 }, None, k % 5 == 0));
                            }
                        }
                    }
                }
            }
        }
    }
    let plain = cases.len();
    let good = [
        Comp { input: "c.circom", prime: None, o0: false, o1: false, o2: None, libs: &[], out: "out", how: 0 },
        Comp { input: "dir/a.verifier.circom", prime: Some("goldilocks"), o0: true, o1: false, o2: Some("3"), libs: &["l"], out: ".", how: 4 },
        Comp { input: "x", prime: Some("BN128"), o0: false, o1: true, o2: Some("full"), libs: &["l", "m"], out: "o/", how: 1 },
    ];
    for c in &good {
        for stage in STAGES {
            for panics in [false, true] {
                for early in [false, true] {
                    for stale in [false, true] {
                        cases.push((c.clone(), Some((stage, panics, early)), stale));
                    }
                }
            }
        }
    }
    cases.par_iter().for_each(|(c, f, s)| one(mc, c, *f, *s));
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for (k, a) in [s(&["compile", "-i", "a.circom"]), s(&["compile", "-o", "x"]), s(&["compile", "-i", "a", "-o", "x", "-i", "b"]), s(&["compile", "-i", "a", "-o", "x", "-o", "y"]), s(&["compile", "-i", "a", "-o", "x", "--O3"]), s(&["compile", "-i", "a", "-o", "x", "--O0", "--O0"]), s(&["compile", "-i", "a", "-o", "x", "-p", "bn128", "-p", "goldilocks"]), s(&["compile", "-i", "a", "-o", "x", "-l"])].iter().enumerate() {
        refuses(mc, &format!("compile refusal {k}"), a);
    }
    mc.section("compile", json!({"what": "runs of the compile command: choices of options; a failing or panicking stage, with and without an earlier run's files", "runs": plain, "failing": cases.len() - plain}));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mc = Mc::new(&a[1], &a[2]);
    main_for(mc, |mc| {
        mc.rule("the real program runs once per command line; operations are stand-ins that record what they get; compared with a table of options written from the help texts and scripts");
        mc.assume("clap, circom's stages and wast are stand-ins with the documented behaviour of the parts used");
        options(mc);
        compile(mc);
        mc.exhaustive(true);
    })
}
