//! P36: the example state machines build satisfying traces, and only right ones are accepted.
use crate::air;
use crate::bigf;
use crate::p34_export::{value, Trace};
use crate::refs;
use mc_common::*;
use rayon::prelude::*;
use recursion::pilcom::compile_pil_from_path;
use serde_json::{json, Value};
use starky::polsarray::{PolKind, PolsArray};
use starky::types::{load_json, PIL};
use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

type Cols = Vec<Vec<u64>>;
/// the columns of one machine by name, `Machine.column` or `Machine.column[i]`
struct Names(HashMap<String, usize>);
impl Names {
    fn of(pil: &PIL) -> Self {
        Names(pil.references.iter().filter(|(_, r)| r.type_ == "cmP").map(|(n, r)| (n.rsplit('.').next().unwrap().to_string(), r.id)).collect())
    }
    fn get<'a>(&self, w: &'a Cols, n: &str) -> &'a Vec<u64> {
        &w[self.0[n]]
    }
}

/// does the trace satisfy the circuit (every identity, lookup, permutation and connection)? Identities on the rows given.
fn sat(pil: &PIL, tr: &Trace, rows: &[usize]) -> Result<bool, String> {
    let n = tr.w[0].len();
    let ex = |e: usize, r: usize| value(pil, tr, pil.expressions.get(e).ok_or("no such expression")?, r);
    let tuple = |es: &Option<Vec<usize>>, r: usize| es.iter().flatten().map(|e| ex(*e, r)).collect::<Result<Vec<_>, _>>();
    let on = |s: &Option<usize>, r: usize| s.map_or(Ok(1), |e| ex(e, r));
    for i in &pil.polIdentities {
        for r in rows {
            if ex(i.e, *r)? != 0 {
                return Ok(false);
            }
        }
    }
    for i in &pil.plookupIdentities {
        let mut t = HashSet::new();
        for r in 0..n {
            if on(&i.selT, r)? != 0 {
                t.insert(tuple(&i.t, r)?);
            }
        }
        for r in 0..n {
            if on(&i.selF, r)? != 0 && !t.contains(&tuple(&i.f, r)?) {
                return Ok(false);
            }
        }
    }
    for i in pil.permutationIdentities.iter().flatten() {
        let (mut f, mut t) = (vec![], vec![]);
        for r in 0..n {
            for (s, e, v) in [(&i.selF, &i.f, &mut f), (&i.selT, &i.t, &mut t)] {
                match on(s, r)? {
                    0 => {}
                    1 => v.push(tuple(e, r)?),
                    _ => return Err("a selector that is no bit".into()),
                }
            }
        }
        f.sort();
        t.sort();
        if f != t {
            return Ok(false);
        }
    }
    for i in pil.connectionIdentities.iter().flatten() {
        let (p, c) = (i.pols.as_ref().ok_or("no columns")?, i.connections.as_ref().ok_or("no connections")?);
        let w = refs::omega(n.trailing_zeros() as usize);
        let mut at = HashMap::new();
        for k in 0..p.len() {
            let mut x = air::kj(k);
            for r in 0..n {
                at.insert(x, (k, r));
                x = refs::mul(x, w);
            }
        }
        let mut seen = HashSet::new();
        for k in 0..p.len() {
            for r in 0..n {
                let Some((k2, r2)) = at.get(&ex(c[k], r)?) else { return Ok(false) };
                if !seen.insert((*k2, *r2)) || ex(p[k], r)? != ex(p[*k2], *r2)? {
                    return Ok(false);
                }
            }
        }
    }
    Ok(true)
}
fn publics(pil: &PIL, w: &Cols) -> Vec<u64> {
    pil.publics.iter().map(|p| if p.polType == "cmP" { w[p.polId][p.idx] } else { 0 }).collect()
}

// what the machines are for, said once more
fn fibonacci(n: &Names, w: &Cols) -> bool {
    let (a, b) = (n.get(w, "l2"), n.get(w, "l1"));
    (1..a.len()).all(|i| a[i] == b[i - 1] && b[i] == refs::add(refs::mul(a[i - 1], a[i - 1]), refs::mul(b[i - 1], b[i - 1])))
}
fn permutation(n: &Names, w: &Cols) -> bool {
    let sorted = |c: &str, s: Option<&str>| {
        let mut v: Vec<u64> = n.get(w, c).iter().enumerate().filter(|(i, _)| s.map_or(true, |s| n.get(w, s)[*i] == 1)).map(|x| *x.1).collect();
        v.sort();
        v
    };
    sorted("a", None) == sorted("b", None) && sorted("c", Some("selC")) == sorted("d", Some("selD"))
}
fn plookup(n: &Names, w: &Cols) -> bool {
    let (s, a, b, cc) = (n.get(w, "sel"), n.get(w, "a"), n.get(w, "b"), n.get(w, "cc"));
    let rows = s.len();
    (0..rows).all(|i| {
        let (x, y) = (a[i], b[(i + 1) % rows]);
        s[i] == 0 || x < 16 && y < 16 && cc[(16 * x + y) as usize] == refs::mul(x, y)
    })
}
fn connection(n: &Names, w: &Cols) -> bool {
    let h = w[0].len() / 2;
    let (a, b, c) = (n.get(w, "a"), n.get(w, "b"), n.get(w, "c"));
    (0..2 * h).all(|i| {
        let to = i / 2 + if i % 2 == 0 { 0 } else { h };
        b[to] == a[i] && c[to] == b[i]
    })
}
const STATE: [&str; 12] = ["in0", "in1", "in2", "in3", "in4", "in5", "in6", "in7", "hashType", "cap1", "cap2", "cap3"];
const HASH: [&str; 4] = ["hash0", "hash1", "hash2", "hash3"];
const RESULT: [&str; 3] = ["result1", "result2", "result3"];
const SLOT: usize = 31;
fn poseidon(n: &Names, w: &Cols) -> bool {
    let rows = w[0].len();
    let st = |i: usize| STATE.map(|c| n.get(w, c)[i]);
    let c = bigf::gl_constants();
    (0..rows).all(|i| {
        let r = i % SLOT;
        let last = r == SLOT - 1 || i == rows - 1;
        let latch = r == 0 && i / SLOT < rows / SLOT;
        (last || st(i + 1) == bigf::gl_round(&c, r, &st(i)) && HASH.iter().all(|h| n.get(w, h)[i + 1] == n.get(w, h)[i]))
            && (r != SLOT - 1 || (0..4).all(|k| n.get(w, HASH[k])[i] == n.get(w, STATE[k])[i]))
            && RESULT.iter().all(|c| n.get(w, c)[i] <= latch as u64)
    })
}

struct Machine {
    name: &'static str,
    script: &'static str,
    args: &'static [&'static str],
    pil: &'static str,
    bits: &'static [usize],
    right: fn(&Names, &Cols) -> bool,
    /// column and row (from the end when negative) of every public
    publics: &'static [(&'static str, &'static str, i64)],
    /// publics that the circuit itself ties to their cells
    tied: bool,
    cols: usize,
}
const MACHINES: [Machine; 6] = [
    Machine {
        name: "fibonacci",
        script: "fibonacci/fibonacci.js",
        args: &["-w", "W", "--i", "0", "--pc", "PC", "--p", "fibonacci_old.pil"],
        pil: "fibonacci/fibonacci_old.pil",
        bits: &[1, 2, 3, 4, 6],
        right: fibonacci,
        publics: &[("in1", "l2", 0), ("in2", "l1", 0), ("out", "l1", -1)],
        tied: true,
        cols: 2,
    },
    Machine {
        name: "fibonacci, new form",
        script: "fibonacci/fibonacci.js",
        args: &["-w", "W", "--i", "3", "--pc", "PC", "--p", "fibonacci.pil"],
        pil: "fibonacci/fibonacci.pil",
        bits: &[1, 2, 3, 4, 6],
        right: fibonacci,
        publics: &[("in1", "l2", 0), ("in2", "l1", 0), ("out", "l1", -1)],
        tied: true,
        cols: 2,
    },
    Machine {
        name: "permutation",
        script: "permutation/permutation.js",
        args: &["-w", "W"],
        pil: "permutation/permutation_main.pil",
        bits: &[1, 2, 3, 5],
        right: permutation,
        publics: &[("out", "d", -1)],
        tied: false,
        cols: 6,
    },
    Machine {
        name: "plookup",
        script: "plookup/plookup.js",
        args: &["-w", "W"],
        pil: "plookup/plookup_main.pil",
        bits: &[8],
        right: plookup,
        publics: &[("out", "cc", -1)],
        tied: false,
        cols: 4,
    },
    Machine {
        name: "connection",
        script: "connection/connection.js",
        args: &["-w", "W"],
        pil: "connection/connection_main.pil",
        bits: &[1, 2, 3, 5],
        right: connection,
        publics: &[("out", "c", -1)],
        tied: false,
        cols: 3,
    },
    Machine {
        name: "poseidon",
        script: "poseidon/main_poseidon.js",
        args: &["-w", "W", "--i", "1", "--pc", "PC"],
        pil: "poseidon/poseidong.pil",
        bits: &[5, 6],
        right: poseidon,
        publics: &[
            ("pin0", "in0", 0),
            ("pin1", "in1", 0),
            ("pin2", "in2", 0),
            ("pin3", "in3", 0),
            ("pin4", "in4", 0),
            ("pin5", "in5", 0),
            ("pin6", "in6", 0),
            ("pin7", "in7", 0),
            ("out0", "hash0", -1),
            ("out1", "hash1", -1),
            ("out2", "hash2", -1),
            ("out3", "hash3", -1),
        ],
        tied: true,
        cols: 19,
    },
];

fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let (p, d) = (e.path(), to.join(e.file_name()));
        if e.file_name() == "node_modules" {
            std::os::unix::fs::symlink(std::fs::canonicalize(&p).unwrap(), d).unwrap();
        } else if p.is_dir() {
            copy(&p, &d);
        } else {
            std::fs::copy(&p, &d).unwrap();
        }
    }
}
struct Dir(PathBuf);
impl Dir {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("mc_p36_{}_{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn f(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().into()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// a copy of the examples for 2^bits rows (None: as they are), the circuit of one compiled beside its file
fn tree(m: &Machine, bits: Option<usize>) -> Result<(Dir, PIL), String> {
    let d = Dir::new();
    let js = d.0.join("js");
    copy(&root().join("build/ws/starkjs"), &js);
    if let Some(b) = bits {
        for e in std::fs::read_dir(js.join(m.pil).parent().unwrap()).unwrap().flatten() {
            let p = e.path();
            if p.extension().is_some_and(|x| x == "pil") {
                let t = std::fs::read_to_string(&p).unwrap();
                std::fs::write(&p, t.replace("2**10", &format!("2**{b}"))).unwrap();
            }
        }
    }
    let f = js.join(m.pil);
    let pil = guard(|| compile_pil_from_path(f.to_str().unwrap()))?;
    std::fs::write(format!("{}.json", f.display()), serde_json::to_string(&pil).unwrap()).unwrap();
    Ok((d, pil))
}
/// runs the example's script; its output, and whether it reports success
fn node(m: &Machine, d: &Dir, args: &[String], env: &[(&str, String)]) -> Result<(String, bool), String> {
    let js = d.0.join("js");
    let mut c = Command::new("node");
    c.arg("-r").arg(root().join("mc/stubs/js/preload.js")).arg(js.join(m.script)).args(args).current_dir(&js).env_clear();
    c.env("PATH", "/usr/local/bin:/usr/bin:/bin").env("MC_TMP", &d.0).envs(env.iter().map(|(k, v)| (*k, v.as_str())));
    let o = c.output().map_err(|e| e.to_string())?;
    Ok((format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)), o.status.success()))
}
fn args(m: &Machine, d: &Dir, input: Option<usize>) -> Vec<String> {
    let mut out = vec![];
    for (i, a) in m.args.iter().enumerate() {
        out.push(match *a {
            "W" => d.f("work"),
            "PC" => d.f("own"),
            _ if i > 0 && m.args[i - 1] == "--i" && input.is_some() => input.unwrap().to_string(),
            a => a.to_string(),
        });
    }
    out
}
fn cols(p: &PolsArray) -> Cols {
    p.array.iter().map(|c| c.iter().map(|x| x.as_int()).collect()).collect()
}
/// the circuit and the trace that a run left in its files
fn load(cache: &str) -> Result<(PIL, Trace), String> {
    let pil = load_json::<PIL>(&format!("{cache}.pil.json")).map_err(|e| e.to_string())?;
    let rd = |kind, f: &str| {
        guard(|| {
            let mut p = PolsArray::new(&pil, kind);
            p.load(f).map_err(|e| format!("{f}: {e}"))?;
            Ok::<_, String>(cols(&p))
        })?
    };
    let (k, w) = (rd(PolKind::Constant, &format!("{cache}.const"))?, rd(PolKind::Commit, &format!("{cache}.cm"))?);
    let p = publics(&pil, &w);
    Ok((pil, Trace { w, k, p }))
}
/// the inputs handed to a machine of 2^bits rows, and whether they can be served
fn inputs(m: &Machine, bits: usize, mc: &Mc) -> Vec<(Value, bool)> {
    let s = |v: &[u64]| json!(v.iter().map(|x| x.to_string()).collect::<Vec<_>>());
    match m.name {
        "poseidon" => {
            let max = (1 << bits) / SLOT;
            let mut out = vec![];
            let one = |seed: u64, kind: u64| -> Vec<u64> {
                let x: Vec<u64> = (0..12)
                    .map(|i| match kind {
                        0 => 0,
                        1 => i,
                        2 => refs::P - 1,
                        3 => (i == seed % 12) as u64,
                        _ => mix(seed * 16 + i) % refs::P,
                    })
                    .collect();
                let h = bigf::gl_permute(&bigf::gl_constants(), &x.clone().try_into().unwrap());
                [&x[..], &h[..4]].concat()
            };
            let full = max > 4;
            for n in if full { vec![0, 1, max, max + 1] } else { (0..=max + 1).collect() } {
                for kind in 0..5 {
                    for seed in 0..if kind > 2 && !full { mc.pick(4, 12) as u64 } else { 1 } {
                        let v: Vec<Value> = (0..n as u64).map(|j| s(&one(seed + 7 * j, (kind + j) % 5))).collect();
                        out.push((json!(v), n <= max));
                    }
                }
            }
            // a result is asked for
            for k in 0..4u64 {
                let v = [&one(3, 4)[..], &[k]].concat();
                out.push((json!([s(&v)]), true));
            }
            // another hash than the right one
            for k in 0..4 {
                let mut v = one(5, 4);
                v[12 + k] = refs::add(v[12 + k], 1);
                out.push((json!([s(&v)]), false));
            }
            out
        }
        n if n.starts_with("fib") => {
            let v = [0u64, 1, 2, 77, (1 << 32) - 1, 1 << 63, refs::P - 1];
            v.iter().flat_map(|a| v.iter().map(move |b| (json!([a.to_string(), b.to_string()]), true))).collect()
        }
        _ => vec![],
    }
}

pub fn run(mc: &Mc) {
    quiet_all(true);
    mc.rule("every example at every size of the bound: its script run on its own inputs and on others, the trace it leaves judged against the compiled circuit and against what the machine is for; every single cell of it changed, every small trace; the prover on the full size; every step failing");
    let (jobs, changes, small, runs, proofs) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    MACHINES.par_iter().for_each(|m| {
        m.bits.par_iter().map(|b| Some(*b)).chain(rayon::iter::once(None)).for_each(|bits| {
            let key = format!("{}:{}", m.name, bits.map_or("full size".into(), |b| format!("2^{b} rows")));
            let r = one(mc, m, bits, &key, [&jobs, &changes, &small, &runs, &proofs]);
            mc.check(r.is_ok(), &key, || r.as_ref().unwrap_err().clone());
        });
    });
    let g = |a: &AtomicU64| a.load(Relaxed);
    mc.section("runs of the scripts", json!({"machines": MACHINES.len(), "inputs": g(&jobs), "whole runs with a failing step or none": g(&runs)}));
    mc.section("changed cells", json!({"traces": g(&changes)}));
    mc.section("small traces", json!({"traces": g(&small)}));
    mc.section("proofs", json!({"proofs": g(&proofs)}));
    let n = g(&jobs) + g(&changes) + g(&small) + g(&runs) + g(&proofs);
    mc.states(n);
    mc.transitions(g(&changes) + g(&small));
    mc.traces(g(&jobs) + g(&runs) + g(&proofs));
    mc.evals(n, n);
    mc.exhaustive(true);
    mc.assume("the circuit compiler is a stand-in over the real translation of what it analyzes; pilcom's columns, files and check are stand-ins");
    quiet_all(false);
}

fn one(mc: &Mc, m: &Machine, bits: Option<usize>, key: &str, [njobs, nchanges, nsmall, nruns, nproofs]: [&AtomicU64; 5]) -> Result<(), String> {
    let (d, compiled) = tree(m, bits)?;
    let rows = compiled.references.values().next().ok_or("no columns")?.polDeg;
    let k = rows.trailing_zeros() as usize;
    if bits.is_some_and(|b| b != k) {
        return Ok(()); // the file says its size in another way
    }
    let full = bits.is_none();
    // 1. the script, on its own input and on others
    let list = inputs(m, k, mc);
    let js: Vec<Value> = list.iter().enumerate().map(|(i, x)| json!({"cache": d.f(&format!("job{i}")), "input": x.0})).collect();
    std::fs::write(d.f("jobs.json"), serde_json::to_string(&js).unwrap()).unwrap();
    let (out, ok) = node(m, &d, &args(m, &d, None), &[("MC_JOBS", d.f("jobs.json")), ("MC_INDEX", d.f("js/index.js"))])?;
    let lines: Vec<Value> = out.lines().filter_map(|l| serde_json::from_str(l.strip_prefix("MC ")?).ok()).collect();
    if !ok || lines.len() != js.len() + 2 {
        return Err(format!("the script fails, {} of {} answers: {}", lines.len(), js.len() + 2, &out[out.len().saturating_sub(600)..]));
    }
    let cap = &lines[0];
    let names = |pil: &PIL| Names::of(pil);
    let mut own = None;
    for (i, l) in lines[1..].iter().enumerate() {
        njobs.fetch_add(1, Relaxed);
        let (cache, input, good) = if i == 0 { (cap["cache"].as_str().unwrap().to_string(), &cap["input"], true) } else { (d.f(&format!("job{}", i - 1)), &list[i - 1].0, list[i - 1].1) };
        let key = format!("{key}:input {input}").chars().take(300).collect::<String>();
        let r = (|| {
            if l["ok"] != true {
                return if good { Err(format!("no trace: {l}")) } else { Ok(None) };
            }
            let (pil, tr) = load(&cache)?;
            if serde_json::to_value(&pil).unwrap() != serde_json::to_value(&compiled).unwrap() {
                return Err("the circuit saved is not the one compiled".into());
            }
            let n = names(&pil);
            let s = sat(&pil, &tr, &(0..rows).collect::<Vec<_>>())?;
            if s != (m.right)(&n, &tr.w) {
                return Err(format!("satisfies the circuit: {s}, right: {}", !s));
            }
            if s != good {
                return Err(format!("the trace {} the circuit", if s { "satisfies" } else { "does not satisfy" }));
            }
            if !good {
                return Ok(None);
            }
            // the inputs are the ones given
            let arr = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap_or_else(|| x.as_str().unwrap().parse().unwrap()) % refs::P).collect::<Vec<u64>>();
            if m.name.starts_with("fib") {
                let x = arr(input);
                if n.get(&tr.w, "l2")[0] != x[0] || n.get(&tr.w, "l1")[0] != x[1] {
                    return Err("starts from other values".into());
                }
                if !own_input(m, i, &x) {
                    return Err(format!("the script's input is {x:?}"));
                }
            }
            if m.name == "poseidon" {
                for (j, x) in input.as_array().unwrap().iter().enumerate() {
                    let x = arr(x);
                    let at = |c: &str| n.get(&tr.w, c)[j * SLOT];
                    if STATE.iter().chain(&HASH).zip(&x).any(|(c, x)| at(c) != *x) {
                        return Err(format!("slot {j} hashes something else"));
                    }
                    if RESULT.iter().enumerate().any(|(k, c)| at(c) != (x.get(16) == Some(&(k as u64 + 1))) as u64) {
                        return Err(format!("the results of slot {j} are marked otherwise"));
                    }
                }
            }
            // the publics are the cells they stand for
            let p: HashMap<&str, (usize, usize)> = pil.publics.iter().map(|p| (p.name.as_str(), (p.polId, p.idx))).collect();
            for (name, c, row) in m.publics {
                let r = if *row < 0 { rows - (-*row) as usize } else { *row as usize };
                if p.get(name) != Some(&(n.0[*c], r)) {
                    return Err(format!("public {name} is {:?}", p.get(name)));
                }
            }
            Ok(Some((cache.clone(), pil, tr)))
        })();
        mc.check(r.is_ok(), &key, || r.as_ref().unwrap_err().clone());
        if i == 0 {
            own = r.ok().flatten();
        }
    }
    let Some((cache, pil, tr)) = own else { return Ok(()) };
    let n = names(&pil);
    if pil.nCommitments != m.cols {
        return Err(format!("{} columns", pil.nCommitments));
    }
    // 2. another value of a public than the cell's
    if m.tied {
        for i in 0..tr.p.len() {
            let mut t = Trace { w: tr.w.clone(), k: tr.k.clone(), p: tr.p.clone() };
            t.p[i] = refs::add(t.p[i], 1);
            mc.check(sat(&pil, &t, &(0..rows).collect::<Vec<_>>())? == false, &format!("{key}:public {i}"), || "another public value satisfies the circuit".into());
        }
    }
    // 3. every single cell changed (at the full size: a few)
    let pick: Vec<(usize, usize)> = (0..pil.nCommitments)
        .flat_map(|c| (0..rows).map(move |r| (c, r)))
        .filter(|(_, r)| !full || [0, 1, 2, rows / 2, rows - 2, rows - 1].contains(r))
        .collect();
    pick.par_iter().try_for_each(|(c, r)| {
        let old = tr.w[*c][*r];
        let bit = (m.name == "permutation" || m.name == "plookup") && n.0.iter().any(|(k, v)| v == c && k.starts_with("sel"));
        let vals = if bit { vec![1 - old] } else { vec![refs::add(old, 1), 0, 1, refs::P - 1, 55] };
        let mut t = Trace { w: tr.w.clone(), k: tr.k.clone(), p: vec![] };
        for v in vals {
            if v == old {
                continue;
            }
            t.w[*c][*r] = v;
            t.p = publics(&pil, &t.w);
            let at: Vec<usize> = if t.p == tr.p { vec![(*r + rows - 1) % rows, *r] } else { (0..rows).collect() };
            let (s, want) = (sat(&pil, &t, &at)?, (m.right)(&n, &t.w));
            nchanges.fetch_add(1, Relaxed);
            mc.check(s == want, &format!("{key}:column {c} row {r} := {v}"), || format!("the changed trace {} the circuit", if s { "satisfies" } else { "does not satisfy" }));
        }
        Ok::<(), String>(())
    })?;
    // 4. every small trace
    if k <= 2 && m.cols <= 6 {
        let cells = m.cols * rows;
        let dom: Vec<u64> = match (m.name, k) {
            ("permutation", 1) => (0..2).collect(),
            ("permutation", _) => vec![],
            (n, 1) if n.starts_with("fib") => vec![0, 1, 2, 4, 5, refs::P - 1],
            (n, _) if n.starts_with("fib") => vec![0, 1, 2],
            ("connection", 1) => (0..4).collect(),
            _ => (0..mc.pick(2, 2)).collect(),
        };
        let total = (dom.len() as u64).pow(cells as u32);
        (0..total).into_par_iter().try_for_each(|mut x| {
            let mut t = Trace { w: tr.w.clone(), k: tr.k.clone(), p: vec![] };
            for c in t.w.iter_mut() {
                for v in c.iter_mut() {
                    *v = dom[(x % dom.len() as u64) as usize];
                    x /= dom.len() as u64;
                }
            }
            t.p = publics(&pil, &t.w);
            let (s, want) = (sat(&pil, &t, &(0..rows).collect::<Vec<_>>())?, (m.right)(&n, &t.w));
            nsmall.fetch_add(1, Relaxed);
            mc.check(s == want, &format!("{key}:trace {:?}", t.w), || format!("the trace {} the circuit", if s { "satisfies" } else { "does not satisfy" }));
            Ok::<(), String>(())
        })?;
    }
    // 5. whole runs, every step failing
    for fault in ["", "compile", "save", "verify"] {
        for input in 0..if full && fault.is_empty() && m.args.contains(&"--i") { 4 } else { 1 } {
            nruns.fetch_add(1, Relaxed);
            let w = Dir(d.0.join(format!("run_{fault}_{input}")));
            std::fs::create_dir_all(&w.0).unwrap();
            let a: Vec<String> = args(m, &d, Some(input)).into_iter().map(|a| if a == d.f("own") { w.f("own") } else { a }).collect();
            let (out, ok) = node(m, &d, &a, &[("MC_FAULT", fault.to_string())])?;
            mc.check(ok == fault.is_empty(), &format!("{key}:run with input {input}, failing step {fault:?}"), || format!("reports success: {ok}: {}", &out[out.len().saturating_sub(400)..]));
        }
    }
    // 6. the prover, at the size and with the parameters of the script
    if full {
        let ss = d.f("ss.json");
        std::fs::write(&ss, cap["starkStruct"].to_string()).unwrap();
        let prove = |cm: &str| {
            nproofs.fetch_add(1, Relaxed);
            let o = Dir::new();
            let addr = "273030697313060285579891744179749754319274977764";
            guard(|| {
                starky::prove::stark_prove(&ss, &format!("{cache}.pil.json"), false, false, false, &format!("{cache}.const"), cm, &o.f("c"), &o.f("z"), addr)
                    .map_err(|e| e.to_string())
            })
            .and_then(|x| x)
        };
        let r = prove(&format!("{cache}.cm"));
        mc.check(r.is_ok(), &format!("{key}:proof"), || format!("no proof: {r:?}"));
        let bad: Vec<_> = pick.iter().filter(|(c, r)| mc.thorough() || *r == 1 && (*c == 0 || *c + 1 == m.cols)).collect();
        for (c, r) in bad {
            let mut w = tr.w.clone();
            w[*c][*r] = refs::add(w[*c][*r], 1);
            if (m.right)(&n, &w) {
                continue;
            }
            let f = d.f("changed.cm");
            let b: Vec<u8> = (0..rows).flat_map(|r| w.iter().flat_map(move |c| c[r].to_le_bytes()).collect::<Vec<u8>>()).collect();
            std::fs::write(&f, b).unwrap();
            let r2 = prove(&f);
            mc.check(r2.is_err(), &format!("{key}:proof with column {c} row {r} changed"), || "a proof of a wrong trace is reported".into());
        }
    }
    Ok(())
}
/// the inputs that the Fibonacci script offers
fn own_input(m: &Machine, i: usize, x: &[u64]) -> bool {
    i > 0 || x == if m.name == "fibonacci" { [1, 2] } else { [7, 8] }
}
