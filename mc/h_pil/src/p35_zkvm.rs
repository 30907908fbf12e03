//! P35: the zkVM's chunks: what is executed, proved, and written for each of them.
use crate::p34_export::{Kind, Op, Src, St, X};
use crate::refs::P;
use mc_common::*;
use powdr::number::{FieldElement, GoldilocksField as F};
use powdr::world::{self, Machine, World};
use rayon::prelude::*;
use recursion::pilcom::export;
use serde_json::json;
use starky::merklehash::MerkleTreeGL;
use starky::pil2circom::{pil2circom, StarkOption};
use starky::polsarray::{PolKind, PolsArray};
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::stark_verify::stark_verify;
use starky::transcript::TranscriptGL;
use starky::types::StarkStruct;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use zkvm::{zkvm_execute_and_prove, zkvm_generate_chunks, zkvm_prove_only};

/// the parameters with which powdr's backend proves a machine of so many rows
fn params(size: u64) -> StarkStruct {
    let n = size.trailing_zeros() as usize;
    let mut steps = vec![];
    let mut b = n + 1;
    while b >= 2 {
        steps.push(json!({ "nBits": b }));
        if b < 6 {
            break;
        }
        b -= 4;
    }
    serde_json::from_value(json!({"nBits": n, "nBitsExt": n + 1, "nQueries": 2, "verificationHashType": "GL", "steps": steps})).unwrap()
}
/// a machine with its key, a proof and the verifier that belongs to them
struct Made {
    machine: Machine,
    circom: String,
}
fn made(bits: usize, shape: usize) -> Made {
    let n = 1usize << bits;
    let mut s = Src { bits, ..Default::default() };
    let col = |s, n| X::Col(s, 0, n);
    let mut def = |name: &str, kind| {
        s.syms.push(crate::p34_export::Sym { name: name.into(), kind, len: None, val: vec![] });
        s.sts.push((St::Def(s.syms.len() - 1), Default::default()));
        s.syms.len() - 1
    };
    let l1 = def("Global.L1", Kind::K);
    let last = def("main.LAST", Kind::K);
    let a = def("main.a", Kind::Cm);
    let b = def("main.b", Kind::Cm);
    let bin = |o, x: X, y: X| X::Bin(o, Box::new(x), Box::new(y));
    let step = if shape % 2 == 0 { bin(Op::Add, col(a, false), X::N(3)) } else { bin(Op::Mul, col(a, false), X::N(5)) };
    let mut sts = vec![St::Id(bin(Op::Mul, bin(Op::Sub, X::N(1), col(last, false)), bin(Op::Sub, col(a, true), step)))];
    if shape >= 2 {
        sts.push(St::Pub(a, None, n as u64 - 1));
        sts.push(St::Id(bin(Op::Mul, col(last, false), bin(Op::Sub, col(a, false), X::Pub(0)))));
    }
    if shape == 3 {
        sts.push(St::Lk(true, None, vec![col(a, false)], None, vec![col(b, false)]));
    }
    s.sts.extend(sts.into_iter().map(|t| (t, Default::default())));
    let pil = export(&s.analyzed());
    let ss = params(n as u64);
    let mut k = PolsArray::new(&pil, PolKind::Constant);
    let unit = |at: usize| (0..n).map(|r| (r == at) as u64).collect::<Vec<_>>();
    crate::stark::fill(&mut k, &[unit(0), unit(n - 1)]);
    let mut av = vec![7u64];
    for i in 1..n {
        av.push(if shape % 2 == 0 { av[i - 1] + 3 } else { crate::refs::mul(av[i - 1], 5) });
    }
    let mut bv = av.clone();
    bv.reverse();
    let mut w = PolsArray::new(&pil, PolKind::Commit);
    crate::stark::fill(&mut w, &[av, bv]);
    let mut p = pil.clone();
    let setup = StarkSetup::<MerkleTreeGL>::new(&k, &mut p, &ss, None).unwrap();
    let proof = StarkProof::<MerkleTreeGL>::stark_gen::<TranscriptGL>(w, k, &setup.const_tree, &setup.starkinfo, &setup.program, &p, &ss, "273030697313060285579891744179749754319274977764").unwrap();
    // the model's parameters are those under which the proof verifies
    assert!(stark_verify::<MerkleTreeGL, TranscriptGL>(&proof, &setup.const_root, &setup.starkinfo, &ss, &setup.program).unwrap());
    let vk = serde_json::to_vec(&setup).unwrap();
    let mut again: StarkSetup<MerkleTreeGL> = serde_json::from_slice(&vk).unwrap();
    let opt = StarkOption { enable_input: false, verkey_input: false, skip_main: true, agg_stage: false };
    let circom = pil2circom(&pil, &again.const_root, &ss, &mut again.starkinfo, &mut again.program, &opt).unwrap();
    let _ = l1;
    Made {
        machine: Machine { name: String::new(), size: n as u64, pil: s.analyzed(), vk: Some(vk), proof: serde_json::to_vec(&proof).unwrap() },
        circom,
    }
}

static COUNT: AtomicUsize = AtomicUsize::new(0);
struct Dir(PathBuf);
impl Dir {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("mc-p35-{}/{}", std::process::id(), COUNT.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn s(&self) -> &str {
        self.0.to_str().unwrap()
    }
    fn files(&self) -> BTreeMap<String, Vec<u8>> {
        std::fs::read_dir(&self.0)
            .unwrap()
            .map(|e| e.unwrap())
            .filter(|e| e.file_type().unwrap().is_file())
            .map(|e| (e.file_name().into_string().unwrap(), std::fs::read(e.path()).unwrap()))
            .collect()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// one call for one chunk
#[derive(Clone)]
struct Chunk<'a> {
    task: &'a str,
    json: String,
    values: Vec<u64>,
    start: u64,
    i: usize,
    step: usize,
}
const ASM: &str = "assembly of the task\n";
fn show(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn columns(step: usize) -> Vec<(String, Vec<usize>)> {
    vec![("main.STEPS".into(), vec![64]), ("main.a".into(), vec![2]), ("main.STEP".into(), vec![step]), ("x.STEP".into(), vec![128])]
}
impl Chunk<'_> {
    fn call(&self, d: &Dir) -> Result<Vec<usize>, String> {
        let v = self.values.iter().map(|v| F::from(*v)).collect();
        guard(|| zkvm_prove_only(self.task, &self.json, v, self.start, self.i, d.s()).map_err(|e| e.to_string()))?
    }
    fn state(&self) -> String {
        let jump: Vec<u64> = (0..self.step as u64).map(|r| (r + 1 == self.start) as u64).collect();
        let ext = [
            format!("main.jump_to_shutdown_routine=[{}]", show(&jump)),
            format!("main_bootloader_inputs.value=[{}]", show(&self.values)),
        ];
        format!("asm={ASM} inputs=[] data={:?} external={ext:?}", [(1, format!("{:?}", self.json))])
    }
}
fn names(n: usize) -> Vec<String> {
    // not in the order of the machines
    ["main", "main_binary", "b::x", "a_last"][..n].iter().map(|s| s.to_string()).collect()
}
fn machines(cat: &[Made], list: &[usize], novk: usize) -> Vec<Machine> {
    list.iter()
        .zip(names(list.len()))
        .enumerate()
        .map(|(i, (m, name))| Machine { name, vk: if novk >> i & 1 == 1 { None } else { cat[*m].machine.vk.clone() }, ..cat[*m].machine.clone() })
        .collect()
}

pub fn run(mc: &Mc) {
    mc.rule("every call within the bounds, and every step of it failing in turn; non-trivial are the calls that reach the witness");
    mc.assume("powdr (compiler, executor, backend) is replaced by a stand-in that records what each step is given; the machines' keys and proofs are made by the real prover with the parameters that powdr's backend derives from a machine's size");
    let sizes: &[usize] = if mc.thorough() { &[1, 2, 3, 4, 5, 6, 9] } else { &[2, 3, 4, 6] };
    let cat: Vec<Made> = (0..4 * sizes.len()).into_par_iter().map(|i| made(sizes[i / 4], i % 4)).collect();
    // 1. machines of every size next to one another, and every length of the main machine
    let mut lists: Vec<Vec<usize>> = (0..cat.len()).map(|i| vec![i]).collect();
    for i in 0..cat.len() {
        for j in 0..cat.len() {
            if mc.thorough() || (i * 7 + j) % 4 == 0 {
                lists.push(vec![i, j]);
            }
        }
    }
    for i in 0..sizes.len() {
        for j in 0..sizes.len() {
            for k in 0..sizes.len() {
                lists.push(vec![4 * i + j % 4, 4 * j + (i + k) % 4, 4 * k + 1]);
            }
        }
    }
    lists.push((0..4).map(|i| 4 * (i % sizes.len()) + 3 - i).collect());
    lists.push(vec![]);
    let cases: Vec<(Vec<usize>, usize, usize)> = lists
        .iter()
        .enumerate()
        .flat_map(|(n, l)| (0..1usize << l.len()).filter(move |v| v.count_ones() < 2).map(move |v| (l.clone(), v, 1usize << sizes[(n + v) % sizes.len()])))
        .collect();
    cases.par_iter().enumerate().for_each(|(n, (l, novk, step))| {
        let d = Dir::new();
        let c = Chunk {
            task: ["lr", "evm", "x-1"][n % 3],
            json: ["", "{\"a\": [1]}", "\u{fc}\n\"'"][n / 3 % 3].into(),
            values: vec![],
            start: 1 + n as u64 % 5,
            i: [0, 1, 7, 12][n % 4],
            step: *step,
        };
        std::fs::write(d.0.join(format!("{}.asm", c.task)), ASM).unwrap();
        world::set(World { machines: machines(&cat, l, *novk), columns: columns(*step), ..Default::default() });
        let r = c.call(&d);
        let w = world::get();
        let mut files = BTreeMap::from([(format!("{}.asm", c.task), ASM.as_bytes().to_vec())]);
        let mut ids = vec![];
        for (i, m) in l.iter().enumerate() {
            if novk >> i & 1 == 0 {
                ids.push(i);
                files.insert(format!("{}_chunk_{}_submachine_{i}.json", c.task, c.i), cat[*m].machine.proof.clone());
                files.insert(format!("{}_chunk_{}_submachine_{i}.circom", c.task, c.i), cat[*m].circom.clone().into_bytes());
            }
        }
        mc.states(1);
        mc.traces(1);
        mc.transitions(w.log.len() as u64);
        mc.evals(1, 1);
        let what = || format!("machines of {:?} rows (no key: {novk:b}), main.STEP of {step}", l.iter().map(|m| cat[*m].machine.size).collect::<Vec<_>>());
        mc.check(r.as_ref() == Ok(&ids), "zkvm:machines", || format!("{}: {r:?}", what()));
        let got = d.files();
        let diff: Vec<&String> = files.keys().chain(got.keys()).filter(|k| files.get(*k) != got.get(*k)).collect();
        mc.check(diff.is_empty(), "zkvm:machines", || format!("{}: {diff:?}", what()));
    });
    mc.section("machines", json!({"sizes": sizes.iter().map(|b| 1 << b).collect::<Vec<u64>>(), "lists": lists.len(), "calls": cases.len()}));
    // 2. what the witness and the proof are computed from
    let vals = [0u64, 1, 2, 1 << 32, P - 1];
    let mut lists: Vec<Vec<u64>> = vec![vec![]];
    for n in 1..=mc.pick(2, 3) {
        lists.extend((0..5usize.pow(n)).map(|x| (0..n).map(|j| vals[x / 5usize.pow(j) % 5]).collect()));
    }
    lists.push((0..40).map(|i| mix(i) % P).collect());
    let mut cases = vec![];
    for step in [2usize, 4, 8, 16] {
        for start in 1..=step as u64 + 2 {
            for (n, v) in lists.iter().enumerate() {
                if mc.thorough() || (n + start as usize) % 3 == 0 {
                    cases.push(Chunk { task: ["lr", "e.v"][n % 2], json: ["x", "[1,2]", "\"q\""][n % 3].repeat(n % 4), values: v.clone(), start, i: n % 11, step });
                }
            }
        }
    }
    cases.par_iter().for_each(|c| {
        let d = Dir::new();
        std::fs::write(d.0.join(format!("{}.asm", c.task)), ASM).unwrap();
        world::set(World { machines: machines(&cat, &[1], 1), columns: columns(c.step), ..Default::default() });
        let r = c.call(&d);
        let log = world::get().log;
        mc.states(1);
        mc.traces(1);
        mc.transitions(log.len() as u64);
        mc.evals(1, 1);
        let end = format!("{} dir={} true overwrite=true", c.state(), d.0.join(format!("{}_chunk_{}", c.task, c.i)).display());
        let of = |name: &str| log.iter().filter(|l| l.starts_with(name)).cloned().collect::<Vec<_>>();
        let what = || format!("{} {:?} {} {} {}", c.task, c.values, c.start, c.i, c.step);
        mc.check(r == Ok(vec![]), "zkvm:inputs", || format!("{}: {r:?}", what()));
        mc.check(of("witness ") == [format!("witness {end}")], "zkvm:inputs", || format!("{}: {:?}", what(), of("witness ")));
        let b = "(EStarkStarkyComposite, Some(\"stark_gl\"))";
        mc.check(of("proof ") == [format!("proof {b} {end}")], "zkvm:inputs", || format!("{}: {:?}", what(), of("proof ")));
        mc.check(of("key ").iter().all(|k| *k == format!("key {b}")), "zkvm:inputs", || format!("{:?}", of("key ")));
    });
    mc.section("inputs", json!({"calls": cases.len()}));
    mc.sample(json!({"chunk": cases[cases.len() / 2].values, "shutdown": cases[cases.len() / 2].start}));
    // 3. failures of a chunk
    let base = World { machines: machines(&cat, &[2, 5, 11], 0), columns: columns(8), ..Default::default() };
    let c = Chunk { task: "lr", json: "{}".into(), values: vec![1, 2], start: 3, i: 2, step: 8 };
    type Spoil<'a> = Box<dyn Fn(&mut World, &Path) + Sync + 'a>;
    let mut bad: Vec<(String, Spoil)> = vec![("no assembly".into(), Box::new(|_, d| std::fs::remove_file(d.join("lr.asm")).unwrap()))];
    for f in ["fixed", "pil", "witness", "proof", "key", "split", "proof bytes", "key bytes"] {
        bad.push((f.into(), Box::new(move |w, _| w.fault = Some((f.into(), 0)))));
    }
    for m in 0..3 {
        let vk = base.machines[m].vk.clone().unwrap();
        for at in [0, 1, vk.len() / 2, vk.len() - 1] {
            let vk = vk.clone();
            bad.push((format!("key {m} cut at {at}"), Box::new(move |w, _| w.machines[m].vk = Some(vk[..at].to_vec()))));
        }
        for ext in ["json", "circom"] {
            bad.push((format!("{ext} {m} unwritable"), Box::new(move |_, d| std::fs::create_dir(d.join(format!("lr_chunk_2_submachine_{m}.{ext}"))).unwrap())));
            bad.push((format!("{ext} {m} full"), Box::new(move |_, d| std::os::unix::fs::symlink("/dev/full", d.join(format!("lr_chunk_2_submachine_{m}.{ext}"))).unwrap())));
        }
    }
    bad.push(("no folder".into(), Box::new(|_, d| std::fs::write(d.join("lr_chunk_2"), "x").unwrap())));
    bad.push(("no main.STEP".into(), Box::new(|w, _| w.columns.retain(|c| c.0 != "main.STEP"))));
    bad.push(("several sizes".into(), Box::new(|w, _| w.columns[2].1 = vec![8, 16])));
    bad.par_iter().for_each(|(name, f)| {
        let d = Dir::new();
        std::fs::write(d.0.join("lr.asm"), ASM).unwrap();
        let mut w = base.clone();
        f(&mut w, &d.0);
        world::set(w);
        let r = c.call(&d);
        mc.states(1);
        mc.traces(1);
        mc.transitions(world::get().log.len() as u64);
        mc.check(r.is_err(), "zkvm:failures", || format!("{name}: {r:?}"));
    });
    let n_bad = bad.len();
    // 4. the chunks of a run, and running and proving in one go
    let chunk = |n: usize| -> Vec<(Vec<u64>, u64)> { (0..n as u64).map(|i| ((0..i * 2 % 5).map(|j| mix(i * 8 + j) % P).collect(), i * 3 + 1)).collect() };
    let mut calls = 0;
    for ws in ["program/lr", "/x/evm", "p"] {
        for json in ["", "{\"b\": 2}"] {
            for n in 0..=mc.pick(4, 8) {
                for fault in [None, Some("compile"), Some("fixed"), Some("dry-run")] {
                    let d = Dir::new();
                    world::set(World { columns: columns(8), chunks: chunk(n), fault: fault.map(|f| (f.into(), 0)), ..Default::default() });
                    let r = guard(|| zkvm_generate_chunks(ws, &json.to_string(), d.s()).map_err(|e| e.to_string())).and_then(|r| r);
                    let log = world::get().log;
                    mc.states(1);
                    mc.traces(1);
                    mc.transitions(log.len() as u64);
                    calls += 1;
                    let how = format!("{ws} overwrite=true base+poseidon elf=false bootloader=true");
                    if fault.is_some() {
                        mc.check(r.is_err(), "zkvm:chunks", || format!("{fault:?}: {r:?}"));
                        continue;
                    }
                    let got = r.as_ref().map(|v| v.iter().map(|(v, s)| (v.iter().map(|x| x.to_degree()).collect::<Vec<_>>(), *s)).collect::<Vec<_>>());
                    mc.check(got == Ok(chunk(n)), "zkvm:chunks", || format!("{r:?}"));
                    mc.check(log.iter().filter(|l| l.starts_with("compile ")).eq([&format!("compile {how}")]), "zkvm:chunks", || format!("{log:?}"));
                    let run = format!("dry-run asm=asm of {how} inputs=[] data={:?} external=[]", [(1, format!("{json:?}"))]);
                    mc.check(log.iter().filter(|l| l.starts_with("dry-run ")).eq([&run]), "zkvm:chunks", || format!("{log:?}, not {run}"));
                }
            }
        }
    }
    for task in ["lr", "evm"] {
        for json in ["", "[3]"] {
            for n in 0..=mc.pick(3, 6) {
                let mut faults = vec![None];
                faults.extend(["compile", "dry-run"].map(|f| Some((f.to_string(), 0))));
                faults.extend(["witness", "proof", "chunk"].iter().flat_map(|f| (0..n).map(move |i| Some((f.to_string(), i)))));
                for fault in faults {
                    let d = Dir::new();
                    world::set(World { columns: columns(8), chunks: chunk(n), fault: fault.clone(), machines: machines(&cat, &[0], 0), ..Default::default() });
                    let r = guard(|| zkvm_execute_and_prove(task, json.into(), d.s()).map_err(|e| e.to_string())).and_then(|r| r);
                    let log = world::get().log;
                    mc.states(1);
                    mc.traces(1);
                    mc.transitions(log.len() as u64);
                    calls += 1;
                    if fault.is_some() {
                        mc.check(r.is_err(), "zkvm:run", || format!("{fault:?}: {r:?}"));
                        continue;
                    }
                    let how = format!("program/{task} overwrite=true base+poseidon elf=false bootloader=true");
                    let state = |e: &[String]| format!("asm=asm of {how} inputs=[] data={:?} external={e:?}", [(1, format!("{json:?}"))]);
                    let want: Vec<String> = chunk(n)
                        .iter()
                        .enumerate()
                        .flat_map(|(i, (v, s))| {
                            let e = state(&[format!("chunk=[{i},{s}]"), format!("values=[{}]", show(v))]);
                            let dir = format!("dir={} true overwrite=true", d.s());
                            [format!("witness {e} {dir}"), format!("proof (EStarkStarkyComposite, Some(\"stark_gl\")) {e} {dir}")]
                        })
                        .collect();
                    let got: Vec<String> = log.into_iter().filter(|l| l.starts_with("witness ") || l.starts_with("proof ")).collect();
                    mc.check(r.is_ok() && got == want, "zkvm:run", || format!("{r:?} {got:?}, not {want:?}"));
                }
            }
        }
    }
    mc.section("runs", json!({"calls": calls, "failures of a chunk": n_bad}));
    mc.exhaustive(true);
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("mc-p35-{}", std::process::id())));
}
