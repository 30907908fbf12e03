//! Every way of splitting small inputs among workers, every order of a few tasks, the usual orders
//! of many, every shape of combining results.
use crate::hashref::{inst, m, Curve, GlTree};
use crate::refs::*;
use crate::stark::*;
use fields::field_gl::Fr as FGL;
use mc_common::*;
use rayon::mc::{run as with_plan, Shape};
use serde_json::json;
use starky::f3g::F3G;
use starky::fft::FFT;
use starky::fft_p;
use starky::traits::{FieldExtension, MTNodeType, MerkleTree};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

/// runs f on every item, on all CPUs; what is explored in one item stays on one thread
pub fn par<T: Sync>(items: &[T], f: impl Fn(&T) + Sync) {
    let next = AtomicUsize::new(0);
    let work = || loop {
        let i = next.fetch_add(1, Relaxed);
        if i >= items.len() {
            break;
        }
        f(&items[i]);
    };
    let panicked = std::thread::scope(|s| {
        let hs: Vec<_> = (0..allowed_cpus().len().max(1)).map(|_| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, work).unwrap()).collect();
        hs.into_iter().filter_map(|h| h.join().err()).collect::<Vec<_>>().pop()
    });
    if let Some(e) = panicked {
        std::panic::resume_unwind(e);
    }
}

fn fgl(v: &[u64]) -> Vec<FGL> {
    v.iter().map(|x| FGL::from(*x)).collect()
}
pub fn f3(v: &[u64]) -> Vec<F3G> {
    v.iter().map(|x| F3G::from(FGL::from(*x))).collect()
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for i in 0..n {
        out = out.into_iter().flat_map(|p: Vec<usize>| (0..=p.len()).map(move |k| { let mut q = p.clone(); q.insert(k, i); q }).collect::<Vec<_>>()).collect();
    }
    out.into_iter().filter(|p| p.iter().enumerate().any(|(i, x)| i != *x)).collect()
}
/// the orders tried for a region of n tasks: all of them when there are few
pub fn orders(n: usize, all: usize) -> Vec<Vec<usize>> {
    if n <= all.max(3) {
        return perms(n);
    }
    let id: Vec<usize> = (0..n).collect();
    let mut v: Vec<Vec<usize>> = vec![id.iter().rev().copied().collect(), (0..n).step_by(2).chain((1..n).step_by(2)).collect(), (1..n).step_by(2).chain((0..n).step_by(2)).collect()];
    for k in [1, n / 2, n - 1] {
        let mut o = id.clone();
        o.rotate_left(k);
        v.push(o);
    }
    for k in [0, n / 2, n - 2] {
        let mut o = id.clone();
        o.swap(k, k + 1);
        v.push(o);
    }
    for k in [n / 3, n / 2] {
        let mut o = id.clone();
        let x = o.remove(k);
        o.insert(0, x);
        v.push(o);
    }
    v.dedup();
    v
}

#[derive(Default)]
pub struct Count {
    pub runs: AtomicU64,
    pub regions: AtomicU64,
}
/// the orders of one computation: each region in every order, all regions at once in the same
/// kind of order, every shape of combining
fn explore(mc: &Mc, c: &Count, key: &str, all: usize, want: Option<&str>, f: impl Fn() -> Result<String, String>) {
    let short = |r: &Result<String, String>| match r {
        Ok(s) => s.chars().take(200).collect::<String>(),
        Err(e) => format!("error: {e}"),
    };
    let (first, regions) = with_plan(Shape::Left, |_, _| None, &f);
    c.runs.fetch_add(1, Relaxed);
    c.regions.fetch_add(regions.len() as u64, Relaxed);
    if let Some(w) = want {
        if !mc.check(first.as_deref() == Ok(w), key, || format!("{} is not what it should be: {}", short(&first), w.chars().take(200).collect::<String>())) {
            return;
        }
    }
    let check = |what: &str, r: Result<String, String>| {
        c.runs.fetch_add(1, Relaxed);
        mc.check(r == first, key, || format!("{what}: {} / {}", short(&r), short(&first)))
    };
    for shape in [Shape::Right, Shape::Halves, Shape::Identities] {
        let (r, _) = with_plan(shape, |_, _| None, &f);
        if !check(&format!("results combined {shape:?}"), r) {
            return;
        }
    }
    for kind in 0..3 {
        let (r, _) = with_plan(Shape::Left, move |i, n| Some(match kind {
            0 => (0..n).rev().collect(),
            1 => (0..n).map(|j| (j + 1) % n).collect(),
            _ => {
                let o = orders(n, 3);
                o[i % o.len()].clone()
            }
        }), &f);
        if !check(["every region in reverse", "every region rotated", "every region in another order"][kind], r) {
            return;
        }
    }
    for (i, n) in regions.iter().enumerate() {
        for o in orders(*n, all) {
            let o2 = o.clone();
            let (r, _) = with_plan(Shape::Left, move |k, m| (k == i && m == o2.len()).then(|| o2.clone()), &f);
            if !check(&format!("region {i} in order {:?}", &o[..o.len().min(12)]), r) {
                return;
            }
        }
    }
}

/// root and every opening of a tree
fn tree<M: MerkleTree>(rows: &[Vec<u64>], w: usize, show: impl Fn(&M::BaseField) -> String) -> Result<String, String>
where
    M::MTNode: MTNodeType,
{
    guard(|| {
        let mut t = M::new();
        t.merkelize(fgl(&rows.concat()), w, rows.len()).map_err(|e| e.to_string())?;
        let mut s: String = M::to_basefield(&t.root()).iter().map(&show).collect::<Vec<_>>().join(" ");
        for i in 0..rows.len() {
            let (v, p) = t.get_group_proof(i).map_err(|e| e.to_string())?;
            s += &format!("|{:?}", v.iter().map(|x| x.as_int()).collect::<Vec<_>>());
            for l in p {
                s += &l.iter().map(&show).collect::<Vec<_>>().join(",");
                s += ";";
            }
        }
        Ok(s)
    })
    .and_then(|x| x)
}
fn trees(mc: &Mc, c: &Count) {
    let mut cells = vec![];
    for h in (1..=mc.pick(40usize, 100)).chain([129, 200]) {
        for w in [1usize, 2, 3, 5, 8, 9, 17, 33, 100] {
            for cpus in mc.pick(vec![1usize, 2, 3, 4, 5, 8, 17], (1..=24).collect()) {
                if h <= mc.pick(14, 30) || (h + w + cpus) % 5 == 0 || h >= 30 && w <= 2 {
                    cells.push((h, w, cpus, 0));
                }
                if h <= 24 && w <= 5 && (h + w + cpus) % 3 == 0 || h > 24 && w == 1 && cpus % 2 == 0 {
                    cells.push((h, w, cpus, 1));
                    cells.push((h, w, cpus, 2));
                }
            }
        }
    }
    par(&cells, |&(h, w, cpus, kind)| {
        num_cpus::set(cpus);
        let rows: Vec<Vec<u64>> = (0..h).map(|i| (0..w).map(|j| m((i * 1000 + j) as u64)).collect()).collect();
        let key = format!("{} tree {w} x {h}, {cpus} cpus", ["GL", "BN128", "BLS12381"][kind]);
        // all the paths are those of the reference tree
        match kind {
            0 => {
                let t = GlTree::new(&rows);
                let want = rows.iter().enumerate().fold(format!("{}", t.root()[0]), |s, (i, r)| {
                    let p: String = t.path(i).iter().map(|n| n.map(|x| x.to_string()).join(",") + ";").collect();
                    s + &format!("|{r:?}{p}")
                });
                explore(mc, c, &key, mc.pick(3, 4), Some(&want), || tree::<starky::merklehash::MerkleTreeGL>(&rows, w, |x| x.as_int().to_string()));
            }
            k => {
                let ins = inst(if k == 1 { Curve::Bn } else { Curve::Bls });
                let lev = ins.tree(&rows);
                let s4 = |u: &crate::bigf::U4| format!("{u:?}");
                let want = rows.iter().enumerate().fold(s4(&lev.last().unwrap()[0]), |s, (i, r)| {
                    let p: String = (0..lev.len() - 1).map(|l| { let a = (i >> (4 * l)) & !15; lev[l][a..a + 16].iter().map(s4).collect::<Vec<_>>().join(",") + ";" }).collect();
                    s + &format!("|{r:?}{p}")
                });
                if k == 1 {
                    explore(mc, c, &key, 3, Some(&want), || tree::<starky::merklehash_bn128::MerkleTreeBN128>(&rows, w, |x| s4(&crate::p04_poseidon::unbn(x))));
                } else {
                    explore(mc, c, &key, 3, Some(&want), || tree::<starky::merklehash_bls12381::MerkleTreeBLS12381>(&rows, w, |x| s4(&crate::p04_poseidon::unbl(x))));
                }
            }
        }
    });
}

fn transforms(mc: &Mc, c: &Count) {
    let mut cells = vec![];
    for k in 1..=mc.pick(6usize, 8) {
        for np in [1usize, 2, 3, 5, 8, 11, 13, 24] {
            for e in 0..=mc.pick(2usize, 3) {
                for cpus in mc.pick(vec![1usize, 2, 3, 4, 6, 9], (1..=20).collect()) {
                    if k * np <= mc.pick(50, 120) {
                        cells.push((k, np, e, cpus));
                    }
                }
            }
        }
    }
    // sizes that are transformed in several blocks
    for (k, np, e) in mc.pick(vec![(13, 1, 0), (12, 2, 1), (13, 3, 1)], vec![(13, 1, 0), (12, 2, 1), (13, 3, 1), (14, 1, 1), (14, 2, 0), (15, 1, 1)]) {
        for cpus in [1, 2, 9] {
            cells.push((k, np, e, cpus));
        }
    }
    cells.reverse();
    par(&cells, |&(k, np, e, cpus)| {
        num_cpus::set(cpus);
        let n = 1usize << k;
        let cols: Vec<Vec<u64>> = (0..np).map(|j| (0..n).map(|i| m((j * 100_003 + i) as u64)).collect()).collect();
        let src: Vec<F3G> = f3(&(0..n).flat_map(|i| cols.iter().map(move |c| c[i])).collect::<Vec<_>>());
        let show = |out: &[Vec<u64>]| -> String {
            let mut h = 0u64;
            let mut s = String::new();
            for i in 0..out[0].len() {
                for c in out {
                    h = mix(h ^ c[i]);
                    if out[0].len() * out.len() <= 64 {
                        s += &format!("{} ", c[i]);
                    }
                }
            }
            format!("{h:x} {s}")
        };
        let got = |b: &[F3G], np: usize| -> Vec<Vec<u64>> { (0..np).map(|j| (0..b.len() / np).map(|i| b[i * np + j].to_be().as_int()).collect()).collect() };
        let all = if k > 8 { 0 } else { mc.pick(3, 4) };
        let key = |f: &str| format!("{f} of {np} columns of 2^{k} (+{e}), {cpus} cpus");
        if e == 0 || k > 8 {
            let want = show(&cols.iter().map(|c| ref_fft(c, k)).collect::<Vec<_>>());
            explore(mc, c, &key("fft"), all, Some(&want), || guard(|| {
                let mut d = vec![F3G::ZERO; n * np];
                fft_p::fft(&src, np, k, &mut d);
                show(&got(&d, np))
            }));
            let want = show(&cols.iter().map(|c| ref_ifft(c, k)).collect::<Vec<_>>());
            explore(mc, c, &key("ifft"), all, Some(&want), || guard(|| {
                let mut d = vec![F3G::ZERO; n * np];
                fft_p::ifft(&src, np, k, &mut d);
                show(&got(&d, np))
            }));
        }
        let want = show(&cols.iter().map(|c| ref_ext(c, k + e)).collect::<Vec<_>>());
        explore(mc, c, &key("interpolate"), all, Some(&want), || guard(|| {
            let mut d = vec![F3G::ZERO; np << (k + e)];
            fft_p::interpolate(&src, np, k, &mut d, k + e);
            show(&got(&d, np))
        }));
        if np == 1 {
            let want = show(&[ref_ifft(&cols[0], k)]);
            explore(mc, c, &key("FFT::ifft"), all, Some(&want), || guard(|| show(&got(&FFT::new().ifft(&src), 1))));
        }
    });
}

fn provers(mc: &Mc, c: &Count) {
    let mut cells = vec![];
    for (b, e) in mc.pick(vec![(3usize, 2usize), (5, 1)], vec![(2, 2), (3, 2), (4, 2), (5, 1), (5, 3), (6, 2), (7, 1)]) {
        for (i, a) in airs(b).into_iter().enumerate() {
            if fits(&a, e) && (mc.thorough() || b == 3 || i % 4 == 1) {
                cells.push((a, Par::new(b, e, 2, &[b + e - 2]), 0));
            }
        }
    }
    for h in [1, 2] {
        cells.push((rich(3), Par::new(3, 2, 2, &[3]), h));
        if mc.thorough() {
            cells.extend(airs(4).into_iter().filter(|a| fits(a, 2)).map(|a| (a, Par::new(4, 2, 2, &[3]), h)));
        }
    }
    let deep = mc.pick(4, cells.len());
    let cells: Vec<_> = cells.into_iter().enumerate().collect();
    par(&cells, |(i, (a, p, h))| {
        match h {
            0 => prover::<Gl>(mc, c, a, p, *i % (cells.len() / deep) == 0),
            1 => prover::<Bn>(mc, c, a, p, false),
            _ => prover::<Bls>(mc, c, a, p, false),
        }
    });
}
fn prover<K: Kind>(mc: &Mc, c: &Count, a: &crate::air::Air, p: &Par, deep: bool) {
    let key = format!("{} {} {}", a.name, p.show(), K::NAME);
    let mut first: Option<String> = None;
    for cpus in mc.pick(vec![2usize, 1, 3, 4, 6, 9, 13, 17], (1..=40).collect()) {
        // starky's tasks have at least 2^12 rows, far more than the rows a task needs of the next
        // one: here too every task, the last included, has as many rows as it needs of the next
        let n = 1usize << (p.bits + p.ext);
        let size = ((n - 1) / std::cmp::max(cpus - 1, 1) + 1).clamp(2, 64);
        let least = if n % size == 0 { size } else { n % size };
        if least < 1 << p.ext && size < n {
            continue;
        }
        num_cpus::set(cpus);
        let f = || {
            let i = Inst::<K>::new(a, p)?;
            let q = i.prove(a)?;
            if i.verify(&q)? {
                Ok(Inst::<K>::json(&q).to_string())
            } else {
                Err("the proof is refused".to_string())
            }
        };
        let r = f();
        c.runs.fetch_add(1, Relaxed);
        if !mc.check(r.is_ok(), &key, || format!("{cpus} cpus: {r:?}")) {
            return;
        }
        match &first {
            None => first = r.ok(),
            Some(w) => {
                if !mc.check(r.as_ref() == Ok(w), &key, || format!("with {cpus} cpus another proof than with 2")) {
                    return;
                }
            }
        }
        if deep && (cpus == 6 || cpus == 2 && mc.thorough()) {
            explore(mc, c, &format!("{key} {cpus} cpus"), mc.pick(2, 3), first.as_deref(), f);
        } else if deep || cpus == 4 {
            for kind in 0..2 {
                let (r, _) = with_plan(Shape::Identities, move |_, n| Some(if kind == 0 { (0..n).rev().collect() } else { (0..n).map(|j| (j + n / 2) % n).collect() }), f);
                c.runs.fetch_add(1, Relaxed);
                mc.check(r.as_ref() == first.as_ref().ok_or(&String::new()), &key, || format!("{cpus} cpus, every region {}: another proof", ["in reverse", "rotated"][kind]));
            }
        }
    }
}

pub fn run(mc: &Mc) {
    mc.rule("computations x number of workers x orders of the tasks of each parallel region (all orders of few tasks, eleven orders of many) x shapes of combining results; all interleavings of concurrent calls at their locks within a preemption bound; each run is compared with the reference result, or with the proof made by one worker");
    let mut last = (0, 0);
    let c = Count::default();
    let mut sec = |name: &str| {
        let (r, g) = (c.runs.load(Relaxed), c.regions.load(Relaxed));
        let d = r - last.0;
        mc.states(d);
        mc.transitions(g - last.1);
        mc.traces(d);
        mc.evals(d, d);
        mc.section(name, json!({"executions": d, "parallel regions": g - last.1}));
        last = (r, g);
    };
    std::thread::scope(|s| {
        s.spawn(|| inst(Curve::Bn));
        s.spawn(|| inst(Curve::Bls));
    });
    trees(mc, &c);
    sec("trees");
    transforms(mc, &c);
    sec("transforms");
    provers(mc, &c);
    sec("proofs");
    mc.sample(json!({"computation": "GL tree of 17 columns x 23 rows with 4 CPUs", "order": "hash task 2 of 3 first"}));
    mc.assume("a task between two lock or atomic operations is one step: tasks share no unsynchronised memory (safe Rust enforces it; the unsafe impls of Sync are on types without interior mutability)");
}
