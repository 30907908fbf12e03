//! Completeness: every satisfying trace yields a proof that verifies, also after a JSON round trip.
use crate::air::*;
use crate::stark::*;
use mc_common::*;
use rayon::prelude::*;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn one<K: Kind>(mc: &Mc, a: &Air, par: &Par) -> bool {
    let key = format!("{}:{}:{}", K::NAME, a.name, par.show());
    if let Err(e) = a.valid() {
        panic!("the circuit builder is wrong: {} {e}", a.name);
    }
    let i = match Inst::<K>::new(a, par) {
        Ok(i) => {
            if !fits(a, par.ext - par.bits) {
                return mc.check(false, &key, || "setup takes a circuit of too high a degree".into());
            }
            i
        }
        Err(e) if !fits(a, par.ext - par.bits) => {
            return mc.check(!e.contains("panicked"), &key, || format!("a circuit of too high a degree: {e}"))
        }
        Err(e) => return mc.check(false, &key, || format!("setup of a valid circuit failed: {e}")),
    };
    let p = match i.prove(a) {
        Ok(p) => p,
        Err(e) => return mc.check(false, &key, || format!("no proof for a satisfying trace: {e}")),
    };
    let want = a.publics();
    let got: Vec<u64> = p.publics.iter().map(|x| x.to_be().as_int()).collect();
    let mut ok = mc.check(got == want, &key, || format!("publics {got:?}, the trace has {want:?}"));
    let v = i.verify(&p);
    ok &= mc.check(v == Ok(true), &key, || format!("the proof of a satisfying trace is not accepted: {v:?}"));
    let j = Inst::<K>::json(&p);
    match Inst::<K>::unjson(&j) {
        Ok(p2) => {
            let v = i.verify(&p2);
            ok &= mc.check(v == Ok(true), &key, || format!("the proof read back from JSON is not accepted: {v:?}"));
            ok &= mc.check(Inst::<K>::json(&p2) == j, &key, || "JSON round trip changes the proof".into());
        }
        Err(e) => ok = mc.check(false, &key, || format!("the proof's own JSON is refused: {e}")),
    }
    ok
}
use starky::traits::FieldExtension;

/// `cell P11 bits ext`: the largest circuit at this size, in a process limited to some CPUs
pub fn cell_main(a: &[String]) -> i32 {
    quiet_all(true);
    let (b, e): (usize, usize) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let airs = airs(b);
    let air = airs.last().unwrap();
    let par = Par::new(b, e, 3, &[b + e - 3, 4]);
    let r = Inst::<Gl>::new(air, &par).and_then(|i| i.prove(air).map(|p| (i, p))).and_then(|(i, p)| {
        let ok = i.verify(&p)?;
        Ok((ok, p.publics.iter().map(|x| x.to_be().as_int()).collect::<Vec<_>>() == air.publics(), Inst::<Gl>::json(&p)))
    });
    match r {
        Ok((v, p, j)) => println!("accepted={v} publics={p} proof={:016x}", h64(&j.to_string())),
        Err(e) => println!("{e}"),
    }
    0
}
fn h64(s: &str) -> u64 {
    s.bytes().fold(7, |h, b| mix(h ^ b as u64))
}

/// honest proofs with the hash over the base field only
pub fn run_gl(mc: &Mc) {
    quiet_all(true);
    let mut cells = vec![];
    for b in mc.pick(vec![2, 4], vec![2, 3, 4, 5, 6]) {
        for a in airs(b) {
            for e in 1..=2 {
                cells.push((a.clone(), Par::new(b, e, 1 + (e + b) % 4, if b + e > 4 { &[3] } else { &[] })));
            }
        }
    }
    let n = cells.len() as u64;
    cells.into_par_iter().for_each(|(a, p)| {
        one::<Gl>(mc, &a, &p);
    });
    mc.states(n);
    mc.transitions(n * 4);
    mc.traces(n);
    mc.section("honest proofs", json!({"cells": n}));
}
pub fn run(mc: &Mc) {
    quiet_all(true);
    let cell_no = AtomicU64::new(0);
    let walk = |name: &str, cells: Vec<(Air, Par)>, hash: usize| {
        let rows: u64 = cells.iter().map(|(a, _)| a.rows() as u64).sum();
        let n = cells.len() as u64;
        cells.into_par_iter().for_each(|(a, p): (Air, Par)| {
            match hash {
                0 => one::<Gl>(mc, &a, &p),
                1 => one::<Bn>(mc, &a, &p),
                _ => one::<Bls>(mc, &a, &p),
            };
            if cell_no.fetch_add(1, Relaxed) % 97 == 0 {
                mc.sample(json!({"circuit": a.name, "parameters": p.show(), "hash": (["GL", "BN128", "BLS12381"][hash])}));
            }
        });
        mc.states(n);
        mc.transitions(n * 4);
        mc.traces(n);
        mc.evals(rows, rows);
        mc.section(name, json!({"cells": n, "trace_rows": rows}));
    };

    // 1. every circuit x trace size x extension
    let bits: Vec<usize> = mc.pick(vec![2, 3, 4, 5], vec![2, 3, 4, 5, 6, 7, 8, 9]);
    let mut cells = vec![];
    for b in &bits {
        for a in airs(*b) {
            for e in 1..=mc.pick(3, 4) {
                cells.push((a.clone(), Par::new(*b, e, 1 + (e + b) % 4, if b + e > 4 { &[3] } else { &[] })));
            }
        }
    }
    walk("circuits GL", cells, 0);

    // 2. every list of FRI sizes x number of queries
    let mut cells = vec![];
    for b in 2..=mc.pick(5, 7) {
        let all = airs(b);
        for e in 1..=mc.pick(2, 3) {
            for (i, st) in step_lists(b + e, 1).into_iter().enumerate() {
                for q in [1, 2, 3, 8, 32] {
                    if q > 3 && i % 3 != 0 {
                        continue;
                    }
                    for a in [&all[0], all.last().unwrap()] {
                        if fits(a, e) {
                            cells.push((a.clone(), Par::new(b, e, q, &st)));
                        }
                    }
                }
            }
        }
    }
    walk("FRI sizes and queries GL", cells, 0);

    // 3. the order of publics: every sequence of up to three kinds
    let mut cells = vec![];
    for l in 0..=mc.pick(3, 4) {
        for m in 0..4usize.pow(l) {
            let o: Vec<usize> = (0..l).map(|i| m / 4usize.pow(i) % 4).collect();
            cells.push((fib(3, &o), Par::new(3, 1, 2, &[2])));
        }
    }
    walk("orders of publics", cells, 0);

    // 4. combinations: every pair of circuits in one
    let mut cells = vec![];
    let (x, y) = (airs(3), airs(3));
    for (i, a) in x.iter().enumerate() {
        for (j, b) in y.iter().enumerate() {
            if i <= j || mc.thorough() {
                cells.push((join(vec![a.clone(), b.clone()]), Par::new(3, 2, 2, &[3])));
            }
        }
    }
    walk("pairs of circuits", cells, 0);

    // 5. flags and names in the compiled constraint file
    let mut cells = vec![];
    for base in airs(3) {
        let ne = base.ex.len();
        for e in 0..ne.min(mc.pick(8, 99)) {
            for f in 0..2 {
                let mut a = base.clone();
                if f == 0 {
                    a.idq.push(e)
                } else {
                    a.keep.push(e)
                }
                a.name += [" idQ", " keep"][f];
                cells.push((a, Par::new(3, 2, 2, &[3])));
            }
        }
        if base.l1.is_some() {
            let mut a = base.clone();
            let i = a.l1.as_ref().unwrap().1;
            a.l1 = Some(("Other.FIRST".into(), i));
            a.name += " other L1";
            cells.push((a, Par::new(3, 2, 2, &[3])));
        }
    }
    walk("expression flags and the name of the first-row constant", cells, 0);

    // 6. the other hash functions
    for h in [1, 2] {
        let mut cells = vec![];
        for b in mc.pick(vec![3], vec![2, 3, 4, 6]) {
            for a in airs(b) {
                for e in mc.pick(vec![1, 2], vec![1, 2, 3]) {
                    cells.push((a.clone(), Par::new(b, e, 1 + (e + b) % 3, &[b + e - 2])));
                }
            }
        }
        for e in 1..=mc.pick(1, 2) {
            for st in step_lists(3 + e, 1) {
                cells.push((airs(3)[0].clone(), Par::new(3, e, 2, &st)));
            }
        }
        walk(["", "circuits BN128", "circuits BLS12381"][h], cells, h);
    }

    // 7. sizes that are split among threads, for every number of CPUs: same proof, accepted
    let ncpu = allowed_cpus().len();
    let mut n = 0u64;
    for (b, e) in mc.pick(vec![(12, 2), (13, 1)], vec![(10, 3), (12, 1), (12, 2), (13, 1), (13, 2), (14, 1), (14, 2), (15, 1)]) {
        let mut first: Option<String> = None;
        for c in 1..=ncpu {
            if !mc.thorough() && ![1, 2, 3, 4, 7, 8].contains(&c) {
                continue;
            }
            n += 1;
            let key = format!("n=2^{b} ext=+{e} cpus={c}");
            let out = match cell(&["P11".into(), b.to_string(), e.to_string()], &[], Some(c), std::time::Duration::from_secs(300)) {
                Child::Out(o) => o.trim().to_string(),
                o => format!("{o:?}"),
            };
            mc.check(out.starts_with("accepted=true publics=true"), &key, || out.clone());
            match &first {
                None => first = Some(out),
                Some(f) => {
                    mc.check(*f == out, &key, || format!("another proof than with one CPU: {out} / {f}"));
                }
            }
        }
    }
    mc.states(n);
    mc.traces(n);
    mc.section("trace sizes x CPU counts", json!({"cells": n}));
    mc.rule("cells (circuit, trace size, extension, FRI sizes, queries, hash): set up, prove, verify, JSON round trip, verify");
}
