//! P06 (binary Goldilocks tree) and P07 (16-ary BN128/BLS12-381 trees): the commitment is the
//! tree of its definition at every height/width, every opening is the right row and path and is
//! accepted, and nothing else is: all positions x all claimed positions, every single-element
//! change of row, path and root.
use crate::bigf::*;
use crate::hashref::*;
use crate::p04_poseidon::*;
use crate::p05_rowhash::{fgl, ints};
use crate::refs;
use fields::field_gl::Fr as FGL;
use mc_common::*;
use rayon::prelude::*;
use serde_json::json;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::traits::{MTNodeType, MerkleTree};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub fn rows(w: usize, h: usize, fill: usize) -> Vec<Vec<u64>> {
    (0..h)
        .map(|i| {
            (0..w)
                .map(|j| match fill {
                    0 => m((i * 7919 + j) as u64),
                    1 => (i + j * 1000) as u64,
                    2 => refs::P - 1 - (i * w + j) as u64,
                    _ => (i == j) as u64,
                })
                .collect()
        })
        .collect()
}
/// heights x widths that are cheap, and the ones around every parallel chunk boundary
fn shapes(mc: &Mc, arity: usize) -> Vec<(usize, usize)> {
    let hm = mc.pick(if arity == 2 { 36 } else { 34 }, if arity == 2 { 140 } else { 70 });
    let mut v = vec![];
    for h in 1..=hm {
        for w in (1..=9).chain([12, 16, 17, 33]) {
            v.push((w, h));
        }
    }
    let a = arity;
    for h in [a * a - 1, a * a, a * a + 1, a * a * 2, a * a * 2 + 1] {
        if h > hm {
            v.push((3, h));
            v.push((5, h));
        }
    }
    v
}

pub fn run_gl(mc: &Mc) {
    mc.rule("every height x width, fill patterns, every index opened; per small tree every (index, claimed index) pair and every single-element change of row, path, root, plus dropped/extra path levels; a case is non-trivial when the tree has at least two rows");
    let n_open = AtomicU64::new(0);
    let n_bad = AtomicU64::new(0);
    let sh: Vec<(usize, usize, usize)> = shapes(mc, 2).into_iter().flat_map(|(w, h)| (0..if h <= 20 { 4 } else { 1 }).map(move |f| (w, h, f))).collect();
    sh.par_iter().for_each(|(w, h, fill)| {
        let (w, h) = (*w, *h);
        let rs = rows(w, h, *fill);
        let t = match build_gl(&rs, w, h) {
            Ok(t) => t,
            Err(e) => {
                mc.fail("merkle-gl:build", &format!("{w}x{h}: {e}"), json!({"w": w, "h": h}));
                return;
            }
        };
        let r = GlTree::new(&rs);
        let root = t.root();
        if !mc.check(ints(root.as_elements()) == r.root(), "merkle-gl:root", || format!("{w}x{h} fill {fill}: {:x?} want {:x?}", root, r.root())) {
            return;
        }
        mc.check(t.element_size() == w * h, "merkle-gl:size", || format!("{w}x{h}"));
        let fresh = MerkleTreeGL::new();
        for idx in 0..h {
            n_open.fetch_add(1, Relaxed);
            let Ok(Ok((v, mp))) = guard(|| t.get_group_proof(idx)) else {
                mc.fail("merkle-gl:open", &format!("{w}x{h}: no proof for {idx}"), json!({"w": w, "h": h, "idx": idx}));
                continue;
            };
            let p: Vec<Vec<u64>> = mp.iter().map(|x| ints(x)).collect();
            mc.check(ints(&v) == rs[idx], "merkle-gl:row", || format!("{w}x{h} row {idx}"));
            mc.check(p == r.path(idx).iter().map(|x| x.to_vec()).collect::<Vec<_>>(), "merkle-gl:path", || format!("{w}x{h} path {idx}"));
            for (j, x) in rs[idx].iter().enumerate() {
                mc.check(t.get_element(idx, j).as_int() == *x, "merkle-gl:element", || format!("{w}x{h} ({idx},{j})"));
            }
            let ok = |root: &starky::ElementDigest<4, FGL>, mp: &[Vec<FGL>], i: usize, v: &[FGL]| guard(|| fresh.verify_group_proof(root, mp, i, v).unwrap_or(false));
            mc.check(ok(&root, &mp, idx, &v) == Ok(true), "merkle-gl:complete", || format!("{w}x{h}: honest proof of {idx} refused"));
            if h > 40 || w > 9 && h > 8 {
                continue;
            }
            let deep = h <= mc.pick(9, 20) || idx == h - 1 || idx == h / 2;
            if !deep {
                continue;
            }
            let mut bad = 0;
            let mut refuse = |what: &dyn Fn() -> String, got: Result<bool, String>| {
                bad += 1;
                mc.check(got != Ok(true), "merkle-gl:sound", || format!("{w}x{h} fill {fill}, index {idx}: accepted with {}", what()));
            };
            // claimed at another index: only legitimate when the rows and paths coincide
            for j in 0..1usize << mp.len() {
                if j != idx {
                    // equal subtrees (or zero padding) make some positions genuinely interchangeable
                    let same = r.path(idx).iter().enumerate().fold(r.levels[0][idx], |a, (l, sib)| if j >> l & 1 == 0 { gl_node(&a, sib) } else { gl_node(sib, &a) }) == r.root();
                    if !same {
                        refuse(&|| format!("claimed index {j}"), ok(&root, &mp, j, &v));
                    }
                }
            }
            let deltas = [FGL::ONE, -FGL::ONE, FGL::from(1u64 << 32)];
            for e in 0..w {
                for d in deltas {
                    let mut v2 = v.clone();
                    v2[e] = v2[e] + d;
                    refuse(&|| format!("row element {e} changed"), ok(&root, &mp, idx, &v2));
                }
            }
            // two elements of the row swapped
            for a in 0..w {
                for b in a + 1..w {
                    if v[a] != v[b] {
                        let mut v2 = v.clone();
                        v2.swap(a, b);
                        refuse(&|| format!("row elements {a},{b} swapped"), ok(&root, &mp, idx, &v2));
                    }
                }
            }
            for l in 0..mp.len() {
                for e in 0..4 {
                    for d in deltas {
                        let mut p2 = mp.clone();
                        p2[l][e] = p2[l][e] + d;
                        refuse(&|| format!("path level {l} limb {e} changed"), ok(&root, &p2, idx, &v));
                    }
                }
                for l2 in l + 1..mp.len() {
                    if mp[l] != mp[l2] {
                        let mut p2 = mp.clone();
                        p2.swap(l, l2);
                        refuse(&|| format!("path levels {l},{l2} swapped"), ok(&root, &p2, idx, &v));
                    }
                }
                let mut p2 = mp.clone();
                p2.remove(l);
                if !(h == 1) {
                    refuse(&|| format!("path level {l} dropped"), ok(&root, &p2, idx, &v));
                }
            }
            let mut p2 = mp.clone();
            p2.push(vec![FGL::ZERO; 4]);
            refuse(&|| "an extra path level".into(), ok(&root, &p2, idx, &v));
            for e in 0..4 {
                for d in deltas {
                    let mut q = root.as_elements().to_vec();
                    q[e] = q[e] + d;
                    refuse(&|| format!("root limb {e} changed"), ok(&starky::ElementDigest::new(&q), &mp, idx, &v));
                }
            }
            n_bad.fetch_add(bad, Relaxed);
        }
        for idx in [h, h + 1, h.next_power_of_two() + h, usize::MAX] {
            mc.check(matches!(guard(|| t.get_group_proof(idx)), Ok(Err(_))), "merkle-gl:range", || format!("{w}x{h}: opening {idx} not refused"));
        }
    });
    mc.section("trees", json!({"shapes x fills": sh.len(), "openings": n_open.load(Relaxed), "forged openings": n_bad.load(Relaxed)}));
    // around the parallel chunk boundaries
    let mut big: Vec<(usize, usize)> = vec![(1, 4095), (1, 4096), (1, 4097), (4, 8191), (4, 8193), (8, 4097), (3, 12289), (16384, 2), (16384, 3), (16384, 5), (32768, 3), (32768, 9), (20000, 7), (40000, 5), (65536, 3), (2056, 17)];
    if mc.thorough() {
        big.extend([(1, 65537), (4, 70000), (2, 33000), (8, 16385), (100, 2049), (32768, 33), (1 << 17, 5), (3, 1 << 17), (50, 1 << 12)]);
    }
    big.par_iter().for_each(|(w, h)| {
        let rs = rows(*w, *h, 0);
        let r = GlTree::new(&rs);
        match build_gl(&rs, *w, *h) {
            Ok(t) => {
                mc.check(ints(t.root().as_elements()) == r.root(), "merkle-gl:chunks", || format!("{w}x{h}: wrong root"));
                let mut o = 0;
                for (l, lev) in r.levels.iter().enumerate() {
                    if l + 1 == r.levels.len() {
                        o = t.nodes.len() - 1;
                    }
                    for (i, d) in lev.iter().enumerate() {
                        if !mc.check(t.nodes.get(o + i).map(|x| ints(x.as_elements())) == Some(d.to_vec()), "merkle-gl:chunks", || format!("{w}x{h}: node {i} of level {l}")) {
                            break;
                        }
                    }
                    o += lev.len();
                }
                for idx in [0, 1, h / 2, h - 2, h - 1] {
                    let ok = guard(|| {
                        let (v, mp) = t.get_group_proof(idx).unwrap();
                        ints(&v) == rs[idx] && t.verify_group_proof(&t.root(), &mp, idx, &v).unwrap()
                    });
                    mc.check(ok == Ok(true), "merkle-gl:chunks", || format!("{w}x{h}: opening {idx}"));
                }
            }
            Err(e) => mc.fail("merkle-gl:chunks", &format!("{w}x{h}: {e}"), json!({})),
        }
    });
    mc.section("chunk boundaries", json!({"shapes": big.len()}));
    let s = (sh.len() + big.len()) as u64;
    mc.states(s + n_open.load(Relaxed));
    mc.transitions(n_open.load(Relaxed) + n_bad.load(Relaxed));
    mc.traces(n_open.load(Relaxed) + n_bad.load(Relaxed));
    mc.evals(n_open.load(Relaxed) + n_bad.load(Relaxed), n_open.load(Relaxed) + n_bad.load(Relaxed) - sh.iter().filter(|x| x.1 == 1).count() as u64);
    mc.sample(json!({"tree": "5 columns x 11 rows", "forgery": "row 10 opened at index 9"}));
    mc.sample(json!({"tree": "1 column x 4097 rows (two leaf chunks)"}));
    mc.assume("the depth of the path is the one the verifier derives from the domain size (checked at the STARK level)");
}
fn build_gl(rs: &[Vec<u64>], w: usize, h: usize) -> Result<MerkleTreeGL, String> {
    guard(|| {
        let mut t = MerkleTreeGL::new();
        t.merkelize(fgl(&rs.concat()), w, h).map(|_| t).map_err(|e| e.to_string())
    })
    .and_then(|x| x)
}

macro_rules! curve {
    ($mc:expr, $name:expr, $T:ty, $curve:expr, $to:expr, $un:expr, $fr:path) => {{
        let mc = $mc;
        let ins = inst($curve);
        let n_open = AtomicU64::new(0);
        let n_bad = AtomicU64::new(0);
        let sh: Vec<(usize, usize, usize)> = shapes(mc, 16)
            .into_iter()
            .filter(|(w, h)| *h <= 18 || matches!(w, 1 | 3 | 4 | 5))
            .flat_map(|(w, h)| (0..if h <= 6 { 4 } else { 1 }).map(move |f| (w, h, f)))
            .chain([(48, 2, 0), (49, 3, 0), (97, 17, 0), (144, 2, 0), (145, 2, 0), (1, 4095, 0), (2, 4097, 0), (1, 131073, 0)])
            .chain(if $name == "bn128" { vec![(1, 65552, 0), (1, 196609, 0)] } else { vec![] })
            .chain(if mc.thorough() { vec![(3, 4096, 0), (1, 8193, 0), (7, 1025, 0), (4, 513, 2)] } else { vec![] })
            .collect();
        sh.par_iter().for_each(|(w, h, fill)| {
            let (w, h) = (*w, *h);
            let rs = rows(w, h, *fill);
            let built = guard(|| {
                let mut t = <$T>::new();
                t.merkelize(fgl(&rs.concat()), w, h).map(|_| t).map_err(|e| e.to_string())
            })
            .and_then(|x| x);
            let t = match built {
                Ok(t) => t,
                Err(e) => {
                    mc.fail(concat!("merkle-", $name, ":build"), &format!("{w}x{h}: {e}"), json!({"w": w, "h": h}));
                    return;
                }
            };
            let lev = ins.tree(&rs);
            let root = t.root();
            let want = lev.last().unwrap()[0];
            let got = { let b = <$T>::to_basefield(&root); b.iter().map(|x| $un(x)).collect::<Vec<_>>() };
            if !mc.check(got == vec![want], concat!("merkle-", $name, ":root"), || format!("{w}x{h} fill {fill}: {got:x?} want {want:x?}")) {
                return;
            }
            let fresh = <$T>::new();
            let ok = |root: &starky::ElementDigest<4, $fr>, mp: &[Vec<$fr>], i: usize, v: &[FGL]| guard(|| fresh.verify_group_proof(root, mp, i, v).unwrap_or(false));
            let idxs: Vec<usize> = if h > 300 { vec![0, 1, 15, 16, 255, 256, h / 3, h / 2, 2 * h / 3 + 2, h - 2, h - 1] } else { (0..h).collect() };
            for idx in idxs {
                n_open.fetch_add(1, Relaxed);
                let Ok(Ok((v, mp))) = guard(|| t.get_group_proof(idx)) else {
                    mc.fail(concat!("merkle-", $name, ":open"), &format!("{w}x{h}: no proof for {idx}"), json!({"w": w, "h": h, "idx": idx}));
                    continue;
                };
                mc.check(ints(&v) == rs[idx], concat!("merkle-", $name, ":row"), || format!("{w}x{h} row {idx}"));
                let p: Vec<Vec<U4>> = mp.iter().map(|x| x.iter().map(|y| $un(y)).collect()).collect();
                let wp: Vec<Vec<U4>> = (0..lev.len() - 1).map(|l| { let s = (idx >> (4 * l)) & !15; lev[l][s..s + 16].to_vec() }).collect();
                mc.check(p == wp, concat!("merkle-", $name, ":path"), || format!("{w}x{h} path {idx}"));
                mc.check(ok(&root, &mp, idx, &v) == Ok(true), concat!("merkle-", $name, ":complete"), || format!("{w}x{h}: honest proof of {idx} refused"));
                if !(h <= mc.pick(6, 17) && w <= 9 || (idx == 0 || idx + 1 == h || idx == h / 3) && w <= 5) {
                    continue;
                }
                let mut bad = 0;
                let mut refuse = |what: &dyn Fn() -> String, got: Result<bool, String>| {
                    bad += 1;
                    mc.check(got != Ok(true), concat!("merkle-", $name, ":sound"), || format!("{w}x{h} fill {fill}, index {idx}: accepted with {}", what()));
                };
                for j in (0..16usize.pow(mp.len() as u32)).filter(|j| *j < 64 || if h < 5000 { j % 17 == 0 } else { j % 4099 == 0 }) {
                    // equal subtrees (or zero padding) make some positions genuinely interchangeable
                    let same = || wp.iter().enumerate().fold(lev[0][idx], |a, (l, g)| { let mut g = g.clone(); g[(j >> (4 * l)) & 15] = a; ins.hash(&[0; 4], &g) }) == want;
                    if j != idx {
                        let got = ok(&root, &mp, j, &v);
                        if got != Ok(true) || !same() {
                            refuse(&|| format!("claimed index {j}"), got);
                        }
                    }
                }
                for e in 0..w {
                    for d in [FGL::ONE, -FGL::ONE, FGL::from(1u64 << 32)] {
                        let mut v2 = v.clone();
                        v2[e] = v2[e] + d;
                        refuse(&|| format!("row element {e} changed"), ok(&root, &mp, idx, &v2));
                    }
                }
                for a in 0..w {
                    for b in a + 1..w {
                        if v[a] != v[b] {
                            let mut v2 = v.clone();
                            v2.swap(a, b);
                            refuse(&|| format!("row elements {a},{b} swapped"), ok(&root, &mp, idx, &v2));
                        }
                    }
                }
                for l in 0..mp.len() {
                    for e in 0..16 {
                        if e == (idx >> (4 * l)) & 15 {
                            continue; // the node's own slot is recomputed, not trusted
                        }
                        let mut p2 = mp.clone();
                        p2[l][e] = $to(&ins.f.add(&p[l][e], &[1, 0, 0, 0]));
                        refuse(&|| format!("path level {l} sibling {e} changed"), ok(&root, &p2, idx, &v));
                    }
                    if h > 1 {
                        let mut p2 = mp.clone();
                        p2.remove(l);
                        refuse(&|| format!("path level {l} dropped"), ok(&root, &p2, idx, &v));
                    }
                }
                let bumped = ins.f.to_m(&ins.f.add(&want, &[1, 0, 0, 0]));
                if bumped.iter().all(|x| *x < refs::P) {
                    refuse(&|| "root changed".into(), ok(&starky::ElementDigest::new(&fgl(&bumped)), &mp, idx, &v));
                }
                n_bad.fetch_add(bad, Relaxed);
            }
            for idx in [h, h + 1, h + 16, usize::MAX] {
                mc.check(matches!(guard(|| t.get_group_proof(idx)), Ok(Err(_))), concat!("merkle-", $name, ":range"), || format!("{w}x{h}: opening {idx} not refused"));
            }
        });
        let (o, b) = (n_open.load(Relaxed), n_bad.load(Relaxed));
        mc.section($name, json!({"shapes x fills": sh.len(), "openings": o, "forged openings": b}));
        mc.states(sh.len() as u64 + o);
        mc.transitions(o + b);
        mc.traces(o + b);
        mc.evals(o + b, o + b - sh.iter().filter(|x| x.1 == 1).count() as u64);
    }};
}

pub fn run_curves(mc: &Mc) {
    mc.rule("every height x width, every index opened; per small tree every claimed index and every single-element change of row, siblings, root, dropped levels; a case is non-trivial when the tree has at least two rows");
    curve!(mc, "bn128", MerkleTreeBN128, Curve::Bn, bn, unbn, starky::field_bn128::Fr);
    curve!(mc, "bls12381", MerkleTreeBLS12381, Curve::Bls, bl, unbl, starky::mc_hooks::field_bls12381::Fr);
    mc.sample(json!({"tree": "4 columns x 17 rows", "forgery": "row 16 with element 2 incremented"}));
    mc.assume("the depth of the path is the one the verifier derives from the domain size (checked at the STARK level)");
    mc.assume("no node of the tree has a 64-bit Montgomery limb of at least the Goldilocks modulus (P09 lists that failure)");
}
