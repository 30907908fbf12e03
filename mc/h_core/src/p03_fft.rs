//! P03: transforms. The transforms are linear, so the state space explored is every basis vector
//! (row, column, coordinate) of every bounded shape, plus full vectors for the shapes that take
//! the blocked code paths, plus every order of reuse of a transform object / cache.
use crate::refs::*;
use fields::field_gl::Fr;
use mc_common::*;
use rayon::prelude::*;
use serde_json::json;
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::fft::FFT;
use starky::fft_p;
use starky::polutils::*;
use starky::traits::FieldExtension;
use std::time::Duration;

fn e1(x: u64) -> F3G {
    F3G::from(x)
}
fn e3(v: [u64; 3]) -> F3G {
    F3G::new(Fr::from(v[0]), Fr::from(v[1]), Fr::from(v[2]))
}
fn coords<F: FieldExtension>(x: &F, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = x.as_elements().iter().map(|e| e.as_int()).collect();
    v.resize(n, 0);
    v
}
fn same<F: FieldExtension>(got: &[F], want: impl Fn(usize, usize) -> u64, dim: usize) -> Option<usize> {
    (0..got.len()).find(|&i| {
        let c = coords(&got[i], dim);
        (0..dim).any(|k| c[k] != want(i, k))
    })
}

/// serial transform on every basis vector
fn serial(mc: &Mc) {
    let top = mc.pick(8usize, 10);
    let mut n_st = 0u64;
    for k in 0..=top {
        let n = 1usize << k;
        (0..n).into_par_iter().for_each(|b| {
            let mut c = vec![0u64; n];
            c[b] = 1 + mix((k * 1000 + b) as u64) % (P - 1);
            let w = ref_dft(&c, k, 1);
            let p: Vec<F3G> = c.iter().map(|x| e1(*x)).collect();
            let mut f = FFT::<F3G>::new();
            let g = f.fft(&p);
            mc.check(g.len() == n && same(&g, |i, _| w[i], 1).is_none(), "fft", || format!("FFT::fft of {}*x^{b}, size 2^{k}", c[b]));
            let back = f.ifft(&g);
            mc.check(same(&back, |i, _| c[i], 1).is_none(), "ifft", || format!("ifft(fft) of basis {b}, size 2^{k}"));
            let d = f.ifft(&p);
            let wi = ref_ifft(&c, k);
            mc.check(same(&d, |i, _| wi[i], 1).is_none(), "ifft", || format!("FFT::ifft of basis {b}, size 2^{k}"));
        });
        n_st += n as u64;
    }
    // cubic and quintic coordinates
    for k in 1..=mc.pick(5usize, 6) {
        let n = 1usize << k;
        for b in 0..n * 3 {
            let mut c = vec![[0u64; 3]; n];
            c[b / 3][b % 3] = 1 + mix(b as u64) % (P - 1);
            let p: Vec<F3G> = c.iter().map(|x| e3(*x)).collect();
            let w: Vec<Vec<u64>> = (0..3).map(|q| ref_dft(&c.iter().map(|v| v[q]).collect::<Vec<_>>(), k, 1)).collect();
            let mut f = FFT::new();
            let g = f.fft(&p);
            mc.check(same(&g, |i, q| w[q][i], 3).is_none(), "fft3", || format!("cubic basis {b} size 2^{k}"));
            mc.check(same(&f.ifft(&g), |i, q| c[i][q], 3).is_none(), "ifft3", || format!("cubic basis {b} size 2^{k}"));
            n_st += 1;
        }
        for b in 0..n * 5 {
            let mut c = vec![[0u64; 5]; n];
            c[b / 5][b % 5] = 1 + mix(b as u64) % (P - 1);
            let p: Vec<F5G> = c.iter().map(|x| F5G::from_vec(x.iter().map(|y| Fr::from(*y)).collect())).collect();
            let w: Vec<Vec<u64>> = (0..5).map(|q| ref_dft(&c.iter().map(|v| v[q]).collect::<Vec<_>>(), k, 1)).collect();
            let mut f = FFT::new();
            let g = f.fft(&p);
            mc.check(same(&g, |i, q| w[q][i], 5).is_none(), "fft5", || format!("quintic basis {b} size 2^{k}"));
            mc.check(same(&f.ifft(&g), |i, q| c[i][q], 5).is_none(), "ifft5", || format!("quintic basis {b} size 2^{k}"));
            n_st += 1;
        }
    }
    // full vectors, up to and beyond the table built eagerly (2^15)
    for k in 9..=mc.pick(16usize, 18) {
        let c: Vec<u64> = (0..1u64 << k).map(|i| mix(i ^ (k as u64) << 40) % P).collect();
        let w = ref_fft(&c, k);
        let p: Vec<F3G> = c.iter().map(|x| e1(*x)).collect();
        let mut f = FFT::new();
        let g = f.fft(&p);
        mc.check(same(&g, |i, _| w[i], 1).is_none(), "fft", || format!("full vector 2^{k}"));
        mc.check(same(&f.ifft(&g), |i, _| c[i], 1).is_none(), "ifft", || format!("full vector 2^{k}"));
        n_st += 1;
    }
    // reuse histories of one object: every sequence of sizes
    let sizes = [0usize, 1, 2, 3, 5, 16];
    let depth = mc.pick(2, 3);
    let want: Vec<(Vec<F3G>, Vec<u64>)> = sizes
        .iter()
        .map(|&k| {
            let c: Vec<u64> = (0..1u64 << k).map(|i| mix(i + 77) % P).collect();
            (c.iter().map(|x| e1(*x)).collect(), ref_fft(&c, k))
        })
        .collect();
    let tot = sizes.len().pow(depth);
    (0..tot).into_par_iter().for_each(|h| {
        let mut f = FFT::<F3G>::new();
        let mut t = h;
        let mut hist = vec![];
        for _ in 0..depth {
            let s = t % sizes.len();
            t /= sizes.len();
            hist.push(sizes[s]);
            let g = f.fft(&want[s].0);
            mc.check(same(&g, |i, _| want[s].1[i], 1).is_none(), "fft-history", || format!("after sizes {hist:?}"));
        }
    });
    n_st += tot as u64;
    mc.states(n_st);
    mc.transitions(n_st * 3);
    mc.traces(n_st * 3);
    mc.section("serial transform", json!({"basis_max_bits": top, "states": n_st}));
}

/// fft_p on every (row, column) basis matrix of every small shape
fn parallel_small(mc: &Mc) {
    let (top, pols) = mc.pick((6usize, 4usize), (8, 5));
    let mut shapes = vec![];
    for k in 1..=top {
        for np in 1..=pols {
            for b in 0..(np << k) {
                shapes.push((k, np, b));
            }
        }
    }
    shapes.par_iter().for_each(|&(k, np, b)| {
        let n = 1usize << k;
        let v = 1 + mix((b * 31 + k) as u64) % (P - 1);
        let mut c = vec![0u64; n];
        c[b / np] = v;
        let col = b % np;
        let cubic = b % 2 == 1; // every other basis matrix carries a cubic coordinate
        let q0 = if cubic { b % 3 } else { 0 };
        let el = |x: u64| {
            if cubic {
                let mut t = [0; 3];
                t[q0] = x;
                e3(t)
            } else {
                e1(x)
            }
        };
        let mut src = vec![F3G::ZERO; n * np];
        src[b] = el(v);
        let w = ref_dft(&c, k, 1);
        let wi = ref_ifft(&c, k);
        for (inverse, w) in [(false, &w), (true, &wi)] {
            for dirty in [false, true] {
                let mut dst = vec![if dirty { e3([5, 6, 7]) } else { F3G::ZERO }; n * np];
                if inverse {
                    fft_p::ifft(&src, np, k, &mut dst);
                } else {
                    fft_p::fft(&src, np, k, &mut dst);
                }
                let bad = same(&dst, |i, q| if i % np == col && q == q0 { w[i / np] } else { 0 }, 3);
                mc.check(bad.is_none(), if inverse { "fft_p::ifft" } else { "fft_p::fft" }, || {
                    format!("basis row {} col {col} of {np} columns, 2^{k} rows: wrong at {bad:?}", b / np)
                });
            }
        }
    });
    let n = shapes.len() as u64;
    mc.states(n);
    mc.transitions(4 * n);
    mc.traces(4 * n);
    mc.evals(n, n);
    mc.section("column transforms, basis", json!({"max_bits": top, "max_columns": pols, "basis_matrices": n}));
    // low-degree extension
    let (top, ext, pols) = mc.pick((5usize, 3usize, 3usize), (7, 4, 4));
    let mut shapes = vec![];
    for k in 1..=top {
        for x in 0..=ext {
            for np in 1..=pols {
                for b in 0..(np << k) {
                    shapes.push((k, x, np, b));
                }
            }
        }
    }
    shapes.par_iter().for_each(|&(k, x, np, b)| {
        let n = 1usize << k;
        let col = b % np;
        let v = 1 + mix((b * 17 + k) as u64) % (P - 1);
        let mut ev = vec![0u64; n];
        ev[b / np] = v;
        let w = ref_dft(&ref_ifft(&ev, k), k + x, 49);
        let mut src = vec![F3G::ZERO; n * np];
        src[b] = e1(v);
        for dirty in [false, true] {
            let mut dst = vec![if dirty { e1(9) } else { F3G::ZERO }; (n * np) << x];
            fft_p::interpolate(&src, np, k, &mut dst, k + x);
            let bad = same(&dst, |i, q| if i % np == col && q == 0 { w[i / np] } else { 0 }, 3);
            mc.check(bad.is_none(), "interpolate", || format!("basis row {} col {col}/{np}, 2^{k} -> 2^{}: wrong at {bad:?}", b / np, k + x));
        }
        if np == 1 {
            let g = extend_pol(&src, x);
            mc.check(same(&g, |i, _| w[i], 1).is_none(), "extend_pol", || format!("basis row {b}, 2^{k} -> 2^{}", k + x));
        }
    });
    let n = shapes.len() as u64;
    mc.states(n);
    mc.transitions(2 * n);
    mc.traces(2 * n);
    mc.evals(n, n);
    mc.section("low-degree extension, basis", json!({"max_bits": top, "max_extension_bits": ext, "max_columns": pols, "basis_matrices": n}));
}

fn data(n: usize, np: usize, salt: u64) -> Vec<u64> {
    (0..n * np).map(|i| mix(i as u64 ^ salt << 32) % P).collect()
}
fn column(d: &[u64], np: usize, c: usize) -> Vec<u64> {
    d.iter().skip(c).step_by(np).copied().collect()
}
/// shapes that exceed one block and therefore transpose
fn blocked(mc: &Mc, shapes: &[(usize, usize, usize)]) -> u64 {
    for &(k, np, x) in shapes {
        let n = 1usize << k;
        let d = data(n, np, (k * 8 + np) as u64);
        let src: Vec<F3G> = d.iter().map(|v| e1(*v)).collect();
        let cols: Vec<Vec<u64>> = (0..np).map(|c| column(&d, np, c)).collect();
        let ff: Vec<Vec<u64>> = cols.par_iter().map(|c| ref_fft(c, k)).collect();
        let ii: Vec<Vec<u64>> = cols.par_iter().map(|c| ref_ifft(c, k)).collect();
        let mut dst = vec![F3G::ZERO; n * np];
        fft_p::fft(&src, np, k, &mut dst);
        let bad = same(&dst, |i, _| ff[i % np][i / np], 1);
        mc.check(bad.is_none(), "fft_p::fft", || format!("full matrix {np} columns x 2^{k}: wrong at {bad:?}"));
        let mut dst = vec![e1(3); n * np];
        fft_p::ifft(&src, np, k, &mut dst);
        let bad = same(&dst, |i, _| ii[i % np][i / np], 1);
        mc.check(bad.is_none(), "fft_p::ifft", || format!("full matrix {np} columns x 2^{k}: wrong at {bad:?}"));
        let mut dst = vec![e1(7); (n * np) << x];
        fft_p::interpolate(&src, np, k, &mut dst, k + x);
        let want: Vec<Vec<u64>> = ii
            .par_iter()
            .map(|c| {
                let mut s = 1;
                let mut e: Vec<u64> = c
                    .iter()
                    .map(|v| {
                        let r = mul(*v, s);
                        s = mul(s, 49);
                        r
                    })
                    .collect();
                e.resize(n << x, 0);
                ref_fft(&e, k + x)
            })
            .collect();
        let bad = same(&dst, |i, _| want[i % np][i / np], 1);
        mc.check(bad.is_none(), "interpolate", || format!("full matrix {np} columns, 2^{k} -> 2^{}: wrong at {bad:?}", k + x));
    }
    3 * shapes.len() as u64
}

fn cell_shapes(set: &str) -> Vec<(usize, usize, usize)> {
    match set {
        // with few workers the block size grows with the matrix and differs before and after the extension
        "q" => (9..=14).flat_map(|k| [(k, 1, 1), (k, 8, 2)]).chain([(1, 1, 1), (5, 3, 2), (11, 3, 2), (13, 2, 1), (12, 4, 1), (4, 1, 12)]).collect(),
        "sweep" => (1..=14).flat_map(|k| (1..=15 - k).map(move |x| (k, 1 + k % 2, x))).collect(),
        "sweep16" => (1..=15).flat_map(|k| (1..=16 - k).flat_map(move |x| [(k, 1, x), (k, 3, x), (k, 8, x)])).collect(),
        _ => (9..=15).flat_map(|k| [(k, 1, 1), (k, 8, 2), (k, 16, 1), (k, 5, 3)]).chain(vec![(1, 1, 1), (4, 4096, 1), (5, 3, 2), (11, 3, 2), (12, 1, 1), (13, 1, 1), (13, 5, 1), (14, 3, 2), (16, 2, 1), (17, 1, 1), (4, 1, 12)]).collect(),
    }
}
/// child process with a restricted number of CPUs
pub fn cell_main(a: &[String]) -> i32 {
    let mc = Mc::new("P03cell", "quick");
    let n = num_cpus_seen();
    blocked(&mc, &cell_shapes(&a[0]));
    println!("cpus={n} violations={}", mc.n_violations());
    (mc.n_violations() > 0) as i32
}
fn num_cpus_seen() -> usize {
    allowed_cpus().len()
}

fn misc(mc: &Mc) {
    // bit reversal and its cache, in every order of three domains
    let top = mc.pick(12usize, 16);
    let mut n = 0u64;
    for d in 1..=top {
        let sz = 1usize << d;
        // descending first so that the cache is filled from the far end
        for x in (0..=sz).rev().chain(0..sz) {
            let w = if x == sz { continue } else { x.reverse_bits() >> (64 - d) };
            n += 1;
            let g = fft_p::BR(x, d);
            mc.check(g == w, "BR", || format!("BR({x},{d}) = {g}, want {w}"));
        }
    }
    for h in 0..216usize {
        for s in [h % 6, h / 6 % 6, h / 36] {
            let d = [1usize, 3, 7, 17, 18, 20][s];
            let x = (mix(h as u64) as usize) % (1 << d);
            mc.check(fft_p::BR(x, d) == x.reverse_bits() >> (64 - d), "BR", || format!("BR({x},{d})"));
            n += 1;
        }
    }
    mc.states(n);
    mc.traces(n);
    // evaluation and geometric scaling: every coefficient vector over a small set, plus long ones
    let cs = [0u64, 1, 2, P - 1, 1 << 32];
    for l in 0..=mc.pick(5u32, 6) {
        for k in 0..cs.len().pow(l) {
            let mut t = k;
            let c: Vec<u64> = (0..l)
                .map(|_| {
                    let v = cs[t % cs.len()];
                    t /= cs.len();
                    v
                })
                .collect();
            let p: Vec<F3G> = c.iter().map(|x| e1(*x)).collect();
            for x in [[0u64, 0, 0], [1, 0, 0], [7, 0, 0], [3, 1, 0], [P - 1, 5, 9]] {
                let mut w = [0; 3];
                for ci in c.iter().rev() {
                    w = e3add(e3mul(w, x), e3s(*ci));
                }
                let xe = if x[1] == 0 { e1(x[0]) } else { e3(x) };
                let g = coords(&eval_pol(&p, &xe), 3);
                mc.check(g == w, "eval_pol", || format!("eval {c:x?} at {x:x?} = {g:x?}, want {w:x?}"));
                let mut q = p.clone();
                pol_mul_axi(&mut q, e1(3), &xe);
                let mut s = [3u64, 0, 0];
                for (i, ci) in c.iter().enumerate() {
                    let w = e3mul(e3s(*ci), s);
                    mc.check(coords(&q[i], 3) == w, "pol_mul_axi", || format!("{c:x?} {x:x?} at {i}"));
                    s = e3mul(s, x);
                }
            }
        }
        mc.states((cs.len().pow(l) * 5) as u64);
        mc.traces((cs.len().pow(l) * 10) as u64);
    }
    // roots used by the transforms
    for k in 0..=32usize {
        let (w, wi) = (starky::constant::MG.0[k].as_int(), starky::constant::MG.1[k].as_int());
        mc.check(w == omega(k) && mul(w, wi) == 1, "roots", || format!("MG[{k}]"));
    }
    mc.check(mul(starky::constant::SHIFT.as_int(), starky::constant::SHIFT_INV.as_int()) == 1 && starky::constant::SHIFT.as_int() == 49, "roots", || "SHIFT".into());
    // log2_any: floor(log2) over the whole machine word
    for i in 0..64usize {
        for v in [1usize << i, (1 << i) | 1, usize::MAX >> (63 - i)] {
            let w = 63 - v.leading_zeros() as usize;
            mc.check(starky::helper::log2_any(v) == w, "log2_any", || format!("log2_any({v:#x}) = {}", starky::helper::log2_any(v)));
        }
    }
    for v in 1..mc.pick(70000usize, 1 << 22) {
        mc.check(starky::helper::log2_any(v) == 63 - v.leading_zeros() as usize, "log2_any", || format!("log2_any({v})"));
    }
    // coset generators used by connection arguments: distinct cosets
    for n in 1..=mc.pick(64usize, 256) {
        let ks: Vec<u64> = starky::helper::get_ks(n).iter().map(|x| x.as_int()).collect();
        let mut w = 1;
        for (i, k) in ks.iter().enumerate() {
            w = mul(w, 12275445934081160404);
            mc.check(*k == w && pow(w, 1 << 32) != 1, "get_ks", || format!("get_ks({n})[{i}]"));
        }
    }
}

pub fn run(mc: &Mc) {
    mc.rule("every basis matrix (row, column, coordinate) of every shape up to the stated bits/columns, in clean and dirty destination buffers; full matrices for the shapes that split into blocks, under 1..8 CPUs; every reuse history of a transform object up to the stated depth");
    serial(mc);
    parallel_small(mc);
    let mut shapes = vec![];
    for k in 11..=mc.pick(14usize, 18) {
        for np in [1usize, 2, 3, 7] {
            for x in 1..=mc.pick(2usize, 3) {
                if k + x <= mc.pick(15, 19) {
                    shapes.push((k, np, x));
                }
            }
        }
    }
    shapes.extend(cell_shapes(mc.pick("sweep", "sweep16")));
    let n = blocked(mc, &shapes);
    mc.states(n);
    mc.traces(n);
    mc.section("blocked shapes, full matrices", json!({"shapes": shapes.len()}));
    misc(mc);
    mc.section("helpers", json!({"done": true}));
    // the block structure depends on the number of CPUs: all of them
    let all = allowed_cpus().len().min(8);
    let mut runs = 0;
    for c in 1..=all {
        let set = mc.pick("q", "t");
        let r = cell(&["P03".into(), set.into()], &[("RAYON_NUM_THREADS", c.to_string())], Some(c), Duration::from_secs(200));
        runs += 1;
        mc.check(matches!(r, Child::Out(_)), "cpus", || format!("with {c} CPUs: {r:?}"));
    }
    mc.states(runs);
    mc.traces(runs * 3 * cell_shapes(mc.pick("q", "t")).len() as u64);
    mc.section("CPU counts", json!({"cpus": (1..=all).collect::<Vec<_>>(), "shapes_each": cell_shapes(mc.pick("q", "t")).len()}));
    mc.sample(json!({"shape": "2^5 rows x 3 columns -> 2^7", "basis": "row 11, column 2"}));
    mc.sample(json!({"shape": "2^13 x 7 -> 2^15", "full": true}));
    mc.sample(json!({"history": "FFT object used for sizes 2^5, 2^16, 2^3"}));
    mc.assume("at least 2 rows for the column transforms; at most 2^12 columns; dimension of all elements of a column equal");
}
