//! The building blocks of the curve verifiers on their own: every boundary input, and every other
//! choice for the values a prover supplies without computing them.
use crate::circom::*;
use crate::hashref::{self, Curve};
use crate::p12_tamper::spread;
use crate::p16_circom::*;
use crate::refs;
use mc_common::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const P: u64 = refs::P;
/// nested sizes of an input and its values in order
type In = (&'static str, Vec<usize>);
/// what the outputs must be: field elements of Goldilocks in any 64-bit form, or exact numbers
enum Want {
    Gl(Vec<u64>),
    Exact(Vec<BigUint>),
    /// no inputs satisfy the circuit
    Never,
}
struct Gadget {
    kind: &'static str,
    name: &'static str,
    args: Vec<u64>,
    include: &'static str,
    ins: Vec<In>,
    out: &'static str,
    /// interesting values of the inputs, as integers
    vals: Vec<BigInt>,
    /// inputs are bits from here on
    bits_from: usize,
    text: bool,
    want: Box<dyn Fn(&[BigInt]) -> Want + Sync + Send>,
}
fn b(x: u128) -> BigInt {
    BigInt::from(x)
}
/// the residue of an integer
fn r(x: &BigInt) -> u64 {
    let p = BigInt::from(P);
    (((x % &p) + &p) % &p).to_u64().unwrap()
}
fn rs(x: &[BigInt]) -> Vec<u64> {
    x.iter().map(r).collect()
}
fn e3(x: &[BigInt]) -> refs::E3 {
    [r(&x[0]), r(&x[1]), r(&x[2])]
}
fn wide() -> Vec<BigInt> {
    let p = b(P as u128);
    vec![
        b(0),
        b(1),
        b(2),
        &p - 1,
        p.clone(),
        &p + 1,
        b((1 << 32) - 1),
        b(1 << 32),
        b(u64::MAX as u128),
        &p * 16 + 3,
        b(0x1234_5678_9abc_def1),
        BigInt::from(-1),
        -&p,
        &p * -15 - 7,
        &p * -16,
        &p * 60 + 11,
    ]
}
fn narrow() -> Vec<BigInt> {
    vec![b(0), b(1), b(P as u128 - 1), b(P as u128), b(u64::MAX as u128), b(0xfedc_ba98_7654_3211)]
}
fn nest(d: &[usize], v: &mut std::slice::Iter<BigUint>) -> Val {
    if d.is_empty() {
        return Val::N(Num { v: v.next().unwrap().clone(), d: 1 });
    }
    Val::A((0..d[0]).map(|_| nest(&d[1..], v)).collect())
}
fn field_num(f: &Field, x: &BigInt) -> BigUint {
    let q = BigInt::from(f.q.clone());
    (((x % &q) + &q) % &q).to_biguint().unwrap()
}
impl Gadget {
    fn len(&self) -> usize {
        self.ins.iter().map(|i| i.1.iter().product::<usize>()).sum()
    }
    fn show(&self) -> String {
        format!("{}:{}{:?}", self.kind, self.name, self.args)
    }
    fn run(&self, p: &Prog, lib: &dyn Builtins, f: &Field, x: &[BigInt], hook: Option<&dyn Fn(usize, &BigUint) -> Option<BigUint>>) -> (Res<Vec<BigUint>>, usize) {
        let v: Vec<BigUint> = x.iter().map(|x| field_num(f, x)).collect();
        let mut it = v.iter();
        let ins: HashMap<String, Val> = self.ins.iter().map(|(n, d)| (n.to_string(), nest(d, &mut it))).collect();
        let mut cx = Cx::new(p, f, lib);
        cx.hook = hook;
        let o = cx.main(&ins).and_then(|o| match o.get(self.out) {
            Some(v) => {
                let mut w = vec![];
                v.flat(&mut w);
                Ok(w)
            }
            None => bad("no output"),
        });
        let h = *cx.hints.borrow();
        (o, h)
    }
    fn ok(&self, want: &Want, got: &[BigUint]) -> bool {
        match want {
            Want::Gl(w) => got.len() == w.len() && got.iter().zip(w).all(|(g, w)| g.bits() <= 64 && (g % P).to_u64() == Some(*w)),
            Want::Exact(w) => got == &w[..],
            Want::Never => false,
        }
    }
    /// inputs with every pair of positions over all pairs of values, on two backgrounds
    fn inputs(&self, deep: bool) -> Vec<Vec<BigInt>> {
        let n = self.len();
        let nb = self.bits_from.min(n);
        let mut out = vec![];
        let keys: Vec<Vec<BigInt>> = {
            let k = n - nb;
            if k <= 7 {
                (0..1usize << k).map(|m| (0..k).map(|i| b((m >> i & 1) as u128)).collect()).collect()
            } else {
                // single bits, pairs, all, none
                let mut v: Vec<Vec<BigInt>> = vec![vec![b(0); k], vec![b(1); k]];
                for i in 0..k {
                    for j in 0..=i {
                        let mut a = vec![b(0); k];
                        a[i] = b(1);
                        a[j] = b(1);
                        v.push(a);
                    }
                }
                v
            }
        };
        for (ki, key) in keys.iter().enumerate() {
            let full = ki == 0 || deep;
            let bases: Vec<Vec<BigInt>> = vec![
                (0..nb).map(|i| b(0x0123_4567_89ab_cdefu128.wrapping_mul(2 * i as u128 + 3) % P as u128)).collect(),
                (0..nb).map(|i| self.vals[(i * 7 + 1) % self.vals.len()].clone()).collect(),
            ];
            for base in &bases {
                let mut push = |v: Vec<BigInt>| out.push([v, key.clone()].concat());
                push(base.clone());
                if !full {
                    continue;
                }
                for i in 0..nb {
                    for x in &self.vals {
                        let mut v = base.clone();
                        v[i] = x.clone();
                        push(v.clone());
                        if nb > 20 {
                            continue;
                        }
                        for j in 0..i {
                            for y in &self.vals {
                                v[j] = y.clone();
                                push(v.clone());
                            }
                            v[j] = base[j].clone();
                        }
                    }
                }
                if nb == 3 {
                    for x in &self.vals {
                        for y in &self.vals {
                            for z in &self.vals {
                                push(vec![x.clone(), y.clone(), z.clone()]);
                            }
                        }
                    }
                }
            }
        }
        out
    }
}
fn gl(kind: &'static str, name: &'static str, args: Vec<u64>, include: &'static str, ins: Vec<In>, vals: Vec<BigInt>, want: impl Fn(&[BigInt]) -> Vec<u64> + Sync + Send + 'static) -> Gadget {
    Gadget { kind, name, args, include, ins, out: "out", vals, bits_from: usize::MAX, text: false, want: Box::new(move |x| Want::Gl(want(x))) }
}
fn gadgets(deep: bool) -> Vec<Gadget> {
    let mut g = vec![];
    for kind in ["BLS12381", "BN128"] {
        let f = "gl.circom";
        g.push(gl(kind, "GLNorm", vec![], f, vec![("in", vec![])], wide(), |x| rs(x)));
        g.push(gl(kind, "GLCNorm", vec![], f, vec![("in", vec![3])], wide(), |x| rs(x)));
        g.push(gl(kind, "GLMul", vec![], f, vec![("ina", vec![]), ("inb", vec![])], wide(), |x| vec![refs::mul(r(&x[0]), r(&x[1]))]));
        g.push(gl(kind, "GLMulAdd", vec![], f, vec![("ina", vec![]), ("inb", vec![]), ("inc", vec![])], wide().into_iter().filter(|x| *x >= b(0)).collect(), |x| {
            vec![refs::add(refs::mul(r(&x[0]), r(&x[1])), r(&x[2]))]
        }));
        g.push(gl(kind, "GLCMul", vec![], f, vec![("ina", vec![3]), ("inb", vec![3])], wide(), |x| refs::e3mul(e3(x), e3(&x[3..])).to_vec()));
        g.push(gl(kind, "GLCMulAdd", vec![], f, vec![("ina", vec![3]), ("inb", vec![3]), ("inc", vec![3])], wide(), |x| {
            refs::e3add(refs::e3mul(e3(x), e3(&x[3..])), e3(&x[6..])).to_vec()
        }));
        let mut i = gl(kind, "GLInv", vec![], f, vec![("in", vec![])], wide().into_iter().filter(|x| *x >= b(0)).collect(), |_| vec![]);
        i.want = Box::new(|x| if r(&x[0]) == 0 { Want::Never } else { Want::Gl(vec![refs::inv(r(&x[0]))]) });
        g.push(i);
        let mut i = gl(kind, "GLCInv", vec![], f, vec![("in", vec![3])], narrow(), |_| vec![]);
        i.want = Box::new(|x| if e3(x) == [0; 3] { Want::Never } else { Want::Gl(refs::e3inv(e3(x)).to_vec()) });
        g.push(i);
        for n in 1..=4 {
            g.push(gl(kind, "EvalPol", vec![n], "evalpol.circom", vec![("pol", vec![n as usize, 3]), ("x", vec![3])], narrow(), move |x| {
                let at = e3(&x[3 * n as usize..]);
                (0..n as usize).rev().fold([0; 3], |s, i| refs::e3add(refs::e3mul(s, at), e3(&x[3 * i..]))).to_vec()
            }));
        }
        for bits in 1..=if deep { 5 } else { 3u64 } {
            for inv in [0, 1] {
                g.push(gl(kind, "FFT", vec![bits, inv], "fft.circom", vec![("in", vec![1 << bits, 3])], narrow(), move |x| {
                    let mut o = vec![0; x.len()];
                    for e in 0..3 {
                        let c: Vec<u64> = x.iter().skip(e).step_by(3).map(r).collect();
                        let t = if inv == 1 { refs::ref_ifft(&c, bits as usize) } else { refs::ref_fft(&c, bits as usize) };
                        t.iter().enumerate().for_each(|(i, v)| o[3 * i + e] = *v);
                    }
                    o
                }));
            }
        }
        for lv in 1..=4u64 {
            for es in [1, 3u64] {
                let n = 1usize << lv;
                g.push(Gadget {
                    bits_from: n * es as usize,
                    ..gl(kind, "TreeSelector", vec![lv, es], "treeselector.circom", vec![("values", vec![n, es as usize]), ("key", vec![lv as usize])], narrow(), move |x| {
                        let k: usize = x[n * es as usize..].iter().enumerate().map(|(i, b)| (r(b) as usize) << i).sum();
                        rs(&x[k * es as usize..(k + 1) * es as usize])
                    })
                });
            }
        }
    }
    let curve = |name, args: Vec<u64>, include, ins, out, vals, want: Box<dyn Fn(&[BigInt]) -> Want + Sync + Send>| Gadget { kind: "BLS12381", name, args, include, ins, out, vals, bits_from: usize::MAX, text: true, want };
    let u4 = |x: &BigInt| -> [u64; 4] {
        let mut d = x.to_biguint().unwrap().to_bytes_le();
        d.resize(32, 0);
        std::array::from_fn(|i| u64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap()))
    };
    let big = |v: &[u64; 4]| BigUint::from_bytes_le(&v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
    let bls = hashref::inst(Curve::Bls);
    let q = BigInt::from(big(&bls.p));
    let elems = vec![b(0), b(1), &q - 1, (b(1) << 254usize) - 1, BigInt::from(P)];
    for n in 1..=16u64 {
        g.push(curve("PoseidonEx", vec![n, n + 1], "poseidon.circom", vec![("inputs", vec![n as usize]), ("initialState", vec![])], "out", elems.clone(), Box::new(move |x| {
            let i: Vec<[u64; 4]> = x.iter().map(u4).collect();
            Want::Exact(bls.perm(&i[n as usize], &i[..n as usize]).iter().map(big).collect())
        })));
        g.push(curve("Poseidon", vec![n], "poseidon.circom", vec![("inputs", vec![n as usize])], "out", elems[..3].to_vec(), Box::new(move |x| {
            let i: Vec<[u64; 4]> = x.iter().map(u4).collect();
            Want::Exact(vec![big(&bls.hash(&[0; 4], &i))])
        })));
    }
    let packed = |v: &[BigInt]| -> Vec<[u64; 4]> {
        v.chunks(3).map(|c| { let mut a = [0; 4]; c.iter().enumerate().for_each(|(i, x)| a[i] = x.to_u64().unwrap()); a }).collect()
    };
    let small = vec![b(0), b(1), b(P as u128 - 1)];
    let row = move |v: &[BigInt]| -> [u64; 4] {
        let p = packed(v);
        match p.len() {
            0 => [0; 4],
            1 => p[0],
            _ => p.chunks(16).fold([0; 4], |s, c| bls.hash(&s, c)),
        }
    };
    for w in (1..=10).chain([46, 47, 48, 49, 51, 52, 95, 96, 97, 100]) {
        for es in [1, 3] {
            if es == 3 && w > 40 {
                continue;
            }
            let mut x = curve("LinearHash", vec![w, es], "linearhash.circom", vec![("in", vec![w as usize, es as usize])], "out", small.clone(), Box::new(move |x| Want::Exact(vec![big(&row(x))])));
            x.text = w < 4 || w == 49;
            g.push(x);
        }
    }
    for (bits, w, es) in [(1, 1, 1), (2, 3, 1), (3, 2, 3), (4, 4, 1), (5, 1, 3), (6, 7, 1), (8, 1, 1), (9, 2, 1)].into_iter().chain(if deep { vec![(7, 2, 1), (10, 1, 1), (12, 1, 1)] } else { vec![] }) {
        let lv = (bits - 1) / 4 + 1;
        let (w, es, lv) = (w as usize, es as usize, lv as usize);
        let mut x = curve("MerkleHash", vec![es as u64, w as u64, 1 << bits], "merklehash.circom", vec![("values", vec![w, es]), ("siblings", vec![lv, 16]), ("key", vec![bits as usize])], "root", small.clone(), Box::new(move |x| {
            let mut h = row(&x[..w * es]);
            let s = &x[w * es..w * es + 16 * lv];
            let key = &x[w * es + 16 * lv..];
            for l in 0..lv {
                let pos: usize = key[4 * l..key.len().min(4 * l + 4)].iter().enumerate().map(|(i, b)| (r(b) as usize) << i).sum();
                let mut i: Vec<[u64; 4]> = s[16 * l..16 * l + 16].iter().map(u4).collect();
                i[pos] = h;
                h = bls.hash(&[0; 4], &i);
            }
            Want::Exact(vec![big(&h)])
        }));
        x.bits_from = w * es + 16 * lv;
        x.text = false;
        g.push(x);
    }
    for ct in [0u64, 1, 2, 3, 5, 0xffff_ffff, 0xffff_ffff_0000_0000, P, P - 1, u64::MAX, u64::MAX - 1, 0x5555_5555_5555_5555] {
        let mut x = curve("CompConstant64", vec![ct], "compconstant64.circom", vec![("in", vec![64])], "out", vec![], Box::new(move |x| {
            let v = x.iter().rev().fold(0u64, |s, b| s << 1 | r(b));
            Want::Exact(vec![BigUint::from((v > ct) as u8)])
        }));
        x.bits_from = 0;
        g.push(x);
    }
    // the three low words of an element, which the prover cannot choose
    let half = (b(1) << 255usize) - &q;
    let el = vec![b(0), b(1), &half - 1, half.clone(), &half + 1, &q - 1, &q - 2, BigInt::from(u64::MAX), b(1) << 64usize, b(1) << 192usize, (b(1) << 254usize) - 1, b(1) << 254usize];
    g.push(curve("BN1toGL3", vec![], "bn1togl3.circom", vec![("in", vec![])], "out", el, Box::new(move |x| Want::Exact(u4(&x[0])[..3].iter().map(|x| BigUint::from(*x)).collect()))));
    g
}
/// other values for one hint of a gadget, or for two that belong together
fn alterations(f: &Field, honest: &[BigUint], all: bool) -> Vec<Vec<(usize, BigUint)>> {
    let p = BigUint::from(P);
    let m = |x: BigInt| field_num(f, &x);
    let q = BigInt::from(f.q.clone());
    let mut out = vec![];
    for (i, v) in honest.iter().enumerate() {
        let v = BigInt::from(v.clone());
        let mut c: Vec<BigUint> = (1..4).flat_map(|d| [m(&v + d), m(&v - d)]).collect();
        for k in [BigInt::zero(), BigInt::one(), (BigInt::one() << 10usize) - 1, BigInt::one() << 10usize, (BigInt::one() << 64usize) - 1, (BigInt::one() << 80usize) - 1, BigInt::one() << 80usize, &q - 1, &q / BigInt::from(P)] {
            c.push(m(k));
        }
        c.push(m(&v + BigInt::from(P)));
        c.push(m(&v - BigInt::from(P)));
        for t in [-2, -1, 1, 2] {
            // what the same number is, one modulus further
            c.push(m((&v * BigInt::from(P) + &q * t) / BigInt::from(P)));
        }
        c.sort();
        c.dedup();
        out.extend(c.into_iter().filter(|x| *x != v.to_biguint().unwrap()).map(|x| vec![(i, x)]));
        // a decomposition as an integer
        out.push(vec![(i, v.to_biguint().unwrap() + &f.q)]);
        for j in 0..honest.len() {
            if i == j || (!all && i.abs_diff(j) > 3) {
                continue;
            }
            let w = BigInt::from(honest[j].clone());
            for d in [-2i32, -1, 1, 2] {
                out.push(vec![(i, m(&v + d)), (j, m(&w - BigInt::from(p.clone()) * d))]);
                out.push(vec![(i, m(&v + d)), (j, m(&w + d))]);
            }
        }
    }
    out
}
pub fn run(mc: &Mc) {
    let (n, h, kept) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let gs = gadgets(mc.thorough());
    let len = gs.len();
    spread(gs, |g| {
        let key = format!("gadget:{}", g.show());
        let f = field_of(g.kind);
        let mut prog = match program(g.kind, &format!("include \"{}\";", g.include), g.text) {
            Ok(p) => p,
            Err(e) => {
                mc.check(false, &key, || e);
                return;
            }
        };
        prog.set_main(g.name, &g.args);
        let l = lib(g.kind, g.text);
        let mut ins = g.inputs(mc.thorough());
        if g.text && g.include != "compconstant64.circom" && !mc.thorough() {
            ins.truncate(120);
        }
        for (at, x) in ins.iter().enumerate() {
            n.fetch_add(1, Relaxed);
            let want = (g.want)(x);
            let log = RefCell::new(vec![]);
            let rec = |_: usize, v: &BigUint| {
                log.borrow_mut().push(v.clone());
                None
            };
            let (got, _) = g.run(&prog, &*l, f, x, Some(&rec));
            let say = |g: &Res<Vec<BigUint>>| format!("{g:?} on {x:?}");
            let ok = match (&want, &got) {
                (_, Err(Er::Malformed(_))) => false,
                (Want::Never, r) => r.is_err(),
                (w, Ok(o)) => g.ok(w, o),
                _ => false,
            };
            if !mc.check(ok, &key, || say(&got)) {
                continue;
            }
            // two backgrounds and a spread of boundary inputs are tried with every altered hint
            let every = if mc.thorough() { 5 } else { 97 };
            if at % every != 0 && ins.len() > 40 || matches!(want, Want::Never) {
                continue;
            }
            let honest = log.into_inner();
            if honest.len() > 60 {
                continue;
            }
            for a in alterations(f, &honest, honest.len() <= 8) {
                h.fetch_add(1, Relaxed);
                let put = |i: usize, _: &BigUint| a.iter().find(|x| x.0 == i).map(|x| x.1.clone());
                let (got, _) = g.run(&prog, &*l, f, x, Some(&put));
                if let Ok(o) = got {
                    kept.fetch_add(1, Relaxed);
                    mc.check(g.ok(&want, &o), &format!("{key}:hints"), || format!("on {x:?} the choice {a:?} gives {o:?}"));
                }
            }
        }
    });
    let (n, h) = (n.load(Relaxed), h.load(Relaxed));
    mc.states(n + h);
    mc.transitions(n + h);
    mc.traces(n + h);
    mc.evals(n + h, n + h);
    mc.section("gadgets", json!({"gadgets x parameters": len, "inputs": n, "other choices of unconstrained values": h, "of which the circuit takes": kept.load(Relaxed)}));
}
