//! Vector builds: every lane of the packed field against the scalar definition, and the hashes,
//! rows, trees, transcripts and proofs of a vector build against the references the scalar build
//! is judged by. The same source is built once for each instruction set.
use mc_common::*;

#[cfg(any(target_feature = "avx2", target_feature = "avx512f"))]
mod packed {
    use crate::refs;
    #[cfg(not(target_feature = "avx512f"))]
    use fields::arch::x86_64::avx2_field_gl::Avx2GoldilocksField as V;
    #[cfg(target_feature = "avx512f")]
    use fields::arch::x86_64::avx512_field_gl::Avx512GoldilocksField as V;
    use fields::field_gl::FrRepr;
    use fields::packed::PackedField;
    use mc_common::*;
    use serde_json::json;

    pub const W: usize = <V as PackedField>::WIDTH;
    fn v(x: &[u64]) -> V {
        *V::from_slice(&x.iter().map(|a| FrRepr([*a])).collect::<Vec<_>>())
    }
    fn u(x: &V) -> Vec<u64> {
        x.as_slice().iter().map(|a| a.0[0]).collect()
    }
    /// a 128-bit number modulo the field
    fn red(hi: u64, lo: u64) -> u64 {
        ((((hi as u128) << 64) | lo as u128) % refs::P as u128) as u64
    }
    fn words() -> Vec<u64> {
        let mut w = vec![];
        for x in [0u64, 1 << 31, 1 << 32, 1 << 33, 1 << 63, u32::MAX as u64, refs::P, refs::P >> 1, u64::MAX, 0xffff_fffe_0000_0000, 0xffff_ffff_0000_0000, 0x8000_0000_7fff_ffff, 0x0000_0001_ffff_ffff, 0xffff_fffe_ffff_ffff] {
            for d in -2i64..=2 {
                w.push(x.wrapping_add(d as u64));
            }
        }
        w.sort();
        w.dedup();
        w
    }
    pub fn run(mc: &Mc) {
        let sp = refs::special(mc.pick(40, 400));
        let n = sp.len();
        let mut done = 0u64;
        // all pairs, in lanes that hold different pairs each time
        let at = |k: usize| -> (u64, u64) { (sp[k / n % n], sp[k % n]) };
        let mut one = |name: &str, shift: usize, f: &dyn Fn(V, V) -> V, g: &dyn Fn(u64, u64) -> u64| {
            for k in (0..n * n).step_by(W) {
                let p: Vec<(u64, u64)> = (0..W).map(|l| at(k + (l + shift) % W)).collect();
                let a: Vec<u64> = p.iter().map(|x| x.0).collect();
                let b: Vec<u64> = p.iter().map(|x| x.1).collect();
                let want: Vec<u64> = p.iter().map(|x| g(x.0, x.1)).collect();
                let got = guard(|| u(&f(v(&a), v(&b))));
                mc.check(got.as_ref() == Ok(&want), &format!("packed:{name}"), || format!("{a:x?} {b:x?} gives {got:x?}, not {want:x?}"));
                done += W as u64;
            }
        };
        for s in 0..if mc.thorough() { W } else { 2 } {
            one("add", s, &|a, b| a + b, &refs::add);
            one("sub", s, &|a, b| a - b, &refs::sub);
            one("mul", s, &|a, b| a * b, &refs::mul);
            one("square", s, &|a, _| a.square(), &|a, _| refs::mul(a, a));
            one("neg", s, &|a, _| -a, &|a, _| refs::neg(a));
            one(
                "assign",
                s,
                &|a, b| {
                    let mut x = a;
                    x += b;
                    x *= a;
                    x -= b;
                    x
                },
                &|a, b| refs::sub(refs::mul(refs::add(a, b), a), b),
            );
            one("chain", s, &|a, b| (-(a - b)) * (b - a) + (-a), &|a, b| refs::add(refs::mul(refs::sub(b, a), refs::sub(b, a)), refs::neg(a)));
        }
        // one operand the same in every lane
        for (i, x) in sp.iter().enumerate() {
            let a: Vec<u64> = (0..W).map(|l| sp[(i * 7 + l * 3 + 1) % n]).collect();
            let r = FrRepr([*x]);
            let each = |g: &dyn Fn(u64) -> u64| a.iter().map(|a| g(*a)).collect::<Vec<_>>();
            let mut put = |name: &str, got: Result<Vec<u64>, String>, want: Vec<u64>| {
                mc.check(got == Ok(want.clone()), &format!("packed:{name}"), || format!("{a:x?} with {x:x} gives {got:x?}, not {want:x?}"));
                done += W as u64;
            };
            put("add scalar", guard(|| u(&(v(&a) + r))), each(&|a| refs::add(a, *x)));
            put("scalar add", guard(|| u(&(r + v(&a)))), each(&|a| refs::add(a, *x)));
            put("sub scalar", guard(|| u(&(v(&a) - r))), each(&|a| refs::sub(a, *x)));
            put("scalar sub", guard(|| u(&(r - v(&a)))), each(&|a| refs::sub(*x, a)));
            put("mul scalar", guard(|| u(&(v(&a) * r))), each(&|a| refs::mul(a, *x)));
            put("scalar mul", guard(|| u(&(r * v(&a)))), each(&|a| refs::mul(a, *x)));
            if *x != 0 {
                put("div scalar", guard(|| u(&(v(&a) / r))), each(&|a| refs::mul(a, refs::inv(*x))));
            }
            put("from", guard(|| u(&V::from(r))), vec![*x; W]);
        }
        // the reduction of a product, for any two words
        let w = words();
        for hi in &w {
            for c in w.chunks(W) {
                let mut lo = c.to_vec();
                lo.resize(W, u64::MAX);
                for rev in [false, true] {
                    if rev {
                        lo.reverse();
                    }
                    let want: Vec<u64> = lo.iter().map(|l| red(*hi, *l)).collect();
                    let got = guard(|| u(&V::reduce(v(&[*hi; W]).get(), v(&lo).get())));
                    mc.check(got == Ok(want.clone()), "packed:reduce", || format!("{hi:x} {lo:x?} gives {got:x?}, not {want:x?}"));
                    done += W as u64;
                }
            }
        }
        // interleaving transposes blocks; the constants and slices are what they say
        let a: Vec<u64> = (0..W as u64).collect();
        let b: Vec<u64> = (100..100 + W as u64).collect();
        let mut bl = 1;
        while bl <= W {
            let (mut x, mut y) = (a.clone(), b.clone());
            for c in 0..W / bl {
                for k in 0..bl {
                    // chunk 2m of the first and of the second; chunk 2m+1 of the first and of the second
                    let m = c / 2;
                    let from = if c % 2 == 0 { &a } else { &b };
                    let (s0, s1) = (2 * m * bl + k, (2 * m + 1) * bl + k);
                    if bl < W {
                        x[c * bl + k] = from[s0];
                        y[c * bl + k] = from[s1];
                    }
                }
            }
            let got = guard(|| {
                let (p, q) = v(&a).interleave(v(&b), bl);
                (u(&p), u(&q))
            });
            mc.check(got == Ok((x.clone(), y.clone())), "packed:interleave", || format!("blocks of {bl}: {got:?}, not {x:?} {y:?}"));
            bl *= 2;
        }
        for bl in [0, 3, W * 2] {
            mc.check(guard(|| v(&a).interleave(v(&b), bl)).is_err(), "packed:interleave", || format!("blocks of {bl} are accepted"));
        }
        mc.check(u(&V::ZEROS) == vec![0; W] && u(&V::ONES) == vec![1; W] && u(&V::default()) == vec![0; W], "packed:constants", || String::new());
        for len in 0..=3 * W + 1 {
            let mut x: Vec<FrRepr> = (0..len as u64).map(|i| FrRepr([i])).collect();
            let got = guard(|| V::pack_slice(&x).iter().flat_map(u).collect::<Vec<_>>());
            let ok = if len % W == 0 { got == Ok((0..len as u64).collect()) } else { got.is_err() };
            mc.check(ok, "packed:slices", || format!("{len} values: {got:?}"));
            if len % W == 0 {
                for y in V::pack_slice_mut(&mut x) {
                    *y = *y + *y;
                }
                let got: Vec<u64> = x.iter().map(|a| a.0[0]).collect();
                mc.check(got == (0..len as u64).map(|i| 2 * i).collect::<Vec<_>>(), "packed:slices", || format!("{len} values doubled: {got:?}"));
            }
        }
        mc.states(done);
        mc.transitions(done);
        mc.traces(done);
        mc.evals(done, done);
        mc.section(&format!("packed field, {W} lanes"), json!({"lane results": done, "values": n}));
    }
}

pub fn run(mc: &Mc) {
    #[cfg(any(target_feature = "avx2", target_feature = "avx512f"))]
    {
        packed::run(mc);
        crate::p05_rowhash::run_gl(mc);
        crate::p06_merkle::run_gl(mc);
        crate::p08_transcript::run_gl(mc);
        crate::p11_stark::run_gl(mc);
    }
    #[cfg(not(any(target_feature = "avx2", target_feature = "avx512f")))]
    mc.section("no vector instructions on this processor: nothing explored", serde_json::json!({}));
}
