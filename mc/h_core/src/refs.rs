//! Reference arithmetic, written from the definitions and sharing no code with the crates under
//! test: GF(p) on u128, GF(p^3) = GF(p)[x]/(x^3-x-1), GF(p^5) = GF(p)[x]/(x^5-3), over u64.
pub const P: u64 = 0xFFFF_FFFF_0000_0001;
pub fn add(a: u64, b: u64) -> u64 {
    ((a as u128 + b as u128) % P as u128) as u64
}
pub fn sub(a: u64, b: u64) -> u64 {
    ((a as u128 + P as u128 - b as u128) % P as u128) as u64
}
pub fn mul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
pub fn neg(a: u64) -> u64 {
    sub(0, a)
}
pub fn pow(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1u64;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, b);
        }
        b = mul(b, b);
        e >>= 1;
    }
    r
}
/// extended Euclid, not Fermat: independent of the exponentiation chain under test
pub fn inv(a: u64) -> u64 {
    if a == 0 {
        return 0;
    }
    let (mut r0, mut r1) = (P as i128, a as i128);
    let (mut t0, mut t1) = (0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    assert_eq!(r0, 1);
    t0.rem_euclid(P as i128) as u64
}
pub type E3 = [u64; 3];
pub fn e3add(a: E3, b: E3) -> E3 {
    [add(a[0], b[0]), add(a[1], b[1]), add(a[2], b[2])]
}
pub fn e3sub(a: E3, b: E3) -> E3 {
    [sub(a[0], b[0]), sub(a[1], b[1]), sub(a[2], b[2])]
}
pub fn e3mul(a: E3, b: E3) -> E3 {
    let r = polymul(&a, &b);
    // x^3 = x + 1, x^4 = x^2 + x
    [
        add(r[0], r[3]),
        add(add(r[1], r[3]), r[4]),
        add(r[2], r[4]),
    ]
}
pub fn e3s(a: u64) -> E3 {
    [a, 0, 0]
}
pub fn e3pow(mut b: E3, mut e: u128) -> E3 {
    let mut r = [1, 0, 0];
    while e > 0 {
        if e & 1 == 1 {
            r = e3mul(r, b);
        }
        b = e3mul(b, b);
        e >>= 1;
    }
    r
}
/// inverse by solving a*b = 1 as a linear system over GF(p)
pub fn einv(a: &[u64], mulf: impl Fn(&[u64], &[u64]) -> Vec<u64>) -> Vec<u64> {
    let n = a.len();
    let mut m = vec![vec![0u64; n + 1]; n];
    for j in 0..n {
        let mut e = vec![0; n];
        e[j] = 1;
        let c = mulf(a, &e);
        for i in 0..n {
            m[i][j] = c[i];
        }
    }
    m[0][n] = 1;
    for c in 0..n {
        let p = (c..n).find(|&r| m[r][c] != 0).expect("singular");
        m.swap(c, p);
        let iv = inv(m[c][c]);
        for k in 0..=n {
            m[c][k] = mul(m[c][k], iv);
        }
        for r in 0..n {
            if r != c && m[r][c] != 0 {
                let f = m[r][c];
                for k in 0..=n {
                    m[r][k] = sub(m[r][k], mul(f, m[c][k]));
                }
            }
        }
    }
    (0..n).map(|i| m[i][n]).collect()
}
pub fn e3inv(a: E3) -> E3 {
    let v = einv(&a, |x, y| e3mul([x[0], x[1], x[2]], [y[0], y[1], y[2]]).to_vec());
    [v[0], v[1], v[2]]
}
pub fn polymul(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = vec![0; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = add(r[i + j], mul(*x, *y));
        }
    }
    r
}
/// boundary values of the canonical range and of the 64-bit limb
pub fn special(dense: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for i in 0..64u32 {
        let b = 1u64 << i;
        for d in [0i64, 1, -1] {
            let x = b.wrapping_add(d as u64);
            v.push(x);
            v.push(P.wrapping_sub(x));
        }
    }
    for i in 0..dense as u64 {
        v.push(i);
        v.push(P - 1 - i);
        v.push((P - 1) / 2 + i);
        v.push((P - 1) / 2 - i);
        v.push((1u64 << 32) - 1 - i);
        v.push((1u64 << 32) + i);
        v.push(inv(i + 1));
        v.push(neg(inv(i + 1)));
        v.push(((i + 1) << 32) - 1);
        v.push((i + 1) << 32);
        v.push(0xFFFF_FFFE_0000_0001u64.wrapping_add(i));
        v.push(0xFFFF_FFFE_0000_0001u64.wrapping_sub(i));
    }
    for i in 0..dense as u64 {
        v.push(mc_common::mix(i) % P);
    }
    v.retain(|x| *x < P);
    v.sort();
    v.dedup();
    v
}
/// primitive 2^k-th root of unity used throughout: 7^((p-1)/2^k)
pub fn omega(k: usize) -> u64 {
    pow(7, (P - 1) >> k)
}
/// evaluations of the coefficient vector on shift * <omega>, by Horner's rule: the definition
pub fn ref_dft(c: &[u64], k: usize, shift: u64) -> Vec<u64> {
    let w = omega(k);
    let mut x = shift;
    (0..1usize << k)
        .map(|_| {
            let v = c.iter().rev().fold(0, |acc, ci| add(mul(acc, x), *ci));
            x = mul(x, w);
            v
        })
        .collect()
}
/// the same by the recursive even/odd split, for sizes where Horner is too slow
pub fn ref_fft(c: &[u64], k: usize) -> Vec<u64> {
    fn go(c: Vec<u64>, w: u64) -> Vec<u64> {
        let n = c.len();
        if n == 1 {
            return c;
        }
        let w2 = mul(w, w);
        let e = go(c.iter().step_by(2).copied().collect(), w2);
        let o = go(c.iter().skip(1).step_by(2).copied().collect(), w2);
        let mut r = vec![0; n];
        let mut t = 1;
        for i in 0..n / 2 {
            let x = mul(t, o[i]);
            r[i] = add(e[i], x);
            r[i + n / 2] = sub(e[i], x);
            t = mul(t, w);
        }
        r
    }
    go(c.to_vec(), omega(k))
}
pub fn ref_ifft(v: &[u64], k: usize) -> Vec<u64> {
    let f = ref_fft(v, k);
    let n = v.len();
    let ni = inv(n as u64);
    (0..n).map(|i| mul(f[(n - i) % n], ni)).collect()
}
/// a column evaluated on the coset of 2^ext points shifted by 49
pub fn ref_ext(col: &[u64], ext: usize) -> Vec<u64> {
    ref_dft(&ref_idft(col), ext, 49)
}
pub fn ref_idft(col: &[u64]) -> Vec<u64> {
    ref_ifft(col, col.len().trailing_zeros() as usize)
}
/// polynomial with base-field coefficients at a point of the cubic extension
pub fn eval3(c: &[u64], x: E3) -> E3 {
    c.iter().rev().fold([0; 3], |a, c| e3add(e3mul(a, x), e3s(*c)))
}
