//! Reference arithmetic in a 4-limb prime field (Montgomery, written from the definition), the
//! Grain LFSR of the Poseidon paper and the textbook Poseidon permutation.
pub type U4 = [u64; 4];

#[derive(Clone, Debug)]
pub struct Mp {
    pub p: U4,
    n0: u64,
    r2: U4,
}
pub const BN: U4 = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
pub const BLS: U4 = [0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48];

pub fn geq(a: &U4, b: &U4) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
pub fn sub4(a: &U4, b: &U4) -> (U4, bool) {
    let mut r = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(br as u64);
        r[i] = x;
        br = b1 | b2;
    }
    (r, br)
}
fn add4(a: &U4, b: &U4) -> (U4, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
impl Mp {
    pub fn new(p: U4) -> Self {
        let mut n0 = 1u64;
        for _ in 0..6 {
            n0 = n0.wrapping_mul(2u64.wrapping_sub(p[0].wrapping_mul(n0)));
        }
        let mut m = Mp { p, n0: n0.wrapping_neg(), r2: [0; 4] };
        let mut t = [1, 0, 0, 0];
        for _ in 0..512 {
            t = m.add(&t, &t);
        }
        m.r2 = t;
        m
    }
    pub fn add(&self, a: &U4, b: &U4) -> U4 {
        let (s, c) = add4(a, b);
        if c || geq(&s, &self.p) {
            sub4(&s, &self.p).0
        } else {
            s
        }
    }
    pub fn sub(&self, a: &U4, b: &U4) -> U4 {
        let (s, br) = sub4(a, b);
        if br {
            add4(&s, &self.p).0
        } else {
            s
        }
    }
    /// a*b*2^-256
    pub fn mmul(&self, a: &U4, b: &U4) -> U4 {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + a[i] as u128 * b[j] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let m = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + m as u128 * self.p[0] as u128) >> 64;
            for j in 1..4 {
                c += t[j] as u128 + m as u128 * self.p[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, &self.p) {
            sub4(&r, &self.p).0
        } else {
            r
        }
    }
    pub fn to_m(&self, a: &U4) -> U4 {
        let mut a = *a;
        while geq(&a, &self.p) {
            a = sub4(&a, &self.p).0;
        }
        self.mmul(&a, &self.r2)
    }
    pub fn from_m(&self, a: &U4) -> U4 {
        self.mmul(a, &[1, 0, 0, 0])
    }
    /// product of canonical values
    pub fn mul(&self, a: &U4, b: &U4) -> U4 {
        self.mmul(&self.to_m(a), b)
    }
    pub fn pow(&self, a: &U4, e: &U4) -> U4 {
        let b = self.to_m(a);
        let mut r = self.to_m(&[1, 0, 0, 0]);
        for i in (0..256).rev() {
            r = self.mmul(&r, &r);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = self.mmul(&r, &b);
            }
        }
        self.from_m(&r)
    }
    pub fn inv(&self, a: &U4) -> U4 {
        self.pow(a, &sub4(&self.p, &[2, 0, 0, 0]).0)
    }
    pub fn neg(&self, a: &U4) -> U4 {
        self.sub(&[0; 4], a)
    }
}

pub struct Grain {
    st: std::collections::VecDeque<u8>,
    n: usize,
}
impl Grain {
    pub fn new(field: u64, sbox: u64, n: usize, t: usize, rf: usize, rp: usize) -> Self {
        let mut st = std::collections::VecDeque::new();
        for (v, l) in [(field, 2), (sbox, 4), (n as u64, 12), (t as u64, 12), (rf as u64, 10), (rp as u64, 10), ((1 << 30) - 1, 30)] {
            for i in (0..l).rev() {
                st.push_back(((v >> i) & 1) as u8);
            }
        }
        let mut g = Grain { st, n };
        for _ in 0..160 {
            g.next();
        }
        g
    }
    fn next(&mut self) -> u8 {
        let s = &self.st;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.st.pop_front();
        self.st.push_back(b);
        b
    }
    fn bit(&mut self) -> u8 {
        loop {
            let a = self.next();
            let b = self.next();
            if a == 1 {
                return b;
            }
        }
    }
    pub fn num(&mut self) -> U4 {
        let mut r = [0u64; 4];
        for i in (0..self.n).rev() {
            r[i / 64] |= (self.bit() as u64) << (i % 64);
        }
        r
    }
    pub fn field(&mut self, p: &U4) -> U4 {
        loop {
            let v = self.num();
            if !geq(&v, p) {
                return v;
            }
        }
    }
}

/// one width of a Poseidon instance, all values in Montgomery form
pub struct Spec {
    pub t: usize,
    pub rf: usize,
    pub rp: usize,
    pub c: Vec<U4>,
    pub m: Vec<Vec<U4>>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mds {
    /// the paper's script: Cauchy matrix over 2t further Grain elements
    Grain,
    /// neptune: Cauchy matrix over x_i = i, y_j = t + j
    Seq,
}
pub fn spec(f: &Mp, sbox: u64, n: usize, t: usize, rf: usize, rp: usize, mds: Mds) -> Spec {
    let mut g = Grain::new(1, sbox, n, t, rf, rp);
    let c: Vec<U4> = (0..t * (rf + rp)).map(|_| f.to_m(&g.field(&f.p))).collect();
    let xy: Vec<U4> = match mds {
        Mds::Grain => loop {
            let v: Vec<U4> = (0..2 * t)
                .map(|_| {
                    let mut x = g.num();
                    while geq(&x, &f.p) {
                        x = sub4(&x, &f.p).0;
                    }
                    x
                })
                .collect();
            let mut s = v.clone();
            s.sort();
            s.dedup();
            if s.len() == 2 * t {
                break v;
            }
        },
        Mds::Seq => (0..2 * t as u64).map(|i| [i, 0, 0, 0]).collect(),
    };
    let m = (0..t).map(|i| (0..t).map(|j| f.to_m(&f.inv(&f.add(&xy[i], &xy[t + j])))).collect()).collect();
    Spec { t, rf, rp, c, m }
}
/// textbook Poseidon with x^5 on canonical values
pub fn permute(f: &Mp, s: &Spec, inp: &[U4]) -> Vec<U4> {
    let mut st: Vec<U4> = inp.iter().map(|x| f.to_m(x)).collect();
    for r in 0..s.rf + s.rp {
        for i in 0..s.t {
            st[i] = f.add(&st[i], &s.c[r * s.t + i]);
        }
        let full = r < s.rf / 2 || r >= s.rf / 2 + s.rp;
        for i in 0..if full { s.t } else { 1 } {
            let x = st[i];
            let x2 = f.mmul(&x, &x);
            let x4 = f.mmul(&x2, &x2);
            st[i] = f.mmul(&x4, &x);
        }
        st = (0..s.t)
            .map(|i| {
                let mut a = [0; 4];
                for j in 0..s.t {
                    a = f.add(&a, &f.mmul(&s.m[i][j], &st[j]));
                }
                a
            })
            .collect();
    }
    st.iter().map(|x| f.from_m(x)).collect()
}

// ------------------------------------------------------------------ Goldilocks instance
use crate::refs;
const CIRC: [u64; 12] = [17, 15, 41, 16, 2, 28, 13, 13, 39, 18, 34, 20];
pub fn gl_constants() -> Vec<u64> {
    include_str!("../data/poseidon_gl_c.txt").lines().map(|l| u64::from_str_radix(&l[2..], 16).unwrap()).collect()
}
/// Poseidon over Goldilocks, t = 12, 8 full and 22 partial rounds, x^7, circulant-plus-diagonal MDS
pub fn gl_permute(c: &[u64], inp: &[u64; 12]) -> [u64; 12] {
    let mut st = *inp;
    for r in 0..30 {
        st = gl_round(c, r, &st);
    }
    st
}
pub fn gl_round(c: &[u64], r: usize, inp: &[u64; 12]) -> [u64; 12] {
    let mut st = *inp;
    for i in 0..12 {
        st[i] = refs::add(st[i], c[r * 12 + i]);
    }
    for i in 0..if (4..26).contains(&r) { 1 } else { 12 } {
        st[i] = refs::pow(st[i], 7);
    }
    let mut n = [0u64; 12];
    for i in 0..12 {
        let mut a = 0u128;
        for j in 0..12 {
            let mut k = CIRC[(12 + j - i) % 12];
            if i == 0 && j == 0 {
                k += 8;
            }
            a += k as u128 * st[j] as u128;
        }
        n[i] = (a % refs::P as u128) as u64;
    }
    n
}
