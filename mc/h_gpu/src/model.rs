//! The circuit-file and witness-file formats, written from their specifications
//! (iden3 r1csfile and wtns), and the data the harnesses of both crates exchange.
use num_bigint::BigUint;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fld {
    Bn,
    Bls,
    Gl,
}
impl Fld {
    pub fn p(&self) -> BigUint {
        match self {
            Fld::Bn => "21888242871839275222246405745257275088548364400416034343698204186575808495617",
            Fld::Bls => "52435875175126190479447740508185965837690552500527637822603658699938581184513",
            Fld::Gl => "18446744069414584321",
        }
        .parse()
        .unwrap()
    }
    pub fn size(&self) -> usize {
        if *self == Fld::Gl {
            8
        } else {
            32
        }
    }
    pub fn le(&self, x: &BigUint) -> Vec<u8> {
        let mut v = x.to_bytes_le();
        v.resize(self.size(), 0);
        v
    }
    pub fn ok(&self, b: &[u8]) -> bool {
        BigUint::from_bytes_le(b) < self.p()
    }
    /// boundary values of the field
    pub fn values(&self) -> Vec<BigUint> {
        let p = self.p();
        let one = BigUint::from(1u8);
        let mut v: Vec<BigUint> = [0u32, 1, 2, 77, 255, 256].iter().map(|x| BigUint::from(*x)).collect();
        for k in [32usize, 63, 64, 128, 192, 248, 253, 254] {
            if k < self.size() * 8 {
                for x in [(one.clone() << k) - &one, one.clone() << k] {
                    if x < p {
                        v.push(x);
                    }
                }
            }
        }
        v.push(&p - &one);
        v.push(&p - BigUint::from(2u8));
        v.push(&p >> 1);
        v.sort();
        v.dedup();
        v
    }
}
pub type Lc = Vec<(usize, Vec<u8>)>;
#[derive(Clone, PartialEq, Debug)]
pub struct Parsed {
    pub version: u32,
    pub field_size: u32,
    pub prime: Vec<u8>,
    pub n_wires: u32,
    pub n_pub_out: u32,
    pub n_pub_in: u32,
    pub n_prv_in: u32,
    pub n_labels: u64,
    pub n_constraints: u32,
    pub use_custom_gates: bool,
    pub cons: Vec<[Lc; 3]>,
    pub map: Vec<u64>,
    pub gates: Vec<(String, Vec<Vec<u8>>)>,
    pub uses: Vec<(u64, Vec<u64>)>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Loaded {
    pub inputs: usize,
    pub aux: usize,
    pub vars: usize,
    pub outs: usize,
    pub cons: Vec<[Lc; 3]>,
    pub gates: Vec<(String, Vec<Vec<u8>>)>,
    pub uses: Vec<(u64, Vec<u64>)>,
    pub map: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct Circ {
    pub inputs: usize,
    pub aux: usize,
    pub cons: Vec<[Lc; 3]>,
    pub witness: Option<Vec<Vec<u8>>>,
    pub map: Option<Vec<usize>>,
    pub offset: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum V {
    In(usize),
    Aux(usize),
}
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Synth {
    pub keygen: bool,
    pub inputs: Vec<Vec<u8>>,
    pub aux: Vec<Vec<u8>>,
    pub cons: Vec<[Vec<(V, Vec<u8>)>; 3]>,
}

/// a circuit file as written: sections in the order given
#[derive(Clone, Debug)]
pub struct File {
    pub f: Fld,
    pub h: [u32; 4], // wires, public outputs, public inputs, private inputs
    pub n_labels: u64,
    pub cons: Vec<[Lc; 3]>,
    pub map: Vec<u64>,
    pub gates: Vec<(String, Vec<Vec<u8>>)>,
    pub uses: Vec<(u64, Vec<u64>)>,
    /// section types in file order; anything above 5 is a section of no known type
    pub order: Vec<u32>,
}
impl File {
    pub fn section(&self, t: u32) -> Vec<u8> {
        let mut o = vec![];
        let w32 = |o: &mut Vec<u8>, x: u32| o.extend(x.to_le_bytes());
        match t {
            1 => {
                w32(&mut o, self.f.size() as u32);
                o.extend(self.f.le(&self.f.p()));
                self.h.iter().for_each(|x| w32(&mut o, *x));
                o.extend(self.n_labels.to_le_bytes());
                w32(&mut o, self.cons.len() as u32);
            }
            2 => {
                for c in &self.cons {
                    for l in c {
                        w32(&mut o, l.len() as u32);
                        for (i, x) in l {
                            w32(&mut o, *i as u32);
                            o.extend(x);
                        }
                    }
                }
            }
            3 => self.map.iter().for_each(|x| o.extend(x.to_le_bytes())),
            4 => {
                w32(&mut o, self.gates.len() as u32);
                for (n, ps) in &self.gates {
                    o.extend(n.as_bytes());
                    o.push(0);
                    w32(&mut o, ps.len() as u32);
                    ps.iter().for_each(|p| o.extend(p));
                }
            }
            5 => {
                w32(&mut o, self.uses.len() as u32);
                for (id, s) in &self.uses {
                    w32(&mut o, *id as u32);
                    w32(&mut o, s.len() as u32);
                    s.iter().for_each(|x| o.extend(x.to_le_bytes()));
                }
            }
            t => o.extend(vec![t as u8; t as usize]),
        }
        o
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = b"r1cs".to_vec();
        o.extend(1u32.to_le_bytes());
        o.extend((self.order.len() as u32).to_le_bytes());
        for t in &self.order {
            let s = self.section(*t);
            o.extend(t.to_le_bytes());
            o.extend((s.len() as u64).to_le_bytes());
            o.extend(s);
        }
        o
    }
}

struct Cur<'a>(&'a [u8]);
impl Cur<'_> {
    fn take(&mut self, n: u64) -> Option<Vec<u8>> {
        if (self.0.len() as u64) < n {
            return None;
        }
        let (a, b) = self.0.split_at(n as usize);
        self.0 = b;
        Some(a.to_vec())
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn el(&mut self, f: Fld) -> Option<Vec<u8>> {
        let x = self.take(f.size() as u64)?;
        f.ok(&x).then_some(x)
    }
    fn lc(&mut self, f: Fld, wires: u32) -> Option<Lc> {
        let n = self.u32()?;
        let mut v = vec![];
        for _ in 0..n {
            let w = self.u32()?;
            if w >= wires {
                return None;
            }
            v.push((w as usize, self.el(f)?));
        }
        v.sort_by_key(|x| x.0);
        Some(v)
    }
    fn end(&self) -> Option<()> {
        self.0.is_empty().then_some(())
    }
}
pub enum Want {
    Is(Box<Parsed>),
    Refused,
    /// the formats do not say
    Any,
}
/// the file format: what a file says in field f, or that it is malformed
pub fn reference(f: Fld, b: &[u8]) -> Want {
    let mut any = false;
    match go(f, b, &mut any) {
        _ if any => Want::Any,
        Some(p) => Want::Is(Box::new(p)),
        None => Want::Refused,
    }
}
fn go(f: Fld, b: &[u8], any: &mut bool) -> Option<Parsed> {
    let mut c = Cur(b);
    if c.take(4)? != b"r1cs" || c.u32()? != 1 {
        return None;
    }
    let n = c.u32()?;
    let mut sec: Vec<(u32, Option<Vec<u8>>)> = vec![];
    for i in 0..n {
        let t = c.u32()?;
        let size = c.u64()?;
        if size > i64::MAX as u64 {
            return None;
        }
        let s = c.take(size);
        if s.is_none() && i + 1 < n {
            return None;
        }
        if sec.iter().any(|x| x.0 == t) {
            return None;
        }
        sec.push((t, s));
    }
    let get = |t: u32| sec.iter().find(|x| x.0 == t).map(|x| x.1.clone());
    // a file that ends inside a section of no known type
    if sec.last().is_some_and(|x| x.1.is_none() && !(1..=5).contains(&x.0)) {
        *any = true;
    }
    let hs = get(1)??;
    let mut h = Cur(&hs);
    let field_size = h.u32()?;
    if field_size as usize != f.size() || hs.len() as u64 != 32 + field_size as u64 {
        return None;
    }
    let prime = h.take(field_size as u64)?;
    if BigUint::from_bytes_le(&prime) != f.p() {
        return None;
    }
    let (n_wires, n_pub_out, n_pub_in, n_prv_in) = (h.u32()?, h.u32()?, h.u32()?, h.u32()?);
    let (n_labels, n_constraints) = (h.u64()?, h.u32()?);
    h.end()?;
    if 1 + n_pub_out as u64 + n_pub_in as u64 > n_wires as u64 {
        return None;
    }
    let cs = get(2)??;
    let mut k = Cur(&cs);
    let mut cons = vec![];
    for _ in 0..n_constraints {
        cons.push([k.lc(f, n_wires)?, k.lc(f, n_wires)?, k.lc(f, n_wires)?]);
    }
    k.end()?;
    let ms = get(3)??;
    if ms.len() as u64 != n_wires as u64 * 8 {
        return None;
    }
    let map: Vec<u64> = ms.chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
    if map.first() != Some(&0) {
        return None;
    }
    let mut gates = vec![];
    if let Some(g) = get(4) {
        let g = g?;
        let mut g = Cur(&g);
        for _ in 0..g.u32()? {
            let mut name = vec![];
            loop {
                match g.take(1)?[0] {
                    0 => break,
                    x => name.push(x),
                }
            }
            let mut ps = vec![];
            for _ in 0..g.u32()? {
                ps.push(g.el(f)?);
            }
            gates.push((String::from_utf8_lossy(&name).to_string(), ps));
        }
        g.end()?;
    }
    let mut uses = vec![];
    if let Some(u) = get(5) {
        let u = u?;
        let mut u = Cur(&u);
        for _ in 0..u.u32()? {
            let id = u.u32()? as u64;
            let mut s = vec![];
            for _ in 0..u.u32()? {
                s.push(u.u64()?);
            }
            uses.push((id, s));
        }
        u.end()?;
    }
    Some(Parsed {
        version: 1,
        field_size,
        prime,
        n_wires,
        n_pub_out,
        n_pub_in,
        n_prv_in,
        n_labels,
        n_constraints,
        use_custom_gates: get(4).is_some() && get(5).is_some(),
        cons,
        map,
        gates,
        uses,
    })
}

/// a reader that hands out its bytes in pieces, with interruptions in between
pub struct Pieces<'a> {
    pub b: &'a [u8],
    pub at: usize,
    pub n: usize,
    pub intr: bool,
}
impl<'a> Pieces<'a> {
    pub fn new(b: &'a [u8], n: usize) -> Self {
        Pieces { b, at: 0, n, intr: false }
    }
}
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        if self.n == 2 {
            self.intr = !self.intr;
            if self.intr {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
        }
        let left = self.b.get(self.at..).unwrap_or(&[]);
        let n = left.len().min(o.len()).min(self.n);
        o[..n].copy_from_slice(&left[..n]);
        self.at += n;
        Ok(n)
    }
}
impl std::io::Seek for Pieces<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let x = match p {
            std::io::SeekFrom::Start(x) => x as i128,
            std::io::SeekFrom::Current(d) => self.at as i128 + d as i128,
            std::io::SeekFrom::End(d) => self.b.len() as i128 + d as i128,
        };
        if x < 0 || x > i64::MAX as i128 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.at = x as usize;
        Ok(x as u64)
    }
}

pub fn dir(p: &str) -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("mc_{p}_{}_{}", crate::api::NAME, std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn words(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for l in &last {
            for x in 0..n {
                let mut m: Vec<usize> = l.clone();
                m.push(x);
                next.push(m);
            }
        }
        all.extend(next.clone());
        last = next;
    }
    all
}
