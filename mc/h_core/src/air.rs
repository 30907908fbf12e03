//! Circuits (constraint systems) for the STARK checks: a small builder that yields the PIL of a
//! circuit, and the reference semantics of its constraints on a trace, over u64 arithmetic mod p.
use crate::refs::{self, P};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub enum X {
    Cm(usize, bool),
    K(usize, bool),
    N(String),
    Pub(usize),
    E(usize, bool),
    Add(Box<X>, Box<X>),
    Sub(Box<X>, Box<X>),
    Mul(Box<X>, Box<X>),
    Neg(Box<X>),
    AddC(Box<X>, i64),
    MulC(Box<X>, i64),
}
pub use X::*;
pub fn add(a: X, b: X) -> X {
    Add(Box::new(a), Box::new(b))
}
pub fn sub(a: X, b: X) -> X {
    Sub(Box::new(a), Box::new(b))
}
pub fn mul(a: X, b: X) -> X {
    Mul(Box::new(a), Box::new(b))
}
pub fn neg(a: X) -> X {
    Neg(Box::new(a))
}
pub fn cm(i: usize) -> X {
    Cm(i, false)
}
pub fn cmn(i: usize) -> X {
    Cm(i, true)
}
pub fn k(i: usize) -> X {
    K(i, false)
}
pub fn n(v: i64) -> X {
    N(v.to_string())
}

impl X {
    pub fn deg(&self, a: &Air) -> usize {
        match self {
            Cm(..) | K(..) => 1,
            N(_) | Pub(_) => 0,
            E(i, _) => a.ex[*i].deg(a),
            Add(x, y) | Sub(x, y) => x.deg(a).max(y.deg(a)),
            Mul(x, y) => x.deg(a) + y.deg(a),
            Neg(x) | AddC(x, _) | MulC(x, _) => x.deg(a),
        }
    }
    /// uses the next row somewhere
    pub fn has_next(&self, a: &Air) -> bool {
        match self {
            Cm(_, p) | K(_, p) => *p,
            N(_) | Pub(_) => false,
            E(i, p) => *p || a.ex[*i].has_next(a),
            Add(x, y) | Sub(x, y) | Mul(x, y) => x.has_next(a) || y.has_next(a),
            Neg(x) | AddC(x, _) | MulC(x, _) => x.has_next(a),
        }
    }
    fn json(&self, a: &Air) -> Value {
        let d = self.deg(a);
        match self {
            Cm(i, p) => json!({"op":"cm","deg":d,"id":i,"next":p}),
            K(i, p) => json!({"op":"const","deg":d,"id":i,"next":p}),
            N(v) => json!({"op":"number","deg":0,"value":v}),
            Pub(i) => json!({"op":"public","deg":0,"id":i}),
            E(i, p) => json!({"op":"exp","deg":d,"id":i,"next":p}),
            Add(x, y) => json!({"op":"add","deg":d,"values":[x.json(a),y.json(a)]}),
            Sub(x, y) => json!({"op":"sub","deg":d,"values":[x.json(a),y.json(a)]}),
            Mul(x, y) => json!({"op":"mul","deg":d,"values":[x.json(a),y.json(a)]}),
            Neg(x) => json!({"op":"neg","deg":d,"values":[x.json(a)]}),
            AddC(x, c) => json!({"op":"addc","deg":d,"const_":c,"values":[x.json(a)]}),
            MulC(x, c) => json!({"op":"mulc","deg":d,"const_":c,"values":[x.json(a)]}),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Cm(i, p) => format!("c{i}{}", if *p { "'" } else { "" }),
            K(i, p) => format!("k{i}{}", if *p { "'" } else { "" }),
            N(v) => v.clone(),
            Pub(i) => format!("pub{i}"),
            E(i, p) => format!("e{i}{}", if *p { "'" } else { "" }),
            Add(x, y) => format!("({}+{})", x.show(), y.show()),
            Sub(x, y) => format!("({}-{})", x.show(), y.show()),
            Mul(x, y) => format!("({}*{})", x.show(), y.show()),
            Neg(x) => format!("-({})", x.show()),
            AddC(x, c) => format!("({}+c{c})", x.show()),
            MulC(x, c) => format!("({}*c{c})", x.show()),
        }
    }
}

pub fn num(s: &str) -> u64 {
    let v: i128 = if let Some(h) = s.strip_prefix("0x") { i128::from_str_radix(h, 16).unwrap() } else { s.parse().unwrap() };
    v.rem_euclid(P as i128) as u64
}

#[derive(Clone, Debug, Default)]
pub struct Lk {
    pub f: Vec<usize>,
    pub t: Vec<usize>,
    pub sf: Option<usize>,
    pub st: Option<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Air {
    pub name: String,
    pub bits: usize,
    /// (is an expression, id of the column or expression, row)
    pub pubs: Vec<(bool, usize, usize)>,
    pub ex: Vec<X>,
    pub ids: Vec<usize>,
    pub pu: Vec<Lk>,
    pub pe: Vec<Lk>,
    pub ci: Vec<(Vec<usize>, Vec<usize>)>,
    /// (constant?, first id, length)
    pub arrays: Vec<(bool, usize, usize)>,
    pub idq: Vec<usize>,
    pub keep: Vec<usize>,
    pub l1: Option<(String, usize)>,
    /// columns: constants and trace
    pub k: Vec<Vec<u64>>,
    pub w: Vec<Vec<u64>>,
}

impl Air {
    pub fn new(name: &str, bits: usize) -> Self {
        Air { name: name.into(), bits, ..Default::default() }
    }
    pub fn rows(&self) -> usize {
        1 << self.bits
    }
    pub fn e(&mut self, x: X) -> usize {
        self.ex.push(x);
        self.ex.len() - 1
    }
    pub fn id(&mut self, x: X) -> usize {
        let e = self.e(x);
        self.ids.push(e);
        e
    }
    pub fn kcol(&mut self, f: impl Fn(usize) -> u64) -> usize {
        self.k.push((0..self.rows()).map(f).collect());
        self.k.len() - 1
    }
    pub fn wcol(&mut self, f: impl Fn(usize) -> u64) -> usize {
        self.w.push((0..self.rows()).map(f).collect());
        self.w.len() - 1
    }
    pub fn global_l1(&mut self) -> usize {
        let i = self.kcol(|r| (r == 0) as u64);
        self.l1 = Some(("Global.L1".into(), i));
        i
    }

    pub fn pil_json(&self) -> Value {
        let deg = self.rows();
        let mut refs = serde_json::Map::new();
        for (is_k, n) in [(true, self.k.len()), (false, self.w.len())] {
            let mut i = 0;
            while i < n {
                let len = self.arrays.iter().find(|a| a.0 == is_k && a.1 == i).map(|a| a.2);
                let ty = if is_k { "constP" } else { "cmP" };
                let name = match &self.l1 {
                    Some((s, id)) if is_k && *id == i => s.clone(),
                    _ => format!("{}.{}{i}", if i % 2 == 0 { "Main" } else { "Aux" }, if is_k { "K" } else { "w" }),
                };
                let mut r = json!({"type": ty, "id": i, "polDeg": deg, "isArray": len.is_some()});
                if let Some(l) = len {
                    r["len"] = json!(l);
                }
                refs.insert(name, r);
                i += len.unwrap_or(1);
            }
        }
        let lk = |v: &Vec<Lk>| -> Value {
            v.iter().map(|l| json!({"f": l.f, "t": l.t, "selF": l.sf, "selT": l.st, "fileName": "a.pil", "line": 1})).collect()
        };
        let ex: Vec<Value> = self
            .ex
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let mut v = x.json(self);
                if let Some(q) = self.idq.iter().position(|e| *e == i) {
                    v["idQ"] = json!(q);
                }
                if self.keep.contains(&i) {
                    v["keep"] = json!(true);
                }
                v
            })
            .collect();
        json!({
            "nCommitments": self.w.len(), "nQ": self.idq.len(), "nIm": 0, "nConstants": self.k.len(),
            "publics": self.pubs.iter().enumerate().map(|(i, p)| json!({
                "polType": if p.0 { "imP" } else { "cmP" }, "polId": p.1, "idx": p.2, "id": i, "name": format!("p{i}")
            })).collect::<Vec<_>>(),
            "references": refs, "expressions": ex,
            "polIdentities": self.ids.iter().map(|e| json!({"e": e, "fileName": "a.pil", "line": 1})).collect::<Vec<_>>(),
            "plookupIdentities": lk(&self.pu), "permutationIdentities": lk(&self.pe),
            "connectionIdentities": self.ci.iter().map(|(p, s)| json!({"pols": p, "connections": s, "fileName": "a.pil", "line": 1})).collect::<Vec<_>>(),
        })
    }

    /// value of an expression on a row; publics are those of this trace
    pub fn eval(&self, x: &X, row: usize, pubs: &[u64]) -> u64 {
        let nx = (row + 1) % self.rows();
        let at = |p: bool| if p { nx } else { row };
        match x {
            Cm(i, p) => self.w[*i][at(*p)],
            K(i, p) => self.k[*i][at(*p)],
            N(s) => num(s),
            Pub(i) => pubs[*i],
            E(i, p) => self.eval(&self.ex[*i], at(*p), pubs),
            Add(a, b) => refs::add(self.eval(a, row, pubs), self.eval(b, row, pubs)),
            Sub(a, b) => refs::sub(self.eval(a, row, pubs), self.eval(b, row, pubs)),
            Mul(a, b) => refs::mul(self.eval(a, row, pubs), self.eval(b, row, pubs)),
            Neg(a) => refs::neg(self.eval(a, row, pubs)),
            AddC(a, c) => refs::add(self.eval(a, row, pubs), num(&c.to_string())),
            MulC(a, c) => refs::mul(self.eval(a, row, pubs), num(&c.to_string())),
        }
    }
    pub fn publics(&self) -> Vec<u64> {
        let mut v = vec![];
        for (im, id, row) in &self.pubs {
            let x = if *im { self.eval(&self.ex[*id], *row, &v) } else { self.w[*id][*row] };
            v.push(x);
        }
        v
    }

    /// whether the trace satisfies every constraint; Err names the first one that it does not
    pub fn valid(&self) -> Result<(), String> {
        let pubs = self.publics();
        for e in &self.ids {
            for r in 0..self.rows() {
                if self.eval(&self.ex[*e], r, &pubs) != 0 {
                    return Err(format!("identity {} on row {r}", self.ex[*e].show()));
                }
            }
        }
        let ev = |e: usize, r: usize| self.eval(&self.ex[e], r, &pubs);
        // a selected tuple as the coefficients of sel*(f_0, f_1, ..) + (1-sel)*default
        let masked = |l: &[usize], s: Option<usize>, r: usize| -> Vec<u64> {
            let s = s.map(|s| ev(s, r)).unwrap_or(1);
            let mut v: Vec<u64> = l.iter().map(|e| refs::mul(s, ev(*e, r))).collect();
            v.push(refs::sub(1, s));
            v
        };
        for (i, l) in self.pu.iter().enumerate() {
            let t: Vec<Vec<u64>> = (0..self.rows()).map(|r| masked(&l.t, l.st, r)).collect();
            let set: HashSet<&Vec<u64>> = t.iter().collect();
            for r in 0..self.rows() {
                // where the selector is 0 the looked-up tuple is that of the table's row
                let s = l.sf.map(|s| ev(s, r)).unwrap_or(1);
                let f: Vec<u64> = (0..=l.f.len())
                    .map(|j| {
                        let x = if j < l.f.len() { ev(l.f[j], r) } else { 0 };
                        refs::add(refs::mul(s, x), refs::mul(refs::sub(1, s), t[r][j]))
                    })
                    .collect();
                if !set.contains(&f) {
                    return Err(format!("lookup {i} on row {r}"));
                }
            }
        }
        for (i, l) in self.pe.iter().enumerate() {
            let mut m: HashMap<Vec<u64>, i64> = HashMap::new();
            for r in 0..self.rows() {
                *m.entry(masked(&l.f, l.sf, r)).or_insert(0) += 1;
                *m.entry(masked(&l.t, l.st, r)).or_insert(0) -= 1;
            }
            if m.values().any(|c| *c != 0) {
                return Err(format!("permutation {i}"));
            }
        }
        for (i, (p, s)) in self.ci.iter().enumerate() {
            let w = refs::omega(self.bits);
            let mut m: HashMap<(u64, u64), i64> = HashMap::new();
            for j in 0..p.len() {
                for r in 0..self.rows() {
                    let id = refs::mul(kj(j), refs::pow(w, r as u64));
                    *m.entry((ev(p[j], r), id)).or_insert(0) += 1;
                    *m.entry((ev(p[j], r), ev(s[j], r))).or_insert(0) -= 1;
                }
            }
            if m.values().any(|c| *c != 0) {
                return Err(format!("connection {i}"));
            }
        }
        Ok(())
    }
}

/// coset factor of column j of a connection
pub fn kj(j: usize) -> u64 {
    refs::pow(12275445934081160404, j as u64)
}

/// connection constants for a permutation of the cells (column, row)
pub fn conn_consts(bits: usize, cols: usize, perm: impl Fn(usize, usize) -> (usize, usize)) -> Vec<Vec<u64>> {
    let w = refs::omega(bits);
    (0..cols)
        .map(|c| {
            (0..1usize << bits)
                .map(|r| {
                    let (c2, r2) = perm(c, r);
                    refs::mul(kj(c2), refs::pow(w, r2 as u64))
                })
                .collect()
        })
        .collect()
}
