//! Binding: what the verifier's constraint check leaves to a prover that does not follow the protocol.
//!
//! The model is the set of assignments to the columns on the trace's domain. Its constraints are those
//! of the code that the verifier runs, evaluated on every row with the columns the prover adds itself
//! (sorted columns, accumulators, intermediate values) unknown: polynomials in the unknown cells,
//! separated by the powers of the challenge that combines them. For every small trace it is decided
//! whether some content of the unknown columns meets all of them; that must be so exactly when the
//! trace satisfies the circuit.
use crate::air::*;
use crate::p13_traces::{doubles, ext_of, singles};
use crate::refs::{self, E3};
use crate::stark::*;
use mc_common::*;
use rayon::prelude::*;
use serde_json::{json, Value};
use starky::traits::{FieldExtension, MTNodeType, Transcript};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const ONE: E3 = [1, 0, 0];
const NIL: E3 = [0, 0, 0];
fn neg(a: E3) -> E3 {
    refs::e3sub(NIL, a)
}
fn mul(a: E3, b: E3) -> E3 {
    if a == ONE {
        b
    } else if b == ONE {
        a
    } else if a[1] == 0 && a[2] == 0 {
        b.map(|x| refs::mul(x, a[0]))
    } else if b[1] == 0 && b[2] == 0 {
        a.map(|x| refs::mul(x, b[0]))
    } else {
        let m = |i: usize, j: usize| a[i] as u128 * b[j] as u128 % refs::P as u128;
        let p = refs::P as u128;
        let (r0, r1, r2) = (m(0, 0), m(0, 1) + m(1, 0), m(0, 2) + m(1, 1) + m(2, 0));
        let (r3, r4) = (m(1, 2) + m(2, 1), m(2, 2));
        // x^3 = x + 1
        [((r0 + r3) % p) as u64, ((r1 + r3 + r4) % p) as u64, ((r2 + r4) % p) as u64]
    }
}
/// the inverse by cofactors of the matrix of multiplication
fn inv(a: E3) -> E3 {
    let c = [a, mul(a, [0, 1, 0]), mul(a, [0, 0, 1])];
    let m = |r: usize, k: usize| c[k][r];
    let cof = |r: usize, k: usize| {
        let (r1, r2, k1, k2) = ((r + 1) % 3, (r + 2) % 3, (k + 1) % 3, (k + 2) % 3);
        refs::sub(refs::mul(m(r1, k1), m(r2, k2)), refs::mul(m(r1, k2), m(r2, k1)))
    };
    let det = (0..3).fold(0, |s, k| refs::add(s, refs::mul(m(0, k), cof(0, k))));
    let d = refs::inv(det);
    [0, 1, 2].map(|k| refs::mul(cof(0, k), d))
}

// ------------------------------------------------------- polynomials local to a row

/// variables: 0 is the combining challenge, the others unknown cells; five bits of exponent each
type Poly = Vec<(u128, E3)>;
fn merge(mut v: Poly) -> Poly {
    v.sort_unstable_by_key(|t| t.0);
    let mut out: Poly = Vec::with_capacity(v.len());
    for (k, c) in v {
        match out.last_mut() {
            Some(l) if l.0 == k => l.1 = refs::e3add(l.1, c),
            _ => out.push((k, c)),
        }
    }
    out.retain(|t| t.1 != NIL);
    out
}
fn padd(a: &Poly, b: &Poly) -> Poly {
    merge(a.iter().chain(b).cloned().collect())
}
fn psub(a: &Poly, b: &Poly) -> Poly {
    merge(a.iter().cloned().chain(b.iter().map(|t| (t.0, neg(t.1)))).collect())
}
fn pmul(a: &Poly, b: &Poly) -> Poly {
    merge(a.iter().flat_map(|s| b.iter().map(move |t| (s.0 + t.0, mul(s.1, t.1)))).collect())
}
const VARS: usize = 25;

/// a constraint over unknown cells: monomials as sorted lists of cells
pub type Con = Vec<(Vec<u16>, E3)>;

// ----------------------------------------------------------------------- the model

#[derive(serde::Deserialize, Clone)]
struct Node {
    type_: String,
    id: usize,
    value: Option<String>,
    prime: bool,
}
#[derive(serde::Deserialize)]
struct Section {
    op: String,
    dest: Node,
    src: Vec<Node>,
}

pub struct Model {
    code: Vec<Section>,
    evs: Vec<Node>,
    exprs: Vec<Value>,
    /// lookups: columns and expressions (first sorted, second sorted, f, t)
    pu: Vec<[usize; 4]>,
    n1: usize,
    n2: usize,
    rows: usize,
    bits: usize,
    /// the challenges, by number
    ch: Vec<E3>,
}

impl Model {
    pub fn new<K: Kind>(i: &Inst<K>, a: &Air) -> Result<Model, String> {
        let si = serde_json::to_value(&i.setup.starkinfo).map_err(|e| e.to_string())?;
        let code = serde_json::to_value(&i.setup.program.verifier_code.first).map_err(|e| e.to_string())?;
        let u = |v: &Value, k: &str| v[k].as_u64().map(|x| x as usize).ok_or_else(|| format!("no {k}"));
        let pu = si["pu_ctx"].as_array().ok_or("no pu_ctx")?.iter();
        Ok(Model {
            code: serde_json::from_value(code).map_err(|e| e.to_string())?,
            evs: serde_json::from_value(si["ev_map"].clone()).map_err(|e| e.to_string())?,
            exprs: serde_json::to_value(&i.pil.expressions).unwrap().as_array().unwrap().clone(),
            pu: pu.map(|c| Ok([u(c, "h1_id")?, u(c, "h2_id")?, u(c, "f_exp_id")?, u(c, "t_exp_id")?])).collect::<Result<_, String>>()?,
            n1: u(&si, "n_cm1")?,
            n2: u(&si, "n_cm2")?,
            rows: a.rows(),
            bits: a.bits,
            ch: (0..8u64).map(|c| [0u64, 1, 2].map(|k| mix(mix(c * 8 + k) ^ 0x5eed) % refs::P)).collect(),
        })
    }
    /// value of a compiled expression of the circuit on a row
    fn ex(&self, a: &Air, pubs: &[u64], e: &Value, row: usize) -> E3 {
        let nx = e["next"].as_bool().unwrap_or(false);
        let r = if nx { (row + 1) % self.rows } else { row };
        let id = e["id"].as_u64().unwrap_or(0) as usize;
        let v = |i: usize| self.ex(a, pubs, &e["values"][i], row);
        match e["op"].as_str().unwrap_or("") {
            "cm" => refs::e3s(a.w[id][r]),
            "const" => refs::e3s(a.k[id][r]),
            "number" => refs::e3s(num(e["value"].as_str().unwrap())),
            "public" => refs::e3s(pubs[id]),
            "challenge" => self.ch[id],
            "exp" => self.ex(a, pubs, &self.exprs[id], r),
            "add" => refs::e3add(v(0), v(1)),
            "sub" => refs::e3sub(v(0), v(1)),
            "mul" => mul(v(0), v(1)),
            "neg" => neg(v(0)),
            "addc" => refs::e3add(v(0), refs::e3s(num(&e["const_"].to_string()))),
            "mulc" => mul(v(0), refs::e3s(num(&e["const_"].to_string()))),
            o => panic!("expression {o}"),
        }
    }
    fn cell(&self, col: usize, row: usize) -> u16 {
        ((col - self.n1) * self.rows + row) as u16
    }
    /// the constraints of one row
    fn row(&self, a: &Air, pubs: &[u64], row: usize) -> Result<Vec<Con>, String> {
        let nx = (row + 1) % self.rows;
        let mut vars: Vec<u16> = vec![u16::MAX];
        let mut tmp: HashMap<usize, Poly> = HashMap::new();
        let con = |c: E3| -> Poly { if c == NIL { vec![] } else { vec![(0, c)] } };
        let mut last: Poly = vec![];
        for s in &self.code {
            let mut v: Vec<Poly> = vec![];
            for n in &s.src {
                v.push(match n.type_.as_str() {
                    "tmp" => tmp.get(&n.id).ok_or("a temporary is read before it is set")?.clone(),
                    "eval" => {
                        let e = &self.evs[n.id];
                        let r = if e.prime { nx } else { row };
                        match e.type_.as_str() {
                            "const" => con(refs::e3s(a.k[e.id][r])),
                            _ if e.id < self.n1 => con(refs::e3s(a.w[e.id][r])),
                            _ => {
                                let c = self.cell(e.id, r);
                                let k = vars.iter().position(|x| *x == c).unwrap_or_else(|| {
                                    vars.push(c);
                                    vars.len() - 1
                                });
                                if k >= VARS {
                                    return Err("more unknown columns than the model has room for".into());
                                }
                                vec![(1u128 << (5 * k), ONE)]
                            }
                        }
                    }
                    "number" => con(refs::e3s(num(n.value.as_ref().unwrap()))),
                    "public" => con(refs::e3s(pubs[n.id])),
                    "challenge" if n.id == 4 => vec![(1, ONE)],
                    "challenge" => con(self.ch[n.id]),
                    "x" => con(refs::e3s(refs::pow(refs::omega(self.bits), row as u64))),
                    "Z" => vec![],
                    t => return Err(format!("a reference of type {t}")),
                });
            }
            last = match s.op.as_str() {
                "add" => padd(&v[0], &v[1]),
                "sub" => psub(&v[0], &v[1]),
                "mul" => pmul(&v[0], &v[1]),
                "muladd" => padd(&pmul(&v[0], &v[1]), &v[2]),
                "copy" => v[0].clone(),
                o => return Err(format!("an operation {o}")),
            };
            tmp.insert(s.dest.id, last.clone());
        }
        // apart by the power of the combining challenge
        let mut by: HashMap<u32, Con> = HashMap::new();
        for (k, c) in last {
            let mut m = vec![];
            for (j, x) in vars.iter().enumerate().skip(1) {
                for _ in 0..(k >> (5 * j)) & 31 {
                    m.push(*x);
                }
            }
            m.sort();
            by.entry((k & 31) as u32).or_default().push((m, c));
        }
        let mut v: Vec<(u32, Con)> = by.into_iter().collect();
        v.sort_by_key(|x| x.0);
        Ok(v.into_iter().map(|x| x.1).collect())
    }
    pub fn constraints(&self, a: &Air) -> Result<Vec<Con>, String> {
        let pubs = a.publics();
        let mut v = vec![];
        for r in 0..self.rows {
            v.extend(self.row(a, &pubs, r)?);
        }
        Ok(v)
    }
    /// whether some content of the unknown columns meets every constraint, and how many were tried
    pub fn provable(&self, a: &Air, cap: usize, tried: &AtomicU64) -> Result<bool, String> {
        let cons = self.constraints(a)?;
        let pubs = a.publics();
        // unknown columns that meet in a constraint belong together
        let cols = |c: &Con| -> Vec<usize> {
            let mut v: Vec<usize> = c.iter().flat_map(|(m, _)| m).map(|x| *x as usize / self.rows).collect();
            v.sort();
            v.dedup();
            v
        };
        let ncol = cons.iter().flat_map(|c| cols(c)).max().map_or(0, |m| m + 1).max(self.n2);
        let mut grp: Vec<usize> = (0..ncol).collect();
        let mut join = |x: usize, y: usize| {
            let (gx, gy) = (grp[x], grp[y]);
            grp.iter_mut().filter(|g| **g == gy).for_each(|g| *g = gx);
        };
        for c in &cons {
            let v = cols(c);
            v.windows(2).for_each(|w| join(w[0], w[1]));
        }
        let mut groups: Vec<usize> = grp.clone();
        groups.sort();
        groups.dedup();
        // constraints without unknowns
        if cons.iter().any(|c| cols(c).is_empty() && !c.is_empty()) {
            tried.fetch_add(1, Relaxed);
            return Ok(false);
        }
        for g in groups {
            let mine: Vec<&Con> = cons.iter().filter(|c| cols(c).first().map(|x| grp[*x]) == Some(g)).collect();
            if mine.is_empty() {
                continue;
            }
            let lks: Vec<&[usize; 4]> = self.pu.iter().filter(|p| [p[0], p[1]].iter().any(|h| grp[*h - self.n1] == g)).collect();
            let mut ok = false;
            for h in self.sorted(a, &pubs, &lks, cap) {
                tried.fetch_add(1, Relaxed);
                let mut known: HashMap<u16, E3> = h.into_iter().collect();
                if solve(mine.iter().map(|c| (*c).clone()).collect(), &mut known, 0) {
                    ok = true;
                    break;
                }
            }
            if !ok {
                return Ok(false);
            }
        }
        Ok(true)
    }
    /// candidates for the sorted columns of lookups: the prover's own first, then every arrangement
    /// of the values that occur (of as many of them as keep the number of arrangements below the cap)
    fn sorted<'a>(&'a self, a: &Air, pubs: &[u64], lks: &[&[usize; 4]], cap: usize) -> Box<dyn Iterator<Item = Vec<(u16, E3)>> + 'a> {
        if lks.is_empty() {
            return Box::new(std::iter::once(vec![]));
        }
        let mut own = vec![];
        let (mut bad, mut rest) = (vec![], vec![]);
        let mut cells: Vec<u16> = vec![];
        for l in lks {
            let f: Vec<E3> = (0..self.rows).map(|r| self.ex(a, pubs, &self.exprs[l[2]], r)).collect();
            let t: Vec<E3> = (0..self.rows).map(|r| self.ex(a, pubs, &self.exprs[l[3]], r)).collect();
            let mut s: Vec<E3> = vec![];
            for (r, x) in t.iter().enumerate() {
                s.push(*x);
                if !t[..r].contains(x) {
                    s.extend(f.iter().filter(|y| *y == x));
                }
            }
            for x in &f {
                if !t.contains(x) {
                    s.push(*x);
                }
            }
            for r in 0..self.rows {
                own.push((self.cell(l[0], r), s[2 * r]));
                own.push((self.cell(l[1], r), s[2 * r + 1]));
                cells.push(self.cell(l[0], r));
                cells.push(self.cell(l[1], r));
            }
            bad.extend(f.iter().filter(|x| !t.contains(x)).cloned());
            rest.extend(t.iter().cloned());
        }
        let mut abc: Vec<E3> = vec![];
        // values outside the table first
        for x in bad.into_iter().chain(rest) {
            if !abc.contains(&x) {
                abc.push(x);
            }
        }
        while abc.len() > 1 && (abc.len() as f64).powi(cells.len() as i32) > cap as f64 {
            abc.pop();
        }
        let n = abc.len();
        let total = (n as f64).powi(cells.len() as i32) as usize;
        let all = (0..total).map(move |mut k| {
            cells
                .iter()
                .map(|c| {
                    let v = abc[k % n];
                    k /= n;
                    (*c, v)
                })
                .collect::<Vec<_>>()
        });
        Box::new(std::iter::once(own).chain(all))
    }
}

/// replaces what is known; None: contradiction
fn subst(c: Con, known: &HashMap<u16, E3>) -> Con {
    let mut out: Con = vec![];
    for (m, k) in c {
        let mut k = k;
        let mut left = vec![];
        for x in m {
            match known.get(&x) {
                Some(v) => k = mul(k, *v),
                None => left.push(x),
            }
        }
        if k != NIL {
            match out.iter_mut().find(|t| t.0 == left) {
                Some(t) => t.1 = refs::e3add(t.1, k),
                None => out.push((left, k)),
            }
        }
    }
    out.retain(|t| t.1 != NIL);
    out
}
/// whether the constraints have a common solution: propagation, then elimination; where products
/// remain, a few values of one cell after another
fn solve(mut cons: Vec<Con>, known: &mut HashMap<u16, E3>, depth: usize) -> bool {
    loop {
        let mut progress = false;
        let mut left = vec![];
        for c in cons {
            let c = subst(c, known);
            if c.is_empty() {
                continue;
            }
            if c.iter().all(|t| t.0.is_empty()) {
                return false;
            }
            let var: Vec<&(Vec<u16>, E3)> = c.iter().filter(|t| !t.0.is_empty()).collect();
            if var.len() == 1 && var[0].0.len() == 1 {
                let k = c.iter().find(|t| t.0.is_empty()).map_or(NIL, |t| t.1);
                known.insert(var[0].0[0], neg(mul(k, inv(var[0].1))));
                progress = true;
                continue;
            }
            left.push(c);
        }
        cons = left;
        if !progress {
            break;
        }
    }
    if cons.is_empty() {
        return true;
    }
    if cons.iter().all(|c| c.iter().all(|t| t.0.len() <= 1)) {
        return linear(&cons);
    }
    if depth >= 4 {
        return false;
    }
    // a cell of a product
    let x = cons.iter().flatten().find(|t| t.0.len() > 1).unwrap().0[0];
    for v in [NIL, ONE, [7, 5, 3]] {
        let mut k = known.clone();
        k.insert(x, v);
        if solve(cons.clone(), &mut k, depth + 1) {
            return true;
        }
    }
    false
}
fn linear(cons: &[Con]) -> bool {
    let mut rows: Vec<HashMap<u16, E3>> =
        cons.iter().map(|c| c.iter().map(|t| (t.0.first().cloned().unwrap_or(u16::MAX), t.1)).collect()).collect();
    while let Some(mut r) = rows.pop() {
        r.retain(|_, c| *c != NIL);
        let Some(x) = r.keys().find(|k| **k != u16::MAX).cloned() else {
            if !r.is_empty() {
                return false;
            }
            continue;
        };
        let i = inv(r[&x]);
        for o in rows.iter_mut() {
            if let Some(c) = o.get(&x).cloned() {
                let f = mul(c, i);
                for (k, v) in &r {
                    let e = o.entry(*k).or_insert(NIL);
                    *e = refs::e3sub(*e, mul(f, *v));
                }
                o.remove(&x);
            }
        }
    }
    true
}

// ------------------------------------------------------------------ conformance

/// the code evaluated on the values of a real proof gives what the verifier compares
fn conform(mc: &Mc, a: &Air, n: &AtomicU64) {
    type K = Gl;
    let e = ext_of(a);
    let par = Par::new(a.bits, e, 2, &[]);
    let key = format!("code:{}", a.name);
    let r = guard(|| {
        let i = Inst::<K>::new(a, &par)?;
        let p = i.prove(a)?;
        let m = Model::new(&i, a)?;
        let mut t = <K as Kind>::T::new();
        for x in &p.publics {
            let b: Vec<Vec<_>> = x.as_elements().iter().map(|e| vec![*e]).collect();
            t.put(&b).map_err(|e| e.to_string())?;
        }
        let int = |f: &starky::f3g::F3G| -> E3 {
            let v: Vec<u64> = f.as_elements().iter().map(|e| e.as_int()).chain([0, 0, 0]).take(3).collect();
            [v[0], v[1], v[2]]
        };
        let mut ch: Vec<E3> = vec![];
        for (root, k) in [(&p.root1, 2), (&p.root2, 2), (&p.root3, 1), (&p.root4, 1)] {
            t.put(&[root.as_elements().to_vec()]).map_err(|e| e.to_string())?;
            for _ in 0..k {
                let f: starky::f3g::F3G = t.get_field();
                ch.push(int(&f));
            }
        }
        let xi = ch[5];
        let evals: Vec<E3> = p.evals.iter().map(int).collect();
        let pubs: Vec<E3> = p.publics.iter().map(int).collect();
        let xn = refs::e3pow(xi, a.rows() as u128);
        let zh = refs::e3sub(xn, ONE);
        let run = |evals: &[E3], ch: &[E3]| -> E3 {
            let mut tmp: HashMap<usize, E3> = HashMap::new();
            let mut last = NIL;
            for s in &m.code {
                let v: Vec<E3> = s
                    .src
                    .iter()
                    .map(|n| match n.type_.as_str() {
                        "tmp" => tmp[&n.id],
                        "eval" => evals[n.id],
                        "number" => refs::e3s(num(n.value.as_ref().unwrap())),
                        "public" => pubs[n.id],
                        "challenge" => ch[n.id],
                        "x" => xi,
                        "Z" => zh,
                        t => panic!("reference {t}"),
                    })
                    .collect();
                last = match s.op.as_str() {
                    "add" => refs::e3add(v[0], v[1]),
                    "sub" => refs::e3sub(v[0], v[1]),
                    "mul" => mul(v[0], v[1]),
                    "muladd" => refs::e3add(mul(v[0], v[1]), v[2]),
                    _ => v[0],
                };
                tmp.insert(s.dest.id, last);
            }
            last
        };
        let si = &i.setup.starkinfo;
        let (mut q, mut x) = (NIL, ONE);
        for c in &si.qs {
            let e = si.ev_map.iter().position(|n| n.type_ == "cm" && n.id == *c && !n.prime).ok_or("no evaluation of the quotient")?;
            q = refs::e3add(q, mul(x, evals[e]));
            x = mul(x, xn);
        }
        Ok::<_, String>((run(&evals, &ch), mul(q, zh), i.verify(&p)))
    });
    n.fetch_add(1, Relaxed);
    mc.check(matches!(&r, Ok(Ok((c, q, Ok(true)))) if c == q), &key, || {
        format!("the compiled constraints at the proof's values, the quotient times the vanishing polynomial, and the verifier's answer: {r:?}")
    });
}

/// a real proof by a prover that leaves out the last accumulator (its column stays zero, which meets
/// every step of it): never accepted for a trace that violates the argument
fn lying(mc: &Mc, a: &Air, n: &AtomicU64, made: &AtomicU64) {
    let par = Par::new(a.bits, ext_of(a), 4, &[]);
    let key = format!("lying:{}", a.name);
    let r = guard(|| {
        let i = Inst::<Gl>::new(a, &par)?;
        let mut si = serde_json::to_value(&i.setup.starkinfo).map_err(|e| e.to_string())?;
        let k = ["ci_ctx", "pe_ctx", "pu_ctx"].into_iter().find(|k| si[*k].as_array().map_or(false, |v| !v.is_empty())).ok_or("no argument")?;
        si[k].as_array_mut().unwrap().pop();
        let mut j = Inst::<Gl>::new(a, &par)?;
        j.setup.starkinfo = serde_json::from_str(&si.to_string()).map_err(|e| e.to_string())?;
        Ok::<_, String>((i, j))
    });
    let (i, j) = match r {
        Ok(Ok(x)) => x,
        e => {
            mc.check(false, &key, || format!("{:?}", e.map(|r| r.map(|_| ()))));
            return;
        }
    };
    for (what, b) in singles(a).into_iter().filter(|(_, b)| b.valid().is_err()).step_by(3) {
        n.fetch_add(1, Relaxed);
        // a prover that gives up has not proved anything either
        if let Ok(p) = j.prove(&b) {
            made.fetch_add(1, Relaxed);
            let v = i.verify(&p);
            mc.check(v == Ok(false), &format!("{key}:{what}"), || {
                format!("a proof without the last accumulator for a trace that violates {:?}: {v:?}", b.valid())
            });
        }
    }
}

// ----------------------------------------------------------------------- traces

/// a circuit of some arguments (kind, columns, selectors) all of whose columns are committed and empty
fn blank(bits: usize, args: &[(char, usize, usize)]) -> Air {
    let name: Vec<String> = args.iter().map(|(w, c, s)| format!("{}{c}/sel{s}", if *w == 'l' { "lookup" } else { "permutation" })).collect();
    let mut a = Air::new(&name.join("+"), bits);
    a.global_l1();
    for (what, cols, sel) in args {
        let mut col = || {
            let c = a.wcol(|_| 0);
            a.e(cm(c))
        };
        let f = (0..*cols).map(|_| col()).collect();
        let t = (0..*cols).map(|_| col()).collect();
        let sf = (sel & 1 != 0).then(&mut col);
        let st = (sel & 2 != 0).then(&mut col);
        let l = Lk { f, t, sf, st };
        if *what == 'l' {
            a.pu.push(l)
        } else {
            a.pe.push(l)
        }
    }
    a
}
/// every trace with values below `abc`, as a number
fn trace(a: &Air, abc: u64, mut k: u64) -> Air {
    let mut b = a.clone();
    for c in b.w.iter_mut() {
        for x in c.iter_mut() {
            *x = k % abc;
            k /= abc;
        }
    }
    b
}

struct Count {
    n: AtomicU64,
    sat: AtomicU64,
    tried: AtomicU64,
}
fn one(mc: &Mc, m: &Model, a: &Air, what: &str, cap: usize, c: &Count) {
    let want = a.valid();
    let k = c.n.fetch_add(1, Relaxed);
    if want.is_ok() {
        c.sat.fetch_add(1, Relaxed);
    }
    let got = guard(|| m.provable(a, cap, &c.tried));
    if k % 99991 == 5 {
        mc.sample(json!({"circuit": a.name, "trace": a.w, "satisfies": want.is_ok(), "provable": format!("{got:?}")}));
    }
    mc.check(got == Ok(Ok(want.is_ok())), &format!("{}:{what}", a.name), || match (&got, &want) {
        (Ok(Ok(true)), Err(e)) => format!("a prover can choose columns that meet every constraint although the trace violates {e}: {:?}", a.w),
        (Ok(Ok(false)), Ok(())) => format!("no columns meet the constraints for a satisfying trace {:?}", a.w),
        _ => format!("{got:?} for {:?}", a.w),
    });
}

fn setup(mc: &Mc, a: &Air) -> Option<Model> {
    let mut e = ext_of(a);
    if a.bits + e < 2 {
        e = 2;
    }
    let par = Par::new(a.bits, e, 1, &[]);
    let r = Inst::<Gl>::new(a, &par).and_then(|i| Model::new(&i, a));
    match r {
        Ok(m) => Some(m),
        Err(e) => {
            mc.check(false, &format!("{}:setup", a.name), || e);
            None
        }
    }
}

fn close(mc: &Mc, name: &str, circuits: usize, c: Count) {
    let (n, sat, t) = (c.n.into_inner(), c.sat.into_inner(), c.tried.into_inner());
    mc.states(n);
    mc.transitions(t);
    mc.evals(n, n - sat);
    mc.section(name, json!({"circuits": circuits, "traces": n, "satisfying": sat, "assignments_decided": t}));
}
fn count() -> Count {
    Count { n: AtomicU64::new(0), sat: AtomicU64::new(0), tried: AtomicU64::new(0) }
}

/// every trace of small values of one argument
fn every(mc: &Mc) {
    // (kind, bits, columns, selectors, values, arrangements)
    let mut list: Vec<(char, usize, usize, usize, u64, usize)> = vec![];
    for w in ['l', 'p'] {
        list.push((w, 1, 1, 0, 4, 300));
        list.push((w, 1, 2, 0, mc.pick(2, 3), 300));
        list.push((w, 1, 3, 0, 2, 300));
        for s in 1..4 {
            list.push((w, 1, 1, s, 3, 300));
            list.push((w, 1, 2, s, 2, 300));
        }
        list.push((w, 2, 1, 0, 2, 300));
        list.push((w, 2, 1, 0, 3, mc.pick(300, 7000)));
    }
    list.push(('p', 2, 1, 3, 2, 0));
    list.push(('p', 2, 2, 0, 2, 0));
    if mc.thorough() {
        list.push(('l', 2, 1, 1, 2, 7000));
        list.push(('l', 2, 1, 3, 2, 300));
        list.push(('p', 1, 3, 3, 2, 0));
        list.push(('p', 1, 2, 3, 3, 0));
    }
    let mut list: Vec<(usize, Vec<(char, usize, usize)>, u64, usize)> =
        list.into_iter().map(|(w, bits, cols, sel, abc, cap)| (bits, vec![(w, cols, sel)], abc, cap)).collect();
    // several of them side by side
    for m in ["ll", "lp", "pl", "pp", "lll", "ppp", "plp", "lpl"] {
        for (k, s) in [(m.len(), 0), (0, 1), (1, 2), (2, 3)] {
            if k < m.len() || s == 0 {
                let v: Vec<(char, usize, usize)> = m.chars().enumerate().map(|(i, w)| (w, 1, if i == k { s } else { 0 })).collect();
                if v.iter().map(|x| 4 + 2 * x.2.count_ones()).sum::<u32>() <= mc.pick(14, 16) {
                    list.push((1, v, 2, 300));
                }
            }
        }
    }
    list.push((1, vec![('p', 2, 0), ('p', 1, 0)], 2, 0));
    list.push((1, vec![('l', 1, 0), ('l', 2, 0)], 2, 300));
    for (bits, args, abc, cap) in list {
        let a = blank(bits, &args);
        let Some(m) = setup(mc, &a) else { continue };
        let c = count();
        let total = abc.pow((a.w.len() * a.rows()) as u32);
        (0..total).into_par_iter().for_each(|k| one(mc, &m, &trace(&a, abc, k), &format!("n=2^{bits} values<{abc} trace {k}"), cap, &c));
        close(mc, &format!("{} 2^{bits} rows, values below {abc}", a.name), 1, c);
    }
}

/// every permutation of the cells of a connection, every trace of small values
fn connections(mc: &Mc) {
    let c = count();
    let mut circuits = 0;
    let mut lists: Vec<(usize, usize, u64)> = vec![(1, 1, 3), (1, 2, 3), (1, 3, 2), (2, 1, 3)];
    if mc.thorough() {
        lists.extend([(1, 3, 3), (2, 2, 2)]);
    }
    for (bits, cols, abc) in lists {
        let nn = 1usize << bits;
        let tot = nn * cols;
        let mut perms: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..tot {
            perms = perms.into_iter().flat_map(|p| (0..tot).filter(|x| !p.contains(x)).map(|x| [p.clone(), vec![x]].concat()).collect::<Vec<_>>()).collect();
        }
        // with 8 cells, one permutation of each kind of cycle structure and its rotations
        if perms.len() > 1000 {
            perms = perms.into_iter().step_by(41).collect();
        }
        circuits += perms.len();
        perms.par_iter().for_each(|p| {
            let mut a = Air::new(&format!("connection of {cols}x{nn} by {p:?}"), bits);
            a.global_l1();
            let s = conn_consts(bits, cols, |c, r| (p[c * nn + r] / nn, p[c * nn + r] % nn));
            let ks: Vec<usize> = s
                .into_iter()
                .map(|c| {
                    a.k.push(c);
                    a.k.len() - 1
                })
                .collect();
            for _ in 0..cols {
                a.wcol(|_| 0);
            }
            let ps = (0..cols).map(|c| a.e(cm(c))).collect();
            let ss = ks.iter().map(|i| a.e(k(*i))).collect();
            a.ci.push((ps, ss));
            let Some(m) = setup(mc, &a) else { return };
            for t in 0..abc.pow(tot as u32) {
                one(mc, &m, &trace(&a, abc, t), &format!("trace {t}"), 0, &c);
            }
        });
    }
    close(mc, "connections", circuits, c);
}

/// products that need intermediate columns, under every blow-up: every trace of a few values
fn intermediate(mc: &Mc) {
    let c = count();
    let mut list: Vec<(Air, usize)> = vec![];
    for d in 2..=mc.pick(9, 13) {
        for s in 0..4 {
            let a = power(1, d, s);
            for e in 1..=4 {
                if fits(&a, e) {
                    list.push((a.clone(), e));
                }
            }
        }
    }
    for (d, s) in [(3, 3), (5, 3), (6, 2), (7, 3), (9, 3)] {
        let a = join(vec![power(1, d, s), power(1, 4, 3)]);
        for e in 1..=3 {
            if fits(&a, e) {
                list.push((a.clone(), e));
            }
        }
    }
    let values: [u64; 4] = [0, 1, 2, refs::P - 1];
    list.par_iter().for_each(|(a, e)| {
        let par = Par::new(1, *e, 1, &[]);
        let m = match Inst::<Gl>::new(a, &par).and_then(|i| Model::new(&i, a)) {
            Ok(m) => m,
            Err(x) => {
                mc.check(false, &format!("{} {}:setup", a.name, par.show()), || x);
                return;
            }
        };
        let cells = (a.w.len() * a.rows()) as u32;
        let abc = if cells > 4 { mc.pick(3, 4) } else { 4u64 };
        for k in 0..abc.pow(cells) {
            let mut b = trace(a, abc, k);
            b.w.iter_mut().flatten().for_each(|x| *x = values[*x as usize]);
            one(mc, &m, &b, &format!("{} trace {k}", par.show()), 0, &c);
        }
        // one value off the power by every small amount
        for r in 0..2 {
            for v in [1, 2, 1 << 32, refs::P - 1] {
                let mut b = a.clone();
                b.w[1][r] = refs::add(b.w[1][r], v);
                one(mc, &m, &b, &format!("{} row {r} off by {v}", par.show()), 0, &c);
            }
        }
        one(mc, &m, a, &format!("{} as it is", par.show()), 0, &c);
    });
    close(mc, "intermediate columns", list.len(), c);
}

/// the circuits of the other STARK checks, changed in one and two cells
fn corrupted(mc: &Mc) {
    let c = count();
    let mut list: Vec<Air> = airs(2);
    list.push(join(vec![perm(2, 2, 0), lookup(2, 1, 2, false), perm(2, 1, 3)]));
    list.push(join(vec![lookup(2, 1, 2, true), lookup(2, 3, 1, false), lookup(2, 1, 0, false)]));
    list.push(join(vec![conn(2, 1), perm(2, 1, 0), conn(2, 2), perm(2, 1, 0)]));
    let work: Vec<(usize, Model, Vec<(String, Air)>)> = list
        .par_iter()
        .enumerate()
        .filter_map(|(i, a)| {
            let m = setup(mc, a)?;
            let mut v = vec![("as it is".to_string(), a.clone())];
            v.extend(singles(a));
            if a.w.len() <= mc.pick(8, 99) {
                v.extend(doubles(a));
            }
            Some((i, m, v))
        })
        .collect();
    let cap = mc.pick(300, 7000);
    let all: Vec<(&Model, &(String, Air))> = work.iter().flat_map(|(_, m, v)| v.iter().map(move |x| (m, x))).collect();
    all.par_iter().for_each(|(m, (w, b))| one(mc, m, b, w, cap, &c));
    close(mc, "changed traces", list.len(), c);
}

pub fn run(mc: &Mc) {
    quiet_all(true);
    let n = AtomicU64::new(0);
    let mut all = airs(2);
    all.extend(airs(3));
    all.par_iter().for_each(|a| conform(mc, a, &n));
    let n = n.into_inner();
    mc.traces(n);
    mc.states(n);
    mc.section("compiled constraints against real proofs", json!({"proofs": n}));
    let (n, made) = (AtomicU64::new(0), AtomicU64::new(0));
    let args: Vec<&Air> = all.iter().filter(|a| a.bits == 2 && a.pu.len() + a.pe.len() + a.ci.len() > 0).collect();
    args.par_iter().for_each(|a| lying(mc, a, &n, &made));
    let n = n.into_inner();
    mc.traces(n);
    mc.states(n);
    mc.section("real proofs that leave out an accumulator", json!({"circuits": args.len(), "traces": n, "proofs_made": made}));
    every(mc);
    connections(mc);
    intermediate(mc);
    corrupted(mc);
    mc.rule("cells (circuit, trace): decide whether some content of the columns the prover adds meets every constraint of the verifier's code on every row; exactly when the trace satisfies the circuit; non-trivial when it does not");
    mc.assume("challenges are fixed generic values; two different tuples have different compressed values under them");
    mc.exhaustive(true);
}
