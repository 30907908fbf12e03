//! From a Goldilocks circuit to the columns of the compressor circuit: P20 (gates of three wires),
//! P21 (the compressor circuit and its columns, through the files the commands exchange).
use crate::model::{dir, File, Fld};
use algebraic::circom_circuit::{CustomGates, CustomGatesUses, R1CS};
use fields::field_gl::{Fr, GL};
use mc_common::*;
use num_bigint::BigUint;
use rayon::prelude::*;
use recursion::pilcom::compile_pil_from_str;
use recursion::r1cs2plonk::r1cs2plonk;
use recursion::{compressor12_exec::exec, compressor12_setup::setup};
use serde_json::json;
use starky::types::{Expression, PIL};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const P: u64 = 0xFFFF_FFFF_0000_0001;
fn add(a: u64, b: u64) -> u64 {
    ((a as u128 + b as u128) % P as u128) as u64
}
fn mul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
fn neg(a: u64) -> u64 {
    (P - a) % P
}
fn sub(a: u64, b: u64) -> u64 {
    add(a, neg(b))
}
fn pow(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, b);
        }
        b = mul(b, b);
        e >>= 1;
    }
    r
}
fn val(i: u64) -> u64 {
    mix(i) % P
}

type Lc = Vec<(usize, u64)>;
#[derive(Clone, Default, Debug)]
struct Circ {
    out: usize,
    inp: usize,
    vars: usize,
    cons: Vec<[Lc; 3]>,
    gates: Vec<(&'static str, Vec<u64>)>,
    uses: Vec<(usize, Vec<usize>)>,
    bits: usize,
}
fn lc(l: &Lc, w: &[u64]) -> u64 {
    l.iter().fold(0, |s, (i, c)| add(s, mul(*c, w[*i])))
}
fn gf3(a: &[u64], b: &[u64]) -> [u64; 3] {
    let m = |i: usize, j: usize| mul(a[i], b[j]);
    let x = add(m(1, 2), m(2, 1));
    [add(m(0, 0), x), add(add(m(0, 1), m(1, 0)), add(x, m(2, 2))), add(add(m(0, 2), m(1, 1)), add(m(2, 0), m(2, 2)))]
}
fn gf3add(a: &[u64], b: &[u64]) -> [u64; 3] {
    [add(a[0], b[0]), add(a[1], b[1]), add(a[2], b[2])]
}
fn scale(a: &[u64], k: u64) -> [u64; 3] {
    [mul(a[0], k), mul(a[1], k), mul(a[2], k)]
}
/// the next state of round r of Poseidon over Goldilocks
fn round(r: usize, st: &[u64]) -> Vec<u64> {
    static C: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    let c = C.get_or_init(|| include_str!("../../h_core/data/poseidon_gl_c.txt").lines().map(|l| u64::from_str_radix(&l[2..], 16).unwrap()).collect());
    const CIRC: [u64; 12] = [17, 15, 41, 16, 2, 28, 13, 13, 39, 18, 34, 20];
    let mut s: Vec<u64> = (0..12).map(|i| add(st[i], c[r * 12 + i])).collect();
    for x in s.iter_mut().take(if (4..26).contains(&r) { 1 } else { 12 }) {
        *x = pow(*x, 7);
    }
    (0..12).map(|i| (0..12).fold(0, |a, j| add(a, mul(CIRC[(12 + j - i) % 12] + if i + j == 0 { 8 } else { 0 }, s[j])))).collect()
}
/// how many signals a gate has, and how many of the first ones decide the others
fn sizes(name: &str) -> (usize, usize) {
    match name {
        "CMulAdd" => (12, 9),
        "Poseidon12" => (372, 12),
        "EvPol4" => (21, 18),
        _ => (24, 12),
    }
}
/// the signals that a gate computes from its inputs
fn outs(name: &str, p: &[u64], v: &[u64]) -> Vec<u64> {
    match name {
        "CMulAdd" => gf3add(&gf3(&v[0..3], &v[3..6]), &v[6..9]).to_vec(),
        "Poseidon12" => {
            let mut o: Vec<u64> = vec![];
            let mut s = v[..12].to_vec();
            for r in 0..30 {
                s = round(r, &s);
                o.extend(&s);
            }
            o
        }
        "EvPol4" => {
            let x = &v[15..18];
            let mut a = [v[12], v[13], v[14]];
            for k in [9, 6, 3, 0] {
                a = gf3add(&gf3(&a, x), &v[k..k + 3]);
            }
            a.to_vec()
        }
        "FFT4" => {
            let (w, inc, sc, ty) = (p[0], p[1], p[2], p[3]);
            let i = |k: usize| &v[3 * k..3 * k + 3];
            let lin = |c: [u64; 4]| -> [u64; 3] { (0..4).fold([0; 3], |a, k| gf3add(&a, &scale(i(k), mul(sc, c[k])))) };
            let (w2, w3, wi, w3i) = (mul(w, w), mul(w, mul(w, w)), mul(w, inc), mul(mul(w, mul(w, w)), inc));
            let rows = if ty == 4 {
                // butterflies of in0, in1 (by w^2) and in2, in3, then of the results by w and w inc
                [[1, w2, w, w3], [1, neg(w2), wi, neg(w3i)], [1, w2, neg(w), neg(w3)], [1, neg(w2), neg(wi), w3i]]
            } else {
                [[1, w, 0, 0], [1, neg(w), 0, 0], [0, 0, 1, wi], [0, 0, 1, neg(wi)]]
            };
            rows.iter().flat_map(|r| lin(*r)).collect()
        }
        _ => unreachable!(),
    }
}
impl Circ {
    /// what is wrong with this witness
    fn broken(&self, w: &[u64]) -> Option<String> {
        for (k, [a, b, c]) in self.cons.iter().enumerate() {
            if mul(lc(a, w), lc(b, w)) != lc(c, w) {
                return Some(format!("constraint {k}"));
            }
        }
        for (k, (id, s)) in self.uses.iter().enumerate() {
            let (name, p) = &self.gates[*id];
            let v: Vec<u64> = s.iter().map(|i| w[*i]).collect();
            if outs(name, p, &v) != v[sizes(name).1..] {
                return Some(format!("use {k} of {name}"));
            }
        }
        None
    }
    fn r1cs(&self) -> R1CS<GL> {
        let l = |l: &Lc| l.iter().map(|(i, c)| (*i, Fr::from(*c))).collect::<Vec<_>>();
        R1CS {
            num_inputs: 1 + self.out + self.inp,
            num_aux: self.vars - 1 - self.out - self.inp,
            num_variables: self.vars,
            num_outputs: self.out,
            constraints: self.cons.iter().map(|c| (l(&c[0]), l(&c[1]), l(&c[2]))).collect(),
            custom_gates: self.gates.iter().map(|(n, p)| CustomGates { template_name: n.to_string(), parameters: p.iter().map(|x| Fr::from(*x)).collect() }).collect(),
            custom_gates_uses: self.uses.iter().map(|(i, s)| CustomGatesUses { id: *i as u64, signals: s.iter().map(|x| *x as u64).collect() }).collect(),
        }
    }
    fn file(&self) -> Vec<u8> {
        let l = |l: &Lc| l.iter().map(|(i, c)| (*i, c.to_le_bytes().to_vec())).collect::<crate::model::Lc>();
        File {
            f: Fld::Gl,
            h: [self.vars as u32, self.out as u32, self.inp as u32, 0],
            n_labels: self.vars as u64,
            cons: self.cons.iter().map(|c| [l(&c[0]), l(&c[1]), l(&c[2])]).collect(),
            map: (0..self.vars as u64).collect(),
            gates: self.gates.iter().map(|(n, p)| (n.to_string(), p.iter().map(|x| x.to_le_bytes().to_vec()).collect())).collect(),
            uses: self.uses.iter().map(|(i, s)| (*i as u64, s.iter().map(|x| *x as u64).collect())).collect(),
            order: if self.gates.is_empty() { vec![1, 2, 3] } else { vec![1, 2, 3, 4, 5] },
        }
        .bytes()
    }
}

// ---------------------------------------------------------------------------------------- P20
/// the gates say of every witness what the constraints say
fn plonk(mc: &Mc, n: &AtomicU64, key: &str, c: &Circ, ws: &[Vec<u64>]) {
    n.fetch_add(1, Relaxed);
    let r = c.r1cs();
    let (gates, adds) = match guard(|| r1cs2plonk(&r)) {
        Ok(x) => x,
        Err(e) => {
            mc.check(false, key, || format!("{:?} panicked: {e}", c.cons));
            return;
        }
    };
    let all = c.vars + adds.len();
    let num = |x: &Fr| x.as_int();
    let bad = gates.iter().any(|g| [g.0, g.1, g.2].iter().any(|s| *s >= all)) || adds.iter().enumerate().any(|(k, a)| a.0.max(a.1) >= c.vars + k);
    if !mc.check(!bad, key, || format!("{:?}: gates {gates:?}, additions {adds:?} use wires that do not exist", c.cons)) {
        return;
    }
    let gv: Vec<[u64; 5]> = gates.iter().map(|g| [num(&g.3), num(&g.4), num(&g.5), num(&g.6), num(&g.7)]).collect();
    let av: Vec<[u64; 2]> = adds.iter().map(|a| [num(&a.2), num(&a.3)]).collect();
    let holds = |v: &[u64]| {
        gates.iter().zip(&gv).all(|(g, q)| {
            // wire 0 has no value in the columns
            let x = |i: usize| if i == 0 { 0 } else { v[i] };
            let (a, b, o) = (x(g.0), x(g.1), x(g.2));
            add(add(mul(q[0], mul(a, b)), add(mul(q[1], a), mul(q[2], b))), add(mul(q[3], o), q[4])) == 0
        })
    };
    for w in ws {
        let mut v = w.clone();
        for (a, q) in adds.iter().zip(&av) {
            v.push(add(mul(v[a.0], q[0]), mul(v[a.1], q[1])));
        }
        let (h, b) = (holds(&v), c.broken(w));
        if !mc.check(h == b.is_none(), key, || format!("{:?} with {w:?} is {}, its gates {}", c.cons, if b.is_none() { "satisfied" } else { "not satisfied" }, if h { "are" } else { "are not" })) {
            return;
        }
        if h {
            for k in c.vars..all {
                let mut u = v.clone();
                u[k] = add(u[k], 1);
                if !mc.check(!holds(&u), key, || format!("{:?}: wire {k} of an addition may have any value", c.cons)) {
                    return;
                }
            }
        }
    }
}
pub fn p20(mc: &Mc) {
    let n = AtomicU64::new(0);
    let m1 = P - 1;
    let coefs: Vec<Option<u64>> = mc.pick(vec![None, Some(1), Some(m1), Some(0), Some(2)], vec![None, Some(1), Some(m1), Some(0), Some(2), Some(1 << 32), Some(P >> 1)]);
    let mut ls: Vec<Lc> = vec![vec![]];
    for i in 0..3 {
        ls = ls.into_iter().flat_map(|l| coefs.iter().map(move |c| { let mut l = l.clone(); if let Some(c) = c { l.push((i, *c)); } l }).collect::<Vec<_>>()).collect();
    }
    let ws: Vec<Vec<u64>> = (0..16).map(|k| vec![1, [0, 1, m1, 2][k % 4], [0, 1, m1, 5][k / 4]]).collect();
    ls.par_iter().for_each(|a| {
        for b in &ls {
            for c in &ls {
                let c = Circ { vars: 3, cons: vec![[a.clone(), b.clone(), c.clone()]], ..Default::default() };
                plonk(mc, &n, &format!("{:?}", c.cons[0]), &c, &ws);
            }
        }
    });
    let single = n.load(Relaxed);
    mc.section("single constraints", json!({ "circuits": single, "witnesses each": ws.len() }));
    // long combinations
    let long = |len: usize, k: u64, cst: bool, rev: bool| -> Lc {
        let mut l: Lc = (0..len).map(|i| (1 + (i * 3 + k as usize) % 9, [1, m1, val(k + i as u64), 2, 1 << 63, P >> 1][(i + k as usize) % 6])).collect();
        if cst {
            l.push((0, val(k)));
        }
        if rev {
            l.reverse();
        }
        l.dedup_by_key(|x| x.0);
        let mut seen = std::collections::HashSet::new();
        l.retain(|x| seen.insert(x.0));
        l
    };
    let lens: Vec<(usize, usize, usize)> = (0..10).flat_map(|a| (0..10).flat_map(move |b| (0..10).map(move |c| (a, b, c)))).collect();
    lens.par_iter().for_each(|&(a, b, c)| {
        for cst in 0..8u64 {
            for rev in [false, true] {
                let mut k = [long(a, 1, cst & 1 == 1, rev), long(b, 2, cst & 2 == 2, rev), long(c, 3, false, rev)];
                let w: Vec<u64> = (0..10).map(|i| if i == 0 { 1 } else { val(i + 50) }).collect();
                if cst & 4 == 4 {
                    // satisfied by this witness
                    let d = sub(mul(lc(&k[0], &w), lc(&k[1], &w)), lc(&k[2], &w));
                    k[2].push((0, d));
                }
                let mut ws = vec![w.clone(), (0..10).map(|i| (i == 0) as u64).collect()];
                for i in 1..10 {
                    let mut x = w.clone();
                    x[i] = add(x[i], 1);
                    ws.push(x);
                }
                let c = Circ { vars: 10, cons: vec![k], ..Default::default() };
                plonk(mc, &n, &format!("{:?}", c.cons[0]), &c, &ws);
            }
        }
    });
    mc.section("long combinations", json!({ "circuits": n.load(Relaxed) - single }));
    let before = n.load(Relaxed);
    // several constraints
    let kinds: Vec<[Lc; 3]> = vec![
        [vec![(1, 1)], vec![(2, 1)], vec![(3, 1)]],
        [vec![], vec![], vec![(1, 1), (2, m1)]],
        [vec![(1, 1), (2, 1), (3, 2)], vec![(1, 1), (2, m1)], vec![(0, 3), (3, 1), (1, 7)]],
        [vec![(0, 2)], vec![(1, 1), (2, 1), (3, 1)], vec![(0, 4)]],
        [vec![(1, 3), (2, 1)], vec![(0, m1)], vec![(3, 1)]],
        [vec![], vec![(1, 1)], vec![(0, 1), (1, 1), (2, 1), (3, m1)]],
        [vec![(0, 2)], vec![(0, 3)], vec![(0, 6)]],
        [vec![(0, 5)], vec![(1, 1)], vec![]],
        [vec![(0, 1), (1, 1)], vec![(0, 1), (2, 1)], vec![(0, 1), (3, 1)]],
        [vec![], vec![], vec![]],
    ];
    let len = mc.pick(4, 6);
    let count = kinds.len().pow(len as u32);
    let ws: Vec<Vec<u64>> = (0..64).map(|k| vec![1, [0, 1, m1, 2][k % 4], [0, 1, m1, 4][k / 4 % 4], [0, 1, 2, 3][k / 16]]).collect();
    (0..count).into_par_iter().for_each(|k| {
        let cons: Vec<[Lc; 3]> = (0..len).map(|i| kinds[k / kinds.len().pow(i as u32) % kinds.len()].clone()).collect();
        let c = Circ { vars: 4, cons, ..Default::default() };
        plonk(mc, &n, &format!("{:?}", c.cons), &c, &ws);
    });
    mc.section("sequences", json!({ "circuits": n.load(Relaxed) - before, "length": len, "witnesses each": ws.len() }));
    let k = n.load(Relaxed);
    mc.rule("constraint systems over few wires (every shape of the three combinations, boundary coefficients, explicit zeros, the constant wire) x witnesses; a witness satisfies the gates exactly when it satisfies the constraints, and intermediate wires are determined");
    mc.states(k);
    mc.transitions(k * 16);
    mc.traces(k);
    mc.evals(k, k);
    mc.sample(json!({"constraint": format!("{:?}", kinds[3])}));
    mc.assume("combinations name a wire at most once, as circuit files do");
}

// ---------------------------------------------------------------------------------------- P21
enum Ex {
    Num(u64),
    Col(bool, usize, bool), // committed, column, next
    Exp(usize, bool),
    Pub(usize),
    Bin(char, Box<Ex>, Box<Ex>),
    Neg(Box<Ex>),
}
fn ex(e: &Expression) -> Ex {
    let id = || e.id.unwrap();
    let arg = |k: usize| Box::new(ex(&e.values.as_ref().unwrap()[k]));
    match e.op.as_str() {
        "number" => Ex::Num((e.value.as_ref().unwrap().parse::<BigUint>().unwrap() % P).to_string().parse().unwrap()),
        "cm" => Ex::Col(true, id(), e.next()),
        "const" => Ex::Col(false, id(), e.next()),
        "exp" => Ex::Exp(id(), e.next()),
        "public" => Ex::Pub(id()),
        "add" => Ex::Bin('+', arg(0), arg(1)),
        "sub" => Ex::Bin('-', arg(0), arg(1)),
        "mul" => Ex::Bin('*', arg(0), arg(1)),
        "neg" => Ex::Neg(arg(0)),
        o => panic!("{o}"),
    }
}
struct Pil {
    exps: Vec<Ex>,
    ids: Vec<usize>,
    publics: Vec<(usize, usize)>,
    conn: Vec<(Vec<usize>, Vec<usize>)>,
    n: usize,
    constants: usize,
}
/// rows of exp values
fn table(p: &Pil, con: &[Vec<u64>], cm: &[Vec<u64>]) -> Vec<Vec<u64>> {
    let publics: Vec<u64> = p.publics.iter().map(|(c, r)| cm[*c][*r]).collect();
    fn ev(e: &Ex, i: usize, n: usize, con: &[Vec<u64>], cm: &[Vec<u64>], t: &[Vec<u64>], publics: &[u64]) -> u64 {
        let at = |next: bool| if next { (i + 1) % n } else { i };
        match e {
            Ex::Num(x) => *x,
            Ex::Col(c, k, nx) => if *c { cm[*k][at(*nx)] } else { con[*k][at(*nx)] },
            Ex::Exp(k, nx) => t[*k][at(*nx)],
            Ex::Pub(k) => publics[*k],
            Ex::Neg(a) => neg(ev(a, i, n, con, cm, t, publics)),
            Ex::Bin(o, a, b) => {
                let (x, y) = (ev(a, i, n, con, cm, t, publics), ev(b, i, n, con, cm, t, publics));
                match o {
                    '+' => add(x, y),
                    '-' => sub(x, y),
                    _ => mul(x, y),
                }
            }
        }
    }
    let mut t: Vec<Vec<u64>> = vec![];
    for e in &p.exps {
        let row = (0..p.n).map(|i| ev(e, i, p.n, con, cm, &t, &publics)).collect();
        t.push(row);
    }
    t
}
/// what of the circuit these columns break
fn unsat(p: &Pil, con: &[Vec<u64>], cm: &[Vec<u64>]) -> Option<String> {
    let t = table(p, con, cm);
    for (k, e) in p.ids.iter().enumerate() {
        if let Some(i) = t[*e].iter().position(|x| *x != 0) {
            return Some(format!("identity {k} at row {i}"));
        }
    }
    let w = pow(7, (P - 1) / p.n as u64);
    let k = 12275445934081160404u64;
    for (pols, conns) in &p.conn {
        let mut cell: HashMap<u64, (usize, usize)> = HashMap::new();
        let mut kj = 1;
        for j in 0..pols.len() {
            let mut x = kj;
            for i in 0..p.n {
                cell.insert(x, (j, i));
                x = mul(x, w);
            }
            kj = mul(kj, k);
        }
        for j in 0..pols.len() {
            for i in 0..p.n {
                match cell.get(&t[conns[j]][i]) {
                    None => return Some(format!("connection of column {j}, row {i} leads nowhere")),
                    Some((a, b)) => {
                        if t[pols[*a]][*b] != t[pols[j]][i] {
                            return Some(format!("connection of column {j}, row {i} to column {a}, row {b}"));
                        }
                    }
                }
            }
        }
    }
    None
}
fn columns(b: &[u8], cols: usize, n: usize) -> Result<Vec<Vec<u64>>, String> {
    if b.len() != cols * n * 8 {
        return Err(format!("{} bytes for {cols} columns of {n} rows", b.len()));
    }
    Ok((0..cols).map(|c| (0..n).map(|r| u64::from_le_bytes(b[(r * cols + c) * 8..][..8].try_into().unwrap())).collect()).collect())
}
struct Built {
    pil: Pil,
    con: Vec<Vec<u64>>,
    adds: Vec<[u64; 4]>,
    map: Vec<Vec<u64>>,
}
fn paths(d: &std::path::Path) -> [String; 7] {
    ["c.r1cs", "c.pil", "c.const", "c.exec", "c.wasm", "in.json", "c.cm"].map(|n| d.join(n).to_str().unwrap().to_string())
}
fn build(c: &Circ, d: &std::path::Path) -> Result<Built, String> {
    let [r1, pil, con, exe, ..] = paths(d);
    std::fs::write(&r1, c.file()).unwrap();
    for f in [&pil, &con, &exe] {
        let _ = std::fs::remove_file(f);
    }
    guard(|| setup(&r1, &pil, &con, &exe, c.bits).map_err(|e| e.to_string())).map_err(|e| format!("panicked: {e}"))??;
    let p: PIL = guard(|| compile_pil_from_str(&std::fs::read_to_string(&pil).unwrap())).map_err(|e| format!("the circuit does not compile: {e}"))?;
    let n = p.references["Compressor.a"].polDeg;
    let con = columns(&std::fs::read(&con).map_err(|e| e.to_string())?, p.nConstants, n)?;
    let v: Vec<u64> = serde_json::from_slice(&std::fs::read(&exe).unwrap()).map_err(|e| e.to_string())?;
    let (a, rows) = (v[0] as usize, v[1] as usize);
    if v.len() != 2 + a * 4 + rows * 12 {
        return Err("size of the exec file".into());
    }
    // multipliers are stored as elements are in memory
    let ri = pow(u64::from(Fr::from(1)), P - 2);
    let adds = v[2..2 + a * 4].chunks(4).map(|x| [x[0], x[1], mul(x[2], ri), mul(x[3], ri)]).collect();
    let map = v[2 + a * 4..].chunks(12).map(|x| x.to_vec()).collect();
    let pil = Pil {
        exps: p.expressions.iter().map(ex).collect(),
        ids: p.polIdentities.iter().map(|x| x.e).collect(),
        publics: p.publics.iter().map(|x| (x.polId, x.idx)).collect(),
        conn: p.connectionIdentities.iter().flatten().map(|x| (x.pols.clone().unwrap(), x.connections.clone().unwrap())).collect(),
        n,
        constants: p.nConstants,
    };
    assert_eq!(pil.constants, con.len());
    Ok(Built { pil, con, adds, map })
}
fn wasm(n: usize) -> Vec<u8> {
    let mut b = std::fs::read(root().join("mc/h_alg/data/wires.wasm")).unwrap();
    let at = b.windows(4).position(|x| x == 0x5EEDF00Du32.to_le_bytes()).unwrap();
    b[at..at + 4].copy_from_slice(&(n as u32).to_le_bytes());
    b
}
fn run_exec(c: &Circ, d: &std::path::Path, w: &[u64], n: usize) -> Result<Vec<Vec<u64>>, String> {
    let [_, pil, _, exe, wa, inp, cm] = paths(d);
    std::fs::write(&wa, wasm(c.vars - 1)).unwrap();
    std::fs::write(&inp, json!({"y": w[1..].iter().map(|x| x.to_string()).collect::<Vec<_>>()}).to_string()).unwrap();
    let _ = std::fs::remove_file(&cm);
    guard(|| exec(&inp, &wa, &pil, &exe, &cm).map_err(|e| e.to_string())).map_err(|e| format!("panicked: {e}"))??;
    columns(&std::fs::read(&cm).map_err(|e| e.to_string())?, 12, n)
}
/// the values of all signals, those of additions included
fn signals(b: &Built, w: &[u64]) -> Vec<u64> {
    let mut v = w.to_vec();
    for a in &b.adds {
        v.push(add(mul(v[a[0] as usize], a[2]), mul(v[a[1] as usize], a[3])));
    }
    v
}
fn fill(b: &Built, v: &[u64], zero: u64) -> Vec<Vec<u64>> {
    (0..12).map(|c| (0..b.pil.n).map(|r| match b.map.get(r).map(|x| x[c] as usize) {
        None => 0,
        Some(0) => zero,
        Some(s) => v[s],
    }).collect()).collect()
}
/// one circuit with a witness satisfying it: its files, its columns, and every signal changed
fn circuit(mc: &Mc, n: &AtomicU64, key: &str, c: &Circ, w: &[u64], others: &[Vec<u64>]) {
    let at = n.fetch_add(1, Relaxed);
    assert_eq!(c.broken(w), None, "{key}");
    // a thread that waits in the code under test may start another circuit
    let d = dir(&format!("p21-{at}"));
    let r = (|| -> Result<(), String> {
        let b = build(c, &d)?;
        let np = c.out + c.inp;
        if b.pil.publics.len() != np {
            return Err(format!("{} public inputs, not {np}", b.pil.publics.len()));
        }
        // columns made by exec
        for (k, x) in [w.to_vec()].iter().chain(others).enumerate() {
            let cm = run_exec(c, &d, x, b.pil.n)?;
            let v = signals(&b, x);
            if cm != fill(&b, &v, 0) {
                let at = (0..12).flat_map(|c| (0..b.pil.n).map(move |r| (c, r))).find(|(c, r)| cm[*c][*r] != fill(&b, &v, 0)[*c][*r]);
                return Err(format!("columns of witness {k} are not the signals the map names: {at:?} {:?}", at.map(|(c, r)| (cm[c][r], &b.map[r], &v, &b.adds))));
            }
            if let Some(i) = b.pil.publics.iter().enumerate().position(|(i, (c, r))| cm[*c][*r] != x[1 + i]) {
                return Err(format!("public input {i} is not signal {}", i + 1));
            }
            match (c.broken(x), unsat(&b.pil, &b.con, &cm)) {
                (None, Some(e)) => return Err(format!("witness {k} satisfies the constraints, its columns break {e}")),
                (Some(e), None) => return Err(format!("witness {k} breaks {e}, its columns satisfy the circuit")),
                _ => {}
            }
        }
        // every other assignment of a signal, everywhere it occurs
        let v = signals(&b, w);
        let delta = |s: usize| if s % 2 == 0 { 1 } else { P - 2 };
        for s in 1..v.len() {
            let mut u = v.clone();
            u[s] = add(u[s], delta(s));
            let mut x = u[..c.vars].to_vec();
            let broken = if s < c.vars {
                // wires of additions follow
                u = signals(&b, &x);
                c.broken(&x)
            } else {
                x = w.to_vec();
                Some(format!("addition {}", s - c.vars))
            };
            let _ = x;
            for zero in [0, 5] {
                match (&broken, unsat(&b.pil, &b.con, &fill(&b, &u, zero))) {
                    (None, Some(e)) => return Err(format!("another value of signal {s} satisfies the constraints, its columns break {e}")),
                    (Some(e), None) => return Err(format!("another value of signal {s} breaks {e}, its columns satisfy the circuit")),
                    _ => {}
                }
            }
        }
        if let Some(e) = unsat(&b.pil, &b.con, &fill(&b, &v, 5)) {
            return Err(format!("with another value in unused cells the columns break {e}"));
        }
        // a signal has one value: another one in one of the places where it occurs is noticed
        let cm = fill(&b, &v, 0);
        let mut places: BTreeMap<u64, Vec<(usize, usize)>> = BTreeMap::new();
        for (r, row) in b.map.iter().enumerate() {
            for (k, s) in row.iter().enumerate() {
                if *s != 0 {
                    places.entry(*s).or_default().push((k, r));
                }
            }
        }
        let per = mc.pick(3, 1000);
        for (s, at) in &places {
            if at.len() > 1 {
                for (k, r) in at.iter().take(per).chain(at.last()) {
                    let mut u = cm.clone();
                    u[*k][*r] = add(u[*k][*r], 1);
                    if unsat(&b.pil, &b.con, &u).is_none() {
                        return Err(format!("signal {s} has another value in column {k}, row {r} alone"));
                    }
                }
            }
        }
        // and its places are one cycle: the connections alone hold exactly when all are equal
        connected(&b, &places)
    })();
    let _ = std::fs::remove_dir_all(&d);
    mc.check(r.is_ok(), key, || format!("{} ({c:?})", r.as_ref().unwrap_err()).chars().take(900).collect());
}
/// the cells that a signal occupies are exactly one cycle of the connection
fn connected(b: &Built, places: &BTreeMap<u64, Vec<(usize, usize)>>) -> Result<(), String> {
    let cm: Vec<Vec<u64>> = (0..12).map(|_| vec![0; b.pil.n]).collect();
    let t = table(&b.pil, &b.con, &cm);
    let (_, conns) = b.pil.conn.first().ok_or("no connection")?;
    let w = pow(7, (P - 1) / b.pil.n as u64);
    let mut cell: HashMap<u64, (usize, usize)> = HashMap::new();
    let mut kj = 1;
    for j in 0..12 {
        let mut x = kj;
        for i in 0..b.pil.n {
            cell.insert(x, (j, i));
            x = mul(x, w);
        }
        kj = mul(kj, 12275445934081160404);
    }
    let next = |c: (usize, usize)| cell.get(&t[conns[c.0]][c.1]).copied();
    let mut inside = std::collections::HashSet::new();
    for (s, at) in places {
        let mut seen = vec![at[0]];
        let mut c = next(at[0]).ok_or("connection leads nowhere")?;
        while c != at[0] && seen.len() <= at.len() {
            seen.push(c);
            c = next(c).ok_or("connection leads nowhere")?;
        }
        inside.extend(seen.iter().copied());
        seen.sort();
        let mut at = at.clone();
        at.sort();
        if seen != at {
            return Err(format!("signal {s} is at {at:?}, but {seen:?} are connected"));
        }
    }
    for j in 0..12 {
        for i in 0..b.pil.n {
            if !inside.contains(&(j, i)) && next((j, i)) != Some((j, i)) {
                return Err(format!("unused cell {j}, {i} is connected"));
            }
        }
    }
    Ok(())
}
/// makes each constraint hold by a constant
fn fit(cons: &mut [[Lc; 3]], w: &[u64]) {
    for c in cons {
        let d = sub(mul(lc(&c[0], w), lc(&c[1], w)), lc(&c[2], w));
        if d != 0 {
            match c[2].iter_mut().find(|x| x.0 == 0) {
                Some(x) => x.1 = add(x.1, d),
                None => c[2].push((0, d)),
            }
        }
    }
}
/// a circuit of gate uses: each takes `share` signals of what came before, the rest are new
fn custom(gates: &[(&'static str, Vec<u64>)], uses: &[usize], share: usize, out: usize, inp: usize, plain: usize) -> (Circ, Vec<u64>) {
    let mut w: Vec<u64> = vec![1];
    w.extend((0..(out + inp).max(2) as u64).map(|i| val(i + 900)));
    let mut us = vec![];
    for (k, id) in uses.iter().enumerate() {
        let (name, p) = &gates[*id];
        let (_, ins) = sizes(name);
        let mut s: Vec<usize> = vec![];
        for i in 0..ins {
            if i < share || i % 5 == 4 && share > 0 {
                s.push(1 + (i * 7 + k) % (w.len() - 1));
            } else {
                w.push(val((1000 * k + i) as u64 + 7));
                s.push(w.len() - 1);
            }
        }
        let v: Vec<u64> = s.iter().map(|i| w[*i]).collect();
        for o in outs(name, p, &v) {
            w.push(o);
            s.push(w.len() - 1);
        }
        us.push((*id, s));
    }
    let last = w.len() - 1;
    let mut cons: Vec<[Lc; 3]> = (0..plain).map(|i| [vec![(1 + i % last, 1), (0, i as u64)], vec![(last, 2), (1, 1)], vec![(2.min(last), P - 1)]].map(|mut l: Lc| { let mut seen = std::collections::HashSet::new(); l.retain(|x| x.1 != 0 && seen.insert(x.0)); l })).collect();
    fit(&mut cons, &w);
    (Circ { out, inp, vars: w.len(), cons, gates: gates.to_vec(), uses: us, bits: 0 }, w)
}

pub fn p21(mc: &Mc) {
    let n = AtomicU64::new(0);
    let mut done = 0;
    let mut sec = |name: &str, n: &AtomicU64| {
        let k = n.load(Relaxed);
        mc.section(name, json!({ "circuits": k - done }));
        done = k;
    };
    // public inputs and outputs
    let w: Vec<u64> = (0..60).map(|i| if i == 0 { 1 } else { val(i) }).collect();
    let mut cells = vec![];
    for out in 0..mc.pick(15, 30) {
        for inp in 0..mc.pick(15, 30) {
            if out + inp < 59 {
                cells.push((out, inp));
            }
        }
    }
    cells.par_iter().for_each(|&(out, inp)| {
        for plain in [0usize, 1, 3] {
            let vars = (1 + out + inp + (out + inp) % 3).max(2);
            let mut cons: Vec<[Lc; 3]> = (0..plain).map(|i| [vec![(1 + i % (vars - 1), 1)], vec![(1 + (i + 1) % (vars - 1), 1)], vec![(vars - 1, 1)]]).collect();
            fit(&mut cons, &w);
            let c = Circ { out, inp, vars, cons, ..Default::default() };
            circuit(mc, &n, &format!("{out} outputs, {inp} inputs, {plain} constraints"), &c, &w[..vars], &[]);
        }
    });
    sec("public signals", &n);
    // kinds of constraints in every order: equal selectors share rows
    let kinds = 4usize;
    let kind = |k: usize, i: usize| -> [Lc; 3] {
        let (a, b, c) = (1 + i % 7, 1 + (i * 2 + 1) % 7, 1 + (i * 3 + 2) % 7);
        match k {
            0 => [vec![(a, 1)], vec![(b, 1)], vec![(c, 1)]],
            1 => [vec![(a, 3)], vec![(b, 1)], vec![(c, 2)]],
            2 => [vec![], vec![], if a == b { vec![(a, 2)] } else { vec![(a, 1), (b, P - 1)] }],
            _ => [vec![(0, 2)], vec![(b, 5)], vec![(c, 10)]],
        }
    };
    // all signals equal: sums and products can be fitted by few constants, so selectors repeat
    let ones: Vec<u64> = vec![1; 8];
    let maxlen = mc.pick(6u32, 8);
    for len in 0..=maxlen {
        (0..kinds.pow(len)).into_par_iter().for_each(|k| {
            let mut cons: Vec<[Lc; 3]> = (0..len as usize).map(|i| kind(k / kinds.pow(i as u32) % kinds, i)).collect();
            fit(&mut cons, &ones);
            let c = Circ { out: 0, inp: 1, vars: 8, cons, ..Default::default() };
            let name: String = (0..len).map(|i| ["m", "s", "l", "k"][k / kinds.pow(i) % kinds]).collect();
            circuit(mc, &n, &format!("constraints {name}"), &c, &ones, &[]);
        });
    }
    // many different selectors, each a number of times
    let mut cells = vec![];
    for distinct in 1..=mc.pick(9usize, 16) {
        for times in 1..=mc.pick(6usize, 10) {
            for order in 0..3 {
                cells.push((distinct, times, order));
            }
        }
    }
    cells.par_iter().for_each(|&(distinct, times, order)| {
        let total = distinct * times;
        let mut cons: Vec<[Lc; 3]> = (0..total)
            .map(|i| {
                let k = match order {
                    0 => i % distinct,
                    1 => i / times,
                    _ => (i * 7 + i / distinct) % distinct,
                };
                [vec![(1 + i % 7, 1 + k as u64)], vec![(1 + (i + 1) % 7, 1)], vec![(1 + (i * 3) % 7, 1)]]
            })
            .collect();
        fit(&mut cons, &ones);
        let c = Circ { out: 1, inp: 1, vars: 8, cons, ..Default::default() };
        circuit(mc, &n, &format!("{distinct} selectors {times} times, order {order}"), &c, &ones, &[]);
    });
    // long combinations: additions
    let lens: Vec<(usize, usize, usize)> = (0..mc.pick(6, 9)).flat_map(|a| (0..mc.pick(6, 9)).flat_map(move |b| (0..mc.pick(6, 9)).map(move |c| (a, b, c)))).collect();
    lens.par_iter().for_each(|&(a, b, k)| {
        let l = |len: usize, o: usize| -> Lc { (0..len).map(|i| (1 + (i + o) % 9, [1, P - 1, val(i as u64), 2][(i + o) % 4])).collect() };
        let mut cons: Vec<[Lc; 3]> = vec![[l(a, 0), l(b, 3), l(k, 5)], [vec![], vec![], l(k + 1, 1)], [vec![(0, 3)], l(b, 2), l(a, 4)]];
        fit(&mut cons, &w[..10]);
        let c = Circ { out: 0, inp: 2, vars: 10, cons, ..Default::default() };
        let mut o = w[..10].to_vec();
        o[4] = 0;
        circuit(mc, &n, &format!("combinations of {a}, {b}, {k}"), &c, &w[..10], &[o, vec![1, 0, 0, 0, 0, 0, 0, 0, 0, 0]]);
    });
    sec("constraints", &n);
    // custom gates: each alone and in every short sequence, gate lists in every order
    let fft = |ty: u64, k: u64| ("FFT4", vec![val(k), val(k + 1), val(k + 2), ty]);
    let all: Vec<(&'static str, Vec<u64>)> = vec![("CMulAdd", vec![]), ("Poseidon12", vec![]), ("EvPol4", vec![]), fft(4, 1), fft(2, 5), ("FFT4", vec![1, 1, 1, 4]), ("FFT4", vec![P - 1, 2, 1 << 40, 2])];
    let mut cells: Vec<(Vec<usize>, Vec<usize>, usize, usize)> = vec![];
    for a in 0..all.len() {
        for plain in [0, 2] {
            cells.push((vec![a], vec![0], 0, plain));
            cells.push((vec![a], vec![0, 0], 4, plain));
            cells.push((vec![a], vec![], 0, plain));
        }
        for b in 0..all.len() {
            if a == b || a == 1 && b > 3 && !mc.thorough() {
                continue;
            }
            for uses in [vec![0], vec![1], vec![0, 1], vec![1, 0], vec![1, 1, 0]] {
                cells.push((vec![a, b], uses, 3, 1));
            }
        }
    }
    for k in 0..5 {
        let mut order: Vec<usize> = (0..all.len()).collect();
        order.rotate_left(k + 1);
        cells.push((order.clone(), vec![0, 1, 2, 3, 4, 5, 6], 5, 3));
        cells.push((order, vec![6, 3, 3, 0, 1], 2, 0));
    }
    cells.par_iter().for_each(|(g, u, share, plain)| {
        let gates: Vec<_> = g.iter().map(|i| all[*i].clone()).collect();
        let (c, w) = custom(&gates, u, *share, 1, 2, *plain);
        circuit(mc, &n, &format!("gates {:?}, uses {u:?}, sharing {share}, {plain} constraints", g.iter().map(|i| format!("{}{:?}", all[*i].0, all[*i].1.get(3))).collect::<Vec<_>>()), &c, &w, &[]);
    });
    sec("custom gates", &n);
    // forced sizes: at least as large as needed works, smaller is refused
    for plain in [1usize, 5, 40] {
        let mut cons: Vec<[Lc; 3]> = (0..plain).map(|i| [vec![(1 + i % 7, 1 + i as u64)], vec![(2, 1)], vec![(3, 1)]]).collect();
        fit(&mut cons, &ones);
        let c = Circ { out: 0, inp: 3, vars: 8, cons, ..Default::default() };
        let d = dir("p21-bits");
        let need = build(&c, &d).map(|b| b.pil.n.trailing_zeros() as usize);
        mc.check(need.is_ok(), "forced size", || format!("{need:?}"));
        let need = need.unwrap_or(3);
        for bits in 1..=need + 3 {
            let c = Circ { bits, ..c.clone() };
            if bits >= need {
                circuit(mc, &n, &format!("{plain} constraints forced to 2^{bits} rows"), &c, &ones, &[]);
                let b = build(&c, &d);
                mc.check(b.as_ref().is_ok_and(|b| b.pil.n == 1 << bits), "forced size", || format!("2^{bits} rows asked for: {:?}", b.map(|b| b.pil.n)));
            } else {
                n.fetch_add(1, Relaxed);
                let r = build(&c, &d).and_then(|b| run_exec(&c, &d, &ones, b.pil.n).map(|_| ()));
                mc.check(r.is_err(), "forced size", || format!("{plain} constraints in 2^{bits} rows of 2^{need}"));
            }
        }
        let _ = std::fs::remove_dir_all(&d);
    }
    sec("forced sizes", &n);
    damage(mc, &n);
    sec("damaged files", &n);
    let k = n.load(Relaxed);
    mc.rule("circuits (public signals, orders and repetitions of constraint kinds, lengths of combinations, lists and sequences of custom gates, forced sizes) through setup and exec with real files; columns satisfy the compressor circuit exactly when the witness satisfies constraints and custom gates, for the witness and for every signal changed; connections join exactly the places of each signal");
    mc.states(k);
    mc.transitions(k * 10);
    mc.traces(k);
    mc.evals(k, k);
    mc.sample(json!({"gates": ["CMulAdd", "FFT4"], "uses": [1, 0]}));
    mc.assume("the emitted PIL is compiled by a stand-in compiler, as powdr is not available offline");
}
/// a damaged exec file, input or circuit is refused and leaves no columns
fn damage(mc: &Mc, n: &AtomicU64) {
    let d = dir("p21-damage");
    let w: Vec<u64> = (0..8).map(|i| if i == 0 { 1 } else { val(i) }).collect();
    let mut cons: Vec<[Lc; 3]> = vec![[vec![(1, 1), (2, 3), (4, 1)], vec![(3, 1)], vec![(5, 1)]], [vec![(1, 1)], vec![(2, 1)], vec![(6, 1)]]];
    fit(&mut cons, &w);
    let c = Circ { out: 1, inp: 2, vars: 8, cons, ..Default::default() };
    let [_, _, _, exe, _, _, cm] = paths(&d);
    let b = match build(&c, &d) {
        Ok(b) => b,
        Err(e) => {
            mc.check(false, "damaged exec file", || e);
            return;
        }
    };
    let text = std::fs::read_to_string(&exe).unwrap();
    let good = run_exec(&c, &d, &w, b.pil.n);
    mc.check(good.is_ok(), "damaged exec file", || format!("{good:?}"));
    let words: Vec<u64> = serde_json::from_str(&text).unwrap();
    let refused = |what: String, t: &str| {
        n.fetch_add(1, Relaxed);
        std::fs::write(&exe, t).unwrap();
        let r = run_exec(&c, &d, &w, b.pil.n);
        let left = std::path::Path::new(&cm).exists();
        mc.check(matches!(&r, Err(e) if !e.starts_with("panicked")) && !left, "damaged exec file", || format!("{what}: {} {}", match &r { Ok(_) => "accepted", Err(e) => e }, if left { "and columns written" } else { "" }));
    };
    for k in 0..text.len() {
        refused(format!("cut at {k}"), &text[..k]);
    }
    let mk = |v: &[u64]| serde_json::to_string(v).unwrap();
    for k in 0..words.len() {
        refused(format!("word {k} missing"), &mk(&[&words[..k], &words[k + 1..]].concat()));
        refused(format!("word {k} doubled"), &mk(&[&words[..=k], &words[k..]].concat()));
        let wires = c.vars + b.adds.len();
        let place = if k < 2 { 0 } else { (k - 2) % 4 };
        let bad: Vec<u64> = if k < 2 {
            vec![words[k] + 1, u64::MAX, 1 << 62]
        } else if k < 2 + 4 * b.adds.len() && place >= 2 {
            vec![P, u64::MAX]
        } else {
            vec![wires as u64, u64::MAX, 1 << 62]
        };
        for x in bad {
            let mut v = words.clone();
            v[k] = x;
            refused(format!("word {k} is {x}"), &mk(&v));
        }
    }
    for (a, t) in ["", "{}", "[1]", "[]", "null", "[0,0,1]", "[\"0\",\"0\"]", "[-1,0]", "[0,0] x", "[1e3,0]"].iter().enumerate() {
        refused(format!("text {a}"), t);
    }
    let _ = std::fs::remove_dir_all(&d);
}
