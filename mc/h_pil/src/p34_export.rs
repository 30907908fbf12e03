//! P34: the circuit that the prover gets is the circuit that was analyzed.
use crate::air::{self, Air, Lk};
use crate::refs::{self, P};
use crate::stark::{Gl, Inst, Par};
use mc_common::*;
use powdr::ast::analyzed::*;
use powdr::number::GoldilocksField as F;
use powdr_parser_util::SourceRef;
use rayon::prelude::*;
use recursion::pilcom::{compile_pil_from_path, compile_pil_from_str, export};
use serde_json::json;
use starky::types::{Expression as Out, PIL};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Pow,
}
/// an expression of the source
#[derive(Clone, Debug)]
pub enum X {
    Col(usize, usize, bool),
    Pub(usize),
    Ch(u64),
    N(u64),
    Bin(Op, Box<X>, Box<X>),
    Neg(Box<X>),
}
use X::*;
fn bin(op: Op, a: &X, b: &X) -> X {
    Bin(op, a.clone().into(), b.clone().into())
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Cm,
    K,
    Im,
    Other,
}
#[derive(Clone, Debug)]
pub struct Sym {
    pub name: String,
    pub kind: Kind,
    pub len: Option<usize>,
    pub val: Vec<X>,
}
#[derive(Clone, Debug)]
pub enum St {
    Def(usize),
    Pub(usize, Option<usize>, u64),
    Id(X),
    Lk(bool, Option<X>, Vec<X>, Option<X>, Vec<X>),
    Conn(Vec<X>, Vec<X>),
}
#[derive(Clone, Debug, Default)]
pub struct Src {
    pub bits: usize,
    pub syms: Vec<Sym>,
    pub sts: Vec<(St, SourceRef)>,
    /// columns numbered in the opposite order to their declarations
    pub rev: bool,
}

impl Src {
    fn rows(&self) -> usize {
        1 << self.bits
    }
    fn add(&mut self, name: &str, kind: Kind, len: Option<usize>, val: Vec<X>) -> usize {
        self.syms.push(Sym { name: name.into(), kind, len, val });
        self.syms.len() - 1
    }
    fn def(&mut self, name: &str, kind: Kind, len: Option<usize>, val: Vec<X>) -> usize {
        let i = self.add(name, kind, len, val);
        self.sts.push((St::Def(i), SourceRef::default()));
        i
    }
    fn st(&mut self, s: St) {
        self.sts.push((s, SourceRef::default()));
    }
    /// number of the first element of every column among those of its kind
    fn ids(&self) -> Vec<usize> {
        let mut next = HashMap::new();
        let mut ids = vec![0; self.syms.len()];
        let mut order: Vec<usize> = self.sts.iter().filter_map(|s| if let St::Def(i) = s.0 { Some(i) } else { None }).collect();
        if self.rev {
            order.reverse();
        }
        for i in order {
            let n = next.entry(self.syms[i].kind as usize).or_insert(0);
            ids[i] = *n;
            *n += self.syms[i].len.unwrap_or(1);
        }
        ids
    }
    fn count(&self, k: Kind) -> usize {
        self.syms.iter().filter(|s| s.kind == k).map(|s| s.len.unwrap_or(1)).sum()
    }
    fn pubs(&self) -> Vec<(usize, Option<usize>, u64)> {
        self.sts.iter().filter_map(|s| if let St::Pub(a, b, c) = s.0 { Some((a, b, c)) } else { None }).collect()
    }
    fn pub_name(i: usize) -> String {
        // in another order than their positions
        format!("{}p{i}", (b'z' - i as u8) as char)
    }
    fn poly(&self, ids: &[usize], s: usize, e: usize) -> PolID {
        let ptype = match self.syms[s].kind {
            Kind::Cm => PolynomialType::Committed,
            Kind::K => PolynomialType::Constant,
            Kind::Im => PolynomialType::Intermediate,
            Kind::Other => unreachable!(),
        };
        PolID { id: (ids[s] + e) as u64, ptype }
    }
    fn expr(&self, ids: &[usize], x: &X) -> AlgebraicExpression<F> {
        use AlgebraicExpression as E;
        match x {
            Col(s, e, next) => E::Reference(AlgebraicReference { name: self.syms[*s].name.clone(), poly_id: self.poly(ids, *s, *e), next: *next }),
            Pub(i) => E::PublicReference(Self::pub_name(*i)),
            Ch(i) => E::Challenge(Challenge { id: *i, stage: 0 }),
            N(v) => E::Number(F(*v)),
            Bin(op, a, b) => E::BinaryOperation(AlgebraicBinaryOperation {
                left: self.expr(ids, a).into(),
                op: match op {
                    Op::Add => AlgebraicBinaryOperator::Add,
                    Op::Sub => AlgebraicBinaryOperator::Sub,
                    Op::Mul => AlgebraicBinaryOperator::Mul,
                    Op::Pow => AlgebraicBinaryOperator::Pow,
                },
                right: self.expr(ids, b).into(),
            }),
            Neg(a) => E::UnaryOperation(AlgebraicUnaryOperation { op: AlgebraicUnaryOperator::Minus, expr: self.expr(ids, a).into() }),
        }
    }
    /// powdr's form of the source
    pub fn analyzed(&self) -> Analyzed<F> {
        let ids = self.ids();
        let mut a = Analyzed { degree: self.rows() as u64, ..Default::default() };
        let ex = |x: &X| self.expr(&ids, x);
        let vec = |v: &Vec<X>| v.iter().map(ex).collect::<Vec<_>>();
        let mut npub = 0;
        for (st, source) in &self.sts {
            let mut identity = |kind, left, right| {
                a.source_order.push(StatementIdentifier::Identity(a.identities.len()));
                a.identities.push(Identity { id: a.identities.len() as u64, kind, source: source.clone(), left, right });
            };
            match st {
                St::Def(i) => {
                    let s = &self.syms[*i];
                    let kind = if s.kind == Kind::Other { SymbolKind::Other() } else { SymbolKind::Poly(self.poly(&ids, *i, 0).ptype) };
                    let sym = Symbol { id: ids[*i] as u64, source: source.clone(), absolute_name: s.name.clone(), kind, length: s.len.map(|l| l as u64) };
                    if s.kind == Kind::Im {
                        a.intermediate_columns.insert(s.name.clone(), (sym, vec(&s.val)));
                    } else {
                        a.definitions.insert(s.name.clone(), (sym, None));
                    }
                    a.source_order.push(StatementIdentifier::Definition(s.name.clone()));
                }
                St::Pub(s, e, row) => {
                    let name = Self::pub_name(npub);
                    let polynomial = PolynomialReference { name: self.syms[*s].name.clone(), poly_id: Some(self.poly(&ids, *s, 0)) };
                    let d = PublicDeclaration { id: npub as u64, source: source.clone(), name: name.clone(), polynomial, array_index: *e, index: *row };
                    npub += 1;
                    a.public_declarations.insert(name.clone(), d);
                    a.source_order.push(StatementIdentifier::PublicDeclaration(name));
                }
                St::Id(x) => identity(IdentityKind::Polynomial, SelectedExpressions { selector: Some(ex(x)), expressions: vec![] }, Default::default()),
                St::Lk(perm, sf, f, stt, t) => identity(
                    if *perm { IdentityKind::Permutation } else { IdentityKind::Plookup },
                    SelectedExpressions { selector: sf.as_ref().map(ex), expressions: vec(f) },
                    SelectedExpressions { selector: stt.as_ref().map(ex), expressions: vec(t) },
                ),
                St::Conn(p, c) => identity(
                    IdentityKind::Connect,
                    SelectedExpressions { selector: None, expressions: vec(p) },
                    SelectedExpressions { selector: None, expressions: vec(c) },
                ),
            }
        }
        a
    }
    /// value on a row of the trace (kind, number of the column, row)
    fn eval(&self, ids: &[usize], tr: &Trace, x: &X, row: usize) -> u64 {
        match x {
            Col(s, e, next) => {
                let r = (row + *next as usize) % self.rows();
                match self.syms[*s].kind {
                    Kind::Cm => tr.w[ids[*s] + e][r],
                    Kind::K => tr.k[ids[*s] + e][r],
                    _ => self.eval(ids, tr, &self.syms[*s].val[*e], r),
                }
            }
            Pub(i) => tr.p[*i],
            Ch(i) => chal(*i),
            N(v) => v % P,
            Bin(op, a, b) => {
                let (a, b) = (self.eval(ids, tr, a, row), self.eval(ids, tr, b, row));
                match op {
                    Op::Add => refs::add(a, b),
                    Op::Sub => refs::sub(a, b),
                    Op::Mul => refs::mul(a, b),
                    Op::Pow => refs::pow(a, b),
                }
            }
            Neg(a) => refs::neg(self.eval(ids, tr, a, row)),
        }
    }
}
type PolID = powdr::ast::analyzed::PolyID;
#[derive(Debug)]
pub struct Trace {
    pub w: Vec<Vec<u64>>,
    pub k: Vec<Vec<u64>>,
    pub p: Vec<u64>,
}
fn chal(i: u64) -> u64 {
    two(77, i) % P
}
fn fillers(n: usize, k: usize, p: usize, rows: usize) -> Trace {
    let col = |t: u64, n: usize| (0..n).map(|i| (0..rows).map(|r| two(t, (i * 64 + r) as u64) % P).collect()).collect();
    Trace { w: col(1, n), k: col(2, k), p: (0..p).map(|i| two(3, i as u64) % P).collect() }
}
/// the meaning of an exported expression on a row
pub fn value(pil: &PIL, tr: &Trace, e: &Out, row: usize) -> Result<u64, String> {
    let rows = tr.w.iter().chain(&tr.k).next().map_or(4, |c| c.len());
    let arg = |i: usize, n: usize| {
        let v = e.values.as_ref().ok_or("no operands")?;
        if v.len() != n {
            return Err(format!("{} with {} operands", e.op, v.len()));
        }
        value(pil, tr, &v[i], row)
    };
    let id = || e.id.ok_or(format!("{} without id", e.op));
    let at = || e.next.map(|n| (row + n as usize) % rows).ok_or(format!("{} without next", e.op));
    let col = |c: &Vec<Vec<u64>>| Ok::<u64, String>(c.get(id()?).ok_or(format!("{} {:?} of {}", e.op, e.id, c.len()))?[at()?]);
    Ok(match e.op.as_str() {
        "cm" => col(&tr.w)?,
        "const" => col(&tr.k)?,
        "exp" => value(pil, tr, pil.expressions.get(id()?).ok_or("no such expression")?, at()?)?,
        "public" => *tr.p.get(id()?).ok_or("no such public")?,
        "challenge" => chal(id()? as u64),
        "number" => air::num(e.value.as_ref().ok_or("number without value")?),
        "add" => refs::add(arg(0, 2)?, arg(1, 2)?),
        "sub" => refs::sub(arg(0, 2)?, arg(1, 2)?),
        "mul" => refs::mul(arg(0, 2)?, arg(1, 2)?),
        "pow" => refs::pow(arg(0, 2)?, arg(1, 2)?),
        "neg" => refs::neg(arg(0, 1)?),
        op => return Err(format!("operation {op}")),
    })
}
/// degrees: of an expression in terms of columns and intermediate columns, checked in every node
fn degree(e: &Out, top: bool) -> Result<usize, String> {
    let v: Vec<usize> = e.values.iter().flatten().map(|x| degree(x, false)).collect::<Result<_, _>>()?;
    let d = match e.op.as_str() {
        "cm" | "const" | "exp" => 1,
        "add" | "sub" => v[0].max(v[1]),
        "mul" => v[0] + v[1],
        "neg" => v[0],
        _ => 0,
    };
    if e.idQ.is_none() && e.deg != d {
        return Err(format!("degree {} of {} is given as {}", d, e.op, e.deg));
    }
    if e.idQ.is_some() && (!top || e.deg != 1) {
        return Err("a number of its own, but not as a column".into());
    }
    Ok(d)
}
/// what an exported name should be
fn fixed(name: &str) -> String {
    match name.rfind("::") {
        Some(i) if !name.contains('.') => format!("{}.{}", &name[..i], &name[i + 2..]),
        _ => name.into(),
    }
}
fn place(s: &SourceRef) -> (String, usize) {
    let f = s.file_name.as_deref().map_or(String::new(), |f| f.rsplit('/').next().unwrap().to_string());
    (f, s.file_contents.as_ref().map_or(0, |t| 1 + t[..s.start].matches('\n').count()))
}

/// compares the source with what was exported; Err says what differs
pub fn compare(src: &Src, pil: &PIL) -> Result<(), String> {
    let ids = src.ids();
    let rows = src.rows();
    let pubs = src.pubs();
    let tr = fillers(src.count(Kind::Cm), src.count(Kind::K), pubs.len(), rows);
    let want = |what: &str, a: usize, b: usize| if a == b { Ok(()) } else { Err(format!("{what}: {a}, not {b}")) };
    want("committed columns", pil.nCommitments, src.count(Kind::Cm))?;
    want("constant columns", pil.nConstants, src.count(Kind::K))?;
    want("intermediate columns", pil.nIm, src.count(Kind::Im))?;
    let same = |what: &str, e: usize, x: &X| -> Result<(), String> {
        let o = pil.expressions.get(e).ok_or(format!("{what}: no expression {e}"))?;
        for r in 0..rows {
            let (a, b) = (value(pil, &tr, o, r).map_err(|m| format!("{what}: {m}"))?, src.eval(&ids, &tr, x, r));
            if a != b {
                return Err(format!("{what}: another value on row {r}: {o:?} for {x:?}"));
            }
        }
        Ok(())
    };
    // names
    let cols: Vec<&Sym> = src.syms.iter().filter(|s| s.kind != Kind::Other).collect();
    want("names", pil.references.len(), cols.len())?;
    for (i, s) in src.syms.iter().enumerate().filter(|(_, s)| s.kind != Kind::Other) {
        let n = fixed(&s.name);
        let r = pil.references.get(&n).ok_or(format!("no name {n} among {:?}", pil.references.keys()))?;
        let (t, id) = match s.kind {
            Kind::Cm => ("cmP", Some(ids[i])),
            Kind::K => ("constP", Some(ids[i])),
            _ => ("imP", None),
        };
        if r.type_ != t || id.is_some_and(|d| d != r.id) || r.polDeg != rows || r.isArray != s.len.is_some() || r.len != s.len {
            return Err(format!("{n}: {r:?}"));
        }
        if s.kind == Kind::Im {
            for (e, v) in s.val.iter().enumerate() {
                same(&n, r.id + e, v)?;
            }
        }
    }
    // statements
    let mut high = vec![];
    let (mut np, mut ni, mut nl, mut nm, mut nc) = (0, 0, 0, 0, 0);
    let here = |f: &str, l: usize, s: &SourceRef| if (f.to_string(), l) == place(s) { Ok(()) } else { Err(format!("{f}:{l} for {:?}", place(s))) };
    let all = |what: &str, e: &Option<Vec<usize>>, x: &[X]| -> Result<(), String> {
        let e = e.as_ref().ok_or(format!("{what}: none"))?;
        want(what, e.len(), x.len())?;
        e.iter().zip(x).try_for_each(|(e, x)| same(what, *e, x))
    };
    let opt = |what: &str, e: &Option<usize>, x: &Option<X>| match (e, x) {
        (None, None) => Ok(()),
        (Some(e), Some(x)) => same(what, *e, x),
        _ => Err(format!("{what}: {e:?} for {x:?}")),
    };
    for (st, at) in &src.sts {
        match st {
            St::Def(_) => {}
            St::Pub(s, e, row) => {
                let p = pil.publics.get(np).ok_or("a public is missing")?;
                let e = e.unwrap_or(0);
                let bad = match src.syms[*s].kind {
                    Kind::Cm => p.polType != "cmP" || p.polId != ids[*s] + e,
                    Kind::K => p.polType != "constP" || p.polId != ids[*s] + e,
                    _ => {
                        same("public", p.polId, &src.syms[*s].val[e])?;
                        p.polType != "imP"
                    }
                };
                if bad || p.idx as u64 != *row || p.id != np || p.name != Src::pub_name(np) {
                    return Err(format!("public {np}: {p:?}"));
                }
                np += 1;
            }
            St::Id(x) => {
                let p = pil.polIdentities.get(ni).ok_or("an identity is missing")?;
                same("identity", p.e, x)?;
                here(&p.fileName, p.line, at)?;
                high.push(p.e);
                ni += 1;
            }
            St::Lk(false, sf, f, stt, t) => {
                let p = pil.plookupIdentities.get(nl).ok_or("a lookup is missing")?;
                all("looked-up values", &p.f, f)?;
                all("table", &p.t, t)?;
                opt("selector of the values", &p.selF, sf)?;
                opt("selector of the table", &p.selT, stt)?;
                here(&p.fileName, p.line, at)?;
                nl += 1;
            }
            St::Lk(true, sf, f, stt, t) => {
                let p = pil.permutationIdentities.as_ref().and_then(|v| v.get(nm)).ok_or("a permutation is missing")?;
                all("left values", &p.f, f)?;
                all("right values", &p.t, t)?;
                opt("left selector", &p.selF, sf)?;
                opt("right selector", &p.selT, stt)?;
                here(&p.fileName, p.line, at)?;
                nm += 1;
            }
            St::Conn(a, b) => {
                let p = pil.connectionIdentities.as_ref().and_then(|v| v.get(nc)).ok_or("a connection is missing")?;
                all("columns", &p.pols, a)?;
                all("connections", &p.connections, b)?;
                here(&p.fileName, p.line, at)?;
                nc += 1;
            }
        }
    }
    want("publics", pil.publics.len(), np)?;
    want("identities", pil.polIdentities.len(), ni)?;
    want("lookups", pil.plookupIdentities.len(), nl)?;
    want("permutations", pil.permutationIdentities.as_ref().map_or(0, |v| v.len()), nm)?;
    want("connections", pil.connectionIdentities.as_ref().map_or(0, |v| v.len()), nc)?;
    // which expressions get a column of their own
    let mut q = 0;
    for (i, e) in pil.expressions.iter().enumerate() {
        let d = degree(e, true)?;
        let limit = if high.contains(&i) { 2 } else { 1 };
        if e.idQ != (d > limit).then_some(q) {
            return Err(format!("expression {i} of degree {d} has the number {:?}", e.idQ));
        }
        q += e.idQ.is_some() as usize;
    }
    want("numbered expressions", pil.nQ, q)
}

fn judge(mc: &Mc, key: &str, src: &Src, what: &dyn Fn() -> String) {
    let a = src.analyzed();
    let r = guard(|| export(&a)).and_then(|p| compare(src, &p));
    mc.check(r.is_ok(), key, || format!("{}: {}", what(), r.as_ref().unwrap_err()));
}

/// the circuit in which the expressions of the first part stand
fn base() -> (Src, Vec<X>) {
    let mut s = Src { bits: 2, ..Default::default() };
    let a = s.def("Main.a", Kind::Cm, None, vec![]);
    let m = s.def("Main.m", Kind::Im, None, vec![bin(Op::Mul, &Col(1, 0, false), &Col(1, 0, true))]);
    assert_eq!((a, m), (0, 1));
    // m = k * b[1]'
    s.syms[1].val = vec![bin(Op::Mul, &Col(3, 0, false), &Col(2, 1, true))];
    let b = s.def("Main.b", Kind::Cm, Some(2), vec![]);
    let k = s.def("Main.k", Kind::K, None, vec![]);
    let c = s.def("Aux.c", Kind::K, Some(2), vec![]);
    s.st(St::Pub(a, None, 1));
    s.st(St::Pub(b, Some(1), 3));
    let leaves = vec![
        Col(a, 0, false), Col(a, 0, true), Col(b, 1, false), Col(b, 0, true), Col(k, 0, false), Col(k, 0, true), Col(c, 1, true),
        Col(m, 0, false), Col(m, 0, true), Col(5, 0, false), Col(5, 1, true), N(0), N(1), N(P - 1), N(1 << 63), Pub(0), Pub(1), Ch(3),
    ];
    (s, leaves)
}
/// appends the uses of an expression: as an identity, an intermediate column, a lookup's parts
fn uses(mut s: Src, x: &X) -> Src {
    s.st(St::Id(x.clone()));
    let m2 = s.def("Aux.m2", Kind::Im, Some(2), vec![Col(0, 0, false), bin(Op::Sub, &Col(3, 0, false), &N(5))]);
    assert_eq!(m2, 5);
    s.def("Main.x", Kind::Im, None, vec![x.clone()]);
    s.st(St::Lk(false, Some(x.clone()), vec![x.clone(), Col(0, 0, false)], None, vec![Col(3, 0, false), x.clone()]));
    s.st(St::Id(Col(6, 0, false)));
    s.st(St::Lk(false, None, vec![Col(0, 0, false)], Some(x.clone()), vec![x.clone()]));
    s.st(St::Lk(true, Some(x.clone()), vec![Col(0, 0, false)], Some(x.clone()), vec![Col(0, 0, true)]));
    s
}

/// the statement of a kind at a position, on the columns in `cols` (symbol, element)
const MENU: usize = 17;
fn build(seq: &[usize], rev: bool, forward: bool) -> Src {
    let mut s = Src { bits: 2, rev, ..Default::default() };
    let ns = ["Main", "Aux"];
    // symbols first, so that statements can refer to any of them
    let mut sym = vec![None; seq.len()];
    for (i, m) in seq.iter().enumerate() {
        let name = |t: &str| format!("{}.{t}{}", ns[(i * 7 + m) % 2], (b'z' - i as u8) as char);
        sym[i] = match m {
            0 => Some(s.add(&name("w"), Kind::Cm, None, vec![])),
            1 => Some(s.add(&name("v"), Kind::Cm, Some(2), vec![])),
            2 => Some(s.add(&name("k"), Kind::K, None, vec![])),
            3 => Some(s.add(&name("j"), Kind::K, Some(3), vec![])),
            4 => Some(s.add(&name("i"), Kind::Im, None, vec![])),
            5 => Some(s.add(&name("h"), Kind::Im, Some(2), vec![])),
            6 => Some(s.add(&name("g"), Kind::Im, None, vec![])),
            15 => Some(s.add(&format!("std.f{i}"), Kind::Other, None, vec![])),
            _ => None,
        };
    }
    let elems = |ok: &dyn Fn(usize, Kind) -> bool| -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (i, y) in sym.iter().enumerate() {
            let Some(y) = y else { continue };
            let t = &s.syms[*y];
            if t.kind != Kind::Other && ok(i, t.kind) {
                v.extend((0..t.len.unwrap_or(1)).map(|e| (*y, e)));
            }
        }
        v
    };
    let npub = seq.iter().filter(|m| [7, 8].contains(m)).count();
    let mut vals: Vec<(usize, Vec<X>)> = vec![];
    let mut sts = vec![];
    for (i, m) in seq.iter().enumerate() {
        // intermediate columns refer to columns and to intermediate ones on one side of their own place
        let cols = if (4..=6).contains(m) { elems(&|j, k| k != Kind::Im || if forward { j > i } else { j < i }) } else { elems(&|_, _| true) };
        let c = |n: usize, next: bool| -> X {
            if cols.is_empty() {
                return N((n + i) as u64);
            }
            let (y, e) = cols[(i * 5 + n * 3 + 1) % cols.len()];
            Col(y, e, next)
        };
        match m {
            4 => vals.push((sym[i].unwrap(), vec![bin(Op::Mul, &c(0, false), &c(1, true))])),
            5 => vals.push((sym[i].unwrap(), vec![c(0, true), bin(Op::Mul, &bin(Op::Add, &c(1, false), &N(7)), &c(2, false))])),
            6 => vals.push((sym[i].unwrap(), vec![bin(Op::Sub, &N(i as u64), &c(3, false))])),
            _ => {}
        }
        let p = if npub > 0 { Pub(i % npub) } else { N(i as u64) };
        sts.push(match m {
            0..=6 | 15 => St::Def(sym[i].unwrap()),
            7 | 8 => {
                if cols.is_empty() {
                    return Src::default();
                }
                let (y, e) = if *m == 7 { cols[0] } else { cols[cols.len() - 1] };
                St::Pub(y, s.syms[y].len.map(|_| e), (i % 4) as u64)
            }
            9 => St::Id(bin(Op::Sub, &c(0, true), &p)),
            10 => St::Id(bin(Op::Sub, &bin(Op::Mul, &c(0, false), &c(1, false)), &c(2, true))),
            11 => St::Id(bin(Op::Mul, &bin(Op::Mul, &c(0, false), &c(1, false)), &c(0, true))),
            12 => St::Lk(false, Some(c(2, false)), vec![c(0, false), c(1, true)], Some(c(3, false)), vec![c(1, false), p]),
            13 => St::Lk(false, None, vec![bin(Op::Mul, &c(0, false), &c(0, false))], None, vec![c(1, false)]),
            14 => St::Lk(true, Some(bin(Op::Mul, &c(2, false), &c(1, false))), vec![c(0, false), c(1, false)], None, vec![c(3, false), c(2, true)]),
            16 => St::Conn(vec![c(0, false), c(1, false)], vec![c(2, false), c(3, false)]),
            _ => unreachable!(),
        });
    }
    for (y, v) in vals {
        s.syms[y].val = v;
    }
    s.sts = sts.into_iter().map(|x| (x, SourceRef::default())).collect();
    s
}

/// the source as PIL text, with the place of every statement
fn text(src: &mut Src, style: usize, file: Option<&str>) -> String {
    let mut t = String::from(["", "// a circuit\n\n", "\n\n// x\n"][style % 3]);
    let mut ns = String::new();
    let mut starts = vec![];
    let x = |x: &X| show(src, x);
    let list = |v: &[X]| v.iter().map(x).collect::<Vec<_>>().join(if style == 1 { ",\n  " } else { ", " });
    let mut np = 0;
    for (i, (st, _)) in src.sts.iter().enumerate() {
        if let St::Def(s) = st {
            let n = src.syms[*s].name.split('.').next().unwrap();
            if n != ns {
                ns = n.to_string();
                t += &format!("namespace {ns}({});\n", src.rows());
            }
        }
        if (i + style) % 3 == 2 {
            t += ["\n", "// next\n", "  \n\n"][style % 3];
        }
        if style == 2 {
            t += "  ";
        }
        starts.push(t.len());
        t += &match st {
            St::Def(s) => {
                let s = &src.syms[*s];
                let n = s.name.split('.').nth(1).unwrap();
                let len = s.len.map_or(String::new(), |l| format!("[{l}]"));
                match s.kind {
                    Kind::Cm => format!("pol commit {n}{len};"),
                    Kind::K => format!("pol constant {n}{len};"),
                    _ if s.len.is_some() => format!("pol {n}{len} = [{}];", list(&s.val)),
                    _ => format!("pol {n} = {};", x(&s.val[0])),
                }
            }
            St::Pub(s, e, row) => {
                np += 1;
                let e = e.map_or(String::new(), |e| format!("[{e}]"));
                format!("public {} = {}{e}({row});", Src::pub_name(np - 1), src.syms[*s].name)
            }
            St::Id(e) => format!("{} = 0;", x(e)),
            St::Lk(perm, sf, f, s, v) => {
                let o = |s: &Option<X>| s.as_ref().map_or(String::new(), |s| x(s) + " ");
                format!("{}{{{}}} {} {}{{{}}};", o(sf), list(f), if *perm { "is" } else { "in" }, o(s), list(v))
            }
            St::Conn(a, b) => format!("[{}] connect [{}];", list(a), list(b)),
        };
        t += if style == 2 && i % 2 == 0 { " " } else { "\n" };
    }
    let (contents, name): (Arc<str>, Option<Arc<str>>) = (t.as_str().into(), file.map(|f| f.into()));
    for ((_, s), start) in src.sts.iter_mut().zip(starts) {
        *s = SourceRef { file_name: name.clone(), file_contents: Some(contents.clone()), start, end: start };
    }
    t
}
fn show(src: &Src, x: &X) -> String {
    match x {
        Col(s, e, n) => {
            let s = &src.syms[*s];
            format!("{}{}{}", s.name, s.len.map_or(String::new(), |_| format!("[{e}]")), if *n { "'" } else { "" })
        }
        Pub(i) => format!(":{}", Src::pub_name(*i)),
        N(v) if v % 2 == 1 => format!("{v:#x}"),
        N(v) => v.to_string(),
        Bin(op, a, b) => format!("({} {} {})", show(src, a), ["+", "-", "*", "**"][*op as usize], show(src, b)),
        Neg(a) => format!("-({})", show(src, a)),
        Ch(_) => unreachable!(),
    }
}

/// the same circuit for the reference semantics of traces, independent of what was exported
fn reference(src: &Src, tr: &Trace) -> Air {
    let ids = src.ids();
    let mut a = Air { name: "exported".into(), bits: src.bits, k: tr.k.clone(), w: tr.w.clone(), ..Default::default() };
    let mut im: HashMap<usize, usize> = HashMap::new();
    let mut n = 0;
    for (i, s) in src.syms.iter().enumerate().filter(|s| s.1.kind == Kind::Im) {
        im.insert(i, n);
        n += s.val.len();
    }
    fn conv(src: &Src, ids: &[usize], im: &HashMap<usize, usize>, x: &X) -> air::X {
        let c = |x: &X| Box::new(conv(src, ids, im, x));
        match x {
            Col(s, e, n) => match src.syms[*s].kind {
                Kind::Cm => air::X::Cm(ids[*s] + e, *n),
                Kind::K => air::X::K(ids[*s] + e, *n),
                _ => air::X::E(im[s] + e, *n),
            },
            Pub(i) => air::X::Pub(*i),
            N(v) => air::X::N(v.to_string()),
            Bin(Op::Add, p, q) => air::X::Add(c(p), c(q)),
            Bin(Op::Sub, p, q) => air::X::Sub(c(p), c(q)),
            Bin(Op::Mul, p, q) => air::X::Mul(c(p), c(q)),
            Neg(p) => air::X::Neg(c(p)),
            _ => unreachable!(),
        }
    }
    let cv = |x: &X| conv(src, &ids, &im, x);
    for s in src.syms.iter().filter(|s| s.kind == Kind::Im) {
        s.val.iter().for_each(|v| a.ex.push(cv(v)));
    }
    for (st, _) in &src.sts {
        let mut all = |v: &[X], a: &mut Air| v.iter().map(|x| a.e(cv(x))).collect::<Vec<_>>();
        match st {
            St::Def(_) => {}
            St::Pub(s, e, row) => {
                let e = e.unwrap_or(0);
                match src.syms[*s].kind {
                    Kind::Im => a.pubs.push((true, im[s] + e, *row as usize)),
                    _ => a.pubs.push((false, ids[*s] + e, *row as usize)),
                }
            }
            St::Id(x) => {
                let e = a.e(cv(x));
                a.ids.push(e);
            }
            St::Lk(perm, sf, f, s, t) => {
                let l = Lk {
                    f: all(f, &mut a),
                    t: all(t, &mut a),
                    sf: sf.as_ref().map(|x| all(std::slice::from_ref(x), &mut a)[0]),
                    st: s.as_ref().map(|x| all(std::slice::from_ref(x), &mut a)[0]),
                };
                if *perm { &mut a.pe } else { &mut a.pu }.push(l);
            }
            St::Conn(p, c) => {
                let v = (all(p, &mut a), all(c, &mut a));
                a.ci.push(v);
            }
        }
    }
    a
}

/// circuits with a satisfying trace, for proving from the text to the verdict
fn circuits() -> Vec<(&'static str, Src, Trace)> {
    let mut out = vec![];
    let (c, one) = (|s, n| Col(s, 0, n), N(1));
    let el = |s, e, n| Col(s, e, n);
    let mul = |a: &X, b: &X| bin(Op::Mul, a, b);
    let sub = |a: &X, b: &X| bin(Op::Sub, a, b);
    let add = |a: &X, b: &X| bin(Op::Add, a, b);
    let new = || {
        let mut s = Src { bits: 2, ..Default::default() };
        s.def("Global.L1", Kind::K, None, vec![]);
        s
    };
    let l1 = vec![1, 0, 0, 0];
    // steps of a recurrence, an intermediate column of degree two, public values of columns and of an intermediate one
    let mut s = new();
    let a = s.def("Main.a", Kind::Cm, None, vec![]);
    let last = s.def("Main.last", Kind::K, None, vec![]);
    let b = s.def("Main.b", Kind::Cm, Some(2), vec![]);
    let sq = s.def("Main.sq", Kind::Im, None, vec![mul(&c(a, false), &el(b, 1, false))]);
    s.st(St::Pub(b, Some(1), 3));
    s.st(St::Pub(sq, None, 2));
    s.st(St::Pub(a, None, 0));
    let nl = sub(&one, &c(last, false));
    s.st(St::Id(mul(&nl, &sub(&c(a, true), &el(b, 1, false)))));
    s.st(St::Id(mul(&nl, &sub(&el(b, 1, true), &add(&c(sq, false), &el(b, 0, false))))));
    s.st(St::Id(mul(&c(last, false), &sub(&el(b, 1, false), &Pub(0)))));
    s.st(St::Id(mul(&mul(&c(0, false), &c(a, false)), &sub(&c(a, false), &Pub(2)))));
    s.st(St::Id(mul(&c(0, true), &Neg(sub(&c(a, true), &Pub(2)).into()))));
    let (mut x, mut y) = (vec![2], vec![3]);
    for i in 0..3 {
        x.push(y[i]);
        y.push(refs::add(refs::mul(x[i], y[i]), 5 + i as u64));
    }
    out.push(("recurrence", s, Trace { w: vec![x, (5..9).collect(), y], k: vec![l1.clone(), vec![0, 0, 0, 1]], p: vec![] }));
    // an array of intermediate columns, one of them of high degree, used one row on
    let mut s = new();
    let a = s.def("Main.a", Kind::Cm, Some(3), vec![]);
    let m = s.def("Aux.m", Kind::Im, Some(2), vec![mul(&mul(&el(a, 0, false), &el(a, 1, false)), &el(a, 1, false)), sub(&el(a, 2, false), &N(P - 2))]);
    let k = s.def("Aux.k", Kind::K, Some(2), vec![]);
    s.st(St::Id(sub(&el(m, 1, false), &mul(&el(k, 1, false), &el(m, 0, true)))));
    s.st(St::Id(mul(&el(k, 0, false), &mul(&sub(&el(a, 0, false), &one), &sub(&el(a, 0, false), &N(3))))));
    let (a0, a1, k1): (Vec<u64>, Vec<u64>, Vec<u64>) = (vec![1, 3, 3, 7], vec![2, 4, 6, 8], vec![1, 5, 0, P - 1]);
    let m0: Vec<u64> = (0..4).map(|r| refs::mul(a0[r], refs::mul(a1[r], a1[r]))).collect();
    let a2 = (0..4).map(|r| refs::sub(refs::mul(k1[r], m0[(r + 1) % 4]), 2)).collect();
    out.push(("intermediate array", s, Trace { w: vec![a0, a1, a2], k: vec![l1.clone(), vec![1, 1, 1, 0], k1], p: vec![] }));
    // lookups and permutations with and without selectors
    for sel in 0..4 {
        let mut s = new();
        let f = s.def("Main.f", Kind::Cm, Some(2), vec![]);
        let t = s.def("Aux.t", Kind::K, Some(2), vec![]);
        let z = s.def("Main.s", Kind::Cm, None, vec![]);
        let g = s.def("Main.g", Kind::Cm, None, vec![]);
        let u = s.def("Aux.u", Kind::K, None, vec![]);
        let sf = (sel & 1 == 1).then(|| c(z, false));
        let st = (sel & 2 == 2).then(|| c(u, false));
        s.st(St::Id(mul(&c(z, false), &sub(&c(z, false), &one))));
        s.st(St::Lk(false, sf.clone(), vec![el(f, 0, false), add(&el(f, 1, false), &one)], st.clone(), vec![el(t, 0, false), el(t, 1, false)]));
        let perm = St::Lk(true, sf, vec![c(g, false)], st.map(|_| c(z, true)), vec![el(f, 0, false)]);
        s.st(perm);
        let t0: Vec<u64> = vec![10, 20, 30, 40];
        let t1: Vec<u64> = vec![1, 2, 3, 4];
        let f0 = vec![20, 10, 20, 10];
        let f1 = vec![1, 0, 1, 0];
        // the selectors of the permutation on its two sides choose as many rows
        let g0 = vec![10, 20, 10, 20];
        let z0 = if sel == 0 || sel == 3 { vec![1, 0, 1, 0] } else { vec![1; 4] };
        let g0 = if sel == 3 { vec![10, 7, 10, 8] } else { g0 };
        out.push(("lookup and permutation", s, Trace { w: vec![f0, f1, z0, g0], k: vec![l1.clone(), t0, t1, vec![1, 1, 0, 0]], p: vec![] }));
    }
    // a connection
    let mut s = new();
    let a = s.def("Main.a", Kind::Cm, None, vec![]);
    let b = s.def("Main.b", Kind::Cm, None, vec![]);
    let sg = s.def("Global.S", Kind::K, Some(2), vec![]);
    s.st(St::Conn(vec![c(a, false), c(b, false)], vec![el(sg, 0, false), el(sg, 1, false)]));
    let to = |col, r: usize| if (col, r) == (0, 1) { (1, 2) } else if (col, r) == (1, 2) { (0, 1) } else if col == 0 { (0, [2, 1, 3, 0][r]) } else { (col, r) };
    let cc = air::conn_consts(2, 2, to);
    out.push(("connection", s, Trace { w: vec![vec![5, 6, 5, 5], vec![1, 2, 6, 3]], k: vec![l1, cc[0].clone(), cc[1].clone()], p: vec![] }));
    out
}

fn prove(pil: &PIL, a: &Air, par: &Par) -> Result<bool, String> {
    use starky::polsarray::{PolKind, PolsArray};
    use starky::stark_setup::StarkSetup;
    let ss = par.ss("GL");
    let mut p = pil.clone();
    let setup = guard(|| {
        let mut c = PolsArray::new(&p, PolKind::Constant);
        crate::stark::fill(&mut c, &a.k);
        StarkSetup::new(&c, &mut p, &ss, None).map_err(|e| e.to_string())
    })??;
    let i: Inst<Gl> = Inst { pil: p, raw: pil.clone(), setup, ss };
    crate::stark::outcome(&i, a)
}

pub fn run(mc: &Mc) {
    mc.rule("every source built within the bounds; non-trivial are all with at least one statement besides declarations");
    mc.assume("powdr's analyzer is not available offline: the analyzed form of a source is built here, with powdr's numbering and order");
    let ops = [Op::Add, Op::Sub, Op::Mul];
    // 1. expressions
    let (b, leaves) = base();
    let consts: Vec<X> = leaves.iter().filter(|x| !matches!(x, Col(..))).cloned().collect();
    let mut d1: Vec<X> = leaves.iter().map(|x| Neg(x.clone().into())).collect();
    for (v, o) in [(&leaves, &ops[..]), (&consts, &[Op::Pow][..])] {
        for x in v.iter() {
            for y in v.iter() {
                d1.extend(o.iter().map(|o| bin(*o, x, y)));
            }
        }
    }
    let mut all: Vec<X> = leaves.clone();
    all.extend(d1.iter().cloned());
    all.extend(d1.iter().map(|x| Neg(x.clone().into())));
    for x in &d1 {
        for y in &leaves {
            for o in ops {
                all.push(bin(o, x, y));
                all.push(bin(o, y, x));
            }
        }
    }
    all.par_iter().for_each(|x| {
        judge(mc, "export:expression", &uses(b.clone(), x), &|| format!("{x:?}"));
    });
    let mut n = all.len();
    if mc.thorough() {
        d1.par_iter().for_each(|x| {
            for y in &d1 {
                for o in ops {
                    let e = bin(o, x, y);
                    let mut s = b.clone();
                    s.st(St::Id(e.clone()));
                    s.def("Aux.m2", Kind::Im, Some(2), vec![Col(0, 0, false), e.clone()]);
                    judge(mc, "export:expression", &s, &|| format!("{e:?}"));
                }
            }
        });
        n += d1.len() * d1.len() * ops.len();
    }
    mc.states(n as u64);
    mc.traces(n as u64);
    mc.transitions(n as u64 * 7);
    mc.evals(n as u64, n as u64);
    mc.section("expressions", json!({"leaves": leaves.len(), "sources": n, "places in each": 7}));
    // exponents and bases that are not constant have no meaning here: refused
    for (x, y) in [(&leaves[0], &N(2)), (&N(2), &leaves[0]), (&leaves[7], &N(2)), (&leaves[4], &leaves[4])] {
        let mut s = b.clone();
        s.sts.truncate(3);
        s = base().0;
        s.st(St::Id(bin(Op::Pow, x, y)));
        s.def("Aux.m2", Kind::Im, Some(2), vec![N(1), N(2)]);
        let a = s.analyzed();
        let r = guard(|| export(&a));
        mc.states(1);
        mc.traces(1);
        mc.check(r.is_err(), "export:power", || format!("{x:?} to the {y:?}"));
    }
    // 2. statements in every order
    let depth = mc.pick(4, 5);
    let heads: Vec<usize> = (0..MENU * MENU).collect();
    heads.par_iter().for_each(|h| {
        let mut k = 0;
        for len in 1..=depth {
            if len < 2 && *h >= MENU {
                continue;
            }
            let rest = if len > 2 { MENU.pow(len as u32 - 2) } else { 1 };
            for mut r in 0..rest {
                let mut seq = vec![h % MENU];
                if len > 1 {
                    seq.push(h / MENU);
                }
                while seq.len() < len {
                    seq.push(r % MENU);
                    r /= MENU;
                }
                for v in 0..4 {
                    let s = build(&seq, v & 1 == 1, v & 2 == 2);
                    if !s.sts.is_empty() {
                        judge(mc, "export:statements", &s, &|| format!("{:?} {v}", s.sts));
                        k += 1;
                    }
                }
            }
        }
        mc.states(k);
        mc.traces(k);
        mc.transitions(k * depth as u64);
        mc.evals(k, k);
    });
    mc.section("statements", json!({"kinds": MENU, "longest": depth, "numberings and directions of reference": 4}));
    // 3. places
    let texts = ["", "\n", "a = 0;", "a = 0;\nb = 1;\n", "\n\n  a\n\n\nbc\n", "a\r\nb\r\n", "aé\nb"];
    let names = [None, Some("m.pil"), Some("/x/y z/m.pil"), Some("x/../m.v1.pil"), Some("./m")];
    let at = |t: &Arc<str>, f: Option<&str>, i: usize| SourceRef { file_name: f.map(|f| f.into()), file_contents: Some(t.clone()), start: i, end: i };
    let arcs: Vec<Arc<str>> = texts.iter().chain(&texts).map(|t| (*t).into()).collect();
    let mut k = 0;
    for t in &arcs {
        for u in &arcs {
            for f in &names {
                let (mut s, _) = base();
                s.def("Aux.m2", Kind::Im, Some(2), vec![N(1), N(2)]);
                let id = |s: &mut Src, r: SourceRef| s.sts.push((St::Id(Col(0, 0, false)), r));
                for i in (0..=t.len()).filter(|i| t.is_char_boundary(*i)) {
                    id(&mut s, at(t, *f, i));
                    let j = i.min(u.len());
                    id(&mut s, at(u, names[(i + 1) % 5], if u.is_char_boundary(j) { j } else { 0 }));
                }
                id(&mut s, SourceRef { file_contents: None, ..at(t, *f, 3) });
                for x in [St::Lk(true, None, vec![N(1)], None, vec![N(1)]), St::Lk(false, None, vec![N(1)], None, vec![N(1)]), St::Conn(vec![N(1)], vec![N(1)])] {
                    s.sts.push((x, at(t, *f, t.len())));
                }
                judge(mc, "export:places", &s, &|| format!("{t:?} {u:?} {f:?}"));
                k += 1;
            }
        }
    }
    mc.states(k);
    mc.traces(k);
    mc.section("places", json!({"sources": k}));
    // 4. names
    for (name, ok) in [("Main.a", true), ("Main::a", true), ("std::hash::Main::a", true), ("std::Main.a", true), ("x::y::_z0", true), ("a", false)] {
        for kind in [Kind::Cm, Kind::K, Kind::Im] {
            let mut s = Src { bits: 3, ..Default::default() };
            s.def("Other.b", Kind::Cm, None, vec![]);
            s.def(name, kind, None, if kind == Kind::Im { vec![Col(0, 0, true)] } else { vec![] });
            mc.states(1);
            mc.traces(1);
            let a = s.analyzed();
            let r = guard(|| export(&a)).and_then(|p| compare(&s, &p));
            mc.check(r.is_ok() == ok, "export:names", || format!("{name}: {r:?}"));
        }
    }
    // 5. from the text to the verdict on proofs
    let dir = std::env::temp_dir().join(format!("mc-p34-{}", std::process::id()));
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let mut proofs = 0;
    for (ci, (name, src, tr)) in circuits().into_iter().enumerate() {
        for style in 0..3 {
            let mut s = src.clone();
            let t = text(&mut s, style, None);
            let p = guard(|| compile_pil_from_str(&t)).and_then(|p| compare(&s, &p).map(|_| p));
            mc.check(p.is_ok(), "export:text", || format!("{name}: {}\n{t}", p.as_ref().unwrap_err()));
            let f = dir.join(format!("sub/c{ci}.{style}.pil"));
            std::fs::write(&f, &t).unwrap();
            let mut s = src.clone();
            text(&mut s, style, f.to_str());
            let q = guard(|| compile_pil_from_path(f.to_str().unwrap())).and_then(|p| compare(&s, &p));
            mc.check(q.is_ok(), "export:text", || format!("{name} from a file: {q:?}\n{t}"));
            mc.states(2);
            mc.traces(2);
            let Ok(p) = p else { continue };
            if style > 0 {
                continue;
            }
            let par = Par::new(2, 2, 3, &[2]);
            let a = reference(&s, &tr);
            mc.check(a.valid().is_ok(), "export:prove", || format!("{name}: the trace of the harness: {:?}", a.valid()));
            let mut cases = vec![a.clone()];
            for c in 0..a.w.len() {
                for r in 0..a.rows() {
                    for d in [1, P - 1, two(5, (c * 8 + r) as u64) % P, 10] {
                        let mut b = a.clone();
                        b.w[c][r] = refs::add(b.w[c][r], d);
                        cases.push(b);
                        if mc.thorough() {
                            for c2 in 0..a.w.len() {
                                for r2 in 0..a.rows() {
                                    let mut b = cases.last().unwrap().clone();
                                    b.w[c2][r2] = refs::add(b.w[c2][r2], refs::neg(d));
                                    cases.push(b);
                                }
                            }
                        }
                    }
                }
            }
            proofs += cases.len();
            cases.par_iter().for_each(|b| {
                let (r, v) = (prove(&p, b, &par), b.valid());
                // a prover that stops is as good as a refused proof
                let ok = match &r {
                    Ok(x) => *x == v.is_ok(),
                    Err(_) => v.is_err(),
                };
                mc.states(1);
                mc.traces(1);
                mc.evals(1, 1);
                mc.transitions(1);
                mc.check(ok, "export:prove", || format!("{name}: {r:?} for a trace with {v:?}: {:?}", b.w));
            });
        }
    }
    std::fs::remove_dir_all(&dir).unwrap();
    mc.section("text to verdict", json!({"circuits": circuits().len(), "forms of the text": 3, "proofs": proofs}));
    mc.sample(json!({"source": show(&base().0, &bin(Op::Mul, &leaves[8], &leaves[12]))}));
    mc.exhaustive(true);
}
fn two(a: u64, b: u64) -> u64 {
    mix(a << 32 | b)
}
