//! powdr's analyzed form of a circuit: named columns, publics and identities in the order of the source.
use crate::number::DegreeType;
use powdr_parser_util::SourceRef;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum PolynomialType {
    Committed,
    Constant,
    Intermediate,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PolyID {
    pub id: u64,
    pub ptype: PolynomialType,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SymbolKind {
    Poly(PolynomialType),
    Other(),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Symbol {
    pub id: u64,
    pub source: SourceRef,
    pub absolute_name: String,
    pub kind: SymbolKind,
    pub length: Option<DegreeType>,
}
impl From<&Symbol> for PolyID {
    fn from(s: &Symbol) -> Self {
        let SymbolKind::Poly(ptype) = s.kind else { panic!("not a column: {}", s.absolute_name) };
        PolyID { id: s.id, ptype }
    }
}
impl Symbol {
    pub fn is_array(&self) -> bool {
        self.length.is_some()
    }
    /// (name, id) of every element; of the symbol itself when it is no array
    pub fn array_elements<'a>(&'a self) -> Box<dyn Iterator<Item = (String, PolyID)> + 'a> {
        let p = PolyID::from(self);
        match self.length {
            None => Box::new(std::iter::once((self.absolute_name.clone(), p))),
            Some(n) => Box::new((0..n).map(move |i| (format!("{}[{i}]", self.absolute_name), PolyID { id: p.id + i, ..p }))),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PolynomialReference {
    pub name: String,
    pub poly_id: Option<PolyID>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PublicDeclaration {
    pub id: u64,
    pub source: SourceRef,
    pub name: String,
    pub polynomial: PolynomialReference,
    pub array_index: Option<usize>,
    pub index: DegreeType,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum StatementIdentifier {
    Definition(String),
    PublicDeclaration(String),
    Identity(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum IdentityKind {
    Polynomial,
    Plookup,
    Permutation,
    Connect,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SelectedExpressions<E> {
    pub selector: Option<E>,
    pub expressions: Vec<E>,
}
impl<E> Default for SelectedExpressions<E> {
    fn default() -> Self {
        SelectedExpressions { selector: None, expressions: vec![] }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Identity<S> {
    pub id: u64,
    pub kind: IdentityKind,
    pub source: SourceRef,
    /// for a polynomial identity its selector is the expression that is to be zero
    pub left: S,
    pub right: S,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AlgebraicReference {
    pub name: String,
    pub poly_id: PolyID,
    pub next: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Challenge {
    pub id: u64,
    pub stage: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AlgebraicBinaryOperator {
    Add,
    Sub,
    Mul,
    Pow,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AlgebraicUnaryOperator {
    Minus,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AlgebraicBinaryOperation<T> {
    pub left: Box<AlgebraicExpression<T>>,
    pub op: AlgebraicBinaryOperator,
    pub right: Box<AlgebraicExpression<T>>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AlgebraicUnaryOperation<T> {
    pub op: AlgebraicUnaryOperator,
    pub expr: Box<AlgebraicExpression<T>>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum AlgebraicExpression<T> {
    Reference(AlgebraicReference),
    PublicReference(String),
    Challenge(Challenge),
    Number(T),
    BinaryOperation(AlgebraicBinaryOperation<T>),
    UnaryOperation(AlgebraicUnaryOperation<T>),
}
#[derive(Clone, Debug)]
pub struct Analyzed<T> {
    pub degree: DegreeType,
    /// columns that are not intermediate ones, and symbols of other kinds
    pub definitions: HashMap<String, (Symbol, Option<()>)>,
    pub public_declarations: HashMap<String, PublicDeclaration>,
    pub intermediate_columns: HashMap<String, (Symbol, Vec<AlgebraicExpression<T>>)>,
    pub identities: Vec<Identity<SelectedExpressions<AlgebraicExpression<T>>>>,
    pub source_order: Vec<StatementIdentifier>,
}
impl<T> Default for Analyzed<T> {
    fn default() -> Self {
        Analyzed {
            degree: 0,
            definitions: HashMap::new(),
            public_declarations: HashMap::new(),
            intermediate_columns: HashMap::new(),
            identities: vec![],
            source_order: vec![],
        }
    }
}
impl<T> Analyzed<T> {
    pub fn degree(&self) -> DegreeType {
        self.degree
    }
    fn count(&self, t: PolynomialType) -> usize {
        self.definitions
            .values()
            .map(|(s, _)| s)
            .chain(self.intermediate_columns.values().map(|(s, _)| s))
            .filter(|s| s.kind == SymbolKind::Poly(t))
            .map(|s| s.length.unwrap_or(1) as usize)
            .sum()
    }
    pub fn constant_count(&self) -> usize {
        self.count(PolynomialType::Constant)
    }
    pub fn commitment_count(&self) -> usize {
        self.count(PolynomialType::Committed)
    }
    pub fn intermediate_count(&self) -> usize {
        self.count(PolynomialType::Intermediate)
    }
}
