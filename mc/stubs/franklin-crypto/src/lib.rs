//! Offline stand-in for the parts of matter-labs/franklin-crypto (and of the bellman/pairing
//! crates it re-exports) that the crates under test name. The field arithmetic is ff_ce's derive,
//! exactly as in pairing_ce; there is no curve and no prover here, so nothing that needs them is
//! verified through it.
#![allow(clippy::all)]
pub extern crate ff;
pub extern crate rand;
pub mod bellman {
    pub use ff::*;

    pub mod pairing {
        pub use ff;
        use ff::*;
        pub trait Engine: ScalarEngine {}

        pub mod bn256 {
            use super::Engine;
            use ff::*;
            #[derive(PrimeField)]
            #[PrimeFieldModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
            #[PrimeFieldGenerator = "7"]
            pub struct Fr(FrRepr);
            #[derive(Clone, Copy, Debug)]
            pub struct Bn256;
            impl ScalarEngine for Bn256 {
                type Fr = Fr;
            }
            impl Engine for Bn256 {}
        }
        pub mod bls12_381 {
            use super::Engine;
            use ff::*;
            #[derive(PrimeField)]
            #[PrimeFieldModulus = "52435875175126190479447740508185965837690552500527637822603658699938581184513"]
            #[PrimeFieldGenerator = "7"]
            pub struct Fr(FrRepr);
            #[derive(Clone, Copy, Debug)]
            pub struct Bls12;
            impl ScalarEngine for Bls12 {
                type Fr = Fr;
            }
            impl Engine for Bls12 {}
        }
        #[allow(unused)]
        fn _assert() {
            fn f<T: PrimeField>() {}
            f::<bn256::Fr>();
        }
    }
    use pairing::Engine;

    #[derive(Debug, Clone)]
    pub struct SynthesisError;
    #[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
    pub enum Index {
        Input(usize),
        Aux(usize),
    }
    #[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
    pub struct Variable(Index);
    impl Variable {
        pub fn new_unchecked(i: Index) -> Self {
            Variable(i)
        }
        pub fn get_unchecked(&self) -> Index {
            self.0
        }
    }
    #[derive(Clone)]
    pub struct LinearCombination<E: ScalarEngine>(pub Vec<(Variable, E::Fr)>);
    impl<E: ScalarEngine> LinearCombination<E> {
        pub fn zero() -> Self {
            LinearCombination(vec![])
        }
    }
    impl<E: ScalarEngine> std::ops::Add<(E::Fr, Variable)> for LinearCombination<E> {
        type Output = Self;
        fn add(mut self, (c, v): (E::Fr, Variable)) -> Self {
            self.0.push((v, c));
            self
        }
    }
    pub trait ConstraintSystem<E: Engine>: Sized {
        fn alloc<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>;
        fn alloc_input<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>;
        fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
        where
            A: FnOnce() -> AR,
            AR: Into<String>,
            LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>;
    }
    pub trait Circuit<E: Engine> {
        fn synthesize<CS: ConstraintSystem<E>>(self, cs: &mut CS) -> Result<(), SynthesisError>;
    }
    pub mod kate_commitment {
        use super::pairing::Engine;
        use std::marker::PhantomData;
        pub struct CrsForMonomialForm;
        pub struct CrsForLagrangeForm;
        pub struct Crs<E: Engine, T>(PhantomData<(E, T)>);
        impl<E: Engine, T> Crs<E, T> {
            pub fn read<R: std::io::Read>(_r: R) -> std::io::Result<Self> {
                Err(std::io::Error::new(std::io::ErrorKind::Unsupported, "not in the stand-in"))
            }
        }
    }
}

pub mod plonk {
    pub mod circuit {
        pub mod bigint {
            pub mod bigint {
                use ff::{PrimeField, PrimeFieldRepr};
                use num_bigint::BigUint;
                pub fn fe_to_biguint<F: PrimeField>(el: &F) -> BigUint {
                    repr_to_biguint::<F>(&el.into_repr())
                }
                pub fn repr_to_biguint<F: PrimeField>(repr: &F::Repr) -> BigUint {
                    let mut v = vec![];
                    repr.write_le(&mut v).unwrap();
                    BigUint::from_bytes_le(&v)
                }
                pub fn biguint_to_fe<F: PrimeField>(value: BigUint) -> F {
                    let m = repr_to_biguint::<F>(&F::char());
                    let value = value % m;
                    F::from_str(&value.to_str_radix(10)).unwrap()
                }
            }
            pub mod field {
                use num_bigint::BigUint;
                pub struct LimbedRepresentationParameters {
                    pub limb_size_bits: usize,
                    pub limb_max_value: BigUint,
                }
                pub struct RangeCheckInfo {
                    pub minimal_multiple: usize,
                }
                pub struct RnsParameters<E, F> {
                    pub num_limbs_for_in_field_representation: usize,
                    pub num_binary_limbs: usize,
                    pub binary_limbs_params: LimbedRepresentationParameters,
                    pub range_check_info: RangeCheckInfo,
                    pub binary_limbs_bit_widths: Vec<usize>,
                    pub binary_limbs_max_values: Vec<BigUint>,
                    pub double: bool,
                    pub _m: std::marker::PhantomData<(E, F)>,
                }
                impl<E, F> RnsParameters<E, F> {
                    pub fn can_allocate_from_double_limb_witness(&self) -> bool {
                        self.double
                    }
                }
            }
        }
    }
}
