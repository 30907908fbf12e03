pub use circom_ops::constraint_generation::*;
