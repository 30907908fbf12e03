pub use circom_ops::compiler::*;
