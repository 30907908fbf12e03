pub use circom_ops::parser::*;
