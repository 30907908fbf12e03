pub use circom_ops::type_analysis::*;
