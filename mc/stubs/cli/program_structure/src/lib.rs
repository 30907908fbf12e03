pub use circom_ops::program_structure::*;
