use ops::{op, serde_json::json};
pub mod compressor12_setup {
    use super::*;
    pub fn setup(r1cs: &str, pil: &str, consts: &str, exec: &str, force_n_bits: usize) -> anyhow::Result<()> {
        op("compressor12_setup", json!([r1cs, pil, consts, exec, force_n_bits]))
    }
}
pub mod compressor12_exec {
    use super::*;
    pub fn exec(input: &str, wasm: &str, pil: &str, exec: &str, cm: &str) -> anyhow::Result<()> {
        op("compressor12_exec", json!([input, wasm, pil, exec, cm]))
    }
}
