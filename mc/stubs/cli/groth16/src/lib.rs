pub mod api {
    use ops::{op, serde_json::json};
    use anyhow::Result;
    pub fn groth16_setup(curve: &str, r1cs: &str, pk: &str, vk: &str, hex: bool) -> Result<()> {
        op("groth16_setup", json!([curve, r1cs, pk, vk, hex]))
    }
    #[allow(clippy::too_many_arguments)]
    pub fn groth16_prove(curve: &str, r1cs: &str, wasm: &str, pk: &str, input: &str, publics: &str, proof: &str, hex: bool) -> Result<()> {
        op("groth16_prove", json!([curve, r1cs, wasm, pk, input, publics, proof, hex]))
    }
    pub fn groth16_verify(curve: &str, vk: &str, publics: &str, proof: &str) -> Result<()> {
        op("groth16_verify", json!([curve, vk, publics, proof]))
    }
    pub fn generate_verifier(vk: &str, sol: &str) -> Result<()> {
        op("generate_verifier", json!([vk, sol]))
    }
}
