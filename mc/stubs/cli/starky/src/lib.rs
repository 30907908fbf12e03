use ops::{op, serde_json::json};
pub mod prove {
    use super::*;
    #[allow(clippy::too_many_arguments)]
    pub fn stark_prove(stark_struct: &str, pil: &str, norm_stage: bool, skip_main: bool, agg_stage: bool, consts: &str, cm: &str, circom: &str, zkin: &str, addr: &str) -> anyhow::Result<()> {
        op("stark_prove", json!([stark_struct, pil, norm_stage, skip_main, agg_stage, consts, cm, circom, zkin, addr]))
    }
}
pub mod zkin_join {
    use super::*;
    pub fn join_zkin(a: &str, b: &str, out: &str) -> anyhow::Result<()> {
        op("join_zkin", json!([a, b, out]))
    }
}
