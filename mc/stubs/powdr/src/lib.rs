//! Stand-in for powdr, which is not available offline: its analyzed form of a circuit (as far as /repo uses it), a small
//! analyzer for the PIL dialect that compressor12_pil::render emits and that the harnesses write their circuits in, and
//! a pipeline over a `world` set by the harness, whose steps are recorded and can be made to fail.
pub mod number;
pub mod ast {
    pub mod analyzed;
}
pub mod pil_analyzer;
pub mod world;
mod pipeline;
pub use pipeline::Pipeline;
pub mod executor {
    pub mod constant_evaluator {
        pub use crate::pipeline::{get_uniquely_sized, HasMultipleSizesError, VariablySizedColumn};
    }
}
pub mod backend {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum BackendType {
        EStarkStarky,
        EStarkStarkyComposite,
    }
    pub mod composite {
        use serde::{Deserialize, Serialize};
        use std::collections::BTreeMap;
        #[derive(Serialize, Deserialize, Debug)]
        pub struct CompositeVerificationKey {
            pub verification_keys: Vec<Option<BTreeMap<u64, Vec<u8>>>>,
        }
        #[derive(Serialize, Deserialize, Debug)]
        pub struct MachineProof {
            pub machine: String,
            pub size: u64,
            pub proof: Vec<u8>,
        }
        #[derive(Serialize, Deserialize, Debug)]
        pub struct CompositeProof {
            pub proofs: Vec<MachineProof>,
        }
        pub mod split {
            pub use crate::pipeline::split_pil;
        }
    }
}
pub mod riscv {
    pub use crate::pipeline::{compile_rust, Runtime};
    pub mod continuations {
        pub use crate::pipeline::{rust_continuations, rust_continuations_dry_run};
    }
}
