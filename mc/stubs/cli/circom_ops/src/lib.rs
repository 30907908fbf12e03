//! The circom compiler's stages: each records its configuration, hands on what it was given, and fails when told to.
use ops::{call, serde_json::json};
use std::path::PathBuf;
pub mod parser {
    use super::*;
    use super::program_structure::{error_definition::Report, file_definition::FileLibrary, program_archive::ProgramArchive};
    pub fn run_parser(file: String, version: &str, libs: Vec<PathBuf>) -> Result<(ProgramArchive, Vec<Report>), (FileLibrary, Vec<Report>)> {
        if call("run_parser", json!([file, version, libs])) { Ok((ProgramArchive { id: 1, file_library: FileLibrary }, vec![Report])) } else { Err((FileLibrary, vec![Report])) }
    }
}
pub mod program_structure {
    pub mod file_definition {
        #[derive(Clone)]
        pub struct FileLibrary;
    }
    pub mod error_definition {
        pub struct Report;
        pub type ReportCollection = Vec<Report>;
        impl Report {
            pub fn print_reports(_: &[Report], _: &super::file_definition::FileLibrary) {}
        }
    }
    pub mod program_archive {
        use super::file_definition::FileLibrary;
        pub struct ProgramArchive {
            pub id: u32,
            pub file_library: FileLibrary,
        }
        impl ProgramArchive {
            pub fn get_file_library(&self) -> &FileLibrary {
                &self.file_library
            }
        }
    }
}
pub mod type_analysis {
    pub mod check_types {
        use crate::program_structure::{error_definition::Report, program_archive::ProgramArchive};
        pub fn check_types(a: &mut ProgramArchive) -> Result<Vec<Report>, Vec<Report>> {
            let ok = ops::call("check_types", ops::serde_json::json!([a.id]));
            a.id += 1;
            if ok { Ok(vec![Report]) } else { Err(vec![Report]) }
        }
    }
}
pub mod constraint_writers {
    use super::*;
    pub mod debug_writer {
        #[derive(Clone)]
        pub struct DebugWriter {
            pub json_constraints: String,
        }
        impl DebugWriter {
            pub fn new(c: String) -> Result<DebugWriter, ()> {
                Ok(DebugWriter { json_constraints: c })
            }
        }
    }
    pub trait ConstraintExporter {
        fn r1cs(&self, out: &str, custom_gates: bool) -> Result<(), ()>;
        fn json_constraints(&self, writer: &debug_writer::DebugWriter) -> Result<(), ()>;
        fn sym(&self, out: &str) -> Result<(), ()>;
    }
    pub struct Exporter(pub u32);
    fn put(name: &str, out: &str, text: String, args: ops::serde_json::Value) -> Result<(), ()> {
        let ok = call(name, args);
        // a failing write leaves part of the file
        std::fs::write(out, if ok { &text[..] } else { "" }).map_err(|_| ())?;
        if ok { Ok(()) } else { Err(()) }
    }
    impl ConstraintExporter for Exporter {
        fn r1cs(&self, out: &str, custom_gates: bool) -> Result<(), ()> {
            put("r1cs", out, format!("r1cs of {}", self.0), json!([self.0, out, custom_gates]))
        }
        fn json_constraints(&self, w: &debug_writer::DebugWriter) -> Result<(), ()> {
            put("json_constraints", &w.json_constraints, format!("json of {}", self.0), json!([self.0, w.json_constraints]))
        }
        fn sym(&self, out: &str) -> Result<(), ()> {
            put("sym", out, format!("sym of {}", self.0), json!([self.0, out]))
        }
    }
}
pub mod constraint_generation {
    use super::*;
    use super::{compiler::hir::very_concrete_program::VCP, constraint_writers::*, program_structure::program_archive::ProgramArchive};
    pub struct BuildConfig {
        pub no_rounds: usize,
        pub flag_json_sub: bool,
        pub json_substitutions: String,
        pub flag_s: bool,
        pub flag_f: bool,
        pub flag_p: bool,
        pub flag_verbose: bool,
        pub flag_old_heuristics: bool,
        pub inspect_constraints: bool,
        pub prime: String,
    }
    pub type ConstraintWriter = Box<dyn ConstraintExporter>;
    pub fn build_circuit(a: ProgramArchive, c: BuildConfig) -> Result<(ConstraintWriter, VCP), ()> {
        if call("build_circuit", json!([a.id, c.no_rounds as u64, c.flag_s, c.flag_f, c.flag_p, c.prime])) { Ok((Box::new(Exporter(a.id)), VCP { id: a.id })) } else { Err(()) }
    }
}
pub mod compiler {
    pub mod hir {
        pub mod very_concrete_program {
            pub struct VCP {
                pub id: u32,
            }
        }
    }
    pub mod compiler_interface {
        use ops::{call, serde_json::json};
        pub use super::hir::very_concrete_program::VCP;
        pub struct Config {
            pub debug_output: bool,
            pub produce_input_log: bool,
            pub wat_flag: bool,
        }
        pub struct Circuit(u32);
        pub fn run_compiler(vcp: VCP, _c: Config, version: &str) -> Result<Circuit, ()> {
            if call("run_compiler", json!([vcp.id, version])) { Ok(Circuit(vcp.id)) } else { Err(()) }
        }
        pub fn write_c(_: &Circuit, folder: &str, name: &str, file: &str, dat: &str) -> Result<(), ()> {
            if call("write_c", json!([folder, name, file, dat])) { Ok(()) } else { Err(()) }
        }
        pub fn write_wasm(c: &Circuit, folder: &str, name: &str, file: &str) -> Result<(), ()> {
            let ok = call("write_wasm", json!([folder, name, file]));
            let early = std::env::var("MC_EARLY").is_ok();
            if !ok && early {
                return Err(()); // before anything was written
            }
            std::fs::create_dir_all(folder).map_err(|_| ())?;
            // a failing write leaves part of the file
            std::fs::write(file, if ok { format!("(module ;;{name} {}\n)", c.0) } else { "(module".into() }).map_err(|_| ())?;
            if ok { Ok(()) } else { Err(()) }
        }
    }
}
