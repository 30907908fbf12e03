// in place of the repository's build script, which builds the Go library (mc/run.py does) and has bindgen read its header
use std::{env, fs, path::PathBuf};
fn main() {
    let lib = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("../go");
    println!("cargo:rerun-if-changed={}", lib.join("libeigengnark.a").display());
    println!("cargo:rerun-if-changed=build.rs");
    fs::write(
        PathBuf::from(env::var("OUT_DIR").unwrap()).join("bindings.rs"),
        "use std::os::raw::c_char;
        extern \"C\" {
            pub fn BuildGroth16(vkPath: *mut c_char, outputDir: *mut c_char, proof: *mut c_char, publicInputJson: *mut c_char);
            pub fn FreeString(s: *mut c_char);
        }",
    )
    .unwrap();
    println!("cargo:rustc-link-search=native={}", lib.display());
    println!("cargo:rustc-link-lib=static=eigengnark");
}
