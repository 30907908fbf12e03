CLI = '''use std::process::Command;
fn zkit(d: &std::path::Path, args: &[&str], fail: &str) -> (Option<i32>, String) {
    let o = d.join("calls"); let _ = std::fs::remove_file(&o);
    let r = Command::new(std::env::current_exe().unwrap().with_file_name("zkit")).args(args).current_dir(d).env("MC_OUT", &o).env("MC_FAIL", fail).output().unwrap();
    (r.status.code(), std::fs::read_to_string(&o).unwrap_or_default())
}
fn main() { let d = std::env::temp_dir().join(format!("zkit.{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); let r = std::panic::catch_unwind(|| check(&d)); let _ = std::fs::remove_dir_all(&d); if r.is_err() { std::process::exit(101) } }
'''
bug("zkit-status-256", "P31", [("zkit/src/main.rs", "std::process::exit(400)", "std::process::exit(0x100)")],
 CLI + '''fn check(d: &std::path::Path) { let (c, _) = zkit(d, &["groth16_verify", "-c", "BN128", "-v", "v", "--public-input", "p", "--proof", "q"], "groth16_verify"); assert_ne!(c, Some(0)); }
''', "an operation that fails: the status is 256, of which the system keeps the low eight bits", "the tool exits with status 0 although the operation failed", kind="cli")
bug("dsl-libraries-sorted", "P31", [("dsl_compile/src/input_user.rs", "            link_libraries.push(Path::new(&path).to_path_buf());\n        }\n", "            link_libraries.push(Path::new(&path).to_path_buf());\n        }\n        link_libraries.sort();\n        link_libraries.dedup();\n")],
 CLI + '''fn check(d: &std::path::Path) { std::fs::create_dir_all(d.join("o")).unwrap(); let (c, t) = zkit(d, &["compile", "-i", "a.circom", "-l", "zz", "-l", "aa", "-o", "o"], ""); assert_eq!(c, Some(0)); assert!(t.find("zz").unwrap() < t.find("aa").unwrap(), "{t}"); }
''', "two libraries given in other than alphabetical order, both with a file of the included name", "includes are searched for in another order than the one asked for", kind="cli")
bug("zkit-out-in-dotted", "P31", [("dsl_compile/src/input_user.rs", "        file.push(format!(\"{filename}.{ext}\"));\n        file\n", "        file.push(filename);\n        file.set_extension(ext);\n        file\n")],
 CLI + '''fn check(d: &std::path::Path) { std::fs::create_dir_all(d.join("o")).unwrap(); let (c, _) = zkit(d, &["compile", "-i", "a.verifier.circom", "-o", "o"], ""); assert_eq!(c, Some(0)); assert!(d.join("o/a.verifier.r1cs").exists()); }
''', "a circuit whose name has a dot in it, such as x.verifier.circom", "the outputs are written under another name, over those of a circuit x", kind="cli")
