//! Operations that only record what they were given (one JSON line each in $MC_OUT) and fail when told to.
use serde_json::{json, Value};
use std::io::Write;
/// asked to: "ok", "err" or "panic"
pub fn fate(name: &str) -> bool {
    let is = |v: &str| std::env::var(v).is_ok_and(|x| x.split(',').any(|y| y == name));
    if is("MC_PANIC") {
        panic!("{name} was told to panic");
    }
    !is("MC_FAIL")
}
pub fn note(name: &str, args: Value) {
    let f = std::env::var("MC_OUT").unwrap();
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(f).unwrap();
    writeln!(f, "{}", json!([name, args])).unwrap();
}
pub fn call(name: &str, args: Value) -> bool {
    note(name, args);
    fate(name)
}
pub fn op(name: &str, args: Value) -> anyhow::Result<()> {
    if call(name, args) { Ok(()) } else { anyhow::bail!("{name} was told to fail") }
}
pub use serde_json;
