//! Text in parentheses assembles to "wasm" and the text.
pub struct Error(&'static str);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
pub struct Module(String);
impl Module {
    pub fn encode(&mut self) -> Result<Vec<u8>, Error> {
        if ops::call("encode", ops::serde_json::json!([])) { Ok(format!("wasm{}", self.0).into_bytes()) } else { Err(Error("told to fail")) }
    }
}
pub struct Wat {
    pub module: Module,
}
pub mod parser {
    use super::*;
    pub struct ParseBuffer<'a>(&'a str);
    impl<'a> ParseBuffer<'a> {
        pub fn new(t: &'a str) -> Result<ParseBuffer<'a>, Error> {
            Ok(ParseBuffer(t))
        }
    }
    pub trait Parse: Sized {
        fn make(t: &str) -> Self;
    }
    impl Parse for Wat {
        fn make(t: &str) -> Self {
            Wat { module: Module(t.into()) }
        }
    }
    pub fn parse<T: Parse>(b: &ParseBuffer) -> Result<T, Error> {
        if b.0.starts_with("(module") && b.0.trim_end().ends_with(')') { Ok(T::make(b.0)) } else { Err(Error("not a module")) }
    }
}
