//! The part of clap 4 that the tool uses: derived parsers of options. As in a debug build of clap, two options
//! of a command with the same name are a panic.
pub use clap_derive::{Args, Parser, Subcommand};
#[macro_export]
macro_rules! command {
    () => {
        compile_error!("not modelled")
    };
}
pub enum ArgAction {
    SetTrue,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Flag,
    One,
    Many,
}
pub struct Opt {
    pub id: &'static str,
    pub short: Option<char>,
    pub long: Option<&'static str>,
    pub required: bool,
    pub default: Option<&'static str>,
    pub kind: Kind,
}
/// the values found for each option, with whether they were given
pub type Found = Vec<Vec<String>>;
pub fn options(opts: &[Opt], args: &[String]) -> Result<Found, String> {
    for (i, a) in opts.iter().enumerate() {
        for b in &opts[..i] {
            assert!(a.short.is_none() || a.short != b.short, "Short option names must be unique: '-{}' is used by '{}' and '{}'", a.short.unwrap(), b.id, a.id);
            assert!(a.long.is_none() || a.long != b.long, "Long option names must be unique: '{}' and '{}'", b.id, a.id);
        }
        assert!(a.short != Some('h') && a.long != Some("help"), "'{}' takes the name of the help option", a.id);
    }
    let mut found: Found = opts.iter().map(|_| vec![]).collect();
    let mut it = args.iter();
    let mut set = |i: usize, v: String| -> Result<(), String> {
        if opts[i].kind != Kind::Many && !found[i].is_empty() {
            return Err(format!("'{}' cannot be used multiple times", opts[i].id));
        }
        found[i].push(v);
        Ok(())
    };
    let value = |i: usize, rest: Option<&str>, it: &mut std::slice::Iter<String>| -> Result<String, String> {
        match rest {
            Some(v) => Ok(v.to_string()),
            None => match it.next() {
                Some(v) if v == "-" || !v.starts_with('-') => Ok(v.clone()),
                _ => Err(format!("a value is required for '{}'", opts[i].id)),
            },
        }
    };
    while let Some(a) = it.next() {
        if let Some(name) = a.strip_prefix("--") {
            let (name, rest) = match name.split_once('=') {
                Some((n, v)) => (n, Some(v)),
                None => (name, None),
            };
            if name == "help" && rest.is_none() {
                std::process::exit(0);
            }
            let i = opts.iter().position(|o| o.long == Some(name)).ok_or(format!("unexpected argument '{a}'"))?;
            if opts[i].kind == Kind::Flag {
                if rest.is_some() {
                    return Err(format!("unexpected value for '{a}'"));
                }
                set(i, "true".into())?;
            } else {
                let v = value(i, rest, &mut it)?;
                set(i, v)?;
            }
        } else if a.len() > 1 && a.starts_with('-') {
            let mut s = &a[1..];
            while let Some(c) = s.chars().next() {
                s = &s[c.len_utf8()..];
                if c == 'h' {
                    std::process::exit(0);
                }
                let i = opts.iter().position(|o| o.short == Some(c)).ok_or(format!("unexpected argument '-{c}'"))?;
                if opts[i].kind == Kind::Flag {
                    set(i, "true".into())?;
                } else {
                    let v = value(i, if s.is_empty() { None } else { Some(s.strip_prefix('=').unwrap_or(s)) }, &mut it)?;
                    set(i, v)?;
                    break;
                }
            }
        } else {
            return Err(format!("unexpected argument '{a}'"));
        }
    }
    for (o, f) in opts.iter().zip(&mut found) {
        if f.is_empty() {
            match (o.required, o.default, o.kind) {
                (true, _, _) => return Err(format!("'{}' was not provided", o.id)),
                (_, Some(d), _) => f.push(d.to_string()),
                (_, None, Kind::Flag) => f.push("false".into()),
                _ => {}
            }
        }
    }
    Ok(found)
}
/// what a field of the given type takes from the values found
pub trait Field: Sized {
    const KIND: Kind = Kind::One;
    /// without a default it has to be given
    const NEEDED: bool = true;
    fn take(v: &[String]) -> Result<Self, String>;
}
macro_rules! parsed {
    ($($t:ty)*) => { $(impl Field for $t {
        fn take(v: &[String]) -> Result<Self, String> {
            v[0].parse().map_err(|e| format!("invalid value '{}': {e}", v[0]))
        }
    })* };
}
parsed!(String u8 u16 u32 u64 usize i32 i64 std::path::PathBuf);
impl Field for bool {
    const KIND: Kind = Kind::Flag;
    const NEEDED: bool = false;
    fn take(v: &[String]) -> Result<Self, String> {
        Ok(v[0] == "true")
    }
}
impl<T: Field> Field for Vec<T> {
    const KIND: Kind = Kind::Many;
    const NEEDED: bool = false;
    fn take(v: &[String]) -> Result<Self, String> {
        v.iter().map(|x| T::take(std::slice::from_ref(x))).collect()
    }
}
impl<T: Field> Field for Option<T> {
    const NEEDED: bool = false;
    fn take(v: &[String]) -> Result<Self, String> {
        if v.is_empty() { Ok(None) } else { T::take(v).map(Some) }
    }
}
pub trait Parser: Sized {
    fn parse_args(args: &[String]) -> Result<Self, String>;
    fn parse() -> Self {
        let a: Vec<String> = std::env::args().skip(1).collect();
        Self::parse_args(&a).unwrap_or_else(|e| {
            eprintln!("error: {e}");
            std::process::exit(2)
        })
    }
}
/// the command named by the first argument, and its options
pub fn command_of(args: &[String]) -> Result<(&str, &[String]), String> {
    match args.first().map(|s| s.as_str()) {
        Some("-h" | "--help" | "-V" | "--version" | "help") => std::process::exit(0),
        Some(c) => Ok((c, &args[1..])),
        None => Err("a command is required".into()),
    }
}
