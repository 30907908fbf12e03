use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Expr, Fields, Lit, Meta, Token};

fn kebab(s: &str) -> String {
    s.replace('_', "-")
}
fn text(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Str(s) => Some(s.value()),
            Lit::Char(c) => Some(c.value().to_string()),
            Lit::Bool(b) => Some(b.value.to_string()),
            _ => None,
        },
        _ => None,
    }
}
/// the entries of #[arg(...)], #[clap(...)] and #[command(...)]
fn entries(attrs: &[syn::Attribute]) -> Vec<(String, Option<Expr>)> {
    let mut out = vec![];
    for a in attrs {
        if ["arg", "command", "clap"].iter().any(|n| a.path().is_ident(n)) {
            let l = a.parse_args_with(syn::punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).expect("attribute");
            for m in l {
                let n = m.path().get_ident().expect("name").to_string();
                out.push((n, match m {
                    Meta::NameValue(v) => Some(v.value),
                    _ => None,
                }));
            }
        }
    }
    out
}
#[proc_macro_derive(Parser, attributes(arg, command, clap))]
pub fn parser(t: TokenStream) -> TokenStream {
    derive(t)
}
#[proc_macro_derive(Args, attributes(arg, command, clap))]
pub fn args(t: TokenStream) -> TokenStream {
    derive(t)
}
#[proc_macro_derive(Subcommand, attributes(arg, command, clap))]
pub fn subcommand(t: TokenStream) -> TokenStream {
    derive(t)
}
fn derive(t: TokenStream) -> TokenStream {
    let d = parse_macro_input!(t as DeriveInput);
    let name = &d.ident;
    let body = match &d.data {
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let id = &v.ident;
                let mut n = String::new();
                for c in id.to_string().chars() {
                    if c.is_uppercase() && !n.is_empty() {
                        n.push('-');
                    }
                    n.extend(c.to_lowercase());
                }
                for (k, x) in entries(&v.attrs) {
                    match k.as_str() {
                        "name" => n = text(&x.unwrap()).unwrap(),
                        "about" | "long_about" | "hide" => {}
                        k => panic!("not modelled: {k}"),
                    }
                }
                match &v.fields {
                    Fields::Unnamed(f) => {
                        let ty = &f.unnamed[0].ty;
                        quote!(#n => Ok(#name::#id(<#ty as ::clap::Parser>::parse_args(rest)?)),)
                    }
                    _ => quote!(#n => { ::clap::options(&[], rest)?; Ok(#name::#id) }),
                }
            });
            quote! {
                let (c, rest) = ::clap::command_of(args)?;
                match c { #(#arms)* _ => Err(format!("unrecognized subcommand '{c}'")) }
            }
        }
        Data::Struct(s) => {
            let fields: Vec<_> = s.fields.iter().collect();
            if fields.len() == 1 && entries(&fields[0].attrs).iter().any(|(k, _)| k == "subcommand") {
                let (f, ty) = (fields[0].ident.as_ref().unwrap(), &fields[0].ty);
                quote!(Ok(#name { #f: <#ty as ::clap::Parser>::parse_args(args)? }))
            } else {
                let mut opts = vec![];
                let mut takes = vec![];
                for (i, f) in fields.iter().enumerate() {
                    let id = f.ident.as_ref().unwrap();
                    let ty = &f.ty;
                    let ids = id.to_string();
                    let (mut short, mut long, mut default) = (quote!(None), quote!(None), quote!(None));
                    let (mut required, mut has_default, mut some) = (quote!(None), false, false);
                    for (k, x) in entries(&f.attrs) {
                        match k.as_str() {
                            "short" => {
                                let c = x.as_ref().and_then(text).and_then(|s| s.chars().next()).unwrap_or(ids.chars().next().unwrap());
                                short = quote!(Some(#c));
                                some = true;
                            }
                            "long" => {
                                let l = x.as_ref().and_then(text).unwrap_or(kebab(&ids));
                                long = quote!(Some(#l));
                                some = true;
                            }
                            "default_value" => {
                                let v = x.expect("value");
                                default = quote!(Some(#v));
                                has_default = true;
                            }
                            "default_value_t" => {
                                let v = text(&x.expect("value")).expect("a literal");
                                default = quote!(Some(#v));
                                has_default = true;
                            }
                            "required" => {
                                let v = x.expect("value");
                                required = quote!(Some(#v));
                            }
                            "hide" | "help" | "long_help" | "value_name" | "action" | "num_args" => {}
                            k => panic!("not modelled: {k}"),
                        }
                    }
                    assert!(some, "positional arguments are not modelled: {ids}");
                    opts.push(quote!(::clap::Opt {
                        id: #ids, short: #short, long: #long, default: #default,
                        required: Option::<bool>::unwrap_or(#required, <#ty as ::clap::Field>::NEEDED && !#has_default),
                        kind: <#ty as ::clap::Field>::KIND,
                    }));
                    takes.push(quote!(#id: <#ty as ::clap::Field>::take(&found[#i])?));
                }
                quote! {
                    let opts: Vec<::clap::Opt> = vec![#(#opts),*];
                    let found = ::clap::options(&opts, args)?;
                    let _ = &found;
                    Ok(#name { #(#takes),* })
                }
            }
        }
        _ => panic!("not modelled"),
    };
    quote!(impl ::clap::Parser for #name {
        fn parse_args(args: &[String]) -> Result<Self, String> { #body }
    }).into()
}
