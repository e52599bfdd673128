//! Copies /repo/hooq-macros/src/lib.rs: inner attributes and the
//! `#[proc_macro…]` attributes (which only a proc-macro crate may use) are
//! dropped, `mod x;` items get the absolute path of their file.
use quote::ToTokens;
pub fn generate() {
    let src = "/repo/hooq-macros/src";
    let lib = format!("{src}/lib.rs");
    println!("cargo::rerun-if-changed={lib}");
    let text = std::fs::read_to_string(&lib).unwrap();
    let mut file = syn::parse_file(&text).expect("lib.rs parses");
    let mut out = String::new();
    for item in &mut file.items {
        match item {
            syn::Item::Fn(f) => f.attrs.retain(|a| {
                !["proc_macro", "proc_macro_attribute", "proc_macro_derive", "doc"]
                    .iter()
                    .any(|n| a.path().is_ident(n))
            }),
            syn::Item::Mod(m) if m.content.is_none() && !m.attrs.iter().any(|a| a.path().is_ident("path")) => {
                let n = m.ident.to_string();
                let p = [format!("{src}/{n}.rs"), format!("{src}/{n}/mod.rs")]
                    .into_iter()
                    .find(|p| std::path::Path::new(p).exists())
                    .expect("module file");
                m.attrs.push(syn::parse_quote!(#[path = #p]));
            }
            _ => {}
        }
        out.push_str(&item.to_token_stream().to_string());
        out.push('\n');
    }
    let dst = format!("{}/lib.rs", std::env::var("OUT_DIR").unwrap());
    std::fs::write(dst, out).unwrap();
}
