//! `extract items SRC`: the named items of the crate, one per line, for pairing renamed ones:
//! kind \t container \t name \t signature (with the own name blanked) \t source-order index
use crate::util::canon;
use quote::ToTokens;
use std::path::Path;
use syn::*;

fn test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| { let s = canon(&a.meta.to_token_stream()).replace(' ', ""); s == "cfg(test)" || s == "test" }) }

fn fields(out: &mut Vec<String>, c: &str, f: &Fields) {
    if let Fields::Named(n) = f { for (i, x) in n.named.iter().enumerate() {
        out.push(format!("field\t{}\t{}\t{}\t{}", c, x.ident.as_ref().unwrap(), canon(&x.ty.to_token_stream()), i));
    } }
}
fn sig(s: &Signature) -> String {
    let mut s = s.clone();
    s.ident = Ident::new("_n", proc_macro2::Span::call_site());
    for a in s.inputs.iter_mut() { if let FnArg::Typed(t) = a { *t.pat = parse_quote!(_x); } }
    canon(&s.to_token_stream())
}
fn walk(out: &mut Vec<String>, path: &str, items: &[Item], dir: &Path) {
    for (i, it) in items.iter().enumerate() { match it {
        Item::Struct(s) => {
            let t: Vec<String> = s.fields.iter().map(|f| canon(&f.ty.to_token_stream())).collect();
            out.push(format!("type\t{}\t{}\tstruct {}\t{}", path, s.ident, t.join(","), i));
            fields(out, &format!("{}::{}", path, s.ident), &s.fields);
        }
        Item::Enum(e) => {
            let t: Vec<String> = e.variants.iter().map(|v| v.ident.to_string()).collect();
            out.push(format!("type\t{}\t{}\tenum {}\t{}", path, e.ident, t.join(","), i));
            for (k, v) in e.variants.iter().enumerate() {
                let c = format!("{}::{}", path, e.ident);
                let t: Vec<String> = v.fields.iter().map(|f| canon(&f.ty.to_token_stream())).collect();
                out.push(format!("variant\t{}\t{}\t{} {}\t{}", c, v.ident, t.join(","), v.discriminant.as_ref().map(|d| canon(&d.1.to_token_stream())).unwrap_or_default(), k));
                fields(out, &format!("{}::{}", c, v.ident), &v.fields);
            }
        }
        Item::Const(c) => out.push(format!("const\t{}\t{}\t{}\t{}", path, c.ident, canon(&c.ty.to_token_stream()), i)),
        Item::Static(c) => out.push(format!("const\t{}\t{}\t{}\t{}", path, c.ident, canon(&c.ty.to_token_stream()), i)),
        Item::Trait(t) => out.push(format!("trait\t{}\t{}\t{}\t{}", path, t.ident, t.items.len(), i)),
        Item::Fn(f) if !test(&f.attrs) => out.push(format!("fn\t{}\t{}\t{}\t{}", path, f.sig.ident, sig(&f.sig), i)),
        Item::Impl(im) if !test(&im.attrs) && im.trait_.is_none() => {
            let ty = canon(&im.self_ty.to_token_stream()).replace(' ', "");
            for (k, x) in im.items.iter().enumerate() { match x {
                ImplItem::Fn(f) if !test(&f.attrs) => out.push(format!("fn\t{}::{}\t{}\t{}\t{}", path, ty.split('<').next().unwrap(), f.sig.ident, sig(&f.sig), k)),
                ImplItem::Const(c) => out.push(format!("const\t{}::{}\t{}\t{}\t{}", path, ty, c.ident, canon(&c.ty.to_token_stream()), k)),
                _ => {}
            } }
        }
        Item::Mod(m) if !test(&m.attrs) => {
            let p = if path.is_empty() { m.ident.to_string() } else { format!("{}::{}", path, m.ident) };
            match &m.content {
                Some((_, its)) => walk(out, &p, its, dir),
                None => { let n = m.ident.to_string();
                    let (f, d) = if dir.join(format!("{n}.rs")).exists() { (dir.join(format!("{n}.rs")), dir.join(&n)) } else { (dir.join(&n).join("mod.rs"), dir.join(&n)) };
                    load(out, &p, &f, &d); }
            }
        }
        _ => {}
    } }
}
fn load(out: &mut Vec<String>, path: &str, f: &Path, dir: &Path) {
    if let Ok(t) = std::fs::read_to_string(f) { if let Ok(x) = parse_file(&t) { walk(out, path, &x.items, dir); } }
}
pub fn main(src: &str) {
    let d = Path::new(src);
    let mut out = Vec::new();
    load(&mut out, "", &d.join("lib.rs"), d);
    for l in out { println!("{l}"); }
}
