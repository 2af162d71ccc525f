//! Expression and type rewrites (each one is listed in DESIGN.md).
use crate::util::{canon, ts};
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rewriter<'a> {
    pub self_int: Option<String>,
    pub fn_ptrs: &'a BTreeMap<String, String>,
    pub statics: &'a [String],
    pub sender: bool,
    /// ghost bound of allocations
    pub alloc: String,
    pub todo: Option<TokenStream>,
    pub notes: Vec<String>,
}

pub fn int_bits(s: &str) -> Option<u32> {
    Some(match s { "u8" => 8, "u16" => 16, "u32" => 32, "u64" => 64, "u128" => 128, "usize" => 64, _ => return None })
}

fn strip_paren(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(g) => strip_paren(&g.expr), _ => e }
}

fn hex_bytes(s: &str) -> Option<Vec<u8>> {
    let h: Vec<char> = s.chars().filter(|c| !c.is_whitespace()).collect();
    if h.len() % 2 != 0 { return None; }
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2].iter().collect::<String>(), 16).ok()).collect()
}

pub fn byte_array(b: &[u8]) -> TokenStream {
    let items: Vec<String> = b.iter().map(|x| format!("{}u8", x)).collect();
    ts(&format!("[{}]", items.join(", ")))
}

pub fn verb(t: TokenStream) -> Expr { Expr::Verbatim(t) }

/// Is `name` a macro whose only effect is output?
fn output_macro(p: &Path) -> bool {
    matches!(p.segments.last().map(|s| s.ident.to_string()).as_deref(),
        Some("println" | "eprintln" | "print" | "eprint" | "dbg" | "info" | "debug" | "trace" | "warn" | "error"))
}

fn lit_val(e: &Expr) -> Option<(u128, String)> {
    match strip_paren(e) {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => Some((i.base10_parse::<u128>().ok()?, i.suffix().to_string())),
        _ => None,
    }
}

fn split_args(t: TokenStream) -> Vec<Expr> {
    use syn::punctuated::Punctuated;
    use syn::parse::Parser;
    Punctuated::<Expr, Token![,]>::parse_terminated.parse2(t).map(|p| p.into_iter().collect()).unwrap_or_default()
}

impl<'a> Rewriter<'a> {
    fn note(&mut self, s: &str) { self.notes.push(s.to_string()); }

    fn rewrite_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "vec" => {
                let t = canon(&m.tokens);
                if t.is_empty() { self.note("vec![] => Vec::new()"); return Some(verb(quote!(Vec::new()))); }
                let mt = m.tokens.clone();
                if let Ok(mut r) = syn::parse2::<ExprRepeat>(quote!([#mt])) {
                    self.visit_expr_mut(&mut r.expr);
                    self.visit_expr_mut(&mut r.len);
                    let (a, n) = (&r.expr, &r.len);
                    let al: proc_macro2::TokenStream = self.alloc.parse().unwrap();
                    self.note("vec![x; n] => vec_repeat (bounded allocation)");
                    return Some(if self.sender { verb(quote!(vec![#a; #n])) } else { verb(quote!(crate::vext::vec_repeat(#a, #n, Ghost(#al)))) });
                }
                let mut args = split_args(m.tokens.clone());
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                Some(verb(quote!(vec![#(#args),*])))
            }
            "hex" => {
                let l: LitStr = syn::parse2(m.tokens.clone()).ok()?;
                self.note("hex!(..) => array literal");
                Some(verb(byte_array(&hex_bytes(&l.value())?)))
            }
            "todo" | "unimplemented" if self.todo.is_some() => {
                self.note("todo! => the unfinished rest of the function (its contract's todo clause is proved there)");
                let t = self.todo.clone().unwrap();
                Some(verb(quote!({ #t crate::vext::unfinished() })))
            }
            "panic" | "todo" | "unimplemented" | "unreachable" => {
                self.note("panicking macro => verif_panic (requires false)");
                Some(verb(quote!(crate::vext::verif_panic())))
            }
            "assert" | "debug_assert" => {
                let mut args = split_args(m.tokens.clone());
                let a = args.first_mut()?;
                self.visit_expr_mut(a);
                self.note("assert! => verif_assert (requires the condition)");
                Some(verb(quote!(crate::vext::verif_assert(#a))))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                let mut args = split_args(m.tokens.clone());
                if args.len() < 2 { return None; }
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                let (a, b) = (&args[0], &args[1]);
                self.note("assert_eq! => verif_assert (requires the condition)");
                Some(verb(if name == "assert_ne" { quote!(crate::vext::verif_assert((#a) != (#b))) } else { quote!(crate::vext::verif_assert((#a) == (#b))) }))
            }
            "matches" => {
                let s = m.tokens.clone();
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?; i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                let mut mm: M = syn::parse2(s).ok()?;
                self.visit_expr_mut(&mut mm.0);
                let (e, p) = (&mm.0, &mm.1);
                Some(match mm.2 { Some(mut g) => { self.visit_expr_mut(&mut g); verb(quote!((match #e { #p if #g => true, _ => false }))) }
                    None => verb(quote!((match #e { #p => true, _ => false }))) })
            }
            _ => None,
        }
    }

    /// `X.iter().map(|b| Ok(b.clone()))`: an infallible byte stream over a slice.
    fn slice_stream(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        if m.method != "map" || m.args.len() != 1 { return None; }
        let inner = match strip_paren(&m.receiver) { Expr::MethodCall(x) => x, _ => return None };
        let by_val = match inner.method.to_string().as_str() {
            "iter" => false,
            "copied" | "cloned" => true,
            _ => return None,
        };
        let base = if by_val {
            match strip_paren(&inner.receiver) { Expr::MethodCall(x) if x.method == "iter" => &x.receiver, _ => return None }
        } else { &inner.receiver };
        let ok_body = match &m.args[0] {
            Expr::Closure(c) => {
                let p = match c.inputs.first()? { Pat::Ident(i) => i.ident.to_string(),
                    Pat::Type(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => return None },
                    Pat::Reference(r) => match &*r.pat { Pat::Ident(i) => format!("&{}", i.ident), _ => return None }, _ => return None };
                let mut b = canon(&c.body.to_token_stream());
                if let Expr::Block(bl) = &*c.body { if bl.block.stmts.len() == 1 { b = canon(&bl.block.stmts[0].to_token_stream()); } }
                let b = b.replace(' ', "");
                let name = p.trim_start_matches('&').to_string();
                let forms: Vec<String> = if by_val || p.starts_with('&') { vec![format!("Ok({})", name), format!("Ok({}.clone())", name)] }
                    else { vec![format!("Ok({}.clone())", name), format!("Ok(*{})", name)] };
                forms.contains(&b)
            }
            Expr::Path(p) => by_val && p.path.is_ident("Ok"),
            _ => false,
        };
        if !ok_body { return None; }
        self.note("X.iter().map(|x| Ok(x.clone())) => slice_stream(X)");
        let base = base.clone();
        Some(verb(quote!(crate::vext::slice_stream(&#base))))
    }
}

fn is_collect_flatten(e: &Expr) -> Option<Expr> {
    // X.into_iter().flatten().collect::<Vec<_>>()
    if let Expr::MethodCall(c) = e {
        if c.method != "collect" { return None; }
        if let Expr::MethodCall(f) = strip_paren(&c.receiver) {
            if f.method != "flatten" { return None; }
            if let Expr::MethodCall(i) = strip_paren(&f.receiver) {
                if i.method == "into_iter" { return Some((*i.receiver).clone()); }
            }
        }
    }
    None
}

/// `Arc<T>` is `T` in the sequential view: a handle on the one shared value.
pub struct Unshare;
thread_local! { pub static ARC_FIELDS: std::cell::RefCell<std::collections::BTreeSet<String>> = Default::default(); } // fields declared with a type `Arc<..>` (elsewhere at most a lock)
impl VisitMut for Unshare {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let s = p.path.segments.last().unwrap();
            if s.ident == "Arc" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(x)) = a.args.first() { *t = x.clone(); } } }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if (m.method == "as_ref" || m.method == "deref") && m.args.is_empty() {
                if let Expr::Field(f) = strip_paren(&m.receiver) { if let Member::Named(i) = &f.member {
                    if ARC_FIELDS.with(|a| a.borrow().contains(&i.to_string())) { *e = (*m.receiver).clone(); return; }
                } }
            }
        }
        if let Expr::Call(c) = e {
            let f = canon(&c.func.to_token_stream()).replace(' ', "");
            if (f == "Arc::new" || f.ends_with("::Arc::new")) && c.args.len() == 1 { *e = c.args[0].clone(); }
            else if (f == "Arc::clone" || f.ends_with("::Arc::clone")) && c.args.len() == 1 { let a = &c.args[0]; *e = syn::parse2(quote!((#a).clone())).unwrap(); }
        }
    }
}

/// A local that is locked through a shared reference is a mutable local in the sequential view.
#[derive(Default)]
pub struct LockLocals { roots: std::collections::BTreeSet<String> }
impl LockLocals {
    pub fn run(&mut self, b: &mut Block) {
        struct F<'a>(&'a mut std::collections::BTreeSet<String>);
        impl<'a, 'ast> syn::visit::Visit<'ast> for F<'a> {
            fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
                if ["write", "read", "lock"].contains(&m.method.to_string().as_str()) && m.args.is_empty() {
                    let mut e: &Expr = &m.receiver;
                    loop { e = match e { Expr::Field(f) => &f.base, Expr::Paren(p) => &p.expr, _ => break }; }
                    if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if i != "self" { self.0.insert(i.to_string()); } } }
                }
                syn::visit::visit_expr_method_call(self, m);
            }
        }
        syn::visit::Visit::visit_block(&mut F(&mut self.roots), b);
        if !self.roots.is_empty() { self.visit_block_mut(b); }
    }
}
impl VisitMut for LockLocals {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Ident(p) = &mut l.pat { if p.by_ref.is_none() && self.roots.contains(&p.ident.to_string()) { p.mutability = Some(Default::default()); } }
        visit_mut::visit_local_mut(self, l);
    }
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            match &s {
                Stmt::Macro(m) if output_macro(&m.mac.path) => { self.note("output macro dropped"); continue; }
                Stmt::Expr(Expr::Macro(m), _) if output_macro(&m.mac.path) => { self.note("output macro dropped"); continue; }
                Stmt::Expr(e, Some(_)) if canon(&e.to_token_stream()).replace(' ', "").contains("io::stdout()") => { self.note("stdout flush dropped"); continue; }
                Stmt::Item(Item::Fn(_)) | Stmt::Item(Item::Use(_)) => {}
                _ => {}
            }
            out.push(match s {
                Stmt::Macro(m) => {
                    if let Some(e) = self.rewrite_macro(&m.mac) { Stmt::Expr(e, m.semi_token) }
                    else { Stmt::Macro(m) }
                }
                s => s,
            });
        }
        // a trailing `panic!();` diverges: make it the (diverging) tail so that the block has any type
        if let Some(Stmt::Expr(Expr::Verbatim(t), semi @ Some(_))) = out.last_mut() {
            let s = canon(t).replace(' ', "");
            if s.starts_with("crate::vext::verif_panic(") || s.ends_with("crate::vext::unfinished()}") { *semi = None; }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() > 1 && (segs[0] == "std" || segs[0] == "core") && ["io", "net", "sync", "collections"].contains(&segs[1].as_str()) {
            let mut n: Path = parse_quote!(crate::stubs::stdx);
            for s in p.segments.iter().skip(1) { n.segments.push(s.clone()); }
            *p = n;
            self.note("std::{io,net,sync,collections} => stub module");
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // before the children
        match e {
            Expr::Macro(m) => {
                if output_macro(&m.mac.path) && !m.mac.path.is_ident("dbg") { self.note("output macro dropped"); *e = parse_quote!(()); return; }
                if let Some(n) = self.rewrite_macro(&m.mac.clone()) { *e = n; }
                return;
            }
            Expr::MethodCall(m) => {
                let mc = m.clone();
                if let Some(n) = self.slice_stream(&mc) { *e = n; return; }
                if let Some(mut x) = is_collect_flatten(&Expr::MethodCall(mc)) {
                    self.visit_expr_mut(&mut x);
                    self.note("X.into_iter().flatten().collect() => flatten_vecs(X)");
                    *e = verb(quote!(crate::vext::flatten_vecs(#x)));
                    return;
                }
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    if let Expr::Index(ix) = strip_paren(&r.expr) {
                        if let Expr::Range(rg) = strip_paren(&ix.index) {
                            if rg.start.is_none() && rg.end.is_none() {
                                let mut x = (*ix.expr).clone();
                                self.visit_expr_mut(&mut x);
                                self.note("&mut X[..] => full_mut");
                                *e = verb(quote!(crate::vext::FullMut::full_mut(&mut #x)));
                                return;
                            }
                        }
                    }
                }
                if let Expr::Path(p) = strip_paren(&r.expr) {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if self.statics.contains(&last) {
                        let p = p.clone();
                        self.note("&STATIC => STATIC()");
                        *e = verb(quote!(#p()));
                        return;
                    }
                }
            }
            Expr::Closure(c) => {
                for (i, p) in c.inputs.iter_mut().enumerate() {
                    if let Pat::Wild(_) = p {
                        let id = Ident::new(&format!("_w{}", i), Span::call_site());
                        *p = parse_quote!(#id);
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // after the children
        let mut new: Option<Expr> = None;
        match e {
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let a = byte_array(&b.value());
                self.note("byte string => array literal");
                new = Some(verb(quote!(&#a)));
            }
            Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) => {
                let v = proc_macro2::Literal::u8_suffixed(b.value());
                new = Some(verb(quote!(#v)));
            }
            Expr::Binary(b) => {
                if let (Some((x, sx)), Some((y, sy))) = (lit_val(&b.left), lit_val(&b.right)) {
                    let v = match b.op {
                        BinOp::Shl(_) if y < 128 => x.checked_shl(y as u32).filter(|r| r >> y == x).map(|r| (r, sx)),
                        BinOp::Sub(_) => x.checked_sub(y).map(|r| (r, if sx.is_empty() { sy } else { sx })),
                        BinOp::Add(_) => x.checked_add(y).map(|r| (r, if sx.is_empty() { sy } else { sx })),
                        BinOp::Mul(_) => x.checked_mul(y).map(|r| (r, if sx.is_empty() { sy } else { sx })),
                        BinOp::Div(_) if y != 0 => Some((x / y, if sx.is_empty() { sy } else { sx })),
                        _ => None,
                    };
                    // only fold when no typed literal could overflow its own type
                    if let Some((r, s)) = v {
                        let fits = match int_bits(&s) { Some(w) if w < 128 => r < (1u128 << w), _ => true };
                        if fits {
                            let l = LitInt::new(&format!("{}{}", r, s), Span::call_site());
                            self.note("literal arithmetic folded");
                            new = Some(parse_quote!(#l));
                        }
                    }
                }
            }
            Expr::Paren(p) => if lit_val(&p.expr).is_some() { new = Some((*p.expr).clone()); },
            Expr::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 2 && segs[1] == "BITS" {
                    let t = if segs[0] == "Self" { self.self_int.clone() } else { Some(segs[0].clone()) };
                    if let Some(w) = t.and_then(|t| int_bits(&t)) {
                        let l = LitInt::new(&format!("{}u32", w), Span::call_site());
                        self.note("BITS folded");
                        new = Some(parse_quote!(#l));
                    }
                }
            }
            Expr::Cast(c) => {
                if let (Some((v, _)), Type::Path(t)) = (lit_val(&c.expr), &*c.ty) {
                    let tn = canon(&t.to_token_stream());
                    if let Some(w) = int_bits(&tn) {
                        if w == 128 || v < (1u128 << w) {
                            let l = LitInt::new(&format!("{}{}", v, tn), Span::call_site());
                            new = Some(parse_quote!(#l));
                        }
                    }
                }
            }
            Expr::Call(c) => {
                let f = strip_paren(&c.func).clone();
                match &f {
                    Expr::Field(fl) => {
                        if let Member::Named(n) = &fl.member {
                            if let Some(target) = self.fn_ptrs.get(&n.to_string()) {
                                let p = ts(target);
                                let a = &c.args;
                                self.note("(x.fn_pointer)(..) => the function in the only suite");
                                new = Some(verb(quote!(#p(#a))));
                            }
                        }
                    }
                    Expr::Path(p) => {
                        let n = p.path.segments.len();
                        let last = p.path.segments.last().unwrap().clone();
                        let name = last.ident.to_string();
                        let prev = if n >= 2 { p.path.segments[n - 2].ident.to_string() } else { String::new() };
                        if name == "size_of" && c.args.is_empty() {
                            if let PathArguments::AngleBracketed(a) = &last.arguments {
                                let t = canon(&a.args.to_token_stream());
                                let t = if t == "Self" { self.self_int.clone().unwrap_or(t) } else { t };
                                if let Some(w) = int_bits(&t) {
                                    let l = LitInt::new(&format!("{}usize", w / 8), Span::call_site());
                                    self.note("size_of folded");
                                    new = Some(parse_quote!(#l));
                                }
                            }
                        } else if (name == "min" || name == "max") && prev == "cmp" && c.args.len() == 2 {
                            let (a, b, f) = (&c.args[0], &c.args[1], &last.ident);
                            self.note("cmp::min(a, b) => a.min(b)");
                            new = Some(verb(quote!((#a).#f(#b))));
                        } else if name == "from_be_bytes" || name == "from_le_bytes" {
                            let mut p2 = p.clone();
                            p2.path.segments.last_mut().unwrap().ident = Ident::new(&format!("{}_", name), Span::call_site());
                            let a = &c.args;
                            new = Some(verb(quote!(#p2(#a))));
                        } else if name == "with_capacity" && prev == "Vec" && !self.sender {
                            let a = &c.args;
                            let targ = match &p.path.segments[n - 2].arguments {
                                PathArguments::AngleBracketed(x) => { let g = &x.args; quote!(::<#g>) }
                                _ => quote!(),
                            };
                            let al: proc_macro2::TokenStream = self.alloc.parse().unwrap();
                            self.note("Vec::with_capacity => bounded allocation");
                            new = Some(verb(quote!(crate::vext::vec_with_capacity #targ (#a, Ghost(#al)))));
                        }
                    }
                    _ => {}
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "concat" if m.args.is_empty() => {
                        if let Expr::Array(a) = strip_paren(&m.receiver) {
                            let f = Ident::new(&format!("concat{}", a.elems.len()), Span::call_site());
                            let el = &a.elems;
                            self.note("[a, b, ..].concat() => concatN(a, b, ..)");
                            new = Some(verb(quote!(crate::vext::#f(#el))));
                        } else {
                            let r = &m.receiver;
                            self.note("vecs.concat() => concat_vecs(&vecs)");
                            new = Some(verb(quote!(crate::vext::concat_vecs(&#r))));
                        }
                    }
                    "to_be_bytes" | "to_le_bytes" => {
                        m.method = Ident::new(&format!("{}_", name), Span::call_site());
                    }
                    "extend" if m.args.len() == 1 => {
                        m.method = Ident::new("extend_", Span::call_site());
                        // X.iter() / X.iter().copied() / X.into_iter(): the elements of X
                        loop {
                            let inner = match strip_paren(&m.args[0]) {
                                Expr::MethodCall(i) if i.args.is_empty() && (i.method == "copied" || i.method == "cloned") => Some((*i.receiver).clone()),
                                Expr::MethodCall(i) if i.args.is_empty() && i.method == "into_iter" => Some((*i.receiver).clone()),
                                Expr::MethodCall(i) if i.args.is_empty() && i.method == "iter" => { let r = &i.receiver; Some(parse_quote!(&#r)) }
                                _ => None,
                            };
                            match inner { Some(x) => m.args[0] = x, None => break }
                        }
                        self.notes.push("v.extend(x) => extend_ (trusted)".into());
                    }
                    "try_into" if m.args.is_empty() && { fn sl(e: &Expr) -> bool { match e { Expr::Paren(p) => sl(&p.expr), Expr::Reference(r) => sl(&r.expr), Expr::Index(i) => matches!(&*i.index, Expr::Range(_)), Expr::Verbatim(t) => canon(t).contains(".."), _ => false } } sl(&m.receiver) } => {
                        let r = match &*m.receiver { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
                        self.note("slice.try_into() => slice_to_array (trusted)");
                        new = Some(verb(quote!(crate::vext::slice_to_array(&#r))));
                    }
                    "peekable" => {
                        let r = &m.receiver;
                        self.note("X.peekable() => peekable(X)");
                        new = Some(verb(quote!(crate::vext::peekable(#r))));
                    }
                    "reserve" | "reserve_exact" if !self.sender => {
                        let (r, a) = (&m.receiver, &m.args);
                        let al: proc_macro2::TokenStream = self.alloc.parse().unwrap();
                        new = Some(verb(quote!(crate::vext::vec_reserve(&mut #r, #a, Ghost(#al)))));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        if let Some(n) = new { *e = n; }
    }

    fn visit_generics_mut(&mut self, g: &mut Generics) {
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p { rewrite_bounds(&mut t.bounds, &mut self.notes); }
        }
        if let Some(w) = &mut g.where_clause {
            for p in w.predicates.iter_mut() {
                if let WherePredicate::Type(t) = p { rewrite_bounds(&mut t.bounds, &mut self.notes); }
            }
        }
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(it) = t {
            if it.bounds.iter().any(is_byte_iter) {
                let lt = it.bounds.iter().find_map(|b| if let TypeParamBound::Lifetime(l) = b { Some(l.clone()) } else { None });
                self.notes.push("impl Iterator<Item = Result<u8>> => SliceStream".into());
                *t = match lt { Some(l) => parse_quote!(crate::vext::SliceStream<#l>), None => parse_quote!(crate::vext::SliceStream<'_>) };
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn is_byte_iter(b: &TypeParamBound) -> bool {
    if let TypeParamBound::Trait(t) = b {
        let s = t.path.segments.last().unwrap();
        if s.ident == "Iterator" {
            let a = canon(&s.arguments.to_token_stream()).replace(' ', "");
            return a == "<Item=error::Result<u8>>" || a == "<Item=Result<u8,Error>>" || a == "<Item=Result<u8>>" || a == "<Item=error::Result<u8>,>" || a == "<Item=crate::error::Result<u8>>"
                || a == "<Item=Result<u8,error::Error>>";
        }
    }
    false
}

fn rewrite_bounds(b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>, notes: &mut Vec<String>) {
    if !b.iter().any(is_byte_iter) { return; }
    notes.push("T: Iterator<Item = Result<u8>> => T: ByteStream".into());
    let has_clone = b.iter().any(|x| matches!(x, TypeParamBound::Trait(t) if t.path.is_ident("Clone")));
    let mut n = punctuated::Punctuated::new();
    n.push(parse_quote!(crate::vext::ByteStream));
    if has_clone { n.push(parse_quote!(crate::vext::StreamClone)); }
    *b = n;
}
