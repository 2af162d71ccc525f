//! Loop normalisation: iterator-driven loops over slices and counted while loops become
//! `for k in 0..n` loops; `while let` becomes `loop { match .. }`; contracts are then attached.
use crate::util::{canon, idents};
use crate::rewrite::verb;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Chain { len: TokenStream, elem: TokenStream } // elem is an expression over K

fn paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => paren(&p.expr), Expr::Group(g) => paren(&g.expr), _ => e } }

/// place expression without side effects: a path, field, `&place`, or a range-indexed place
fn is_place(e: &Expr) -> bool {
    match paren(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Reference(r) => is_place(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Index(i) => is_place(&i.expr) && pure(&i.index),
        _ => false,
    }
}
/// side-effect free index/bound expression
pub fn pure(e: &Expr) -> bool {
    match paren(e) {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Range(r) => r.start.as_ref().map_or(true, |x| pure(x)) && r.end.as_ref().map_or(true, |x| pure(x)),
        Expr::Binary(b) => pure(&b.left) && pure(&b.right) && !matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)),
        Expr::Field(f) => pure(&f.base),
        Expr::Cast(c) => pure(&c.expr),
        Expr::Unary(u) => pure(&u.expr),
        Expr::MethodCall(m) => (m.method == "len" || m.method == "min") && is_place_or_pure(&m.receiver) && m.args.iter().all(pure),
        Expr::Call(c) => canon(&c.func.to_token_stream()).replace(' ', "").ends_with("::from") && c.args.iter().all(pure),
        _ => false,
    }
}
fn is_place_or_pure(e: &Expr) -> bool { is_place(e) || pure(e) }

fn chain(e: &Expr) -> Option<Chain> {
    match paren(e) {
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            match name.as_str() {
                "iter" if is_place(&m.receiver) => {
                    let r = paren(&m.receiver);
                    Some(Chain { len: quote!((#r).len()), elem: quote!(&(#r)[K]) })
                }
                "iter_mut" if is_place(&m.receiver) => {
                    let r = paren(&m.receiver);
                    Some(Chain { len: quote!((#r).len()), elem: quote!(&mut (#r)[K]) })
                }
                "chunks" | "chunks_exact" if is_place(&m.receiver) && m.args.len() == 1 && pure(&m.args[0]) => {
                    let r = paren(&m.receiver);
                    let n = &m.args[0];
                    if name == "chunks" {
                        Some(Chain { len: quote!(crate::vext::chunks_len(&(#r), #n)), elem: quote!(crate::vext::chunk(&(#r), #n, K)) })
                    } else {
                        Some(Chain { len: quote!(crate::vext::chunks_exact_len(&(#r), #n)), elem: quote!(crate::vext::chunk(&(#r), #n, K)) })
                    }
                }
                "enumerate" => { let c = chain(&m.receiver)?; let el = &c.elem; Some(Chain { len: c.len.clone(), elem: quote!((K, #el)) }) }
                "copied" | "cloned" => { let c = chain(&m.receiver)?; let el = &c.elem; Some(Chain { len: c.len.clone(), elem: quote!(*#el) }) }
                "rev" => {
                    let c = chain(&m.receiver)?;
                    let l = &c.len;
                    let el = subst_k(c.elem.clone(), &quote!((#l - 1 - K)));
                    Some(Chain { len: c.len.clone(), elem: el })
                }
                "skip" if m.args.len() == 1 && pure(&m.args[0]) => {
                    let c = chain(&m.receiver)?;
                    let (l, n) = (&c.len, &m.args[0]);
                    Some(Chain { len: quote!(crate::vext::sat_sub(#l, #n)), elem: subst_k(c.elem.clone(), &quote!((K + #n))) })
                }
                "take" if m.args.len() == 1 && pure(&m.args[0]) => {
                    let c = chain(&m.receiver)?;
                    let (l, n) = (&c.len, &m.args[0]);
                    Some(Chain { len: quote!(crate::vext::min_(#l, #n)), elem: c.elem.clone() })
                }
                "zip" if m.args.len() == 1 => {
                    let a = chain(&m.receiver)?;
                    let b = chain_or_ref(&m.args[0])?;
                    let (la, lb, ea, eb) = (&a.len, &b.len, &a.elem, &b.elem);
                    Some(Chain { len: quote!(crate::vext::min_(#la, #lb)), elem: quote!((#ea, #eb)) })
                }
                "map" if m.args.len() == 1 => {
                    let c = chain(&m.receiver)?;
                    if let Expr::Closure(cl) = &m.args[0] {
                        if cl.inputs.len() != 1 { return None; }
                        let p = match &cl.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                        let b = &cl.body;
                        let el = &c.elem;
                        // a `?`/return inside the closure must stay inside: refuse
                        let mut id = BTreeSet::new();
                        idents(b.to_token_stream(), &mut id);
                        if id.contains("return") || b.to_token_stream().to_string().contains('?') { return None; }
                        Some(Chain { len: c.len.clone(), elem: quote!({ let #p = #el; #b }) })
                    } else { None }
                }
                _ => None,
            }
        }
        _ => None,
    }
}
fn chain_or_ref(e: &Expr) -> Option<Chain> {
    if let Some(c) = chain(e) { return Some(c); }
    if let Expr::Reference(r) = paren(e) {
        if is_place(&r.expr) {
            let x = paren(&r.expr);
            return Some(if r.mutability.is_some() { Chain { len: quote!((#x).len()), elem: quote!(&mut (#x)[K]) } }
                else { Chain { len: quote!((#x).len()), elem: quote!(&(#x)[K]) } });
        }
    }
    None
}

fn subst_k(t: TokenStream, k: &TokenStream) -> TokenStream {
    use proc_macro2::{Group, TokenTree};
    t.into_iter().flat_map(|tt| -> Vec<TokenTree> { match tt {
        TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), subst_k(g.stream(), k)); n.set_span(g.span()); vec![TokenTree::Group(n)] }
        TokenTree::Ident(i) if i == "K" => k.clone().into_iter().collect(),
        x => vec![x],
    }}).collect()
}

/// `&mut X[E]` with E computed => E bound first: nothing of X is read while it is borrowed
fn mut_indices(t: TokenStream, k: &Ident, out: &mut Vec<TokenStream>) -> TokenStream {
    use proc_macro2::{Delimiter, Group, TokenTree};
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut r: Vec<TokenTree> = Vec::new();
    for i in 0..v.len() {
        let is = |j: usize, s: &str| v[j].to_string() == s;
        match &v[i] {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket && i >= 3 && is(i - 2, "mut") && is(i - 3, "&") && g.stream().into_iter().count() > 0 && g.stream().to_string() != k.to_string() => {
                let id = Ident::new(&format!("{}_{}", k, out.len()), Span::call_site());
                let e = g.stream();
                out.push(quote!(let #id = #e;));
                r.push(TokenTree::Group(Group::new(Delimiter::Bracket, quote!(#id))));
            }
            TokenTree::Group(g) => r.push(TokenTree::Group(Group::new(g.delimiter(), mut_indices(g.stream(), k, out)))),
            x => r.push(x.clone()),
        }
    }
    r.into_iter().collect()
}

fn count_ident(t: TokenStream, name: &str) -> usize {
    t.into_iter().map(|tt| match tt {
        proc_macro2::TokenTree::Group(g) => count_ident(g.stream(), name),
        proc_macro2::TokenTree::Ident(i) => (i == name) as usize,
        _ => 0,
    }).sum()
}

struct LenSubst<'a> { var: &'a str, len: &'a TokenStream }
impl<'a> VisitMut for LenSubst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if m.method == "len" && m.args.is_empty() {
                if let Expr::Path(p) = &*m.receiver { if p.path.is_ident(self.var) {
                    let l = self.len; *e = syn::parse2(quote!(#l)).unwrap(); return;
                } }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn negate(c: &Expr) -> Expr {
    match paren(c) {
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (*u.expr).clone(),
        Expr::Binary(b) => {
            let (l, r) = (&b.left, &b.right);
            syn::parse2(match b.op {
                BinOp::Eq(_) => quote!(#l != #r), BinOp::Ne(_) => quote!(#l == #r), BinOp::Lt(_) => quote!(#l >= #r),
                BinOp::Le(_) => quote!(#l > #r), BinOp::Gt(_) => quote!(#l <= #r), BinOp::Ge(_) => quote!(#l < #r), _ => { return parse_quote!(!(#c)); } }).unwrap()
        }
        x => parse_quote!(!(#x)),
    }
}

fn has_control(b: &Block, names: &[&str]) -> bool {
    let mut id = BTreeSet::new();
    idents(b.to_token_stream(), &mut id);
    names.iter().any(|n| id.contains(*n))
}

/// identifiers assigned (or mutably borrowed / method-called) in a block: conservative by name
struct Assigned(BTreeSet<String>);
impl<'ast> syn::visit::Visit<'ast> for Assigned {
    fn visit_expr(&mut self, e: &'ast Expr) {
        fn root(e: &Expr) -> Option<String> { match paren(e) {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Field(f) => root(&f.base), Expr::Index(i) => root(&i.expr),
            Expr::Unary(u) => root(&u.expr), Expr::Reference(r) => root(&r.expr), _ => None } }
        match e {
            Expr::Assign(a) => { if let Some(r) = root(&a.left) { self.0.insert(r); } }
            Expr::Binary(b) if b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::Ne(_)) => { if let Some(r) = root(&b.left) { self.0.insert(r); } }
            Expr::Reference(r) if r.mutability.is_some() => { if let Some(x) = root(&r.expr) { self.0.insert(x); } }
            Expr::MethodCall(m) if m.method != "len" => { if let Some(x) = root(&m.receiver) { self.0.insert(x); } }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

/// the chain of `CHAIN.map(..).collect()`, collected to a `Result<Vec<_>>` or to a plain `Vec<_>`
fn collected(e: &Expr, result: bool) -> Option<Chain> {
    let Expr::MethodCall(m) = paren(e) else { return None };
    if m.method != "collect" || !m.args.is_empty() { return None; }
    let t = m.turbofish.as_ref().map(|t| canon(&t.to_token_stream())).unwrap_or_default();
    if result != t.contains("Result") || t.contains("Option") || (!t.is_empty() && !t.contains("Vec")) { return None; }
    // the elements are computed by a closure: a chain without one is left to the rewriter
    let Expr::MethodCall(mm) = paren(&m.receiver) else { return None };
    if mm.method != "map" || mm.args.len() != 1 { return None; }
    if let Some(c) = chain(&m.receiver) { return Some(c); }
    // (0..N).map(|P| B)
    if let (Expr::Range(r), Expr::Closure(cl)) = (paren(&mm.receiver), &mm.args[0]) {
        let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) else { return None };
        if canon(&a.to_token_stream()) != "0" || !pure(b) || cl.inputs.len() != 1 { return None; }
        let mut id = BTreeSet::new();
        idents(cl.body.to_token_stream(), &mut id);
        if id.contains("return") || cl.body.to_token_stream().to_string().contains('?') { return None; }
        let p = match &cl.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
        let body = &cl.body;
        return Some(Chain { len: quote!(#b), elem: quote!({ let #p = K; #body }) });
    }
    None
}

/// the parameters that are streams: `&mut T` with `T: Iterator`, `&mut impl Iterator`
pub fn streams(sig: &Signature) -> BTreeSet<String> {
    let mut gen = BTreeSet::new();
    for p in sig.generics.type_params() { if canon(&p.bounds.to_token_stream()).contains("Iterator") { gen.insert(p.ident.to_string()); } }
    for w in sig.generics.where_clause.iter().flat_map(|w| w.predicates.iter()) {
        if let WherePredicate::Type(t) = w { if canon(&t.bounds.to_token_stream()).contains("Iterator") { gen.insert(canon(&t.bounded_ty.to_token_stream()).trim().to_string()); } }
    }
    let mut out = BTreeSet::new();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a { if let (Pat::Ident(i), Type::Reference(r)) = (&*t.pat, &*t.ty) {
            let n = canon(&r.elem.to_token_stream());
            if r.mutability.is_some() && (gen.contains(n.trim()) || n.starts_with("impl") && n.contains("Iterator")) { out.insert(i.ident.to_string()); }
        } }
    }
    out
}

#[derive(Default)]
pub struct Normalizer { pub notes: Vec<String>, n: usize, let_name: Option<Ident>, pub streams: BTreeSet<String> }

impl Normalizer {
    /// `S`, `S.by_ref()`, `&mut *S` of a stream parameter, each possibly `.take(N)`
    fn stream(&self, e: &Expr) -> Option<(Ident, Option<Expr>)> {
        match paren(e) {
            Expr::Path(p) => p.path.get_ident().filter(|i| self.streams.contains(&i.to_string())).map(|i| (i.clone(), None)),
            Expr::Reference(r) if r.mutability.is_some() => match paren(&r.expr) { Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.stream(&u.expr), _ => None },
            Expr::MethodCall(m) if m.method == "by_ref" && m.args.is_empty() => self.stream(&m.receiver),
            Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 && pure(&m.args[0]) => {
                let (i, n) = self.stream(&m.receiver)?;
                if n.is_some() { return None; }
                Some((i, Some(m.args[0].clone())))
            }
            _ => None,
        }
    }
    fn stream_loop(&mut self, s: &Ident, n: &Option<Expr>, pat: &Pat, body: &Block, label: &Option<Label>) -> TokenStream {
        self.notes.push("for over a stream => next()".into());
        match n {
            None => quote!(#label while let Some(#pat) = #s.next() #body),
            Some(n) => quote!(#label for _ in 0..#n { match #s.next() { Some(#pat) => #body, None => { break; } } }),
        }
    }
    fn collected_stream(&self, e: &Expr) -> Option<(Ident, Option<Expr>)> {
        let Expr::MethodCall(m) = paren(e) else { return None };
        if m.method != "collect" || !m.args.is_empty() { return None; }
        let t = m.turbofish.as_ref().map(|t| canon(&t.to_token_stream())).unwrap_or_default();
        if t.contains("Option") || !t.is_empty() && !(t.contains("Result") && t.contains("Vec")) { return None; }
        self.stream(&m.receiver)
    }
    /// a tail `X.collect()` of a function returning a `Result<Vec<_>, _>` => `Ok(X.collect::<Result<Vec<_>>>()?)`
    pub fn tail(&mut self, b: &mut Block, ret: &str) {
        let r = ret.replace(' ', "");
        if !(r.contains("Result<Vec<")) { return; }
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            let mut x = e.clone();
            if let Expr::MethodCall(m) = &mut x { if m.method == "collect" && m.turbofish.is_none() { m.turbofish = Some(parse_quote!(::<Result<Vec<_>>>)); } }
            if collected(&x, true).is_some() || self.collected_stream(&x).is_some() { *e = parse_quote!(Ok(#x?)); }
        }
    }
    fn fresh(&mut self) -> Ident { self.n += 1; Ident::new(&format!("__k{}", self.n), Span::call_site()) }

    fn for_from(&mut self, c: &Chain, pat: &Pat, body: &Block) -> Expr {
        let k = self.fresh();
        let el = subst_k(c.elem.clone(), &quote!(#k));
        let len = &c.len;
        let stmts = &body.stmts;
        let mut idx = Vec::new();
        let el = mut_indices(el, &k, &mut idx);
        let e: ExprForLoop = syn::parse2(quote!(for #k in 0..#len { #(#idx)* let #pat = #el; #(#stmts)* })).unwrap();
        Expr::ForLoop(e)
    }

    fn normalize_block(&mut self, b: &mut Block) {
        // 1. let mut IT = chain; ... while let Some(P) = IT.next() { .. }   (IT used nowhere else but IT.len())
        let mut i = 0;
        while i < b.stmts.len() {
            let found = if let Stmt::Local(Local { pat: Pat::Ident(pi), init: Some(init), .. }) = &b.stmts[i] {
                if pi.mutability.is_some() && init.diverge.is_none() { chain(&init.expr).map(|c| (pi.ident.to_string(), c)) } else { None }
            } else { None };
            if let Some((var, c)) = found {
                let pos = (i + 1..b.stmts.len()).find(|j| match &b.stmts[*j] {
                    Stmt::Expr(Expr::While(w), _) => match &*w.cond {
                        Expr::Let(l) => canon(&l.expr.to_token_stream()).replace(' ', "") == format!("{}.next()", var),
                        _ => false }, _ => false });
                if let Some(j) = pos {
                    let (pat, body) = match &b.stmts[j] { Stmt::Expr(Expr::While(w), _) => match &*w.cond { Expr::Let(l) => ((*l.pat).clone(), w.body.clone()), _ => unreachable!() }, _ => unreachable!() };
                    let inner = match &pat { Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => Some(t.elems[0].clone()), _ => None };
                    let uses_in_body = count_ident(body.to_token_stream(), &var);
                    let after: usize = b.stmts[j + 1..].iter().map(|s| count_ident(s.to_token_stream(), &var)).sum();
                    if let (Some(p), 0, 0) = (inner, uses_in_body, after) {
                        for s in b.stmts[i + 1..j].iter_mut() { LenSubst { var: &var, len: &c.len }.visit_stmt_mut(s); }
                        let left: usize = b.stmts[i + 1..j].iter().map(|s| count_ident(s.to_token_stream(), &var)).sum();
                        if left == 0 {
                            let f = self.for_from(&c, &p, &body);
                            b.stmts[j] = Stmt::Expr(f, None);
                            b.stmts.remove(i);
                            self.notes.push("iterator-driven while-let => for over indices".into());
                            continue;
                        }
                    }
                }
            }
            i += 1;
        }
        // 1b. loop { if C { break; } REST } => while !(C) { REST }   (not for a value-carrying or labelled loop)
        for s in b.stmts.iter_mut() {
            if let Stmt::Expr(Expr::Loop(l), semi) = s {
                if l.label.is_some() { continue; }
                let cond = match l.body.stmts.first() {
                    Some(Stmt::Expr(Expr::If(i), _)) if i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) && i.then_branch.stmts.len() == 1
                        && canon(&i.then_branch.stmts[0].to_token_stream()).replace(' ', "").trim_end_matches(';') == "break" => Some((*i.cond).clone()),
                    _ => None,
                };
                let rest = Block { brace_token: l.body.brace_token, stmts: l.body.stmts.iter().skip(1).cloned().collect() };
                if let Some(c) = cond {
                    let has_break_value = canon(&rest.to_token_stream()).replace("break ;", "").contains("break");
                    if canon(&c.to_token_stream()).contains("let ") || has_break_value { continue; }
                    let neg: Expr = negate(&c);
                    let st = &rest.stmts;
                    *s = Stmt::Expr(syn::parse2(quote!(while #neg { #(#st)* })).unwrap(), *semi);
                    self.notes.push("loop { if c { break } .. } => while".into());
                }
            }
        }
        // 1c. while N > 0 { BODY; N -= 1; }  (N not used in BODY nor after) => for _ in 0..N
        let mut j = 0;
        while j < b.stmts.len() {
            if let Stmt::Expr(Expr::While(w), _) = &b.stmts[j] {
                let c = canon(&w.cond.to_token_stream()).replace(' ', "");
                if let Some(v) = c.strip_suffix(">0").or_else(|| c.strip_suffix("!=0")) {
                    let v = v.to_string();
                    let last = w.body.stmts.last().map(|s| canon(&s.to_token_stream()).replace(' ', "")) == Some(format!("{}-=1;", v));
                    let uses = count_ident(w.body.to_token_stream(), &v);
                    let after: usize = b.stmts[j + 1..].iter().map(|s| count_ident(s.to_token_stream(), &v)).sum();
                    if v.chars().all(|c| c.is_alphanumeric() || c == '_') && last && uses == 1 && after == 0 && !has_control(&w.body, &["continue"]) {
                        let id = Ident::new(&v, Span::call_site());
                        let st = &w.body.stmts[..w.body.stmts.len() - 1];
                        let f: ExprForLoop = syn::parse2(quote!(for _ in 0..#id { #(#st)* })).unwrap();
                        b.stmts[j] = Stmt::Expr(Expr::ForLoop(f), None);
                        self.notes.push("counted-down while => for".into());
                    }
                }
            }
            j += 1;
        }
        // 2. let mut I = A; ... while I < E { BODY; I += 1; }  (I not otherwise assigned, not used after)
        let mut j = 0;
        while j < b.stmts.len() {
            let hit = if let Stmt::Expr(Expr::While(w), _) = &b.stmts[j] {
                match paren(&w.cond) {
                    Expr::Binary(c) if matches!(c.op, BinOp::Lt(_) | BinOp::Ne(_) | BinOp::Le(_)) => match paren(&c.left) {
                        Expr::Path(p) if p.path.get_ident().is_some() && pure(&c.right) =>
                            {
                            let r = &c.right;
                            let end: Expr = if matches!(c.op, BinOp::Le(_)) { syn::parse2(quote!((#r) + 1)).unwrap() } else { (*c.right).clone() };
                            Some((p.path.get_ident().unwrap().to_string(), end, w.body.clone(), !matches!(c.op, BinOp::Ne(_)))) }
                        _ => None },
                    _ => None }
            } else { None };
            if let Some((var, end, body, is_lt)) = hit {
                let decl = (0..j).rev().find(|d| matches!(&b.stmts[*d], Stmt::Local(Local { pat, init: Some(_), .. })
                    if matches!(pat, Pat::Ident(p) if p.ident == var) || matches!(pat, Pat::Type(t) if matches!(&*t.pat, Pat::Ident(p) if p.ident == var))));
                let last_inc = body.stmts.last().map(|s| canon(&s.to_token_stream()).replace(' ', "")) == Some(format!("{}+=1;", var));
                let mut asg = Assigned(BTreeSet::new());
                let mut b2 = body.clone();
                b2.stmts.pop();
                syn::visit::Visit::visit_block(&mut asg, &b2);
                let mut endids = BTreeSet::new();
                idents(end.to_token_stream(), &mut endids);
                let after: usize = b.stmts[j + 1..].iter().map(|s| count_ident(s.to_token_stream(), &var)).sum();
                let clean = !has_control(&b2, &["continue"]) && !asg.0.contains(&var) && after == 0
                    && endids.iter().all(|x| !asg.0.contains(x));
                if let (Some(d), true, true) = (decl, last_inc, clean) {
                    let between: usize = b.stmts[d + 1..j].iter().map(|s| count_ident(s.to_token_stream(), &var)).sum();
                    let start = match &b.stmts[d] { Stmt::Local(l) => (*l.init.as_ref().unwrap().expr).clone(), _ => unreachable!() };
                    let zero = canon(&start.to_token_stream()).starts_with('0');
                    if between == 0 && (is_lt || zero) && (zero || pure(&start)) {
                        let ty = match &b.stmts[d] { Stmt::Local(Local { pat: Pat::Type(t), .. }) => { let t = &t.ty; Some(quote!(#t)) } _ => None };
                        let id = Ident::new(&var, Span::call_site());
                        let st = &b2.stmts;
                        let startx = match ty { Some(t) => quote!(((#start) as #t)), None => quote!(#start) };
                        let f: ExprForLoop = syn::parse2(quote!(for #id in #startx..#end { #(#st)* })).unwrap();
                        b.stmts[j] = Stmt::Expr(Expr::ForLoop(f), None);
                        b.stmts.remove(d);
                        self.notes.push("counted while => for".into());
                        continue;
                    }
                }
            }
            j += 1;
        }
    }
}

/// `return e` of an immediately called closure whose body is one loop => `{ __ret = Some(e); break; }`
struct ReturnsToBreak { ok: bool, depth: usize }
impl VisitMut for ReturnsToBreak {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => return,
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { self.depth += 1; visit_mut::visit_expr_mut(self, e); self.depth -= 1; return; }
            Expr::Break(_) if self.depth == 1 => { self.ok = false; return; }
            Expr::Try(_) => { self.ok = false; return; }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            if self.depth != 1 { self.ok = false; return; }
            let Some(x) = &r.expr else { self.ok = false; return; };
            *e = syn::parse2(quote!({ __ret = Some(#x); break; })).unwrap();
        }
    }
}

fn mentions(t: TokenStream, n: &str) -> usize {
    t.into_iter().map(|x| match x { TokenTree::Ident(i) => usize::from(i == n), TokenTree::Group(g) => mentions(g.stream(), n), _ => 0 }).sum()
}

/// the body of a loop that can be repeated as a plain block
fn repeatable(b: &Block) -> bool {
    let mut id = BTreeSet::new();
    idents(b.to_token_stream(), &mut id);
    !id.contains("break") && !id.contains("continue")
}

/// `let A = &[e0, .., en]; .. for P in A { B }`, A not used otherwise => the elements bound in order, B once per element;
/// `for P in [e0, .., en] { B }` likewise
fn literal_arrays(b: &mut Block, notes: &mut Vec<String>) {
    fn array(e: &Expr) -> Option<(&ExprArray, bool)> { match paren(e) {
        Expr::Array(a) if a.elems.len() <= 16 => Some((a, false)),
        Expr::Reference(r) if r.mutability.is_none() => array(&r.expr).map(|(a, _)| (a, true)),
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => array(&m.receiver).map(|(a, _)| (a, true)),
        Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => array(&m.receiver),
        _ => None,
    } }
    fn over<'x>(s: &'x Stmt, n: &str) -> Option<(&'x ExprForLoop, bool)> {
        let f = match s { Stmt::Expr(Expr::ForLoop(f), _) if f.label.is_none() => f, _ => return None };
        match paren(&f.expr) {
            Expr::Path(p) if p.path.is_ident(n) => Some((f, false)),
            Expr::Reference(r) if matches!(paren(&r.expr), Expr::Path(p) if p.path.is_ident(n)) => Some((f, true)),
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() && matches!(paren(&m.receiver), Expr::Path(p) if p.path.is_ident(n)) => Some((f, true)),
            _ => None,
        }
    }
    fn blocks(names: &[Ident], r: bool, f: &ExprForLoop) -> Vec<Stmt> {
        let (p, b) = (&f.pat, &f.body.stmts);
        names.iter().map(|n| { let x = if r { quote!(&#n) } else { quote!(#n) }; syn::parse2(quote!({ let #p = #x; #(#b)* })).map(|e: Expr| Stmt::Expr(e, Some(Default::default()))).unwrap() }).collect()
    }
    let mut i = 0;
    let mut uniq = 0;
    while i < b.stmts.len() {
        let mut done = None;
        if let Stmt::Expr(Expr::ForLoop(f), _) = &b.stmts[i] {
            if let (Some((a, r)), true, None) = (array(&f.expr), repeatable(&f.body), &f.label) {
                let names: Vec<Ident> = (0..a.elems.len()).map(|k| Ident::new(&format!("__e{}_{}", i + uniq, k), Span::call_site())).collect();
                let lets: Vec<Stmt> = names.iter().zip(&a.elems).map(|(n, e)| parse_quote!(let #n = #e;)).collect();
                done = Some((i, lets.into_iter().chain(blocks(&names, r, f)).collect::<Vec<_>>(), None));
            }
        } else if let Stmt::Local(l) = &b.stmts[i] {
            let (id, ty) = match &l.pat { Pat::Ident(p) if p.by_ref.is_none() && p.mutability.is_none() => (p.ident.to_string(), None), Pat::Type(t) => match &*t.pat { Pat::Ident(p) if p.mutability.is_none() => (p.ident.to_string(), Some(&t.ty)), _ => (String::new(), None) }, _ => (String::new(), None) };
            if let (false, Some(init)) = (id.is_empty(), &l.init) { if let (Some((a, r)), None) = (array(&init.expr), &init.diverge) {
                let uses: usize = b.stmts[i + 1..].iter().map(|s| mentions(s.to_token_stream(), &id)).sum();
                let at = b.stmts[i + 1..].iter().position(|s| over(s, &id).is_some()).map(|k| k + i + 1);
                if let (1, Some(j)) = (uses, at) {
                    let (f, r2) = over(&b.stmts[j], &id).unwrap();
                    if repeatable(&f.body) {
                        let el: Option<Type> = ty.and_then(|t| { let t = match &**t { Type::Reference(r) => &*r.elem, t => t }; match t { Type::Slice(s) => Some((*s.elem).clone()), Type::Array(s) => Some((*s.elem).clone()), _ => None } });
                        let names: Vec<Ident> = (0..a.elems.len()).map(|k| Ident::new(&format!("__e{}_{}", i + uniq, k), Span::call_site())).collect();
                        let lets: Vec<Stmt> = names.iter().zip(&a.elems).map(|(n, e)| match &el { Some(t) => parse_quote!(let #n: #t = #e;), None => parse_quote!(let #n = #e;) }).collect();
                        done = Some((i, lets, Some((j, blocks(&names, r || r2, f)))));
                    }
                }
            } }
        }
        if let Some((i0, first, second)) = done {
            notes.push("for over the elements of an array literal => one block per element".into());
            uniq += 100;
            if let Some((j, st)) = second { b.stmts.splice(j..=j, st); }
            b.stmts.splice(i0..=i0, first);
        }
        i += 1;
    }
}

/// `break e` of a loop with a value => `{ __ret = Some(e); break; }`
struct BreaksToRet { ok: bool, depth: usize, n: usize }
impl VisitMut for BreaksToRet {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => return,
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { self.depth += 1; visit_mut::visit_expr_mut(self, e); self.depth -= 1; return; }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Break(b) = e {
            if b.label.is_some() { self.ok = false; return; }
            if self.depth > 0 { return; }
            let Some(x) = &b.expr else { self.ok = false; return; };
            self.n += 1;
            *e = syn::parse2(quote!({ __ret = Some(#x); break; })).unwrap();
        }
    }
}
struct RenameTo<'a> { from: &'a str, to: &'a Ident }
impl VisitMut for RenameTo<'_> {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if *i == self.from { *i = self.to.clone(); } }
}

/// the loop whose value a block is, with the names that only stand for another one resolved
fn loop_value(e: &Expr, ty: Option<Type>) -> Option<(ExprLoop, Option<Type>)> {
    match paren(e) {
        Expr::Loop(l) if l.label.is_none() => Some((l.clone(), ty)),
        Expr::Block(b) if b.label.is_none() => {
            let (last, init) = b.block.stmts.split_last()?;
            let Stmt::Expr(x, None) = last else { return None; };
            if let (Expr::Path(p), [Stmt::Local(l)]) = (x, init) {
                if p.path.is_ident("__inl") { if let (Pat::Type(t), Some(i)) = (&l.pat, &l.init) { return loop_value(&i.expr, Some((*t.ty).clone())); } }
            }
            let mut r = loop_value(x, ty)?;
            for s in init.iter().rev() {
                let Stmt::Local(l) = s else { return None; };
                let id = match &l.pat { Pat::Ident(p) if p.mutability.is_none() && p.by_ref.is_none() => &p.ident, Pat::Type(t) => match &*t.pat { Pat::Ident(p) if p.mutability.is_none() => &p.ident, _ => return None }, _ => return None };
                let i = l.init.as_ref()?;
                let Expr::Path(src) = paren(&i.expr) else { return None; };
                let src = src.path.get_ident()?;
                if src == id { continue; }
                if mentions(r.0.to_token_stream(), &src.to_string()) > 0 { return None; }
                let n = id.to_string();
                RenameTo { from: &n, to: src }.visit_block_mut(&mut r.0.body);
            }
            Some(r)
        }
        _ => None,
    }
}

fn called_closures(b: &mut Block, notes: &mut Vec<String>) {
    let mut out = Vec::new();
    for s in b.stmts.drain(..) {
        if let Stmt::Local(l) = &s {
            if let Some(i) = &l.init { if i.diverge.is_none() { if let Some((lp, ty)) = loop_value(&i.expr, match &l.pat { Pat::Type(t) => Some((*t.ty).clone()), _ => None }) {
                let mut lp = lp;
                let mut v = BreaksToRet { ok: true, depth: 0, n: 0 };
                v.visit_block_mut(&mut lp.body);
                if v.ok && v.n > 0 {
                    let pat = &l.pat;
                    let t = match ty { Some(t) => quote!(Option<#t>), None => quote!(Option<_>) };
                    let n: Block = syn::parse2(quote!({ let mut __ret: #t = None; #lp let #pat = __ret.unwrap(); })).unwrap();
                    notes.push("loop with a value => its breaks set it".into());
                    out.extend(n.stmts);
                    continue;
                }
            } } }
            if let Some(i) = &l.init { if let (None, Expr::Call(c)) = (&i.diverge, paren(&i.expr)) {
                if let (Expr::Closure(cl), true) = (paren(&c.func), c.args.is_empty()) {
                    if let (ReturnType::Type(_, t), Expr::Block(cb)) = (&cl.output, &*cl.body) {
                        let mut body = cb.block.clone();
                        let mut r = ReturnsToBreak { ok: true, depth: 0 };
                        r.visit_block_mut(&mut body);
                        if r.ok && body.stmts.len() == 1 && matches!(&body.stmts[0], Stmt::Expr(Expr::Loop(_), _)) {
                            let (st, pat) = (&body.stmts[0], &l.pat);
                            let n: Block = syn::parse2(quote!({ let mut __ret: Option<#t> = None; #st let #pat = __ret.unwrap(); })).unwrap();
                            notes.push("immediately called closure => its loop".into());
                            out.extend(n.stmts);
                            continue;
                        }
                    }
                }
            } }
        }
        out.push(s);
    }
    b.stmts = out;
}

impl VisitMut for Normalizer {
    fn visit_block_mut(&mut self, b: &mut Block) {
        called_closures(b, &mut self.notes);
        literal_arrays(b, &mut self.notes);
        self.normalize_block(b);
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            if let Some((s, n)) = self.stream(&f.expr) {
                let l = self.stream_loop(&s, &n, &f.pat, &f.body, &f.label);
                *e = syn::parse2(l).unwrap();
            }
        }
        if let Expr::ForLoop(f) = e {
            if f.label.is_none() {
                if let Some(c) = chain_or_ref(&f.expr) {
                    if !matches!(paren(&f.expr), Expr::Range(_)) {
                        let (p, b) = ((*f.pat).clone(), f.body.clone());
                        self.notes.push("for over slice iterator => for over indices".into());
                        *e = self.for_from(&c, &p, &b);
                    }
                }
            }
        }
        // STREAM.collect::<Result<Vec<_>>>()? => { let mut V = Vec::new(); while let Some(x) = STREAM.next() { V.push(x?); } V }
        if let Expr::Try(t) = &*e {
            if let Some((s, n)) = self.collected_stream(&t.expr) {
                let v = self.let_name.take().unwrap_or_else(|| Ident::new("collected", Span::call_site()));
                let l = self.stream_loop(&s, &n, &parse_quote!(__x), &parse_quote!({ #v.push(__x?); }), &None);
                *e = syn::parse2(quote!({ let mut #v = Vec::new(); #l #v })).unwrap();
            }
        }
        // CHAIN.collect::<Result<Vec<_>>>()? => { let mut V = Vec::new(); for k in 0..len { V.push(elem?); } V }; same for a plain Vec
        let let_name = self.let_name.take();
        let hit = match &*e {
            Expr::Try(t) => collected(&t.expr, true).map(|c| (c, true)),
            Expr::MethodCall(_) => collected(e, false).map(|c| (c, false)),
            _ => None,
        };
        if let Some((c, q)) = hit {
            let v = let_name.unwrap_or_else(|| Ident::new("collected", Span::call_site()));
            let k = self.fresh();
            let el = subst_k(c.elem.clone(), &quote!(#k));
            let len = &c.len;
            let el = if q { quote!((#el)?) } else { el };
            self.notes.push("collect => for over indices".into());
            *e = syn::parse2(quote!({ let mut #v = Vec::new(); for #k in 0..#len { #v.push(#el); } #v })).unwrap();
        }
        // CHAIN.fold(INIT, |A, P| BODY) => { let mut A = INIT; for k in 0..len { let P = elem; A = BODY; } A }
        if let Expr::MethodCall(m) = e {
            if m.method == "fold" && m.args.len() == 2 {
                if let (Some(c), Expr::Closure(cl)) = (chain_or_ref(&m.receiver), &m.args[1]) {
                    let strip = |p: &Pat| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    if cl.inputs.len() == 2 {
                        if let (Pat::Ident(acc), p) = (strip(&cl.inputs[0]), strip(&cl.inputs[1])) {
                            let mut id = BTreeSet::new();
                            idents(cl.body.to_token_stream(), &mut id);
                            let q = cl.body.to_token_stream().to_string().contains('?');
                            if !id.contains("return") && !q && !c.elem.to_string().contains("& mut") {
                                let ty = match &cl.inputs[0] { Pat::Type(t) => { let t = &t.ty; quote!(: #t) } _ => quote!() };
                                let (a, init, body) = (&acc.ident, &m.args[0], &cl.body);
                                let b: Block = syn::parse2(quote!({ #a = #body; })).unwrap();
                                let f = self.for_from(&c, &p, &b);
                                self.notes.push("fold => for over indices".into());
                                *e = syn::parse2(quote!({ let mut #a #ty = #init; #f #a })).unwrap();
                            }
                        }
                    }
                }
            }
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b) = (&l.pat, &l.expr, &w.body);
                self.notes.push("while let => loop { match .. }".into());
                let lab = &w.label;
                *e = syn::parse2(quote!(#lab loop { match #x { #p => #b, _ => { break; } } })).unwrap();
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        let p = match &l.pat { Pat::Type(t) => &t.pat, p => p };
        if let (Pat::Ident(i), Some(_)) = (p, &l.init) { self.let_name = Some(i.ident.clone()); }
        visit_mut::visit_local_mut(self, l);
        self.let_name = None;
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { visit_mut::visit_expr_closure_mut(self, c); }
}

/// `let &p = e` => `let p = *e`; a reference pattern inside another pattern => a binding and `let p = *binding`
#[derive(Default)]
pub struct Unref { n: usize }
impl Unref {
    /// replaces the reference patterns inside `p`; the bindings that then have to be made
    fn pat(&mut self, p: &mut Pat, out: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) if r.mutability.is_none() && matches!(&*r.pat, Pat::Ident(_)) => {
                let id = Ident::new(&format!("__r{}", self.n), Span::call_site());
                self.n += 1;
                let i = (*r.pat).clone();
                out.push(parse_quote!(let #i = *#id;));
                *p = parse_quote!(#id);
            }
            Pat::Tuple(t) => for q in t.elems.iter_mut() { self.pat(q, out); },
            Pat::TupleStruct(t) => for q in t.elems.iter_mut() { self.pat(q, out); },
            Pat::Struct(t) => for f in t.fields.iter_mut() { if f.colon_token.is_some() { self.pat(&mut f.pat, out); } },
            Pat::Paren(t) => self.pat(&mut t.pat, out),
            _ => {}
        }
    }
}
impl VisitMut for Unref {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for mut s in b.stmts.drain(..) {
            let mut add = Vec::new();
            if let Stmt::Local(l) = &mut s {
                if let (Pat::Reference(r), Some(i)) = (&l.pat, &mut l.init) {
                    if r.mutability.is_none() && i.diverge.is_none() {
                        let e = match paren(&i.expr) { Expr::Reference(x) if x.mutability.is_none() => (*x.expr).clone(), x => parse_quote!(*#x) };
                        *i.expr = e;
                        let p = (*r.pat).clone();
                        l.pat = p;
                    }
                } else { self.pat(&mut l.pat, &mut add); }
            }
            out.push(s);
            out.extend(add);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if a.guard.is_none() {
            let mut add = Vec::new();
            self.pat(&mut a.pat, &mut add);
            if !add.is_empty() { let b = &a.body; *a.body = parse_quote!({ #(#add)* #b }); }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        if let Expr::Let(l) = &mut *i.cond {
            let mut add = Vec::new();
            self.pat(&mut l.pat, &mut add);
            i.then_branch.stmts.splice(0..0, add);
        }
        visit_mut::visit_expr_if_mut(self, i);
    }
}

/// Kinds of the loops of a body in source order.
pub struct LoopKinds(pub Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for LoopKinds {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::ForLoop(_) => self.0.push("for".into()),
            Expr::While(_) => self.0.push("while".into()),
            Expr::Loop(_) => self.0.push("loop".into()),
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

/// Attach loop clauses (pre-order numbering). Runs last: produces verbatim tokens.
pub struct Attacher<'a> { pub clauses: &'a dyn Fn(usize) -> Option<TokenStream>, pub n: usize }
impl<'a> VisitMut for Attacher<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is_loop = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
        let my = self.n;
        if is_loop { self.n += 1; }
        visit_mut::visit_expr_mut(self, e);
        if !is_loop { return; }
        let cl = (self.clauses)(my);
        let it = Ident::new(&format!("__it{}", my), Span::call_site());
        let new = match e {
            Expr::ForLoop(f) => {
                let (p, x, b) = (&f.pat, &f.expr, &f.body);
                match cl { Some(c) => Some(quote!(for #p in #it: #x #c #b)), None => None }
            }
            Expr::While(w) => { let (c0, b) = (&w.cond, &w.body); cl.map(|c| quote!(while #c0 #c #b)) }
            Expr::Loop(l) => { let b = &l.body; cl.map(|c| quote!(loop #c #b)) }
            _ => None,
        };
        if let Some(n) = new { *e = verb(n); }
    }
}
