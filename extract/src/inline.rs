//! Inlining of functions that carry no contract (helpers introduced by a refactoring).
use crate::util::canon;
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper { pub key: String, pub sig: Signature, pub block: Block, pub self_ty: Option<String> }

pub struct Inliner<'a> {
    pub helpers: &'a BTreeMap<String, Helper>, // by last name
    pub self_ty: Option<String>,
    pub notes: Vec<String>,
    pub inlined: Vec<String>,
    pub depth: usize,
    pub tail: Option<String>, // return type of the function, while a call in tail position is expanded
}

fn paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => paren(&p.expr), Expr::Group(g) => paren(&g.expr), _ => e } }

/// How the body of a helper leaves it.
#[derive(Default)]
struct Exits { question: usize, ret_err: usize, ret_other: usize }
impl<'ast> syn::visit::Visit<'ast> for Exits {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Try(_) => self.question += 1,
            Expr::Return(r) => match r.expr.as_deref().map(paren) {
                Some(Expr::Call(c)) if canon(&c.func.to_token_stream()) == "Err" => self.ret_err += 1,
                _ => self.ret_other += 1,
            },
            Expr::Closure(_) => return,
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

/// `return X` of a loop in tail position => `break X`
struct LoopValue { ok: bool, depth: usize, n: usize }
impl VisitMut for LoopValue {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => return,
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { self.depth += 1; syn::visit_mut::visit_expr_mut(self, e); self.depth -= 1; return; }
            Expr::Break(b) if self.depth == 0 || b.label.is_some() => { self.ok = false; return; }
            _ => {}
        }
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            match (&r.expr, self.depth) { (Some(x), 0) => { let x = x.clone(); self.n += 1; *e = parse_quote!(break #x); } _ => self.ok = false }
        }
    }
}

/// `if C { ..; return X; } REST` in tail position => `if C { ..; X } else { REST }`
fn structured(b: &Block) -> Block {
    fn returns(s: Option<&Stmt>) -> Option<Option<Expr>> { match s { Some(Stmt::Expr(Expr::Return(r), _)) => Some(r.expr.as_deref().cloned()), _ => None } }
    fn unreturn(b: &Block) -> Option<Block> {
        let x = returns(b.stmts.last())?;
        let mut n = b.clone();
        n.stmts.pop();
        if let Some(x) = x { n.stmts.push(Stmt::Expr(x, None)); }
        Some(n)
    }
    fn tail(e: &Expr) -> Expr {
        match e {
            Expr::If(i) => { let mut i = i.clone(); i.then_branch = structured(&i.then_branch); if let Some((_, x)) = &mut i.else_branch { **x = tail(x); } Expr::If(i) }
            Expr::Match(m) => { let mut m = m.clone(); for a in m.arms.iter_mut() { *a.body = tail(&a.body); } Expr::Match(m) }
            Expr::Block(b) => { let mut b = b.clone(); b.block = structured(&b.block); Expr::Block(b) }
            Expr::Return(r) => match &r.expr { Some(x) => tail(x), None => parse_quote!(()) },
            // a loop that is left by returning only: its value is what it returns
            Expr::Loop(l) if l.label.is_none() => {
                let mut n = l.clone();
                let mut v = LoopValue { ok: true, depth: 0, n: 0 };
                v.visit_block_mut(&mut n.body);
                if v.ok && v.n > 0 { Expr::Loop(n) } else { e.clone() }
            }
            e => e.clone(),
        }
    }
    for (i, s) in b.stmts.iter().enumerate() {
        if let Stmt::Expr(Expr::If(f), _) = s {
            if f.else_branch.is_none() && i + 1 < b.stmts.len() {
                if let Some(t) = unreturn(&f.then_branch) {
                    let rest = structured(&Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() });
                    let (c, t) = (&f.cond, structured(&t));
                    let mut n = Block { brace_token: b.brace_token, stmts: b.stmts[..i].to_vec() };
                    n.stmts.push(Stmt::Expr(parse_quote!(if #c #t else #rest), None));
                    return n;
                }
            }
        }
    }
    let mut n = b.clone();
    match n.stmts.last_mut() {
        Some(Stmt::Expr(Expr::Return(r), semi)) if r.expr.is_some() => { let x = tail(r.expr.as_ref().unwrap()); *semi = None; *n.stmts.last_mut().unwrap() = Stmt::Expr(x, None); }
        Some(Stmt::Expr(e, None)) => { *e = tail(e); }
        _ => {}
    }
    n
}

/// the arguments of a macro call are tokens
fn subst_tokens(t: proc_macro2::TokenStream, map: &BTreeMap<String, Expr>) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree;
    let mut out = proc_macro2::TokenStream::new();
    let mut dot = false;
    for x in t {
        match &x {
            TokenTree::Ident(i) if !dot && map.contains_key(&i.to_string()) => { let r = &map[&i.to_string()]; out.extend(quote!(#r)); }
            TokenTree::Group(g) => { let n = proc_macro2::Group::new(g.delimiter(), subst_tokens(g.stream(), map)); out.extend([TokenTree::Group(n)]); }
            _ => out.extend([x.clone()]),
        }
        dot = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.');
    }
    out
}

struct Subst<'a> { map: &'a BTreeMap<String, Expr> }
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(r) = self.map.get(&i.to_string()) { *e = r.clone(); return; }
            }
        }
        // &mut *x / &*x / reborrow of a substituted `&mut y` argument keeps its meaning
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = subst_tokens(m.tokens.clone(), self.map);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        // shorthand `S { x }` must become `S { x: arg }`
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_value_mut(self, f);
    }
}

fn simple_arg(e: &Expr) -> bool {
    match paren(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple_arg(&f.base),
        Expr::Reference(r) => simple_arg(&r.expr),
        Expr::Index(i) => simple_arg(&i.expr) && crate::loops::pure(&i.index),
        _ => false,
    }
}

fn locals_of(b: &Block) -> Vec<String> {
    struct L(Vec<String>);
    impl<'ast> syn::visit::Visit<'ast> for L {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.0.push(p.ident.to_string()); syn::visit::visit_pat_ident(self, p); }
    }
    let mut l = L(vec![]);
    syn::visit::Visit::visit_block(&mut l, b);
    l.0
}

impl<'a> Inliner<'a> {
    fn expand(&mut self, h: &Helper, args: Vec<Expr>, in_try: bool) -> Option<Expr> {
        let mut ex = Exits::default();
        syn::visit::Visit::visit_block(&mut ex, &h.block);
        let mut hs = h.clone();
        if self.tail.is_none() && (ex.ret_other > 0 || (!in_try && ex.ret_err > 0)) {
            hs.block = structured(&h.block);
            ex = Exits::default();
            syn::visit::Visit::visit_block(&mut ex, &hs.block);
        }
        let h = &hs;
        let tail = self.tail.take();
        let is_tail = tail.is_some();
        if let Some(rt) = tail {
            // the call is the value of the function: every exit of the helper is an exit of the function
            let hr = match &h.sig.output { ReturnType::Type(_, t) => canon(&t.to_token_stream()), _ => String::new() };
            if hr != rt && (ex.ret_other > 0 || ex.question > 0 || ex.ret_err > 0) { return None; }
        } else {
            if ex.ret_other > 0 { return None; }
            if !in_try && (ex.question > 0 || ex.ret_err > 0) { return None; }
        }
        let mut params = Vec::new();
        for p in &h.sig.inputs {
            match p {
                FnArg::Receiver(r) => params.push(("self".to_string(), r.mutability.is_some() && r.reference.is_none(), (*r.ty).clone())),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) => params.push((i.ident.to_string(), i.mutability.is_some(), (*t.ty).clone())),
                    Pat::Wild(_) => params.push(("_".to_string(), false, (*t.ty).clone())),
                    _ => return None,
                },
            }
        }
        if params.len() != args.len() { return None; }
        let mut map = BTreeMap::new();
        let mut lets = Vec::new();
        let mut arg_ids = std::collections::BTreeSet::new();
        let generic = !h.sig.generics.params.is_empty();
        for ((name, is_mut, ty), a) in params.iter().zip(args.iter()) {
            crate::util::idents(a.to_token_stream(), &mut arg_ids);
            let by_ref = matches!(ty, Type::Reference(_));
            if name == "_" { continue; }
            if name == "self" || (simple_arg(a) && !*is_mut && (by_ref || matches!(paren(a), Expr::Lit(_)) )) {
                map.insert(name.clone(), if matches!(paren(a), Expr::Path(_)) { a.clone() } else { let a = paren(a); parse_quote!((#a)) });
            } else {
                let id = Ident::new(name, proc_macro2::Span::call_site());
                let m = if *is_mut { quote!(mut) } else { quote!() };
                lets.push(if generic || canon(&ty.to_token_stream()).contains("impl ") { quote!(let #m #id = #a;) } else { quote!(let #m #id: #ty = #a;) });
            }
        }
        // capture check: locals of the helper must not clash with identifiers of substituted arguments
        let loc = locals_of(&h.block);
        if loc.iter().any(|l| map.values().any(|v| { let mut s = Default::default(); crate::util::idents(v.to_token_stream(), &mut s); let s: std::collections::BTreeSet<String> = s; s.contains(l) })) { return None; }
        // let-bound parameters are evaluated in order before the body; they must not shadow each other's arguments
        if lets.len() > 1 { for (n, _, _) in params.iter() { if !map.contains_key(n) && args.iter().any(|a| !matches!(paren(a), Expr::Path(p) if p.path.is_ident(n)) && { let mut s = Default::default(); crate::util::idents(a.to_token_stream(), &mut s); let s: std::collections::BTreeSet<String> = s; s.contains(n) }) { return None; } } }
        let mut b = h.block.clone();
        Subst { map: &map }.visit_block_mut(&mut b);
        let st = &b.stmts;
        self.inlined.push(h.key.clone());
        self.notes.push(format!("call of uncontracted helper {} inlined", h.key));
        let ret = match &h.sig.output { ReturnType::Type(_, t) if !generic && !canon(&t.to_token_stream()).contains('\'') && !canon(&t.to_token_stream()).starts_with('&') => Some((**t).clone()), _ => None };
        let mut e: Expr = syn::parse2(quote!({ #(#lets)* #(#st)* })).ok()?;
        if is_tail {
        } else if let (Some(t), false) = (ret, in_try) {
            if canon(&t.to_token_stream()) != "Self" {
                e = syn::parse2(quote!({ let __inl: #t = #e; __inl })).ok()?;
            }
        } else if in_try {
            if let ReturnType::Type(_, t) = &h.sig.output { if !generic { let t = t.clone();
                e = syn::parse2(quote!({ let __inl: #t = #e; __inl })).ok()?; } }
        }
        Some(e)
    }

    fn try_call(&mut self, e: &Expr, in_try: bool) -> Option<Expr> {
        if self.depth > 8 { return None; }
        match paren(e) {
            Expr::Call(c) => {
                if let Expr::Path(p) = paren(&c.func) {
                    let last = p.path.segments.last()?.ident.to_string();
                    let h = self.helpers.get(&last)?.clone();
                    // `u64::from` is not a helper called `from`
                    let n = p.path.segments.len();
                    let owner = if n >= 2 { Some(p.path.segments[n - 2].ident.to_string()) } else { None };
                    let fits = match (&h.self_ty, &owner) {
                        (Some(t), Some(o)) => o == t || o == "Self",
                        (Some(_), None) => false,
                        (None, Some(o)) => o.starts_with(|c: char| c.is_lowercase()),
                        (None, None) => true,
                    };
                    if !fits { return None; }
                    return self.expand(&h, c.args.iter().cloned().collect(), in_try);
                }
                None
            }
            Expr::MethodCall(m) => {
                let h = self.helpers.get(&m.method.to_string())?.clone();
                if !matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))) { return None; }
                if !simple_arg(&m.receiver) { return None; }
                const STD: &[&str] = &["len", "is_empty", "push", "pop", "next", "peek", "get", "insert", "remove", "iter", "clone", "extend", "take", "map", "into", "unwrap", "to_vec", "concat", "lock", "read", "write", "send", "recv", "contains", "first", "last", "min", "max", "as_ref", "as_mut", "by_ref", "resize", "append", "clear", "split_at", "copy_from_slice"];
                if STD.contains(&m.method.to_string().as_str()) && !matches!(paren(&m.receiver), Expr::Path(p) if p.path.is_ident("self")) { return None; }
                let mut a = vec![(*m.receiver).clone()];
                a.extend(m.args.iter().cloned());
                self.expand(&h, a, in_try)
            }
            _ => None,
        }
    }
}

impl<'a> Inliner<'a> {
    /// Calls whose value is the value of the function (return type `rt`): tail expressions and `return` operands.
    pub fn tails(&mut self, b: &mut Block, rt: &str) {
        struct R<'b, 'a>(&'b mut Inliner<'a>, &'b str);
        impl<'b, 'a> VisitMut for R<'b, 'a> {
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
                if let Some(e) = &mut r.expr { self.0.tail_expr(e, self.1); }
                visit_mut::visit_expr_return_mut(self, r);
            }
        }
        R(self, rt).visit_block_mut(b);
        self.tail_block(b, rt);
    }
    fn tail_block(&mut self, b: &mut Block, rt: &str) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { self.tail_expr(e, rt); }
    }
    fn tail_expr(&mut self, e: &mut Expr, rt: &str) {
        if let Some(n) = mapped_tail(e, rt) { self.notes.push("X.map(F) as the value of the function => Ok(F(X?))".into()); *e = n; return; }
        match e {
            Expr::Call(_) | Expr::MethodCall(_) => {
                self.tail = Some(rt.to_string());
                let r = self.try_call(e, false);
                self.tail = None;
                if let Some(mut n) = r {
                    self.depth += 1;
                    self.tail_expr(&mut n, rt);
                    self.depth -= 1;
                    *e = n;
                }
            }
            Expr::Block(b) => self.tail_block(&mut b.block, rt),
            Expr::Paren(p) => self.tail_expr(&mut p.expr, rt),
            Expr::If(i) => { self.tail_block(&mut i.then_branch, rt); if let Some((_, e)) = &mut i.else_branch { self.tail_expr(e, rt); } }
            Expr::Match(m) => for a in m.arms.iter_mut() { self.tail_expr(&mut a.body, rt); },
            _ => {}
        }
    }
}

fn quits(b: &Expr) -> bool {
    let mut ex = Exits::default();
    syn::visit::Visit::visit_expr(&mut ex, b);
    ex.ret_other + ex.ret_err + ex.question > 0
}

/// `F` of `X.map(F)` applied to the expression `x`: a constructor or function path, or a closure of one parameter.
fn applied(f: &Expr, x: &Expr) -> Option<Expr> {
    match paren(f) {
        Expr::Path(p) => Some(parse_quote!(#p(#x))),
        Expr::Closure(c) if c.inputs.len() == 1 && !quits(&c.body) => { let (p, b) = (&c.inputs[0], &c.body); Some(parse_quote!({ let #p = #x; #b })) }
        _ => None,
    }
}

/// `X.map(F)` and `X.map(|p| BODY).transpose()` as the value of a function that returns a Result (an Option): an early exit
/// of the function is then an exit of the expression.
fn mapped_tail(e: &Expr, rt: &str) -> Option<Expr> {
    let rt: String = rt.chars().filter(|c| !c.is_whitespace()).collect();
    let res = rt.starts_with("error::Result<") || rt.starts_with("Result<");
    let m = match paren(e) { Expr::MethodCall(m) => m, _ => return None };
    if m.method == "map" && m.args.len() == 1 && (res || rt.starts_with("Option<")) {
        let x = &m.receiver;
        // iterators are mapped too, but are not the value of such a function
        let r = applied(&m.args[0], &parse_quote!(#x?))?;
        return Some(if res { parse_quote!(Ok(#r)) } else { parse_quote!(Some(#r)) });
    }
    if m.method == "and_then" && m.args.len() == 1 && (res || rt.starts_with("Option<")) {
        let x = &m.receiver;
        return match paren(&m.args[0]) {
            Expr::Path(p) => Some(parse_quote!(#p(#x?))),
            // what leaves the closure leaves the function
            Expr::Closure(c) if c.inputs.len() == 1 => { let (p, b) = (&c.inputs[0], &c.body); Some(parse_quote!({ let #p = #x?; #b })) }
            _ => None,
        };
    }
    if m.method == "transpose" && m.args.is_empty() && res {
        let mm = match paren(&m.receiver) { Expr::MethodCall(mm) if mm.method == "map" && mm.args.len() == 1 => mm, _ => return None };
        let c = match paren(&mm.args[0]) { Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return None };
        let mut ex = Exits::default();
        syn::visit::Visit::visit_expr(&mut ex, &c.body);
        if ex.ret_other > 0 { return None; }
        let (x, p) = (&mm.receiver, &c.inputs[0]);
        let mut body: Block = match &*c.body { Expr::Block(b) => b.block.clone(), b => parse_quote!({ #b }) };
        if let Some(Stmt::Expr(l, None)) = body.stmts.last_mut() {
            let n: Expr = match paren(l) {
                Expr::Call(k) if canon(&k.func.to_token_stream()) == "Ok" && k.args.len() == 1 => k.args[0].clone(),
                l => parse_quote!(#l?),
            };
            *l = n;
        } else { return None; }
        return Some(parse_quote!(match #x { Some(#p) => Ok(Some(#body)), None => Ok(None) }));
    }
    None
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // X.map(|p| B).ok_or(E) => match X { Some(p) => Ok(B), None => Err(E) }
        if let Expr::MethodCall(m) = &*e {
            if m.method == "ok_or" && m.args.len() == 1 && (crate::loops::pure(&m.args[0]) || canon(&m.args[0].to_token_stream()).starts_with("Error")) && !quits(&m.args[0]) {
                if let Expr::MethodCall(mm) = paren(&m.receiver) { if mm.method == "map" && mm.args.len() == 1 {
                    if let Expr::Closure(c) = paren(&mm.args[0]) { if c.inputs.len() == 1 && !quits(&c.body) {
                        let (x, p, b, d) = (&mm.receiver, &c.inputs[0], &c.body, &m.args[0]);
                        *e = parse_quote!(match #x { Some(#p) => Ok(#b), None => Err(#d) });
                        self.notes.push("X.map(|p| B).ok_or(E) => match".into());
                    } }
                } }
            }
        }
        // X.as_deref() of an optional sequence => match
        if let Expr::MethodCall(m) = &*e {
            if m.method == "as_deref" && m.args.is_empty() && matches!(paren(&m.receiver), Expr::Path(_) | Expr::Field(_)) {
                let x = &m.receiver;
                let n: Expr = parse_quote!(match &#x { Some(__d) => Some(&__d[..]), None => None });
                self.notes.push("X.as_deref() => match".into());
                *e = n;
            }
        }
        // X.unwrap_or_else(|e| B) => match X { Ok(v) => v, Err(e) => B }; without a parameter X is an Option
        if let Expr::MethodCall(m) = &*e {
            if m.method == "unwrap_or_else" && m.args.len() == 1 {
                if let Expr::Closure(c) = paren(&m.args[0]) { if c.inputs.len() <= 1 && !quits(&c.body) {
                    let (x, b) = (&m.receiver, &c.body);
                    // a closure that only prints is an empty one
                    let b: Expr = match &**b { Expr::Macro(k) if canon(&k.mac.path.to_token_stream()).ends_with("print") || canon(&k.mac.path.to_token_stream()).ends_with("println") => parse_quote!({ #b; }), b => b.clone() };
                    *e = match c.inputs.first() { Some(p) => parse_quote!(match #x { Ok(__v) => __v, Err(#p) => #b }), None => parse_quote!(match #x { Some(__v) => __v, None => #b }) };
                    self.notes.push("X.unwrap_or_else(F) => match".into());
                } }
            }
        }
        // X.map_or(D, |p| B) => match X { Some(p) => B, None => D }
        if let Expr::MethodCall(m) = &*e {
            if m.method == "map_or" && m.args.len() == 2 && crate::loops::pure(&m.args[0]) {
                let (x, d) = (&m.receiver, &m.args[0]);
                if let Expr::Closure(c) = paren(&m.args[1]) { if c.inputs.len() == 1 && !quits(&c.body) {
                    let (p, b) = (&c.inputs[0], &c.body);
                    *e = parse_quote!(match #x { Some(#p) => #b, None => #d });
                    self.notes.push("X.map_or(D, |p| B) => match".into());
                } }
            }
        }
        // X.map(F)? => F(X?)
        if let Expr::Try(t) = &*e {
            if let Expr::MethodCall(m) = paren(&t.expr) {
                if m.method == "map" && m.args.len() == 1 {
                    let x = &m.receiver;
                    if let Some(n) = applied(&m.args[0], &parse_quote!(#x?)) { *e = n; self.notes.push("X.map(F)? => F(X?)".into()); }
                }
            }
        }
        let rep = match e {
            Expr::Try(t) => self.try_call(&t.expr, true).map(|x| -> Expr { parse_quote!(#x?) }),
            Expr::Call(_) | Expr::MethodCall(_) => self.try_call(e, false),
            _ => None,
        };
        if let Some(mut n) = rep {
            self.depth += 1;
            self.visit_expr_mut(&mut n);
            self.depth -= 1;
            *e = n;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
