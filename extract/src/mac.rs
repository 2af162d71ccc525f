//! Expansion of the crate's own `macro_rules!` macros before extraction (item, impl-item, statement and
//! expression position). `stringify!`/`concat!` of literals are folded. Hygiene: names a macro binds are
//! used as written; an expansion in expression position is a block.
use crate::util::canon;
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree as TT};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::parse::{ParseStream, Parser};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Rule { pat: Vec<TT>, body: TokenStream }
#[derive(Default, Clone)]
pub struct Macros { m: BTreeMap<String, Vec<Rule>> }
#[derive(Clone, Debug)]
enum B { One(TokenStream), Many(Vec<BTreeMap<String, B>>) }
type Env = BTreeMap<String, B>;

fn is_p(t: &TT, c: char) -> bool { matches!(t, TT::Punct(p) if p.as_char() == c) }
fn same(a: &TT, b: &TT) -> bool { match (a, b) {
    (TT::Ident(x), TT::Ident(y)) => x == y, (TT::Punct(x), TT::Punct(y)) => x.as_char() == y.as_char(),
    (TT::Literal(x), TT::Literal(y)) => x.to_string() == y.to_string(), _ => false } }

impl Macros {
    pub fn collect(&mut self, items: &[Item]) {
        for it in items { match it {
            Item::Macro(m) if m.mac.path.is_ident("macro_rules") => if let Some(n) = &m.ident { self.define(&n.to_string(), m.mac.tokens.clone()); },
            Item::Mod(m) => if let Some((_, its)) = &m.content { self.collect(its); },
            _ => {}
        } }
    }
    fn define(&mut self, name: &str, t: TokenStream) {
        let v: Vec<TT> = t.into_iter().collect();
        let mut rules = vec![];
        let mut i = 0;
        while i + 3 < v.len() {
            let (TT::Group(p), true, true, Some(TT::Group(b))) = (&v[i], is_p(&v[i + 1], '='), is_p(&v[i + 2], '>'), v.get(i + 3)) else { return };
            rules.push(Rule { pat: p.stream().into_iter().collect(), body: b.stream() });
            i += 4;
            if i < v.len() && is_p(&v[i], ';') { i += 1; }
        }
        self.m.insert(name.into(), rules);
    }
    fn expand_in_fn(&self, name: &str, input: TokenStream) -> Option<TokenStream> {
        if clash(self.m.get(name)?, &input) { return None; }
        self.expand(name, input)
    }
    fn expand(&self, name: &str, input: TokenStream) -> Option<TokenStream> {
        for r in self.m.get(name)? {
            let mut env = Env::new();
            if let Some(rest) = matches(&r.pat, input.clone(), &mut env) { if rest.is_empty() { return transcribe(&r.body.clone().into_iter().collect::<Vec<_>>(), &env); } }
        }
        None
    }
    pub fn apply(&self, items: Vec<Item>, depth: usize) -> Vec<Item> {
        let mut out = vec![];
        for mut it in items {
            if let Item::Macro(m) = &it {
                if m.mac.path.is_ident("macro_rules") { continue; }
                if let (Some(n), true) = (m.mac.path.get_ident(), depth < 8) {
                    if let Some(t) = self.expand(&n.to_string(), m.mac.tokens.clone()) { if let Ok(f) = parse2::<File>(t) { out.extend(self.apply(f.items, depth + 1)); continue; } }
                }
            }
            if let Item::Mod(m) = &mut it { if let Some((_, its)) = &mut m.content { *its = self.apply(std::mem::take(its), depth); } }
            if let Item::Impl(im) = &mut it {
                let mut v = vec![];
                for x in std::mem::take(&mut im.items) {
                    if let ImplItem::Macro(m) = &x { if let Some(n) = m.mac.path.get_ident() { if let Some(t) = self.expand(&n.to_string(), m.mac.tokens.clone()) {
                        if let Ok(f) = parse2::<ItemImpl>(quote!(impl X { #t })) { v.extend(f.items); continue; } } } }
                    v.push(x);
                }
                im.items = v;
            }
            let test = matches!(&it, Item::Mod(m) if m.attrs.iter().any(|a| canon(&a.meta.to_token_stream()).replace(' ', "") == "cfg(test)"));
            if !test && !self.m.is_empty() { Exprs { m: self, depth: 0, blocks: 0 }.visit_item_mut(&mut it); }
            out.push(it);
        }
        out
    }
}

fn prefix<T: syn::parse::Parse + ToTokens>(input: TokenStream) -> Option<(TokenStream, TokenStream)> {
    (|s: ParseStream| -> Result<(TokenStream, TokenStream)> { let t: T = s.parse()?; let r: TokenStream = s.parse()?; Ok((t.to_token_stream(), r)) }).parse2(input).ok()
}
fn fragment(kind: &str, input: TokenStream) -> Option<(TokenStream, TokenStream)> {
    match kind {
        "ident" => prefix::<Ident>(input), "ty" => prefix::<Type>(input), "path" => prefix::<Path>(input), "literal" => prefix::<Lit>(input),
        "lifetime" => prefix::<Lifetime>(input), "block" => prefix::<Block>(input), "vis" => prefix::<Visibility>(input),
        "expr" => prefix::<Expr>(input).map(|(e, r)| {
            let atom = parse2::<Expr>(e.clone()).map(|x| matches!(x, Expr::Lit(_) | Expr::Path(_) | Expr::Paren(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Index(_) | Expr::Array(_) | Expr::Tuple(_))).unwrap_or(false);
            (if atom { e } else { quote!((#e)) }, r) }),
        "pat" => (|s: ParseStream| -> Result<(TokenStream, TokenStream)> { let t = Pat::parse_multi(s)?; let r: TokenStream = s.parse()?; Ok((t.to_token_stream(), r)) }).parse2(input).ok(),
        "tt" => { let mut it = input.into_iter(); let t = it.next()?; Some((TokenStream::from(t), it.collect())) }
        _ => None,
    }
}
/// -> the unmatched rest of the input
fn matches(pat: &[TT], mut input: TokenStream, env: &mut Env) -> Option<TokenStream> {
    let mut i = 0;
    while i < pat.len() {
        if is_p(&pat[i], '$') {
            match pat.get(i + 1)? {
                TT::Ident(n) if pat.get(i + 2).map(|t| is_p(t, ':')).unwrap_or(false) => {
                    let TT::Ident(k) = pat.get(i + 3)? else { return None };
                    let (t, r) = fragment(&k.to_string(), input)?;
                    env.insert(n.to_string(), B::One(t));
                    input = r;
                    i += 4;
                }
                TT::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    let inner: Vec<TT> = g.stream().into_iter().collect();
                    let mut j = i + 2;
                    let op = |t: Option<&TT>| t.map(|t| is_p(t, '*') || is_p(t, '+') || is_p(t, '?')).unwrap_or(false);
                    let sep = if op(pat.get(j)) { None } else { let s = pat.get(j)?.clone(); j += 1; Some(s) };
                    if !op(pat.get(j)) { return None; }
                    let (once, plus) = (is_p(&pat[j], '?'), is_p(&pat[j], '+'));
                    let mut many = vec![];
                    loop {
                        if input.is_empty() { break; }
                        let mut cur = input.clone();
                        if let (Some(s), false) = (&sep, many.is_empty()) {
                            let mut it = cur.into_iter();
                            match it.next() { Some(t) if same(&t, s) => {} _ => break }
                            cur = it.collect();
                        }
                        let mut e = Env::new();
                        match matches(&inner, cur, &mut e) { Some(r) => { input = r; many.push(e); } None => break }
                        if once { break; }
                    }
                    if plus && many.is_empty() { return None; }
                    let mut names = vec![];
                    vars(&inner, &mut names);
                    for n in names { env.insert(n, B::Many(many.clone())); }
                    i = j + 1;
                }
                _ => return None,
            }
        } else {
            let mut it = input.into_iter();
            let t = it.next()?;
            match (&pat[i], &t) {
                (TT::Group(a), TT::Group(b)) if a.delimiter() == b.delimiter() => {
                    let p: Vec<TT> = a.stream().into_iter().collect();
                    if !matches(&p, b.stream(), env)?.is_empty() { return None; }
                }
                (a, b) if same(a, b) => {}
                _ => return None,
            }
            input = it.collect();
            i += 1;
        }
    }
    Some(input)
}
fn vars(p: &[TT], out: &mut Vec<String>) {
    for (i, t) in p.iter().enumerate() {
        if is_p(t, '$') { if let Some(TT::Ident(n)) = p.get(i + 1) { out.push(n.to_string()); } }
        if let TT::Group(g) = t { vars(&g.stream().into_iter().collect::<Vec<_>>(), out); }
    }
}
fn transcribe(b: &[TT], env: &Env) -> Option<TokenStream> {
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < b.len() {
        match (&b[i], b.get(i + 1)) {
            (d, Some(TT::Ident(n))) if is_p(d, '$') && n == "crate" => { out.extend(quote!(crate)); i += 2; }
            (d, Some(TT::Ident(n))) if is_p(d, '$') && env.contains_key(&n.to_string()) => {
                match &env[&n.to_string()] { B::One(t) => out.extend(t.clone()), B::Many(_) => return None }
                i += 2;
            }
            (d, Some(TT::Group(g))) if is_p(d, '$') && g.delimiter() == Delimiter::Parenthesis => {
                let inner: Vec<TT> = g.stream().into_iter().collect();
                let mut j = i + 2;
                let op = |t: Option<&TT>| t.map(|t| is_p(t, '*') || is_p(t, '+') || is_p(t, '?')).unwrap_or(false);
                let sep = if op(b.get(j)) { None } else { let s = b.get(j)?.clone(); j += 1; Some(s) };
                if !op(b.get(j)) { return None; }
                let mut names = vec![];
                vars(&inner, &mut names);
                let many = names.iter().find_map(|n| match env.get(n) { Some(B::Many(v)) => Some(v.clone()), _ => None })?;
                for (k, e) in many.iter().enumerate() {
                    if k > 0 { if let Some(s) = &sep { out.extend([s.clone()]); } }
                    let mut e2 = env.clone();
                    for n in &names { if let Some(B::Many(v)) = env.get(n) { if let Some(x) = v.get(k).and_then(|m| m.get(n)) { e2.insert(n.clone(), x.clone()); } } }
                    e2.extend(e.clone());
                    out.extend(transcribe(&inner, &e2)?);
                }
                i = j + 1;
            }
            (TT::Group(g), _) => {
                let mut n = Group::new(g.delimiter(), transcribe(&g.stream().into_iter().collect::<Vec<_>>(), env)?);
                n.set_span(Span::call_site());
                out.extend([TT::Group(n)]);
                i += 1;
            }
            (t, _) => { out.extend([t.clone()]); i += 1; }
        }
    }
    Some(out)
}

/// a name the macro body binds is not mentioned by its arguments (expansion does not rename)
fn clash(rules: &[Rule], args: &TokenStream) -> bool {
    fn bound(t: TokenStream, out: &mut std::collections::BTreeSet<String>) {
        let v: Vec<TT> = t.into_iter().collect();
        for i in 0..v.len() {
            if let TT::Group(g) = &v[i] { bound(g.stream(), out); }
            if let TT::Ident(n) = &v[i] {
                let prev = if i > 0 { v[i - 1].to_string() } else { String::new() };
                if prev == "let" || prev == "mut" || prev == "for" || prev == "|" || prev == "," || prev == "ref" || prev == "(" { out.insert(n.to_string()); }
                if n == "let" { if let Some(TT::Group(g)) = v.get(i + 1) { crate::util::idents(g.stream(), out); } }
            }
        }
    }
    let mut b = Default::default();
    for r in rules { bound(r.body.clone(), &mut b); }
    let mut a = Default::default();
    crate::util::idents(args.clone(), &mut a);
    let a: std::collections::BTreeSet<String> = a;
    b.intersection(&a).any(|x| x != "self")
}
struct Exprs<'a> { m: &'a Macros, depth: usize, blocks: usize }
impl<'a> VisitMut for Exprs<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { if let Some(n) = m.mac.path.get_ident() {
            if self.depth < 8 { if let Some(t) = self.m.expand_in_fn(&n.to_string(), m.mac.tokens.clone()) {
                let x = parse2::<Expr>(t.clone()).or_else(|_| parse2::<Expr>(quote!({ #t })));
                if let Ok(x) = x { *e = match x { Expr::Binary(_) | Expr::Unary(_) | Expr::Cast(_) | Expr::Range(_) => parse_quote!((#x)), x => x }; self.depth += 1; self.visit_expr_mut(e); self.depth -= 1; return; }
            } }
            if let Some(s) = literal(&m.mac) { let l = Literal::string(&s); *e = parse_quote!(#l); return; }
        } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Macro(m) = &s { if let Some(n) = m.mac.path.get_ident() { if let (Some(t), true) = (self.m.expand_in_fn(&n.to_string(), m.mac.tokens.clone()), self.depth < 8) {
                let semi = m.semi_token;
                if let Ok(x) = parse2::<Expr>(t.clone()) { out.push(Stmt::Expr(x, semi)); continue; }
                if let Ok(x) = parse2::<Block>(quote!({ #t })) { out.extend(x.stmts); continue; }
            } } }
            out.push(s);
        }
        b.stmts = out;
        self.blocks += 1;
        if self.blocks < 100 { visit_mut::visit_block_mut(self, b); }
        self.blocks -= 1;
    }
}
fn literal(m: &Macro) -> Option<String> {
    if m.path.is_ident("stringify") { return Some(m.tokens.to_string()); }
    if m.path.is_ident("concat") {
        let mut s = String::new();
        let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        for a in args { match a {
            Expr::Lit(l) => match l.lit { Lit::Str(x) => s.push_str(&x.value()), Lit::Int(x) => s.push_str(x.base10_digits()), _ => return None },
            Expr::Macro(x) => s.push_str(&literal(&x.mac)?),
            _ => return None } }
        return Some(s);
    }
    None
}
