use crate::contracts::{Contracts, FnContract};
use crate::inline::{Helper, Inliner};
use crate::loops::{Attacher, LoopKinds, Normalizer};
use crate::rewrite::Rewriter;
use crate::util::*;
use crate::Opts;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Shape { pub params: Vec<String>, pub locals: Vec<String>, pub muts: Vec<String>, pub loops: Vec<String>, pub sig: String, pub print: String }

pub struct Out { pub text: String, pub map_json: String, pub baseline_json: String }

/// baseline file: one line per function: key \t params \t locals \t loops \t sig \t fingerprint
pub fn read_baseline(f: &str) -> BTreeMap<String, Shape> {
    let mut m = BTreeMap::new();
    for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
        let c: Vec<&str> = l.split('\t').collect();
        if c.len() < 6 { continue; }
        let v = |s: &str| -> Vec<String> { s.split(',').filter(|x| !x.is_empty()).map(String::from).collect() };
        m.insert(c[0].to_string(), Shape { params: v(c[1]), locals: v(c[2]), loops: v(c[3]), sig: c[4].to_string(), print: c[5].to_string(), muts: c.get(6).map(|s| v(s)).unwrap_or_default() });
    }
    m
}

struct FnInfo { key: String, lines: (usize, usize), status: &'static str, shape: Shape, changed: bool, novel: Vec<String>, calls: BTreeSet<String>, notes: Vec<String>, props: Vec<String>, inlined: Vec<String>, sender: bool }

struct E<'a> {
    text: String,
    contracts: &'a Contracts,
    opts: &'a Opts,
    fns: Vec<FnInfo>,
    fn_ptrs: BTreeMap<String, String>,
    statics: Vec<String>,
    helpers: BTreeMap<String, Helper>,
    errors: Vec<String>,
    dropped: Vec<String>,
    locked: BTreeSet<String>,
    used: BTreeSet<String>,
}

struct Module { path: Vec<String>, items: Vec<Item> }

fn load_mod(dir: &std::path::Path, file: &std::path::Path, path: Vec<String>, contracts: &Contracts, out: &mut Vec<Module>) -> std::result::Result<(), String> {
    let src = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?;
    let f = syn::parse_file(&src).map_err(|e| format!("{}: {}", file.display(), e))?;
    let mut items = Vec::new();
    for it in f.items {
        if let Item::Mod(m) = &it {
            if is_test(&m.attrs) { continue; }
            let name = m.ident.to_string();
            let mut p = path.clone();
            p.push(name.clone());
            if contracts.drops.contains_key(&p.join("::")) { continue; }
            if m.content.is_none() {
                let a = dir.join(format!("{}.rs", name));
                let (nf, nd) = if a.exists() { (a, dir.join(&name)) } else { (dir.join(&name).join("mod.rs"), dir.join(&name)) };
                load_mod(&nd, &nf, p, contracts, out)?;
                continue;
            }
        }
        items.push(it);
    }
    out.push(Module { path, items });
    Ok(())
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let s = canon(&a.meta.to_token_stream()).replace(' ', ""); s == "cfg(test)" || s == "test" })
}

fn ty_name(t: &Type) -> String { canon(&t.to_token_stream()).replace(' ', "") }

fn impl_prefix(path: &str, im: &ItemImpl) -> String {
    match &im.trait_ {
        Some((_, t, _)) => format!("{}::<{}as{}>", path, ty_name(&im.self_ty), canon(&t.to_token_stream()).replace(' ', "")),
        None => format!("{}::{}", path, ty_name(&im.self_ty).split('<').next().unwrap()),
    }
}

fn dropped_trait(im: &ItemImpl) -> bool {
    im.trait_.as_ref().map(|(_, t, _)| matches!(t.segments.last().unwrap().ident.to_string().as_str(), "Debug" | "Display" | "Hash" | "PartialEq" | "Eq" | "Error")).unwrap_or(false)
}

struct Idents { v: Vec<String>, calls: BTreeSet<String>, callee: BTreeSet<String> }
impl<'ast> syn::visit::Visit<'ast> for Idents {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.v.push(format!("{}{}", if p.mutability.is_some() { "*" } else { "" }, p.ident)); syn::visit::visit_pat_ident(self, p); }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) { syn::visit::visit_expr(self, &c.body); }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) { self.calls.insert(m.method.to_string()); syn::visit::visit_expr_method_call(self, m); }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func { if let Some(i) = p.path.get_ident() { self.callee.insert(i.to_string()); } }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = s.len();
        self.calls.insert(if n >= 2 { format!("{}::{}", s[n - 2], s[n - 1]) } else { s[0].clone() });
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_expr_field(&mut self, f: &'ast ExprField) { if let Member::Named(i) = &f.member { self.calls.insert(format!(".{}", i)); } syn::visit::visit_expr_field(self, f); }
}

fn fingerprint(s: &str) -> String {
    // FNV-1a, only used to notice edits
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    format!("{:016x}", h)
}

struct PubAll;
impl VisitMut for PubAll {
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        s.vis = parse_quote!(pub);
        for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); f.attrs.clear(); crate::rewrite::Unshare.visit_type_mut(&mut f.ty); }
    }
    fn visit_item_enum_mut(&mut self, s: &mut ItemEnum) { s.vis = parse_quote!(pub); }
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    attrs.iter().filter(|a| a.path().is_ident("derive")).flat_map(|a| {
        let mut v = BTreeSet::new();
        idents(a.meta.to_token_stream(), &mut v);
        v.into_iter().collect::<Vec<_>>()
    }).collect()
}

fn has_unsafe(t: &TokenStream) -> bool { let mut s = BTreeSet::new(); idents(t.clone(), &mut s); s.contains("unsafe") }

impl<'a> E<'a> {
    fn line(&self) -> usize { self.text.matches('\n').count() + 1 }
    fn raw(&mut self, s: &str) { self.text.push_str(s); if !s.ends_with('\n') { self.text.push('\n'); } }

    fn rewriter(&self, self_int: Option<String>, sender: bool) -> (BTreeMap<String, String>, Vec<String>, Option<String>, bool) {
        (self.fn_ptrs.clone(), self.statics.clone(), self_int, sender)
    }

    fn rewrite_with<T>(&self, self_int: Option<String>, sender: bool, f: impl FnOnce(&mut Rewriter) -> T) -> (T, Vec<String>) {
        let (fp, st, si, se) = self.rewriter(self_int, sender);
        let mut r = Rewriter { self_int: si, fn_ptrs: &fp, statics: &st, sender: se, notes: vec![], alloc: "crate::vext::ALLOC_LIMIT as int".to_string(), todo: None };
        let x = f(&mut r);
        (x, r.notes)
    }

    fn module(&mut self, m: &Module) {
        let path = m.path.join("::");
        self.items(&path, &m.items);
    }

    fn items(&mut self, path: &str, items: &[Item]) {
        for it in items { self.item(path, it); }
    }

    fn item(&mut self, path: &str, it: &Item) {
        match it {
            Item::Use(u) => {
                let s = canon(&u.tree.to_token_stream()).replace(' ', "");
                let root = s.split("::").next().unwrap_or("");
                let vis = if matches!(u.vis, Visibility::Inherited) { quote!() } else { quote!(pub) };
                let t = &u.tree;
                match root {
                    "openssl" | "hkdf" | "sha2" => { self.raw(&pretty(quote!(#vis use crate::stubs::#t;))); }
                    "std" | "core" => {
                        if s.starts_with("std::net") || s.starts_with("std::sync") || s.starts_with("std::collections") || s == "std::io" {
                            let rest = canon(&t.to_token_stream());
                            let rest = rest.splitn(2, ":: ").nth(1).unwrap_or("").to_string();
                            self.raw(&format!("use crate::stubs::stdx::{};", rest));
                        } else { self.dropped.push(format!("use {} ({})", s, path)); }
                    }
                    "hex_literal" | "log" => {}
                    _ => self.raw(&pretty(quote!(#vis use #t;))),
                }
            }
            Item::Mod(m) => {
                if is_test(&m.attrs) { return; }
                if let Some((_, its)) = &m.content {
                    let name = m.ident.to_string();
                    let p = format!("{}::{}", path, name);
                    self.raw(&format!("pub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vext::*;\n#[allow(unused_imports)] use crate::vspec::*;\n#[allow(unused_imports)] use crate::vmodel::*;\n#[allow(unused_imports)] use crate::vpacket::*;\n#[allow(unused_imports)] use crate::stubs::*;\nbroadcast use {{crate::vext::axiom_vec_len, crate::vext::axiom_slice_len}};\n", name));
                    self.items(&p, its);
                    self.raw("}");
                }
            }
            Item::Struct(s) => self.strukt(path, s),
            Item::Enum(e) => {
                let d = derives(&e.attrs);
                let mut e = e.clone();
                e.attrs.clear();
                for v in e.variants.iter_mut() { v.attrs.clear(); }
                PubAll.visit_item_enum_mut(&mut e);
                let key = format!("{}::{}", path, e.ident);
                if d.contains(&"Debug".to_string()) && e.ident == "Error" { self.raw("#[derive(Debug)]"); }
                if d.contains(&"Copy".to_string()) { self.raw("#[derive(Clone, Copy)]"); }
                self.raw(&pretty(e.to_token_stream()));
                if d.contains(&"Clone".to_string()) && !d.contains(&"Copy".to_string()) { self.clone_impl(&key, &e.ident, &e.generics); }
            }
            Item::Type(t) => { let mut t = t.clone(); t.vis = parse_quote!(pub); t.attrs.clear(); self.raw(&pretty(t.to_token_stream())); }
            Item::Const(c) => {
                let mut c = c.clone();
                c.vis = parse_quote!(pub);
                c.attrs.clear();
                let (_, _) = self.rewrite_with(None, false, |r| r.visit_item_const_mut(&mut c));
                self.raw(&pretty(c.to_token_stream()));
            }
            Item::Static(s) => self.statik(path, s),
            Item::Trait(t) => {
                let mut t = t.clone();
                t.vis = parse_quote!(pub);
                let (_, _) = self.rewrite_with(None, false, |r| r.visit_item_trait_mut(&mut t));
                self.raw(&pretty(t.to_token_stream()));
            }
            Item::Impl(im) => self.impl_(path, im),
            Item::Fn(f) => {
                if is_test(&f.attrs) { return; }
                let key = format!("{}::{}", path, f.sig.ident);
                self.func(&key, &f.sig, &f.block, None, true);
            }
            Item::Macro(m) => self.errors.push(format!("{}: item macro {} not extracted", path, canon(&m.mac.path.to_token_stream()))),
            x => self.errors.push(format!("{}: item not extracted: {}", path, canon(&x.to_token_stream()).chars().take(60).collect::<String>())),
        }
    }

    fn strukt(&mut self, path: &str, s: &ItemStruct) {
        let key = format!("{}::{}", path, s.ident);
        let d = derives(&s.attrs);
        let mut s = s.clone();
        s.attrs.clear();
        PubAll.visit_item_struct_mut(&mut s);
        // function-pointer fields are dropped (calls are dispatched to the only suite)
        if let Fields::Named(n) = &mut s.fields {
            n.named = n.named.clone().into_iter().filter(|f| !matches!(f.ty, Type::BareFn(_))).collect();
        }
        if d.contains(&"Copy".to_string()) { self.raw("#[derive(Clone, Copy)]"); }
        self.raw(&pretty(s.to_token_stream()));
        if d.contains(&"Clone".to_string()) && !d.contains(&"Copy".to_string()) { self.clone_impl(&key, &s.ident, &s.generics); }
        // a derived Default of plain fields, written out
        if let (true, Fields::Named(n)) = (d.contains(&"Default".to_string()), &s.fields) {
            let vals: Vec<Option<TokenStream>> = n.named.iter().map(|f| {
                let (id, t) = (&f.ident, canon(&f.ty.to_token_stream()));
                let v = match t.trim() {
                    "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i64" | "i32" => quote!(0),
                    "bool" => quote!(false),
                    t if t.starts_with("Option") => quote!(None),
                    _ => return None,
                };
                Some(quote!(#id: #v))
            }).collect();
            if vals.iter().all(|v| v.is_some()) {
                let (id, vals) = (&s.ident, vals.into_iter().flatten().collect::<Vec<_>>());
                self.raw(&pretty(quote!(impl #id { pub fn default() -> (r: Self) ensures r == (#id { #(#vals),* }) { #id { #(#vals),* } } })));
            }
        }
        if !d.contains(&"Clone".to_string()) && self.contracts.clones.contains_key(&key) { self.clone_impl(&key, &s.ident, &s.generics); } // a shared handle
    }

    fn clone_impl(&mut self, key: &str, id: &Ident, _g: &Generics) {
        let cl = self.contracts.clones.get(key).cloned().unwrap_or_default();
        self.raw(&format!("impl Clone for {id} {{\n#[verifier::external_body]\nfn clone(&self) -> (r: Self)\n{cl}\n{{ unimplemented!() }}\n}}\n"));
    }

    fn statik(&mut self, path: &str, s: &ItemStatic) {
        // static S: T = T { field: value, .. }  =>  fn S() -> &'static T ensures the literal's fields
        let (id, ty) = (&s.ident, &s.ty);
        let mut ens = Vec::new();
        if let Expr::Struct(st) = &*s.expr {
            for f in &st.fields {
                let name = canon(&f.member.to_token_stream());
                if self.fn_ptrs.contains_key(&name) { continue; }
                let v = &f.expr;
                let m = &f.member;
                ens.push(quote!(r.#m == #v));
            }
        }
        let _ = path;
        self.raw(&pretty(quote!(#[verifier::external_body] #[allow(non_snake_case)] pub fn #id() -> (r: &'static #ty) ensures #(#ens),* { unimplemented!() })));
    }

    fn impl_(&mut self, path: &str, im: &ItemImpl) {
        if is_test(&im.attrs) || dropped_trait(im) { return; }
        let prefix = impl_prefix(path, im);
        if self.contracts.drops.contains_key(&prefix) { self.dropped.push(prefix); return; }
        let is_drop = im.trait_.as_ref().map(|(_, t, _)| t.segments.last().unwrap().ident == "Drop").unwrap_or(false);
        // a destructor is verified as an ordinary method when it has a contract
        if is_drop && !self.contracts.fns.contains_key(&format!("{}::drop", prefix)) { return; }
        let self_int = Some(ty_name(&im.self_ty)).filter(|t| crate::rewrite::int_bits(t).is_some());
        let is_trait = im.trait_.is_some() && !is_drop;
        let (g, st) = (&im.generics, &im.self_ty);
        let (ig, _, wc) = g.split_for_impl();
        let head = match &im.trait_ { Some((_, t, _)) if !is_drop => quote!(impl #ig #t for #st #wc), _ => quote!(impl #ig #st #wc) };
        self.raw(&format!("{} {{", pretty(head)));
        for it in &im.items {
            match it {
                ImplItem::Fn(f) => {
                    if is_test(&f.attrs) { continue; }
                    let key = format!("{}::{}", prefix, f.sig.ident);
                    let mut sig = f.sig.clone();
                    if self.locked.contains(&ty_name(&im.self_ty)) {
                        // locks in the sequential view of one critical section: see DESIGN.md
                        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
                            if r.reference.is_some() && r.mutability.is_none() { *sig.inputs.first_mut().unwrap() = parse_quote!(&mut self); }
                        }
                    }
                    self.func(&key, &sig, &f.block, self_int.clone(), !is_trait);
                }
                ImplItem::Const(c) => {
                    let mut c = c.clone();
                    if !is_trait { c.vis = parse_quote!(pub); }
                    c.attrs.clear();
                    let _ = self.rewrite_with(self_int.clone(), false, |r| r.visit_impl_item_const_mut(&mut c));
                    self.raw(&pretty(c.to_token_stream()));
                }
                ImplItem::Type(t) => self.raw(&pretty(t.to_token_stream())),
                x => self.errors.push(format!("{}: impl item not extracted: {}", prefix, canon(&x.to_token_stream()))),
            }
        }
        self.raw("}");
    }

    fn func(&mut self, key: &str, sig: &Signature, block: &Block, self_int: Option<String>, public: bool) {
        if let Some(r) = self.contracts.drops.get(key) { self.dropped.push(format!("{} ({})", key, r)); return; }
        let name = sig.ident.to_string();
        let contract = self.contracts.fns.get(key).cloned();
        if contract.is_none() && self.helpers.get(&name).map(|h| h.key == key).unwrap_or(false) {
            // a helper without contract: inlined into its callers, not emitted when generic over streams
        }
        let c = contract.clone().unwrap_or(FnContract { key: key.into(), ret: "r".into(), ..Default::default() });
        self.used.insert(key.to_string());
        let mut notes = Vec::new();
        let mut novel: Vec<String> = Vec::new();
        let mut block = block.clone();
        let print = fingerprint(&canon(&quote!(#sig #block)));
        // 1. inline uncontracted helpers
        let helpers = self.helpers.clone();
        let mut inl = Inliner { helpers: &helpers, self_ty: None, notes: vec![], inlined: vec![], depth: 0, tail: None };
        if contract.is_some() {
            let rt = match &sig.output { ReturnType::Type(_, t) => canon(&t.to_token_stream()), _ => String::new() };
            inl.tails(&mut block, &rt);
            inl.visit_block_mut(&mut block);
        }
        notes.append(&mut inl.notes);
        let inlined = inl.inlined.clone();
        // 2. normalise loops
        let mut sig0 = sig.clone();
        named_streams(&mut sig0);
        crate::rewrite::Unshare.visit_signature_mut(&mut sig0);
        crate::rewrite::Unshare.visit_block_mut(&mut block);
        let sig = &sig0;
        crate::rewrite::LockLocals::default().run(&mut block);
        let mut nz = Normalizer::default();
        nz.streams = crate::loops::streams(sig);
        if let ReturnType::Type(_, t) = &sig.output { nz.tail(&mut block, &canon(&t.to_token_stream())); }
        nz.visit_block_mut(&mut block);
        crate::loops::Unref::default().visit_block_mut(&mut block);
        notes.append(&mut nz.notes);
        // 3. shape
        let mut ids = Idents { v: vec![], calls: BTreeSet::new(), callee: BTreeSet::new() };
        syn::visit::Visit::visit_block(&mut ids, &block);
        // a mention of a local variable is not a call of a function of that name
        let (locals, callee) = (ids.v.iter().map(|s| s.trim_start_matches('*').to_string()).collect::<BTreeSet<_>>(), ids.callee.clone());
        let pnames: BTreeSet<String> = sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None }, _ => None }).collect();
        ids.calls.retain(|c| callee.contains(c) || !(locals.contains(c) || pnames.contains(c)));
        let mut lk = LoopKinds(vec![]);
        syn::visit::Visit::visit_block(&mut lk, &block);
        let params: Vec<String> = sig.inputs.iter().map(|a| match a { FnArg::Receiver(_) => "self".into(), FnArg::Typed(t) => canon(&t.pat.to_token_stream()).trim_start_matches("mut ").to_string() }).collect();
        let mut sig_types = sig.clone();
        for a in sig_types.inputs.iter_mut() { if let FnArg::Typed(t) = a { *t.pat = parse_quote!(_x); } }
        let shape = Shape { params, locals: ids.v.iter().map(|s| s.trim_start_matches('*').to_string()).filter(|s| s != "__inl").collect(), muts: ids.v.iter().filter(|s| s.starts_with('*')).map(|s| s[1..].to_string()).collect(), loops: lk.0.clone(), sig: canon(&sig_types.to_token_stream()).replace('\t', " "), print };
        // 4. renaming of contract identifiers
        let mut map = BTreeMap::new();
        let mut loop_map: BTreeMap<String, String> = BTreeMap::new();
        let mut changed = false;
        if let Some(b) = self.opts.baseline.get(key) {
            changed = b.print != shape.print;
            if b.params.len() == shape.params.len() { for (o, n) in b.params.iter().zip(&shape.params) { if o != n { map.insert(o.clone(), n.clone()); } } }
            // locals gathered into the fields of one value
            {
                let mut mem = BTreeSet::new();
                members(block.to_token_stream(), &mut mem);
                for o in &b.muts {
                    if shape.locals.contains(o) { continue; }
                    let v: BTreeSet<&String> = mem.iter().filter(|(v, x)| x == o && shape.muts.contains(v) && !b.locals.contains(v)).map(|(v, _)| v).collect();
                    if v.len() == 1 { map.insert(o.clone(), format!("{}.{}", v.first().unwrap(), o)); }
                }
            }
            for (o, n) in align(&b.locals, &shape.locals) { if b.muts.contains(&o) && !shape.muts.contains(&n) { continue; } if o != n && !o.starts_with("__") && !shape.locals.contains(&o) { map.entry(o).or_insert(n); } }
            // names that only occur before / only after the edit, when the alignment leaves them unpaired
            {
                let uniq = |v: &[String], w: &[String]| -> Vec<String> { let mut o: Vec<String> = Vec::new(); for x in v { if !x.starts_with("__") && !w.contains(x) && !o.contains(x) { o.push(x.clone()); } } o };
                let mut used = BTreeSet::new();
                for s in [&c.pre, &c.post].into_iter().chain(c.loops.values()).chain(c.todo.as_ref()) { idents(ts(s), &mut used); }
                let gone: Vec<String> = uniq(&b.locals, &shape.locals).into_iter().filter(|x| !map.contains_key(x)).collect();
                let fresh: Vec<String> = uniq(&shape.locals, &b.locals).into_iter().filter(|x| !map.values().any(|y| y == x)).collect();
                let named: Vec<String> = gone.iter().filter(|x| used.contains(*x)).cloned().collect();
                let part = |v: &[String], m: &[String], is: bool| -> Vec<String> { v.iter().filter(|x| m.contains(x) == is).cloned().collect() };
                if gone.len() == fresh.len() && !gone.iter().zip(&fresh).any(|(o, n)| b.muts.contains(o) && !shape.muts.contains(n)) { for (o, n) in gone.into_iter().zip(fresh) { map.insert(o, n); } }
                else { for is in [true, false] {
                    let (g, f) = (part(&named, &b.muts, is), part(&fresh, &shape.muts, is));
                    if g.len() == f.len() { for (o, n) in g.into_iter().zip(f) { map.insert(o, n); } }
                } }
            }
            // a mutable local of the loops that is now immutable (bound after the loop): its place is taken by a new mutable local
            {
                let mut used = BTreeSet::new();
                for s in c.loops.values() { idents(ts(s), &mut used); }
                let lost: Vec<&String> = b.muts.iter().filter(|x| used.contains(*x) && !map.contains_key(*x) && !shape.muts.contains(x)).collect();
                let fresh: Vec<&String> = shape.muts.iter().filter(|x| !b.muts.contains(x) && !map.values().any(|y| y == *x)).collect();
                if !lost.is_empty() && lost.len() == fresh.len() { for (o, n) in lost.iter().zip(&fresh) { loop_map.insert(o.to_string(), n.to_string()); } }
            }
            if b.loops != shape.loops { novel.push(format!("loops {:?} => {:?}", b.loops, shape.loops)); }
            if b.sig != shape.sig { novel.push("signature changed".into()); }
        } else if !self.opts.baseline.is_empty() { novel.push("new function".into()); changed = true; }
        // swaps of names would be ambiguous only if a new name collides with an old one still in use
        let ren = |s: &str| -> TokenStream { rename(ts(s), &map) };
        // 5. expression rewrites
        let mut sig = sig.clone();
        let sender = c.sender;
        let (_, mut n2) = self.rewrite_with(self_int.clone(), sender, |r| { if !c.alloc.is_empty() { r.alloc = c.alloc.clone(); } r.todo = c.todo.as_ref().map(|s| ren(s)); r.visit_signature_mut(&mut sig); r.visit_generics_mut(&mut sig.generics); r.visit_block_mut(&mut block); });
        notes.append(&mut n2);
        // 6. loop clauses
        let bare = self.opts.bare.contains(key);
        let external = self.opts.external.contains(key) || (contract.is_none());
        if !bare {
            let lc = c.loops.clone();
            let f = |n: usize| -> Option<TokenStream> { lc.get(&n).map(|s| {
                let mut m = map.clone();
                m.extend(loop_map.clone());
                m.insert("IT".into(), format!("__it{}", n));
                rename(ts(s), &m) }) };
            Attacher { clauses: &f, n: 0 }.visit_block_mut(&mut block);
        }
        // 7. text
        let ret = Ident::new(&c.ret, proc_macro2::Span::call_site());
        let mut out = TokenStream::new();
        out.extend(ts(&c.attr));
        if external { out.extend(quote!(#[verifier::external_body])); }
        if public { out.extend(quote!(pub)); }
        let (g, id, inp) = (&sig.generics, &sig.ident, &sig.inputs);
        let wc = &g.where_clause;
        let mut g2 = g.clone();
        g2.where_clause = None;
        let rt = match &sig.output { ReturnType::Default => quote!(), ReturnType::Type(_, t) => quote!(-> (#ret: #t)) };
        let constness = &sig.constness;
        out.extend(quote!(#constness fn #id #g2 (#inp) #rt #wc));
        out.extend(ren(&c.clauses));
        let status;
        if external {
            status = if contract.is_none() { "nocontract" } else { "external" };
            out.extend(quote!({ unimplemented!() }));
        } else {
            status = if bare { "bare" } else { "verified" };
            // without the annotations that name locals: only lemma imports and hidden definitions stay
            let mut pre = if bare {
                let keep: Vec<&str> = c.pre.lines().filter(|l| l.starts_with("broadcast use") || l.starts_with("hide(")).collect();
                ts(&keep.join("\n"))
            } else { ren(&c.pre) };
            if let Some(p) = &self.opts.probe { if p == key || p == "ALL" { pre.extend(quote!(assert(false);)); } }
            let post = if bare { quote!() } else { ren(&c.post) };
            if post.is_empty() {
                let st = &block.stmts;
                out.extend(quote!({ #pre #(#st)* }));
            } else {
                let tn = match &sig.output { ReturnType::Type(_, t) if !canon(&t.to_token_stream()).contains('&') => quote!(: #t), _ => quote!() };
                out.extend(quote!({ #pre let #ret #tn = #block; #post #ret }));
            }
        }
        let l0 = self.line();
        let body = pretty(out);
        self.raw(&body);
        let l1 = self.line();
        self.fns.push(FnInfo { key: key.into(), lines: (l0, l1), status, shape, changed, novel, calls: ids.calls, notes, props: c.props.clone(), inlined, sender: c.sender });
    }
}

/// Pairs old and new local names: common names are aligned (longest common subsequence) and the
/// unmatched names between two aligned ones are paired in order when there are equally many.
/// `x: &mut impl Iterator<..>` => `x: &mut T`, `T: Iterator<..>`
fn named_streams(sig: &mut Signature) {
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a { if let Type::Reference(r) = &mut *t.ty { if let Type::ImplTrait(it) = &*r.elem {
            let b = it.bounds.clone();
            if !canon(&b.to_token_stream()).contains("Iterator") { continue; }
            let taken: Vec<String> = sig.generics.type_params().map(|p| p.ident.to_string()).collect();
            let n = ["T", "T1", "T2", "T3"].iter().find(|n| !taken.iter().any(|x| x == *n)).unwrap();
            let id = Ident::new(n, proc_macro2::Span::call_site());
            *r.elem = parse_quote!(#id);
            sig.generics.params.push(parse_quote!(#id));
            sig.generics.make_where_clause().predicates.push(parse_quote!(#id: #b));
        } } }
    }
}

fn align(a: &[String], b: &[String]) -> Vec<(String, String)> {
    let (n, m) = (a.len(), b.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() { l[i][j] = if a[i] == b[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) }; } }
    let (mut i, mut j) = (0, 0);
    let mut out = Vec::new();
    let (mut ga, mut gb): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let flush = |ga: &mut Vec<String>, gb: &mut Vec<String>, out: &mut Vec<(String, String)>| {
        if ga.len() == gb.len() { out.extend(ga.drain(..).zip(gb.drain(..))); }
        ga.clear();
        gb.clear();
    };
    while i < n || j < m {
        if i < n && j < m && a[i] == b[j] { flush(&mut ga, &mut gb, &mut out); out.push((a[i].clone(), b[j].clone())); i += 1; j += 1; }
        else if i < n && (j == m || l[i + 1][j] >= l[i][j + 1]) { ga.push(a[i].clone()); i += 1; }
        else { gb.push(b[j].clone()); j += 1; }
    }
    flush(&mut ga, &mut gb, &mut out);
    out
}

/// The struct literals of a type with fn-pointer fields must be unique; returns field -> target path.
fn collect_fn_ptrs(mods: &[Module]) -> (BTreeMap<String, String>, Vec<String>, Vec<String>) {
    let mut fields: BTreeSet<String> = BTreeSet::new();
    let mut tys: BTreeSet<String> = BTreeSet::new();
    let mut map = BTreeMap::new();
    let mut statics = Vec::new();
    let mut errs = Vec::new();
    for m in mods { for it in &m.items { if let Item::Struct(s) = it {
        for f in s.fields.iter() { if matches!(f.ty, Type::BareFn(_)) { fields.insert(f.ident.as_ref().unwrap().to_string()); tys.insert(s.ident.to_string()); } }
    } } }
    let mut lits = 0;
    for m in mods { for it in &m.items {
        if let Item::Static(s) = it {
            statics.push(s.ident.to_string());
            if let Expr::Struct(st) = &*s.expr {
                lits += 1;
                for f in &st.fields {
                    let n = canon(&f.member.to_token_stream());
                    if fields.contains(&n) {
                        let v = canon(&f.expr.to_token_stream()).replace(' ', "");
                        let full = format!("crate::{}::{}", m.path.join("::"), v);
                        map.insert(n, full);
                    }
                }
            }
        }
        if let Item::Fn(_) | Item::Impl(_) = it {
            struct L<'a>(&'a BTreeSet<String>, usize);
            impl<'a, 'ast> syn::visit::Visit<'ast> for L<'a> {
                fn visit_item_mod(&mut self, m: &'ast ItemMod) { if !is_test(&m.attrs) { syn::visit::visit_item_mod(self, m) } }
                fn visit_expr_struct(&mut self, s: &'ast ExprStruct) {
                    if self.0.contains(&s.path.segments.last().unwrap().ident.to_string()) { self.1 += 1; }
                    syn::visit::visit_expr_struct(self, s);
                }
            }
            let mut l = L(&tys, 0);
            syn::visit::Visit::visit_item(&mut l, it);
            lits += l.1;
        }
    } }
    if !fields.is_empty() && lits != 1 { errs.push(format!("{} literals of a struct with fn-pointer fields: dispatch not determined", lits)); map.clear(); }
    (map, statics, errs)
}

fn collect_helpers(path: &str, items: &[Item], c: &Contracts, out: &mut BTreeMap<String, Helper>, dup: &mut BTreeSet<String>) {
    let mut add = |key: String, sig: &Signature, block: &Block, st: Option<String>| {
        if c.fns.contains_key(&key) || c.drops.contains_key(&key) || has_unsafe(&block.to_token_stream()) { return; }
        let n = sig.ident.to_string();
        if out.contains_key(&n) { dup.insert(n.clone()); }
        out.insert(n, Helper { key, sig: sig.clone(), block: block.clone(), self_ty: st });
    };
    for it in items { match it {
        Item::Fn(f) if !is_test(&f.attrs) => add(format!("{}::{}", path, f.sig.ident), &f.sig, &f.block, None),
        Item::Impl(im) if !is_test(&im.attrs) && !dropped_trait(im) && im.trait_.is_none() => {
            let p = impl_prefix(path, im);
            if c.drops.contains_key(&p) { continue; }
            for i in &im.items { if let ImplItem::Fn(f) = i { add(format!("{}::{}", p, f.sig.ident), &f.sig, &f.block, Some(ty_name(&im.self_ty))); } }
        }
        _ => {}
    } }
    for it in items { if let Item::Mod(m) = it { if !is_test(&m.attrs) { if let Some((_, its)) = &m.content {
        collect_helpers(&format!("{}::{}", path, m.ident), its, c, out, dup); } } } }
}

fn item_names(items: &[Item], out: &mut BTreeSet<String>) {
    for it in items { match it {
        Item::Fn(f) if !is_test(&f.attrs) => { out.insert(f.sig.ident.to_string()); }
        Item::Const(c) => { out.insert(c.ident.to_string()); }
        Item::Static(c) => { out.insert(c.ident.to_string()); }
        Item::Struct(c) => { out.insert(c.ident.to_string()); }
        Item::Enum(c) => { out.insert(c.ident.to_string()); }
        Item::Type(c) => { out.insert(c.ident.to_string()); }
        Item::Trait(c) => { out.insert(c.ident.to_string()); }
        Item::Mod(m) if !is_test(&m.attrs) => if let Some((_, its)) = &m.content { item_names(its, out); },
        _ => {}
    } }
}

/// Items defined at the first column of a specification file.
fn spec_names(t: &str) -> Vec<String> {
    let mut v = Vec::new();
    for l in t.lines() {
        if l.starts_with(' ') || l.starts_with('/') { continue; }
        let w: Vec<&str> = l.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).collect();
        if let Some(i) = w.iter().position(|x| ["fn", "struct", "enum", "const", "trait", "type"].contains(x)) { if let Some(n) = w.get(i + 1) { v.push(n.to_string()); } }
    }
    v
}

fn rename_text(t: &str, names: &BTreeSet<String>) -> String {
    let mut o = String::new();
    let mut id = String::new();
    let mut before = ' ';
    let flush = |id: &mut String, o: &mut String, before: char| {
        o.push_str(id);
        if names.contains(id.as_str()) && before != '.' { o.push_str("__s"); }
        id.clear();
    };
    for c in t.chars() {
        if c.is_alphanumeric() || c == '_' { id.push(c); continue; }
        if !id.is_empty() { flush(&mut id, &mut o, before); }
        o.push(c);
        before = c;
    }
    if !id.is_empty() { flush(&mut id, &mut o, before); }
    o
}

pub fn run(src: &str, cdir: &str, contracts: &Contracts, opts: &Opts) -> std::result::Result<Out, String> {
    let dir = std::path::Path::new(src);
    let mut mods = Vec::new();
    load_mod(dir, &dir.join("lib.rs"), vec![], contracts, &mut mods)?;
    // the crate's own macros
    let mut mac = crate::mac::Macros::default();
    for m in &mods { mac.collect(&m.items); }
    for m in mods.iter_mut() { m.items = mac.apply(std::mem::take(&mut m.items), 0); }
    let (fn_ptrs, statics, errs) = collect_fn_ptrs(&mods);
    let mut helpers = BTreeMap::new();
    let mut dup = BTreeSet::new();
    for m in &mods { if !m.path.is_empty() { collect_helpers(&m.path.join("::"), &m.items, contracts, &mut helpers, &mut dup); } }
    for d in &dup { helpers.remove(d); }
    // a helper whose name is also the name of a contracted function cannot be resolved by name
    let names: BTreeSet<String> = contracts.fns.keys().map(|k| k.rsplit("::").next().unwrap().to_string()).collect();
    helpers.retain(|k, _| !names.contains(k));
    {
        let (mut arcs, mut others) = (BTreeSet::new(), BTreeSet::new());
        for m in &mods { for it in &m.items { if let Item::Struct(st) = it { for f in &st.fields { if let Some(i) = &f.ident {
            let t = match &f.ty { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), _ => String::new() };
            match t.as_str() { "Arc" => { arcs.insert(i.to_string()); } "Mutex" | "RwLock" => {} _ => { others.insert(i.to_string()); } }
        } } } } }
        crate::rewrite::ARC_FIELDS.with(|a| *a.borrow_mut() = arcs.difference(&others).cloned().collect());
    }
    let mut locked = BTreeSet::new();
    for m in &mods { for it in &m.items { if let Item::Struct(st) = it {
        let t = canon(&st.fields.to_token_stream());
        if t.contains("Mutex <") || t.contains("RwLock <") || t.contains("Mutex<") || t.contains("RwLock<") { locked.insert(st.ident.to_string()); }
    } } }
    loop {
        let n = locked.len();
        for m in &mods { for it in &m.items { if let Item::Struct(st) = it {
            let mut v = BTreeSet::new();
            idents(st.fields.to_token_stream(), &mut v);
            if v.contains("Arc") && v.iter().any(|x| locked.contains(x)) { locked.insert(st.ident.to_string()); }
        } } }
        if locked.len() == n { break; }
    }
    let mut pre: Vec<(String, String)> = Vec::new();
    for n in ["vspec", "vext", "stubs", "vmodel", "vpacket", "vlem"] {
        let f = std::path::Path::new(cdir).join(format!("{}.rs", n));
        if let Ok(t) = std::fs::read_to_string(&f) { pre.push((n.to_string(), t)); }
    }
    // a new item of the code with the name of a specification function: the latter is renamed
    let mut names = BTreeSet::new();
    for m in &mods { item_names(&m.items, &mut names); }
    let mut clash = BTreeSet::new();
    for (n, t) in &pre { if n != "vext" && n != "stubs" { for d in spec_names(t) { if names.contains(&d) { clash.insert(d); } } } }
    let mut c2 = contracts.clone();
    if !clash.is_empty() {
        for (_, t) in pre.iter_mut() { *t = rename_text(t, &clash); }
        for f in c2.fns.values_mut() {
            for s in [&mut f.clauses, &mut f.pre, &mut f.post, &mut f.alloc].into_iter().chain(f.todo.as_mut()) { *s = rename_text(s, &clash); }
            for s in f.loops.values_mut() { *s = rename_text(s, &clash); }
        }
        for s in c2.clones.values_mut() { *s = rename_text(s, &clash); }
    }
    let contracts = &c2;
    let mut e = E { text: String::new(), contracts, opts, fns: vec![], fn_ptrs, statics, helpers, errors: errs, dropped: vec![], used: BTreeSet::new(), locked };
    e.raw("#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unused_assignments, unreachable_code)]\nuse vstd::prelude::*;\n");
    let mut spec_lines = Vec::new();
    for (n, t) in &pre {
        e.raw(&format!("pub mod {} {{", n));
        let a = e.line();
        e.raw(t);
        let b = e.line();
        e.raw("}");
        spec_lines.push((n.clone(), a, b));
    }
    e.raw("verus! {\nglobal size_of usize == 8;\n}\n");
    // modules as a tree
    fn tree(e: &mut E, mods: &[Module], path: &[String]) {
        let hdr = "#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vext::*;\n#[allow(unused_imports)] use crate::vspec::*;\n#[allow(unused_imports)] use crate::vmodel::*;\n#[allow(unused_imports)] use crate::vpacket::*;\n#[allow(unused_imports)] use crate::stubs::*;\nverus! {\nbroadcast use {crate::vext::axiom_vec_len, crate::vext::axiom_slice_len};\n";
        let me = mods.iter().find(|m| m.path == path);
        if !path.is_empty() {
            e.raw(&format!("pub mod {} {{", path.last().unwrap()));
            e.raw(hdr);
            if let Some(m) = me { e.module(m); }
            e.raw("}");
        }
        let kids: Vec<Vec<String>> = mods.iter().filter(|m| m.path.len() == path.len() + 1 && m.path.starts_with(path)).map(|m| m.path.clone()).collect();
        for k in kids { tree(e, mods, &k); }
        if !path.is_empty() { e.raw("}"); }
    }
    tree(&mut e, &mods, &[]);
    e.raw("fn main() {}");
    for k in contracts.fns.keys() { if !e.used.contains(k) { e.errors.push(format!("contracted function {} not found", k)); } }
    // map
    let arr = |v: Vec<String>| format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    let mut fs = Vec::new();
    for f in &e.fns {
        fs.push(format!("{}:{{\"lines\":[{},{}],\"status\":{},\"changed\":{},\"novel\":{},\"calls\":{},\"notes\":{},\"props\":{},\"inlined\":{},\"loops\":{},\"sender\":{}}}",
            json_str(&f.key), f.lines.0, f.lines.1, json_str(f.status), f.changed, arr(f.novel.clone()), arr(f.calls.iter().cloned().collect()), arr(f.notes.clone()), arr(f.props.clone()), arr(f.inlined.clone()), f.shape.loops.len(), f.sender));
    }
    let sl: Vec<String> = spec_lines.iter().map(|(n, a, b)| format!("{}:[{},{}]", json_str(n), a, b)).collect();
    let map_json = format!("{{\"fns\":{{\n{}\n}},\n\"spec\":{{{}}},\n\"errors\":{},\n\"dropped\":{},\n\"helpers\":{}}}\n", fs.join(",\n"), sl.join(","), arr(e.errors.clone()), arr(e.dropped.clone()), arr(e.helpers.keys().cloned().collect()));
    let mut bl = String::new();
    for f in &e.fns {
        bl.push_str(&format!("{}\t{}\t{}\t{}\t{}\t{}\t{}\n", f.key, f.shape.params.join(","), f.shape.locals.join(","), f.shape.loops.join(","), f.shape.sig, f.shape.print, f.shape.muts.join(",")));
    }
    Ok(Out { text: e.text, map_json, baseline_json: bl })
}
