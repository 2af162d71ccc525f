use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::str::FromStr;

pub fn ts(s: &str) -> TokenStream {
    TokenStream::from_str(s).unwrap_or_else(|e| panic!("cannot tokenize {s:?}: {e}"))
}

/// Canonical text of a token stream: one space between tokens, used for fingerprints and matching.
pub fn canon(t: &TokenStream) -> String {
    let mut s = String::new();
    canon_into(t.clone(), &mut s);
    s.trim().to_string()
}
fn canon_into(t: TokenStream, s: &mut String) {
    for tt in t {
        match tt {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("( ", ") "),
                    Delimiter::Brace => ("{ ", "} "),
                    Delimiter::Bracket => ("[ ", "] "),
                    Delimiter::None => ("", ""),
                };
                s.push_str(a);
                canon_into(g.stream(), s);
                s.push_str(b);
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.spacing() == Spacing::Alone { s.push(' '); }
            }
            TokenTree::Ident(i) => { s.push_str(&i.to_string()); s.push(' '); }
            TokenTree::Literal(l) => { s.push_str(&l.to_string()); s.push(' '); }
        }
    }
}

/// Printable text with line breaks after `;`, `{`, `}` so that diagnostics have useful lines.
pub fn pretty(t: TokenStream) -> String {
    let mut s = String::new();
    pretty_into(t, &mut s, false);
    s
}
fn pretty_into(t: TokenStream, s: &mut String, _in_paren: bool) {
    for tt in t {
        match tt {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    s.push_str("{\n");
                    pretty_into(g.stream(), s, false);
                    s.push_str("\n}\n");
                }
                Delimiter::Parenthesis => { s.push('('); pretty_into(g.stream(), s, true); s.push_str(") "); }
                Delimiter::Bracket => { s.push('['); pretty_into(g.stream(), s, true); s.push_str("] "); }
                Delimiter::None => pretty_into(g.stream(), s, true),
            },
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' { s.push('\n'); }
                else if p.spacing() == Spacing::Alone { s.push(' '); }
            }
            TokenTree::Ident(i) => { s.push_str(&i.to_string()); s.push(' '); }
            TokenTree::Literal(l) => { s.push_str(&l.to_string()); s.push(' '); }
        }
    }
}

/// Replace identifiers in contract text; a field or method name (after `.` or `->`) is not a variable.
pub fn rename(t: TokenStream, map: &std::collections::BTreeMap<String, String>) -> TokenStream {
    let (mut p1, mut p2) = (' ', ' ');
    t.into_iter().flat_map(|tt| {
        let member = (p1 == '.' && p2 != '.') || (p1 == '>' && p2 == '-');
        p2 = p1;
        p1 = if let TokenTree::Punct(p) = &tt { p.as_char() } else { ' ' };
        match tt {
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), rename(g.stream(), map));
                ng.set_span(g.span());
                TokenTree::Group(ng).into()
            }
            TokenTree::Ident(i) if !member => match map.get(&i.to_string()) {
                Some(n) => n.parse::<TokenStream>().unwrap(),
                None => TokenTree::Ident(i).into(),
            },
            x => TokenStream::from(x),
        }
    }).collect()
}

/// `v.x` occurrences: (v, x)
pub fn members(t: TokenStream, out: &mut std::collections::BTreeSet<(String, String)>) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for tt in &v { if let TokenTree::Group(g) = tt { members(g.stream(), out); } }
    for w in v.windows(3) {
        if let (TokenTree::Ident(a), TokenTree::Punct(p), TokenTree::Ident(b)) = (&w[0], &w[1], &w[2]) {
            if p.as_char() == '.' && p.spacing() == Spacing::Alone { out.insert((a.to_string(), b.to_string())); }
        }
    }
}

pub fn idents(t: TokenStream, out: &mut std::collections::BTreeSet<String>) {
    for tt in t {
        match tt {
            TokenTree::Group(g) => idents(g.stream(), out),
            TokenTree::Ident(i) => { out.insert(i.to_string()); }
            _ => {}
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
