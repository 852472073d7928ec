//! vx: mechanical extractor.  Expands a template (Verus or Kani text) by splicing items cut out of
//! the repository's current sources, adding only specification text (contracts, loop invariants,
//! ghost blocks) and applying the token rewrite rules the template states.  Everything it drops or
//! rewrites is listed in its JSON report.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::ops::Range;
use std::str::FromStr;
use syn::spanned::Spanned;
use syn::visit::Visit;

type Res<T> = Result<T, String>;

#[derive(Clone, Default)]
struct Rule { pat: Vec<Tok>, rep: String, text: String }
#[derive(Clone, Debug, PartialEq)]
enum Tok { Lit(String), Any(String) }

fn flat(ts: TokenStream, out: &mut Vec<(String, Range<usize>)>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                if !o.is_empty() { out.push((o.into(), g.span_open().byte_range())); }
                flat(g.stream(), out);
                if !c.is_empty() { out.push((c.into(), g.span_close().byte_range())); }
            }
            TokenTree::Ident(i) => out.push((i.to_string(), i.span().byte_range())),
            TokenTree::Punct(p) => out.push((p.as_char().to_string(), p.span().byte_range())),
            TokenTree::Literal(l) => out.push((l.to_string(), l.span().byte_range())),
        }
    }
}
/// pattern tokens; `$x` binds one token or one balanced group (where the name comes again, the same tokens again), `$$x` binds any balanced run up to the next pattern token,
/// `$~x` binds the shortest postfix expression (name, path, literal or group, then field accesses, calls, indexes and `?`) after which the rest matches
fn pattern(s: &str) -> Res<Vec<Tok>> {
    let ts = TokenStream::from_str(s).map_err(|e| format!("bad pattern {s}: {e}"))?;
    let mut f = vec![]; flat(ts, &mut f);
    let mut out = vec![]; let mut i = 0;
    while i < f.len() {
        if f[i].0 == "$" && i + 1 < f.len() && f[i + 1].0 == "~" { out.push(Tok::Any(format!("~{}", f[i + 2].0))); i += 3; }
        else if f[i].0 == "$" && i + 1 < f.len() && f[i + 1].0 == "$" { out.push(Tok::Any(format!("${}", f[i + 2].0))); i += 3; }
        else if f[i].0 == "$" { out.push(Tok::Any(f[i + 1].0.clone())); i += 2; }
        else { out.push(Tok::Lit(f[i].0.clone())); i += 1; }
    }
    Ok(out)
}
fn balanced(toks: &[(String, Range<usize>)], i: usize) -> Option<usize> {
    // end index (exclusive) of the token tree starting at i
    let t = toks.get(i)?; let mut d = 0usize; let mut j = i;
    if !matches!(t.0.as_str(), "(" | "{" | "[") { if matches!(t.0.as_str(), ")" | "}" | "]") { return None; } return Some(i + 1); }
    while j < toks.len() { match toks[j].0.as_str() { "(" | "{" | "[" => d += 1, ")" | "}" | "]" => { d -= 1; if d == 0 { return Some(j + 1); } } _ => {} } j += 1; }
    None
}
fn match_at(toks: &[(String, Range<usize>)], i: usize, pat: &[Tok], b: &mut BTreeMap<String, Range<usize>>) -> Option<usize> {
    if pat.is_empty() { return Some(i); }
    match &pat[0] {
        Tok::Lit(l) => if toks.get(i).map(|t| &t.0 == l).unwrap_or(false) { match_at(toks, i + 1, &pat[1..], b) } else { None },
        Tok::Any(n) if n.starts_with('$') => {
            let mut e = i;
            loop {
                let mut b2 = b.clone();
                if let Some(r) = match_at(toks, e, &pat[1..], &mut b2) {
                    *b = b2;
                    let rg = if e == i { 0..0 } else { toks[i].1.start..toks[e - 1].1.end };
                    b.insert(n[1..].to_string(), rg); return Some(r);
                }
                e = balanced(toks, e)?;
            }
        }
        Tok::Any(n) if n.starts_with('~') => {
            let t = &toks.get(i)?.0; if matches!(t.as_str(), "return" | "in" | "match" | "if" | "while" | "let" | "else" | "mut" | "move" | "as" | "for" | "loop" | "{") { return None; }
            if !(t.starts_with(|c: char| c.is_alphanumeric() || c == '_' || c == '"' || c == '\'') || t == "(" || t == "[") { return None; }
            let mut e = balanced(toks, i)?;
            loop {
                let mut b2 = b.clone();
                if let Some(r) = match_at(toks, e, &pat[1..], &mut b2) { *b = b2; b.insert(n[1..].to_string(), toks[i].1.start..toks[e - 1].1.end); return Some(r); }
                let at = |k: usize| toks.get(k).map(|t| t.0.as_str()).unwrap_or("");
                e = match at(e) { "." if at(e + 1) != "." => e + 2, ":" if at(e + 1) == ":" && at(e + 2) != "<" => e + 3, "?" => e + 1, "!" if matches!(at(e + 1), "(" | "[") => e + 1, "(" | "[" => balanced(toks, e)?, _ => return None };
                if e > toks.len() { return None; }
            }
        }
        Tok::Any(n) => { let e = balanced(toks, i)?;
            // a name bound before stands for the same tokens
            if let Some(r) = b.get(n) { let was: Vec<&str> = toks.iter().filter(|t| t.1.start >= r.start && t.1.end <= r.end).map(|t| t.0.as_str()).collect(); let is: Vec<&str> = toks[i..e].iter().map(|t| t.0.as_str()).collect(); if was != is { return None; } }
            b.insert(n.clone(), toks[i].1.start..toks[e - 1].1.end); match_at(toks, e, &pat[1..], b) }
    }
}

fn squash(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

#[derive(Default)]
struct Block { kind: String, file: String, sel: String, opts: BTreeMap<String, String>, sections: Vec<(String, String)> }

struct Found<'a> { attrs: &'a [syn::Attribute], vis: Option<&'a syn::Visibility>, range: Range<usize>, sig: Option<&'a syn::Signature>, block: Option<&'a syn::Block> }

fn ty_name(t: &syn::Type) -> String { squash(&t.to_token_stream().to_string()) }

fn all_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in items {
        if let syn::Item::Mod(m) = i {
            if m.attrs.iter().any(|a| squash(&a.to_token_stream().to_string()).contains("cfg(test)")) { continue; }
            out.push(i);
            if let Some((_, it)) = &m.content { all_items(it, out); }
        } else { out.push(i); }
    }
}

fn item_range(sp: proc_macro2::Span) -> Range<usize> { sp.byte_range() }

/// selectors: `name` (fn/struct/enum/const/static/type/mod/trait), `Type::name` (inherent method),
/// `[Trait for Type]::name` (trait method), `impl Type`, `impl Trait for Type`
fn find<'a>(file: &'a syn::File, kind: &str, sel: &str) -> Res<Found<'a>> {
    let mut v = vec![]; all_items(&file.items, &mut v);
    let mut hits: Vec<Found> = vec![];
    // `self::Name` is the file's own item, `a::b::Name` that of its module a::b; a plain name is looked for everywhere
    let mut sel = sel;
    if kind == "item" && sel.contains("::") {
        let mut items: &'a [syn::Item] = &file.items; let mut p: Vec<&str> = sel.split("::").collect(); let last = p.pop().unwrap();
        for m in p { if m == "self" { continue; } items = items.iter().find_map(|i| match i { syn::Item::Mod(x) if x.ident == m => x.content.as_ref().map(|c| &c.1[..]), _ => None }).ok_or_else(|| format!("anchor lost: module {m}"))?; }
        v = items.iter().collect(); sel = last;
    }
    // `mod::` prefixes are not supported: names are searched in every non-test module of the file
    if kind == "fn" && sel.contains("::") {
        let (owner, name) = { let p = sel.rfind("::").unwrap(); (squash(sel[..p].trim_start_matches('[').trim_end_matches(']')), &sel[p + 2..]) };
        for i in &v {
            if let syn::Item::Impl(im) = i {
                let t = ty_name(&im.self_ty);
                let key = match &im.trait_ { Some((_, p, _)) => format!("{}for{}", squash(&p.to_token_stream().to_string()), t), None => t.clone() };
                let tname = t.split('<').next().unwrap().to_string();
                if key == owner || (im.trait_.is_none() && tname == owner) {
                    for f in &im.items { if let syn::ImplItem::Fn(f) = f { if f.sig.ident == name { hits.push(Found { attrs: &f.attrs, vis: Some(&f.vis), range: item_range(f.span()), sig: Some(&f.sig), block: Some(&f.block) }); } } }
                }
            }
            if let syn::Item::Trait(tr) = i { if tr.ident == owner.as_str() { for f in &tr.items { if let syn::TraitItem::Fn(f) = f { if f.sig.ident == name { hits.push(Found { attrs: &f.attrs, vis: None, range: item_range(f.span()), sig: Some(&f.sig), block: f.default.as_ref() }); } } } } }
        }
    } else {
        for i in &v {
            match i {
                syn::Item::Fn(f) if kind == "fn" && f.sig.ident == sel => hits.push(Found { attrs: &f.attrs, vis: Some(&f.vis), range: item_range(f.span()), sig: Some(&f.sig), block: Some(&f.block) }),
                syn::Item::Struct(s) if kind == "item" && s.ident == sel => hits.push(Found { attrs: &s.attrs, vis: Some(&s.vis), range: item_range(s.span()), sig: None, block: None }),
                syn::Item::Enum(s) if kind == "item" && s.ident == sel => hits.push(Found { attrs: &s.attrs, vis: Some(&s.vis), range: item_range(s.span()), sig: None, block: None }),
                syn::Item::Const(s) if kind == "item" && s.ident == sel => hits.push(Found { attrs: &s.attrs, vis: Some(&s.vis), range: item_range(s.span()), sig: None, block: None }),
                syn::Item::Static(s) if kind == "item" && s.ident == sel => hits.push(Found { attrs: &s.attrs, vis: Some(&s.vis), range: item_range(s.span()), sig: None, block: None }),
                syn::Item::Type(s) if kind == "item" && s.ident == sel => hits.push(Found { attrs: &s.attrs, vis: Some(&s.vis), range: item_range(s.span()), sig: None, block: None }),
                syn::Item::Trait(s) if kind == "item" && s.ident == sel => hits.push(Found { attrs: &s.attrs, vis: Some(&s.vis), range: item_range(s.span()), sig: None, block: None }),
                syn::Item::Mod(s) if kind == "item" && s.ident == sel => hits.push(Found { attrs: &s.attrs, vis: Some(&s.vis), range: item_range(s.span()), sig: None, block: None }),
                syn::Item::Macro(s) if kind == "item" && s.ident.as_ref().map(|i| i == sel).unwrap_or(false) => hits.push(Found { attrs: &s.attrs, vis: None, range: item_range(s.span()), sig: None, block: None }),
                syn::Item::Impl(im) if kind == "impl" => {
                    let t = ty_name(&im.self_ty);
                    let key = match &im.trait_ { Some((_, p, _)) => format!("{}for{}", squash(&p.to_token_stream().to_string()), t), None => t.clone() };
                    if key == squash(sel) { hits.push(Found { attrs: &im.attrs, vis: None, range: item_range(im.span()), sig: None, block: None }); }
                }
                _ => {}
            }
        }
    }
    if hits.is_empty() { return Err(format!("anchor lost: {kind} {sel}")); }
    if hits.len() > 1 && kind != "impl" { return Err(format!("anchor ambiguous: {kind} {sel} ({} matches)", hits.len())); }
    Ok(hits.remove(0))
}

/// the `continue`s of one loop body (not those of loops or closures inside it), and what follows each in its block
struct ContV { at: Vec<Range<usize>>, guards: Vec<(usize, usize)> }
impl<'ast> Visit<'ast> for ContV {
    fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_expr_continue(&mut self, n: &'ast syn::ExprContinue) { self.at.push(n.span().byte_range()); }
    fn visit_block(&mut self, n: &'ast syn::Block) {
        for (i, s) in n.stmts.iter().enumerate() { let k = self.at.len(); self.visit_stmt(s); if self.at.len() > k && i + 1 < n.stmts.len() { self.guards.push((s.span().byte_range().end, n.brace_token.span.close().byte_range().start)); } }
    }
}
struct LoopV<'s> { loops: Vec<(Range<usize>, usize, Option<(usize, bool)>)>, drops: Vec<Range<usize>>, drop_macros: &'s BTreeSet<String>, calls: BTreeSet<String>, methods: BTreeSet<String>, awaits: Vec<Range<usize>>, stmts: Vec<Range<usize>>, attrs: Vec<Range<usize>>, names: BTreeSet<String>, cont: Vec<(Range<usize>, String)>, brk: Vec<(Range<usize>, String)> }
impl<'s, 'ast> Visit<'ast> for LoopV<'s> {
    fn visit_expr_for_loop(&mut self, n: &'ast syn::ExprForLoop) {
        // `if C { continue; } rest` in a for body is the same as `if !(C) { rest }` (Verus has no continue in for loops)
        for s in &n.body.stmts { if let syn::Stmt::Expr(syn::Expr::If(i), _) = s { if i.else_branch.is_none() && i.then_branch.stmts.len() == 1 && !matches!(*i.cond, syn::Expr::Let(_)) && squash(&i.then_branch.stmts[0].to_token_stream().to_string()).trim_end_matches(';') == "continue" {
            let (a, c, e) = (s.span().byte_range(), i.cond.span().byte_range(), n.body.brace_token.span.close().byte_range().start);
            self.cont.push((a.start..c.start, "if !(".into())); self.cont.push((c.end..a.end, ") {".into())); self.cont.push((e..e, "}".into()));
            continue;
        } }
            // any other statement with a `continue` in it: a flag that skips what is left
            let mut c = ContV { at: vec![], guards: vec![] }; c.visit_stmt(s);
            if !c.at.is_empty() {
                let (a, e) = (s.span().byte_range(), n.body.brace_token.span.close().byte_range().start); let k = self.loops.len(); let g = format!("go_{k}_{}", a.start);
                self.cont.push((a.start..a.start, format!("let mut {g} = true;\n")));
                for r in c.at { self.cont.push((r, format!("{{ {g} = false; }}"))); }
                for (f, t) in c.guards { self.cont.push((f..f, format!(" if {g} {{"))); self.cont.push((t..t, "}".into())); }
                self.cont.push((a.end..a.end, format!(" if {g} {{"))); self.cont.push((e..e, "}".into()));
            }
        }
        // `break` at the end of a for body, or ending a top-level `if`, becomes a flag that skips what is left (Verus forgets why a for loop was left)
        let is_break = |s: &syn::Stmt| squash(&s.to_token_stream().to_string()).trim_end_matches(';') == "break";
        let (ob, cb) = (n.body.brace_token.span.open().byte_range(), n.body.brace_token.span.close().byte_range());
        let mut flag = vec![]; let k = self.loops.len();
        for (ix, s) in n.body.stmts.iter().enumerate() {
            if ix + 1 == n.body.stmts.len() && is_break(s) { flag.push((s.span().byte_range(), format!("brk_{k} = true;"))); }
            if let syn::Stmt::Expr(syn::Expr::If(i), _) = s { if i.else_branch.is_none() { if let Some(l) = i.then_branch.stmts.last() { if is_break(l) {
                let a = s.span().byte_range(); flag.push((l.span().byte_range(), format!("brk_{k} = true;"))); flag.push((a.end..a.end, " else {".into())); flag.push((cb.start..cb.start, "}".into()));
            } } } }
        }
        if !flag.is_empty() && n.label.is_none() {
            let a = n.span().byte_range(); self.brk.push((a.start..a.start, format!("let mut brk_{k} = false;\n"))); self.brk.push((ob.end..ob.end, format!("if !brk_{k} {{"))); self.brk.extend(flag); self.brk.push((cb.start..cb.start, "}".into()));
        }
        self.loops.push((n.span().byte_range(), n.body.brace_token.span.open().byte_range().start, Some((n.expr.span().byte_range().start, true)))); syn::visit::visit_expr_for_loop(self, n); }
    fn visit_expr_while(&mut self, n: &'ast syn::ExprWhile) { self.loops.push((n.span().byte_range(), n.body.brace_token.span.open().byte_range().start, None)); syn::visit::visit_expr_while(self, n); }
    fn visit_expr_loop(&mut self, n: &'ast syn::ExprLoop) { self.loops.push((n.span().byte_range(), n.body.brace_token.span.open().byte_range().start, None)); syn::visit::visit_expr_loop(self, n); }
    fn visit_expr_await(&mut self, n: &'ast syn::ExprAwait) { let e = n.base.span().byte_range().end; self.awaits.push(e..n.await_token.span.byte_range().end); syn::visit::visit_expr_await(self, n); }
    fn visit_attribute(&mut self, n: &'ast syn::Attribute) { self.attrs.push(n.span().byte_range()); }
    fn visit_stmt(&mut self, n: &'ast syn::Stmt) {
        self.stmts.push(n.span().byte_range());
        let mut ts = vec![]; flat(n.to_token_stream(), &mut ts);
        // `name ! ( ... ) ...;` or `path :: name ! (...)`: logging and metrics statements
        for w in 0..ts.len().min(8) { if ts[w].0 == "!" && w > 0 { if self.drop_macros.contains(&ts[w - 1].0) && ts[..w].iter().all(|t| t.0 == ":" || t.0.chars().all(|c| c.is_alphanumeric() || c == '_')) { self.drops.push(n.span().byte_range()); return; } break; } }
        syn::visit::visit_stmt(self, n);
    }
    fn visit_expr_call(&mut self, n: &'ast syn::ExprCall) { if let syn::Expr::Path(p) = &*n.func { self.calls.insert(squash(&p.to_token_stream().to_string())); } syn::visit::visit_expr_call(self, n); }
    fn visit_expr_path(&mut self, n: &'ast syn::ExprPath) { if let Some(i) = n.path.get_ident() { self.names.insert(i.to_string()); } syn::visit::visit_expr_path(self, n); }
    fn visit_expr_method_call(&mut self, n: &'ast syn::ExprMethodCall) { self.methods.insert(n.method.to_string()); syn::visit::visit_expr_method_call(self, n); }
}

/// applies the structural edits and the rewrite rules to a range of the source; captured text is rewritten in turn
struct Rw<'a> { src: &'a str, toks: &'a [(String, Range<usize>)], rules: &'a [Rule], edits: &'a [(Range<usize>, String)], bytestrings: bool, formats: bool }
impl<'a> Rw<'a> {
    fn go(&self, rng: Range<usize>, whole: Option<Range<usize>>, used: &mut BTreeMap<String, usize>) -> String {
        let lo = self.toks.iter().position(|t| t.1.start >= rng.start).unwrap_or(self.toks.len());
        let hi = self.toks.iter().position(|t| t.1.end > rng.end).unwrap_or(self.toks.len()).max(lo);
        let mut out = String::new(); let mut pos = rng.start; let mut ei = self.edits.iter().position(|e| e.0.start >= rng.start).unwrap_or(self.edits.len());
        let mut i = lo;
        loop {
            let tstart = if i < hi { self.toks[i].1.start } else { rng.end };
            // edits up to the next token
            while ei < self.edits.len() && self.edits[ei].0.start <= tstart && self.edits[ei].0.end <= rng.end {
                let (r, t) = &self.edits[ei];
                // an insertion at the very end of a captured range belongs to the text around it
                if r.start == rng.end && whole.as_ref().map(|w| w.end == rng.end).unwrap_or(false) { break; }
                if r.is_empty() && r.start == rng.start && whole.as_ref().map(|w| w.start == rng.start).unwrap_or(false) { ei += 1; continue; }
                if r.start >= pos { out.push_str(&self.src[pos..r.start]); out.push_str(t); pos = r.end; }
                ei += 1;
            }
            if i >= hi { break; }
            if self.toks[i].1.start < pos { i += 1; continue; }
            let mut hit = None;
            for r in self.rules { let mut bb = BTreeMap::new(); if let Some(e) = match_at(&self.toks[..hi], i, &r.pat, &mut bb) { if e > i && whole.as_ref() != Some(&(self.toks[i].1.start..self.toks[e - 1].1.end)) { hit = Some((r, e, bb)); break; } } }
            if let Some((r, e, bb)) = hit {
                let w = self.toks[i].1.start..self.toks[e - 1].1.end;
                let mut rep = r.rep.clone(); let mut ks: Vec<_> = bb.iter().collect(); ks.sort_by_key(|k| std::cmp::Reverse(k.0.len()));
                let mut subs = vec![];
                for (n, (k, rg)) in ks.into_iter().enumerate() { let tag = format!("\u{1}{n}\u{2}"); rep = rep.replace(&format!("$${k}"), &tag).replace(&format!("${k}"), &tag); subs.push((tag, if rg.is_empty() { String::new() } else { self.go(rg.clone(), Some(w.clone()), used) })); }
                for (t, x) in subs { rep = rep.replace(&t, &x); }
                out.push_str(&self.src[pos..w.start]); out.push_str(&rep); pos = w.end;
                *used.entry(r.text.clone()).or_insert(0) += 1;
                while ei < self.edits.len() && self.edits[ei].0.start < pos { ei += 1; }
                i = e;
            } else if let Some((x, e)) = self.format_at(i, hi, used) {
                out.push_str(&self.src[pos..self.toks[i].1.start]); out.push_str(&x); pos = self.toks[e - 1].1.end;
                while ei < self.edits.len() && self.edits[ei].0.start < pos { ei += 1; }
                i = e;
            } else {
                let t = &self.toks[i];
                if self.bytestrings && t.0.starts_with("b\"") { out.push_str(&self.src[pos..t.1.start]); out.push_str(&format!("bs({})", &self.src[t.1.start + 1..t.1.end])); pos = t.1.end; }
                i += 1;
            }
        }
        if pos < rng.end { out.push_str(&self.src[pos..rng.end]); }
        out
    }
}
impl<'a> Rw<'a> {
    /// `format!("a{x}b{}", y)` with plain placeholders becomes the concatenation of its pieces
    fn format_at(&self, i: usize, hi: usize, used: &mut BTreeMap<String, usize>) -> Option<(String, usize)> {
        if !self.formats || i + 3 >= hi || self.toks[i].0 != "format" || self.toks[i + 1].0 != "!" || self.toks[i + 2].0 != "(" { return None; }
        let end = balanced(&self.toks[..hi], i + 2)?; let lit: syn::LitStr = syn::parse_str(&self.toks[i + 3].0).ok()?;
        let mut args = vec![]; let mut j = i + 4;
        while j < end - 1 { if self.toks[j].0 != "," { return None; } let a = j + 1; let mut k = a; while k < end - 1 && self.toks[k].0 != "," { k = balanced(&self.toks[..hi], k)?; } if k > a { args.push(self.go(self.toks[a].1.start..self.toks[k - 1].1.end, None, used)); } j = k; }
        let v = lit.value(); let mut parts: Vec<String> = vec![]; let mut cur = String::new(); let mut n = 0; let mut cs = v.chars().peekable();
        let flush = |c: &mut String, p: &mut Vec<String>| { if !c.is_empty() { p.push(format!("piece({c:?}).as_slice()")); c.clear(); } };
        while let Some(c) = cs.next() { match c {
            '{' if cs.peek() == Some(&'{') => { cs.next(); cur.push('{'); } '}' if cs.peek() == Some(&'}') => { cs.next(); cur.push('}'); }
            '{' => { let mut nm = String::new(); loop { match cs.next()? { '}' => break, x => nm.push(x) } } flush(&mut cur, &mut parts); let mut wide: Option<String> = None; if let Some((h, w)) = nm.clone().split_once(':') { if w.is_empty() || !w.chars().all(|c| c.is_ascii_digit()) { return None; } wide = Some(w.into()); nm = h.into(); } if nm.contains('=') { return None; }
                let e = if nm.is_empty() { let e = args.get(n)?.clone(); n += 1; e } else { nm }; parts.push(match wide { None => format!("shown(&({e})).as_slice()"), Some(w) => format!("shown_in({}, &({e})).as_slice()", w.trim_start_matches('0')) }); }
            '}' => return None, c => cur.push(c) } }
        flush(&mut cur, &mut parts); *used.entry("format! as the concatenation of its pieces".into()).or_insert(0) += 1;
        Some((format!("fmt(&[{}])", parts.join(", ")), end))
    }
}
struct Ctx { bytestrings: bool, formats: bool, root: String, files: BTreeMap<String, (String, syn::File)>, report: Vec<serde_json::Value>, lost: Vec<String>, helpers: Vec<String>, missing_opt: Vec<String>, rules: Vec<Rule>, used: BTreeMap<String, usize>, drop_macros: BTreeSet<String>, dropped: Vec<String> }

impl Ctx {
    fn load(&mut self, f: &str) -> Res<()> {
        if !self.files.contains_key(f) {
            if let Some(r) = f.strip_prefix("exp:") {
                let s = self.expand_macro(f, r)?;
                let a = syn::parse_file(&s).map_err(|e| format!("parse {f}: {e}"))?;
                self.files.insert(f.into(), (s, a));
                return Ok(());
            }
            let p = if let Some(r) = f.strip_prefix("reg:") {
                let base = format!("{}/registry/src", std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into()))));
                fs::read_dir(&base).map_err(|e| format!("{base}: {e}"))?.filter_map(|d| d.ok()).map(|d| d.path().join(r)).find(|p| p.exists()).ok_or(format!("{f}: not in the cargo registry"))?.to_string_lossy().to_string()
            } else if let Some(r) = f.strip_prefix("pb:") {
                // types prost-build generates from the repository's .proto files (world/gen_pb.py, run by the driver)
                format!("{}/{r}", std::env::var("VX_PB").map_err(|_| "VX_PB not set".to_string())?)
            } else { format!("{}/{}", self.root, f) };
            let s = fs::read_to_string(&p).map_err(|e| format!("anchor lost: {f}: {e}"))?;
            let a = syn::parse_file(&s).map_err(|e| format!("parse {f}: {e}"))?;
            self.files.insert(f.into(), (s, a));
        }
        Ok(())
    }
    /// `exp:NAME(first,args)@FILE`: the items FILE's one invocation of its own single-arm macro NAME with those leading
    /// arguments stands for; the fragments are substituted in the source text, as rustc does with the tokens
    fn expand_macro(&mut self, f: &str, r: &str) -> Res<String> {
        let bad = || format!("exp: bad selector {f}");
        let (head, path) = r.split_once('@').ok_or_else(bad)?;
        let (name, want) = head.strip_suffix(')').and_then(|h| h.split_once('(')).ok_or_else(bad)?;
        let want: Vec<String> = want.split(',').map(squash).collect();
        self.load(path)?;
        let (src, file) = self.files.get(path).unwrap().clone();
        let mut v = vec![]; all_items(&file.items, &mut v);
        let commas = |ts: &[proc_macro2::TokenTree]| -> Vec<String> {
            let mut out = vec![]; let mut cur: Option<Range<usize>> = None;
            for t in ts { if matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',') { if let Some(c) = cur.take() { out.push(src[c].to_string()); } continue; } let b = t.span().byte_range(); cur = Some(match cur { None => b, Some(c) => c.start..b.end }); }
            if let Some(c) = cur { out.push(src[c].to_string()); } out
        };
        let mut def = None; let mut calls = vec![];
        for i in &v { if let syn::Item::Macro(m) = i {
            let toks: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
            if m.ident.as_ref().map(|i| i == name).unwrap_or(false) { if def.is_some() { return Err(format!("anchor ambiguous: macro {name}")); } def = Some(toks); }
            else if m.ident.is_none() && m.mac.path.is_ident(name) { let a = commas(&toks); if a.len() >= want.len() && a.iter().zip(&want).all(|(x, y)| squash(x) == *y) { calls.push(a); } }
        } }
        let def = def.ok_or(format!("anchor lost: macro {name}"))?;
        if calls.len() != 1 { return Err(format!("anchor lost: {} invocations of {head}", calls.len())); }
        let args = calls.remove(0);
        let groups: Vec<&proc_macro2::Group> = def.iter().filter_map(|t| if let proc_macro2::TokenTree::Group(g) = t { Some(g) } else { None }).collect();
        if groups.len() != 2 { return Err(format!("macro {name}: {} arms", groups.len() / 2)); }
        let pt: Vec<proc_macro2::TokenTree> = groups[0].stream().into_iter().collect();
        let mut params = vec![];
        for p in commas(&pt) { let q = squash(&p); let (n, k) = q.strip_prefix('$').and_then(|x| x.split_once(':')).ok_or(format!("macro {name}: pattern {p}"))?; if !["ident", "ty", "expr", "literal", "tt"].contains(&k) { return Err(format!("macro {name}: fragment {k}")); } params.push((n.to_string(), k.to_string())); }
        if params.len() != args.len() { return Err(format!("macro {name}: {} arguments for {} parameters", args.len(), params.len())); }
        let mut flatv = vec![]; flat(groups[1].stream(), &mut flatv);
        let inner = groups[1].span_open().byte_range().end..groups[1].span_close().byte_range().start;
        let mut out = String::new(); let mut at = inner.start; let mut i = 0;
        while i + 1 < flatv.len() {
            if flatv[i].0 == "$" { if let Some(k) = params.iter().position(|p| p.0 == flatv[i + 1].0) {
                out.push_str(&src[at..flatv[i].1.start]);
                let a = &args[k]; let one = a.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.');
                if params[k].1 == "expr" && !one { out.push_str(&format!("({a})")); } else { out.push_str(a); }
                at = flatv[i + 1].1.end; i += 2; continue;
            } else { return Err(format!("macro {name}: ${}", flatv[i + 1].0)); } }
            i += 1;
        }
        out.push_str(&src[at..inner.end]);
        Ok(out)
    }
    fn expand(&mut self, b: &Block) -> Res<String> {
        self.load(&b.file)?;
        if let Some(n) = b.opts.get("consts") {
            // a C-like enum used through `as i32` only: its discriminants as constants
            let file = &self.files.get(&b.file).unwrap().1; let mut v = vec![]; all_items(&file.items, &mut v);
            for i in v { if let syn::Item::Enum(e) = i { if e.ident == b.sel {
                let mut next: i64 = 0; let mut o = format!("#[allow(non_upper_case_globals)] pub mod {n} {{ use super::*; ");
                for x in &e.variants {
                    if let Some((_, d)) = &x.discriminant { next = d.to_token_stream().to_string().replace(' ', "").parse().map_err(|_| format!("discriminant of {}::{}", b.sel, x.ident))?; }
                    o.push_str(&format!("pub const {}: i32 = {next}; ", x.ident)); next += 1;
                }
                self.report.push(json!({"file": b.file, "item": b.sel, "kind": "item", "lines": 0, "bytes": 0, "loops": 0, "ghost": 0}));
                return Ok(o + "}\n");
            } } }
            return Err(format!("anchor lost: enum {}", b.sel));
        }
        let (src, file) = self.files.get(&b.file).unwrap().clone();
        if b.kind == "static" { return self.lazy(b, &src, &file); }
        let f = match find(&file, &b.kind, &b.sel) { Ok(f) => f, Err(e) => { if b.opts.contains_key("optional") { self.missing_opt.push(format!("{} {}", b.file, b.sel)); return Ok(String::new()); } return Err(e); } };
        let mut rng = f.range.clone();
        let mut edits: Vec<(Range<usize>, String)> = vec![];
        for a in f.attrs { let r = a.span().byte_range(); edits.push((r, String::new())); }
        if let Some(a) = f.attrs.first() { rng.start = rng.start.min(a.span().byte_range().start); }
        if let Some(v) = f.vis { if b.opts.get("vis").map(|x| x != "keep").unwrap_or(true) { if let syn::Visibility::Inherited = v {} else { edits.push((v.span().byte_range(), String::new())); } } }
        let mut prefix = String::new();
        if let Some(d) = b.opts.get("derive") { prefix = format!("#[derive({d})]\n"); }
        if let Some(d) = b.opts.get("attr") { prefix.push_str(&format!("{d}\n")); }
        let name = b.opts.get("name").cloned();
        let mut nloops = 0; let mut nghost = 0;
        if let (Some(sig), Some(block)) = (f.sig, f.block) {
            if let Some(n) = &name { edits.push((sig.ident.span().byte_range(), n.clone())); }
            // the store behind `&self` is shared mutable state: the model makes the mutation visible in the receiver
            if b.opts.contains_key("mut_self") { match sig.receiver() { Some(r) if r.mutability.is_none() => { edits.push((r.span().byte_range(), "&mut self".into())); self.dropped.push(format!("{}: `&self` read as `&mut self` (store mutation made explicit)", b.sel)); } _ => self.lost.push(format!("{} receiver", b.sel)) } }
            // state behind a global (the file system) becomes a parameter
            if let Some(x) = b.opts.get("extra") { let c = sig.paren_token.span.close().byte_range().start; let comma = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " }; edits.push((c..c, format!("{comma}{x}"))); self.dropped.push(format!("{}: takes the file system as a parameter", b.sel)); }
            if let Some(a) = &sig.asyncness { edits.push((a.span.byte_range(), String::new())); self.dropped.push(format!("{}: async", b.sel)); }
            if let (Some(r), syn::ReturnType::Type(_, t)) = (b.opts.get("ret"), &sig.output) { let tr = t.span().byte_range(); edits.push((tr.start..tr.start, format!("({r}: "))); edits.push((tr.end..tr.end, ")".into())); }
            let mut lv = LoopV { loops: vec![], drops: vec![], drop_macros: &self.drop_macros, calls: Default::default(), methods: Default::default(), awaits: vec![], stmts: vec![], attrs: vec![], names: Default::default(), cont: vec![], brk: vec![] };
            lv.visit_block(block);
            let (loops, drops, awaits, stmts, attrs) = (lv.loops, lv.drops, lv.awaits, lv.stmts, lv.attrs);
            for a in awaits { edits.push((a, String::new())); }
            for a in attrs { edits.push((a, String::new())); }
            if !lv.cont.is_empty() { self.dropped.push(format!("{}: `continue` read as skipping the rest of the loop body", b.sel)); }
            if !lv.brk.is_empty() { self.dropped.push(format!("{}: `break` in a for loop read as a flag that skips the remaining iterations", b.sel)); }
            for c in lv.brk { edits.push(c); }
            for c in lv.cont { edits.push(c); }
            for d in drops { self.dropped.push(format!("{}: {}", b.sel, src[d.clone()].lines().next().unwrap_or(""))); edits.push((d, String::new())); }
            nloops = loops.len();
            let open = block.brace_token.span.open().byte_range().start;
            for (k, text) in &b.sections { if k == "hide" { edits.push((open + 1..open + 1, format!("\n{text}\n"))); } }
            if std::env::var("VX_VACUITY").is_ok() && !b.opts.contains_key("novac") { edits.push((open + 1..open + 1, "\nproof { assert(false); }\n".into())); }
            if let Some(n) = b.opts.get("args") {
                // the parameters by position: the contract's names, whatever the source calls them
                let names: Vec<&str> = n.split(',').collect(); let mut k = 0;
                for a in sig.inputs.iter() { if let syn::FnArg::Typed(t) = a { if let syn::Pat::Ident(p) = &*t.pat { if let Some(nm) = names.get(k) { if *nm != "_" && p.ident != *nm {
                    edits.push((p.span().byte_range(), nm.to_string())); edits.push((open + 1..open + 1, format!("\nlet {} {} = {nm};\n", if p.mutability.is_some() { "mut" } else { "" }, p.ident)));
                } } } k += 1; } }
            }
            let mut nloopspec = 0;
            for (k, text) in &b.sections {
                let mut it = k.split_whitespace();
                match it.next().unwrap_or("") {
                    "contract" => edits.push((open..open, format!("\n{text}\n"))),
                    "loop" => {
                        nloopspec += 1;
                        let i: usize = it.next().unwrap().parse().map_err(|_| "loop index".to_string())?;
                        match loops.get(i) {
                            None => { self.lost.push(format!("{} loop {i}", b.sel)); }
                            Some((_, ob, itx)) => {
                                edits.push((*ob..*ob, format!("\n{text}\n")));
                                for o in it { if let Some(n) = o.strip_prefix("iter=") { match itx { Some((p, _)) => edits.push((*p..*p, format!("{n}: "))), None => self.lost.push(format!("{} loop {i} is not a for loop", b.sel)) } } if o == "while" && itx.is_some() { self.lost.push(format!("{} loop {i} is a for loop", b.sel)); } }
                            }
                        }
                    }
                    w @ ("loopstart" | "loopend") => {
                        nghost += 1; let i: usize = it.next().unwrap().parse().map_err(|_| "loop index".to_string())?;
                        match loops.get(i) { None => self.lost.push(format!("{} loop {i}", b.sel)), Some(l) => { let at = if w == "loopstart" { l.1 + 1 } else { l.0.end - 1 }; edits.push((at..at, format!("\n{text}\n"))); } }
                    }
                    "start" => edits.push((open + 1..open + 1, format!("\n{text}\n"))),
                    "hide" => {}
                    "end_body" => { let c = block.brace_token.span.close().byte_range().start; edits.push((c..c, format!("\n{text}\n"))) }
                    w @ ("before" | "after" | "before_last") => {
                        nghost += 1;
                        let p = pattern(k[w.len()..].trim())?;
                        let mut toks = vec![]; flat(block.to_token_stream(), &mut toks);
                        let mut idx: Vec<usize> = (0..toks.len()).collect(); if w == "before_last" { idx.reverse(); }
                        let mut ok = false;
                        for i in idx { let mut bb = BTreeMap::new(); if match_at(&toks, i, &p, &mut bb).is_some() {
                            let pos = toks[i].1.start;
                            // innermost statement containing pos
                            if let Some(s) = stmts.iter().filter(|s| s.start <= pos && pos < s.end).min_by_key(|s| s.end - s.start) { let at = if w == "after" { s.end } else { s.start }; edits.push((at..at, format!("\n{text}\n"))); ok = true; break; }
                        } }
                        if !ok { self.lost.push(format!("{} {k}", b.sel)); }
                    }
                    "" | "rule" => {}
                    o => return Err(format!("unknown section {o}")),
                }
            }
            if let Some(n) = b.opts.get("loops") { let n: usize = n.parse().unwrap(); if n != nloops { self.lost.push(format!("{}: {nloops} loops, spec written for {n}", b.sel)); } }
            else if nloops != nloopspec && b.opts.get("anyloops").is_none() { self.lost.push(format!("{}: {nloops} loops, spec written for {nloopspec}", b.sel)); }
            self.auto_helpers(b, &file, &lv.calls, &lv.methods)?;
        } else if let Some(sig) = f.sig {
            // a method a trait declares without a body: the contract goes before the semicolon
            if let (Some(r), syn::ReturnType::Type(_, t)) = (b.opts.get("ret"), &sig.output) { let tr = t.span().byte_range(); edits.push((tr.start..tr.start, format!("({r}: "))); edits.push((tr.end..tr.end, ")".into())); }
            for (k, text) in &b.sections { if k == "contract" { edits.push((rng.end - 1..rng.end - 1, format!("\n{text}\n"))); } }
        } else {
            // drop every attribute and visibility inside items
            struct AV(Vec<Range<usize>>, bool);
            impl<'a> Visit<'a> for AV { fn visit_attribute(&mut self, n: &'a syn::Attribute) { self.0.push(n.span().byte_range()); } fn visit_visibility(&mut self, n: &'a syn::Visibility) { if !self.1 { if let syn::Visibility::Inherited = n {} else { self.0.push(n.span().byte_range()); } } } }
            let mut av = AV(vec![], b.opts.get("vis").map(|x| x == "keep").unwrap_or(false));
            let body = &src[rng.clone()];
            if let Ok(it) = syn::parse_str::<syn::Item>(body) { av.visit_item(&it); for r in av.0 { edits.push((r.start + rng.start..r.end + rng.start, String::new())); } }
            if let Some(n) = &name { let it: syn::Item = syn::parse_str(body).map_err(|e| e.to_string())?; let id = match &it { syn::Item::Struct(s) => s.ident.span(), syn::Item::Enum(s) => s.ident.span(), syn::Item::Const(s) => s.ident.span(), _ => return Err("name= on this item".into()) }; let r = id.byte_range(); edits.push((r.start + rng.start..r.end + rng.start, n.clone())); }
        }
        // token rules
        let text = &src[rng.clone()];
        let ts = TokenStream::from_str(text).map_err(|e| e.to_string())?;
        let mut toks = vec![]; flat(ts, &mut toks);
        for t in toks.iter_mut() { t.1 = t.1.start + rng.start..t.1.end + rng.start; }
        let mut rules = self.rules.clone();
        for (k, v) in &b.sections { if k == "rule" { rules.insert(0, parse_rule(v.trim())?); } }
        edits.sort_by(|a, b| a.0.start.cmp(&b.0.start).then(a.0.end.cmp(&b.0.end)));
        let mut used = std::mem::take(&mut self.used);
        let out = Rw { src: &src, toks: &toks, rules: &rules, edits: &edits, bytestrings: self.bytestrings, formats: self.formats }.go(rng.clone(), None, &mut used);
        self.used = used;
        self.report.push(json!({"file": b.file, "item": b.sel, "kind": b.kind, "lines": src[..rng.start].lines().count() + 1, "bytes": rng.len(), "loops": nloops, "ghost": nghost}));
        let mut suffix = String::new();
        if let Some(d) = b.opts.get("std") {
            // derived PartialEq / Clone of the source, as trusted structural equality and copy
            let at: String = f.attrs.iter().map(|a| squash(&a.to_token_stream().to_string())).collect();
            let n = name.clone().unwrap_or(b.sel.clone());
            for w in d.split_whitespace() { match w {
                "eq" => { if !at.contains("PartialEq") { return Err(format!("anchor lost: {} does not derive PartialEq", b.sel)); } suffix.push_str(&format!("impl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{n}) -> bool {{ *self == *o }} }}\nimpl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &{n}) -> bool {{ unimplemented!() }} }}\n")); }
                "clone" => { if !at.contains("Clone") { return Err(format!("anchor lost: {} does not derive Clone", b.sel)); } suffix.push_str(&format!("impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: {n}) ensures r == *self {{ unimplemented!() }} }}\n")); }
                o => return Err(format!("std={o}")),
            } }
        }
        Ok(format!("// ---- {} {} {}\n{}{}\n{}", b.file, b.kind, b.sel, prefix, out, suffix))
    }
    /// a `static ref NAME: TYPE = EXPR;` of a lazy_static block becomes `fn NAME() -> (r: TYPE) { EXPR }`
    fn lazy(&mut self, b: &Block, src: &str, file: &syn::File) -> Res<String> {
        let mut v = vec![]; all_items(&file.items, &mut v);
        for i in &v { if let syn::Item::Const(c) = i { if c.ident == b.sel {
            let g = |s: proc_macro2::Span| src[s.byte_range()].to_string(); let (ty, mut ex) = (g(c.ty.span()), g(c.expr.span()));
            if self.bytestrings && ex.starts_with("b\"") { ex = format!("bs({})", &ex[1..]); }
            let contract: String = b.sections.iter().filter(|s| s.0 == "contract").map(|s| s.1.clone()).collect(); let start: String = b.sections.iter().filter(|s| s.0 == "start").map(|s| s.1.clone()).collect();
            let vac = if std::env::var("VX_VACUITY").is_ok() { "\nproof { assert(false); }\n" } else { "" };
            self.report.push(json!({"file": b.file, "item": b.sel, "kind": "fn", "lines": 0, "bytes": ex.len(), "loops": 0, "ghost": 0}));
            return Ok(format!("// ---- {} const {}\nfn {}() -> (r: {})\n{}\n{{{}{}\n{}\n}}\n", b.file, b.sel, b.opts.get("name").unwrap_or(&b.sel), ty.replace("&[", "&'static [").replace("&str", "&'static str"), contract, vac, start, ex));
        } } }
        for i in v { if let syn::Item::Macro(m) = i { if squash(&m.mac.path.to_token_stream().to_string()).ends_with("lazy_static") {
            let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect(); let mut k = 0;
            while k < ts.len() {
                if ts[k].to_string() == "ref" && k + 2 < ts.len() && ts[k + 1].to_string() == b.sel {
                    let t0 = k + 3; let eq = (t0..ts.len()).find(|&j| ts[j].to_string() == "=").ok_or("static without value")?; let end = (eq..ts.len()).find(|&j| ts[j].to_string() == ";").ok_or("static without end")?;
                    let sp = |a: usize, z: usize| src[ts[a].span().byte_range().start..ts[z].span().byte_range().end].to_string();
                    let (ty, ex) = (sp(t0, eq - 1), sp(eq + 1, end - 1));
                    let contract: String = b.sections.iter().filter(|s| s.0 == "contract").map(|s| s.1.clone()).collect();
                    let vac = if std::env::var("VX_VACUITY").is_ok() { "\nproof { assert(false); }\n" } else { "" };
                    let start: String = b.sections.iter().filter(|s| s.0 == "start").map(|s| s.1.clone()).collect();
                    self.report.push(json!({"file": b.file, "item": b.sel, "kind": "fn", "lines": 0, "bytes": ex.len(), "loops": 0, "ghost": 0}));
                    return Ok(format!("// ---- {} static {}\nfn {}() -> (r: {})\n{}\n{{{}{}\n{}\n}}\n", b.file, b.sel, b.opts.get("name").unwrap_or(&b.sel), ty, contract, vac, start, ex));
                }
                k += 1;
            }
        } } }
        Err(format!("anchor lost: static {}", b.sel))
    }
    fn auto_helpers(&mut self, b: &Block, file: &syn::File, calls: &BTreeSet<String>, methods: &BTreeSet<String>) -> Res<()> {
        let owner = b.sel.rfind("::").map(|p| b.sel[..p].to_string());
        let mut v = vec![]; all_items(&file.items, &mut v);
        for i in v { match i {
            syn::Item::Fn(f) => { let n = f.sig.ident.to_string(); if calls.iter().any(|c| *c == n || c.ends_with(&format!("::{n}"))) { self.helpers.push(format!("fn|{}|{}", b.file, n)); } }
            syn::Item::Impl(im) if im.trait_.is_none() => if let Some(o) = &owner { let t = ty_name(&im.self_ty); if t.split('<').next().unwrap() == squash(o).split('<').next().unwrap() { for x in &im.items { if let syn::ImplItem::Fn(x) = x { let n = x.sig.ident.to_string(); if methods.contains(&n) || calls.contains(&format!("Self::{n}")) || calls.contains(&format!("{o}::{n}")) { self.helpers.push(format!("fn|{}|{}::{}", b.file, o, n)); } } } } },
            _ => {}
        } }
        Ok(())
    }
}
fn parse_rule(s: &str) -> Res<Rule> { let (a, b) = s.split_once("=>>").ok_or(format!("rule needs =>>: {s}"))?; Ok(Rule { pat: pattern(a.trim())?, rep: b.trim().to_string(), text: s.to_string() }) }

fn parse_opts(s: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new(); let mut rest = s.trim();
    while !rest.is_empty() {
        let e = rest.find(|c: char| c == '=' || c.is_whitespace()).unwrap_or(rest.len());
        let k = rest[..e].to_string();
        if rest[e..].starts_with('=') {
            let r = &rest[e + 1..];
            let (v, n) = if let Some(r2) = r.strip_prefix('"') { let q = r2.find('"').unwrap(); (r2[..q].to_string(), q + 2) } else { let q = r.find(char::is_whitespace).unwrap_or(r.len()); (r[..q].to_string(), q) };
            m.insert(k, v); rest = r[n..].trim_start();
        } else { m.insert(k, String::new()); rest = rest[e..].trim_start(); }
    }
    m
}

fn trim(args: &[String]) -> Res<()> {
    // vx trim SRC DST name,name,...   : remove the named items (and impls of those types, and `impl <Trait> for <Type>` given as "Trait for Type")
    let s = fs::read_to_string(&args[0]).map_err(|e| e.to_string())?; let f = syn::parse_file(&s).map_err(|e| e.to_string())?;
    let drop: BTreeSet<String> = args[2].split(',').map(|x| squash(x)).collect();
    let mut cut: Vec<Range<usize>> = vec![];
    for i in &f.items {
        let n = match i { syn::Item::Fn(f) => f.sig.ident.to_string(), syn::Item::Struct(f) => f.ident.to_string(), syn::Item::Enum(f) => f.ident.to_string(), syn::Item::Mod(f) => f.ident.to_string(), syn::Item::Macro(f) => f.ident.as_ref().map(|x| x.to_string()).unwrap_or_default(), syn::Item::Type(f) => f.ident.to_string(), syn::Item::Use(u) => { squash(&u.tree.to_token_stream().to_string()) }
            syn::Item::Impl(im) => { let t = ty_name(&im.self_ty); let k = match &im.trait_ { Some((_, p, _)) => format!("{}for{}", squash(&p.to_token_stream().to_string()), t), None => t.clone() }; if drop.contains(&k) { k } else { t.split('<').next().unwrap().to_string() } } _ => String::new() };
        let is_use = matches!(i, syn::Item::Use(_));
        if drop.contains(&n) || (is_use && drop.iter().any(|d| d.starts_with("use:") && n.starts_with(&d[4..]))) { cut.push(i.span().byte_range()); }
    }
    let mut out = String::new(); let mut p = 0; for r in cut { out.push_str(&s[p..r.start]); p = r.end; } out.push_str(&s[p..]);
    fs::write(&args[1], out).map_err(|e| e.to_string())
}

fn run(args: &[String]) -> Res<()> {
    let (tpl, out, root, rep) = (&args[0], &args[1], &args[2], &args[3]);
    let mut text = String::new(); include(tpl, &mut text)?;
    let mut cx = Ctx { bytestrings: false, formats: false, root: root.clone(), files: Default::default(), report: vec![], lost: vec![], helpers: vec![], missing_opt: vec![], rules: vec![], used: Default::default(), drop_macros: ["trace", "debug", "info", "warn", "error", "println", "counter", "gauge", "histogram"].iter().map(|s| s.to_string()).collect(), dropped: vec![] };
    let mut outp = String::new(); let mut lines = text.lines().peekable(); let mut err: Vec<String> = vec![];
    let mut known: BTreeSet<String> = Default::default(); let mut have: BTreeSet<String> = Default::default();
    while let Some(l) = lines.next() {
        let t = l.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let (k, rest) = d.split_once(' ').unwrap_or((d, "")); let rest = rest.trim();
            match k {
                "rule" => cx.rules.push(parse_rule(rest)?),
                "keepmacro" => { cx.drop_macros.remove(rest); }
                "formats" => cx.formats = true,
                "bytestrings" => cx.bytestrings = true,
                "known" => { for w in rest.split_whitespace() { known.insert(w.into()); } }
                "fn" | "item" | "impl" | "static" => {
                    // //@fn FILE SELECTOR | opts       (selector may contain spaces; options follow a bar)
                    let (head, opts) = rest.split_once('|').unwrap_or((rest, "")); let (file, sel) = head.trim().split_once(' ').ok_or("directive")?;
                    let mut b = Block { kind: k.into(), file: file.into(), sel: sel.trim().into(), opts: parse_opts(opts), ..Default::default() };
                    // sections until //@end, unless next line isn't a section
                    if b.opts.remove("block").is_some() {
                        let mut cur: Option<(String, String)> = None;
                        for l in lines.by_ref() { let t = l.trim_start(); if let Some(d) = t.strip_prefix("//@") { if let Some(c) = cur.take() { b.sections.push(c); } if d.trim() == "end" { break; } if let Some(r) = d.strip_prefix("rule ") { b.sections.push(("rule".into(), r.into())); } else { cur = Some((d.trim().into(), String::new())); } } else if let Some(c) = &mut cur { c.1.push_str(l); c.1.push('\n'); } }
                        if let Some(c) = cur { b.sections.push(c); }
                    }
                    have.insert(b.sel.clone());
                    match cx.expand(&b) { Ok(s) => outp.push_str(&s), Err(e) => err.push(e) }
                }
                "helpers" => {
                    let mut seen: BTreeSet<String> = Default::default();
                    // free-function helpers not already contracted; fixpoint
                    let mut added = vec![];
                    loop {
                        let next = cx.helpers.iter().find(|h| { let n = h.splitn(3, '|').nth(2).unwrap(); !have.contains(n) && !known.contains(n) && !seen.contains(*h) }).cloned();
                        let Some(h) = next else { break };
                        seen.insert(h.clone()); let p: Vec<&str> = h.splitn(3, '|').collect();
                        let b = Block { kind: "fn".into(), file: p[1].into(), sel: p[2].into(), opts: [("anyloops".to_string(), String::new())].into(), ..Default::default() };
                        match cx.expand(&b) { Ok(s) => { added.push(p[2].to_string()); if let Some(i) = p[2].rfind("::") { outp.push_str(&format!("impl {} {{\n{}\n}}\n", &p[2][..i], s)); } else { outp.push_str(&s); } } Err(e) => err.push(e) }
                    }
                    for a in added { cx.missing_opt.push(format!("uncontracted helper {a}")); }
                }
                _ => return Err(format!("unknown directive {t}")),
            }
        } else { outp.push_str(l); outp.push('\n'); }
    }
    let r = json!({"items": cx.report, "errors": err, "lost": cx.lost, "uncontracted": cx.missing_opt, "rules": cx.used, "dropped": cx.dropped});
    fs::write(rep, serde_json::to_string_pretty(&r).unwrap()).map_err(|e| e.to_string())?;
    fs::write(out, outp).map_err(|e| e.to_string())?;
    if !err.is_empty() { return Err(err.join("; ")); }
    Ok(())
}
fn include(p: &str, out: &mut String) -> Res<()> {
    let s = fs::read_to_string(p).map_err(|e| format!("{p}: {e}"))?; let dir = std::path::Path::new(p).parent().unwrap();
    for l in s.lines() { if let Some(f) = l.trim().strip_prefix("//@include ") { include(dir.join(f.trim()).to_str().unwrap(), out)?; } else { out.push_str(l); out.push('\n'); } }
    Ok(())
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let r = match a.first().map(|s| s.as_str()) { Some("trim") => trim(&a[1..]), Some("extract") => run(&a[1..]), _ => Err("usage: vx extract TPL OUT ROOT REPORT | vx trim SRC DST names".into()) };
    if let Err(e) = r { eprintln!("vx: {e}"); std::process::exit(3); }
}
