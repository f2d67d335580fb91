//! The rewrites. Each one is listed in DESIGN.md; the names pushed to `done` go to the evidence.
use crate::edit::Edits;
use crate::overlay::FnSpec;
use crate::{Src, last_seg};
use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

type R<T> = Result<T, String>;

/// Evaluates cfg attributes: unix, every feature on, test off.
pub fn cfg_on(attrs: &[syn::Attribute]) -> bool {
    fn eval(m: &syn::Meta) -> bool {
        match m {
            syn::Meta::Path(p) => p.is_ident("unix") || p.is_ident("debug_assertions"),
            syn::Meta::NameValue(nv) => nv.path.is_ident("feature"),
            syn::Meta::List(l) => {
                let inner: Vec<syn::Meta> = l
                    .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect())
                    .unwrap_or_default();
                if l.path.is_ident("not") { !inner.iter().all(eval) } else if l.path.is_ident("any") { inner.iter().any(eval) } else { inner.iter().all(eval) }
            }
        }
    }
    attrs.iter().all(|a| {
        if !a.path().is_ident("cfg") { return true; }
        a.parse_args::<syn::Meta>().map(|m| eval(&m)).unwrap_or(true)
    })
}

fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

struct MacroFinder<'t> { name: Option<String>, text: &'t str, defs: Vec<(String, String, String, (usize, usize))>, uses: Vec<((usize, usize), String)> }

impl<'ast> Visit<'ast> for MacroFinder<'_> {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) { if cfg_on(&m.attrs) { visit::visit_item_mod(self, m); } }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) { if cfg_on(&f.attrs) { visit::visit_item_fn(self, f); } }
    fn visit_item_macro(&mut self, m: &'ast syn::ItemMacro) {
        if let Some(id) = &m.ident {
            // ($x:expr) => {{ body }}
            let toks: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
            if let (Some(proc_macro2::TokenTree::Group(p)), Some(proc_macro2::TokenTree::Group(b))) = (toks.first(), toks.get(3)) {
                let ps: Vec<String> = p.stream().into_iter().map(|t| t.to_string()).collect();
                if ps.len() == 4 && ps[0] == "$" && ps[2] == ":" && ps[3] == "expr" && toks.len() <= 5 {
                    let r = b.span().byte_range();
                    self.defs.push((id.to_string(), ps[1].clone(), self.text[r.start + 1..r.end - 1].to_string(), rng(m)));
                }
            }
        }
        visit::visit_item_macro(self, m);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if let (Some(n), Some(last)) = (&self.name, m.path.segments.last()) {
            if last.ident == n.as_str() {
                let d = match &m.delimiter { syn::MacroDelimiter::Paren(p) => p.span, syn::MacroDelimiter::Brace(p) => p.span, syn::MacroDelimiter::Bracket(p) => p.span };
                let (o, c) = (d.open().byte_range().end, d.close().byte_range().start);
                self.uses.push((rng(m), self.text[o..c].trim().trim_end_matches(',').to_string()));
            }
        }
        visit::visit_macro(self, m);
    }
}

/// `new` on as many lines as `old`, so that line numbers stay those of the source file
fn same_lines(old: &str, new: String) -> String {
    let n = |t: &str| t.matches('\n').count();
    let mut new = new;
    if n(&new) > n(old) {
        if let Ok(ts) = new.parse::<proc_macro2::TokenStream>() { new = ts.to_string(); }
    }
    while n(&new) < n(old) { new.push('\n'); }
    new
}

pub fn expand_local_macros(text: &str) -> R<String> {
    let mut text = text.to_string();
    for _ in 0..50 {
        let file = syn::parse_file(&text).map_err(|e| format!("does not parse: {e}"))?;
        let mut f = MacroFinder { name: None, text: &text, defs: vec![], uses: vec![] };
        f.visit_file(&file);
        let Some((name, var, body, def_range)) = f.defs.first().cloned() else { return Ok(text) };
        let mut g = MacroFinder { name: Some(name.clone()), text: &text, defs: vec![], uses: vec![] };
        g.visit_file(&file);
        let mut reps: Vec<((usize, usize), String)> = g.uses.iter().map(|(r, a)| (*r, format!("({})", body.replace(&format!("${var}"), &format!("({a})"))))).collect();
        if reps.is_empty() { reps.push((def_range, String::new())); }
        // one use at a time keeps nested uses right
        let (r, t) = reps.into_iter().next_back().unwrap();
        let t = same_lines(&text[r.0..r.1], t);
        text.replace_range(r.0..r.1, &t);
    }
    Err("too many local macro uses".into())
}

pub fn expand_ready(text: &str) -> R<String> {
    let mut text = text.to_string();
    for _ in 0..200 {
        let file = syn::parse_file(&text).map_err(|e| format!("does not parse: {e}"))?;
        let mut g = MacroFinder { name: Some("ready".into()), text: &text, defs: vec![], uses: vec![] };
        g.visit_file(&file);
        let Some((r, a)) = g.uses.into_iter().next_back() else { return Ok(text) };
        let t = same_lines(&text[r.0..r.1], format!("(match {a} {{ Poll::Ready(zv_t) => zv_t, Poll::Pending => return Poll::Pending }})"));
        text.replace_range(r.0..r.1, &t);
    }
    Err("too many uses of ready!".into())
}

#[derive(Clone, Copy, PartialEq)]
enum Quest { Native, Result, Poll, PollOpt }

struct Rw<'a, 't, 's> {
    src: &'a Src,
    ed: &'a mut Edits<'t>,
    spec: &'s FnSpec,
    quest: Quest,
    closure_depth: usize,
    n_closure: usize,
    /// closures without a contract
    open_closures: usize,
    n_loop: usize,
    used_loops: usize,
    stmts: Vec<(usize, usize)>,
    calls: std::collections::HashMap<String, usize>,
    done: Vec<String>,
    err: Option<String>,
    loops: Vec<(usize, Option<String>)>,
    /// closures with a contract, as they are in the source
    contract_closures: Vec<String>,
    /// parameters that are Options
    options: std::collections::HashSet<String>,
    /// text needed to stay inside of loops (proof blocks)
    matched_hints: usize,
    mut_self: bool,
}

pub fn rewrite_types(im: &syn::ItemImpl, ed: &mut Edits) {
    struct T<'e, 't>(&'e mut Edits<'t>);
    impl<'ast> Visit<'ast> for T<'_, '_> {
        fn visit_type(&mut self, t: &'ast syn::Type) { pin_type(t, self.0); visit::visit_type(self, t); }
        fn visit_block(&mut self, _: &'ast syn::Block) {}
        fn visit_trait_bound(&mut self, b: &'ast syn::TraitBound) {
            if let Some(l) = b.path.segments.last() {
                let to = match l.ident.to_string().as_str() { "Into" => "ZvInto", "AsRef" => "ZvAsRef", "Clone" => "ZvClone", _ => "" };
                if !to.is_empty() { let r = rng(&l.ident); self.0.replace(r.0, r.1, to); }
            }
            visit::visit_trait_bound(self, b);
        }
    }
    T(ed).visit_item_impl(im);
    if let Some((_, p, _)) = &im.trait_ {
        if p.segments.last().is_some_and(|s| s.ident == "Default") {
            let r = rng(p);
            ed.replace(r.0, r.1, "ZvDefault");
        }
        if let Some(l) = p.segments.last() { if l.ident == "From" { let r = rng(&l.ident); ed.replace(r.0, r.1, "ZvFrom"); } }
        if p.is_ident("Clone") { let r = rng(p); ed.replace(r.0, r.1, "ZvClone"); }
        if p.is_ident("Drop") || p.segments.last().is_some_and(|s| s.ident == "PinnedDrop") { let r = rng(p); ed.replace(r.0, r.1, "ZvDrop"); }
    }
}

/// `Pin<&mut T>` becomes `&mut T`
fn pin_type(t: &syn::Type, ed: &mut Edits) -> bool {
    if let syn::Type::Path(p) = t {
        if let Some(s) = p.path.segments.last() {
            if s.ident == "Pin" {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    // Pin<Box<dyn Future<Output = T>>> becomes ZvBoxFuture<T>
                    if let Some(syn::GenericArgument::Type(syn::Type::Path(b))) = a.args.first() {
                        if let Some(syn::PathSegment { ident, arguments: syn::PathArguments::AngleBracketed(b) }) = b.path.segments.last() {
                            if let (true, Some(syn::GenericArgument::Type(syn::Type::TraitObject(d)))) = (ident == "Box", b.args.first()) {
                                if let Some(syn::TypeParamBound::Trait(tb)) = d.bounds.first() {
                                    if let (true, syn::PathArguments::AngleBracketed(fa)) = (tb.path.segments.last().unwrap().ident == "Future", &tb.path.segments.last().unwrap().arguments) {
                                        if let Some(syn::GenericArgument::AssocType(at)) = fa.args.first() {
                                            let (w, i) = (rng(t), rng(&at.ty));
                                            ed.replace(w.0, i.0, "ZvBoxFuture<");
                                            ed.replace(i.1, w.1, ">");
                                            return true;
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if let Some(syn::GenericArgument::Type(inner @ syn::Type::Reference(_))) = a.args.first() {
                        let (o, i) = (rng(t), rng(inner));
                        ed.replace(o.0, i.0, "");
                        ed.replace(i.1, o.1, "");
                        return true;
                    }
                }
            }
        }
    }
    false
}

impl Rw<'_, '_, '_> {
    fn note(&mut self, s: &str) { if !self.done.iter().any(|d| d == s) { self.done.push(s.into()); } }
    fn attrs(&mut self, a: &[syn::Attribute]) { for x in a { let r = rng(x); self.ed.replace(r.0, r.1, ""); } }
    fn mac(&mut self, m: &syn::Macro, whole: (usize, usize)) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        match name.as_str() {
            "assert" | "debug_assert" => {
                let args = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
                match args {
                    Ok(args) if !args.is_empty() => {
                        let f = &args[0];
                        let r = rng(f);
                        self.ed.replace(whole.0, r.0, "zv_assert(");
                        self.ed.replace(r.1, whole.1, ")");
                        self.note("assert! becomes a call that requires its condition");
                        self.visit_expr(f);
                    }
                    _ => self.err = Some("unparsable assert!".into()),
                }
            }
            "format" => {
                match self.format(m, whole) {
                    Ok(()) => self.note("format! becomes contracted concatenations"),
                    Err(e) => self.err = Some(format!("format!: {e}")),
                }
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => {
                self.ed.replace(whole.0, whole.1, "zv_unreachable()");
                self.note("unreachable!/panic! becomes a call that requires false");
            }
            _ => {}
        }
    }
    /// format!("a{x}b{}", y) as a chain of concatenations
    fn format(&mut self, m: &syn::Macro, whole: (usize, usize)) -> R<()> {
        let args = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
        let mut it = args.iter();
        let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) = it.next() else { return Err("no literal".into()) };
        let lit = l.value();
        let rest: Vec<&syn::Expr> = it.collect();
        // each part: text before an argument, the argument, text after it
        let (mut parts, mut cur, mut k) = (Vec::<(String, Option<usize>, String)>::new(), String::new(), 0);
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => { cur.push('{'); i += 1; }
                '}' if cs.get(i + 1) == Some(&'}') => { cur.push('}'); i += 1; }
                '{' => {
                    let n: String = cs[i + 1..].iter().take_while(|c| **c != '}').collect();
                    i += n.chars().count() + 1;
                    if !cur.is_empty() { parts.push((format!("zv_lit({:?})", cur), None, String::new())); cur.clear(); }
                    if n.is_empty() {
                        if k >= rest.len() { return Err("too few arguments".into()); }
                        parts.push(("ZvDisplay::zv_show(&(".into(), Some(k), "))".into()));
                        k += 1;
                    } else if n.chars().all(|c| c.is_alphanumeric() || c == '_') && n.chars().any(|c| !c.is_numeric()) {
                        // an argument given by name must be a variable in scope
                        if rest.len() > k && rest.iter().any(|e| matches!(e, syn::Expr::Assign(_))) { return Err("named arguments".into()); }
                        parts.push((format!("ZvDisplay::zv_show(&({n}))"), None, String::new()));
                    } else { return Err("format specification".into()) }
                }
                c => cur.push(c),
            }
            i += 1;
        }
        if !cur.is_empty() || parts.is_empty() { parts.push((format!("zv_lit({:?})", cur), None, String::new())); }
        if k != rest.len() { return Err("arguments not used".into()); }
        let mut t = "zv_cat(".repeat(parts.len() - 1);
        let mut at = whole.0;
        for (i, (b, arg, e)) in parts.iter().enumerate() {
            if i > 0 { t.push_str(", "); }
            t.push_str(b);
            if let Some(j) = arg {
                let r = rng(rest[*j]);
                self.ed.replace(at, r.0, std::mem::take(&mut t));
                at = r.1;
                self.visit_expr(rest[*j]);
            }
            t.push_str(e);
            if i > 0 { t.push(')'); }
        }
        self.ed.replace(at, whole.1, t);
        Ok(())
    }
    fn loop_head(&mut self) -> (usize, String, String) {
        let n = self.n_loop;
        self.n_loop += 1;
        let inv = self.spec.loops.get(&n).cloned();
        if inv.is_some() { self.used_loops += 1; }
        let body = self.spec.loop_body.get(&n).cloned().unwrap_or_default();
        (n, inv.map(|i| format!("\n{i}")).unwrap_or_default(), body)
    }
    fn body_hints(&mut self, n: usize, b: &syn::Block, start: &str) {
        let (open, close) = (b.brace_token.span.open().byte_range().end, b.brace_token.span.close().byte_range().start);
        if !start.is_empty() { self.ed.insert(open, format!("\n{start}")); }
        if let Some(e) = self.spec.loop_end.get(&n) {
            // a unit block as last expression must not become a value
            if let Some(syn::Stmt::Expr(x, None)) = b.stmts.last() { let r = rng(x); self.ed.insert(r.1, ";"); }
            self.ed.insert(close, format!("\n{e}"));
        }
    }
    /// proof text before a jump out of the loops in `which`
    fn exit_hint(&mut self, from: usize, to: usize, label: Option<String>, all: bool) {
        if self.closure_depth > 0 { return; }
        let mut t = String::new();
        for (k, (n, l)) in self.loops.iter().enumerate().rev() {
            let last = k + 1 == self.loops.len();
            if let Some(h) = self.spec.exits.get(n) { t.push_str(h); }
            if all { continue; }
            match &label { None => if last { break }, Some(x) => if l.as_ref() == Some(x) { break } }
        }
        if t.is_empty() { return; }
        self.ed.insert(from, format!("{{ {t}"));
        self.ed.insert_first(to, " }");
    }
    /// x.map_or(d, |p| e) and the like become the match they stand for, where the closure has no contract in the overlay
    fn inline_combinator<'e>(&mut self, m: &'e syn::ExprMethodCall, name: &str) -> bool where Self: Visit<'e> {
        fn simple(c: &syn::ExprClosure) -> bool {
            struct V(bool);
            impl<'a> Visit<'a> for V {
                fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
                fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
                fn visit_expr_await(&mut self, _: &'a syn::ExprAwait) { self.0 = true; }
                fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) { self.0 = true; }
            }
            let mut v = V(false);
            v.visit_expr(&c.body);
            !v.0 && c.asyncness.is_none()
        }
        let mut cl = vec![];
        for a in &m.args {
            match a { syn::Expr::Closure(c) if simple(c) => cl.push(Some(c)), syn::Expr::Closure(_) => return false, _ => cl.push(None) }
        }
        let n = cl.iter().flatten().count();
        let arity: Vec<usize> = cl.iter().flatten().map(|c| c.inputs.len()).collect();
        // arms: (text before the pattern of the closure, closure or other argument, text after the expression)
        let (head, arms): (&str, Vec<(&str, usize, &str)>) = match (name, m.args.len(), n, arity.as_slice()) {
            ("unwrap_or_else", 1, 1, [0]) => ("match ", vec![("Some(zv_x) => zv_x, None => ", 0, "")]),
            ("unwrap_or_else", 1, 1, [1]) => ("match ", vec![("Ok(zv_x) => zv_x, Err(", 0, "")]),
            ("ok_or_else", 1, 1, [0]) => ("match ", vec![("Some(zv_x) => Ok(zv_x), None => Err(", 0, ")")]),
            ("is_some_and", 1, 1, [1]) => ("match ", vec![("None => false, Some(", 0, "")]),
            ("is_none_or", 1, 1, [1]) => ("match ", vec![("None => true, Some(", 0, "")]),
            ("is_ok_and", 1, 1, [1]) => ("match ", vec![("Err(_) => false, Ok(", 0, "")]),
            ("map_or", 2, 1, [1]) if cl[0].is_none() => ("match ZvAsOpt::zv_opt", vec![("None => ", 0, ", "), ("Some(", 1, "")]),
            ("map_or_else", 2, 2, [0, 1]) => ("match ", vec![("None => ", 0, ", "), ("Some(", 1, "")]),
            ("map_or_else", 2, 2, [1, 1]) => ("match ", vec![("Err(", 0, ", "), ("Ok(", 1, "")]),
            ("then", 1, 1, [0]) => ("match ", vec![("false => None, true => Some(", 0, ")")]),
            ("and_then", 1, 1, [1]) if self.known_option(&m.receiver) => ("match ", vec![("None => None, Some(", 0, "")]),
            ("map", 1, 1, [1]) if self.known_option(&m.receiver) => ("match ", vec![("None => None, Some(", 0, ")")]),
            _ => return false,
        };
        // a closure with a contract is left to its contract
        struct Count(usize);
        impl<'a> Visit<'a> for Count { fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) { self.0 += 1; visit::visit_expr_closure(self, c); } }
        let mut rc = Count(0);
        rc.visit_expr(&m.receiver);
        if (0..n).any(|k| self.spec.closures.contains_key(&(self.n_closure + rc.0 + k))) { return false; }
        // closures of the receiver come first in the count
        let (w, rcv) = (rng(m), rng(&*m.receiver));
        self.visit_expr(&m.receiver);
        self.ed.insert_first(w.0, format!("({head}("));
        let mut at = rcv.1;
        let mut pre = ") { ".to_string();
        for (before, k, after) in &arms {
            let e = &m.args[*k];
            match cl[*k] {
                Some(c) => {
                    self.n_closure += 1;
                    let b = rng(&*c.body);
                    let pat = match c.inputs.first() {
                        Some(syn::Pat::Type(t)) => { let r = rng(&*t.pat); self.src.text[r.0..r.1].to_string() + ") => " }
                        Some(p) => { let r = rng(p); self.src.text[r.0..r.1].to_string() + ") => " }
                        None => String::new(),
                    };
                    let wrap = if name == "map" { "Some(" } else { "" };
                    self.ed.replace(at, b.0, format!("{pre}{before}{pat}{wrap}"));
                    self.visit_expr(&c.body);
                    at = b.1;
                }
                None => {
                    let b = rng(e);
                    self.ed.replace(at, b.0, format!("{pre}{before}"));
                    self.visit_expr(e);
                    at = b.1;
                }
            }
            pre = after.to_string();
        }
        self.ed.replace(at, w.1, format!("{pre} }})"));
        self.note(&format!(".{name}(closure) becomes the match it stands for"));
        true
    }
    /// Is the expression an Option, by the name of the method or by the type of the parameter?
    fn known_option(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Paren(p) => self.known_option(&p.expr),
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                n.starts_with("checked_") || matches!(n.as_str(), "ok" | "err" | "first" | "last" | "take" | "pop")
                    || (matches!(n.as_str(), "and_then" | "map" | "filter" | "or" | "or_else" | "copied" | "cloned" | "as_ref" | "as_mut" | "as_deref") && self.known_option(&m.receiver))
            }
            syn::Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.options.contains(&i.to_string())),
            syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Some")),
            syn::Expr::Match(m) => m.arms.iter().any(|a| self.known_option(&a.body)),
            syn::Expr::If(i) => matches!(i.then_branch.stmts.last(), Some(syn::Stmt::Expr(x, None)) if self.known_option(x)),
            syn::Expr::Block(b) => matches!(b.block.stmts.last(), Some(syn::Stmt::Expr(x, None)) if self.known_option(x)),
            _ => false,
        }
    }
    fn call_hint(&mut self, name: &str) {
        let k = self.calls.entry(name.to_string()).or_insert(0);
        let n = *k;
        *k += 1;
        let Some(st) = self.stmts.last().copied() else { return };
        let b: Vec<String> = self.spec.before_call.iter().filter(|h| h.0 == name && h.1 == n).map(|h| h.2.clone()).collect();
        for h in b { self.ed.insert(st.0, h); self.matched_hints += 1; }
        let b: Vec<String> = self.spec.before_call.iter().filter(|h| h.0 == name && h.1 == usize::MAX).map(|h| h.2.clone()).collect();
        for h in b { self.ed.insert(st.0, h); }
        let a: Vec<String> = self.spec.after_call.iter().filter(|h| h.0 == name && h.1 == usize::MAX).map(|h| h.2.clone()).collect();
        for h in a { self.ed.insert(st.1, format!("\n{h}")); }
        let a: Vec<String> = self.spec.after_call.iter().filter(|h| h.0 == name && h.1 == n).map(|h| h.2.clone()).collect();
        for h in a { self.ed.insert(st.1, format!("\n{h}")); self.matched_hints += 1; }
    }
}

/// Does the pattern bind a variable?
fn binds(p: &syn::Pat) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            if p.subpat.is_some() || p.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') { self.0 = true; }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut b = B(false);
    b.visit_pat(p);
    b.0
}

fn is_unreachable_closure(e: &syn::Expr) -> bool {
    fn body_is(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Macro(m) => m.mac.path.segments.last().is_some_and(|s| s.ident == "unreachable" || s.ident == "panic"),
            syn::Expr::Block(b) => b.block.stmts.len() == 1 && match &b.block.stmts[0] {
                syn::Stmt::Expr(e, _) => body_is(e),
                syn::Stmt::Macro(m) => m.mac.path.segments.last().is_some_and(|s| s.ident == "unreachable" || s.ident == "panic"),
                _ => false,
            },
            _ => false,
        }
    }
    matches!(e, syn::Expr::Closure(c) if c.inputs.len() <= 1 && body_is(&c.body))
}

const RENAME: &[(&str, &str, usize)] = &[
    ("as_mut", "zv_as_mut", 0), ("set", "zv_set", 1), ("into", "zv_into", 0), ("binary_search_by_key", "zv_binary_search_by_key", 2),
    ("unwrap_or_default", "zv_unwrap_or_default", 0), ("as_ref", "zv_as_ref", 0), ("as_deref", "zv_as_deref", 0),
    ("trim_end_matches", "zv_trim_end_matches", 1), ("trim_start_matches", "zv_trim_start_matches", 1), ("trim_matches", "zv_trim_matches", 1), ("ends_with", "zv_ends_with", 1), ("starts_with", "zv_starts_with", 1),
];

impl<'ast> Visit<'ast> for Rw<'_, '_, '_> {
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        let r = rng(e);
        if self.spec.end_all && self.closure_depth == 0 {
            match &e.expr {
                Some(_) => {
                    let k = rng(&e.return_token);
                    self.ed.replace(k.0, k.1, "{ let zv_ret =".to_string());
                    self.ed.insert(r.1, format!(";\n{}return zv_ret }}", self.spec.at_end));
                }
                None => {
                    self.ed.insert(r.0, format!("{{ {}", self.spec.at_end));
                    self.ed.insert(r.1, " }");
                }
            }
        }
        self.exit_hint(r.0, r.1, None, true);
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_break(&mut self, e: &'ast syn::ExprBreak) { let r = rng(e); self.exit_hint(r.0, r.1, e.label.as_ref().map(|l| l.ident.to_string()), false); visit::visit_expr_break(self, e); }
    fn visit_expr_continue(&mut self, e: &'ast syn::ExprContinue) { let r = rng(e); self.exit_hint(r.0, r.1, e.label.as_ref().map(|l| l.ident.to_string()), false); visit::visit_expr_continue(self, e); }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        if pin_type(t, self.ed) { self.note("Pin<&mut T> becomes &mut T, Pin<Box<dyn Future>> the contracted ZvBoxFuture"); }
        if let syn::Type::ImplTrait(it) = t {
            if let Some(syn::TypeParamBound::Trait(b)) = it.bounds.first() {
                let last = b.path.segments.last().unwrap();
                if last.ident == "Iterator" {
                    if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                        if let Some(syn::GenericArgument::AssocType(at)) = a.args.first() {
                            let (w, i) = (rng(t), rng(&at.ty));
                            self.ed.replace(w.0, i.0, "ZvIter<");
                            self.ed.replace(i.1, w.1, ">");
                            self.note("impl Iterator becomes the contracted ZvIter");
                        }
                    }
                }
            }
        }
        visit::visit_type(self, t);
    }
    fn visit_trait_bound(&mut self, b: &'ast syn::TraitBound) {
        let last = b.path.segments.last().unwrap();
        let to = match last.ident.to_string().as_str() { "Into" => "ZvInto", "AsRef" => "ZvAsRef", "Clone" => "ZvClone", _ => "" };
        if !to.is_empty() {
            let r = rng(&last.ident);
            self.ed.replace(r.0, r.1, to);
            self.note(&format!("bound {} becomes the contracted {to}", last.ident));
        }
        visit::visit_trait_bound(self, b);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let attrs: &[syn::Attribute] = match s {
            syn::Stmt::Local(l) => &l.attrs,
            syn::Stmt::Macro(m) => &m.attrs,
            syn::Stmt::Expr(e, _) => match e {
                syn::Expr::Block(b) => &b.attrs,
                syn::Expr::MethodCall(b) => &b.attrs,
                syn::Expr::Call(b) => &b.attrs,
                syn::Expr::If(b) => &b.attrs,
                syn::Expr::Match(b) => &b.attrs,
                _ => &[],
            },
            syn::Stmt::Item(_) => &[],
        };
        let r = rng(s);
        if !cfg_on(attrs) { self.ed.replace(r.0, r.1, ""); self.note("statements excluded by cfg are dropped"); return; }
        self.attrs(attrs);
        self.stmts.push(r);
        if let syn::Stmt::Macro(m) = s { let mr = rng(&m.mac); self.mac(&m.mac, mr); if m.mac.path.segments.last().is_some_and(|s| s.ident == "panic" || s.ident == "unreachable") { self.ed.insert_first(mr.0, "return "); } } else { visit::visit_stmt(self, s); }
        self.stmts.pop();
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if self.mut_self && p.path.is_ident("self") { let r = rng(p); self.ed.replace(r.0, r.1, "zv_self"); }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) { let r = rng(&m.mac); self.mac(&m.mac, r); }
    fn visit_expr_await(&mut self, a: &'ast syn::ExprAwait) {
        let (o, b) = (rng(a), rng(&*a.base));
        self.ed.replace(b.1, o.1, "");
        self.note("async and .await are dropped");
        visit::visit_expr_await(self, a);
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        if self.quest != Quest::Native && self.closure_depth == 0 {
            let (o, i) = (rng(t), rng(&*t.expr));
            self.ed.insert(o.0, "(match ");
            let ret = match self.quest { Quest::Poll => "Poll::Ready(Err(zv_e.zv_into()))", Quest::Result => "Err(zv_e.zv_into())", _ => "Poll::Ready(Some(Err(zv_e.zv_into())))" };
            self.ed.replace(i.1, o.1, format!(" {{ Ok(zv_v) => zv_v, Err(zv_e) => return {ret} }})"));
            self.note("? becomes a match with the contracted conversion");
        }
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        let mr = rng(&m.method);
        let whole = rng(m);
        if name == "unwrap_or_else" && m.args.len() == 1 && is_unreachable_closure(&m.args[0]) {
            self.ed.replace(mr.0, whole.1, "unwrap()");
            self.note("unwrap_or_else(|_| unreachable!()) becomes unwrap()");
            self.visit_expr(&m.receiver);
            return;
        }
        if self.inline_combinator(m, &name) { return; }
        if name == "contains" && m.args.len() == 1 {
            let mut rcv = &*m.receiver;
            while let syn::Expr::Paren(p) = rcv { rcv = &p.expr; }
            if let syn::Expr::Range(r) = rcv {
                if let (Some(a), Some(b)) = (&r.start, &r.end) {
                    let f = if matches!(r.limits, syn::RangeLimits::Closed(_)) { "zv_in_closed(" } else { "zv_in_half_open(" };
                    let (ar, br, x) = (rng(&**a), rng(&**b), rng(&m.args[0]));
                    self.ed.replace(whole.0, ar.0, f);
                    self.ed.replace(ar.1, br.0, ", ");
                    self.ed.replace(br.1, x.0, ", ");
                    self.ed.replace(x.1, whole.1, ")");
                    self.note("(a..b).contains(&x) becomes a contracted call");
                    self.visit_expr(a);
                    self.visit_expr(b);
                    self.visit_expr(&m.args[0]);
                    return;
                }
            }
        }
        if (name == "get" || name == "slice") && m.args.len() == 1 {
            if let syn::Expr::Range(r) = &m.args[0] {
                if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                    let (aw, (to, x, y)) = (rng(&m.args[0]), match (&r.start, &r.end) {
                        (Some(x), None) => ("_from", Some(x), None), (None, Some(x)) => ("_to", Some(x), None),
                        (Some(x), Some(y)) => ("", Some(x), Some(y)), _ => ("_full", None, None),
                    });
                    self.ed.replace(mr.0, mr.1, format!("zv_{name}{to}"));
                    let mut at = aw.0;
                    for e in [x, y].into_iter().flatten() {
                        let er = rng(&**e);
                        self.ed.replace(at, er.0, if at == aw.0 { "" } else { ", " });
                        at = er.1;
                        self.visit_expr(e);
                    }
                    self.ed.replace(at, aw.1, "");
                    self.note("s.get(a..) and b.slice(a..b) become contracted calls");
                    self.visit_expr(&m.receiver);
                    return;
                }
            }
        }
        for (f, t, n) in RENAME {
            if name == *f && m.args.len() == *n && m.turbofish.is_none() {
                self.ed.replace(mr.0, mr.1, *t);
                self.note(&format!(".{f}() becomes the contracted .{t}()"));
            }
        }
        for (f, t) in &self.spec.renames {
            if name == *f {
                self.ed.replace(mr.0, mr.1, t.clone());
                self.note(&format!(".{f}() becomes the contracted .{t}()"));
            }
        }
        self.call_hint(&name);
        for (f, g) in &self.spec.callghost {
            if *f == name {
                let close = m.paren_token.span.close().byte_range().start;
                self.ed.insert(close, if m.args.is_empty() || m.args.trailing_punct() { g.clone() } else { format!(", {g}") });
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let joined = segs.join("::");
            let r = rng(&p.path);
            let to = match joined.as_str() {
                "std::io::Error::new" | "io::Error::new" | "Error::new" => Some("zv_io_error_new"),
                "std::io::Error::other" | "io::Error::other" => Some("zv_io_error_other"),
                "std::cmp::min" | "core::cmp::min" | "cmp::min" => Some("Ord::min"),
                "std::cmp::max" | "core::cmp::max" | "cmp::max" => Some("Ord::max"),
                "Box::pin" => Some("zv_box_pin"),
                "std::future::ready" | "future::ready" => Some("zv_ready"),
                _ => None,
            };
            if let Some(t) = to { self.ed.replace(r.0, r.1, t); self.note(&format!("{joined} becomes the contracted {t}")); }
            if segs.len() >= 2 && segs.last().unwrap() == "default" && c.args.is_empty() {
                let l = rng(p.path.segments.last().unwrap());
                self.ed.replace(l.0, l.1, "zv_default");
                self.note("default() of derived Default is expanded");
            }
            self.call_hint(segs.last().unwrap());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_struct(&mut self, s: &'ast syn::ExprStruct) {
        if let Some(rest) = &s.rest {
            if let syn::Expr::Call(c) = &**rest {
                if c.func.to_token_stream().to_string().replace(' ', "") == "Default::default" {
                    let r = rng(c);
                    let p = rng(&s.path);
                    self.ed.replace(r.0, r.1, format!("{}::zv_default()", &self.src.text[p.0..p.1]));
                    self.note("default() of derived Default is expanded");
                }
            }
        }
        visit::visit_expr_struct(self, s);
    }
    /// `P if g => a, P => b` becomes `P => if g { a } else { b }` (guarded arms that bind are not supported well by the verifier).
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        let mut i = 0;
        while i + 1 < m.arms.len() {
            let (a, b) = (&m.arms[i], &m.arms[i + 1]);
            let same = a.pat.to_token_stream().to_string() == b.pat.to_token_stream().to_string();
            if let (true, Some((tif, g)), None) = (same && binds(&a.pat), &a.guard, &b.guard) {
                if !g.to_token_stream().to_string().contains("let ") {
                    let (ti, ar) = (rng(tif), rng(&a.fat_arrow_token));
                    self.ed.replace(ti.0, ti.1, "=> if");
                    self.ed.replace(ar.0, ar.1, "{");
                    self.ed.replace(rng(&*a.body).1, rng(&*b.body).0, " } else { ");
                    self.ed.insert(rng(&*b.body).1, " }");
                    self.note("P if g => a, P => b becomes P => if g { a } else { b }");
                    i += 2;
                    continue;
                }
            }
            i += 1;
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let n = self.n_closure;
        self.n_closure += 1;
        let b = rng(&*c.body);
        if let Some(h) = self.spec.closures.get(&n) {
            self.contract_closures.push(c.to_token_stream().to_string());
            let o = rng(c).0;
            let h = h.clone();
            if matches!(&*c.body, syn::Expr::Block(_)) {
                self.ed.replace(o, b.0, format!("{h} "));
            } else {
                self.ed.replace(o, b.0, format!("{h} {{ "));
                self.ed.insert(b.1, " }");
            }
            self.note("closures get type and contract annotations");
            self.matched_hints += 1;
        } else {
            if self.closure_depth == 0 { self.open_closures += 1; }
            for (k, i) in c.inputs.iter().enumerate() {
                if let syn::Pat::Wild(w) = i { let r = rng(w); self.ed.replace(r.0, r.1, format!("_zv{k}")); }
            }
        }
        self.closure_depth += 1;
        self.visit_expr(&c.body);
        self.closure_depth -= 1;
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        fn cmp(e: &syn::Expr) -> bool {
            match e {
                syn::Expr::Paren(p) => cmp(&p.expr),
                syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) | syn::BinOp::And(_) | syn::BinOp::Or(_)),
                _ => false,
            }
        }
        let f = match b.op { syn::BinOp::BitAnd(_) => "zv_and(", syn::BinOp::BitOr(_) => "zv_or(", _ => "" };
        if !f.is_empty() && (cmp(&b.left) || cmp(&b.right)) {
            let (w, l, r) = (rng(b), rng(&*b.left), rng(&*b.right));
            self.ed.insert(w.0, f);
            self.ed.replace(l.1, r.0, ", ");
            self.ed.insert(w.1, ")");
            self.note("& and | of booleans become calls");
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
        if let (Some(_), syn::Expr::Index(ix)) = (&e.mutability, &*e.expr) {
            if let syn::Expr::Range(r) = &*ix.index {
                if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                    let (w, b) = (rng(e), rng(&*ix.expr));
                    let name = match (&r.start, &r.end) { (Some(_), None) => "zv_from_mut", (None, Some(_)) => "zv_to_mut", (Some(_), Some(_)) => "zv_range_mut", (None, None) => "zv_full_mut" };
                    self.ed.replace(w.0, b.0, "(");
                    match (&r.start, &r.end) {
                        (Some(x), None) | (None, Some(x)) => { let x = rng(&**x); self.ed.replace(b.1, x.0, format!(").{name}(")); self.ed.replace(x.1, w.1, ")"); }
                        (Some(x), Some(y)) => { let (x, y) = (rng(&**x), rng(&**y)); self.ed.replace(b.1, x.0, format!(").{name}(")); self.ed.replace(x.1, y.0, ", "); self.ed.replace(y.1, w.1, ")"); }
                        (None, None) => { self.ed.replace(b.1, w.1, format!(").{name}()")); }
                    }
                    self.note("&mut v[a..] becomes a contracted call");
                }
            }
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_if(&mut self, i: &'ast syn::ExprIf) {
        fn flat<'e>(e: &'e syn::Expr, out: &mut Vec<&'e syn::Expr>) {
            if let syn::Expr::Binary(b) = e {
                if matches!(b.op, syn::BinOp::And(_)) { flat(&b.left, out); flat(&b.right, out); return; }
            }
            out.push(e);
        }
        let mut parts = vec![];
        flat(&i.cond, &mut parts);
        if parts.len() > 1 && parts.iter().any(|p| matches!(p, syn::Expr::Let(_))) {
            if i.else_branch.is_some() { self.err = Some("let chain with else".into()); return; }
            for w in parts.windows(2) {
                let (a, b) = (rng(w[0]), rng(w[1]));
                self.ed.replace(a.1, b.0, " { if ");
            }
            self.ed.insert(rng(&i.then_branch).1, " }".repeat(parts.len() - 1));
            self.note("let chains become nested ifs");
        }
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        let (n, inv, start) = self.loop_head();
        if let syn::Expr::Let(l) = &*w.cond {
            self.loops.push((n, w.label.as_ref().map(|l| l.name.ident.to_string()))); visit::visit_expr_while(self, w); self.loops.pop();
            self.body_hints(n, &w.body, &start);
            let (e, p) = (rng(&*l.expr), rng(&*l.pat));
            let (ws, bs) = (rng(w), rng(&w.body));
            let expr = match self.ed.render(e.0, e.1) { Ok(x) => x, Err(x) => { self.err = Some(x); return } };
            self.ed.replace(ws.0, bs.0, format!("loop{inv}{{ match {expr} {{ {} => ", &self.src.text[p.0..p.1]));
            self.ed.insert(bs.1, ", _ => break } }");
            self.note("while let becomes loop with match");
        } else {
            self.loops.push((n, w.label.as_ref().map(|l| l.name.ident.to_string()))); visit::visit_expr_while(self, w); self.loops.pop();
            self.body_hints(n, &w.body, &start);
            if !inv.is_empty() { self.ed.insert(rng(&w.body).0, format!("{inv}")); }
        }
    }
    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        let (n, inv, start) = self.loop_head();
        self.loops.push((n, w.label.as_ref().map(|l| l.name.ident.to_string()))); visit::visit_expr_loop(self, w); self.loops.pop();
        self.body_hints(n, &w.body, &start);
        if !inv.is_empty() { self.ed.insert(rng(&w.body).0, format!("{inv}")); }
    }
    fn visit_expr_for_loop(&mut self, w: &'ast syn::ExprForLoop) {
        let (n, inv, start) = self.loop_head();
        self.loops.push((n, w.label.as_ref().map(|l| l.name.ident.to_string()))); visit::visit_expr_for_loop(self, w); self.loops.pop();
        self.body_hints(n, &w.body, &start);
        let (e, p) = (rng(&*w.expr), rng(&*w.pat));
        let (ws, bs) = (rng(w), rng(&w.body));
        let expr = match self.ed.render(e.0, e.1) { Ok(x) => x, Err(x) => { self.err = Some(x); return } };
        self.ed.replace(ws.0, bs.0, format!("{{ let mut zv_it{n} = ({expr}).zv_into_iter(); loop{inv}{{ match zv_it{n}.zv_next() {{ Some({}) => ", &self.src.text[p.0..p.1]));
        self.ed.insert(bs.1, ", None => break } } }");
        self.note("for becomes loop over a contracted iterator");
    }
}

/// The kinds of the loops of a function as it is written, and the mutable variables that live around them.
/// Loop invariants fit only loops of this shape; what has another one is not judged by them (see deductive.py).
#[derive(Default)]
struct Shape { depth: usize, guards: usize, kinds: Vec<&'static str>, vars: std::collections::BTreeSet<String> }

impl<'ast> Visit<'ast> for Shape {
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.kinds.push("loop");
        self.depth += 1;
        visit::visit_expr_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.kinds.push(if matches!(&*l.cond, syn::Expr::Let(_)) { "while let" } else { "while" });
        self.depth += 1;
        visit::visit_expr_while(self, l);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.kinds.push("for");
        self.depth += 1;
        visit::visit_expr_for_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        for (i, a) in m.arms.iter().enumerate() {
            let merged = m.arms.get(i + 1).is_some_and(|b| b.guard.is_none() && b.pat.to_token_stream().to_string() == a.pat.to_token_stream().to_string());
            if a.guard.is_some() && binds(&a.pat) && !merged { self.guards += 1; }
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if self.depth == 0 && p.mutability.is_some() { self.vars.insert(p.ident.to_string()); }
        visit::visit_pat_ident(self, p);
    }
}

pub fn rewrite_fn(src: &Src, sig: &syn::Signature, block: &syn::Block, spec: &FnSpec, ed: &mut Edits) -> R<Vec<String>> {
    let out_str = sig.output.to_token_stream().to_string().replace(' ', "");
    let quest = if out_str.starts_with("->Poll<Option<") { Quest::PollOpt } else if out_str.starts_with("->Poll<") { Quest::Poll } else if spec.try_conv { Quest::Result } else { Quest::Native };
    let mut rw = Rw {
        src, ed, spec, quest, closure_depth: 0, n_closure: 0, open_closures: 0, n_loop: 0, used_loops: 0, stmts: vec![],
        calls: Default::default(), loops: vec![], options: Default::default(), contract_closures: vec![], done: vec![], err: None, matched_hints: 0, mut_self: false,
    };
    if let Some(a) = &sig.asyncness { let r = rng(a); rw.ed.replace(r.0, r.1, ""); }
    if sig.ident == "clone" { let r = rng(&sig.ident); rw.ed.replace(r.0, r.1, "zv_clone"); }
    if sig.ident == "from" { let r = rng(&sig.ident); rw.ed.replace(r.0, r.1, "zv_from"); }
    if sig.ident == "default" { let r = rng(&sig.ident); rw.ed.replace(r.0, r.1, "zv_default"); }
    // generics and parameters
    rw.visit_generics(&sig.generics);
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => {
                let t = r.ty.to_token_stream().to_string().replace(' ', "");
                if let (None, Some(m)) = (&r.reference, r.colon_token.is_none().then_some(()).and(r.mutability.as_ref())) {
                    let s = rng(m);
                    rw.ed.replace(s.0, s.1, "");
                    rw.mut_self = true;
                    rw.note("mut self becomes a local variable");
                    continue;
                }
                if t.starts_with("Pin<&mutSelf") {
                    let s = rng(r);
                    rw.ed.replace(s.0, s.1, "&mut self");
                    rw.note("Pin<&mut T> becomes &mut T");
                }
            }
            syn::FnArg::Typed(t) => {
                if let syn::Pat::Ident(i) = &*t.pat {
                    if t.ty.to_token_stream().to_string().starts_with("Option <") { rw.options.insert(i.ident.to_string()); }
                    if let (Some(m), true) = (&i.mutability, t.ty.to_token_stream().to_string().replace(' ', "").starts_with("Pin<&")) { let s = rng(m); rw.ed.replace(s.0, s.1, ""); }
                }
                rw.visit_type(&t.ty);
            }
        }
    }
    if !spec.ghostparams.is_empty() {
        let close = sig.paren_token.span.close().byte_range().start;
        let sep = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " };
        rw.ed.insert(close, format!("{sep}{}", spec.ghostparams.join(", ")));
    }
    if let syn::ReturnType::Type(_, t) = &sig.output {
        let r = rng(&**t);
        rw.ed.insert(r.0, format!("({}: ", spec.ret));
        rw.visit_type(t);
        rw.ed.insert(r.1, ")");
    }
    if spec.contract { return match rw.err { Some(e) => Err(e), None => Ok(rw.done) }; }
    rw.visit_block(block);
    if rw.mut_self { let o = block.brace_token.span.open().byte_range().end; rw.ed.insert_first(o, " let mut zv_self = self;"); }
    let body = rng(block);
    for (o, n) in &spec.substs {
        let t = &src.text[body.0..body.1];
        let hits: Vec<usize> = t.match_indices(o.as_str()).map(|x| x.0).collect();
        // "?": wherever it occurs, also nowhere
        let (n, any) = match n.strip_prefix('?') { Some(n) => (n, true), None => (n.as_str(), false) };
        if !any && hits.len() != 1 { return Err(format!("substitution anchor found {} times: {o}", hits.len())); }
        for h in hits {
            rw.ed.replace(body.0 + h, body.0 + h + o.len(), n.to_string());
            rw.note(&format!("textual: {o} ==> {n}"));
        }
    }
    if !spec.at_end.is_empty() {
        let close = block.brace_token.span.close().byte_range().start;
        let has_ret = !matches!(sig.output, syn::ReturnType::Default);
        if let Some(syn::Stmt::Expr(x, None)) = block.stmts.last() {
            let r = rng(x);
            if has_ret { rw.ed.insert_first(r.0, "let zv_ret = "); }
            rw.ed.insert(r.1, ";");
            rw.ed.insert(close, format!("\n{}{}", spec.at_end, if has_ret { "zv_ret\n" } else { "" }));
        } else {
            rw.ed.insert(close, format!("\n{}", spec.at_end));
        }
    }
    let mut shape = Shape::default();
    shape.visit_block(block);
    if !shape.kinds.is_empty() {
        rw.note(&format!("loops: {} with {}", shape.kinds.join(", "), shape.vars.into_iter().collect::<Vec<_>>().join(" ")));
    }
    if shape.guards > 0 { rw.note(&format!("guarded arms that bind: {}", shape.guards)); }
    if !rw.contract_closures.is_empty() {
        let t = rw.contract_closures.join(" ;; ");
        rw.note(&format!("closure bodies: {t}"));
    }
    if rw.open_closures > 0 { rw.note(&format!("closures without contract: {}", rw.open_closures)); }
    if let Some(e) = rw.err { return Err(e); }
    if rw.n_loop != spec.loops.len() { return Err(format!("{} loops in the source, invariants for {}", rw.n_loop, spec.loops.len())); }
    let want = spec.before_call.iter().chain(&spec.after_call).filter(|h| h.1 != usize::MAX).count() + spec.closures.len();
    if rw.matched_hints != want { return Err(format!("{} of {want} annotation anchors found", rw.matched_hints)); }
    Ok(rw.done)
}

fn strip_and_open(src: &Src, ed: &mut Edits, fields: &syn::Fields, add_pub: bool) {
    let _ = src;
    for f in fields {
        for a in &f.attrs { let r = rng(a); ed.replace(r.0, r.1, ""); }
        pin_type(&f.ty, ed);
        if !add_pub { continue; }
        match &f.vis {
            syn::Visibility::Inherited => {
                let at = match &f.ident { Some(i) => rng(i).0, None => rng(&f.ty).0 };
                ed.insert(at, "pub ");
            }
            v => { let r = rng(v); ed.replace(r.0, r.1, "pub"); }
        }
    }
}

pub fn render_item(src: &Src, kind: &str, name: &str, derive: &str) -> R<String> {
    let d = if derive.is_empty() { String::new() } else { format!("#[derive({derive})]\n") };
    for it in &src.file.items {
        match (kind, it) {
            ("struct", syn::Item::Struct(s)) if s.ident == name => {
                let mut ed = Edits::new(&src.text);
                strip_and_open(src, &mut ed, &s.fields, true);
                let t = ed.render(rng(&s.struct_token).0, rng(s).1)?;
                return Ok(format!("{d}pub {t}\n"));
            }
            ("enum", syn::Item::Enum(s)) if s.ident == name => {
                let mut ed = Edits::new(&src.text);
                for v in &s.variants {
                    for a in &v.attrs { let r = rng(a); ed.replace(r.0, r.1, ""); }
                    strip_and_open(src, &mut ed, &v.fields, false);
                }
                let t = ed.render(rng(&s.enum_token).0, rng(s).1)?;
                return Ok(format!("{d}pub {t}\n"));
            }
            ("const", syn::Item::Const(s)) if s.ident == name => {
                return Ok(format!("pub {}\n", &src.text[rng(&s.const_token).0..rng(s).1]));
            }
            ("type", syn::Item::Type(s)) if s.ident == name => {
                return Ok(format!("pub {}\n", &src.text[rng(&s.type_token).0..rng(s).1]));
            }
            ("implconsts", syn::Item::Impl(im)) if im.trait_.is_none() && last_seg(&im.self_ty) == name && cfg_on(&im.attrs) => {
                let mut t = String::new();
                for i in &im.items {
                    if let syn::ImplItem::Const(c) = i { t.push_str(&format!("pub {}\n", &src.text[rng(&c.const_token).0..rng(c).1])); }
                }
                if !t.is_empty() { return Ok(format!("impl {name} {{\n{t}}}\n")); }
            }
            _ => {}
        }
    }
    Err(format!("{kind} {name} not found"))
}

fn generics(src: &Src, g: &syn::Generics) -> (String, String, String) {
    // parameter list with bounds, argument list, where clause
    let _ = src;
    let mut ps = vec![];
    let mut args = vec![];
    for p in &g.params {
        let r = rng(p);
        ps.push(src.text[r.0..r.1].to_string());
        args.push(match p { syn::GenericParam::Type(t) => t.ident.to_string(), syn::GenericParam::Lifetime(l) => l.lifetime.to_string(), syn::GenericParam::Const(c) => c.ident.to_string() });
    }
    let w = g.where_clause.as_ref().map(|w| { let r = rng(w); src.text[r.0..r.1].to_string() }).unwrap_or_default();
    (ps.join(", "), args.join(", "), w)
}

/// What #[pin_project] generates: the projection type and `project`, without the pins.
pub fn render_pin(src: &Src, name: &str) -> R<String> {
    for it in &src.file.items {
        match it {
            syn::Item::Struct(s) if s.ident == name => {
                let (p, a, w) = generics(src, &s.generics);
                let mut o = format!("pub struct ZvProj{name}<'zv, {p}> {w} {{\n");
                let mut ens = String::new();
                let mut init = String::new();
                for f in &s.fields {
                    let n = f.ident.as_ref().ok_or("tuple struct")?;
                    let t = rng(&f.ty);
                    o.push_str(&format!("    pub {n}: &'zv mut {},\n", &src.text[t.0..t.1]));
                    ens.push_str(&format!("        *r.{n} == old(self).{n}, final(self).{n} == *final(r.{n}),\n"));
                    init.push_str(&format!("{n}: &mut self.{n}, "));
                }
                o.push_str(&format!("}}\nimpl<{p}> {name}<{a}> {w} {{\npub fn project<'zv>(&'zv mut self) -> (r: ZvProj{name}<'zv, {a}>)\n    ensures\n{ens}{{ ZvProj{name} {{ {init} }} }}\n}}\n"));
                return Ok(o);
            }
            syn::Item::Enum(s) if s.ident == name => {
                let proj = s.attrs.iter().find_map(|at| {
                    if !at.path().is_ident("pin_project") { return None; }
                    let t = at.meta.require_list().ok()?.tokens.to_string();
                    Some(t.split('=').nth(1)?.trim().to_string())
                }).ok_or("no projection name")?;
                let (p, a, w) = generics(src, &s.generics);
                let ga = if a.is_empty() { String::new() } else { format!("<{a}>") };
                let gp = if p.is_empty() { String::new() } else { format!("<{p}>") };
                let mut o = format!("pub enum {proj}<'zv{}{p}> {w} {{\n", if p.is_empty() { "" } else { ", " });
                let (mut ens, mut arms) = (String::new(), String::new());
                let tf = if a.is_empty() { format!("{name}") } else { format!("{name}::<{a}>") };
                for v in &s.variants {
                    let vn = &v.ident;
                    let n = v.fields.len();
                    let tys: Vec<String> = v.fields.iter().map(|f| { let t = rng(&f.ty); format!("&'zv mut {}", &src.text[t.0..t.1]) }).collect();
                    if n == 0 {
                        o.push_str(&format!("    {vn},\n"));
                        ens.push_str(&format!("            {name}::{vn} => r is {vn} && *final(self) == *old(self),\n"));
                        arms.push_str(&format!("        {name}::{vn} => {proj}::{vn},\n"));
                    } else {
                        let xs: Vec<String> = (0..n).map(|k| format!("x{k}")).collect();
                        o.push_str(&format!("    {vn}({}),\n", tys.join(", ")));
                        let eq: Vec<String> = (0..n).map(|k| format!("*r->{vn}_{k} == x{k}")).collect();
                        let fin: Vec<String> = (0..n).map(|k| format!("*final(r->{vn}_{k})")).collect();
                        ens.push_str(&format!("            {name}::{vn}({}) => r is {vn} && {} && *final(self) == {tf}::{vn}({}),\n", xs.join(", "), eq.join(" && "), fin.join(", ")));
                        arms.push_str(&format!("        {name}::{vn}({}) => {proj}::{vn}({}),\n", xs.join(", "), xs.join(", ")));
                    }
                }
                let pa = if a.is_empty() { String::new() } else { format!(", {a}") };
                o.push_str(&format!("}}\nimpl{gp} {name}{ga} {w} {{\npub fn project<'zv>(&'zv mut self) -> (r: {proj}<'zv{pa}>)\n    ensures\n        match *old(self) {{\n{ens}        }},\n{{\n    match self {{\n{arms}    }}\n}}\n}}\n"));
                return Ok(o);
            }
            _ => {}
        }
    }
    Err(format!("type {name} not found"))
}

/// What #[derive(Default)] generates.
pub fn render_default(src: &Src, name: &str) -> R<String> {
    for it in &src.file.items {
        match it {
            syn::Item::Struct(s) if s.ident == name => {
                if !s.attrs.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().contains("Default")) { return Err(format!("{name} does not derive Default")); }
                let (mut init, mut sp) = (String::new(), String::new());
                for f in &s.fields {
                    let n = f.ident.as_ref().ok_or("tuple struct")?;
                    let t = f.ty.to_token_stream().to_string().replace(' ', "");
                    let (e, c) = match t.as_str() {
                        "u64" | "usize" | "u32" | "u16" | "u8" => ("0".to_string(), format!("r.{n} == 0")),
                        "bool" => ("false".into(), format!("!r.{n}")),
                        x if x.starts_with("Vec<") => ("Vec::new()".into(), format!("r.{n}@.len() == 0")),
                        x => (format!("{x}::zv_default()"), format!("<{x} as ZvDefault>::is_default(r.{n})")),
                    };
                    init.push_str(&format!("{n}: {e}, "));
                    sp.push_str(&format!("&&& {c}\n"));
                }
                return Ok(format!("impl ZvDefault for {name} {{\nopen spec fn is_default(r: Self) -> bool {{\n{sp}}}\nfn zv_default() -> (r: Self) {{ {name} {{ {init} }} }}\n}}\n"));
            }
            syn::Item::Enum(s) if s.ident == name => {
                let v = s.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).ok_or("no default variant")?;
                return Ok(format!("impl ZvDefault for {name} {{\nopen spec fn is_default(r: Self) -> bool {{ r is {} }}\nfn zv_default() -> (r: Self) {{ {name}::{} }}\n}}\n", v.ident, v.ident));
            }
            _ => {}
        }
    }
    Err(format!("type {name} not found"))
}

/// What #[derive(Clone)] generates.
pub fn render_clone(src: &Src, name: &str) -> R<String> {
    for it in &src.file.items {
        if let syn::Item::Struct(s) = it {
            if s.ident != name { continue; }
            if !s.attrs.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().contains("Clone")) { return Err(format!("{name} does not derive Clone")); }
            let (p, a, w) = generics(src, &s.generics);
            let (mut sp, mut init, mut cl) = (String::new(), String::new(), String::new());
            let mut ps = vec![];
            for g in &s.generics.params {
                let r = rng(g);
                let t = &src.text[r.0..r.1];
                ps.push(match g { syn::GenericParam::Type(x) => format!("{t}{} ZvClone", if x.colon_token.is_some() { " +" } else { ":" }), _ => t.to_string() });
            }
            let _ = p;
            for f in &s.fields {
                let n = f.ident.as_ref().ok_or("tuple struct")?;
                let r = rng(&f.ty);
                let t = src.text[r.0..r.1].to_string();
                let short = t.strip_prefix("structs::").unwrap_or(&t);
                sp.push_str(&format!("&&& <{short} as ZvClone>::is_clone(a.{n}, b.{n})\n"));
                cl.push_str(&format!("&&& self.{n}.clonable()\n"));
                init.push_str(&format!("{n}: self.{n}.zv_clone(), "));
            }
            let ga = if a.is_empty() { String::new() } else { format!("<{a}>") };
            let gp = if a.is_empty() { String::new() } else { format!("<{}>", ps.join(", ")) };
            return Ok(format!("impl{gp} ZvClone for {name}{ga} {w} {{\nopen spec fn is_clone(a: Self, b: Self) -> bool {{\n{sp}}}\nopen spec fn clonable(&self) -> bool {{\n{cl}}}\nfn zv_clone(&self) -> (r: Self) {{ {name} {{ {init} }} }}\n}}\n"));
        }
    }
    Err(format!("type {name} not found"))
}

/// What #[from] of thiserror generates.
pub fn render_from(src: &Src, name: &str) -> R<String> {
    for it in &src.file.items {
        if let syn::Item::Enum(e) = it {
            if e.ident != name { continue; }
            let mut o = String::new();
            for v in &e.variants {
                for f in &v.fields {
                    if !f.attrs.iter().any(|a| a.path().is_ident("from")) { continue; }
                    if f.ident.is_some() || v.fields.len() != 1 { return Err(format!("#[from] on a field of {name} of unexpected form")); }
                    let r = rng(&f.ty);
                    let (t, vn) = (&src.text[r.0..r.1], &v.ident);
                    o.push_str(&format!("impl ZvInto<{name}> for {t} {{\nopen spec fn into_ok(self, t: {name}) -> bool {{ t == {name}::{vn}(self) }}\nfn zv_into(self) -> (r: {name}) {{ proof {{ assert(self.into_ok({name}::{vn}(self))); }} {name}::{vn}(self) }}\n}}\n"));
                }
            }
            return Ok(o);
        }
    }
    Err(format!("enum {name} not found"))
}
