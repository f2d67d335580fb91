//! Mechanical extraction of functions of /repo/src into a Verus file.
//! usage: zvextract UNIT_FILE SRC_DIR OUT_RS OUT_JSON
//! Exit 0: written; 3: an anchor named by the overlay is missing in the source (message on stdout).
mod edit;
mod overlay;
mod passes;

use overlay::{Cmd, FnSpec};
use quote::ToTokens;
use std::collections::HashMap;
use syn::spanned::Spanned;

pub struct Src {
    pub name: String,
    pub text: String,
    pub file: syn::File,
}

/// functions whose body is not read: their contract is assumed
static ASSUME: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
/// every verified function starts with assert(false), which has to fail
static VACUITY: std::sync::OnceLock<bool> = std::sync::OnceLock::new();

fn lost(msg: String) -> ! {
    println!("LOST {msg}");
    std::process::exit(3)
}

fn cfg_test(attrs: &[syn::Attribute]) -> bool {
    !passes::cfg_on(attrs)
}

fn load(dir: &str, name: &str) -> Src {
    let path = format!("{dir}/{name}");
    let mut text = std::fs::read_to_string(&path).unwrap_or_else(|e| lost(format!("{path}: {e}")));
    text = passes::expand_local_macros(&text).unwrap_or_else(|e| lost(format!("{name}: {e}")));
    text = passes::expand_ready(&text).unwrap_or_else(|e| lost(format!("{name}: {e}")));
    let file = syn::parse_file(&text).unwrap_or_else(|e| lost(format!("{name}: {e}")));
    Src { name: name.into(), text, file }
}

pub fn last_seg(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        other => other.to_token_stream().to_string(),
    }
}

struct Out { text: String, fns: Vec<String> }

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => {}, c => o.push(c) }
    }
    o.push('"');
    o
}

impl Out {
    fn record(&mut self, src: &Src, key: &str, mode: &str, orig: (usize, usize), out_from: usize, out_to: usize, spec: &FnSpec, rewrites: &[String]) {
        let line = |p: usize| src.text[..p].matches('\n').count() + 1;
        let oline = |p: usize| self.text[..p].matches('\n').count() + 1;
        let mut h: u64 = 0xcbf29ce484222325;
        for b in src.text[orig.0..orig.1].bytes() { h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3); }
        self.fns.push(format!(
            "{{\"fn\":{},\"file\":{},\"mode\":{},\"src_line\":{},\"out_from\":{},\"out_to\":{},\"props\":{},\"hash\":\"{h:016x}\",\"rewrites\":[{}]}}",
            json_str(key), json_str(&src.name), json_str(mode), line(orig.0), oline(out_from), oline(out_to), json_str(&spec.props),
            rewrites.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
        ));
    }
}

/// Renders one function with its contract.
fn render_fn(src: &Src, attrs: &[syn::Attribute], sig: &syn::Signature, block: &syn::Block, spec: &FnSpec, key: &str, mode: &str, trait_impl: bool) -> (String, (usize, usize), Vec<String>) {
    let _ = attrs;
    let range = (sig.span().byte_range().start, block.span().byte_range().end);
    let mut ed = edit::Edits::new(&src.text);
    let bare;
    let spec = if mode == "contract" {
        bare = FnSpec { name: spec.name.clone(), contract: true, try_conv: spec.try_conv, props: spec.props.clone(), ret: spec.ret.clone(), spec: spec.spec.clone(), ghostparams: spec.ghostparams.clone(), ..Default::default() };
        &bare
    } else { spec };
    let rewrites = passes::rewrite_fn(src, sig, block, spec, &mut ed).unwrap_or_else(|e| lost(format!("fn {key}: {}: {e}", src.name)));
    // an opaque return type cannot be given a contract without a body: left out (its callers have none either)
    if mode == "contract" && sig.output.to_token_stream().to_string().contains("impl ") { return (String::new(), range, rewrites); }
    let body_start = block.span().byte_range().start;
    let sig_text = ed.render(range.0, body_start).unwrap_or_else(|e| lost(format!("{key}: {e}")));
    let mut o = String::new();
    for a in &spec.attrs { o.push_str(a); o.push('\n'); }
    if mode == "contract" { o.push_str("#[verifier::external_body]\n"); }
    if !trait_impl { o.push_str("pub "); }
    o.push_str(sig_text.trim_end());
    o.push('\n');
    o.push_str(&spec.spec);
    if mode == "contract" {
        o.push_str("{ unimplemented!() }\n");
    } else {
        let body = ed.render(body_start, range.1).unwrap_or_else(|e| lost(format!("{key}: {e}")));
        o.push_str("{\n");
        o.push_str(&spec.entry);
        if *VACUITY.get().unwrap_or(&false) { o.push_str("    proof { assert(false); }\n"); }
        o.push_str(&body[1..]);
        o.push('\n');
    }
    (o, range, rewrites)
}

fn impl_header(src: &Src, im: &syn::ItemImpl) -> String {
    let mut ed = edit::Edits::new(&src.text);
    passes::rewrite_types(im, &mut ed);
    let from = im.impl_token.span().byte_range().start;
    let to = im.brace_token.span.open().byte_range().start;
    ed.render(from, to).unwrap()
}

fn find_inherent<'a>(src: &'a Src, ty: &str, name: &str) -> Option<(&'a syn::ItemImpl, &'a syn::ImplItemFn)> {
    for it in &src.file.items {
        if let syn::Item::Impl(im) = it {
            if im.trait_.is_none() && last_seg(&im.self_ty) == ty && !cfg_test(&im.attrs) {
                for f in &im.items {
                    if let syn::ImplItem::Fn(f) = f {
                        if f.sig.ident == name && !cfg_test(&f.attrs) { return Some((im, f)); }
                    }
                }
            }
        }
    }
    None
}

fn find_trait_impl<'a>(src: &'a Src, tr: &str, ty: &str) -> Option<&'a syn::ItemImpl> {
    src.file.items.iter().find_map(|it| match it {
        syn::Item::Impl(im) if !cfg_test(&im.attrs) => {
            let (_, p, _) = im.trait_.as_ref()?;
            (p.segments.last()?.ident == tr && last_seg(&im.self_ty) == ty).then_some(im)
        }
        _ => None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (unit, dir, out_rs, out_json) = (&a[1], &a[2], &a[3], &a[4]);
    let mut k = 5;
    let mut assume = vec![];
    while k < a.len() {
        match a[k].as_str() {
            "--assume" => { assume.push(a[k + 1].clone()); k += 2; }
            "--vacuity" => { let _ = VACUITY.set(true); k += 1; }
            x => panic!("unknown option {x}"),
        }
    }
    let assumed = |key: &str| ASSUME.get().is_some_and(|v| v.iter().any(|x| x == key));
    let _ = ASSUME.set(assume);
    let cmds = overlay::read(unit);
    let mut srcs: HashMap<String, Src> = HashMap::new();
    let mut cur = String::new();
    let mut mode = "verify".to_string();
    let mut out = Out { text: String::new(), fns: vec![] };
    let mut open_impl: Option<(String, String)> = None; // (trait, type)
    let mut done_methods: Vec<String> = vec![];

    for c in cmds {
        match c {
            Cmd::Raw(t) => { out.text.push_str(&t); out.text.push('\n'); }
            Cmd::File(f) => {
                if !srcs.contains_key(&f) { let s = load(dir, &f); srcs.insert(f.clone(), s); }
                cur = f;
            }
            Cmd::Mode(m) => mode = m,
            Cmd::Item { kind, name, derive } => {
                let src = &srcs[&cur];
                let t = passes::render_item(src, &kind, &name, &derive).unwrap_or_else(|e| lost(format!("{cur}: {e}")));
                out.text.push_str(&t);
                out.text.push('\n');
            }
            Cmd::Pin(name) => {
                let src = &srcs[&cur];
                let t = passes::render_pin(src, &name).unwrap_or_else(|e| lost(format!("{cur}: {e}")));
                out.text.push_str(&t);
                out.text.push('\n');
            }
            Cmd::DefaultFor(name) => {
                let src = &srcs[&cur];
                let t = passes::render_default(src, &name).unwrap_or_else(|e| lost(format!("{cur}: {e}")));
                out.text.push_str(&t);
                out.text.push('\n');
            }
            Cmd::CloneFor(name) => {
                let src = &srcs[&cur];
                let t = passes::render_clone(src, &name).unwrap_or_else(|e| lost(format!("{cur}: {e}")));
                out.text.push_str(&t);
                out.text.push('\n');
            }
            Cmd::FromFor(name) => {
                let src = &srcs[&cur];
                let t = passes::render_from(src, &name).unwrap_or_else(|e| lost(format!("{cur}: {e}")));
                out.text.push_str(&t);
                out.text.push('\n');
            }
            Cmd::Fn(spec) => {
                let src = &srcs[&cur];
                let key = spec.name.clone();
                let m = if spec.contract || assumed(&key) { "contract".to_string() } else { mode.clone() };
                if let Some((ty, name)) = key.split_once("::") {
                    let Some((im, f)) = find_inherent(src, ty, name) else { lost(format!("{cur}: function {key} not found")) };
                    let (t, range, rw) = render_fn(src, &f.attrs, &f.sig, &f.block, &spec, &key, &m, false);
                    out.text.push_str(&impl_header(src, im));
                    out.text.push_str("{\n");
                    let from = out.text.len();
                    out.text.push_str(&t);
                    let to = out.text.len();
                    out.text.push_str("}\n\n");
                    out.record(src, &key, &m, range, from, to, &spec, &rw);
                } else {
                    let f = src.file.items.iter().find_map(|it| match it {
                        syn::Item::Fn(f) if f.sig.ident == key && !cfg_test(&f.attrs) => Some(f),
                        _ => None,
                    });
                    let Some(f) = f else { lost(format!("{cur}: function {key} not found")) };
                    let (t, range, rw) = render_fn(src, &f.attrs, &f.sig, &f.block, &spec, &key, &m, false);
                    let from = out.text.len();
                    out.text.push_str(&t);
                    let to = out.text.len();
                    out.text.push('\n');
                    out.record(src, &key, &m, range, from, to, &spec, &rw);
                }
            }
            Cmd::ImplBegin { tr, ty, extra } => {
                let src = &srcs[&cur];
                let Some(im) = find_trait_impl(src, &tr, &ty) else { lost(format!("{cur}: impl {tr} for {ty} not found")) };
                out.text.push_str(&impl_header(src, im));
                out.text.push_str("{\n");
                for it in &im.items {
                    if let syn::ImplItem::Type(t) = it {
                        let r = t.span().byte_range();
                        out.text.push_str(&src.text[r]);
                        out.text.push('\n');
                    }
                }
                out.text.push_str(&extra);
                open_impl = Some((tr, ty));
                done_methods.clear();
            }
            Cmd::Method(spec) => {
                let src = &srcs[&cur];
                let (tr, ty) = open_impl.clone().expect("@method outside of @impl");
                let im = find_trait_impl(src, &tr, &ty).unwrap();
                let f = im.items.iter().find_map(|it| match it { syn::ImplItem::Fn(f) if f.sig.ident == spec.name => Some(f), _ => None });
                let Some(f) = f else { lost(format!("{cur}: method {} of impl {tr} for {ty} not found", spec.name)) };
                let key = format!("<{ty} as {tr}>::{}", spec.name);
                let m = if spec.contract || assumed(&key) { "contract".to_string() } else { mode.clone() };
                let (t, range, rw) = render_fn(src, &f.attrs, &f.sig, &f.block, &spec, &key, &m, true);
                let from = out.text.len();
                out.text.push_str(&t);
                let to = out.text.len();
                out.record(src, &key, &m, range, from, to, &spec, &rw);
                done_methods.push(spec.name.clone());
            }
            Cmd::ImplEnd => {
                let src = &srcs[&cur];
                let (tr, ty) = open_impl.take().expect("@endimpl");
                let im = find_trait_impl(src, &tr, &ty).unwrap();
                for it in &im.items {
                    if let syn::ImplItem::Fn(f) = it {
                        if !done_methods.contains(&f.sig.ident.to_string()) { lost(format!("{cur}: impl {tr} for {ty} has a method {} without contract", f.sig.ident)); }
                    }
                }
                out.text.push_str("}\n\n");
            }
        }
    }
    std::fs::write(out_rs, &out.text).unwrap();
    std::fs::write(out_json, format!("[{}]", out.fns.join(",\n"))).unwrap();
}
