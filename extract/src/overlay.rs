//! Overlay files: contracts keyed by function.
use std::collections::HashMap;

#[derive(Default, Clone)]
pub struct FnSpec {
    pub name: String,
    pub contract: bool,
    pub try_conv: bool,
    pub props: String,
    pub ret: String,
    pub spec: String,
    pub entry: String,
    pub loops: HashMap<usize, String>,
    pub closures: HashMap<usize, String>,
    pub attrs: Vec<String>,
    pub ghostparams: Vec<String>,
    pub callghost: Vec<(String, String)>,
    pub substs: Vec<(String, String)>,
    pub renames: Vec<(String, String)>,
    /// (method name, ordinal, text) proof text inserted before the statement with that call
    pub before_call: Vec<(String, usize, String)>,
    pub after_call: Vec<(String, usize, String)>,
    pub at_end: String,
    /// the same at every return of the function itself
    pub end_all: bool,
    pub loop_body: HashMap<usize, String>,
    pub loop_end: HashMap<usize, String>,
    /// before every return, break and continue that leaves an iteration of that loop
    pub exits: HashMap<usize, String>,
}

pub enum Cmd {
    Raw(String),
    File(String),
    Mode(String),
    Item { kind: String, name: String, derive: String },
    Pin(String),
    DefaultFor(String),
    CloneFor(String),
    FromFor(String),
    Fn(FnSpec),
    ImplBegin { tr: String, ty: String, extra: String },
    Method(FnSpec),
    ImplEnd,
}

pub fn read(path: &str) -> Vec<Cmd> {
    let mut out = vec![];
    read_into(path, &mut out);
    out
}

fn read_into(path: &str, out: &mut Vec<Cmd>) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let block = |i: &mut usize| -> String {
        // current line ends with {{{ ; the block goes to a line that is }}}
        let mut b = String::new();
        *i += 1;
        while lines[*i].trim() != "}}}" { b.push_str(lines[*i]); b.push('\n'); *i += 1; if *i >= lines.len() { panic!("{path}: unterminated block") } }
        b
    };
    fn cur(out: &mut Vec<Cmd>) -> &mut FnSpec {
        match out.last_mut() { Some(Cmd::Fn(f) | Cmd::Method(f)) => f, _ => panic!("directive outside of a function") }
    }
    while i < lines.len() {
        let l = lines[i].trim();
        if l.is_empty() || l.starts_with("//") { i += 1; continue; }
        let Some(l) = l.strip_prefix('@') else { panic!("{path}:{}: unexpected text {l}", i + 1) };
        let w: Vec<&str> = l.split_whitespace().collect();
        match w[0] {
            "include" => read_into(dir.join(w[1]).to_str().unwrap(), out),
            "raw" => { let b = block(&mut i); out.push(Cmd::Raw(b)); }
            "rawfile" => { let t = std::fs::read_to_string(dir.join(w[1])).unwrap(); out.push(Cmd::Raw(t)); }
            "file" => out.push(Cmd::File(w[1].into())),
            "mode" => out.push(Cmd::Mode(w[1].into())),
            "item" => out.push(Cmd::Item { kind: w[1].into(), name: w[2].into(), derive: w[3..].join(" ") }),
            "pin" => out.push(Cmd::Pin(w[1].into())),
            "default" => out.push(Cmd::DefaultFor(w[1].into())),
            "clone" => out.push(Cmd::CloneFor(w[1].into())),
            "from" => out.push(Cmd::FromFor(w[1].into())),
            "try" => cur(out).try_conv = true,
            "rename" => { let p = (w[1].to_string(), w[2].to_string()); cur(out).renames.push(p); }
            "fn" | "contractfn" => out.push(Cmd::Fn(FnSpec { name: w[1].into(), contract: w[0] == "contractfn", ret: "r".into(), ..Default::default() })),
            "impl" => {
                let extra = if l.ends_with("{{{") { block(&mut i) } else { String::new() };
                out.push(Cmd::ImplBegin { tr: w[1].into(), ty: w[3].into(), extra });
            }
            "method" | "contractmethod" => out.push(Cmd::Method(FnSpec { name: w[1].into(), contract: w[0] == "contractmethod", ret: "r".into(), ..Default::default() })),
            "endimpl" => out.push(Cmd::ImplEnd),
            "props" => { let s = w[1..].join(" "); cur(out).props = s; }
            "ret" => { let s = w[1].to_string(); cur(out).ret = s; }
            "spec" => { let b = block(&mut i); cur(out).spec = b; }
            "entry" => { let b = block(&mut i); cur(out).entry = b; }
            "end" => { let b = block(&mut i); cur(out).at_end = b; }
            "endall" => { let b = block(&mut i); cur(out).at_end = b; cur(out).end_all = true; }
            "attr" => { let s = l["attr".len()..].trim().to_string(); cur(out).attrs.push(s); }
            "loop" => { let n = w[1].parse().unwrap(); let b = block(&mut i); cur(out).loops.insert(n, b); }
            "loopbody" => { let n = w[1].parse().unwrap(); let b = block(&mut i); cur(out).loop_body.insert(n, b); }
            "loopend" => { let n = w[1].parse().unwrap(); let b = block(&mut i); cur(out).loop_end.insert(n, b); }
            "exits" => { let n = w[1].parse().unwrap(); let b = block(&mut i); cur(out).exits.insert(n, b); }
            "closure" => { let n = w[1].parse().unwrap(); let b = block(&mut i); cur(out).closures.insert(n, b.trim_end().to_string()); }
            "before" => { let (n, k) = (w[1].to_string(), if w[2] == "*" { usize::MAX } else { w[2].parse().unwrap() }); let b = block(&mut i); cur(out).before_call.push((n, k, b)); }
            "after" => { let (n, k) = (w[1].to_string(), if w[2] == "*" { usize::MAX } else { w[2].parse().unwrap() }); let b = block(&mut i); cur(out).after_call.push((n, k, b)); }
            "ghostparam" => { let s = l["ghostparam".len()..].trim().to_string(); cur(out).ghostparams.push(s); }
            "callghost" => { let m = w[1].to_string(); let s = w[2..].join(" "); cur(out).callghost.push((m, s)); }
            "subst" => {
                let rest = l["subst".len()..].trim();
                let (x, y) = rest.split_once(" ==> ").unwrap_or_else(|| panic!("{path}: bad subst"));
                cur(out).substs.push((x.to_string(), y.to_string()));
            }
            "subst?" => {
                let rest = l["subst?".len()..].trim();
                let (x, y) = rest.split_once(" ==> ").unwrap_or_else(|| panic!("{path}: bad subst"));
                cur(out).substs.push((x.to_string(), format!("?{y}")));
            }
            x => panic!("{path}:{}: unknown directive {x}", i + 1),
        }
        i += 1;
    }
}
