//! Replay engine: searches for concrete failing inputs of the properties on the real code.
//! usage: zvreplay PROP [--tier quick|thorough] [--seed N] [--budget SECONDS] [--out FILE] [--only INDEX]
//! Exit 0: no failing input found, 1: failing input found (written to --out), 2: usage.
mod engine;
mod props_builder;
mod props_http;
mod props_fs;
mod props_reader;
mod source;
mod spec;
mod trust;

use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Watch { text: String, since: Instant, index: u64 }

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Instant,
    pub index: u64,
    only: Option<u64>,
    watch: Arc<Mutex<Option<Watch>>>,
    seen: HashSet<u64>,
    pub evaluations: u64,
    pub groups: Vec<(String, u64)>,
    samples: Vec<String>,
    failure: Option<(u64, String, String)>,
    last_panic: Arc<Mutex<String>>,
}

impl Ctx {
    /// Runs one case; `text` describes it completely. Returns false when the search should stop.
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, group: &str, text: &dyn Fn() -> String, f: F) -> bool {
        if self.failure.is_some() { return false; }
        let index = self.index;
        self.index += 1;
        if let Some(o) = self.only { if o != index { return index < o; } }
        let t = text();
        let mut h = DefaultHasher::new();
        (group, &t).hash(&mut h);
        let fresh = self.seen.insert(h.finish());
        if fresh && (self.samples.len() < 3 || (index % 1009 == 0 && self.samples.len() < 8)) {
            let mut s = format!("{group}: {t}");
            if s.len() > 700 { let mut k = 700; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s.push_str("..."); }
            self.samples.push(s);
        }
        *self.watch.lock().unwrap() = Some(Watch { text: format!("{group}: {t}"), since: Instant::now(), index });
        let r = catch_unwind(AssertUnwindSafe(f));
        *self.watch.lock().unwrap() = None;
        self.evaluations += 1;
        match self.groups.iter_mut().find(|g| g.0 == group) {
            Some(g) => g.1 += 1,
            None => self.groups.push((group.to_string(), 1)),
        }
        match r {
            Ok(Ok(())) => true,
            Ok(Err(e)) => { self.failure = Some((index, format!("{group}: {t}"), e)); false }
            Err(_) => {
                let p = self.last_panic.lock().unwrap().clone();
                self.failure = Some((index, format!("{group}: {t}"), format!("panic: {p}")));
                false
            }
        }
    }
    pub fn go(&self) -> bool {
        self.failure.is_none() && Instant::now() < self.deadline && self.only.is_none_or(|o| self.index <= o)
    }
}

fn write_failure(out: &str, prop: &str, seed: u64, tier: &str, index: u64, case: &str, what: &str) {
    let j = serde_json::json!({
        "property": prop, "kind": "failing-input", "what": what, "case": case, "seed": seed, "index": index,
        "reproduce": format!("cd /verif && ./check replay {prop} {seed} {tier} {index}"),
    });
    let s = serde_json::to_string_pretty(&j).unwrap();
    if !out.is_empty() { let _ = std::fs::write(out, &s); }
    println!("FAIL {prop} case {index}: {what}\n  {}", case.chars().take(1500).collect::<String>());
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let out = get("--out").unwrap_or_default();
    let only = get("--only").and_then(|s| s.parse().ok());
    let start = Instant::now();

    let last_panic = Arc::new(Mutex::new(String::new()));
    let lp = last_panic.clone();
    std::panic::set_hook(Box::new(move |i| { *lp.lock().unwrap() = i.to_string().replace('\n', " "); }));

    let watch: Arc<Mutex<Option<Watch>>> = Arc::new(Mutex::new(None));
    {
        let (watch, out, prop, tier) = (watch.clone(), out.clone(), prop.clone(), tier.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if let Some(w) = watch.lock().unwrap().as_ref() {
                if w.since.elapsed() > Duration::from_secs(60) {
                    write_failure(&out, &prop, seed, &tier, w.index, &w.text, "no progress for 60 s (endless loop)");
                    std::process::exit(1);
                }
            }
        });
    }
    let mut c = Ctx {
        seed, thorough: tier == "thorough", deadline: start + Duration::from_secs_f64(if only.is_some() { 1e6 } else { budget }),
        index: 0, only, watch, seen: HashSet::new(), evaluations: 0, groups: vec![], samples: vec![], failure: None, last_panic,
    };
    let rule = match prop.as_str() {
        "C01" => props_reader::c01(&mut c),
        "C02" => props_builder::c02(&mut c),
        "C03" => props_reader::c03(&mut c),
        "C04" => props_reader::c04(&mut c),
        "C05" => props_reader::c05(&mut c),
        "C06" => props_reader::c06(&mut c),
        "C07" => props_reader::c07(&mut c),
        "C08" => props_builder::c08(&mut c),
        "C09" => props_builder::c09(&mut c),
        "C10" => props_builder::c10(&mut c),
        "C11" => props_reader::c11(&mut c),
        "C12" => props_builder::c12(&mut c),
        "C13" => props_fs::c13(&mut c),
        "C14" => props_http::c14(&mut c),
        "C15" => props_http::c15(&mut c),
        "C16" => props_reader::c16(&mut c),
        "TRUST" => trust::run(&mut c),
        _ => { eprintln!("unknown property {prop}"); std::process::exit(2) }
    };
    let fail = c.failure.take();
    let stats = serde_json::json!({
        "evaluations": c.evaluations, "distinct_nontrivial": c.seen.len(), "rule": rule, "samples": c.samples,
        "groups": c.groups.iter().map(|g| format!("{}: {}", g.0, g.1)).collect::<Vec<_>>(),
        "failed": fail.is_some(), "wall_s": start.elapsed().as_secs_f64(),
    });
    println!("STATS {stats}");
    if let Some((i, case, what)) = fail {
        write_failure(&out, &prop, seed, &tier, i, &case, &what);
        std::process::exit(1);
    }
}
