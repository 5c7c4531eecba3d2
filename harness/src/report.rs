//! Case runner, event tallies, violation/known-finding reporting and evidence.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// What a call into the code under test did.
#[derive(Debug)]
pub enum Out<T> {
    Panic(String),
    Err(String),
    Ok(T),
}
impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn why(&self) -> String {
        match self {
            Out::Panic(m) => format!("panicked: {}", m),
            Out::Err(m) => format!("returned Err: {}", m),
            Out::Ok(_) => "returned Ok".into(),
        }
    }
}
pub fn call<T, E: std::fmt::Debug>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => Out::Err(format!("{:?}", e)),
        Err(_) => Out::Panic(last_panic()),
    }
}
pub fn callv<T>(f: impl FnOnce() -> T) -> Out<T> {
    call(|| Ok::<T, ()>(f()))
}

#[derive(Clone)]
pub struct Viol {
    pub key: String,
    pub desc: String,
    pub stream: String,
    pub idx: u64,
}
#[derive(Default)]
struct State {
    ev: BTreeMap<String, u64>,
    keys: HashSet<u64>,
    evals: u64,
    samples: Vec<String>,
    viol: Vec<Viol>,
    nviol: u64,
    bykey: BTreeMap<String, u64>,
    skipped: u64,
    first: Option<Instant>,
}
pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub jobs: usize,
    pub start: Instant,
    pub deadline: Instant,
    pub root: String,
    only: Option<(String, u64)>,
    /// running in the build without overflow and debug assertions, on behalf of the main run
    pub sub: bool,
    st: Mutex<State>,
}
/// Per-case tally handed to a case closure.
pub struct T<'a> {
    pub run: &'a Run,
    pub rng: Rng,
    pub idx: u64,
    stream: &'a str,
    ev: BTreeMap<String, u64>,
    keys: Vec<u64>,
    evals: u64,
    viol: Vec<(String, String)>,
    samples: Vec<String>,
    /// wrong turns to try per hostile search
    pub turns: usize,
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
impl<'a> T<'a> {
    /// a monitored event
    pub fn ev(&mut self, name: &str) {
        self.evn(name, 1)
    }
    pub fn evn(&mut self, name: &str, n: u64) {
        *self.ev.entry(name.to_string()).or_insert(0) += n;
    }
    /// one evaluated case; `key` identifies it, trivial cases are not counted as distinct
    pub fn case(&mut self, key: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.keys.push(hash_str(key));
        }
        if self.samples.is_empty() && nontrivial {
            let mut k = key.to_string();
            if k.len() > 400 {
                let mut i = 400;
                while !k.is_char_boundary(i) {
                    i -= 1;
                }
                k.truncate(i);
                k.push_str("...");
            }
            self.samples.push(k);
        }
    }
    pub fn viol(&mut self, key: &str, mut desc: String) {
        if desc.len() > 40_000 {
            let mut i = 40_000;
            while !desc.is_char_boundary(i) {
                i -= 1;
            }
            desc.truncate(i);
            desc.push_str("...");
        }
        if self.viol.len() < 20 {
            self.viol.push((key.to_string(), desc));
        }
    }
    pub fn thorough(&self) -> bool {
        self.run.thorough
    }
}

impl Run {
    pub fn new(prop: &str, thorough: bool, seed: u64, root: String, only: Option<(String, u64)>) -> Run {
        let jobs = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
        let start = Instant::now();
        let budget: u64 = std::env::var("VH_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 420 });
        Run {
            prop: prop.into(),
            thorough,
            seed,
            jobs,
            start,
            deadline: start + Duration::from_secs(budget),
            root,
            only,
            sub: std::env::var("VH_SUB").is_ok(),
            st: Mutex::new(State::default()),
        }
    }
    /// quick/thorough case count
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// like `par`, one case at a time (the code under test parallelises itself)
    pub fn seq(&self, stream: &str, n: u64, f: impl Fn(&mut T) + Sync) {
        self.go(stream, n, 1, false, f)
    }
    /// run even when replaying a case of another stream
    pub fn par_always(&self, stream: &str, n: u64, f: impl Fn(&mut T) + Sync) {
        self.go(stream, n, self.jobs, true, f)
    }
    pub fn par(&self, stream: &str, n: u64, f: impl Fn(&mut T) + Sync) {
        self.go(stream, n, self.jobs, false, f)
    }
    fn go(&self, stream: &str, n: u64, jobs: usize, always: bool, f: impl Fn(&mut T) + Sync) {
        let next = AtomicU64::new(0);
        let one = |i: u64| {
            let mut t = T {
                run: self,
                rng: Rng::new(self.seed, &format!("{}/{}", self.prop, stream), i),
                idx: i,
                stream,
                ev: BTreeMap::new(),
                keys: vec![],
                evals: 0,
                turns: 6,
                viol: vec![],
                samples: vec![],
            };
            let t0 = Instant::now();
            let crashed = catch_unwind(AssertUnwindSafe(|| f(&mut t))).is_err();
            if std::env::var("VH_SLOW").is_ok() {
                println!("slow {:>8} ms {}#{} {}", t0.elapsed().as_millis(), stream, i, t.samples.first().cloned().unwrap_or_default());
            }
            if crashed {
                // the oracles never panic on well-formed results; getting here means the code under
                // test panicked, or returned a structurally broken object, where it must not
                let m = last_panic();
                t.viol("unexpected-panic", format!("unexpected panic while monitoring: {}", m));
            }
            let mut s = self.st.lock().unwrap();
            for (k, v) in t.ev {
                *s.ev.entry(k).or_insert(0) += v;
            }
            s.keys.extend(t.keys.iter());
            s.evals += t.evals;
            s.nviol += t.viol.len() as u64;
            for (key, desc) in t.viol {
                *s.bykey.entry(key.clone()).or_insert(0) += 1;
                if s.first.is_none() && !load_known(&self.root, &self.prop).iter().any(|k| k.key == key) {
                    s.first = Some(Instant::now());
                }
                if s.viol.iter().filter(|v| v.key == key).count() < 3 {
                    s.viol.push(Viol { key, desc, stream: t.stream.into(), idx: t.idx });
                }
            }
            if (s.samples.len() < 8 && !t.samples.is_empty()) && s.samples.iter().filter(|x| x.starts_with(&format!("[{}#", stream))).count() < 2 {
                let x = t.samples.remove(0);
                s.samples.push(format!("[{}#{}] {}", t.stream, t.idx, x));
            }
        };
        if let (Some((st, i)), false) = (&self.only, always) {
            if st == stream {
                one(*i);
            }
            return;
        }
        std::thread::scope(|sc| {
            for _ in 0..jobs.min(n.max(1) as usize) {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        if Instant::now() > self.deadline || self.enough() {
                            self.st.lock().unwrap().skipped += 1;
                            continue;
                        }
                        one(i);
                    })
                    .unwrap();
            }
        });
    }
    /// violations were found some time ago: the verdict is clear, a few more examples are enough
    fn enough(&self) -> bool {
        let grace = std::env::var("VH_GRACE_S").ok().and_then(|x| x.parse().ok()).unwrap_or(20);
        self.st.lock().unwrap().first.map_or(false, |t| t.elapsed() >= Duration::from_secs(grace))
    }
    /// Repeat the honest streams in the build without overflow checks and debug assertions.
    pub fn wrapping_build(&self) {
        let Ok(bin) = std::env::var("VH_WRAP") else { return };
        if self.sub || self.only.is_some() || self.enough() {
            return;
        }
        let o = std::process::Command::new(bin).arg(&self.prop).env("VH_SUB", "1").output();
        let mut s = self.st.lock().unwrap();
        let Ok(o) = o else {
            println!("the build without overflow checks cannot be run");
            return;
        };
        let txt = String::from_utf8_lossy(&o.stdout).to_string();
        let n = txt.lines().find_map(|l| l.strip_prefix(&format!("{} ", self.prop)).and_then(|l| l.split(": ").nth(1)).and_then(|l| l.split(' ').next()).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0);
        *s.ev.entry("evaluations repeated in the build without overflow checks".into()).or_insert(0) += n;
        let mut it = txt.lines().peekable();
        while let Some(l) = it.next() {
            if !l.starts_with("VIOLATION") {
                continue;
            }
            let mut d = String::new();
            while let Some(x) = it.next_if(|x| x.starts_with("  ")) {
                d += x.trim();
                d += "\n";
            }
            let key = d.strip_prefix('[').and_then(|x| x.split(']').next()).unwrap_or("?").to_string();
            *s.bykey.entry(key.clone()).or_insert(0) += 1;
            s.nviol += 1;
            s.viol.push(Viol { key, desc: format!("(in the build without overflow checks) {}", d), stream: "wrap".into(), idx: 0 });
        }
        if o.status.code() != Some(0) && s.viol.is_empty() {
            println!("the build without overflow checks ended with {:?}", o.status);
        }
    }
    pub fn events(&self, name: &str) -> u64 {
        self.st.lock().unwrap().ev.get(name).cloned().unwrap_or(0)
    }
    /// Finish: print findings, write evidence, return the exit code. `need` lists
    /// events that must have been observed often enough for a verdict of "held".
    pub fn finish(&self, rule: &str, assumptions: &[&str], need: &[(&str, u64)]) -> i32 {
        let s = self.st.lock().unwrap();
        let known = load_known(&self.root, &self.prop);
        let mut hit: Vec<&Known> = vec![];
        let mut bad: Vec<&Viol> = vec![];
        for v in &s.viol {
            match known.iter().find(|k| k.key == v.key) {
                Some(k) => {
                    if !hit.iter().any(|h| h.key == k.key) {
                        hit.push(k)
                    }
                }
                None => bad.push(v),
            }
        }
        for k in &hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.prop, k.what, k.key);
        }
        let mut code = 0;
        let dir = format!("{}/replay", self.root);
        for (i, v) in bad.iter().take(5).enumerate() {
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{}{}.txt", dir, self.prop, if self.sub { "wrap-" } else { "" }, i);
            let body = format!(
                "property: {}\nkey: {}\nseed: {}\ntier: {}\nstream: {}\nindex: {}\nreplay: {}VERIF_SEED={} VERIF_TIER={} VH_ONLY={}:{} {}/check {}\n\n{}\n",
                self.prop,
                v.key,
                self.seed,
                if self.thorough { "thorough" } else { "quick" },
                v.stream,
                v.idx,
                if self.sub { "VH_SUB=1 " } else { "" },
                self.seed,
                if self.thorough { "thorough" } else { "quick" },
                v.stream,
                v.idx,
                self.root,
                self.prop,
                v.desc
            );
            let _ = std::fs::write(&path, body);
            println!("VIOLATION property={} replay={}", self.prop, path);
            println!("  [{}] {}", v.key, v.desc.replace('\n', "\n  "));
            code = 1;
        }
        if code == 0 && self.only.is_none() && !self.sub {
            for (n, k) in need {
                let have = s.ev.get(*n).cloned().unwrap_or(0);
                if have < *k {
                    println!("INSUFFICIENT: {} {} events observed, {} needed", have, n, k);
                    code = 2;
                }
            }
        }
        let wall = self.start.elapsed().as_secs_f64();
        let esc = |x: &str| {
            let mut o = String::new();
            for c in x.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 32 => o.push(' '),
                    c => o.push(c),
                }
            }
            o
        };
        let mut j = String::new();
        j.push_str("{\n");
        j.push_str(&format!(" \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n", self.prop, if self.thorough { "thorough" } else { "quick" }, self.seed));
        j.push_str(" \"coverage\": {\n");
        j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n", s.evals, s.keys.len(), esc(rule)));
        j.push_str("  \"events\": {");
        j.push_str(&s.ev.iter().map(|(k, v)| format!("\n   \"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(","));
        j.push_str("\n  },\n");
        j.push_str(&format!("  \"cases_skipped_at_deadline\": {},\n", s.skipped));
        j.push_str(&format!("  \"known_findings_seen\": [{}],\n", hit.iter().map(|k| format!("\"{}\"", esc(&k.key))).collect::<Vec<_>>().join(", ")));
        j.push_str(&format!("  \"samples\": [{}]\n", s.samples.iter().map(|x| format!("\n   \"{}\"", esc(x))).collect::<Vec<_>>().join(",")));
        j.push_str(" },\n");
        j.push_str(&format!(" \"assumptions\": [{}],\n", assumptions.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", ")));
        j.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, bad.len()));
        if self.only.is_none() && !self.sub {
            let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
            let p = format!("{}/evidence/{}.json", self.root, self.prop);
            if let Err(e) = std::fs::File::create(&p).and_then(|mut f| f.write_all(j.as_bytes())) {
                println!("cannot write evidence: {}", e);
                code = if code == 0 { 2 } else { code };
            }
        }
        println!(
            "{} {}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s, seed {}",
            self.prop,
            match code {
                0 => "held",
                1 => "VIOLATED",
                _ => "inconclusive",
            },
            s.evals,
            s.keys.len(),
            s.nviol,
            wall,
            self.seed
        );
        for (k, v) in &s.bykey {
            println!("   {:>10}  !! {}", v, k);
        }
        for (k, v) in &s.ev {
            println!("   {:>10}  {}", v, k);
        }
        code
    }
}

pub struct Known {
    pub key: String,
    pub what: String,
}
/// `open: property=<id> key=<key> :: <what fails>`; `fixed:` lines suppress nothing.
fn load_known(root: &str, prop: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)) {
        for l in s.lines() {
            let Some(r) = l.strip_prefix("open: property=") else { continue };
            let Some((p, r)) = r.split_once(' ') else { continue };
            let Some(r) = r.strip_prefix("key=") else { continue };
            let Some((k, w)) = r.split_once(" :: ") else { continue };
            if p == prop {
                v.push(Known { key: k.to_string(), what: w.to_string() });
            }
        }
    }
    v
}
