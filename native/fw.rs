//! Replay and bounded search harness. It is mounted, by /verif/tools/check.py, into a scratch
//! copy of /repo/src as `crate::vp_fw`; the per-property files (C01.rs, ...) are mounted as a
//! child module of the module they exercise, so that they call the real code, private items
//! included. Nothing here is part of a proof.
#![allow(dead_code)]
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// what a case found
pub enum Out {
    Ok,
    /// the property fails
    Bad(String),
    /// the property fails in the way recorded under this key in the known-findings file
    Known(&'static str, String),
}

pub struct Rng(std::cell::Cell<u64>);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(std::cell::Cell::new(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)) }
    pub fn next(&self) -> u64 {
        self.0.set(self.0.get().wrapping_add(0x9E3779B97F4A7C15));
        let mut z = self.0.get();
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn byte(&self) -> u8 { self.next() as u8 }
    pub fn chance(&self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn bytes(&self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    /// printable and non-ASCII characters of every UTF-8 width
    pub fn ch(&self) -> char {
        match self.below(8) {
            0 => *self.pick(&['\u{e9}', '\u{df}', '\u{3b1}', '\u{7ff}', '\u{80}']),
            1 => *self.pick(&['\u{800}', '\u{4e2d}', '\u{20ac}', '\u{fffd}', '\u{ffff}']),
            2 => *self.pick(&['\u{1F600}', '\u{10FFFF}', '\u{10000}']),
            3 => *self.pick(&['\0', '\n', '"', ' ', '\t', '\u{7f}', '\\']),
            _ => (b' ' + self.below(95) as u8) as char,
        }
    }
    pub fn text(&self, n: usize) -> String { (0..n).map(|_| self.ch()).collect() }
    /// text made of the pieces that code reading text line by line, word by word or mark by mark tends to treat
    /// specially; none of the characters in `not`
    pub fn odd(&self, n: usize, not: &str) -> String {
        let mut s = String::new();
        for _ in 0..n {
            match self.below(4) {
                0 => s.push_str(self.pick(&["//", "\n//", "/*", "*/", "--", "\n--", "#", "\n#", "\r\n", "\n", "\n\n", "\t", " ", "  ", "\\", "\\n", "\\\\", "'", "`", "%s", "${x}", "{{", "}}", "&&", "||", "->", "::", ":=", "...", "\u{feff}", "\u{a0}", "\u{0}", "\u{201c}", "\u{201d}", "\u{2018}x\u{2019}", "\u{ab}", "\u{bb}", "\u{2014}", "\u{2028}", "\u{85}", "\u{200b}", "\u{ff0c}", "\u{37e}", "\u{1f600}", "\u{7f}", "\u{1b}", "e\u{301}", "\u{130}", "\u{df}", "<", ">", "=", "!", "^", "~", "&"])),
                1 => s.push(self.ch()),
                2 => s.push_str(self.pick(&["end", "END", "script", "define", "loop", "if", "else", "table", "test", "_", "__", "$", "$$", "@", "0", "007", "1e3", "inf", "nan", "null", "None", "true", "A", "Zz"])),
                _ => { let k = self.range(1, 3); s.push_str(&self.word(k)); }
            }
        }
        s.chars().filter(|c| !not.contains(*c)).collect()
    }
    /// a name: no blanks and none of the marks of the two languages, neither a keyword nor a number
    pub fn ident(&self) -> String {
        let k = self.range(1, 3);
        let w = self.word(k);
        let s = match self.below(10) {
            0 => format!("_{w}"),
            1 => format!("{w}_"),
            2 => format!("__{}__", w.to_uppercase()),
            3 => format!("{}.{}", w, self.below(100)),
            4 => format!("{}{}", w.to_uppercase(), self.below(1000)),
            5 => format!("{}{}x", w, self.below(10)),
            6 => format!("{w}\u{e9}\u{4e2d}"),
            7 => format!("{}{w}", self.pick(&["N", "Ta", "aB", "#", "@", "$", "%", "x.y", "\\", "'", "|", "~", "^", "?", "End", "Table", "tables", "ends", "script_", "test2", "_end"])),
            8 => "_".repeat(self.range(1, 3)),
            _ => format!("N{w}"),
        };
        if s.parse::<f64>().is_ok() || ["table", "relationship", "value_list", "table_occurence", "script", "test", "end", "define", "let", "loop", "if", "elif", "else"].contains(&s.as_str()) { format!("{s}_q") } else { s }
    }
    pub fn word(&self, n: usize) -> String { (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect() }
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub seed: u64,
    only: Option<String>,
    deadline: Instant,
    case_limit: Duration,
    cur: Arc<Mutex<Option<(String, Instant)>>>,
    evals: u64,
    seen: HashSet<u64>,
    samples: Vec<String>,
    sample_kinds: HashSet<String>,
    failure: Option<(String, String)>,
    known: BTreeMap<&'static str, (u64, String)>,
    log: Option<std::fs::File>,
    out: String,
    rule: String,
}

impl Ctx {
    pub fn scale(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    /// stop generating: a failure was found or the time is used up
    pub fn done(&self) -> bool { self.failure.is_some() || Instant::now() > self.deadline }
    /// one case: `desc` identifies the input completely; a panic is a failure
    pub fn case<F: FnOnce() -> Out>(&mut self, desc: String, nontrivial: bool, f: F) {
        if self.failure.is_some() { return; }
        if let Some(o) = &self.only { if *o != desc { return; } }
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            self.seen.insert(h.finish());
            let kind = desc.split(|c| c == ' ' || c == '(').next().unwrap_or("").to_string();
            if self.samples.len() < 12 && self.sample_kinds.insert(kind) { self.samples.push(desc.chars().take(300).collect()); }
        }
        if let Some(l) = &mut self.log {
            use std::io::{Seek, SeekFrom, Write};
            let _ = l.seek(SeekFrom::Start(0));
            let _ = l.set_len(0);
            let _ = l.write_all(desc.as_bytes());
        }
        *self.cur.lock().unwrap_or_else(|e| e.into_inner()) = Some((desc.clone(), Instant::now()));
        let r = catch_unwind(AssertUnwindSafe(f));
        *self.cur.lock().unwrap_or_else(|e| e.into_inner()) = None;
        match r {
            Ok(Out::Ok) => {}
            Ok(Out::Known(k, m)) => {
                let e = self.known.entry(k).or_insert((0, format!("{}: {}", desc, m)));
                e.0 += 1;
            }
            Ok(Out::Bad(m)) => self.failure = Some((desc, m)),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.failure = Some((desc, format!("panicked: {}", m)));
            }
        }
    }
    fn report(&self) -> String {
        let mut s = String::from("{");
        let _ = write!(s, "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"time_up\":{},", self.evals, self.seen.len(), js(&self.rule), Instant::now() > self.deadline);
        let _ = write!(s, "\"samples\":[{}],", self.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        let _ = write!(s, "\"known\":{{{}}},", self.known.iter().map(|(k, (n, d))| format!("{}:{{\"count\":{},\"first\":{}}}", js(k), n, js(d))).collect::<Vec<_>>().join(","));
        match &self.failure {
            None => s.push_str("\"failure\":null}"),
            Some((c, m)) => { let _ = write!(s, "\"failure\":{{\"case\":{},\"why\":{}}}}}", js(c), js(m)); }
        }
        s
    }
}

pub fn js(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

/// run a property's search; everything is taken from the environment
pub fn run<F: FnOnce(&mut Ctx) + Send + 'static>(rule: &str, f: F) {
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or(d.to_string());
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let out = env("VP_OUT", "vp_out.json");
    let cur: Arc<Mutex<Option<(String, Instant)>>> = Arc::new(Mutex::new(None));
    let limit = Duration::from_secs(env("VP_CASE_SECS", "20").parse().unwrap_or(20));
    let ctx = Ctx {
        rng: Rng::new(seed),
        thorough: env("VERIF_TIER", "quick") == "thorough",
        seed,
        only: std::env::var("VP_ONLY").ok(),
        deadline: Instant::now() + Duration::from_secs(env("VP_SECS", "60").parse().unwrap_or(60)),
        case_limit: limit,
        cur: cur.clone(),
        evals: 0,
        seen: HashSet::new(),
        samples: vec![],
        sample_kinds: HashSet::new(),
        failure: None,
        known: BTreeMap::new(),
        log: std::env::var("VP_LOG").ok().and_then(|p| std::fs::File::create(p).ok()),
        out: out.clone(),
        rule: rule.to_string(),
    };
    std::panic::set_hook(Box::new(|_| {}));
    // the watchdog: a case that does not return is a failure too
    {
        let (cur, out, rule) = (cur.clone(), out.clone(), rule.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let stuck = cur.lock().unwrap_or_else(|e| e.into_inner()).clone();
            if let Some((d, t)) = stuck {
                if t.elapsed() > limit {
                    let s = format!("{{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":{},\"samples\":[],\"known\":{{}},\"failure\":{{\"case\":{},\"why\":\"did not terminate within {} s\"}}}}", js(&rule), js(&d), limit.as_secs());
                    let _ = std::fs::write(&out, s);
                    std::process::exit(0);
                }
            }
        });
    }
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { let mut c = ctx; f(&mut c); c }).unwrap();
    let c = match h.join() { Ok(c) => c, Err(e) => {
        eprintln!("harness: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default());
        std::process::exit(3) } };
    std::fs::write(&c.out, c.report()).unwrap();
}
