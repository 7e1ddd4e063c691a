//! The explorer. A property is a list of families; a family is a finite,
//! indexable space of cases, and every index in it is executed against the
//! real parser. No sampling: an index is skipped only when the wall cap is hit,
//! and then the run says so (`exhaustive: false`).
use rustextile::{HtmlKind, Textile};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Parser configuration: one point of the public builder API's product space.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub restricted: bool,
    pub lite: bool,
    pub xhtml: bool,
    pub noimg: bool,
    pub noblock: bool,
    pub raw: bool,
    pub rel: bool,
    pub sanitize: bool,
    /// set_align_class: 0 not called, 1 true, 2 false
    pub align: u8,
    pub uid: &'static str,
}

pub const D: Cfg = Cfg {
    restricted: false, lite: false, xhtml: false, noimg: false, noblock: false,
    raw: false, rel: false, sanitize: false, align: 0, uid: "U",
};
pub const R: Cfg = Cfg { restricted: true, ..D };

impl Cfg {
    pub fn build(&self) -> Textile {
        let mut t = Textile::default().set_uid(self.uid);
        if self.restricted { t = t.set_restricted(true); }
        if self.lite { t = t.set_lite(true); }
        if self.xhtml { t = t.set_html_kind(HtmlKind::XHTML); }
        if self.noimg { t = t.set_images(false); }
        if self.noblock { t = t.set_block_tags(false); }
        if self.raw { t = t.set_raw_blocks(true); }
        if self.rel { t = t.set_rel(Some("nofollow")); }
        if self.sanitize { t = t.set_sanitize(true); }
        if self.align > 0 { t = t.set_align_class(self.align == 1); }
        t
    }
    /// The full boolean product selected by `mask` letters.
    pub fn product(letters: &str) -> Vec<Cfg> {
        let ls: Vec<char> = letters.chars().collect();
        (0..1u32 << ls.len())
            .map(|m| {
                let mut c = D;
                for (i, l) in ls.iter().enumerate() {
                    if m >> i & 1 == 1 { c.set(*l); }
                }
                c
            })
            .collect()
    }
    /// All combinations of the options `free` on top of `fixed`.
    pub fn with(fixed: &str, free: &str) -> Vec<Cfg> {
        Cfg::product(free).into_iter().map(|mut c| { for l in fixed.chars() { c.set(l); } c }).collect()
    }
    fn set(&mut self, l: char) {
        match l {
            'r' => self.restricted = true,
            'l' => self.lite = true,
            'x' => self.xhtml = true,
            'i' => self.noimg = true,
            'n' => self.noblock = true,
            'w' => self.raw = true,
            'e' => self.rel = true,
            's' => self.sanitize = true,
            'a' => self.align = 1,
            'b' => self.align = 2,
            _ => panic!("unknown config letter {l}"),
        }
    }
    pub fn of(letters: &str) -> Cfg {
        let mut c = D;
        for l in letters.chars() { c.set(l); }
        c
    }
    pub fn label(&self) -> String {
        let mut s = String::new();
        for (b, l) in [(self.restricted, 'r'), (self.lite, 'l'), (self.xhtml, 'x'), (self.noimg, 'i'),
            (self.noblock, 'n'), (self.raw, 'w'), (self.rel, 'e'), (self.sanitize, 's'), (self.align == 1, 'a'), (self.align == 2, 'b')] {
            if b { s.push(l); }
        }
        if s.is_empty() { s.push('-'); }
        s
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: usize,
    pub family_name: String,
    pub index: u64,
    pub doc: String,
    pub cfg: String,
    pub msg: String,
}

thread_local! {
    /// One parser per configuration, reused within a worker. A case that
    /// fails is judged again with new parsers before it is reported.
    static CACHE: std::cell::RefCell<std::collections::HashMap<Cfg, Textile>> = Default::default();
}

/// What a case may do: execute the implementation and report.
pub struct Ctx {
    pub parses: u64,
    pub validated: u64,
    pub docs: HashSet<u64>,
    pub outs: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<Value>,
    pub viol: Vec<(String, String, String)>,
    fresh: bool,
    sample_every: u64,
    slot: Arc<Slot>,
    epoch: Instant,
}

struct Slot {
    started: AtomicU64, // ms since epoch, 0 = idle
    doc: Mutex<(String, String)>,
    /// In-flight execution, visible to the parent process if this one dies.
    file: Option<std::fs::File>,
}

impl Slot {
    fn new(i: usize) -> Slot {
        let file = std::env::var("MC_SLOTS").ok()
            .and_then(|d| std::fs::File::create(std::path::Path::new(&d).join(format!("slot{i}"))).ok());
        Slot { started: AtomicU64::new(0), doc: Mutex::new(Default::default()), file }
    }
    fn publish(&self, doc: &str, label: &str, busy: bool) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.file {
            let mut b = Vec::with_capacity(doc.len() + label.len() + 24);
            b.extend_from_slice(&(busy as u64).to_le_bytes());
            if busy {
                b.extend_from_slice(&(label.len() as u64).to_le_bytes());
                b.extend_from_slice(&(doc.len() as u64).to_le_bytes());
                b.extend_from_slice(label.as_bytes());
                b.extend_from_slice(doc.as_bytes());
            }
            let _ = f.write_all_at(&b, 0);
        }
    }
}

/// The executions that were in flight in a dead child: (config, document).
pub fn read_slots(dir: &std::path::Path) -> Vec<(String, String)> {
    let mut v = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if let Ok(b) = std::fs::read(e.path()) {
            let n = |i: usize| b.get(i..i + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()) as usize);
            if let (Some(1), Some(l), Some(d)) = (n(0), n(8), n(16)) {
                if let (Some(a), Some(c)) = (b.get(24..24 + l), b.get(24 + l..24 + l + d)) {
                    v.push((String::from_utf8_lossy(a).into(), String::from_utf8_lossy(c).into()));
                }
            }
        }
    }
    v
}

pub fn h<T: Hash>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

impl Ctx {
    fn new(slot: Arc<Slot>, epoch: Instant) -> Self {
        Ctx {
            parses: 0, validated: 0, docs: HashSet::new(), outs: HashSet::new(), nontrivial: HashSet::new(),
            samples: vec![], viol: vec![], fresh: true, sample_every: 0, slot, epoch,
        }
    }
    /// For replays and self tests.
    pub fn standalone() -> Self {
        Self::new(Arc::new(Slot { started: AtomicU64::new(0), doc: Mutex::new(Default::default()), file: None }), Instant::now())
    }

    /// One execution of the real parser under `cfg`, panics observed.
    pub fn parse(&mut self, cfg: &Cfg, doc: &str) -> Result<String, String> {
        let t = if self.fresh { cfg.build() } else { CACHE.with(|c| c.borrow_mut().remove(cfg)).unwrap_or_else(|| cfg.build()) };
        let r = self.parse_with(&t, &cfg.label(), doc);
        if !self.fresh && r.is_ok() { CACHE.with(|c| c.borrow_mut().insert(cfg.clone(), t)); }
        r
    }
    pub fn parse_with(&mut self, t: &Textile, label: &str, doc: &str) -> Result<String, String> {
        let l = label.to_string();
        self.guarded(doc, &l, || t.parse(doc))
    }
    /// Runs anything that calls the implementation under the watchdog.
    pub fn guarded<F: FnOnce() -> String>(&mut self, doc: &str, label: &str, f: F) -> Result<String, String> {
        self.parses += 1;
        {
            let mut g = self.slot.doc.lock().unwrap();
            g.0.clear(); g.0.push_str(doc);
            g.1.clear(); g.1.push_str(label);
        }
        self.slot.publish(doc, label, true);
        self.slot.started.store(self.epoch.elapsed().as_millis() as u64 + 1, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.slot.started.store(0, SeqCst);
        self.slot.publish("", "", false);
        match r {
            Ok(o) => {
                self.docs.insert(h(&doc));
                self.outs.insert(h(&o));
                if self.sample_every < 4 && self.parses % 997 == 1 {
                    self.sample_every += 1;
                    self.samples.push(json!({"doc": doc, "config": label, "output": o}));
                }
                Ok(o)
            }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                Err(m)
            }
        }
    }
    pub fn fail(&mut self, cfg: &Cfg, doc: &str, msg: impl Into<String>) {
        self.fail_l(&cfg.label(), doc, msg)
    }
    pub fn fail_l(&mut self, label: &str, doc: &str, msg: impl Into<String>) {
        self.viol.push((label.to_string(), doc.to_string(), msg.into()));
    }
    /// Parses; a panic is reported as a violation (the promised output does not exist).
    pub fn must(&mut self, cfg: &Cfg, doc: &str) -> Option<String> {
        match self.parse(cfg, doc) {
            Ok(o) => Some(o),
            Err(e) => {
                self.fail(cfg, doc, format!("no output: the parser panicked: {e}"));
                None
            }
        }
    }
    /// Model/implementation agreement on one document.
    pub fn expect(&mut self, cfg: &Cfg, doc: &str, want: &str) -> Option<String> {
        let got = self.must(cfg, doc)?;
        self.validated += 1;
        if got != want {
            self.fail(cfg, doc, format!("output {got:?}, the model requires {want:?}"));
        }
        Some(got)
    }
    pub fn mark_nontrivial(&mut self, doc: &str) {
        self.nontrivial.insert(h(&doc));
    }
}

pub type CaseFn = Box<dyn Fn(u64, &mut Ctx) + Sync + Send>;

pub struct Family {
    pub name: String,
    pub bound: String,
    pub size: u64,
    pub run: CaseFn,
}

impl Family {
    pub fn new(name: &str, bound: impl Into<String>, size: u64, run: impl Fn(u64, &mut Ctx) + Sync + Send + 'static) -> Family {
        Family { name: name.to_string(), bound: bound.into(), size, run: Box::new(run) }
    }
}

/// All token sequences of length `lo..=hi` over an alphabet, shortest first.
#[derive(Clone)]
pub struct Seqs { pub k: u64, pub lo: u32, pub hi: u32 }
impl Seqs {
    pub fn new(k: usize, lo: u32, hi: u32) -> Self { Seqs { k: k as u64, lo, hi } }
    pub fn size(&self) -> u64 { (self.lo..=self.hi).map(|n| self.k.pow(n)).sum() }
    pub fn decode(&self, mut i: u64) -> Vec<usize> {
        let mut n = self.lo;
        loop {
            let c = self.k.pow(n);
            if i < c { break; }
            i -= c;
            n += 1;
        }
        let mut v = vec![0usize; n as usize];
        for p in (0..n as usize).rev() {
            v[p] = (i % self.k) as usize;
            i /= self.k;
        }
        v
    }
}

/// Mixed-radix product.
#[derive(Clone)]
pub struct Prod(pub Vec<usize>);
impl Prod {
    pub fn size(&self) -> u64 { self.0.iter().map(|x| *x as u64).product() }
    pub fn decode(&self, mut i: u64) -> Vec<usize> {
        let mut v = vec![0; self.0.len()];
        for p in (0..v.len()).rev() {
            v[p] = (i % self.0[p] as u64) as usize;
            i /= self.0[p] as u64;
        }
        v
    }
}

pub fn toks(s: &[&str]) -> Vec<String> { s.iter().map(|x| x.to_string()).collect() }
pub fn join(alpha: &[String], ix: &[usize]) -> String {
    let mut s = String::new();
    for i in ix { s.push_str(&alpha[*i]); }
    s
}

/// Every token sequence over `alphabet` (with `pre`/`post` around it) under every config.
pub fn seq_family(
    name: &str, alphabet: &[&str], lo: u32, hi: u32, pre: &str, post: &str, cfgs: Vec<Cfg>,
    check: impl Fn(&Cfg, &str, &mut Ctx) + Sync + Send + 'static,
) -> Family {
    let a = toks(alphabet);
    let s = Seqs::new(a.len(), lo, hi);
    let (pre, post) = (pre.to_string(), post.to_string());
    let bound = format!("all sequences of {lo}..={hi} tokens over {} tokens, {} configs", a.len(), cfgs.len());
    Family::new(name, bound, s.size(), move |i, ctx| {
        let doc = format!("{pre}{}{post}", join(&a, &s.decode(i)));
        for c in &cfgs { check(c, &doc, ctx); }
    })
}

pub struct Report {
    pub families: Vec<Value>,
    pub cases: u64,
    pub parses: u64,
    pub validated: u64,
    pub docs: u64,
    pub outs: u64,
    pub nontrivial: u64,
    pub exhaustive: bool,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub wall: f64,
}

pub struct Opts { pub threads: usize, pub cap: Duration, pub hang: Duration, pub max_viol: usize }

pub fn explore(fams: &[Family], opts: &Opts) -> Report {
    let epoch = Instant::now();
    let hang: Arc<Mutex<Option<(usize, u64, String, String)>>> = Arc::new(Mutex::new(None));
    let mut rep = Report {
        families: vec![], cases: 0, parses: 0, validated: 0, docs: 0, outs: 0, nontrivial: 0, exhaustive: true,
        samples: vec![], violations: vec![], wall: 0.0,
    };
    let mut docs: HashSet<u64> = HashSet::new();
    let mut outs: HashSet<u64> = HashSet::new();
    let mut nontriv: HashSet<u64> = HashSet::new();
    for (fi, fam) in fams.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let alive = AtomicU64::new(opts.threads as u64);
        let viol: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let sink: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
        let chunk = (fam.size / (opts.threads as u64 * 64)).clamp(1, 512);
        let slots: Vec<Arc<Slot>> = (0..opts.threads)
            .map(|i| Arc::new(Slot::new(i)))
            .collect();
        let hung = hang.clone();
        // Worker threads are detached so that a hung one cannot block the verdict.
        let ok = std::thread::scope(|sc| {
            for slot in slots.iter() {
                let (slot, next, done, stop, capped, viol, sink, alive) =
                    (slot.clone(), &next, &done, &stop, &capped, &viol, &sink, &alive);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut ctx = Ctx::new(slot, epoch);
                    'outer: loop {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= fam.size || stop.load(SeqCst) { break; }
                        if epoch.elapsed() > opts.cap { capped.store(true, SeqCst); break; }
                        for i in a..(a + chunk).min(fam.size) {
                            for fresh in [false, true] {
                                ctx.fresh = fresh;
                                ctx.viol.clear();
                                let r = catch_unwind(AssertUnwindSafe(|| (fam.run)(i, &mut ctx)));
                                if r.is_err() {
                                    eprintln!("engine error: oracle of family {} panicked at index {i}", fam.name);
                                    std::process::exit(3);
                                }
                                if ctx.viol.is_empty() { break; }
                            }
                            done.fetch_add(1, SeqCst);
                            if !ctx.viol.is_empty() {
                                let mut v = viol.lock().unwrap();
                                for (cfg, doc, msg) in ctx.viol.drain(..) {
                                    v.push(Violation { family: fi, family_name: fam.name.clone(), index: i, doc, cfg, msg });
                                }
                                if v.len() >= opts.max_viol { stop.store(true, SeqCst); break 'outer; }
                            }
                        }
                    }
                    sink.lock().unwrap().push(ctx);
                    alive.fetch_sub(1, SeqCst);
                }).unwrap();
            }
            // watchdog
            loop {
                if alive.load(SeqCst) == 0 { return true; }
                std::thread::sleep(Duration::from_millis(20));
                let now = epoch.elapsed().as_millis() as u64;
                for s in &slots {
                    let st = s.started.load(SeqCst);
                    if st != 0 && now.saturating_sub(st) > opts.hang.as_millis() as u64 {
                        let g = s.doc.lock().unwrap().clone();
                        *hung.lock().unwrap() = Some((fi, 0, g.0.clone(), g.1.clone()));
                        // leave through the reporting hook: the scope cannot be joined
                        HANG.with_report(fam, fi, &g.0, &g.1, opts.hang);
                    }
                }
            }
        });
        let _ = ok;
        for c in sink.into_inner().unwrap() {
            rep.parses += c.parses;
            rep.validated += c.validated;
            docs.extend(c.docs);
            outs.extend(c.outs);
            nontriv.extend(c.nontrivial);
            if rep.samples.len() < 12 { rep.samples.extend(c.samples.into_iter().take(2)); }
        }
        let d = done.load(SeqCst);
        rep.cases += d;
        let complete = d == fam.size;
        rep.exhaustive &= complete;
        rep.violations.extend(viol.into_inner().unwrap());
        rep.families.push(json!({"family": fam.name, "bound": fam.bound, "cases": fam.size, "explored": d,
            "complete": complete, "capped": capped.load(SeqCst), "wall_s": t0.elapsed().as_secs_f64()}));
        if rep.violations.len() >= opts.max_viol { break; }
    }
    rep.docs = docs.len() as u64;
    rep.outs = outs.len() as u64;
    rep.nontrivial = nontriv.len() as u64;
    rep.violations.sort_by(|a, b| (a.family, a.index).cmp(&(b.family, b.index)));
    rep.wall = epoch.elapsed().as_secs_f64();
    rep
}

/// A hung execution cannot be unwound, so the verdict for it is written from the watchdog.
pub struct HangHook;
pub static HANG: HangHook = HangHook;
pub static HANG_FN: Mutex<Option<Box<dyn Fn(&Violation) + Send>>> = Mutex::new(None);
impl HangHook {
    fn with_report(&self, fam: &Family, fi: usize, doc: &str, cfg: &str, limit: Duration) {
        let v = Violation {
            family: fi, family_name: fam.name.clone(), index: u64::MAX, doc: doc.to_string(), cfg: cfg.to_string(),
            msg: format!("no output: the parser did not return within {} s", limit.as_secs()),
        };
        if let Some(f) = HANG_FN.lock().unwrap().as_ref() { f(&v); }
        std::process::exit(1);
    }
}
