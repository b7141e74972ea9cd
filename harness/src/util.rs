//! Run context: deterministic randomness, evidence, verdicts, panic capture, watchdog.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub type El = [u64; 4];

// ---------------------------------------------------------------- randomness
#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64, stream: &str) -> Self {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut s = [0u64; 4];
        for x in s.iter_mut() {
            h = h.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = h;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            *x = z ^ (z >> 31);
        }
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

// ---------------------------------------------------------------- evidence
#[derive(Default)]
pub struct Ev {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<(String, String)>,
}

pub fn fnv(data: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for d in data {
        let mut x = *d;
        x ^= x >> 32;
        h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}

pub fn fnv_els(tag: u64, v: &[El]) -> u64 {
    let mut h = tag ^ 0x51_7c_c1_b7_27_22_0a_95;
    for e in v {
        h = fnv(&[h, e[0], e[1], e[2], e[3]]);
    }
    h
}

pub fn sfp(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Ev {
    pub fn case(&mut self, tag: &str, fp: u64, nontrivial: bool) {
        self.evaluations += 1;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        if let Some(c) = self.counters.get_mut(tag) {
            *c += 1;
        } else {
            self.counters.insert(tag.to_string(), 1);
        }
        if nontrivial && self.distinct.len() < 20_000_000 {
            self.distinct.insert(fp);
        }
    }
    pub fn count(&mut self, tag: &str, n: u64) {
        *self.counters.entry(tag.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, tag: &str, f: impl FnOnce() -> String) {
        if self.samples.len() < 400 && self.samples.iter().filter(|(t, _)| t == tag).count() < 1 {
            self.samples.push((tag.to_string(), f()));
        }
    }
    pub fn merge(&mut self, o: Ev) {
        self.evaluations += o.evaluations;
        if self.distinct.len() < o.distinct.len() {
            let mine = std::mem::replace(&mut self.distinct, o.distinct);
            self.distinct.extend(mine);
        } else {
            self.distinct.extend(o.distinct);
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (t, s) in o.samples {
            if self.samples.iter().filter(|(u, _)| *u == t).count() < 2 {
                self.samples.push((t, s));
            }
        }
    }
}

// ---------------------------------------------------------------- run configuration
pub struct Cfg {
    pub prop: String,
    pub variant: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub scale: f64,
    pub repo: String,
    pub out: Option<String>,
    pub replay_dir: String,
    pub known: HashSet<String>,
    pub start: Instant,
}

pub static CFG: OnceLock<Cfg> = OnceLock::new();
pub fn cfg() -> &'static Cfg {
    CFG.get().unwrap()
}

/// Quick/thorough amount, scaled by the variant's speed.
pub fn amount(quick: usize, thorough: usize) -> usize {
    let n = if cfg().thorough { thorough } else { quick };
    let k = if cfg!(feature = "share") && !matches!(cfg().prop.as_str(), "C19" | "C21") { 0.2 } else { 1.0 };
    ((n as f64 * cfg().scale * k).ceil() as usize).max(1)
}

// ---------------------------------------------------------------- verdicts
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

static REPORTING: Mutex<()> = Mutex::new(());

pub fn violation(what: &str, witness: String) -> ! {
    let _g = REPORTING.lock();
    let c = cfg();
    let _ = std::fs::create_dir_all(&c.replay_dir);
    let path = format!("{}/{}-{}-{}.json", c.replay_dir, c.prop, c.variant, c.seed);
    let body = format!(
        "{{\"property\":\"{}\",\"variant\":\"{}\",\"seed\":{},\"tier\":\"{}\",\"what\":\"{}\",\"witness\":\"{}\",\"args\":\"{}\"}}\n",
        c.prop,
        c.variant,
        c.seed,
        if c.thorough { "thorough" } else { "quick" },
        esc(what),
        esc(&witness),
        esc(&std::env::args().collect::<Vec<_>>().join(" "))
    );
    let _ = std::fs::write(&path, body);
    let short: String = witness.chars().take(1500).collect();
    println!("# {} [{}]: {}\n# witness: {}", c.prop, c.variant, what, short);
    println!("VIOLATION property={} replay={}", c.prop, path);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

/// A recorded, unrepaired defect: reported as such when listed, as a violation otherwise.
pub fn finding(key: &str, what: &str, witness: String) {
    if cfg().known.contains(key) {
        println!("KNOWN-FINDING: property={} {} ({})", cfg().prop, what, key);
    } else {
        violation(what, witness);
    }
}

/// The check itself could not do its work: neither held nor violated.
pub fn inconclusive(what: &str) -> ! {
    println!("INCONCLUSIVE property={} {}", cfg().prop, what);
    std::process::exit(2);
}

// ---------------------------------------------------------------- panics
thread_local! {
    static CATCHING: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        let c = CATCHING.try_with(|c| c.get()).unwrap_or(0);
        if c == 0 {
            // every call that may be refused runs inside `catch`: here the library gave up on a well-formed one
            let lib = info.location().is_some_and(|l| l.file().starts_with(&format!("{}/src/", cfg().repo)));
            if lib && !cfg!(miri) && std::env::args().nth(1).is_some_and(|p| p.starts_with('C')) {
                violation("the library panicked in a well-formed call", msg);
            }
            eprintln!("harness panic (not a verdict): {}", msg);
        }
        let _ = LAST.try_with(|l| *l.borrow_mut() = msg);
    }));
}

/// Run monitored code; Err carries the panic message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CATCHING.with(|c| c.set(c.get() + 1));
    IN_CALL.fetch_add(1, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.fetch_sub(1, Ordering::Relaxed);
    CATCHING.with(|c| c.set(c.get() - 1));
    r.map_err(|_| LAST.with(|l| std::mem::take(&mut *l.borrow_mut())))
}

// ---------------------------------------------------------------- parallel jobs
pub type Job<'a> = Box<dyn FnOnce(&mut Ev) + Send + 'a>;

pub fn par(jobs: Vec<Job<'_>>) -> Ev {
    let n = if cfg!(feature = "share") { 1 } else { cfg().threads.max(1) };
    if n == 1 {
        let mut ev = Ev::default();
        for j in jobs {
            j(&mut ev);
        }
        return ev;
    }
    let queue = Mutex::new(jobs.into_iter().map(Some).collect::<Vec<_>>());
    let next = AtomicU64::new(0);
    let total = Mutex::new(Ev::default());
    let broken = AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..n {
            let (queue, next, total, broken) = (&queue, &next, &total, &broken);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut ev = Ev::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                        let job = {
                            let mut q = queue.lock().unwrap();
                            if i >= q.len() {
                                break;
                            }
                            q[i].take().unwrap()
                        };
                        if catch_unwind(AssertUnwindSafe(|| job(&mut ev))).is_err() {
                            broken.store(true, Ordering::Relaxed);
                        }
                    }
                    total.lock().unwrap().merge(ev);
                })
                .unwrap();
        }
    });
    if broken.load(Ordering::Relaxed) {
        inconclusive("a harness job panicked outside the monitored code");
    }
    total.into_inner().unwrap()
}

// ---------------------------------------------------------------- watchdog
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// Monitored calls currently under way.
pub static IN_CALL: AtomicU64 = AtomicU64::new(0);

fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

fn running_threads() -> usize {
    let mut n = 0;
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
                let st = s.rsplit(')').next().unwrap_or("").split_whitespace().next().unwrap_or("");
                if st == "R" || st == "D" {
                    n += 1;
                }
            }
        }
    }
    n
}

/// Bounded progress, decided on consumed CPU time (spinning) or on every thread being
/// blocked (deadlock), never on wall-clock time alone.
pub fn watchdog() {
    let _ = std::thread::Builder::new().spawn(|| {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut cpu0 = cpu_seconds();
        let mut blocked = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let p = PROGRESS.load(Ordering::Relaxed);
            let cpu = cpu_seconds();
            if p != last {
                last = p;
                cpu0 = cpu;
                blocked = 0;
                continue;
            }
            if cpu - cpu0 > 200.0 * cfg().threads.max(1) as f64 / 8.0 + 100.0 {
                if IN_CALL.load(Ordering::Relaxed) == 0 {
                    inconclusive("the harness makes no progress outside monitored calls");
                }
                violation(
                    "a monitored call does not return (no event completed while burning CPU)",
                    format!("events completed before: {}, CPU seconds since the last: {:.0}", p, cpu - cpu0),
                );
            }
            // the watchdog itself is the only runnable thread
            if running_threads() <= 1 && cpu - cpu0 < 1.0 {
                blocked += 1;
                if blocked > 120 {
                    if IN_CALL.load(Ordering::Relaxed) == 0 {
                        inconclusive("the harness is blocked outside monitored calls");
                    }
                    violation("deadlock: every thread of the workload is blocked", format!("events completed before: {}", p));
                }
            } else {
                blocked = 0;
            }
        }
    });
}

pub fn hex(e: &El) -> String {
    let mut s = format!("{:016x}{:016x}{:016x}{:016x}", e[3], e[2], e[1], e[0]);
    while s.len() > 2 && s.starts_with("00") {
        s.drain(..2);
    }
    format!("0x{}", s)
}

pub fn hexv(v: &[El]) -> String {
    format!("[{}]", v.iter().map(hex).collect::<Vec<_>>().join(","))
}

pub fn write_out(ev: &Ev) {
    let mut s = String::new();
    s.push_str(&format!(
        "{{\"variant\":\"{}\",\"evaluations\":{},\"distinct\":{},\"wall_s\":{:.3},\"hooks\":{},\"counters\":{{",
        cfg().variant,
        ev.evaluations,
        ev.distinct.len(),
        cfg().start.elapsed().as_secs_f64(),
        cfg!(vp_hooks)
    ));
    s.push_str(&ev.counters.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"samples\":[");
    s.push_str(&ev.samples.iter().take(40).map(|(k, v)| format!("\"{}: {}\"", esc(k), esc(&v.chars().take(600).collect::<String>()))).collect::<Vec<_>>().join(","));
    s.push_str("]}\n");
    match &cfg().out {
        Some(p) => {
            if std::fs::write(p, s).is_err() {
                inconclusive("cannot write the evidence");
            }
        }
        None => print!("{}", s),
    }
}

/// A number never given out before in this process.
pub fn serial() -> u64 {
    static N: AtomicU64 = AtomicU64::new(1);
    N.fetch_add(1, Ordering::Relaxed)
}
