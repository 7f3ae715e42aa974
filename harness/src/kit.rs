//! Shared machinery of all checks: panic capture, allocation accounting, controlled clock,
//! hang watchdog, parallel exploration, evidence and violation reporting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ allocation accounting
pub struct CountingAlloc;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    // 0: no limit
    static LIMIT: Cell<isize> = const { Cell::new(0) };
}

#[inline]
fn account(delta: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + delta;
        l.set(v);
        if delta > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            let over = LIMIT.try_with(|m| m.get() != 0 && v > m.get()).unwrap_or(false);
            if over {
                let _ = LIMIT.try_with(|m| m.set(0));
                memory_limit_hit();
            }
        }
    });
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

fn memory_limit_hit() {
    if let Some(ctx) = current_ctx() {
        let case = CASE_COPY.with(|c| c.borrow().clone());
        ctx.violation("uses memory out of proportion to its input", &case);
    }
    eprintln!("memory limit hit outside of a check");
    std::process::exit(2);
}

/// Runs f with a limit on the memory live at the same time on this thread; gives (result, peak).
pub fn with_memory_limit<T>(limit: usize, f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    LIMIT.with(|m| m.set(base + limit as isize));
    let r = f();
    LIMIT.with(|m| m.set(0));
    let peak = PEAK.with(|p| p.get()) - base;
    (r, peak.max(0) as usize)
}

// ------------------------------------------------------------------ controlled clock
thread_local! {
    // (seconds, nanoseconds) of the real-time clock seen by this thread, None: the real one
    static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}
#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(num: i64, ...) -> i64;
}
const SYS_CLOCK_GETTIME: i64 = 228;
/// Interposes libc's clock_gettime: std and chrono read the wall clock through it.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if id == 0 {
        if let Ok(Some((s, n))) = CLOCK.try_with(|c| c.get()) {
            (*ts).sec = s;
            (*ts).nsec = n;
            return 0;
        }
    }
    syscall(SYS_CLOCK_GETTIME, id as i64, ts) as i32
}
pub fn set_clock(t: Option<(i64, i64)>) {
    CLOCK.with(|c| c.set(t));
}
/// The controlled clock is what std and chrono show.
pub fn clock_self_test() {
    set_clock(Some((12_345, 678_000_000)));
    let a = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
    let b = chrono::Utc::now().timestamp_millis();
    set_clock(None);
    if a != Duration::new(12_345, 678_000_000) || b != 12_345_678 {
        eprintln!("the clock can not be controlled: this check can not decide");
        std::process::exit(3);
    }
}

// ------------------------------------------------------------------ controlled hash seeds
/// Interposes libc's getrandom, from which std seeds its hash maps: same seeds in every run.
static RANDOM_CALLS: AtomicU64 = AtomicU64::new(0);
thread_local! { static HASH_SEED: Cell<u64> = const { Cell::new(1) }; }
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    RANDOM_CALLS.fetch_add(1, Relaxed);
    let mut x = HASH_SEED.try_with(|s| s.get()).unwrap_or(1).wrapping_mul(0x9E3779B97F4A7C15);
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *buf.add(i) = (x >> 24) as u8;
    }
    len as isize
}
pub fn set_hash_seed(s: u64) {
    HASH_SEED.with(|c| c.set(s));
}
pub fn random_calls() -> u64 {
    RANDOM_CALLS.load(Relaxed)
}

// ------------------------------------------------------------------ panic capture
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CASE_COPY: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
static ALL_QUIET: AtomicBool = AtomicBool::new(false);

pub fn quiet_panics(on: bool) {
    ALL_QUIET.store(on, SeqCst);
}

pub fn install() {
    // local time is not UTC, so that code which takes one for the other shows
    std::env::set_var("TZ", "<XST>-5:45");
    // the code under test prints: keep stdout for the verdict
    let default_hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        let quiet = QUIET.try_with(|q| q.get()).unwrap_or(true) || ALL_QUIET.load(SeqCst);
        if !quiet {
            default_hook(info);
        }
    }));
    unsafe {
        SAVED_STDOUT = dup(1);
        let null = open(c"/dev/null".as_ptr() as *const i8, 1);
        dup2(null, 1);
    }
}
static mut SAVED_STDOUT: i32 = 1;
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const i8, flags: i32, ...) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}
/// Prints on the real stdout.
pub fn say(s: &str) {
    let line = format!("{}\n", s);
    unsafe {
        let mut b = line.as_bytes();
        while !b.is_empty() {
            let n = write(SAVED_STDOUT, b.as_ptr(), b.len());
            if n <= 0 {
                break;
            }
            b = &b[n as usize..];
        }
    }
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs f; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.map_err(|_| {
        LIMIT.with(|m| m.set(0));
        LAST_PANIC.with(|p| p.borrow().clone())
    })
}

// ------------------------------------------------------------------ watchdog
pub struct Slot {
    start_ms: AtomicU64, // 0: idle
    case: Mutex<String>,
}
static SLOTS: OnceLock<Mutex<Vec<Arc<Slot>>>> = OnceLock::new();
fn slots() -> &'static Mutex<Vec<Arc<Slot>>> {
    SLOTS.get_or_init(|| Mutex::new(vec![]))
}
fn now_ms() -> u64 {
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Names the case that this thread runs next: it is what a hang or memory blow-up is reported with.
pub fn case(desc: &str) {
    CASE_COPY.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.push_str(desc);
    });
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        let slot = s.get_or_insert_with(|| {
            let sl = Arc::new(Slot { start_ms: AtomicU64::new(0), case: Mutex::new(String::new()) });
            slots().lock().unwrap().push(sl.clone());
            sl
        });
        let mut c = slot.case.lock().unwrap();
        c.clear();
        c.push_str(desc);
        drop(c);
        slot.start_ms.store(now_ms(), SeqCst);
    });
}
pub fn case_done() {
    SLOT.with(|s| {
        if let Some(slot) = s.borrow().as_ref() {
            slot.start_ms.store(0, SeqCst);
        }
    });
}

pub const HANG_MS: u64 = 25_000;

// ------------------------------------------------------------------ context
pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub replay: Option<String>,
    pub t0: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub evals: AtomicU64,
    pub extra: Mutex<BTreeMap<String, String>>, // key -> JSON value
    pub samples: Mutex<Vec<String>>,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub assumptions: Mutex<Vec<String>>,
    known: Vec<String>, // signatures of known findings of this property
    known_hit: Mutex<HashSet<String>>,
    reporting: Mutex<()>,
}
static CTX: OnceLock<&'static Ctx> = OnceLock::new();
pub fn current_ctx() -> Option<&'static Ctx> {
    CTX.get().copied()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> String {
    std::env::var("FIX_RS_VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

impl Ctx {
    pub fn new(id: &str, replay: Option<String>) -> &'static Ctx {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough".to_string(),
            _ => "quick".to_string(),
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        // known_findings.txt: "known: property=<id> <signature>" (fixed: lines suppress nothing)
        let kf = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir()));
        for l in kf.unwrap_or_default().lines() {
            if let Some(rest) = l.strip_prefix(&format!("known: property={} ", id)) {
                known.push(rest.trim().to_string());
            }
        }
        let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
            id: id.to_string(),
            tier,
            seed,
            replay,
            t0: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            evals: AtomicU64::new(0),
            extra: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            outcomes: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(vec![]),
            known,
            known_hit: Mutex::new(HashSet::new()),
            reporting: Mutex::new(()),
        }));
        let _ = CTX.set(ctx);
        now_ms();
        std::thread::Builder::new()
            .name("watchdog".into())
            .spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                let now = now_ms();
                let mut hung = None;
                for s in slots().lock().unwrap().iter() {
                    let st = s.start_ms.load(SeqCst);
                    if st != 0 && now > st + HANG_MS {
                        hung = Some(s.case.lock().unwrap().clone());
                    }
                }
                if let Some(c) = hung {
                    ctx.violation("does not terminate", &c);
                }
            })
            .unwrap();
        ctx
    }

    pub fn quick(&self) -> bool {
        self.tier == "quick"
    }

    /// Bound chosen by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    pub fn note(&self, key: &str, json: String) {
        self.extra.lock().unwrap().insert(key.to_string(), json);
    }
    pub fn note_str(&self, key: &str, s: &str) {
        self.note(key, json_str(s));
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s);
        }
    }
    pub fn add_outcomes(&self, m: &BTreeMap<String, u64>) {
        let mut o = self.outcomes.lock().unwrap();
        for (k, v) in m {
            *o.entry(k.clone()).or_insert(0) += v;
        }
    }
    pub fn add(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
    }

    /// A finding: known ones (listed by signature) are printed and passed over, others end the run.
    pub fn finding(&self, signature: &str, what: &str, case: &str) {
        if self.known.iter().any(|k| k == signature) {
            if self.known_hit.lock().unwrap().insert(signature.to_string()) {
                say(&format!("KNOWN-FINDING: property={} {}", self.id, signature));
            }
            return;
        }
        self.violation(what, case);
    }

    pub fn violation(&self, what: &str, case: &str) -> ! {
        let guard = self.reporting.lock();
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}.replay", dir, self.id);
        if self.replay.is_none() {
            let _ = std::fs::write(&path, format!("# {}: {}\n{}\n", self.id, what.replace('\n', " "), case));
        }
        say(&format!("{}: {}", self.id, what));
        let shown: String = case.chars().take(4000).collect();
        say(&format!("case: {}", shown.replace('\u{1}', "|")));
        self.write_evidence(1);
        say(&format!("VIOLATION property={} replay={}", self.id, path));
        std::mem::forget(guard);
        unsafe { _exit(1) }
    }

    /// A worker process has reported a violation.
    pub fn child_violated(&self, said: &[String]) -> ! {
        let guard = self.reporting.lock();
        for l in said {
            say(l);
        }
        self.write_evidence(1);
        std::mem::forget(guard);
        unsafe { _exit(1) }
    }
    /// A worker process has met a known finding.
    pub fn known_once(&self, line: &str) {
        if self.known_hit.lock().unwrap().insert(line.to_string()) {
            say(line);
        }
    }

    fn write_evidence(&self, violations: u64) {
        let mut cov: Vec<String> = vec![];
        cov.push(format!("\"states\": {}", self.states.load(Relaxed)));
        cov.push(format!("\"transitions\": {}", self.transitions.load(Relaxed)));
        cov.push(format!("\"traces_validated_against_impl\": {}", self.traces.load(Relaxed)));
        let ev = self.evals.load(Relaxed);
        if ev > 0 {
            cov.push(format!("\"evaluations\": {}", ev));
        }
        if let Ok(s) = self.samples.try_lock() {
            let v: Vec<String> = s.iter().map(|x| json_str(x)).collect();
            cov.push(format!("\"samples\": [{}]", v.join(", ")));
        }
        if let Ok(o) = self.outcomes.try_lock() {
            let v: Vec<String> = o.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
            cov.push(format!("\"outcomes\": {{{}}}", v.join(", ")));
        }
        if let Ok(e) = self.extra.try_lock() {
            for (k, v) in e.iter() {
                cov.push(format!("{}: {}", json_str(k), v));
            }
        }
        let assumptions: Vec<String> = self
            .assumptions
            .try_lock()
            .map(|a| a.iter().map(|x| json_str(x)).collect())
            .unwrap_or_default();
        let text = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            json_str(&self.id),
            json_str(&self.tier),
            self.seed,
            cov.join(",\n  "),
            assumptions.join(", "),
            self.t0.elapsed().as_secs_f64(),
            violations
        );
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(format!("{}/{}.json", dir, self.id), text);
    }

    pub fn finish(&self) {
        if self.replay.is_some() {
            say(&format!("{}: replayed case does not violate the property", self.id));
        } else {
            self.write_evidence(0);
            say(&format!(
                "{}: held on {} states, {} transitions, {} executions of the real code ({} tier, {:.1}s)",
                self.id,
                self.states.load(Relaxed),
                self.transitions.load(Relaxed),
                self.traces.load(Relaxed),
                self.tier,
                self.t0.elapsed().as_secs_f64()
            ));
        }
        unsafe { _exit(0) }
    }
}

/// Explores work items in parallel. Each worker has a fixed hash seed; items are taken in order.
pub fn par<T: Sync>(items: &[T], f: impl Fn(&T) + Sync) {
    case_done(); // of the calling thread
    let next = AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for w in 0..n {
            let next = &next;
            let f = &f;
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    set_hash_seed(1 + w as u64);
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= items.len() {
                            break;
                        }
                        f(&items[i]);
                        case_done();
                    }
                })
                .unwrap();
        }
    });
}

/// Body of a replay file without its comment lines.
pub fn replay_body(s: &str) -> String {
    s.lines().filter(|l| !l.starts_with("# ")).collect::<Vec<_>>().join("\n")
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
