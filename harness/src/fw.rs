//! Exploration framework: exhaustive parallel enumeration of finite case spaces,
//! violation recording, replay of single cases, watchdog, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator
pub mod alloc {
    //! Counting allocator: live/peak bytes requested by the current thread.
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    thread_local! {
        static LIVE: Cell<i64> = const { Cell::new(0) };
        static PEAK: Cell<i64> = const { Cell::new(0) };
        static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
    }
    pub struct Counting;
    fn add(n: i64) -> bool {
        LIVE.try_with(|l| {
            let v = l.get() + n;
            if n > 0 && CAP.try_with(|c| v > c.get()).unwrap_or(false) {
                return false;
            }
            l.set(v);
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            true
        })
        .unwrap_or(true)
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            super::gate::point(false);
            if !add(l.size() as i64) {
                return std::ptr::null_mut();
            }
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            super::gate::point(true);
            add(-(l.size() as i64));
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            super::gate::point(false);
            if !add(n as i64 - l.size() as i64) {
                return std::ptr::null_mut();
            }
            System.realloc(p, l, n)
        }
    }
    pub fn live() -> i64 {
        LIVE.with(|l| l.get())
    }
    /// Restarts peak tracking; returns the live level it starts from.
    pub fn mark() -> i64 {
        let l = live();
        PEAK.with(|p| p.set(l));
        l
    }
    pub fn peak() -> i64 {
        PEAK.with(|p| p.get())
    }
    pub fn set_cap(bytes: i64) {
        CAP.with(|c| c.set(bytes));
    }
}
pub mod gate {
    //! Two threads of which one runs at a time. The other goes on when the running one ends, or reaches a
    //! scheduling point at which its plan says to stop: a memory operation, or a `point` of the harness.
    use std::cell::Cell;
    use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};
    use std::sync::OnceLock;
    use std::thread::Thread;
    use std::time::Duration;
    #[derive(Default)]
    pub struct Gate {
        turn: AtomicUsize,
        threads: [OnceLock<Thread>; 2],
        done: [AtomicUsize; 2],
        progress: [AtomicU32; 2],
        /// How often a thread went on out of turn because the other one made no progress (is blocked).
        pub blocked: AtomicUsize,
    }
    #[derive(Clone, Copy)]
    pub struct Plan {
        pub me: usize,
        pub stops: [u32; 2],
        pub frees: bool,
    }
    thread_local! {
        static AT: Cell<Option<(&'static Gate, Plan)>> = const { Cell::new(None) };
        static COUNT: Cell<u32> = const { Cell::new(0) };
    }
    impl Gate {
        fn wait(&self, me: usize) {
            let other = 1 - me;
            let mut seen = u32::MAX;
            let mut idle = 0;
            while self.turn.load(SeqCst) != me && self.done[other].load(SeqCst) == 0 {
                std::thread::park_timeout(Duration::from_millis(20));
                let now = self.progress[other].load(SeqCst);
                idle = if now == seen { idle + 1 } else { 0 };
                seen = now;
                if idle > 5 {
                    self.blocked.fetch_add(1, SeqCst);
                    return;
                }
            }
        }
        fn give(&self, other: usize) {
            self.turn.store(other, SeqCst);
            if let Some(t) = self.threads[other].get() {
                t.unpark();
            }
        }
        /// Runs `f` as thread `plan.me`; returns the number of scheduling points passed.
        pub fn run(&'static self, plan: Plan, f: impl FnOnce()) -> u32 {
            struct Leave(&'static Gate, usize);
            impl Drop for Leave {
                fn drop(&mut self) {
                    AT.with(|a| a.set(None));
                    self.0.done[self.1].store(1, SeqCst);
                    self.0.give(1 - self.1);
                }
            }
            let _ = self.threads[plan.me].set(std::thread::current());
            self.wait(plan.me);
            COUNT.with(|c| c.set(0));
            let leave = Leave(self, plan.me);
            AT.with(|a| a.set(Some((self, plan))));
            f();
            drop(leave);
            COUNT.with(|c| c.get())
        }
    }
    /// A scheduling point.
    #[inline]
    pub fn point(free: bool) {
        let _ = AT.try_with(|a| {
            let Some((gate, plan)) = a.get() else { return };
            if free && !plan.frees {
                return;
            }
            a.set(None); // what follows is not part of the program
            let n = COUNT.with(|c| {
                c.set(c.get() + 1);
                c.get()
            });
            gate.progress[plan.me].store(n, SeqCst);
            if n == plan.stops[0] || n == plan.stops[1] {
                gate.give(1 - plan.me);
                gate.wait(plan.me);
            }
            a.set(Some((gate, plan)));
        });
    }
}
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

// ---------------------------------------------------------------- hashing
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v));
        }
        self.write_u64(b.len() as u64);
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub fn fx<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}
#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
type U64Set = HashSet<u64, BuildHasherDefault<Ident>>;

// ---------------------------------------------------------------- tiers, known findings
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub sig: String,
    pub what: String,
}

pub fn load_known(path: &str, prop: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = Vec::new();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: ") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (p, s, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if p.strip_prefix("property=") == Some(prop) {
            if let Some(sig) = s.strip_prefix("sig=") {
                v.push(Known { sig: sig.to_string(), what: w.to_string() });
            }
        }
    }
    v
}

// ---------------------------------------------------------------- cases
#[derive(Clone, Debug)]
pub struct Fail {
    pub space: String,
    pub idx: u64,
    pub sig: String,
    pub detail: String,
}

pub struct Case<'a> {
    space: &'a str,
    pub idx: u64,
    n: u64,
    ops: u64,
    checks: u64,
    fails: Vec<Fail>,
    local: &'a mut Local,
    pub replaying: bool,
}
#[derive(Default)]
struct Local {
    states: U64Set,
    overflow: u64,
    ops: u64,
    checks: u64,
    traces: u64,
    skipped: u64,
    outcomes: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    steps: Vec<String>,
}
const STATE_CAP: usize = 6_000_000; // per thread and space
const TOTAL_CAP: usize = 100_000_000;
impl<'a> Case<'a> {
    /// Records `n` operations executed on the implementation.
    #[inline]
    pub fn op(&mut self, n: u64) {
        self.ops += n;
    }
    /// Records a visited abstract state.
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = fx(&(self.space, fx(t)));
        if self.local.states.len() < STATE_CAP {
            self.local.states.insert(h);
        } else if !self.local.states.contains(&h) {
            self.local.overflow += 1;
        }
    }
    pub fn outcome(&mut self, k: &'static str) {
        *self.local.outcomes.entry(k).or_insert(0) += 1;
    }
    /// This index does not denote a case of its own (e.g. a duplicate); do not count it.
    pub fn skip(&mut self) {
        self.local.skipped += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx == 0 || self.idx == self.n / 2 || self.idx + 1 == self.n || self.replaying {
            let s = f();
            if self.replaying {
                println!("  case {}#{}: {}", self.space, self.idx, s);
            }
            self.local.samples.push((self.idx, s));
        }
    }
    /// A step description, shown when a single case is replayed.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.replaying {
            let s = f();
            println!("    {}", s);
            self.local.steps.push(s);
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl FnOnce() -> String) {
        if self.fails.len() < 8 {
            self.fails.push(Fail {
                space: self.space.to_string(),
                idx: self.idx,
                sig: sig.into(),
                detail: detail(),
            });
        }
    }
    /// Compares implementation and model; false and a violation if they differ.
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, sig: &str, what: impl FnOnce() -> String, got: &T, want: &T) -> bool {
        self.checks += 1;
        if got == want {
            return true;
        }
        let (g, w) = (short(&format!("{:?}", got)), short(&format!("{:?}", want)));
        self.fail(sig, || format!("{}: implementation {} but expected {}", what(), g, w));
        false
    }
    /// A comparison with the model that was made by the caller and passed.
    #[inline]
    pub fn checked(&mut self) {
        self.checks += 1;
    }
    pub fn check(&mut self, sig: &str, cond: bool, what: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !cond {
            self.fail(sig, what);
        }
        cond
    }
}
pub fn short(s: &str) -> String {
    if s.len() > 700 {
        let mut a = 500;
        while !s.is_char_boundary(a) {
            a -= 1
        }
        let mut b = s.len() - 150;
        while !s.is_char_boundary(b) {
            b += 1
        }
        format!("{} ...[{} bytes]... {}", &s[..a], s.len(), &s[b..])
    } else {
        s.to_string()
    }
}

// ---------------------------------------------------------------- context
struct SpaceInfo {
    name: String,
    bounds: String,
    cases: u64,
    skipped: u64,
    complete: bool,
}
pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub verif: String,
    threads: usize,
    only: Option<(String, u64)>,
    known: Vec<Known>,
    spaces: Vec<SpaceInfo>,
    total: Local,
    fails: Vec<Fail>,
    known_hits: BTreeMap<String, (u64, Fail)>,
    stop: AtomicBool,
    start: Instant,
    pub assumptions: Vec<String>,
    pub extra: Vec<(String, String)>,
    hang_limit: Duration,
}

// Current case of each worker, for the watchdog and the abort handler.
const MAXT: usize = 64;
static CUR_IDX: [AtomicU64; MAXT] = [const { AtomicU64::new(u64::MAX) }; MAXT];
static CUR_T0: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
static REPLAY_DIR: Mutex<String> = Mutex::new(String::new());
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
static REPLAY_NO: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}
/// struct sigaction of x86-64 Linux glibc.
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn _exit(code: i32) -> !;
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
}
fn write_replay(prop: &str, space: &str, idx: u64, sig: &str, detail: &str) -> String {
    let dir = REPLAY_DIR.lock().map(|d| d.clone()).unwrap_or_default();
    let _ = std::fs::create_dir_all(&dir);
    let n = REPLAY_NO.fetch_add(1, SeqCst);
    let path = format!("{}/{}-{}.json", dir, prop, n);
    let body = format!(
        "{{\"property\":{},\"space\":{},\"idx\":{},\"sig\":{},\"detail\":{},\"rerun\":{}}}\n",
        js(prop),
        js(space),
        idx,
        js(sig),
        js(detail),
        js(&format!("./run.sh {} {} --replay '{}#{}'", prop, std::env::var("VERIF_TIER").unwrap_or("quick".into()), space, idx))
    );
    let _ = std::fs::write(&path, body);
    path
}
// The abort handler must not allocate or take locks: everything it prints is prepared beforehand.
static ABORT_PATH: AtomicUsize = AtomicUsize::new(0); // NUL-terminated path of the replay file
static ABORT_LINE: AtomicUsize = AtomicUsize::new(0); // (ptr, len) boxed: VIOLATION line
static ABORT_HEAD: AtomicUsize = AtomicUsize::new(0); // (ptr, len) boxed: replay file up to the index
fn leak(s: String) -> usize {
    Box::into_raw(Box::new(s)) as usize
}
unsafe fn leaked<'a>(a: &AtomicUsize) -> &'a [u8] {
    match a.load(SeqCst) {
        0 => b"",
        p => (*(p as *const String)).as_bytes(),
    }
}
fn prepare_abort(prop: &str, space: &str) {
    let dir = REPLAY_DIR.lock().map(|d| d.clone()).unwrap_or_default();
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-abort.json", dir, prop);
    ABORT_LINE.store(leak(format!("VIOLATION property={} replay={}\n", prop, path)), SeqCst);
    ABORT_PATH.store(leak(format!("{}\0", path)), SeqCst);
    ABORT_HEAD.store(
        leak(format!(
            "{{\"property\":{},\"space\":{},\"sig\":\"abort\",\"detail\":\"the process died in the case (allocation limit, stack overflow, memory fault or double panic)\",\"rerun\":\"./run.sh {} {} --replay '{}#<idx>'\",\"idx\":",
            js(prop),
            js(space),
            prop,
            std::env::var("VERIF_TIER").unwrap_or("quick".into()),
            space
        )),
        SeqCst,
    );
}
extern "C" fn on_abort(_sig: i32) {
    // Reached on abort(): out of memory, double panic; and on memory faults.
    let t = TID.try_with(|t| t.get()).unwrap_or(usize::MAX);
    let idx = if t < MAXT { CUR_IDX[t].load(SeqCst) } else { 0 };
    let mut num = [b'0'; 24];
    let (mut i, mut v) = (20, if idx == u64::MAX { 0 } else { idx });
    loop {
        num[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
        i -= 1;
    }
    num[21] = b'}';
    num[22] = b'\n';
    unsafe {
        let (head, path, line) = (leaked(&ABORT_HEAD), leaked(&ABORT_PATH), leaked(&ABORT_LINE));
        if !path.is_empty() {
            let fd = open(path.as_ptr().cast(), 0o1101, 0o644u32); // O_WRONLY | O_CREAT | O_TRUNC
            if fd >= 0 {
                write(fd, head.as_ptr().cast(), head.len());
                write(fd, num[i..23].as_ptr().cast(), 23 - i);
            }
        }
        write(1, line.as_ptr().cast(), line.len());
        _exit(1)
    }
}
fn now_ms() -> u64 {
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, verif: &str, only: Option<(String, u64)>) -> Self {
        *REPLAY_DIR.lock().unwrap() = format!("{}/replays", verif);
        now_ms();
        unsafe {
            let a = SigAction { handler: on_abort as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 }; // SA_ONSTACK
            for s in [4, 6, 7, 11] {
                sigaction(s, &a, std::ptr::null_mut());
            }
        }
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let _ = PANIC_AT.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
            if std::env::var("MC_BACKTRACE").is_ok() {
                eprintln!("panic: {} at {}", msg, loc);
            }
        }));
        let threads = std::env::var("MC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8).clamp(1, MAXT);
        Ctx {
            prop: prop.to_string(),
            tier,
            verif: verif.to_string(),
            threads,
            only,
            known: load_known(&format!("{}/KNOWN_FINDINGS.txt", verif), prop),
            spaces: vec![],
            total: Local::default(),
            fails: vec![],
            known_hits: BTreeMap::new(),
            stop: AtomicBool::new(false),
            start: Instant::now(),
            assumptions: vec![],
            extra: vec![],
            hang_limit: Duration::from_secs(30),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    /// Exhaustively runs `f` for every index below `n`.
    pub fn space(&mut self, name: &str, bounds: &str, n: u64, f: impl Fn(&mut Case, u64) + Sync) {
        if let Some((s, _)) = &self.only {
            if s != name {
                return;
            }
        }
        if self.stop.load(SeqCst) {
            self.spaces.push(SpaceInfo { name: name.into(), bounds: bounds.into(), cases: 0, skipped: 0, complete: false });
            return;
        }
        prepare_abort(&self.prop, name);
        let t0 = Instant::now();
        let only = self.only.clone().map(|o| o.1);
        let next = AtomicU64::new(only.unwrap_or(0));
        let end = only.map(|o| o + 1).unwrap_or(n).min(n);
        let chunk = if only.is_some() { 1 } else { (n / (self.threads as u64 * 32)).clamp(1, 4096) };
        let threads = if n < 64 && only.is_none() { (self.threads).min(n.max(1) as usize) } else if only.is_some() { 1 } else { self.threads };
        let stop = &self.stop;
        let known = &self.known;
        let hang = self.hang_limit;
        let done = AtomicBool::new(false);
        let prop = self.prop.clone();
        let replaying = only.is_some();
        let results: Vec<(Local, Vec<Fail>, BTreeMap<String, (u64, Fail)>, u64)> = std::thread::scope(|sc| {
            // watchdog
            let done_ref = &done;
            let prop_ref = &prop;
            sc.spawn(move || {
                let mut ticks = 0u32;
                while !done_ref.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(10));
                    ticks += 1;
                    if ticks % 100 != 0 {
                        continue;
                    }
                    let now = now_ms();
                    for t in 0..threads {
                        let idx = CUR_IDX[t].load(SeqCst);
                        let t0 = CUR_T0[t].load(SeqCst);
                        if idx != u64::MAX && now > t0 + hang.as_millis() as u64 && CUR_IDX[t].load(SeqCst) == idx {
                            let path = write_replay(prop_ref, name, idx, "hang", "the case did not terminate within the watchdog limit");
                            println!("VIOLATION property={} replay={}", prop_ref, path);
                            use std::io::Write;
                            let _ = std::io::stdout().flush();
                            unsafe { _exit(1) }
                        }
                    }
                }
            });
            let mut hs = Vec::new();
            for t in 0..threads {
                let next = &next;
                let f = &f;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            TID.with(|x| x.set(t));
                            let mut local = Local::default();
                            let mut fails: Vec<Fail> = Vec::new();
                            let mut hits: BTreeMap<String, (u64, Fail)> = BTreeMap::new();
                            let mut ran = 0u64;
                            'outer: loop {
                                let a = next.fetch_add(chunk, SeqCst);
                                if a >= end || stop.load(Relaxed) {
                                    break;
                                }
                                let b = (a + chunk).min(end);
                                for idx in a..b {
                                    CUR_T0[t].store(now_ms(), SeqCst);
                                    CUR_IDX[t].store(idx, SeqCst);
                                    alloc::set_cap(alloc::live() + (3 << 30));
                                    let mut case = Case { space: name, idx, n, ops: 0, checks: 0, fails: vec![], local: &mut local, replaying };
                                    let r = catch_unwind(AssertUnwindSafe(|| f(&mut case, idx)));
                                    if r.is_err() {
                                        let at = PANIC_AT.with(|p| p.borrow().clone());
                                        case.fail("panic", || format!("panicked: {}", at));
                                    }
                                    alloc::set_cap(i64::MAX);
                                    let (ops, checks) = (case.ops, case.checks);
                                    let cf = std::mem::take(&mut case.fails);
                                    local.ops += ops;
                                    local.checks += checks;
                                    local.traces += 1;
                                    ran += 1;
                                    for fl in cf {
                                        if known.iter().any(|k| k.sig == fl.sig) {
                                            hits.entry(fl.sig.clone()).and_modify(|e| e.0 += 1).or_insert((1, fl));
                                        } else {
                                            fails.push(fl);
                                        }
                                    }
                                    if fails.len() >= 5 {
                                        stop.store(true, SeqCst);
                                        break 'outer;
                                    }
                                }
                            }
                            CUR_IDX[t].store(u64::MAX, SeqCst);
                            (local, fails, hits, ran)
                        })
                        .unwrap(),
                );
            }
            let r = hs.into_iter().map(|h| h.join().expect("worker")).collect();
            done.store(true, SeqCst);
            r
        });
        let mut ran_total = 0;
        let mut skipped = 0;
        let mut samples = Vec::new();
        let mut states0: u64 = 0;
        for (l, fails, hits, ran) in results {
            ran_total += ran;
            skipped += l.skipped;
            states0 += l.states.len() as u64;
            for h in l.states {
                if self.total.states.len() < TOTAL_CAP {
                    self.total.states.insert(h);
                } else if !self.total.states.contains(&h) {
                    self.total.overflow += 1;
                }
            }
            self.total.overflow += l.overflow;
            self.total.ops += l.ops;
            self.total.checks += l.checks;
            self.total.traces += l.traces - l.skipped;
            self.total.skipped += l.skipped;
            for (k, v) in l.outcomes {
                *self.total.outcomes.entry(k).or_insert(0) += v;
            }
            samples.extend(l.samples);
            self.fails.extend(fails);
            for (k, (c, f)) in hits {
                let e = self.known_hits.entry(k).or_insert((0, f.clone()));
                e.0 += c;
                if f.idx < e.1.idx {
                    e.1 = f;
                }
            }
        }
        samples.sort();
        for (i, s) in samples {
            self.total.samples.push((i, format!("{}#{}: {}", name, i, short(&s))));
        }
        let complete = ran_total == n;
        eprintln!(
            "[{}] {:<28} {:>10} cases {:>6} skipped  {:>8} new states  {:>6.2}s  {}",
            self.prop, name, ran_total, skipped, states0, t0.elapsed().as_secs_f64(), bounds
        );
        self.spaces.push(SpaceInfo { name: name.into(), bounds: bounds.into(), cases: ran_total - skipped, skipped, complete });
    }
    pub fn finish(mut self) -> i32 {
        self.fails.sort_by(|a, b| (&a.space, a.idx).cmp(&(&b.space, b.idx)));
        if self.only.is_some() {
            for f in &self.fails {
                println!("REPRODUCED sig={} {}#{}: {}", f.sig, f.space, f.idx, f.detail);
            }
            for (k, (_, f)) in &self.known_hits {
                println!("REPRODUCED (listed finding) sig={} {}#{}: {}", k, f.space, f.idx, f.detail);
            }
            if self.fails.is_empty() && self.known_hits.is_empty() {
                println!("not reproduced: the case passes");
            }
            return if self.fails.is_empty() { 0 } else { 1 };
        }
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
        let exhaustive = self.spaces.iter().all(|s| s.complete) && !self.spaces.is_empty();
        let mut e = String::new();
        let states = self.total.states.len() as u64;
        let _ = write!(
            e,
            "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{},\n \"level\":\"model_checking\",\n \"coverage\":{{\n  \"states\":{},\n  \"transitions\":{},\n  \"traces_validated_against_impl\":{},\n  \"comparisons_with_model\":{},\n  \"states_not_stored\":{},\n  \"exhaustive\":{},\n",
            js(&self.prop),
            js(if self.thorough() { "thorough" } else { "quick" }),
            seed,
            states,
            self.total.ops,
            self.total.traces,
            self.total.checks,
            self.total.overflow,
            exhaustive
        );
        let _ = writeln!(
            e,
            "  \"spaces\":[{}],",
            self.spaces
                .iter()
                .map(|s| format!(
                    "{{\"name\":{},\"bounds\":{},\"cases\":{},\"duplicates_skipped\":{},\"complete\":{}}}",
                    js(&s.name),
                    js(&s.bounds),
                    s.cases,
                    s.skipped,
                    s.complete
                ))
                .collect::<Vec<_>>()
                .join(",\n   ")
        );
        let _ = writeln!(
            e,
            "  \"outcomes\":{{{}}},",
            self.total.outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
        );
        let _ = writeln!(
            e,
            "  \"known_findings_hit\":{{{}}},",
            self.known_hits.iter().map(|(k, v)| format!("{}:{}", js(k), v.0)).collect::<Vec<_>>().join(",")
        );
        for (k, v) in &self.extra {
            let _ = writeln!(e, "  {}:{},", js(k), v);
        }
        let _ = writeln!(
            e,
            "  \"samples\":[{}]\n }},",
            self.total.samples.iter().map(|s| js(&s.1)).collect::<Vec<_>>().join(",\n   ")
        );
        let _ = write!(
            e,
            " \"assumptions\":[{}],\n \"violations\":{},\n \"wall_s\":{:.3}\n}}\n",
            self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            self.fails.len(),
            self.start.elapsed().as_secs_f64()
        );
        let dir = format!("{}/evidence", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        if let Err(err) = std::fs::write(format!("{}/{}.json", dir, self.prop), e) {
            eprintln!("cannot write evidence: {}", err);
            return 2;
        }
        for k in &self.known {
            if self.known_hits.contains_key(&k.sig) {
                println!("KNOWN-FINDING: property={} {} (sig={})", self.prop, k.what, k.sig);
            }
        }
        if self.fails.is_empty() {
            println!(
                "{}: held on {} traces ({} states, {} operations, {} comparisons) in {:.1}s",
                self.prop,
                self.total.traces,
                states,
                self.total.ops,
                self.total.checks,
                self.start.elapsed().as_secs_f64()
            );
            return 0;
        }
        for f in self.fails.iter().take(5) {
            let path = write_replay(&self.prop, &f.space, f.idx, &f.sig, &f.detail);
            println!("  {}#{} sig={} {}", f.space, f.idx, f.sig, short(&f.detail));
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        1
    }
}

// ---------------------------------------------------------------- index helpers
/// Mixed-radix decomposition of an index.
pub struct Ix(pub u64);
impl Ix {
    pub fn take(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
}
/// Number of sequences over `k` symbols of length 0..=d.
pub fn seqs(k: u64, d: u32) -> u64 {
    (0..=d).map(|i| k.pow(i)).sum()
}
/// The `idx`-th sequence (shortest first) over `k` symbols.
pub fn seq(mut idx: u64, k: u64) -> Vec<usize> {
    let mut len = 0u32;
    loop {
        let c = k.pow(len);
        if idx < c {
            break;
        }
        idx -= c;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let r = idx % k;
            idx /= k;
            r as usize
        })
        .collect()
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for (i, x) in b.iter().enumerate() {
        if i > 300 {
            let _ = write!(s, "..({} bytes)", b.len());
            break;
        }
        let _ = write!(s, "{:02x}", x);
    }
    s
}
