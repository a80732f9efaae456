//! Small property-testing framework: addressable generated cases (proptest strategies), shrinking,
//! replay files, crash / hang / memory guards, evidence.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::os::unix::ffi::OsStrExt;
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// Allocator: per-thread accounting of live bytes, with a per-case limit.
pub struct CountingAlloc;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static BIGGEST: Cell<i64> = const { Cell::new(0) };
}
#[inline]
fn on_alloc(n: usize) -> bool {
    let n = n as i64;
    LIVE.try_with(|l| {
        let v = l.get().saturating_add(n);
        if v > LIMIT.try_with(|x| x.get()).unwrap_or(i64::MAX) {
            return false;
        }
        l.set(v);
        if v > MUCH {
            note_live(v)
        }
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = BIGGEST.try_with(|p| {
            if n > p.get() {
                p.set(n)
            }
        });
        true
    })
    .unwrap_or(true)
}
#[inline]
fn on_free(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get();
        l.set(v - n as i64);
        if v > MUCH {
            note_live(v - n as i64)
        }
    });
}
/// Threads that hold more than this let the watchdog know.
const MUCH: i64 = 256 << 20;
#[cold]
fn note_live(v: i64) {
    if let Ok(i) = MY_SLOT.try_with(|s| s.get()) {
        if i < NSLOTS {
            SLOTS[i].live.store(v, Relaxed)
        }
    }
}
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if p.is_null() {
            on_free(l.size())
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if p.is_null() {
            on_free(l.size())
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !on_alloc(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            on_free(l.size() - n);
        }
        let q = System.realloc(p, l, n);
        if q.is_null() {
            if n > l.size() {
                on_free(n - l.size())
            } else {
                on_alloc(l.size() - n);
            }
        }
        q
    }
}
/// Runs `f` and returns its result with the peak of additionally live heap bytes on this thread.
pub fn measure_peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = LIVE.with(|l| l.get());
    let old_peak = PEAK.with(|p| p.replace(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(peak.max(old_peak)));
    (r, (peak - base).max(0) as u64)
}
/// Runs `f` with allocations of this thread limited to `limit` additional live bytes.
pub fn with_mem_limit<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    struct Restore(i64);
    impl Drop for Restore {
        fn drop(&mut self) {
            LIMIT.with(|l| l.set(self.0));
        }
    }
    let old = LIMIT.with(|l| l.get());
    let _r = Restore(old);
    let base = LIVE.with(|l| l.get());
    LIMIT.with(|l| l.set(base.saturating_add(limit as i64).min(old)));
    f()
}

// ---------------------------------------------------------------------------------------------
// Fatal conditions (crash, hang) of the case a thread is running.
struct FatalInfo {
    path: std::ffi::CString,
    head: Vec<u8>,
}
struct Slot {
    info: AtomicPtr<FatalInfo>,
    clock: AtomicI64,
    start_ns: AtomicU64,
    limit_ns: AtomicU64,
    in_use: AtomicBool,
    live: AtomicI64,
}
const NSLOTS: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const SLOT_INIT: Slot = Slot {
    info: AtomicPtr::new(std::ptr::null_mut()),
    clock: AtomicI64::new(0),
    start_ns: AtomicU64::new(0),
    limit_ns: AtomicU64::new(0),
    in_use: AtomicBool::new(false),
    live: AtomicI64::new(0),
};
static SLOTS: [Slot; NSLOTS] = [SLOT_INIT; NSLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! { static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn my_slot() -> &'static Slot {
    let i = MY_SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT_SLOT.fetch_add(1, SeqCst) % NSLOTS);
        }
        s.get()
    });
    &SLOTS[i]
}
fn cpu_ns(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut ts) } != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
unsafe fn fatal_write(info: *const FatalInfo, kind: &[u8]) -> ! {
    if !info.is_null() {
        let i = &*info;
        let fd = libc::open(i.path.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, 0o644);
        if fd >= 0 {
            libc::write(fd, i.head.as_ptr() as *const _, i.head.len());
            libc::write(fd, kind.as_ptr() as *const _, kind.len());
            libc::write(fd, b"\"}\n".as_ptr() as *const _, 3);
            libc::close(fd);
        }
        libc::_exit(101);
    }
    libc::_exit(99);
}
extern "C" fn on_signal(sig: libc::c_int) {
    let idx = MY_SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    let info = if idx < NSLOTS { SLOTS[idx].info.load(SeqCst) } else { std::ptr::null_mut() };
    let kind: &[u8] = match sig {
        libc::SIGABRT => b"abort (out of memory limit, or panic while panicking)",
        libc::SIGSEGV => b"segmentation fault or stack overflow",
        _ => b"fatal signal",
    };
    unsafe { fatal_write(info, kind) }
}
fn install_guards() {
    unsafe {
        for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGFPE, libc::SIGILL] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as extern "C" fn(libc::c_int) as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    // cases that fill the memory together, each within its own limit
    let (pages, page) = unsafe { (libc::sysconf(libc::_SC_PHYS_PAGES), libc::sysconf(libc::_SC_PAGESIZE)) };
    let most = pages as u64 * page as u64 / 100 * 65;
    let resident = move || -> Option<u64> { Some(std::fs::read_to_string("/proc/self/statm").ok()?.split(' ').nth(1)?.parse::<u64>().ok()? * page as u64) };
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(20));
        if resident().is_some_and(|n| n > most) {
            let s = SLOTS.iter().filter(|s| s.in_use.load(SeqCst)).max_by_key(|s| s.live.load(SeqCst));
            if let Some(s) = s.filter(|s| s.live.load(SeqCst) > MUCH) {
                unsafe { fatal_write(s.info.load(SeqCst), b"memory exhausted") }
            }
        }
    });
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(250));
        for s in SLOTS.iter() {
            if !s.in_use.load(SeqCst) {
                continue;
            }
            let info = s.info.load(SeqCst);
            let start = s.start_ns.load(SeqCst);
            let limit = s.limit_ns.load(SeqCst);
            let now = cpu_ns(s.clock.load(SeqCst) as libc::clockid_t);
            if limit > 0 && now > start + limit && s.info.load(SeqCst) == info && s.in_use.load(SeqCst) {
                unsafe { fatal_write(info, b"hang: no answer within the CPU limit") }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Runs `f`; a panic becomes Err("panic: ...").
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

#[derive(Default)]
pub struct Obs {
    nontrivial: Cell<bool>,
    labels: RefCell<Vec<&'static str>>,
    note: RefCell<Option<String>>,
    extra_evals: Cell<u64>,
}
impl Obs {
    /// Marks the case as non-trivial.
    pub fn nontrivial(&self, b: bool) {
        if b {
            self.nontrivial.set(true)
        }
    }
    pub fn label(&self, l: &'static str) {
        self.labels.borrow_mut().push(l)
    }
    pub fn label_if(&self, b: bool, l: &'static str) {
        if b {
            self.label(l)
        }
    }
    /// Additional executions made within this case (e.g. one per fault position).
    pub fn evals(&self, n: u64) {
        self.extra_evals.set(self.extra_evals.get() + n)
    }
    pub fn note(&self, s: String) {
        *self.note.borrow_mut() = Some(s)
    }
}

#[derive(Default)]
struct SubStats {
    evals: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    wall: f64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

enum Mode {
    Run,
    Replay { sub: String, case: Value },
    /// Generate case `idx` of `sub` again and shrink it by running candidates in child processes.
    ShrinkFatal { sub: String, idx: u64 },
}

pub struct Violation {
    pub sub: String,
    pub msg: String,
    pub case: Value,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    mode: Mode,
    verif: PathBuf,
    rule: RefCell<String>,
    assumptions: RefCell<Vec<String>>,
    level: Cell<&'static str>,
    subs: RefCell<BTreeMap<String, SubStats>>,
    violation: RefCell<Option<Violation>>,
    replay_hit: Cell<bool>,
    threads: usize,
    cpu_limit: Cell<u64>,
    mem_limit: Cell<u64>,
    only: Option<String>,
    scale: f64,
}

fn shorten(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v.clone()
    } else {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        Value::String(format!("{}... ({} bytes)", &s[..e], s.len()))
    }
}

impl Ctx {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let v = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        ((v as f64) * self.scale).ceil() as u64
    }
    pub fn rule(&self, s: &str) {
        *self.rule.borrow_mut() = s.to_string()
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.borrow_mut().push(s.to_string())
    }
    pub fn level(&self, s: &'static str) {
        self.level.set(s)
    }
    /// CPU seconds after which a single case counts as hung.
    pub fn cpu_limit(&self, s: u64) {
        self.cpu_limit.set(s.min(env_cpu_limit()))
    }
    /// Additional live heap bytes one case may hold.
    pub fn mem_limit(&self, b: u64) {
        self.mem_limit.set(b)
    }
    pub fn verif(&self) -> &Path {
        &self.verif
    }

    fn case_seed(&self, sub: &str, idx: u64) -> [u8; 32] {
        let mut h = Sha256::new();
        h.update(self.seed.to_le_bytes());
        h.update(self.id.as_bytes());
        h.update([0]);
        h.update(sub.as_bytes());
        h.update([0]);
        h.update(idx.to_le_bytes());
        h.finalize().into()
    }
    fn tree<S: Strategy>(&self, strat: &S, sub: &str, idx: u64) -> S::Tree {
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &self.case_seed(sub, idx));
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        strat.new_tree(&mut runner).expect("strategy")
    }

    fn run_one<C: Serialize + Debug>(
        &self,
        sub: &str,
        idx: u64,
        case: &C,
        check: &(impl Fn(&C, &Obs) -> Result<(), String> + Sync),
        obs: &Obs,
    ) -> Result<(), String> {
        // `self` is shared between threads here; only plain fields are used.
        let json = serde_json::to_string(case).expect("serialise case");
        let head = format!(
            "{{\"property\":\"{}\",\"sub\":\"{}\",\"idx\":{},\"case\":{},\"message\":\"",
            self.id, sub, idx, json
        );
        let path = self.fatal_path();
        let info = Box::into_raw(Box::new(FatalInfo {
            path: std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap(),
            head: head.into_bytes(),
        }));
        let slot = my_slot();
        let mut clock: libc::clockid_t = 0;
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
        slot.clock.store(clock as i64, SeqCst);
        slot.start_ns.store(cpu_ns(clock), SeqCst);
        slot.limit_ns.store(self.cpu_limit.get() * 1_000_000_000, SeqCst);
        slot.info.store(info, SeqCst);
        slot.in_use.store(true, SeqCst);
        let r = with_mem_limit(self.mem_limit.get(), || no_panic(|| check(case, obs)));
        slot.in_use.store(false, SeqCst);
        slot.info.store(std::ptr::null_mut(), SeqCst);
        // leak-free: the watchdog re-checks `info` before using it, and exits the process if it does
        unsafe { drop(Box::from_raw(info)) };
        match r {
            Ok(r) => r,
            Err(p) => Err(p),
        }
    }
    fn fatal_path(&self) -> PathBuf {
        self.verif.join(format!("replays/fatal-{}-{}.json", self.id, std::process::id()))
    }

    /// Runs `cases` generated cases of sub-check `sub`.
    pub fn run<C, S>(
        &self,
        sub: &str,
        cases: u64,
        strat: impl Fn() -> S + Sync,
        check: impl Fn(&C, &Obs) -> Result<(), String> + Sync,
    ) where
        C: Debug + Clone + Serialize + DeserializeOwned + Send,
        S: Strategy<Value = C>,
    {
        if self.violation.borrow().is_some() {
            return;
        }
        match &self.mode {
            Mode::Replay { sub: s, case } => {
                if s == sub {
                    self.replay_hit.set(true);
                    let c: C = serde_json::from_value(case.clone()).expect("replay case");
                    let obs = Obs::default();
                    let t = Instant::now();
                    if let Err(m) = self.run_one(sub, 0, &c, &check, &obs) {
                        *self.violation.borrow_mut() =
                            Some(Violation { sub: sub.into(), msg: m, case: case.clone() });
                    }
                    if std::env::var_os("PBT_VERBOSE").is_some() {
                        eprintln!("{c:?}\n took {:?} labels {:?}", t.elapsed(), obs.labels.borrow());
                    }
                }
                return;
            }
            Mode::ShrinkFatal { sub: s, idx } => {
                if s == sub {
                    self.replay_hit.set(true);
                    let strat = strat();
                    let v = if *idx == u64::MAX {
                        None
                    } else {
                        Some(self.shrink_fatal(sub, self.tree(&strat, sub, *idx)))
                    };
                    *self.violation.borrow_mut() = v;
                }
                return;
            }
            Mode::Run => {}
        }
        if let Some(o) = &self.only {
            if o != sub {
                return;
            }
        }
        // for experiments; bin/check removes it from the environment
        if std::env::var("PBT_SKIP").is_ok_and(|s| s.split(',').any(|x| x == sub)) {
            return;
        }
        let t0 = Instant::now();
        let mut st = SubStats::default();
        // Earlier failing cases first.
        let dir = self.verif.join("corpus").join(&self.id);
        let mut names: Vec<_> = std::fs::read_dir(&dir)
            .map(|d| d.flatten().map(|e| e.path()).collect())
            .unwrap_or_default();
        names.sort();
        for p in names {
            let v: Value = match std::fs::read(&p).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                Some(v) => v,
                None => {
                    eprintln!("unreadable corpus file {p:?}");
                    std::process::exit(2)
                }
            };
            if v["sub"] != sub {
                continue;
            }
            let c: C = match serde_json::from_value(v["case"].clone()) {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("corpus file {p:?}: {e}");
                    std::process::exit(2)
                }
            };
            let obs = Obs::default();
            st.evals += 1;
            if let Err(m) = self.run_one(sub, u64::MAX, &c, &check, &obs) {
                *self.violation.borrow_mut() =
                    Some(Violation { sub: sub.into(), msg: m, case: v["case"].clone() });
                self.subs.borrow_mut().insert(sub.into(), st);
                return;
            }
            self.account(&mut st, &c, &obs, false);
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<(u64, Violation)>> = Mutex::new(None);
        let stm = Mutex::new(st);
        struct SyncPtr<'a>(&'a Ctx);
        unsafe impl Sync for SyncPtr<'_> {}
        impl<'a> SyncPtr<'a> {
            fn get(&self) -> &'a Ctx {
                self.0
            }
        }
        // Cells of Ctx are not written while the threads run.
        let me = SyncPtr(self);
        std::thread::scope(|sc| {
            for _ in 0..self.threads.min(cases as usize).max(1) {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, || {
                        let ctx = me.get();
                        let strat = strat();
                        loop {
                            if stop.load(SeqCst) {
                                break;
                            }
                            let idx = next.fetch_add(1, SeqCst);
                            if idx >= cases {
                                break;
                            }
                            let tree = ctx.tree(&strat, sub, idx);
                            let case = tree.current();
                            let obs = Obs::default();
                            let r = ctx.run_one(sub, idx, &case, &check, &obs);
                            {
                                let mut st = stm.lock().unwrap();
                                st.evals += 1;
                                ctx.account(&mut st, &case, &obs, idx < 64);
                            }
                            if let Err(m) = r {
                                stop.store(true, SeqCst);
                                let (c, m) = ctx.shrink(sub, idx, tree, case, m, &check);
                                let v = Violation {
                                    sub: sub.into(),
                                    msg: m,
                                    case: serde_json::to_value(&c).unwrap(),
                                };
                                let mut f = found.lock().unwrap();
                                if f.as_ref().map(|(i, _)| *i > idx).unwrap_or(true) {
                                    *f = Some((idx, v));
                                }
                                break;
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let mut st = stm.into_inner().unwrap();
        st.wall = t0.elapsed().as_secs_f64();
        if std::env::var_os("PBT_VERBOSE").is_some() {
            eprintln!(
                "  {sub}: {} evals, {} nontrivial, {} distinct, {:.1}s {:?}",
                st.evals,
                st.nontrivial,
                st.hashes.len(),
                st.wall,
                st.labels
            );
        }
        self.subs.borrow_mut().insert(sub.to_string(), st);
        if let Some((_, v)) = found.into_inner().unwrap() {
            *self.violation.borrow_mut() = Some(v);
        }
    }

    fn account<C: Serialize>(&self, st: &mut SubStats, c: &C, obs: &Obs, may_sample: bool) {
        st.evals += obs.extra_evals.get();
        for l in obs.labels.borrow().iter() {
            *st.labels.entry(l).or_default() += 1;
        }
        if obs.nontrivial.get() {
            st.nontrivial += 1;
            let s = serde_json::to_string(c).unwrap();
            let mut h = Sha256::new();
            h.update(s.as_bytes());
            let d = h.finalize();
            st.hashes.insert(u64::from_le_bytes(d[..8].try_into().unwrap()));
            if may_sample && st.samples.len() < 2 {
                let mut v = shorten(&serde_json::to_value(c).unwrap());
                if let Some(n) = obs.note.borrow().as_ref() {
                    v = json!({"case": v, "note": n});
                }
                st.samples.push(v);
            }
        }
    }

    fn shrink<C, T>(
        &self,
        sub: &str,
        idx: u64,
        mut tree: T,
        mut best: C,
        mut msg: String,
        check: &(impl Fn(&C, &Obs) -> Result<(), String> + Sync),
    ) -> (C, String)
    where
        C: Debug + Clone + Serialize,
        T: ValueTree<Value = C>,
    {
        let t0 = Instant::now();
        let mut iters = 0;
        if !tree.simplify() {
            return (best, msg);
        }
        loop {
            iters += 1;
            if iters > 3000 || t0.elapsed() > Duration::from_secs(40) {
                break;
            }
            let c = tree.current();
            match self.run_one(sub, idx, &c, check, &Obs::default()) {
                Err(m) => {
                    best = c;
                    msg = m;
                    if !tree.simplify() {
                        break;
                    }
                }
                Ok(()) => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
        (best, msg)
    }

    fn shrink_fatal<C, T>(&self, sub: &str, mut tree: T) -> Violation
    where
        C: Serialize,
        T: ValueTree<Value = C>,
    {
        let mut best = serde_json::to_value(tree.current()).unwrap();
        let mut msg = String::from("fatal");
        let t0 = Instant::now();
        let tmp = self.verif.join(format!("replays/cand-{}-{}.json", self.id, std::process::id()));
        let mut first = true;
        loop {
            let v = serde_json::to_value(tree.current()).unwrap();
            let doc = json!({"property": self.id, "sub": sub, "case": v});
            std::fs::write(&tmp, doc.to_string()).unwrap();
            let out = std::process::Command::new(std::env::current_exe().unwrap())
                .args([self.id.as_str(), "--replay"])
                .arg(&tmp)
                .env("PBT_CHILD", "1")
                .env("PBT_CPU_LIMIT", "15")
                .output()
                .unwrap();
            let failed = matches!(out.status.code(), Some(1) | Some(101)) || out.status.code().is_none();
            if failed {
                best = v;
                let s = String::from_utf8_lossy(&out.stderr).to_string();
                if let Some(l) = s.lines().find(|l| l.starts_with("FAILED ")) {
                    msg = l[7..].to_string();
                }
            }
            let more = if failed || first { tree.simplify() } else { tree.complicate() };
            first = false;
            if !more || t0.elapsed() > Duration::from_secs(60) {
                break;
            }
        }
        let _ = std::fs::remove_file(&tmp);
        Violation { sub: sub.into(), msg, case: best }
    }

    fn write_evidence(&self, wall: f64) {
        let subs = self.subs.borrow();
        let mut evals = 0;
        let mut distinct = 0;
        let mut samples = vec![];
        let mut parts = serde_json::Map::new();
        for (n, s) in subs.iter() {
            evals += s.evals;
            distinct += s.hashes.len() as u64;
            for x in &s.samples {
                if samples.len() < 40 {
                    samples.push(json!({"sub": n, "case": x}));
                }
            }
            parts.insert(
                n.clone(),
                json!({"evaluations": s.evals, "nontrivial_cases": s.nontrivial,
                       "distinct_nontrivial": s.hashes.len(), "labels": s.labels, "wall_s": s.wall}),
            );
        }
        let viol = self.violation.borrow().is_some() as u64;
        let ev = json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": self.level.get(),
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": distinct,
                "rule": *self.rule.borrow(),
                "samples": samples,
                "sub_checks": parts,
            },
            "assumptions": *self.assumptions.borrow(),
            "wall_s": wall,
            "violations": viol,
        });
        let d = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&d);
        std::fs::write(d.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n")
            .expect("write evidence");
    }

    fn report(&self, v: &Violation) {
        let d = self.verif.join("replays");
        let _ = std::fs::create_dir_all(&d);
        let p = d.join(format!("{}-{}.json", self.id, v.sub));
        let doc = json!({"property": self.id, "sub": v.sub, "case": v.case, "message": v.msg, "seed": self.seed});
        std::fs::write(&p, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
        println!("property {} violated in sub-check '{}': {}", self.id, v.sub, v.msg);
        println!("minimal case: {}", shorten(&v.case));
        println!("VIOLATION property={} replay={}", self.id, p.display());
    }
}

pub type Property = fn(&Ctx);

fn usage() -> ! {
    eprintln!("usage: pbt <ID> [--replay FILE] [--sub NAME]");
    std::process::exit(2)
}

pub fn main_with(props: &[(&str, Property)]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        usage()
    }
    let id = args[0].clone();
    let prop = props.iter().find(|p| p.0 == id).unwrap_or_else(|| usage()).1;
    let mut replay = None;
    let mut only = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                replay = Some(args[i + 1].clone());
                i += 2
            }
            "--sub" => {
                only = Some(args[i + 1].clone());
                i += 2
            }
            _ => usage(),
        }
    }
    let verif = std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let child = std::env::var_os("PBT_CHILD").is_some();
    let _ = std::fs::create_dir_all(verif.join("replays"));
    let new_ctx = |mode: Mode| Ctx {
        id: id.clone(),
        tier,
        seed,
        mode,
        verif: verif.clone(),
        rule: Default::default(),
        assumptions: Default::default(),
        level: Cell::new("exploration"),
        subs: Default::default(),
        violation: Default::default(),
        replay_hit: Cell::new(false),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16),
        cpu_limit: Cell::new(120.min(env_cpu_limit())),
        mem_limit: Cell::new(6 << 30),
        only: only.clone(),
        scale: std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
    let t0 = Instant::now();

    if child {
        // Does the work; a fatal condition ends the process with status 101 and a replay file.
        install_guards();
        let mode = match &replay {
            Some(f) => {
                let v: Value = serde_json::from_slice(&std::fs::read(f).expect("replay file")).expect("replay json");
                Mode::Replay { sub: v["sub"].as_str().unwrap_or("").to_string(), case: v["case"].clone() }
            }
            None => Mode::Run,
        };
        let is_replay = replay.is_some();
        let ctx = new_ctx(mode);
        let r = no_panic(|| {
            prop(&ctx);
        });
        if let Err(e) = r {
            eprintln!("harness error: {e}");
            std::process::exit(3);
        }
        if is_replay && !ctx.replay_hit.get() {
            eprintln!("no such sub-check");
            std::process::exit(2);
        }
        if !is_replay {
            ctx.write_evidence(t0.elapsed().as_secs_f64());
        }
        let v = ctx.violation.borrow();
        if let Some(v) = v.as_ref() {
            eprintln!("FAILED {}", v.msg.replace('\n', " "));
            if !is_replay {
                ctx.report(v);
            }
            std::process::exit(1);
        }
        std::process::exit(0);
    }

    // Supervisor.
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.args(&args).env("PBT_CHILD", "1");
    let mut ch = cmd.spawn().expect("spawn");
    let pid = ch.id();
    let status = ch.wait().expect("wait");
    let fatal = verif.join(format!("replays/fatal-{id}-{pid}.json"));
    match status.code() {
        Some(0) => {
            if replay.is_none() {
                println!("OK property={id} tier={tier:?} seed={seed} {:.1}s", t0.elapsed().as_secs_f64());
            } else {
                println!("replay: property {id} holds on this case");
            }
            std::process::exit(0)
        }
        Some(1) => {
            if let Some(r) = replay {
                println!("VIOLATION property={id} replay={r}");
            }
            std::process::exit(1)
        }
        Some(101) => {
            let txt = std::fs::read(&fatal).unwrap_or_default();
            let _ = std::fs::remove_file(&fatal);
            let v: Value = match serde_json::from_slice(&txt) {
                Ok(v) => v,
                Err(e) => {
                    eprintln!("fatal record unreadable: {e}");
                    std::process::exit(3)
                }
            };
            let sub = v["sub"].as_str().unwrap_or("").to_string();
            let msg = v["message"].as_str().unwrap_or("").to_string();
            if let Some(r) = replay {
                println!("{msg}");
                println!("VIOLATION property={id} replay={r}");
                std::process::exit(1);
            }
            let idx = v["idx"].as_u64().unwrap_or(u64::MAX);
            let ctx = new_ctx(Mode::ShrinkFatal { sub: sub.clone(), idx });
            let _ = no_panic(|| prop(&ctx));
            let mut viol = Violation { sub: sub.clone(), msg: msg.clone(), case: v["case"].clone() };
            if let Some(s) = ctx.violation.borrow_mut().take() {
                viol.case = s.case;
            }
            // what the supervisor knows about coverage: the case that ended the run
            let mut st = SubStats::default();
            st.evals = if idx == u64::MAX { 1 } else { idx + 1 };
            ctx.subs.borrow_mut().insert(sub, st);
            ctx.report(&viol);
            *ctx.violation.borrow_mut() = Some(viol);
            ctx.write_evidence(t0.elapsed().as_secs_f64());
            std::process::exit(1)
        }
        c => {
            eprintln!("check process ended abnormally: {c:?} {status:?}");
            std::process::exit(3)
        }
    }
}
fn env_cpu_limit() -> u64 {
    std::env::var("PBT_CPU_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX)
}
