//! Arms (a generator plus a check), the per-case context, and the seeded,
//! sharded loop a worker process runs.
use crate::{alloc, sys};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Fail {
    /// The property is broken. `sig` names the kind of failure (shrinking keeps it).
    Violation { sig: String, msg: String },
    /// The harness itself went wrong: nothing can be concluded.
    Harness(String),
}

pub type Res<T = ()> = Result<T, Fail>;

pub fn violation<T>(sig: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Fail::Violation { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! bad {
    ($sig:expr, $($arg:tt)*) => {
        return Err($crate::engine::Fail::Violation { sig: ($sig).to_string(), msg: format!($($arg)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { $crate::bad!($sig, $($arg)*) }
    };
}

impl From<std::io::Error> for Fail {
    fn from(e: std::io::Error) -> Self {
        Fail::Harness(format!("harness i/o error: {e}"))
    }
}

// ---------------------------------------------------------------- journal

#[repr(C)]
pub struct Journal {
    pub arm: AtomicU64,
    pub case: AtomicU64,
    pub in_guard: AtomicU64,
    pub beat: AtomicU64,
    pub alloc_note: [AtomicU64; 2],
    pub hang: AtomicU64,
}

#[repr(C)]
pub struct Shared {
    /// lowest failing (arm << 40 | case) seen so far by any worker
    pub best: AtomicU64,
    pub workers: [Journal; 64],
}

static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());
static WORKER: AtomicU64 = AtomicU64::new(63);

pub fn shared() -> Option<&'static Shared> {
    let p = SHARED.load(SeqCst);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

pub fn journal() -> Option<&'static Journal> {
    shared().map(|s| &s.workers[WORKER.load(SeqCst) as usize])
}

pub fn map_shared(file: &Path, create: bool, worker: u64) -> std::io::Result<()> {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(file)?;
    if create {
        f.set_len(std::mem::size_of::<Shared>() as u64)?;
    }
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    if p == libc::MAP_FAILED {
        return Err(std::io::Error::last_os_error());
    }
    SHARED.store(p as *mut Shared, SeqCst);
    WORKER.store(worker, SeqCst);
    if create {
        shared().unwrap().best.store(u64::MAX, SeqCst);
    }
    let j = journal().unwrap();
    alloc::set_note(j.alloc_note.as_ptr() as *mut u64);
    Ok(())
}

// ---------------------------------------------------------------- guarded calls

thread_local! {
    static PANIC_NOTE: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let what = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_NOTE.with(|n| *n.borrow_mut() = Some(format!("{what} at {at}")));
    }));
}

/// Call the code under test: a panic there is a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    let j = journal();
    if let Some(j) = j {
        j.in_guard.fetch_add(1, SeqCst);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Some(j) = j {
        j.in_guard.fetch_sub(1, SeqCst);
    }
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let note = sys::suspended(|| PANIC_NOTE.with(|n| n.borrow_mut().take()).unwrap_or_default());
            violation("panic", format!("{what} panicked: {note}"))
        }
    }
}

// ---------------------------------------------------------------- context

pub struct Ctx {
    /// A fresh, empty directory of this case.
    pub dir: PathBuf,
    pub tier: Tier,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    /// Findings listed in the known-findings file for this property.
    pub known: BTreeSet<String>,
}

impl Ctx {
    pub fn label(&mut self, l: impl Into<String>) {
        self.add(l, 1);
    }
    pub fn add(&mut self, l: impl Into<String>, n: u64) {
        *self.labels.entry(l.into()).or_insert(0) += n;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn sub(&self, name: &str) -> Res<PathBuf> {
        let d = self.dir.join(name);
        std::fs::create_dir_all(&d)?;
        Ok(d)
    }
}

// ---------------------------------------------------------------- arms

pub trait Case: Serialize + DeserializeOwned + Debug + Clone + 'static {}
impl<T: Serialize + DeserializeOwned + Debug + Clone + 'static> Case for T {}

pub struct CaseText {
    pub hash: u64,
    pub text: String,
}

pub trait DynArm {
    fn name(&self) -> &str;
    fn cases(&self, tier: Tier) -> u64;
    fn enumerated(&self) -> bool;
    /// Outcome may depend on thread scheduling or on randomised maps.
    fn schedule(&self) -> bool;
    fn run(&self, seed: u64, idx: u64, ctx: &mut Ctx) -> (Res, CaseText);
    fn run_json(&self, json: &str, ctx: &mut Ctx) -> Res;
    fn json(&self, seed: u64, idx: u64) -> String;
    fn shrink(&self, seed: u64, idx: u64, exec: &mut dyn FnMut(&str) -> Shrink) -> String;
}

#[derive(PartialEq)]
pub enum Shrink {
    Fails,
    Passes,
    Stop,
}

pub struct Arm<T: Case> {
    name: String,
    quick: u64,
    thorough: u64,
    schedule: bool,
    source: Source<T>,
    check: Box<dyn Fn(&T, &mut Ctx) -> Res>,
}

enum Source<T> {
    Random(BoxedStrategy<T>),
    /// A fixed list, enumerated completely.
    List(Vec<T>),
}

pub fn arm<T: Case>(
    name: &str,
    quick: u64,
    thorough: u64,
    s: impl Strategy<Value = T> + 'static,
    check: impl Fn(&T, &mut Ctx) -> Res + 'static,
) -> Box<dyn DynArm> {
    Box::new(Arm {
        name: name.into(),
        quick,
        thorough,
        schedule: false,
        source: Source::Random(s.boxed()),
        check: Box::new(check),
    })
}

pub fn sched_arm<T: Case>(
    name: &str,
    quick: u64,
    thorough: u64,
    s: impl Strategy<Value = T> + 'static,
    check: impl Fn(&T, &mut Ctx) -> Res + 'static,
) -> Box<dyn DynArm> {
    Box::new(Arm {
        name: name.into(),
        quick,
        thorough,
        schedule: true,
        source: Source::Random(s.boxed()),
        check: Box::new(check),
    })
}

pub fn list_arm<T: Case>(name: &str, list: Vec<T>, check: impl Fn(&T, &mut Ctx) -> Res + 'static) -> Box<dyn DynArm> {
    let n = list.len() as u64;
    Box::new(Arm {
        name: name.into(),
        quick: n,
        thorough: n,
        schedule: false,
        source: Source::List(list),
        check: Box::new(check),
    })
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl<T: Case> Arm<T> {
    fn tree(&self, seed: u64, idx: u64) -> Option<Box<dyn ValueTree<Value = T>>> {
        let Source::Random(s) = &self.source else { return None };
        let mut x = seed ^ fnv(self.name.as_bytes());
        splitmix(&mut x);
        x ^= idx.wrapping_mul(0xD6E8FEB86659FD93);
        let mut bytes = [0u8; 32];
        for c in bytes.chunks_mut(8) {
            c.copy_from_slice(&splitmix(&mut x).to_le_bytes());
        }
        let cfg = Config { failure_persistence: None, max_local_rejects: 1_000_000, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
        Some(s.new_tree(&mut runner).expect("generator"))
    }

    fn value(&self, seed: u64, idx: u64) -> T {
        match &self.source {
            Source::Random(_) => self.tree(seed, idx).unwrap().current(),
            Source::List(l) => l[idx as usize].clone(),
        }
    }
}

impl<T: Case> DynArm for Arm<T> {
    fn name(&self) -> &str {
        &self.name
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn enumerated(&self) -> bool {
        matches!(self.source, Source::List(_))
    }
    fn schedule(&self) -> bool {
        self.schedule
    }
    fn run(&self, seed: u64, idx: u64, ctx: &mut Ctx) -> (Res, CaseText) {
        let v = self.value(seed, idx);
        let text = serde_json::to_string(&v).expect("serialize case");
        let made = CaseText { hash: fnv(text.as_bytes()) ^ fnv(self.name.as_bytes()), text };
        (run_check(&*self.check, &v, ctx), made)
    }
    fn run_json(&self, json: &str, ctx: &mut Ctx) -> Res {
        match serde_json::from_str::<T>(json) {
            Ok(v) => run_check(&*self.check, &v, ctx),
            Err(e) => Err(Fail::Harness(format!("cannot read case: {e}"))),
        }
    }
    fn json(&self, seed: u64, idx: u64) -> String {
        serde_json::to_string(&self.value(seed, idx)).expect("serialize case")
    }
    fn shrink(&self, seed: u64, idx: u64, exec: &mut dyn FnMut(&str) -> Shrink) -> String {
        let mut best = self.json(seed, idx);
        let Some(mut tree) = self.tree(seed, idx) else { return best };
        let mut failing = true;
        loop {
            if failing {
                if !tree.simplify() {
                    break;
                }
            } else if !tree.complicate() {
                break;
            }
            let text = serde_json::to_string(&tree.current()).expect("serialize case");
            match exec(&text) {
                Shrink::Fails => {
                    failing = true;
                    best = text;
                }
                Shrink::Passes => failing = false,
                Shrink::Stop => break,
            }
        }
        best
    }
}

fn run_check<T>(check: &dyn Fn(&T, &mut Ctx) -> Res, v: &T, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| check(v, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let note = PANIC_NOTE.with(|n| n.borrow_mut().take()).unwrap_or_default();
            Err(Fail::Harness(format!("the harness panicked: {note}")))
        }
    }
}

// ---------------------------------------------------------------- properties

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub arms: Vec<Box<dyn DynArm>>,
}

// ---------------------------------------------------------------- worker

#[derive(Serialize, Deserialize, Default)]
pub struct ArmReport {
    pub cases: u64,
    pub nontrivial: u64,
    pub hashes: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub cpu_ms: u64,
}

#[derive(Serialize, Deserialize, Default)]
pub struct WorkerReport {
    pub arms: BTreeMap<String, ArmReport>,
    pub failure: Option<(u64, u64, Fail)>,
}

pub const CPU_LIMIT_S: i64 = 20;

extern "C" fn on_cpu_limit(_: libc::c_int) {
    if let Some(j) = journal() {
        j.hang.store(1, SeqCst);
    }
    unsafe { libc::_exit(96) }
}

pub fn install_cpu_limit() {
    unsafe {
        libc::signal(libc::SIGPROF, on_cpu_limit as extern "C" fn(libc::c_int) as libc::sighandler_t);
    }
}

pub fn set_cpu_timer(secs: i64) {
    #[repr(C)]
    struct ITimer {
        interval: libc::timeval,
        value: libc::timeval,
    }
    extern "C" {
        fn setitimer(which: libc::c_int, new: *const ITimer, old: *mut ITimer) -> libc::c_int;
    }
    let z = libc::timeval { tv_sec: 0, tv_usec: 0 };
    let t = ITimer { interval: z, value: libc::timeval { tv_sec: secs, tv_usec: 0 } };
    unsafe {
        setitimer(2, &t, std::ptr::null_mut()); // ITIMER_PROF
    }
}

pub fn cpu_ms() -> u64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID as libc::c_long, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

pub fn fresh_dir(dir: &Path) -> std::io::Result<()> {
    match std::fs::remove_dir_all(dir) {
        Err(e) if e.kind() != std::io::ErrorKind::NotFound => return Err(e),
        _ => (),
    }
    std::fs::create_dir_all(dir)
}

/// Default memory allowance of a case (a runaway is stopped long before it hurts the machine).
pub const DEFAULT_ALLOC: usize = 3 << 30;

pub fn run_worker(
    prop: &Prop,
    tier: Tier,
    seed: u64,
    worker: u64,
    workers: u64,
    scratch: &Path,
    known: &BTreeSet<String>,
    only: Option<&str>,
    scale: f64,
) -> WorkerReport {
    install_cpu_limit();
    let mut report = WorkerReport::default();
    let j = journal().expect("journal");
    let best = &shared().unwrap().best;
    let base = scratch.join(format!("w{worker}"));
    'arms: for (ai, arm) in prop.arms.iter().enumerate() {
        if only.map_or(false, |o| !arm.name().contains(o)) {
            continue;
        }
        let t0 = cpu_ms();
        let mut rep = ArmReport::default();
        let mut hashes = BTreeSet::new();
        let n = arm.cases(tier);
        let n = if arm.enumerated() { n } else { (n as f64 * scale).ceil() as u64 };
        let mut i = worker;
        while i < n {
            let key = ((ai as u64) << 40) | i;
            if best.load(SeqCst) < key {
                break 'arms;
            }
            j.arm.store(ai as u64, SeqCst);
            j.case.store(i, SeqCst);
            j.beat.fetch_add(1, SeqCst);
            let dir = base.join("case");
            if let Err(e) = fresh_dir(&dir) {
                report.failure = Some((ai as u64, i, Fail::Harness(format!("scratch: {e}"))));
                break 'arms;
            }
            let mut ctx = Ctx { dir, tier, labels: BTreeMap::new(), nontrivial: false, known: known.clone() };
            set_cpu_timer(CPU_LIMIT_S);
            alloc::arm(DEFAULT_ALLOC);
            let (res, made) = arm.run(seed, i, &mut ctx);
            alloc::disarm();
            set_cpu_timer(0);
            rep.cases += 1;
            for (l, n) in ctx.labels {
                *rep.labels.entry(l).or_insert(0) += n;
            }
            match res {
                Ok(()) => (),
                Err(Fail::Violation { sig, .. }) if known.contains(&sig) => {
                    *rep.known.entry(sig).or_insert(0) += 1;
                }
                Err(f) => {
                    if matches!(f, Fail::Violation { .. }) {
                        best.fetch_min(key, SeqCst);
                    }
                    report.failure = Some((ai as u64, i, f));
                    report.arms.insert(arm.name().into(), rep);
                    break 'arms;
                }
            }
            if ctx.nontrivial {
                rep.nontrivial += 1;
                hashes.insert(made.hash);
                if rep.samples.len() < 2 && worker < 2 {
                    let mut t = made.text;
                    if t.len() > 600 {
                        let mut k = 600;
                        while !t.is_char_boundary(k) {
                            k -= 1;
                        }
                        t.truncate(k);
                        t.push('…');
                    }
                    rep.samples.push(t);
                }
            }
            i += workers;
        }
        rep.hashes = hashes.into_iter().collect();
        rep.cpu_ms = cpu_ms() - t0;
        report.arms.insert(arm.name().into(), rep);
    }
    j.arm.store(u64::MAX, SeqCst);
    let _ = std::fs::remove_dir_all(&base);
    report
}
