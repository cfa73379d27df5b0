//! The harness defines the libc functions through which Rust's standard library
//! reaches the operating system, so that every file operation of the code under
//! test can be recorded, delayed, split up, interrupted, failed or turned into a
//! crash, and so that the monotonic clock can be moved. Without an armed plan
//! each function is a plain system call. The code under test is not changed.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
use libc::{c_char, c_int, c_long, c_void, off64_t, size_t, ssize_t, timespec};
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::*};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Open,
    Read,
    Seek,
    Write,
    /// create directory, rename, link, unlink, truncate, sync, set times
    Meta,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    OpenRead,
    OpenDir,
    Stat,
    OpenCreate,
    Read,
    ReadDir,
    Seek,
    Write,
    Mkdir,
    Rename,
    Link,
    Unlink,
    Rmdir,
    Truncate,
    Sync,
    Times,
}

/// What to do at the chosen call.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    /// Die instead of performing the call.
    Die,
    /// Perform half of a write, then die (other calls: perform, then die).
    DieHalf,
    /// Fail with this errno instead of performing the call.
    Fail(c_int),
    /// Perform half of a write and report it; fail all later writes with this errno.
    ShortThenFail(c_int),
    /// Run the registered callback, then perform the call (with `persist`: at every later call too).
    Callback,
    /// Run the registered callback, then fail with this errno instead of performing the call.
    CallbackThenFail(c_int),
}

pub struct Plan {
    /// Counts calls of interest; the plan acts on call number `at`.
    pub mutating: bool,
    pub reading: bool,
    pub at: Option<u64>,
    pub act: Act,
    /// After the act, every further call of the same class fails too.
    pub persist: bool,
    pub count: u64,
    pub fired: bool,
    pub fired_on: Option<Call>,
    pub failing_writes: Option<c_int>,
    pub callback: Option<Box<dyn FnMut()>>,
    /// Split reads: seed of a generator; each read may be shortened or interrupted.
    pub chop: Option<u64>,
    pub chopped: u64,
    pub interrupted: u64,
    pub consecutive: u32,
    /// Yield or sleep around file operations (for schedules).
    pub jitter: Option<u64>,
    /// Fail everything after this many calls (a deterministic stand-in for "runs forever").
    pub budget: Option<u64>,
    pub budget_hit: bool,
    pub calls: u64,
    pub opened: Option<Vec<Vec<u8>>>,
    pub bytes_read: u64,
    pub bytes_written: u64,
    /// The file or directory whose opening was the call acted on first.
    pub fired_path: Option<Vec<u8>>,
    pub last_open: Vec<u8>,
    pub trace: Option<Vec<Call>>,
    /// This many creations of a file (of another name than `stale_not`)
    /// find that an earlier process has left a file of that name.
    pub stale: u64,
    pub stale_not: Vec<u8>,
    pub stale_made: u64,
    /// Directory listings do not tell the types of files, as on some file systems.
    pub untyped: bool,
}

impl Default for Plan {
    fn default() -> Self {
        Plan {
            mutating: false,
            reading: false,
            at: None,
            act: Act::Die,
            persist: false,
            count: 0,
            fired: false,
            fired_on: None,
            failing_writes: None,
            callback: None,
            chop: None,
            chopped: 0,
            interrupted: 0,
            consecutive: 0,
            jitter: None,
            budget: None,
            budget_hit: false,
            calls: 0,
            opened: None,
            bytes_read: 0,
            bytes_written: 0,
            fired_path: None,
            last_open: vec![],
            trace: None,
            stale: 0,
            stale_not: vec![],
            stale_made: 0,
            untyped: false,
        }
    }
}

thread_local! {
    static PLAN: Cell<*mut Plan> = const { Cell::new(std::ptr::null_mut()) };
}

static CLOCK_NS: AtomicI64 = AtomicI64::new(0);

pub fn advance_clock(ns: i64) {
    CLOCK_NS.fetch_add(ns, SeqCst);
}

/// Where the monotonic clocks stand while they are stopped; 0: not seen yet.
static STOPPED: AtomicUsize = AtomicUsize::new(0);
static STANDS: [AtomicI64; 3] = [const { AtomicI64::new(0) }; 3];

/// Stops the monotonic clocks of this process, so that what a lookup does cannot depend on how busy the machine is;
/// `advance_clock` still moves them.
pub struct StoppedClock(());

pub fn stop_clock() -> StoppedClock {
    if STOPPED.fetch_add(1, SeqCst) == 0 {
        STANDS.iter().for_each(|s| s.store(0, SeqCst));
    }
    StoppedClock(())
}

impl Drop for StoppedClock {
    fn drop(&mut self) {
        STOPPED.fetch_sub(1, SeqCst);
    }
}

/// Run `f` with `plan` in force on this thread; returns the plan with its counters.
pub fn with_plan<T>(mut plan: Plan, f: impl FnOnce() -> T) -> (T, Plan) {
    struct Reset(*mut Plan);
    impl Drop for Reset {
        fn drop(&mut self) {
            PLAN.with(|p| p.set(self.0));
        }
    }
    let out = {
        let old = PLAN.with(|p| p.replace(&mut plan));
        let _reset = Reset(old);
        f()
    };
    (out, plan)
}

/// Suspend the plan of this thread (for the harness's own file operations).
pub fn suspended<T>(f: impl FnOnce() -> T) -> T {
    struct Reset(*mut Plan);
    impl Drop for Reset {
        fn drop(&mut self) {
            PLAN.with(|p| p.set(self.0));
        }
    }
    let _r = Reset(PLAN.with(|p| p.replace(std::ptr::null_mut())));
    f()
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

fn mix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

enum Do {
    Go,
    Fail(c_int),
    Half,
    HalfDie,
}

fn plan() -> Option<&'static mut Plan> {
    let p = PLAN.with(|p| p.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

fn enter(call: Call) -> Do {
    let Some(plan) = plan() else { return Do::Go };
    let class = match call {
        Call::OpenRead | Call::OpenDir | Call::Stat => Class::Open,
        Call::Read | Call::ReadDir => Class::Read,
        Call::Seek => Class::Seek,
        Call::Write => Class::Write,
        _ => Class::Meta,
    };
    plan.calls += 1;
    if let Some(t) = plan.trace.as_mut() {
        PLAN.with(|p| p.set(std::ptr::null_mut()));
        t.push(call);
        PLAN.with(|p| p.set(plan));
    }
    if let Some(b) = plan.budget {
        if plan.calls > b {
            plan.budget_hit = true;
            return Do::Fail(libc::EIO);
        }
    }
    if let Some(j) = plan.jitter.as_mut() {
        match mix(j) % 16 {
            0..=4 => unsafe {
                libc::sched_yield();
            },
            5 | 6 => unsafe {
                let t = timespec { tv_sec: 0, tv_nsec: (mix(j) % 60_000) as c_long };
                libc::syscall(libc::SYS_nanosleep, &t as *const timespec, std::ptr::null_mut::<timespec>());
            },
            _ => (),
        }
    }
    if let (Some(e), Class::Write) = (plan.failing_writes, class) {
        return Do::Fail(e);
    }
    let counted = match class {
        Class::Open | Class::Read | Class::Seek => plan.reading,
        Class::Write | Class::Meta => plan.mutating,
    };
    if !counted {
        return Do::Go;
    }
    let n = plan.count;
    plan.count += 1;
    let hit = match plan.at {
        Some(at) => n == at || (plan.persist && plan.fired && n > at),
        None => false,
    };
    if !hit {
        return Do::Go;
    }
    if !plan.fired {
        plan.fired = true;
        plan.fired_on = Some(call);
        if class == Class::Open {
            plan.fired_path = Some(std::mem::take(&mut plan.last_open));
        }
    }
    match plan.act {
        Act::Die => unsafe { libc::_exit(99) },
        Act::DieHalf => Do::HalfDie,
        Act::Fail(e) => Do::Fail(e),
        Act::ShortThenFail(e) => {
            if class == Class::Write {
                plan.failing_writes = Some(e);
                Do::Half
            } else {
                Do::Fail(e)
            }
        }
        Act::Callback | Act::CallbackThenFail(_) => {
            if let Some(mut cb) = plan.callback.take() {
                let me: *mut Plan = plan;
                PLAN.with(|p| p.set(std::ptr::null_mut()));
                cb();
                PLAN.with(|p| p.set(me));
                unsafe { (*me).callback = Some(cb) };
            }
            match plan.act {
                Act::CallbackThenFail(e) => Do::Fail(e),
                _ => Do::Go,
            }
        }
    }
}

macro_rules! gate {
    ($call:expr, $ret:expr) => {
        match enter($call) {
            Do::Go | Do::Half => $ret,
            Do::HalfDie => {
                let _ = $ret;
                unsafe { libc::_exit(99) }
            }
            Do::Fail(e) => {
                set_errno(e);
                return -1;
            }
        }
    };
}

fn note_read(n: ssize_t) -> ssize_t {
    if let Some(plan) = plan() {
        plan.bytes_read += n.max(0) as u64;
    }
    n
}

fn note_written(n: ssize_t) -> ssize_t {
    if let Some(plan) = plan() {
        plan.bytes_written += n.max(0) as u64;
    }
    n
}

fn note_open(path: *const c_char) {
    if let Some(plan) = plan() {
        if plan.at.is_some() && !plan.fired {
            plan.last_open = unsafe { CStr::from_ptr(path) }.to_bytes().to_vec();
        }
        if let Some(o) = plan.opened.as_mut() {
            let bytes = unsafe { CStr::from_ptr(path) }.to_bytes().to_vec();
            o.push(bytes);
        }
    }
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    note_open(path);
    if flags & libc::O_CREAT != 0 {
        if let Some(plan) = plan() {
            if plan.stale_made < plan.stale && (plan.stale_not.is_empty() || !CStr::from_ptr(path).to_bytes().ends_with(&plan.stale_not)) {
                let f = libc::syscall(libc::SYS_openat, dir, path, libc::O_CREAT | libc::O_EXCL | libc::O_WRONLY, 0o644) as c_int;
                if f >= 0 {
                    for _ in 0..if plan.stale_made % 2 == 0 { 4000 } else { 1 } {
                        libc::syscall(libc::SYS_write, f, b"left behind".as_ptr(), 11usize);
                    }
                    libc::syscall(libc::SYS_close, f);
                    plan.stale_made += 1;
                }
            }
        }
    }
    let call = if flags & (libc::O_CREAT | libc::O_WRONLY | libc::O_RDWR | libc::O_TRUNC) != 0 {
        Call::OpenCreate
    } else {
        Call::OpenRead
    };
    gate!(call, libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int)
}

unsafe fn note_stat(path: *const c_char) {
    if let Some(plan) = plan() {
        if plan.at.is_some() && !plan.fired && !path.is_null() {
            plan.last_open = CStr::from_ptr(path).to_bytes().to_vec();
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    // a probe of the standard library, not a file
    if path.is_null() {
        return libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf) as c_int;
    }
    note_stat(path);
    gate!(Call::Stat, libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(dir, path, flags | libc::O_LARGEFILE, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(dir, path, flags, mode)
}

unsafe fn next(name: &'static CStr, slot: &AtomicUsize) -> *mut c_void {
    let p = slot.load(Relaxed);
    if p != 0 {
        return p as *mut c_void;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    if p.is_null() {
        libc::abort();
    }
    slot.store(p as usize, Relaxed);
    p
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    static REAL: AtomicUsize = AtomicUsize::new(0);
    note_open(path);
    match enter(Call::OpenDir) {
        Do::Fail(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
        _ => {
            let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(next(c"opendir", &REAL));
            f(path)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
    static REAL: AtomicUsize = AtomicUsize::new(0);
    // the caller tells an error from the end by errno, which it has cleared
    let before = *libc::__errno_location();
    match enter(Call::ReadDir) {
        Do::Fail(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
        _ => {
            set_errno(before);
            let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next(c"readdir64", &REAL));
            let ent = f(dir);
            if !ent.is_null() && plan().map_or(false, |p| p.untyped) {
                (*ent).d_type = libc::DT_UNKNOWN;
            }
            ent
        }
    }
}

/// Decide how much of a read of `n` bytes to perform; `None` means interrupted.
fn chop(n: size_t) -> Option<size_t> {
    let Some(plan) = plan() else { return Some(n) };
    let Some(rng) = plan.chop.as_mut() else { return Some(n) };
    if n == 0 {
        return Some(n);
    }
    let r = mix(rng) % 8;
    if r < 2 && plan.consecutive < 3 {
        plan.consecutive += 1;
        plan.interrupted += 1;
        return None;
    }
    plan.consecutive = 0;
    let m = match r {
        2 | 3 => 1,
        4 => 1 + (mix(rng) % 7) as size_t,
        5 => 1 + (mix(rng) % 64) as size_t,
        6 => 1 + (mix(rng) as size_t) % n,
        _ => n,
    };
    let m = m.min(n);
    if m < n {
        plan.chopped += 1;
    }
    Some(m)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match enter(Call::Read) {
        Do::Fail(e) => {
            set_errno(e);
            return -1;
        }
        _ => (),
    }
    match chop(n) {
        None => {
            set_errno(libc::EINTR);
            -1
        }
        Some(m) => note_read(libc::syscall(libc::SYS_read, fd, buf, m) as ssize_t),
    }
}

unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match enter(Call::Read) {
        Do::Fail(e) => {
            set_errno(e);
            return -1;
        }
        _ => (),
    }
    match chop(n) {
        None => {
            set_errno(libc::EINTR);
            -1
        }
        Some(m) => note_read(libc::syscall(libc::SYS_pread64, fd, buf, m, off) as ssize_t),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_pread(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_pread(fd, buf, n, off)
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    gate!(Call::Read, note_read(libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t))
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    gate!(Call::Seek, libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t)
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    gate!(Call::Seek, libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t)
}

unsafe fn raw_write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    note_written(libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd <= 2 {
        return raw_write(fd, buf, n);
    }
    match enter(Call::Write) {
        Do::Go => raw_write(fd, buf, n),
        Do::Half => raw_write(fd, buf, (n + 1) / 2),
        Do::HalfDie => {
            raw_write(fd, buf, (n + 1) / 2);
            libc::_exit(99)
        }
        Do::Fail(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let raw = |m: size_t| note_written(libc::syscall(libc::SYS_pwrite64, fd, buf, m, off) as ssize_t);
    match enter(Call::Write) {
        Do::Go => raw(n),
        Do::Half => raw((n + 1) / 2),
        Do::HalfDie => {
            raw((n + 1) / 2);
            libc::_exit(99)
        }
        Do::Fail(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if fd <= 2 {
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
    }
    gate!(Call::Write, note_written(libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t))
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: libc::mode_t) -> c_int {
    gate!(Call::Mkdir, libc::syscall(libc::SYS_mkdir, path, mode as c_long) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    gate!(Call::Rename, libc::syscall(libc::SYS_rename, a, b) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    gate!(Call::Link, libc::syscall(libc::SYS_link, a, b) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn linkat(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char, fl: c_int) -> c_int {
    gate!(Call::Link, libc::syscall(libc::SYS_linkat, ad, a, bd, b, fl) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    gate!(Call::Unlink, libc::syscall(libc::SYS_unlink, a) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    gate!(Call::Rmdir, libc::syscall(libc::SYS_rmdir, a) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    gate!(Call::Truncate, libc::syscall(libc::SYS_ftruncate, fd, len) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    gate!(Call::Sync, libc::syscall(libc::SYS_fsync, fd) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    gate!(Call::Sync, libc::syscall(libc::SYS_fdatasync, fd) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, t: *const timespec, fl: c_int) -> c_int {
    gate!(Call::Times, libc::syscall(libc::SYS_utimensat, d, p, t, fl) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk as c_long, ts) as c_int;
    if r == 0 && matches!(clk, libc::CLOCK_MONOTONIC | libc::CLOCK_BOOTTIME | libc::CLOCK_MONOTONIC_RAW) {
        let off = CLOCK_NS.load(SeqCst);
        let t = &mut *ts;
        let mut now = t.tv_sec as i128 * 1_000_000_000 + t.tv_nsec as i128;
        if STOPPED.load(SeqCst) > 0 {
            let stand = &STANDS[match clk {
                libc::CLOCK_MONOTONIC => 0,
                libc::CLOCK_BOOTTIME => 1,
                _ => 2,
            }];
            now = match stand.compare_exchange(0, now as i64, SeqCst, SeqCst) {
                Ok(_) => now,
                Err(at) => at as i128,
            };
        }
        let total = now + off as i128;
        t.tv_sec = (total / 1_000_000_000) as _;
        t.tv_nsec = (total % 1_000_000_000) as _;
    }
    r
}
