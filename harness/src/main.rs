//! rgcheck <property> [--tier quick|thorough] [--seed N] [--arm SUBSTR] [--scale X] [--out DIR]
//! rgcheck --replay FILE
#![allow(dead_code)]
mod alloc;
mod engine;
mod git;
mod model;
mod props;
mod store;
mod sys;

use engine::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    arm: String,
    seed: u64,
    case: u64,
    signature: String,
    message: String,
    value: serde_json::Value,
    reproduced: String,
}

struct Opts {
    prop: String,
    tier: Tier,
    seed: u64,
    arm: Option<String>,
    scale: f64,
    verif: PathBuf,
    replay: Option<PathBuf>,
    worker: Option<(u64, u64, PathBuf)>,
    jobs: u64,
}

fn parse_opts() -> Opts {
    let verif = std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
    let mut o = Opts {
        prop: String::new(),
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        arm: None,
        scale: 1.0,
        verif,
        replay: None,
        worker: None,
        jobs: 8,
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut next = || it.next().unwrap_or_else(|| usage());
        match a.as_str() {
            "--tier" => {
                o.tier = match next().as_str() {
                    "thorough" => Tier::Thorough,
                    _ => Tier::Quick,
                }
            }
            "--seed" => o.seed = next().parse().unwrap_or_else(|_| usage()),
            "--arm" => o.arm = Some(next()),
            "--scale" => o.scale = next().parse().unwrap_or_else(|_| usage()),
            "--jobs" => o.jobs = next().parse().unwrap_or_else(|_| usage()),
            "--replay" => o.replay = Some(PathBuf::from(next())),
            "--worker" => {
                let k = next().parse().unwrap_or_else(|_| usage());
                let n = next().parse().unwrap_or_else(|_| usage());
                let d = PathBuf::from(next());
                o.worker = Some((k, n, d));
            }
            s if o.prop.is_empty() && !s.starts_with('-') => o.prop = s.to_string(),
            _ => usage(),
        }
    }
    o
}

fn usage<T>() -> T {
    eprintln!("usage: rgcheck PROPERTY [--tier T] [--seed N] [--arm S] [--scale X] | --replay FILE");
    exit(2)
}

fn harness_error(msg: &str) -> ! {
    eprintln!("rgcheck: {msg}");
    exit(2)
}

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        for root in ["/dev/shm", "/tmp"] {
            let p = Path::new(root).join(format!("rgcheck.{}", std::process::id()));
            if fresh_dir(&p).is_ok() {
                return Scratch(p);
            }
        }
        harness_error("no scratch directory")
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn main() {
    install_panic_hook();
    let o = parse_opts();
    let code = if let Some(f) = &o.replay {
        replay(&o, f)
    } else if let Some((k, n, d)) = &o.worker {
        worker(&o, *k, *n, d)
    } else {
        supervise(&o)
    };
    exit(code)
}

fn find_prop(id: &str) -> Prop {
    props::find(id).unwrap_or_else(|| harness_error(&format!("unknown property {id}")))
}

fn worker(o: &Opts, k: u64, n: u64, scratch: &Path) -> i32 {
    let prop = find_prop(&o.prop);
    if let Err(e) = map_shared(&scratch.join("shared"), false, k) {
        harness_error(&format!("journal: {e}"));
    }
    let known = known_findings(&o.verif, &o.prop).into_iter().map(|k| k.0).collect();
    let rep = run_worker(&prop, o.tier, o.seed, k, n, scratch, &known, o.arm.as_deref(), o.scale);
    let text = serde_json::to_vec(&rep).unwrap();
    if let Err(e) = std::fs::write(scratch.join(format!("r{k}.json")), text) {
        harness_error(&format!("worker report: {e}"));
    }
    0
}

/// Lines "KNOWN-FINDING: property=<id> sig=<signature> :: <what fails>"; "fixed:" lines suppress nothing.
fn known_findings(verif: &Path, prop: &str) -> Vec<(String, String)> {
    let Ok(text) = std::fs::read_to_string(verif.join("known-findings.txt")) else { return vec![] };
    let mut out = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("KNOWN-FINDING: ") else { continue };
        let Some(rest) = rest.strip_prefix(&format!("property={prop} sig=")) else { continue };
        let (sig, what) = rest.split_once(" :: ").unwrap_or((rest, rest));
        out.push((sig.to_string(), what.to_string()));
    }
    out
}

fn proc_stat(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// All threads asleep (not runnable, not in disk wait)?
fn all_asleep(pid: u32) -> bool {
    let Ok(rd) = std::fs::read_dir(format!("/proc/{pid}/task")) else { return false };
    for t in rd.flatten() {
        let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { return false };
        let Some((_, rest)) = s.rsplit_once(')') else { return false };
        if !rest.trim_start().starts_with('S') {
            return false;
        }
    }
    true
}

const STUCK: Duration = Duration::from_secs(30);

struct Proc {
    child: Child,
    k: u64,
    beat: u64,
    cpu: u64,
    since: Instant,
    done: bool,
}

enum End {
    Code(i32),
    Signal(i32),
    Stuck,
}

fn describe_end(e: &End, j: &Journal) -> Fail {
    let guarded = j.in_guard.load(SeqCst) > 0;
    let v = |sig: &str, msg: String| Fail::Violation { sig: sig.into(), msg };
    match e {
        _ if !guarded => Fail::Harness(format!(
            "a worker ended outside the code under test ({})",
            match e {
                End::Code(c) => format!("exit {c}"),
                End::Signal(s) => format!("signal {s}"),
                End::Stuck => "no progress".into(),
            }
        )),
        End::Code(97) => v(
            "memory",
            format!(
                "an allocation of {} bytes exceeded the memory allowance of the case",
                j.alloc_note[1].load(SeqCst)
            ),
        ),
        End::Code(96) => v("hang", format!("the call used more than {CPU_LIMIT_S} s of CPU time")),
        End::Code(c) => v("exit", format!("the call ended the process with exit code {c}")),
        End::Signal(9) => Fail::Harness("a worker was killed (SIGKILL)".into()),
        End::Signal(s) => v(&format!("signal-{s}"), format!("the call killed the process with signal {s}")),
        End::Stuck => v("deadlock", "the call made no progress for 30 s, with every thread asleep".into()),
    }
}

fn supervise(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let prop = find_prop(&o.prop);
    let scratch = Scratch::new();
    if let Err(e) = map_shared(&scratch.0.join("shared"), true, 62) {
        harness_error(&format!("shared memory: {e}"));
    }
    let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&format!("{e}")));
    let mut procs = vec![];
    for k in 0..o.jobs {
        let mut c = Command::new(&exe);
        c.arg(&o.prop)
            .args(["--seed", &o.seed.to_string()])
            .args(["--tier", if o.tier == Tier::Quick { "quick" } else { "thorough" }])
            .args(["--scale", &o.scale.to_string()])
            .arg("--worker")
            .arg(k.to_string())
            .arg(o.jobs.to_string())
            .arg(&scratch.0)
            .env("VERIF_DIR", &o.verif);
        if let Some(a) = &o.arm {
            c.args(["--arm", a]);
        }
        let child = c.spawn().unwrap_or_else(|e| harness_error(&format!("cannot start a worker: {e}")));
        procs.push(Proc { child, k, beat: 0, cpu: 0, since: Instant::now(), done: false });
    }
    let mut failures: Vec<(u64, u64, Fail)> = vec![];
    let mut arms: BTreeMap<String, ArmReport> = BTreeMap::new();
    let sh = shared().unwrap();
    while procs.iter().any(|p| !p.done) {
        std::thread::sleep(Duration::from_millis(10));
        for p in procs.iter_mut().filter(|p| !p.done) {
            let j = &sh.workers[p.k as usize];
            let end = match p.child.try_wait() {
                Ok(Some(st)) => {
                    use std::os::unix::process::ExitStatusExt;
                    Some(match st.signal() {
                        Some(s) => End::Signal(s),
                        None => End::Code(st.code().unwrap_or(-1)),
                    })
                }
                Ok(None) => {
                    let beat = j.beat.load(SeqCst);
                    let cpu = proc_stat(p.child.id()).unwrap_or(0);
                    if beat != p.beat || cpu > p.cpu + 5 || !all_asleep(p.child.id()) {
                        p.beat = beat;
                        p.cpu = cpu;
                        p.since = Instant::now();
                    }
                    if p.since.elapsed() > STUCK {
                        let _ = p.child.kill();
                        let _ = p.child.wait();
                        Some(End::Stuck)
                    } else {
                        None
                    }
                }
                Err(e) => harness_error(&format!("wait: {e}")),
            };
            let Some(end) = end else { continue };
            p.done = true;
            let file = scratch.0.join(format!("r{}.json", p.k));
            match (&end, std::fs::read(&file)) {
                (End::Code(0), Ok(text)) => match serde_json::from_slice::<WorkerReport>(&text) {
                    Ok(r) => {
                        if let Some(f) = r.failure {
                            failures.push(f);
                        }
                        for (name, a) in r.arms {
                            let t = arms.entry(name).or_default();
                            t.cases += a.cases;
                            t.nontrivial += a.nontrivial;
                            t.hashes.extend(a.hashes);
                            for (l, n) in a.labels {
                                *t.labels.entry(l).or_insert(0) += n;
                            }
                            for (l, n) in a.known {
                                *t.known.entry(l).or_insert(0) += n;
                            }
                            t.samples.extend(a.samples);
                            t.cpu_ms += a.cpu_ms;
                        }
                    }
                    Err(e) => failures.push((0, 0, Fail::Harness(format!("worker report: {e}")))),
                },
                _ => {
                    let (a, c) = (j.arm.load(SeqCst), j.case.load(SeqCst));
                    let f = describe_end(&end, j);
                    if matches!(f, Fail::Violation { .. }) {
                        sh.best.fetch_min((a << 40) | c, SeqCst);
                    }
                    failures.push((a, c, f));
                }
            }
        }
    }
    failures.sort_by_key(|f| (matches!(f.2, Fail::Harness(_)), f.0, f.1));
    let code = match failures.first() {
        None => 0,
        Some((a, c, Fail::Harness(m))) => {
            eprintln!("rgcheck: harness error in arm {} case {c}: {m}", name_of(&prop, *a));
            2
        }
        Some((a, c, Fail::Violation { sig, msg })) => report(o, &prop, *a, *c, sig, msg, &scratch.0),
    };
    if o.arm.is_none() && code != 2 {
        evidence(o, &prop, &arms, code, t0.elapsed());
    }
    let mut total = 0;
    for (n, a) in &arms {
        total += a.cases;
        eprintln!("  {n}: {} cases, {} non-trivial, {} ms cpu", a.cases, a.nontrivial, a.cpu_ms);
        if std::env::var_os("RGCHECK_LABELS").is_some() {
            for (l, n) in &a.labels {
                eprintln!("      {l}: {n}");
            }
        }
    }
    let known = known_findings(&o.verif, &o.prop);
    for (sig, what) in known {
        if arms.values().any(|a| a.known.contains_key(&sig)) {
            println!("KNOWN-FINDING: property={} {what}", o.prop);
        }
    }
    eprintln!("{} seed {}: {total} cases in {:.1} s, exit {code}", o.prop, o.seed, t0.elapsed().as_secs_f64());
    code
}

fn name_of(prop: &Prop, a: u64) -> String {
    prop.arms.get(a as usize).map(|a| a.name().to_string()).unwrap_or_else(|| "?".into())
}

/// Run one case in a forked child; what the child found comes back through a file.
fn run_forked(arm: &dyn DynArm, json: &str, scratch: &Path, tier: Tier, known: &BTreeSet<String>) -> Res {
    let dir = scratch.join("forked");
    fresh_dir(&dir)?;
    let out = scratch.join("forked.json");
    let _ = std::fs::remove_file(&out);
    let j = journal().unwrap();
    j.in_guard.store(0, SeqCst);
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Err(Fail::Harness("fork failed".into()));
    }
    if pid == 0 {
        // the runtime's own last words are of no use here
        unsafe {
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if null >= 0 {
                libc::dup2(null, 2);
            }
        }
        install_cpu_limit();
        set_cpu_timer(CPU_LIMIT_S);
        let mut ctx = Ctx {
            dir: dir.join("case"),
            tier,
            labels: BTreeMap::new(),
            nontrivial: false,
            known: known.clone(),
        };
        let _ = fresh_dir(&ctx.dir);
        alloc::arm(DEFAULT_ALLOC);
        let r = arm.run_json(json, &mut ctx);
        alloc::disarm();
        let ok = std::fs::write(&out, serde_json::to_vec(&r.err()).unwrap()).is_ok();
        unsafe { libc::_exit(if ok { 0 } else { 2 }) }
    }
    let mut since = Instant::now();
    let mut cpu0 = 0;
    let end = loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            break if libc::WIFSIGNALED(st) {
                End::Signal(libc::WTERMSIG(st))
            } else {
                End::Code(libc::WEXITSTATUS(st))
            };
        }
        let cpu = proc_stat(pid as u32).unwrap_or(0);
        if cpu > cpu0 + 5 || !all_asleep(pid as u32) {
            cpu0 = cpu;
            since = Instant::now();
        }
        if since.elapsed() > STUCK {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            break End::Stuck;
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let _ = std::fs::remove_dir_all(&dir);
    match end {
        End::Code(0) => {
            let text = std::fs::read(&out)?;
            match serde_json::from_slice::<Option<Fail>>(&text) {
                Ok(None) => Ok(()),
                Ok(Some(f)) => Err(f),
                Err(e) => Err(Fail::Harness(format!("forked case: {e}"))),
            }
        }
        e => Err(describe_end(&e, j)),
    }
}

fn report(o: &Opts, prop: &Prop, a: u64, c: u64, sig: &str, msg: &str, scratch: &Path) -> i32 {
    let arm = &*prop.arms[a as usize];
    let known: BTreeSet<String> = known_findings(&o.verif, &o.prop).into_iter().map(|k| k.0).collect();
    let mut best_msg = msg.to_string();
    let t0 = Instant::now();
    let mut runs = 0;
    let slow = matches!(sig, "hang" | "deadlock");
    let limit = Duration::from_secs(if slow { 150 } else { 60 });
    let max_runs = if arm.schedule() { 0 } else if slow { 6 } else { 1500 };
    let json = if max_runs == 0 {
        arm.json(o.seed, c)
    } else {
        arm.shrink(o.seed, c, &mut |json| {
            runs += 1;
            if runs > max_runs || t0.elapsed() > limit {
                return Shrink::Stop;
            }
            match run_forked(arm, json, scratch, o.tier, &known) {
                Err(Fail::Violation { sig: s, msg }) if s == sig => {
                    best_msg = msg;
                    Shrink::Fails
                }
                _ => Shrink::Passes,
            }
        })
    };
    let dir = o.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", o.prop, o.seed));
    let mut r = Replay {
        property: o.prop.clone(),
        arm: arm.name().into(),
        seed: o.seed,
        case: c,
        signature: sig.into(),
        message: best_msg.clone(),
        value: serde_json::from_str(&json).unwrap(),
        reproduced: String::new(),
    };
    let save = |r: &Replay| {
        if let Err(e) = std::fs::write(&path, serde_json::to_vec_pretty(r).unwrap()) {
            harness_error(&format!("replay file: {e}"));
        }
    };
    save(&r);
    // Confirm in a fresh process.
    let exe = std::env::current_exe().unwrap();
    let tries = if slow { 2 } else { 20 };
    let mut seen = 0;
    let mut n = 0;
    for _ in 0..tries {
        n += 1;
        let st = Command::new(&exe)
            .arg("--replay")
            .arg(&path)
            .env("VERIF_DIR", &o.verif)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        if matches!(st.map(|s| s.code()), Ok(Some(1))) {
            seen += 1;
            break;
        }
    }
    r.reproduced = format!("{seen} of {n} replays in fresh processes failed again");
    save(&r);
    eprintln!("arm {} case {c}: [{sig}] {best_msg}", arm.name());
    eprintln!("minimal case after {runs} shrink runs: {}", String::from_utf8_lossy(&json.as_bytes()[..json.len().min(1500)]));
    eprintln!("{}", r.reproduced);
    println!("VIOLATION property={} replay={}", o.prop, path.display());
    1
}

fn replay(o: &Opts, file: &Path) -> i32 {
    let text = std::fs::read(file).unwrap_or_else(|e| harness_error(&format!("{e}")));
    let r: Replay = serde_json::from_slice(&text).unwrap_or_else(|e| harness_error(&format!("{e}")));
    let prop = find_prop(&r.property);
    let arm = prop
        .arms
        .iter()
        .find(|a| a.name() == r.arm)
        .unwrap_or_else(|| harness_error("unknown arm"));
    let scratch = Scratch::new();
    if let Err(e) = map_shared(&scratch.0.join("shared"), true, 62) {
        harness_error(&format!("shared memory: {e}"));
    }
    let json = r.value.to_string();
    let known = BTreeSet::new();
    let attempts = if arm.schedule() { 200 } else { 1 };
    for _ in 0..attempts {
        match run_forked(&**arm, &json, &scratch.0, o.tier, &known) {
            Ok(()) => (),
            Err(Fail::Violation { sig, msg }) => {
                eprintln!("[{sig}] {msg}");
                println!("VIOLATION property={} replay={}", r.property, file.display());
                return 1;
            }
            Err(Fail::Harness(m)) => {
                eprintln!("rgcheck: {m}");
                return 2;
            }
        }
    }
    eprintln!("the case passes");
    0
}

fn evidence(o: &Opts, prop: &Prop, arms: &BTreeMap<String, ArmReport>, code: i32, wall: Duration) {
    let mut hashes = BTreeSet::new();
    let mut evaluations = 0;
    let mut samples = vec![];
    let mut per_arm = serde_json::Map::new();
    for (name, a) in arms {
        evaluations += a.cases;
        hashes.extend(a.hashes.iter().copied());
        for s in a.samples.iter().take(2) {
            samples.push(serde_json::json!({ "arm": name, "case": s }));
        }
        per_arm.insert(
            name.clone(),
            serde_json::json!({
                "cases": a.cases,
                "nontrivial": a.nontrivial,
                "distinct_nontrivial": a.hashes.iter().collect::<BTreeSet<_>>().len(),
                "distribution": a.labels,
                "known_findings_met": a.known,
            }),
        );
    }
    if samples.is_empty() {
        samples.push(serde_json::json!({ "note": "the run stopped before a non-trivial case was completed" }));
    }
    let v = serde_json::json!({
        "property": prop.id,
        "title": prop.title,
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": prop.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": prop.rule,
            "samples": samples,
            "arms": per_arm,
        },
        "assumptions": prop.assumptions,
        "wall_s": (wall.as_secs_f64() * 100.0).round() / 100.0,
        "violations": if code == 1 { 1 } else { 0 },
    });
    let dir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop.id)), serde_json::to_vec_pretty(&v).unwrap()) {
        harness_error(&format!("evidence: {e}"));
    }
}
