//! C18 many threads on shared handles.
use super::*;
use crate::props::faults::{store_spec, StoreSpec};
use crate::store::*;
use crate::sys::{self, Act, Plan};
use crate::{bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Do {
    Parse(u16),
    Stream(u16, u16),
    /// parse, keep, and look at it again at the end
    Keep(u16),
    Absent(u64),
    /// store one of the new objects (several threads may store the same one), then read it
    Write(u8),
    /// read one of the new objects, which may or may not be there
    Peek(u8),
    /// another handle on the repository
    Open(u8),
    /// time passes, so that the next miss looks for new packs
    Age,
    /// put one of the packs that are not there at first
    Publish(u8),
    ReadLate(u8, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crew {
    store: StoreSpec,
    late: Vec<PackSpec>,
    fresh: Vec<Obj>,
    threads: Vec<(u8, Vec<Do>, Pace)>,
    handles: u8,
    rounds: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pace {
    Free,
    /// yields and short sleeps around file operations
    Jitter(u64),
    /// long pauses before these calls
    Pause(Vec<u8>),
}

fn crew(max: u32, items: usize, threads: usize, ops: usize, pauses: bool) -> BoxedStrategy<Crew> {
    let op = prop_oneof![
        6 => any::<u16>().prop_map(Do::Parse),
        3 => (any::<u16>(), prop_oneof![Just(0u16), 1u16..5000]).prop_map(|(a, b)| Do::Stream(a, b)),
        1 => any::<u16>().prop_map(Do::Keep),
        1 => any::<u64>().prop_map(Do::Absent),
        2 => any::<u8>().prop_map(Do::Write),
        1 => any::<u8>().prop_map(Do::Peek),
        1 => any::<u8>().prop_map(Do::Open),
        1 => Just(Do::Age),
        1 => any::<u8>().prop_map(Do::Publish),
        1 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Do::ReadLate(a, b)),
    ];
    let pace = if pauses {
        prop_oneof![1 => Just(Pace::Free), 2 => vec(0u8..60, 1..4).prop_map(Pace::Pause)].boxed()
    } else {
        prop_oneof![1 => Just(Pace::Free), 3 => any::<u64>().prop_map(Pace::Jitter)].boxed()
    };
    let alike = proptest::bool::weighted(0.3);
    (
        store_spec(max, 1..3, items, 3),
        vec(pack_spec(obj(max), 3), 0..3),
        vec(obj(max), 1..4),
        vec((any::<u8>(), vec(op, 1..ops + 1), pace), 2..threads + 1),
        1u8..3,
        1u8..4,
        alike,
    )
        .prop_map(|(store, late, fresh, mut threads, handles, rounds, alike)| {
            if alike {
                // all threads do the same at the same time
                let ops = threads[0].1.clone();
                for t in threads.iter_mut() {
                    t.1 = ops.clone();
                }
            }
            Crew { store, late, fresh, threads, handles, rounds }
        })
        .boxed()
}

struct Scene {
    dir: std::path::PathBuf,
    git: std::path::PathBuf,
    all: Vec<(Made, bool, bool)>,
    late: Vec<(BuiltPack, AtomicBool, AtomicBool)>,
    fresh: Vec<Made>,
    written: Vec<AtomicBool>,
    reads: AtomicU64,
    writes: AtomicU64,
}

impl Scene {
    fn known(&self, id: &Oid) -> bool {
        self.all.iter().any(|m| m.0.id == *id) || self.fresh.iter().any(|m| m.id == *id) || self.late.iter().any(|p| p.0.made.iter().any(|m| m.id == *id))
    }
}

fn work(s: &Scene, handles: &[Arc<Repository>], first: u8, ops: &[Do], who: &str) -> Res {
    let mut mine = handles[first as usize % handles.len()].clone();
    let mut kept = vec![];
    for (i, op) in ops.iter().enumerate() {
        let what = format!("{who}, step {i}");
        let db = mine.object_database();
        match op {
            Do::Parse(k) => {
                expect_object(db, &s.all[*k as usize % s.all.len()].0, &what)?;
                s.reads.fetch_add(1, Relaxed);
            }
            Do::Stream(k, piece) => {
                let (m, loose, packed) = &s.all[*k as usize % s.all.len()];
                // a thread may write a loose copy
                let loose = *loose || s.fresh.iter().any(|f| f.id == m.id);
                expect_stream(db, m, *piece as usize, loose, *packed, &what)?;
                s.reads.fetch_add(1, Relaxed);
            }
            Do::Keep(k) => {
                let m = &s.all[*k as usize % s.all.len()].0;
                match guard("parse_object", || db.parse_object(id_of(&m.id)))? {
                    Ok(o) => kept.push((o, m)),
                    Err(e) => bad!("read-error", "{what}: reading stored {} failed: {}", hex(&m.id), err_text(&e)),
                }
            }
            Do::Absent(seed) => {
                let mut id = s.all[*seed as usize % s.all.len()].0.id;
                id[19] ^= 1 + (*seed >> 32) as u8 % 255;
                if !s.known(&id) {
                    match lookup(db, &id)? {
                        Got::NotFound => (),
                        o => bad!("phantom", "{what}: absent {} gave {o:?}", hex(&id)),
                    }
                }
            }
            Do::Write(k) => {
                let k = *k as usize % s.fresh.len();
                let m = &s.fresh[k];
                let id = expect_write(db, &framed(m.kind, &m.bytes), &what)?;
                ensure!(id == m.id, "wrong-write-id", "{what}: wrong id");
                s.written[k].store(true, SeqCst);
                s.writes.fetch_add(1, Relaxed);
                expect_object(db, m, &format!("{what}, after writing it"))?;
            }
            Do::Peek(k) => {
                let k = *k as usize % s.fresh.len();
                let m = &s.fresh[k];
                let was = s.written[k].load(SeqCst);
                match lookup(db, &m.id)? {
                    Got::Object(p) => expect_parsed(&format!("{what}: new object {}", hex(&m.id)), &p, &m.want)?,
                    Got::NotFound if !was => (),
                    o => bad!("fresh-lost", "{what}: new object {} (write finished: {was}) gave {o:?}", hex(&m.id)),
                }
            }
            Do::Open(h) => {
                mine = if h % 2 == 0 { Arc::new(open(&s.dir)?) } else { handles[*h as usize % handles.len()].clone() };
            }
            Do::Age => sys::advance_clock(2_000_000_000),
            Do::Publish(k) => {
                if s.late.is_empty() {
                    continue;
                }
                let (b, begun, there) = &s.late[*k as usize % s.late.len()];
                if b.made.is_empty() || begun.swap(true, SeqCst) {
                    continue;
                }
                let r: Res = sys::suspended(|| {
                    // complete before it can be seen, as git does it
                    let base = s.git.join("objects/pack").join(format!("pack-{}", hex(&b.pack.sum)));
                    for (e, f) in [("pack", &b.pack.bytes), ("idx", &b.idx)] {
                        let tmp = base.with_extension(format!("tmp_{e}"));
                        std::fs::write(&tmp, f)?;
                        std::fs::rename(&tmp, base.with_extension(e))?;
                    }
                    Ok(())
                });
                r?;
                sys::advance_clock(2_000_000_000);
                there.store(true, SeqCst);
            }
            Do::ReadLate(k, m) => {
                if s.late.is_empty() {
                    continue;
                }
                let (b, _, there) = &s.late[*k as usize % s.late.len()];
                if b.made.is_empty() {
                    continue;
                }
                let m = &b.made[*m as usize % b.made.len()];
                let was = there.load(SeqCst);
                match lookup(db, &m.id)? {
                    Got::Object(p) => expect_parsed(&format!("{what}: {} in a new pack", hex(&m.id)), &p, &m.want)?,
                    Got::NotFound if !was => (),
                    o => bad!("late-lost", "{what}: {} in a new pack (there for two seconds: {was}) gave {o:?}", hex(&m.id)),
                }
            }
        }
    }
    for (o, m) in kept {
        ensure!(oid_of(o.id()) == m.id, "wrong-id", "{who}: a kept object changed its id");
        expect_parsed(&format!("{who}: kept {}", hex(&m.id)), &observe(&o), &m.want)?;
    }
    Ok(())
}

fn run_crew(c: &Crew, ctx: &mut Ctx) -> Res {
    for round in 0..c.rounds {
        let dir = ctx.sub(&format!("repo{round}"))?;
        let w = c.store.put(&dir)?;
        let late: Vec<BuiltPack> = c.late.iter().map(|p| p.build()).collect();
        let fresh: Vec<Made> = c.fresh.iter().map(|o| o.made()).collect();
        let s = Arc::new(Scene {
            dir: dir.clone(),
            git: w.git.clone(),
            all: w.all.iter().map(|(m, l, p)| (m.clone(), *l, *p || late.iter().any(|b| b.made.iter().any(|x| x.id == m.id)))).collect(),
            late: late.into_iter().map(|b| (b, AtomicBool::new(false), AtomicBool::new(false))).collect(),
            written: fresh.iter().map(|m| AtomicBool::new(w.all.iter().any(|a| a.0.id == m.id))).collect(),
            fresh,
            reads: AtomicU64::new(0),
            writes: AtomicU64::new(0),
        });
        let mut handles = vec![];
        for _ in 0..c.handles.max(1) {
            handles.push(Arc::new(open(&dir)?));
        }
        let barrier = Arc::new(Barrier::new(c.threads.len()));
        let mut joins = vec![];
        for (t, (first, ops, pace)) in c.threads.iter().enumerate() {
            let (s, handles, barrier, ops, pace, first) = (s.clone(), handles.clone(), barrier.clone(), ops.clone(), pace.clone(), *first);
            let n = c.threads.len();
            joins.push(std::thread::spawn(move || -> Res {
                let plan = match pace {
                    Pace::Free => Plan::default(),
                    Pace::Jitter(seed) => Plan { jitter: Some(seed.wrapping_add(round as u64)), ..Plan::default() },
                    Pace::Pause(at) => {
                        let at: BTreeSet<u64> = at.iter().map(|a| *a as u64 + round as u64).collect();
                        let mut call = 0;
                        let cb = move || {
                            if at.contains(&call) {
                                std::thread::sleep(std::time::Duration::from_micros(1500));
                            }
                            call += 1;
                        };
                        Plan { reading: true, mutating: true, at: Some(0), persist: true, act: Act::Callback, callback: Some(Box::new(cb)), ..Plan::default() }
                    }
                };
                barrier.wait();
                let (r, _) = sys::with_plan(plan, || work(&s, &handles, first, &ops, &format!("thread {t} of {n}")));
                r
            }));
        }
        let mut first = Ok(());
        for j in joins {
            let r = j.join().map_err(|_| Fail::Harness("a thread of the harness panicked".into()))?;
            if first.is_ok() {
                first = r;
            }
        }
        first?;
        // ---- afterwards: everything is there, for the shared handles and for a fresh one
        sys::advance_clock(2_000_000_000);
        handles.push(Arc::new(open(&dir)?));
        for (h, r) in handles.iter().enumerate() {
            let db = r.object_database();
            for m in &s.all {
                expect_object(db, &m.0, &format!("afterwards, handle {h}"))?;
            }
            for (m, w) in s.fresh.iter().zip(&s.written) {
                if w.load(SeqCst) {
                    expect_object(db, m, &format!("afterwards, handle {h}, new object"))?;
                }
            }
            for (b, _, there) in &s.late {
                if there.load(SeqCst) {
                    for m in &b.made {
                        expect_object(db, m, &format!("afterwards, handle {h}, new pack"))?;
                    }
                }
            }
        }
        // ---- and the files written hold exactly the objects, with nothing left over
        for (m, wr) in s.fresh.iter().zip(&s.written) {
            let was_there = w.all.iter().any(|a| a.0.id == m.id);
            if wr.load(SeqCst) && !was_there {
                let f = std::fs::read(loose_path(&w.git, &m.id)).map_err(|e| Fail::Violation { sig: "no-file".into(), msg: format!("the loose file of {} cannot be read: {e}", hex(&m.id)) })?;
                ensure!(inflate(&f).as_deref() == Some(&framed(m.kind, &m.bytes)[..]), "wrong-file", "the loose file of {} does not hold the object", hex(&m.id));
            }
        }
        for e in std::fs::read_dir(w.git.join("objects"))? {
            let e = e?;
            if e.file_name().len() == 2 {
                for f in std::fs::read_dir(e.path())? {
                    let name = f?.file_name();
                    ensure!(name.len() == 38, "left-over", "the file {:?} was left in {:?}", name, e.file_name());
                }
            }
        }
        ctx.add("reads of stored objects", s.reads.load(SeqCst));
        ctx.add("writes", s.writes.load(SeqCst));
        if round == 0 {
            ctx.label(format!("{} threads", c.threads.len()));
            ctx.label_if(w.all.iter().any(|m| m.2), "packed objects");
            ctx.label_if(c.handles >= 2, "several handles");
        }
        ctx.nontrivial(s.reads.load(SeqCst) > 1 && w.all.iter().any(|m| m.2));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        title: "A shared handle gives every thread the right object",
        level: "exploration",
        rule: "a case is a repository (packs with deltas, loose objects) and two to eight threads that read, stream, write, open handles and add packs on shared handles, started together, with yields and sleeps around their file operations or long pauses at chosen ones; every result is compared with what is stored, and afterwards everything is read again; non-trivial: packed objects were read concurrently",
        assumptions: &["schedules are those of the machine's threads, varied by delays at the system-call boundary; they are sampled, not enumerated", "a process all of whose threads are asleep for 30 s is deadlocked"],
        arms: vec![
            sched_arm("jitter", 1500, 60_000, crew(400, 6, 8, 10, false), run_crew),
            sched_arm("pauses", 700, 25_000, crew(400, 6, 4, 8, true), run_crew),
            sched_arm("large", 120, 4000, crew(60_000, 6, 8, 12, false), run_crew),
        ],
    }
}
