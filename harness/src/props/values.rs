//! What operations hold on to (C24), and what becomes of their results (C25).
use super::faults::{store_spec, StoreSpec};
use super::refs::component;
use super::*;
use crate::store::*;
use crate::sys::{self, Act, Plan};
use crate::{alloc, bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use rusty_git::object::{ObjectData, ObjectDatabase, Signature};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::ffi::OsStr;
use std::io::IoSliceMut;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::PathBuf;

/// An open stream (its type has no public name).
struct Stream(Box<dyn FnMut(&mut dyn FnMut(&mut dyn Read)) + Send>);

impl Stream {
    fn open(db: &ObjectDatabase, id: &Oid) -> Res<Result<Stream, String>> {
        guard("read_object", || match db.read_object(id_of(id)) {
            Ok(mut r) => Ok(Stream(Box::new(move |f| f(r.reader())))),
            Err(e) => Err(err_text(&e)),
        })
    }

    fn with<T>(&mut self, mut f: impl FnMut(&mut dyn Read) -> T) -> T {
        let mut out = None;
        (self.0)(&mut |r| out = Some(f(r)));
        out.unwrap()
    }

    fn read(&mut self, buf: &mut [u8]) -> Res<Result<usize, String>> {
        guard("read", || self.with(|r| r.read(buf).map_err(|e| err_text(&e))))
    }
}

// ---------------------------------------------------------------- C24

/// This process's open files below `dir`.
fn open_below(dir: &Path) -> Res<Vec<String>> {
    let mut out = vec![];
    for e in std::fs::read_dir("/proc/self/fd")? {
        if let Ok(to) = std::fs::read_link(e?.path()) {
            let to = to.into_os_string().into_vec();
            if to.starts_with(dir.as_os_str().as_bytes()) {
                out.push(String::from_utf8_lossy(&to[dir.as_os_str().len()..]).into_owned());
            }
        }
    }
    out.sort();
    Ok(out)
}

fn threads() -> Res<usize> {
    Ok(std::fs::read_dir("/proc/self/task")?.count())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Use {
    Parse(u8),
    Absent(Oid),
    /// open a stream and keep it
    Open(u8),
    /// read some of an open stream
    Pull(u8, u16),
    /// drop a stream, wherever it is
    Close(u8),
    Write(u8),
    FailingWrite { what: u8, at: u8, how: u8 },
    /// a lookup during which some call fails
    FailingRead { what: u8, at: u8, stream: bool },
    /// a listing or resolution during which some call fails
    FailingRefs { which: u8, at: u8 },
    Refs(u8),
    RefReader(u8),
    AddPack(u8),
    DelPack(u8),
    Damage(u8, u8),
    Wait,
    Open2,
    DropHandle,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Usage {
    loose: Vec<Obj>,
    fresh: Vec<Obj>,
    packs: Vec<PackSpec>,
    /// how many of the packs are there at the start
    at_first: u8,
    names: Vec<Vec<u8>>,
    steps: Vec<Use>,
}

fn usage(max: u32, steps: usize) -> BoxedStrategy<Usage> {
    let step = prop_oneof![
        4 => any::<u8>().prop_map(Use::Parse),
        2 => oid().prop_map(Use::Absent),
        4 => any::<u8>().prop_map(Use::Open),
        2 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Use::Pull(a, b)),
        2 => any::<u8>().prop_map(Use::Close),
        2 => any::<u8>().prop_map(Use::Write),
        2 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(what, at, how)| Use::FailingWrite { what, at, how }),
        2 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(what, at, stream)| Use::FailingRead { what, at, stream }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(which, at)| Use::FailingRefs { which, at }),
        2 => any::<u8>().prop_map(Use::Refs),
        1 => any::<u8>().prop_map(Use::RefReader),
        2 => any::<u8>().prop_map(Use::AddPack),
        1 => any::<u8>().prop_map(Use::DelPack),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Use::Damage(a, b)),
        2 => Just(Use::Wait),
        1 => Just(Use::Open2),
        1 => Just(Use::DropHandle),
    ];
    (
        vec(obj(max), 1..4),
        vec(obj(max), 1..3),
        vec(pack_spec(obj(max), 4), 0..4),
        any::<u8>(),
        vec(component(), 0..3),
        vec(step, 2..steps),
    )
        .prop_map(|(loose, fresh, packs, at_first, names, steps)| Usage { loose, fresh, packs, at_first, names, steps })
        .boxed()
}

/// One repository, the packs that may come and go, and everything in them.
struct Place {
    dir: PathBuf,
    git: PathBuf,
    packs: Vec<BuiltPack>,
    objs: Vec<Made>,
    refs: Vec<Vec<u8>>,
}

fn place(u: &Usage, ctx: &mut Ctx, sub: &str) -> Res<Place> {
    let dir = ctx.sub(sub)?.canonicalize()?;
    let git = init_repo(&dir)?;
    let mut objs: Vec<Made> = u.loose.iter().map(|o| o.made()).collect();
    for (i, m) in objs.iter().enumerate() {
        put_loose(&git, m, (i % 10) as u8)?;
    }
    let packs: Vec<BuiltPack> = u.packs.iter().map(|p| p.build()).collect();
    for (i, p) in packs.iter().enumerate() {
        objs.extend(p.made.iter().cloned());
        if i < u.at_first as usize % 5 {
            p.put(&git)?;
        }
    }
    let mut refs = vec![];
    for (i, n) in u.names.iter().enumerate() {
        let name = [format!("refs/{}/r{i}-", ["heads", "tags", "remotes/o"][i % 3]).as_bytes(), n].concat();
        let p = git.join(OsStr::from_bytes(&name));
        std::fs::create_dir_all(p.parent().unwrap())?;
        let body = if i == 1 { "ref: refs/heads/none\n".to_string() } else { format!("{}\n", hex(&objs[i % objs.len()].id)) };
        std::fs::write(p, body)?;
        refs.push(name);
    }
    objs.extend(u.fresh.iter().map(|o| o.made()));
    Ok(Place { dir, git, packs, objs, refs })
}

fn pack_base(git: &Path, p: &BuiltPack) -> PathBuf {
    git.join("objects/pack").join(format!("pack-{}", hex(&p.pack.sum)))
}

struct Handle {
    repo: Repository,
    /// packs that were in place at some time while the handle was open
    seen: BTreeSet<PathBuf>,
}

fn packs_in_place(git: &Path) -> Res<BTreeSet<PathBuf>> {
    let mut out = BTreeSet::new();
    for e in std::fs::read_dir(git.join("objects/pack"))? {
        let p = e?.path();
        if p.extension() == Some(OsStr::new("idx")) {
            out.insert(p);
        }
    }
    Ok(out)
}

fn run_usage(u: &Usage, ctx: &mut Ctx) -> Res {
    let p = place(u, ctx, "repo")?;
    let before = threads()?;
    let mut handles = vec![Handle { repo: open(&p.dir)?, seen: packs_in_place(&p.git)? }];
    let mut streams: Vec<Stream> = vec![];
    let mut ref_readers: Vec<Box<dyn Read>> = vec![];
    let (mut most, mut failures) = (0, 0u64);
    for (k, step) in u.steps.iter().enumerate() {
        let at = format!("step {k} ({step:?})");
        let n = p.objs.len();
        if handles.is_empty() {
            handles.push(Handle { repo: open(&p.dir)?, seen: packs_in_place(&p.git)? });
        }
        let h = k % handles.len();
        let repo = &handles[h].repo;
        let db = repo.object_database();
        let rdb = repo.reference_database();
        match step {
            Use::Parse(i) => {
                lookup(db, &p.objs[*i as usize % n].id)?;
            }
            Use::Absent(id) => {
                lookup(db, id)?;
                stream(db, id, 0)?;
            }
            Use::Open(i) => {
                if let Ok(s) = Stream::open(db, &p.objs[*i as usize % n].id)? {
                    streams.push(s);
                }
            }
            Use::Pull(i, len) => {
                if !streams.is_empty() {
                    let s = *i as usize % streams.len();
                    let mut buf = vec![0; *len as usize];
                    let _ = streams[s].read(&mut buf)?;
                }
            }
            Use::Close(i) => {
                if !streams.is_empty() {
                    let s = *i as usize % streams.len();
                    drop(streams.swap_remove(s));
                } else {
                    ref_readers.clear();
                }
            }
            Use::Write(i) => {
                let m = &p.objs[*i as usize % n];
                let _ = write(db, &framed(m.kind, &m.bytes))?;
            }
            Use::FailingWrite { what, at, how } => {
                let m = &p.objs[*what as usize % n];
                let e = [libc::EIO, libc::ENOSPC][*how as usize / 2 % 2];
                let act = if how % 2 == 0 { Act::Fail(e) } else { Act::ShortThenFail(e) };
                let plan = Plan { mutating: true, at: Some(*at as u64 % 9), act, ..Plan::default() };
                let (r, _) = sys::with_plan(plan, || write(db, &framed(m.kind, &m.bytes)));
                failures += r?.is_err() as u64;
            }
            Use::FailingRead { what, at, stream: s } => {
                let id = p.objs[*what as usize % n].id;
                let plan = Plan { reading: true, at: Some(*at as u64 % 24), act: Act::Fail(libc::EIO), ..Plan::default() };
                let (r, plan) = sys::with_plan(plan, || if *s { stream(db, &id, 0).map(|_| ()) } else { lookup(db, &id).map(|_| ()) });
                r?;
                failures += plan.fired as u64;
            }
            Use::FailingRefs { which, at } => {
                let plan = Plan { reading: true, at: Some(*at as u64 % 16), act: Act::Fail(libc::EIO), ..Plan::default() };
                let (r, plan) = sys::with_plan(plan, || use_refs(repo, &p, *which));
                r?;
                failures += plan.fired as u64;
            }
            Use::Refs(which) => use_refs(repo, &p, *which)?,
            Use::RefReader(i) => {
                let r: Option<Box<dyn Read>> = match p.refs.get(*i as usize % (p.refs.len() + 1)) {
                    Some(n) => guard("read_reference_file", || rdb.read_reference_file(n).ok().map(|r| Box::new(r) as Box<dyn Read>))?,
                    None => guard("read_head", || rdb.read_head().ok().map(|r| Box::new(r) as Box<dyn Read>))?,
                };
                ref_readers.extend(r);
            }
            Use::AddPack(i) if !p.packs.is_empty() => {
                let b = &p.packs[*i as usize % p.packs.len()];
                if !pack_base(&p.git, b).with_extension("idx").exists() {
                    b.put(&p.git)?;
                }
            }
            Use::DelPack(i) if !p.packs.is_empty() => {
                let base = pack_base(&p.git, &p.packs[*i as usize % p.packs.len()]);
                let _ = std::fs::remove_file(base.with_extension("idx"));
                let _ = std::fs::remove_file(base.with_extension("pack"));
            }
            Use::Damage(i, how) if !p.packs.is_empty() => {
                let base = pack_base(&p.git, &p.packs[*i as usize % p.packs.len()]);
                let f = base.with_extension(if how & 1 == 0 { "idx" } else { "pack" });
                if let Ok(b) = std::fs::read(&f) {
                    // a new file: open handles keep the old one
                    std::fs::remove_file(&f)?;
                    std::fs::write(&f, &b[..b.len() * (*how as usize) / 256])?;
                    ctx.label("damaged pack");
                }
            }
            Use::AddPack(_) | Use::DelPack(_) | Use::Damage(..) => (),
            Use::Wait => sys::advance_clock(2_100_000_000),
            Use::Open2 => {
                if handles.len() < 3 {
                    handles.push(Handle { repo: open(&p.dir)?, seen: BTreeSet::new() });
                }
            }
            Use::DropHandle => {
                let h = handles.swap_remove(h);
                drop(h.repo);
            }
        }
        let now = packs_in_place(&p.git)?;
        for h in &mut handles {
            h.seen.extend(now.iter().cloned());
        }
        let open = open_below(&p.dir)?;
        most = most.max(open.len());
        let allowed = handles.iter().map(|h| h.seen.len()).sum::<usize>() + streams.len() + ref_readers.len();
        ensure!(
            open.len() <= allowed,
            "files-held",
            "after {at} {} files are held open, with {} handles that know at most {} packs, and {} streams: {}",
            open.len(),
            handles.len(),
            handles.iter().map(|h| h.seen.len()).sum::<usize>(),
            streams.len() + ref_readers.len(),
            open.join(" ")
        );
        if handles.iter().all(|h| h.seen.is_empty()) {
            ctx.label("no pack known");
        }
    }
    ctx.add("most files open at once", most as u64);
    ctx.add("failed operations", failures);
    ctx.label_if(streams.iter().len() > 1, "several open streams");
    // In either order
    if u.at_first & 16 == 0 {
        drop(handles);
        drop(streams);
        drop(ref_readers);
    } else {
        drop(ref_readers);
        drop(streams);
        let open = open_below(&p.dir)?;
        let known: usize = handles.iter().map(|h| h.seen.len()).sum();
        ensure!(open.len() <= known, "files-held", "with all streams closed, {} files are held open by handles that know at most {known} packs: {}", open.len(), open.join(" "));
        drop(handles);
    }
    let open = open_below(&p.dir)?;
    ensure!(open.is_empty(), "files-leaked", "after everything was closed {} files are still open: {}", open.len(), open.join(" "));
    let after = threads()?;
    ensure!(after <= before, "threads-left", "{after} threads are running after everything was closed, {before} before");
    ctx.nontrivial(most > 0 && (failures > 0 || u.steps.len() > 8));
    Ok(())
}

fn use_refs(repo: &Repository, p: &Place, which: u8) -> Res {
    let rdb = repo.reference_database();
    guard("references", || {
        match which % 7 {
            0 => drop(rdb.reference_names()),
            1 => drop(rdb.head_reference_names()),
            2 => drop(rdb.tag_reference_names()),
            3 => drop(rdb.remote_reference_names()),
            4 => drop(rdb.head().and_then(|r| r.peel(repo).map(|_| ()))),
            5 => drop(rdb.reference(b"refs/heads/none/at all").map(|_| ())),
            _ => {
                if let Some(n) = p.refs.get(which as usize / 7 % p.refs.len().max(1)) {
                    drop(rdb.reference(n).and_then(|r| r.peel(repo).map(|_| ())))
                }
            }
        };
    })
}

/// The same round of work again and again must not need more and more memory.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rounds {
    usage: Usage,
    /// a new handle each round
    reopen: bool,
    /// damage: (file, where, how)
    damage: Vec<(u8, u16, u8)>,
}

fn rounds() -> BoxedStrategy<Rounds> {
    (usage(2000, 10), any::<bool>(), prop_oneof![2 => Just(vec![]), 1 => vec((any::<u8>(), any::<u16>(), any::<u8>()), 1..3)])
        .prop_map(|(usage, reopen, damage)| Rounds { usage, reopen, damage })
        .boxed()
}

fn run_rounds(r: &Rounds, ctx: &mut Ctx) -> Res {
    let u = &r.usage;
    let p = place(u, ctx, "repo")?;
    let mut files: Vec<PathBuf> = super::repo::snapshot(&p.git.join("objects"))?
        .into_iter()
        .filter(|(_, s)| s.kind == 'f')
        .map(|(f, _)| p.git.join("objects").join(f))
        .collect();
    files.sort();
    for (which, at, how) in &r.damage {
        let f = &files[*which as usize % files.len()];
        let mut b = std::fs::read(f)?;
        if how % 2 == 0 && !b.is_empty() {
            let k = *at as usize % b.len();
            b[k] ^= how | 1;
        } else {
            b.truncate(*at as usize % (b.len() + 1));
        }
        std::fs::write(f, b)?;
    }
    let round = |repo: &Repository| -> Res {
        let db = repo.object_database();
        let n = p.objs.len();
        for step in &u.steps {
            match step {
                Use::Absent(id) => drop(lookup(db, id)?),
                Use::Parse(i) | Use::Close(i) | Use::AddPack(i) => drop(lookup(db, &p.objs[*i as usize % n].id)?),
                Use::Open(i) | Use::Pull(i, _) => {
                    if let Ok(mut s) = Stream::open(db, &p.objs[*i as usize % n].id)? {
                        if let Use::Pull(_, len) = step {
                            let mut buf = vec![0; *len as usize];
                            let _ = s.read(&mut buf)?;
                        }
                    }
                }
                Use::Write(i) | Use::DelPack(i) | Use::Damage(i, _) => {
                    let m = &p.objs[*i as usize % n];
                    let _ = write(db, &framed(m.kind, &m.bytes))?;
                }
                Use::FailingWrite { what, at, how } => {
                    let m = &p.objs[*what as usize % n];
                    let act = if how % 2 == 0 { Act::Fail(libc::EIO) } else { Act::ShortThenFail(libc::ENOSPC) };
                    let plan = Plan { mutating: true, at: Some(*at as u64 % 9), act, ..Plan::default() };
                    let _ = sys::with_plan(plan, || write(db, &framed(m.kind, &m.bytes))).0?;
                }
                Use::FailingRead { what, at, .. } => {
                    let id = p.objs[*what as usize % n].id;
                    let plan = Plan { reading: true, at: Some(*at as u64 % 24), act: Act::Fail(libc::EIO), ..Plan::default() };
                    drop(sys::with_plan(plan, || lookup(db, &id)).0?);
                }
                Use::Refs(w) | Use::RefReader(w) | Use::FailingRefs { which: w, .. } => use_refs(repo, &p, *w)?,
                Use::Wait | Use::Open2 | Use::DropHandle => sys::advance_clock(2_100_000_000),
            }
        }
        Ok(())
    };
    let kept = open(&p.dir)?;
    const WARM: usize = 4;
    const MEASURED: usize = 8;
    let mut live = [0usize; WARM + MEASURED];
    for k in 0..WARM + MEASURED {
        if r.reopen {
            let repo = open(&p.dir)?;
            round(&repo)?;
        } else {
            round(&kept)?;
        }
        sys::advance_clock(2_100_000_000);
        live[k] = alloc::live();
    }
    let grew = live.windows(2).skip(WARM - 1).all(|w| w[1] > w[0]);
    let growth = live[WARM + MEASURED - 1].wrapping_sub(live[WARM - 1]) / MEASURED;
    ensure!(
        !grew,
        "memory-grows",
        "each repetition of the same {} operations {} keeps {growth} more bytes of memory in use ({} rounds measured)",
        u.steps.len(),
        if r.reopen { "on a new handle" } else { "on one handle" },
        MEASURED
    );
    ctx.add("rounds", (WARM + MEASURED) as u64);
    ctx.label_if(r.reopen, "new handle each round");
    ctx.label_if(!r.damage.is_empty(), "damaged storage");
    ctx.nontrivial(true);
    Ok(())
}

/// Few operations, very often: not even a few bytes each may stay.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Often {
    store: StoreSpec,
    /// which operations, in turn
    ops: Vec<(u8, u16)>,
    /// time passes before every n-th (0: never)
    tick: u8,
    times: u16,
}

fn often() -> BoxedStrategy<Often> {
    (store_spec(200, 0..3, 4, 3), vec((any::<u8>(), any::<u16>()), 1..3), 0u8..3, 600u16..1200)
        .prop_map(|(store, ops, tick, times)| Often { store, ops, tick, times })
        .boxed()
}

fn run_often(c: &Often, ctx: &mut Ctx) -> Res {
    let w = c.store.put(&ctx.sub("repo")?)?;
    let repo = open(&w.dir)?;
    let db = repo.object_database();
    let mut k = 0usize;
    let mut once = || -> Res {
        let (op, x) = c.ops[k % c.ops.len()];
        if c.tick > 0 && k % c.tick as usize == 0 {
            sys::advance_clock(2_100_000_000);
        }
        let m = &w.all[x as usize % w.all.len()].0;
        // some operations on ever new names, some always on the same
        let fresh = if op & 1 == 0 { k as u64 } else { 0 };
        match op / 2 % 7 {
            0 | 1 => drop(lookup(db, &w.absent(fresh * 2 + 1))?),
            2 => drop(lookup(db, &m.id)?),
            3 => drop(Stream::open(db, &m.id)?),
            4 => {
                let name = format!("refs/heads/none-{fresh}");
                let _ = guard("a missing reference", || repo.reference_database().reference(name.as_bytes()).map(|_| ()).map_err(|e| e.to_string()))?;
            }
            5 => drop(guard("HEAD", || repo.reference_database().head().ok().map(|h| h.peel(&repo).map(|_| ()).map_err(|e| e.to_string())))?),
            _ => drop(guard("listing", || repo.reference_database().reference_names().map(|l| l.len()).map_err(|e| e.to_string()))?),
        }
        k += 1;
        Ok(())
    };
    // what is kept to a bound (a table doubled now and then) levels off
    const PARTS: usize = 4;
    let mut live = [0usize; PARTS + 1];
    for l in live.iter_mut() {
        for _ in 0..c.times as usize {
            once()?;
        }
        *l = alloc::live();
    }
    let growth = live[PARTS].saturating_sub(live[0]);
    let calls = PARTS * c.times as usize;
    ensure!(
        growth < calls / 2,
        "memory-grows",
        "{calls} further repetitions of {:?} on one handle left {growth} more bytes of memory in use ({live:?})",
        c.ops
    );
    ctx.add("repetitions", (calls + c.times as usize) as u64);
    ctx.label_if(c.tick > 0, "time passes");
    ctx.nontrivial(true);
    Ok(())
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        title: "Nothing stays open or allocated once what needed it is gone",
        level: "exploration",
        rule: "a case of 'held' is a history of lookups, streams left open or dropped part-way, writes, listings and resolutions, some failing at a chosen system call, over up to three handles while packs appear, disappear and are damaged and time passes; after each step the files this process holds open in the repository are listed and compared with one per open stream and one per pack each handle can know, and none may remain at the end; a case of 'rounds' repeats the same operations twelve times and compares the bytes allocated; a case of 'often' repeats one or two cheap operations thousands of times and wants fewer than half a byte for each; non-trivial: files were held and an operation failed or there were many steps",
        assumptions: &["what a handle remembers of packs it read (content of their objects) is not counted against it"],
        arms: vec![
            sched_arm("held", 6000, 200_000, usage(3000, 16), run_usage),
            sched_arm("held-large", 300, 10_000, usage(100_000, 12), run_usage),
            sched_arm("rounds", 1500, 50_000, rounds(), run_rounds),
            sched_arm("often", 150, 4000, often(), run_often),
        ],
    }
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act2 {
    /// keep a parsed object
    Parse(u8),
    /// keep a copy of a kept object
    Copy(u8),
    /// keep a stream
    Open(u8),
    /// one read of up to this many bytes
    Read(u8, u16),
    /// finish a stream, by some method
    Finish(u8, u8),
    /// read past the end
    Beyond(u8),
    /// ask a kept object questions, in some order
    Ask(u8, u64),
    /// ... on another thread
    AskElsewhere(u8, u64),
    /// finish a stream on another thread
    FinishElsewhere(u8),
    /// a lookup in between
    Lookup(u8),
    Write(u8),
    DropValue(u8),
    DropHandle,
    Reopen,
    DelLoose(u8),
    DelPack(u8),
    /// put another file in the place of a loose object or pack
    Replace(u8),
    DelEverything,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lives {
    loose: Vec<Obj>,
    packs: Vec<PackSpec>,
    acts: Vec<Act2>,
}

fn lives(max: u32, acts: usize) -> BoxedStrategy<Lives> {
    let a = prop_oneof![
        5 => any::<u8>().prop_map(Act2::Parse),
        1 => any::<u8>().prop_map(Act2::Copy),
        6 => any::<u8>().prop_map(Act2::Open),
        8 => (any::<u8>(), prop_oneof![1 => Just(0u16), 3 => 1u16..60, 3 => any::<u16>()]).prop_map(|(a, b)| Act2::Read(a, b)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Act2::Finish(a, b)),
        1 => any::<u8>().prop_map(Act2::Beyond),
        4 => (any::<u8>(), any::<u64>()).prop_map(|(a, b)| Act2::Ask(a, b)),
        1 => (any::<u8>(), any::<u64>()).prop_map(|(a, b)| Act2::AskElsewhere(a, b)),
        1 => any::<u8>().prop_map(Act2::FinishElsewhere),
        2 => any::<u8>().prop_map(Act2::Lookup),
        1 => any::<u8>().prop_map(Act2::Write),
        1 => any::<u8>().prop_map(Act2::DropValue),
        1 => Just(Act2::DropHandle),
        1 => Just(Act2::Reopen),
        2 => any::<u8>().prop_map(Act2::DelLoose),
        1 => any::<u8>().prop_map(Act2::DelPack),
        2 => any::<u8>().prop_map(Act2::Replace),
        1 => Just(Act2::DelEverything),
    ];
    (vec(obj(max), 1..4), vec(pack_spec(obj(max), 5), 0..3), vec(a, 3..acts))
        .prop_map(|(loose, packs, acts)| Lives { loose, packs, acts })
        .boxed()
}

struct Live {
    what: usize,
    stream: Stream,
    /// what it may be: with and without the header
    forms: Vec<Vec<u8>>,
    pos: usize,
    ended: bool,
}

impl Live {
    fn took(&mut self, got: &[u8], end: bool, at: &str, m: &Made) -> Res {
        self.forms.retain(|f| f[self.pos..].starts_with(got) && (!end || f.len() == self.pos + got.len()));
        if self.forms.is_empty() {
            bad!(
                "wrong-stream",
                "{at}: a stream of {} {} ({} bytes) gave {}{} at position {}",
                m.kind.name(),
                hex(&m.id),
                m.bytes.len(),
                show(got),
                if end { " and ended" } else { "" },
                self.pos
            );
        }
        self.pos += got.len();
        self.ended |= end;
        // once it differs from the other form it is known which
        Ok(())
    }

    fn finish(&mut self, how: u8) -> std::io::Result<Vec<u8>> {
        let want = (self.forms.len() == 1).then(|| self.forms[0].len() - self.pos);
        self.stream.with(|r| drain(r, how, want))
    }
}

/// The rest of a stream (of which `want` bytes are expected, if known).
fn drain(mut r: &mut dyn Read, how: u8, want: Option<usize>) -> std::io::Result<Vec<u8>> {
        let mut v = vec![];
        match how % 6 {
            0 => {
                r.read_to_end(&mut v)?;
            }
            1 => {
                for b in r.bytes() {
                    v.push(b?);
                }
            }
            2 => {
                std::io::copy(&mut r, &mut v)?;
            }
            3 => {
                // read_exact of what is left, then the end
                if let Some(want) = want {
                    v.resize(want, 0);
                    r.read_exact(&mut v)?;
                }
                r.read_to_end(&mut v)?;
            }
            4 => loop {
                // two buffers at a time
                let (mut a, mut b) = ([0u8; 37], [0u8; 91]);
                let n = r.read_vectored(&mut [IoSliceMut::new(&mut a), IoSliceMut::new(&mut b)])?;
                if n == 0 {
                    break;
                }
                v.extend_from_slice(&a[..n.min(37)]);
                v.extend_from_slice(&b[..n.saturating_sub(37)]);
            },
            _ => {
                let n = (&mut r).take(100).read_to_end(&mut v)?;
                if n == 100 {
                    r.read_to_end(&mut v)?;
                }
            }
        }
        Ok(v)
}

fn ask_sig(s: &Signature, want: &Sig, x: &mut u64) -> Option<String> {
    for _ in 0..4 {
        let ok = match splitmix(x) % 5 {
            0 => s.name() == &want.name[..],
            1 => s.email() == &want.email[..],
            2 => s.timestamp().map(|b| b.to_vec()) == want.time,
            3 => s.timezone().map(|b| b.to_vec()) == want.zone,
            _ => {
                let _ = format!("{s:?}");
                true
            }
        };
        if !ok {
            return Some(format!("signature {s:?}"));
        }
    }
    None
}

/// An iterator over known items, driven in some way.
fn ask_iter<I: ExactSizeIterator<Item = T>, T: PartialEq + std::fmt::Debug>(mut it: I, want: &[T], x: &mut u64, what: &str) -> Option<String> {
    let mut k = 0;
    for _ in 0..8 {
        let left = want.len().saturating_sub(k);
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            return Some(format!("{what}: after {k} of {} the iterator says {} remain ({:?})", want.len(), it.len(), it.size_hint()));
        }
        match splitmix(x) % 6 {
            0..=2 => {
                let g = it.next();
                if g.as_ref() != want.get(k) {
                    return Some(format!("{what}: item {k} is {g:?} instead of {:?}", want.get(k)));
                }
                k = (k + 1).min(want.len());
            }
            3 => {
                let j = splitmix(x) as usize % (left + 2);
                let g = it.nth(j);
                if g.as_ref() != want.get(k + j) {
                    return Some(format!("{what}: nth({j}) from {k} is {g:?} instead of {:?}", want.get(k + j)));
                }
                k = (k + j + 1).min(want.len());
            }
            4 => {
                let rest: Vec<T> = it.collect();
                if rest[..] != want[k..] {
                    return Some(format!("{what}: the {} items from {k} are {} others", left, rest.len()));
                }
                return None;
            }
            _ => {
                let n = splitmix(x) % 3;
                let g = match n {
                    0 => it.count() == left,
                    1 => it.last().as_ref() == want[k..].last(),
                    _ => it.fold(k, |i, g| if i != usize::MAX && want.get(i) == Some(&g) { i + 1 } else { usize::MAX }) == want.len(),
                };
                return if g { None } else { Some(format!("{what}: from {k}, {} is wrong", ["count", "last", "fold"][n as usize])) };
            }
        }
    }
    None
}

/// Questions to a decoded object in an order chosen by `x`.
fn ask(o: &Object, m: &Made, mut x: u64) -> Option<String> {
    let x = &mut x;
    for _ in 0..8 {
        if splitmix(x) % 6 == 0 {
            if oid_of(o.id()) != m.id {
                return Some(format!("id {}", o.id()));
            }
            let (a, b) = (format!("{o:?}"), format!("{:?}", o.clone()));
            if a != b {
                return Some("Debug of a clone differs".into());
            }
            continue;
        }
        let wrong = match (o.data(), &m.want) {
            (ObjectData::Blob(b), Parsed::Blob(w)) => (b.data() != &w[..]).then(|| format!("blob data {}", show(b.data()))),
            (ObjectData::Tree(t), Parsed::Tree(w)) => {
                let want: Vec<(u16, Vec<u8>, Oid)> = w.clone();
                ask_iter(t.entries().map(|e| (e.mode(), e.filename().to_vec(), oid_of(&e.id()))), &want, x, "entries")
            }
            (ObjectData::Commit(c), Parsed::Commit { tree, parents, author, committer, encoding, message }) => match splitmix(x) % 6 {
                0 => (oid_of(&c.tree()) != *tree).then(|| format!("tree {}", c.tree())),
                1 => ask_iter(c.parents().map(|p| oid_of(&p)), parents, x, "parents"),
                2 => ask_sig(&c.author(), author, x),
                3 => ask_sig(&c.committer(), committer, x),
                4 => (c.encoding().map(|b| b.to_vec()) != *encoding).then(|| "encoding".into()),
                _ => (c.message() != &message[..]).then(|| format!("message {}", show(c.message()))),
            },
            (ObjectData::Tag(t), Parsed::Tag { object, kind, name, tagger, message }) => match splitmix(x) % 5 {
                0 => (oid_of(&t.object()) != *object).then(|| format!("object {}", t.object())),
                1 => (Kind::of(t.kind()) != *kind).then(|| "kind".into()),
                2 => (t.tag() != &name[..]).then(|| format!("name {}", show(t.tag()))),
                3 => match (t.tagger(), tagger) {
                    (None, None) => None,
                    (Some(s), Some(w)) => ask_sig(&s, w, x),
                    _ => Some("tagger".into()),
                },
                _ => (t.message().map(|b| b.to_vec()) != *message).then(|| "message".into()),
            },
            (d, w) => Some(format!("{d:?} instead of {w:?}")),
        };
        if wrong.is_some() {
            return wrong;
        }
    }
    None
}

fn run_lives(l: &Lives, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let git = init_repo(&dir)?;
    let mut objs: Vec<Made> = l.loose.iter().map(|o| o.made()).collect();
    let loose = objs.len();
    for (i, m) in objs.iter().enumerate() {
        put_loose(&git, m, (i * 3 % 10) as u8)?;
    }
    let packs: Vec<BuiltPack> = l.packs.iter().map(|p| p.build()).collect();
    for p in &packs {
        p.put(&git)?;
        objs.extend(p.made.iter().cloned());
    }
    let n = objs.len();
    let mut handle = Some(open(&dir)?);
    let mut values: Vec<(usize, Object)> = vec![];
    let mut lives: Vec<Live> = vec![];
    let (mut removed, mut damaged) = (false, false);
    let (mut asked_after, mut read_after, mut most) = (0u64, 0u64, 0);
    for (k, act) in l.acts.iter().enumerate() {
        let at = format!("step {k} ({act:?})");
        // Removing everything takes the directory itself: open only while it is there.
        if handle.is_none() && git.is_dir() {
            handle = Some(open(&dir)?);
        }
        match act {
            Act2::Parse(i) => {
                let i = *i as usize % n;
                let Some(repo) = &handle else { continue };
                let r = guard("parse_object", || repo.object_database().parse_object(id_of(&objs[i].id)).map_err(|e| err_text(&e)))?;
                match r {
                    Ok(o) => {
                        let p = guard("reading an object", || observe(&o))?;
                        expect_parsed(&at, &p, &objs[i].want)?;
                        values.push((i, o));
                    }
                    Err(e) => ensure!(removed, "read-error", "{at}: reading {} failed: {e}", hex(&objs[i].id)),
                }
            }
            Act2::Copy(i) => {
                if !values.is_empty() {
                    let (w, o) = &values[*i as usize % values.len()];
                    let c = (*w, guard("clone", || o.clone())?);
                    values.push(c);
                }
            }
            Act2::Open(i) => {
                let i = *i as usize % n;
                let Some(repo) = &handle else { continue };
                match Stream::open(repo.object_database(), &objs[i].id)? {
                    // (what is read from a damaged file is not judged here)
                    Ok(_) if damaged => (),
                    Ok(stream) => {
                        let m = &objs[i];
                        lives.push(Live { what: i, stream, forms: vec![m.bytes.clone(), framed(m.kind, &m.bytes)], pos: 0, ended: false });
                        most = most.max(lives.len());
                    }
                    Err(e) => ensure!(removed, "read-error", "{at}: reading {} failed: {e}", hex(&objs[i].id)),
                }
            }
            Act2::Read(i, len) if !lives.is_empty() => {
                let j = *i as usize % lives.len();
                let mut buf = vec![0xEE; *len as usize];
                let r = lives[j].stream.read(&mut buf)?;
                match r {
                    Ok(g) => {
                        ensure!(g <= buf.len(), "wrong-stream", "{at}: a read into {} bytes returned {g}", buf.len());
                        ensure!(buf[g..].iter().all(|b| *b == 0xEE) || g < buf.len(), "wrong-stream", "{at}: more was read than returned");
                        let what = lives[j].what;
                        let end = g == 0 && *len > 0;
                        lives[j].took(&buf[..g], end, &at, &objs[what])?;
                        read_after += removed as u64;
                    }
                    Err(e) => bad!("stream-error", "{at}: reading an open stream of {} failed: {e}", hex(&objs[lives[j].what].id)),
                }
            }
            Act2::Finish(i, _) | Act2::FinishElsewhere(i) if !lives.is_empty() => {
                let j = *i as usize % lives.len();
                let what = lives[j].what;
                let how = if let Act2::Finish(_, h) = act { *h } else { 0 };
                let elsewhere = matches!(act, Act2::FinishElsewhere(_));
                let live = &mut lives[j];
                let r = guard("reading to the end", || {
                    if elsewhere {
                        std::thread::scope(|s| s.spawn(|| live.finish(how)).join().unwrap_or_else(|p| std::panic::resume_unwind(p)))
                    } else {
                        live.finish(how)
                    }
                    .map_err(|e| err_text(&e))
                })?;
                match r {
                    Ok(v) => {
                        lives[j].took(&v, true, &at, &objs[what])?;
                        read_after += removed as u64;
                    }
                    Err(e) => bad!("stream-error", "{at}: reading an open stream of {} to its end failed: {e}", hex(&objs[what].id)),
                }
            }
            Act2::Beyond(i) if !lives.is_empty() => {
                let j = *i as usize % lives.len();
                if lives[j].ended {
                    let mut buf = [0; 50];
                    for _ in 0..3 {
                        let r = lives[j].stream.read(&mut buf)?;
                        ensure!(r == Ok(0), "beyond-end", "{at}: a read after the end gave {r:?}");
                    }
                    ctx.label("read after the end");
                }
            }
            Act2::Ask(i, x) | Act2::AskElsewhere(i, x) if !values.is_empty() => {
                let (w, o) = &values[*i as usize % values.len()];
                let m = &objs[*w];
                let wrong = guard("asking an object", || {
                    if matches!(act, Act2::AskElsewhere(..)) {
                        std::thread::scope(|s| s.spawn(|| ask(o, m, *x)).join().unwrap_or_else(|p| std::panic::resume_unwind(p)))
                    } else {
                        ask(o, m, *x)
                    }
                })?;
                if let Some(wrong) = wrong {
                    bad!("wrong-answer", "{at}: a {} decoded earlier ({}) now answers wrongly: {wrong}", m.kind.name(), hex(&m.id));
                }
                asked_after += removed as u64;
            }
            Act2::Lookup(i) => {
                if let Some(repo) = &handle {
                    let m = &objs[*i as usize % n];
                    match lookup(repo.object_database(), &m.id)? {
                        Got::Object(p) => expect_parsed(&at, &p, &m.want)?,
                        got => ensure!(removed, "read-error", "{at}: {got:?}"),
                    }
                }
            }
            Act2::Write(i) => {
                if let Some(repo) = &handle {
                    if git.join("objects").is_dir() {
                        let m = &objs[*i as usize % n];
                        expect_write(repo.object_database(), &framed(m.kind, &m.bytes), &at)?;
                    }
                }
            }
            Act2::DropValue(i) => {
                if !lives.is_empty() && i & 1 == 0 {
                    let j = *i as usize / 2 % lives.len();
                    drop(lives.swap_remove(j));
                } else if !values.is_empty() {
                    let j = *i as usize / 2 % values.len();
                    drop(values.swap_remove(j));
                }
            }
            Act2::DropHandle | Act2::Reopen => {
                handle = None;
                if matches!(act, Act2::Reopen) && git.is_dir() {
                    handle = Some(open(&dir)?);
                }
            }
            Act2::DelLoose(i) => {
                removed |= std::fs::remove_file(loose_path(&git, &objs[*i as usize % loose].id)).is_ok();
            }
            Act2::DelPack(i) => {
                if let Some(p) = packs.get(*i as usize % (packs.len() + 1)) {
                    let base = pack_base(&git, p);
                    removed |= std::fs::remove_file(base.with_extension("idx")).is_ok();
                    removed |= std::fs::remove_file(base.with_extension("pack")).is_ok();
                }
            }
            Act2::Replace(i) => {
                // a new file takes the name: the object is damaged for later lookups
                let i = *i as usize;
                let to = if i % 2 == 0 || packs.is_empty() {
                    loose_path(&git, &objs[i / 2 % loose].id)
                } else {
                    pack_base(&git, &packs[i / 2 % packs.len()]).with_extension("pack")
                };
                if to.is_file() {
                    let tmp = git.join("replacement");
                    if i % 4 == 0 {
                        // the same object, compressed another way
                        let m = &objs[i / 2 % loose];
                        std::fs::write(&tmp, deflate(&framed(m.kind, &m.bytes), (i / 4 % 10) as u8))?;
                    } else {
                        std::fs::write(&tmp, b"x")?;
                        damaged = true;
                    }
                    std::fs::rename(&tmp, &to)?;
                    removed = true;
                }
            }
            Act2::DelEverything => {
                if git.is_dir() {
                    std::fs::remove_dir_all(&git)?;
                    removed = true;
                }
            }
            _ => (),
        }
    }
    // Whatever happened, everything kept still gives its exact content.
    for (i, o) in &values {
        let p = guard("reading an object", || observe(o))?;
        expect_parsed("at the end, an object decoded earlier", &p, &objs[*i].want)?;
    }
    for mut s in lives {
        let m = &objs[s.what];
        let r = guard("reading to the end", || s.finish(0).map_err(|e| err_text(&e)))?;
        match r {
            Ok(v) => s.took(&v, true, "at the end", m)?,
            Err(e) => bad!("stream-error", "at the end, an open stream of {} failed: {e}", hex(&m.id)),
        }
    }
    ctx.label_if(removed, "files were removed or replaced");
    ctx.label_if(most > 1, "several streams at once");
    ctx.label_if(asked_after > 0, "asked after removal");
    ctx.label_if(read_after > 0, "streamed after removal");
    ctx.nontrivial(most > 1 || asked_after + read_after > 0);
    Ok(())
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        title: "What a lookup returned stays exact, whatever happens afterwards",
        level: "exploration",
        rule: "a case keeps decoded objects, copies of them and half-read streams while others are opened and read in between, in pieces of any size and by any method of Read, on this and other threads, and while the files they came from are removed or replaced and handles dropped; every answer and every byte is compared with the object's content, iterators with their announced lengths; non-trivial: several streams at once, or something used after its files were removed",
        assumptions: &["files are replaced by renaming, as git does, never rewritten in place"],
        arms: vec![
            arm("lives", 9000, 300_000, lives(3000, 24), run_lives),
            arm("lives-large", 500, 15_000, lives(150_000, 20), run_lives),
        ],
    }
}
