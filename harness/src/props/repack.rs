//! C19 lookups while other processes move objects between loose files and packs.
use super::*;
use crate::git;
use crate::store::*;
use crate::sys::{self, Act, Plan};
use crate::{bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::PathBuf;
use std::rc::Rc;
use std::time::{Duration, Instant};

/// How long a pack may go unnoticed.
const LAG: Duration = Duration::from_secs(2);

/// What the other process does next.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Job {
    /// new loose objects
    Add(u8),
    /// a pack of some stored objects; then perhaps their loose files are removed
    Pack { seed: u64, prune: bool },
    /// a pack of new objects, as by a fetch
    Fetch { n: u8, seed: u64 },
    /// one pack of everything; then old packs and loose files are removed
    Repack { seed: u64, pack_first: bool },
    /// a pack becomes loose objects
    Unpack { which: u8 },
    /// loose files of packed objects are removed
    Prune,
    /// a pack is written anew under its old name, with other bytes
    Rewrite { which: u8, seed: u64 },
    /// an object is removed for good
    Drop(u8),
    /// the packs' folder itself comes and goes when it is empty
    Folder,
    Wait(u16),
}

#[derive(Clone, Debug)]
enum Step {
    Job(Job),
    PutPack(usize, usize),
    PutIdx(usize, usize),
    DelPack(usize),
    DelIdx(usize),
    PutLoose(usize),
    DelLoose(usize),
    Wait(u32),
}

struct PackState {
    base: PathBuf,
    members: BTreeSet<usize>,
    /// (pack, idx) of each version
    versions: Vec<(Vec<u8>, Vec<u8>)>,
    pack: Option<usize>,
    idx: Option<usize>,
    since: Instant,
}

impl PackState {
    fn in_place(&self) -> bool {
        self.pack.is_some() && self.pack == self.idx
    }
    fn half(&self) -> bool {
        self.pack.is_some() != self.idx.is_some() || self.pack != self.idx
    }
}

/// The repository and the process at work in it.
struct Other {
    git: PathBuf,
    made: Rc<Vec<Made>>,
    level: u64,
    packs: Vec<PackState>,
    loose: BTreeSet<usize>,
    ever: BTreeSet<usize>,
    todo: VecDeque<Step>,
    log: Vec<String>,
    /// what was taken away since the current lookup began
    gone_packs: BTreeSet<usize>,
    gone_loose: BTreeSet<usize>,
    done: u64,
    error: Option<Fail>,
}

impl Other {
    fn stored(&self) -> BTreeSet<usize> {
        let mut s = self.loose.clone();
        for p in self.packs.iter().filter(|p| p.in_place()) {
            s.extend(&p.members);
        }
        s
    }
    fn packed(&self) -> BTreeSet<usize> {
        self.packs.iter().filter(|p| p.in_place()).flat_map(|p| p.members.iter().copied()).collect()
    }
    fn new_objects(&self, n: usize) -> Vec<usize> {
        (0..self.made.len()).filter(|k| !self.ever.contains(k)).take(n).collect()
    }

    /// A new version of a pack file of these objects.
    fn build(&self, members: &BTreeSet<usize>, seed: u64) -> (Vec<u8>, Vec<u8>, Oid) {
        let mut x = seed;
        let mut list: Vec<usize> = members.iter().copied().collect();
        for i in (1..list.len()).rev() {
            list.swap(i, crate::engine::splitmix(&mut x) as usize % (i + 1));
        }
        let mut entries: Vec<PackEntry> = vec![];
        for (i, k) in list.iter().enumerate() {
            let m = &self.made[*k];
            let r = crate::engine::splitmix(&mut x);
            let same: Vec<usize> = (0..i).filter(|j| self.made[list[*j]].kind == m.kind).collect();
            let repr = if same.is_empty() || r % 3 == 0 || m.bytes.is_empty() {
                Repr::Whole
            } else {
                let j = same[(r >> 8) as usize % same.len()];
                let base = &self.made[list[j]];
                let delta = encode_delta(base.bytes.len() as u64, m.bytes.len() as u64, &diff_ops(&base.bytes, &m.bytes, r), (0, 0));
                if r % 3 == 1 {
                    Repr::Ofs { base: j, delta }
                } else {
                    Repr::Ref { base: base.id, delta }
                }
            };
            entries.push(PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr, level: (r >> 16) as u8 % 10, gap: 0, pad: 0 });
        }
        let p = build_pack(2, &entries);
        let ids: Vec<Oid> = list.iter().map(|k| self.made[*k].id).collect();
        let idx = idx_for(&p, &ids, if seed % 4 == 0 { 1 } else { 2 }, (seed % 5 == 0).then_some(seed));
        (p.bytes, idx, p.sum)
    }

    /// Register a pack of these objects; none if there are none, or it exists already.
    fn new_pack(&mut self, members: BTreeSet<usize>, seed: u64) -> Option<usize> {
        if members.is_empty() {
            return None;
        }
        let (pack, idx, sum) = self.build(&members, seed);
        let base = self.git.join("objects/pack").join(format!("pack-{}", hex(&sum)));
        if self.packs.iter().any(|p| p.base == base) {
            return None;
        }
        self.packs.push(PackState { base, members, versions: vec![(pack, idx)], pack: None, idx: None, since: Instant::now() });
        Some(self.packs.len() - 1)
    }

    fn expand(&mut self, job: &Job) -> Vec<Step> {
        let mut v = vec![];
        let live: Vec<usize> = (0..self.packs.len()).filter(|i| self.packs[*i].in_place()).collect();
        match job {
            Job::Add(n) => v.extend(self.new_objects(1 + *n as usize % 3).into_iter().map(Step::PutLoose)),
            Job::Pack { seed, prune } => {
                let mut x = *seed;
                let set: BTreeSet<usize> = self.stored().into_iter().filter(|_| crate::engine::splitmix(&mut x) % 2 == 0).collect();
                if let Some(i) = self.new_pack(set.clone(), *seed) {
                    v.push(Step::PutPack(i, 0));
                    v.push(Step::PutIdx(i, 0));
                    if *prune {
                        v.extend(set.iter().filter(|k| self.loose.contains(k)).map(|k| Step::DelLoose(*k)));
                    }
                }
            }
            Job::Fetch { n, seed } => {
                let set: BTreeSet<usize> = self.new_objects(1 + *n as usize % 4).into_iter().collect();
                if let Some(i) = self.new_pack(set, *seed) {
                    v.push(Step::PutPack(i, 0));
                    v.push(Step::PutIdx(i, 0));
                }
            }
            Job::Repack { seed, pack_first } => {
                let set = self.stored();
                if let Some(i) = self.new_pack(set, *seed) {
                    v.push(Step::PutPack(i, 0));
                    v.push(Step::PutIdx(i, 0));
                    for j in live {
                        if *pack_first {
                            v.push(Step::DelPack(j));
                            v.push(Step::DelIdx(j));
                        } else {
                            v.push(Step::DelIdx(j));
                            v.push(Step::DelPack(j));
                        }
                    }
                    v.extend(self.loose.iter().map(|k| Step::DelLoose(*k)));
                }
            }
            Job::Unpack { which } => {
                if !live.is_empty() {
                    let j = live[*which as usize % live.len()];
                    v.extend(self.packs[j].members.iter().map(|k| Step::PutLoose(*k)));
                    v.push(Step::DelIdx(j));
                    v.push(Step::DelPack(j));
                }
            }
            Job::Prune => {
                let packed = self.packed();
                v.extend(self.loose.iter().filter(|k| packed.contains(k)).map(|k| Step::DelLoose(*k)));
            }
            Job::Rewrite { which, seed } => {
                if !live.is_empty() {
                    let j = live[*which as usize % live.len()];
                    let (pack, idx, _) = self.build(&self.packs[j].members.clone(), *seed);
                    self.packs[j].versions.push((pack, idx));
                    let n = self.packs[j].versions.len() - 1;
                    // everything in it is loose meanwhile
                    v.extend(self.packs[j].members.iter().filter(|k| !self.loose.contains(k)).map(|k| Step::PutLoose(*k)));
                    v.push(Step::PutPack(j, n));
                    v.push(Step::PutIdx(j, n));
                }
            }
            Job::Drop(k) => {
                let packed = self.packed();
                let list: Vec<usize> = self.loose.iter().copied().filter(|k| !packed.contains(k)).collect();
                if !list.is_empty() {
                    v.push(Step::DelLoose(list[*k as usize % list.len()]));
                }
            }
            Job::Folder => {
                let f = self.git.join("objects/pack");
                if std::fs::remove_dir(&f).is_err() {
                    let _ = std::fs::create_dir(&f);
                }
            }
            Job::Wait(ms) => v.push(Step::Wait(*ms as u32)),
        }
        v
    }

    /// One step of the other process; false if it has nothing to do.
    fn step(&mut self) -> bool {
        loop {
            let Some(s) = self.todo.pop_front() else { return false };
            if let Step::Job(j) = s {
                for s in self.expand(&j).into_iter().rev() {
                    self.todo.push_front(s);
                }
                continue;
            }
            if let Err(e) = self.perform(&s) {
                self.error.get_or_insert(e);
                self.todo.clear();
            }
            self.done += 1;
            self.log.push(format!("{s:?}"));
            return true;
        }
    }

    fn drain(&mut self) {
        while self.step() {}
    }

    fn put(path: &Path, b: &[u8]) -> Res {
        std::fs::create_dir_all(path.parent().unwrap())?;
        let tmp = path.with_file_name("tmp_other");
        std::fs::write(&tmp, b)?;
        std::fs::rename(&tmp, path)?;
        Ok(())
    }

    fn perform(&mut self, s: &Step) -> Res {
        match s {
            Step::PutPack(i, v) => {
                let p = &mut self.packs[*i];
                if p.in_place() {
                    self.gone_packs.insert(*i);
                }
                Self::put(&p.base.with_extension("pack"), &p.versions[*v].0)?;
                p.pack = Some(*v);
            }
            Step::PutIdx(i, v) => {
                let p = &mut self.packs[*i];
                Self::put(&p.base.with_extension("idx"), &p.versions[*v].1)?;
                p.idx = Some(*v);
                p.since = Instant::now();
                self.ever.extend(&p.members);
            }
            Step::DelPack(i) => {
                let p = &mut self.packs[*i];
                std::fs::remove_file(p.base.with_extension("pack"))?;
                p.pack = None;
                self.gone_packs.insert(*i);
            }
            Step::DelIdx(i) => {
                let p = &mut self.packs[*i];
                std::fs::remove_file(p.base.with_extension("idx"))?;
                p.idx = None;
                self.gone_packs.insert(*i);
            }
            Step::PutLoose(k) => {
                let m = &self.made[*k];
                self.level += 1;
                if !self.loose.contains(k) {
                    Self::put(&loose_path(&self.git, &m.id), &deflate(&framed(m.kind, &m.bytes), (self.level % 10) as u8))?;
                }
                self.loose.insert(*k);
                self.ever.insert(*k);
            }
            Step::DelLoose(k) => {
                let path = loose_path(&self.git, &self.made[*k].id);
                std::fs::remove_file(&path)?;
                let _ = std::fs::remove_dir(path.parent().unwrap());
                self.loose.remove(k);
                self.gone_loose.insert(*k);
            }
            Step::Wait(ms) => sys::advance_clock(millis(*ms as u16) * 1_000_000),
            Step::Job(_) => unreachable!(),
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Move {
    Start(Job),
    Steps(u8),
    Look {
        handle: u8,
        what: u16,
        /// 0 parse, else stream in pieces of this size minus one
        how: u16,
        /// at which calls of the lookup the other process makes how many steps
        mid: Vec<(u8, u8)>,
    },
    Write { handle: u8, what: u16 },
    Reopen(u8),
    Wait(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    pool: PackSpec,
    initial: Vec<Job>,
    moves: Vec<Move>,
    no_folder: bool,
}

struct Handle {
    repo: Repository,
    /// objects in packs that were in place throughout the first lookup
    seen: BTreeSet<usize>,
    looked: bool,
}

fn job() -> BoxedStrategy<Job> {
    prop_oneof![
        3 => any::<u8>().prop_map(Job::Add),
        4 => (any::<u64>(), proptest::bool::weighted(0.7)).prop_map(|(seed, prune)| Job::Pack { seed, prune }),
        3 => (any::<u8>(), any::<u64>()).prop_map(|(n, seed)| Job::Fetch { n, seed }),
        4 => (any::<u64>(), any::<bool>()).prop_map(|(seed, pack_first)| Job::Repack { seed, pack_first }),
        2 => any::<u8>().prop_map(|which| Job::Unpack { which }),
        1 => Just(Job::Prune),
        1 => (any::<u8>(), any::<u64>()).prop_map(|(which, seed)| Job::Rewrite { which, seed }),
        1 => any::<u8>().prop_map(Job::Drop),
        1 => Just(Job::Folder),
        3 => wait().prop_map(Job::Wait),
    ]
    .boxed()
}

fn wait() -> BoxedStrategy<u16> {
    prop_oneof![6 => Just(2000u16), 2 => Just(1000), 2 => Just(1990), 4 => 0u16..5000, 1 => 60_000u16..60_022].boxed()
}

/// The milliseconds a wait takes: some waits are minutes, hours or weeks, among them such as
/// are next to nothing in the low bits of some integer.
fn millis(wait: u16) -> i64 {
    const LONG: [i64; 11] =
        [4_295, 65_537, 256_000, 60_000, 3_600_000, 4_294_968, 65_536_000, 86_400_000, 604_800_000, 1 << 31, 1 << 32];
    match wait {
        60_000.. => LONG[(wait - 60_000) as usize % LONG.len()] + (wait as i64 / 7 % 2) * 300,
        _ => wait as i64,
    }
}

fn moves(n: usize) -> BoxedStrategy<Vec<Move>> {
    let mid = prop_oneof![
        2 => Just(vec![]),
        2 => vec((0u8..30, 1u8..6), 1..2),
        1 => vec((0u8..60, 1u8..3), 1..6),
        1 => Just(()).prop_map(|_| (0..60).map(|k| (k, 1)).collect::<Vec<(u8, u8)>>()),
    ];
    let m = prop_oneof![
        3 => job().prop_map(Move::Start),
        4 => (1u8..8).prop_map(Move::Steps),
        8 => (0u8..3, any::<u16>(), prop_oneof![3 => Just(0u16), 1 => 1u16..3000], mid).prop_map(|(handle, what, how, mid)| Move::Look { handle, what, how, mid }),
        1 => (0u8..3, any::<u16>()).prop_map(|(handle, what)| Move::Write { handle, what }),
        1 => (0u8..3).prop_map(Move::Reopen),
        2 => wait().prop_map(Move::Wait),
    ];
    vec(m, 4..n).boxed()
}

fn run_history(c: &History, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    if c.no_folder {
        std::fs::remove_dir(g.join("objects/pack"))?;
    }
    let made = Rc::new(c.pool.build().made);
    if made.is_empty() {
        return Ok(());
    }
    let o = Rc::new(RefCell::new(Other {
        git: g.clone(),
        made: made.clone(),
        level: 0,
        packs: vec![],
        loose: BTreeSet::new(),
        ever: BTreeSet::new(),
        todo: c.initial.iter().cloned().map(Step::Job).collect(),
        log: vec![],
        gone_packs: BTreeSet::new(),
        gone_loose: BTreeSet::new(),
        done: 0,
        error: None,
    }));
    o.borrow_mut().drain();
    o.borrow_mut().log.push("-- initial state --".into());
    let new = || -> Res<Handle> { Ok(Handle { repo: open(&dir)?, seen: BTreeSet::new(), looked: false }) };
    let mut handles = [new()?, new()?, new()?];
    let (mut by_loose, mut by_seen, mut by_age, mut free, mut amid) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut look = |h: &mut Handle, label: &str, k: usize, how: u16, mid: &[(u8, u8)]| -> Res {
        let m = &made[k];
        // ---- before
        let before = {
            let mut o = o.borrow_mut();
            o.gone_packs.clear();
            o.gone_loose.clear();
            let now = Instant::now();
            let packs: Vec<(usize, bool)> =
                (0..o.packs.len()).filter(|i| o.packs[*i].in_place()).map(|i| (i, now.duration_since(o.packs[i].since) >= LAG)).collect();
            (packs, o.loose.contains(&k), o.stored().contains(&k), o.done, o.packs.iter().any(|p| p.half()), o.log.len())
        };
        // ---- the lookup, with the other process at work
        let plan = if mid.is_empty() {
            Plan::default()
        } else {
            let mut when: BTreeMap<u64, u8> = BTreeMap::new();
            for (call, n) in mid {
                *when.entry(*call as u64).or_default() += *n;
            }
            let o2 = o.clone();
            let mut call = 0u64;
            let cb = move || {
                let n = when.get(&call).copied().unwrap_or(0);
                call += 1;
                for _ in 0..n {
                    o2.borrow_mut().step();
                }
            };
            Plan { reading: true, at: Some(0), persist: true, act: Act::Callback, callback: Some(Box::new(cb)), ..Plan::default() }
        };
        let db = h.repo.object_database();
        let trace = |o: &Other| {
            let cut = before.5.min(o.log.len());
            format!("{}{}", o.log[..cut].join(" "), if cut < o.log.len() { format!(" | during it: {}", o.log[cut..].join(" ")) } else { String::new() })
        };
        let (out, _) = sys::with_plan(plan, || -> Res<(bool, String)> {
            Ok(if how == 0 {
                match lookup(db, &m.id)? {
                    Got::Object(p) if p == m.want => (true, String::new()),
                    Got::Object(p) => bad!("wrong-object", "{label}: {} {} gave {p:?} after {}", m.kind.name(), hex(&m.id), trace(&o.borrow())),
                    Got::NotFound => (false, "not found".into()),
                    Got::Error(e) => (false, format!("the error {e}")),
                }
            } else {
                match stream(db, &m.id, how as usize - 1)? {
                    Streamed::Bytes(b) if b == m.bytes || b == framed(m.kind, &m.bytes) => (true, String::new()),
                    Streamed::Bytes(b) => bad!("wrong-stream", "{label}: {} {} streamed {} after {}", m.kind.name(), hex(&m.id), show(&b), trace(&o.borrow())),
                    Streamed::NotFound => (false, "not found".into()),
                    Streamed::Error(e) => (false, format!("the error {e}")),
                }
            })
        });
        let (found, text) = out?;
        // ---- judge
        let ob = o.borrow();
        if let Some(Fail::Harness(e)) = &ob.error {
            return Err(Fail::Harness(e.clone()));
        }
        let busy = ob.done > before.3;
        let stayed: Vec<&(usize, bool)> = before.0.iter().filter(|(i, _)| !ob.gone_packs.contains(i)).collect();
        let loose = before.1 && !ob.gone_loose.contains(&k);
        let stored = before.2 && ob.stored().contains(&k);
        let seen = h.seen.contains(&k) && stored;
        let first = !h.looked && stayed.iter().any(|(i, _)| ob.packs[*i].members.contains(&k));
        let aged = stayed.iter().any(|(i, old)| *old && ob.packs[*i].members.contains(&k));
        if !h.looked {
            h.looked = true;
            for (i, _) in &stayed {
                h.seen.extend(&ob.packs[*i].members);
            }
        }
        let why = if loose {
            "it is loose"
        } else if seen {
            "its pack was there at the first lookup"
        } else if first {
            "its pack is there at the first lookup"
        } else if aged {
            "its pack has been there for two seconds"
        } else {
            ""
        };
        if !why.is_empty() {
            ensure!(found, "missed", "{label}: {} {} gave {text} although {why}; history: {}", m.kind.name(), hex(&m.id), trace(&ob));
        }
        if !ob.ever.contains(&k) {
            ensure!(!found, "phantom", "{label}: {} was found but never stored; history: {}", hex(&m.id), trace(&ob));
            if !busy && !before.4 {
                ensure!(text == "not found", "absent-error", "{label}: absent {} gave {text}; history: {}", hex(&m.id), trace(&ob));
            }
        }
        by_loose += loose as u64;
        by_seen += (!loose && seen) as u64;
        by_age += (!loose && !seen && (first || aged)) as u64;
        free += why.is_empty() as u64;
        amid += busy as u64;
        Ok(())
    };
    for (i, m) in c.moves.iter().enumerate() {
        match m {
            Move::Start(j) => o.borrow_mut().todo.push_back(Step::Job(j.clone())),
            Move::Steps(n) => {
                for _ in 0..*n {
                    o.borrow_mut().step();
                }
            }
            Move::Look { handle, what, how, mid } => {
                let h = &mut handles[*handle as usize % 3];
                // mostly of something that is or was stored
                let ever: Vec<usize> = o.borrow().ever.iter().copied().collect();
                let k = if what % 5 == 0 || ever.is_empty() { *what as usize / 5 % made.len() } else { ever[*what as usize / 5 % ever.len()] };
                look(h, &format!("move {i}, handle {handle}"), k, *how, mid)?;
            }
            Move::Write { handle, what } => {
                let k = *what as usize % made.len();
                let m = &made[k];
                let db = handles[*handle as usize % 3].repo.object_database();
                expect_write(db, &framed(m.kind, &m.bytes), &format!("move {i}"))?;
                let mut ob = o.borrow_mut();
                ob.loose.insert(k);
                ob.ever.insert(k);
                ob.log.push(format!("[write {k} through handle {handle}]"));
            }
            Move::Reopen(h) => handles[*h as usize % 3] = new()?,
            Move::Wait(ms) => {
                sys::advance_clock(millis(*ms) * 1_000_000);
                o.borrow_mut().log.push(format!("[{} ms]", millis(*ms)));
            }
        }
    }
    // ---- once everything is done and two seconds have passed, everything stored is found by everyone
    o.borrow_mut().drain();
    sys::advance_clock(2_000_000_000);
    for h in handles.iter_mut() {
        for k in 0..made.len() {
            look(h, "at the end", k, 0, &[])?;
        }
    }
    let ob = o.borrow();
    if let Some(Fail::Harness(e)) = &ob.error {
        return Err(Fail::Harness(e.clone()));
    }
    ctx.add("lookups: had to be found, loose", by_loose);
    ctx.add("lookups: had to be found, pack there at the first lookup", by_seen);
    ctx.add("lookups: had to be found, pack there for two seconds", by_age);
    ctx.add("lookups: need not be found", free);
    ctx.add("lookups amid steps of the other process", amid);
    ctx.add("steps of the other process", ob.done);
    ctx.nontrivial(amid > 0 && ob.packs.len() > 0);
    Ok(())
}

// ---------------------------------------------------------------- git as the other process

#[derive(Clone, Debug, Serialize, Deserialize)]
enum GitMove {
    Add(u8),
    /// 0 repack -d, 1 repack -ad, 2 gc, 3 prune-packed, 4 unpack everything, 5 repack into an older format, 6 repack -adf with bitmaps
    Git(u8),
    Look { handle: u8, what: u16, how: u16 },
    Reopen(u8),
    Wait(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GitHistory {
    pool: PackSpec,
    moves: Vec<GitMove>,
}

fn run_git(c: &GitHistory, ctx: &mut Ctx) -> Res {
    if !git::available() {
        ctx.label("skipped: no git");
        return Ok(());
    }
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let made: Vec<Made> = c.pool.build().made.into_iter().filter(|m| m.kind == Kind::Blob).collect();
    if made.is_empty() {
        return Ok(());
    }
    let mut stored = 0;
    let add = |n: usize, stored: &mut usize| -> Res {
        for _ in 0..n {
            if *stored < made.len() {
                put_loose(&g, &made[*stored], 6)?;
                // so that nothing counts as unreachable
                std::fs::write(g.join(format!("refs/tags/t{stored}")), format!("{}\n", hex(&made[*stored].id)))?;
                *stored += 1;
            }
        }
        Ok(())
    };
    add(3, &mut stored)?;
    struct H {
        repo: Repository,
        seen: Option<BTreeSet<usize>>,
    }
    let new = || -> Res<H> { Ok(H { repo: open(&dir)?, seen: None }) };
    let mut handles = [new()?, new()?, new()?];
    let mut changed = Instant::now();
    let mut log: Vec<String> = vec![];
    let (mut commands, mut must_n, mut free) = (0u64, 0u64, 0u64);
    let look = |h: &mut H, k: usize, how: u16, changed: Instant, stored: usize, log: &[String]| -> Res<bool> {
        let is_loose = |k: usize| loose_path(&g, &made[k].id).exists();
        let old = changed.elapsed() >= LAG;
        let must = k < stored && (is_loose(k) || old || h.seen.as_ref().map_or(true, |s| s.contains(&k)));
        if h.seen.is_none() {
            h.seen = Some((0..stored).filter(|k| !is_loose(*k)).collect());
        }
        let m = &made[k];
        let what = format!("after {}", log.join(", "));
        let db = h.repo.object_database();
        if must {
            if how == 0 {
                expect_object(db, m, &what)?;
            } else {
                expect_stream(db, m, how as usize - 1, true, true, &what)?;
            }
        } else if k < stored {
            match lookup(db, &m.id)? {
                Got::Object(p) => expect_parsed(&what, &p, &m.want)?,
                _ => (),
            }
        } else {
            expect_absent(db, &m.id, &what)?;
        }
        Ok(must)
    };
    for m in &c.moves {
        match m {
            GitMove::Add(n) => {
                add(1 + *n as usize % 3, &mut stored)?;
                log.push(format!("{stored} objects"));
            }
            GitMove::Git(n) => {
                let run = |a: &[&str]| git::git_ok(&g, a, None).map(|_| ());
                match n % 7 {
                    0 => run(&["repack", "-q", "-d"])?,
                    1 => run(&["repack", "-q", "-a", "-d"])?,
                    2 => run(&["gc", "-q", "--prune=now"])?,
                    3 => run(&["prune-packed", "-q"])?,
                    4 => {
                        // as git itself does it: the packs are moved away first
                        let away = ctx.sub("away")?;
                        let mut list = vec![];
                        for e in std::fs::read_dir(g.join("objects/pack"))? {
                            let p = e?.path();
                            let to = away.join(p.file_name().unwrap());
                            std::fs::copy(&p, &to)?;
                            if p.extension().map_or(false, |e| e == "pack") {
                                list.push(to);
                            }
                        }
                        let packs = std::fs::read_dir(g.join("objects/pack"))?.collect::<Result<Vec<_>, _>>()?;
                        for e in packs {
                            std::fs::remove_file(e.path())?;
                        }
                        for p in list {
                            git::git_ok(&g, &["unpack-objects", "-q"], Some(&std::fs::read(p)?))?;
                        }
                        std::fs::remove_dir_all(&away)?;
                    }
                    5 => run(&["-c", "pack.indexVersion=1", "repack", "-q", "-a", "-d", "-f"])?,
                    _ => run(&["-c", "repack.usedeltabaseoffset=false", "repack", "-q", "-a", "-d", "-f", "--depth=50", "--window=20"])?,
                }
                changed = Instant::now();
                log.push(format!("git command {}", n % 7));
                commands += 1;
            }
            GitMove::Look { handle, what, how } => {
                let must = look(&mut handles[*handle as usize % 3], *what as usize % made.len(), *how, changed, stored, &log)?;
                must_n += must as u64;
                free += !must as u64;
                log.push(format!("lookup of {} on {handle}", *what as usize % made.len()));
            }
            GitMove::Reopen(h) => handles[*h as usize % 3] = new()?,
            GitMove::Wait(ms) => {
                sys::advance_clock(millis(*ms) * 1_000_000);
                log.push(format!("{} ms", millis(*ms)));
            }
        }
    }
    sys::advance_clock(2_000_000_000);
    log.push("2000 ms".into());
    for h in handles.iter_mut() {
        for k in 0..stored {
            look(h, k, 0, changed, stored, &log)?;
            must_n += 1;
        }
    }
    ctx.add("git commands", commands);
    ctx.add("lookups that had to succeed", must_n);
    ctx.add("lookups that need not", free);
    ctx.nontrivial(commands > 0);
    Ok(())
}

pub fn prop() -> Prop {
    let history = |max, n, len| {
        (pack_spec(obj(max), n), vec(job(), 0..6), moves(len), proptest::bool::weighted(0.15))
            .prop_map(|(pool, initial, moves, no_folder)| History { pool, initial, moves, no_folder })
    };
    let gm = prop_oneof![
        2 => any::<u8>().prop_map(GitMove::Add),
        3 => any::<u8>().prop_map(GitMove::Git),
        6 => (0u8..3, any::<u16>(), prop_oneof![2 => Just(0u16), 1 => 1u16..3000]).prop_map(|(handle, what, how)| GitMove::Look { handle, what, how }),
        1 => (0u8..3).prop_map(GitMove::Reopen),
        1 => wait().prop_map(GitMove::Wait),
    ];
    let blob = prop_oneof![
        1 => data_upto(3000).prop_map(|d| Item::New(Obj::Blob(d))),
        2 => (any::<u16>(), any::<u64>(), any::<u8>()).prop_map(|(of, seed, ops)| Item::Edit { of, seed, ops }),
    ];
    let pool = vec(blob.prop_map(|item| ItemSpec { item, repr: ReprSpec::Whole, level: 1, enc: 0, pad: 0 }), 2..16)
        .prop_map(|items| PackSpec { items, order: 0, pack_version: 2, idx_version: 2, large: None });
    let gh = (pool, vec(gm, 4..30)).prop_map(|(pool, moves)| GitHistory { pool, moves });
    Prop {
        id: "C19",
        title: "Objects stay readable while other processes repack the repository",
        level: "exploration",
        rule: "a case is a history in which another process adds loose objects and packs, repacks, rewrites a pack under its name, unpacks, prunes and waits, one file operation at a time (pack and index files appear and vanish separately), between and in the middle of the lookups (at chosen system calls) of three handles, on a controlled clock; a lookup must give the exact object if it stayed loose, if its pack was in place at the handle's first lookup, or if a pack holding it has been there for two seconds; in another arm the other process is git; non-trivial: lookups met steps of the other process, or git commands ran",
        assumptions: &["files appear by rename, as git makes them appear, and a pack before its index"],
        arms: vec![
            sched_arm("steps", 12_000, 400_000, history(200, 10, 40), run_history),
            sched_arm("steps-long", 700, 20_000, history(3000, 24, 200), run_history),
            sched_arm("git", 250, 6000, gh, run_git),
        ],
    }
}
