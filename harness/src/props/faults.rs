//! C20 disturbed reads, C21 damaged files beside intact ones.
use super::*;
use crate::store::*;
use crate::sys::{self, Act, Plan};
use crate::{bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use rusty_git::reference::{Error as RefError, Reference, ReferenceTarget};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

// ================================================================ a repository with a bit of everything

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StoreSpec {
    packs: Vec<PackSpec>,
    loose: Vec<(Obj, u8)>,
    /// loose copies of packed objects
    copies: Vec<u16>,
    refs: Vec<RefSpec>,
    head: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RefSpec {
    name: u8,
    /// 0: symbolic to an earlier one (if there is one)
    to: u8,
    which: u16,
    blank: u8,
    end: u8,
}

const NAMES: [&str; 10] = [
    "refs/heads/master",
    "refs/heads/dir/topic",
    "refs/heads/a/b/c/d/e",
    "refs/tags/v1.0",
    "refs/tags/releases/2020/a-long-name-that-goes-on-for-quite-a-while-so-that-it-does-not-fit-a-small-buffer/v2",
    "refs/remotes/origin/master",
    "refs/remotes/origin/HEAD",
    "refs/heads/x",
    "refs/tags/x",
    "refs/remotes/up/stream",
];

pub struct World {
    pub dir: PathBuf,
    pub git: PathBuf,
    /// object, loose, packed
    pub all: Vec<(Made, bool, bool)>,
    /// name, symbolic target or object
    pub refs: Vec<(String, Result<usize, String>)>,
    head: usize,
    pub deltas: bool,
}

pub fn store_spec(max: u32, packs: std::ops::Range<usize>, items: usize, loose: usize) -> BoxedStrategy<StoreSpec> {
    let r = (any::<u8>(), 0u8..3, any::<u16>(), 0u8..4, 0u8..4).prop_map(|(name, to, which, blank, end)| RefSpec { name, to, which, blank, end });
    (
        vec(pack_spec(obj(max), items), packs),
        vec((obj(max), level()), 0..loose + 1),
        vec(any::<u16>(), 0..3),
        vec(r, 0..6),
        any::<u16>(),
    )
        .prop_map(|(packs, loose, copies, refs, head)| StoreSpec { packs, loose, copies, refs, head })
        .boxed()
}

impl StoreSpec {
    pub fn put(&self, dir: &Path) -> Res<World> {
        let git = init_repo(dir)?;
        let mut at: BTreeMap<Oid, usize> = BTreeMap::new();
        let mut all: Vec<(Made, bool, bool)> = vec![];
        let mut deltas = false;
        for p in &self.packs {
            let b = p.build();
            if b.made.is_empty() {
                continue;
            }
            b.put(&git)?;
            deltas |= b.depth.iter().any(|d| *d > 0);
            for m in b.made {
                let k = *at.entry(m.id).or_insert(all.len());
                if k == all.len() {
                    all.push((m, false, true));
                } else {
                    all[k].2 = true;
                }
            }
        }
        let packed = all.len();
        for (o, level) in &self.loose {
            let m = o.made();
            put_loose(&git, &m, *level)?;
            let k = *at.entry(m.id).or_insert(all.len());
            if k == all.len() {
                all.push((m, true, false));
            } else {
                all[k].1 = true;
            }
        }
        if packed > 0 {
            for c in &self.copies {
                let k = *c as usize % packed;
                put_loose(&git, &all[k].0, 6)?;
                all[k].1 = true;
            }
        }
        if all.is_empty() {
            let m = blob_made(b"the only object".to_vec());
            put_loose(&git, &m, 6)?;
            all.push((m, true, false));
        }
        let mut refs: Vec<(String, Result<usize, String>)> = vec![("refs/heads/first".into(), Ok(0))];
        std::fs::write(git.join("refs/heads/first"), format!("{}\n", hex(&all[0].0.id)))?;
        for r in &self.refs {
            let name = NAMES[r.name as usize % NAMES.len()];
            if refs.iter().any(|x| x.0 == name) {
                continue;
            }
            let (to, text) = if r.to == 0 {
                let t = refs[r.which as usize % refs.len()].0.clone();
                (Err(t.clone()), format!("ref: {t}"))
            } else {
                let k = r.which as usize % all.len();
                (Ok(k), hex(&all[k].0.id))
            };
            let path = git.join(name);
            std::fs::create_dir_all(path.parent().unwrap())?;
            let blank = ["", "", "\n", "\n\n\n"][r.blank as usize % 4];
            let end = ["\n", "", "\r\n", "\n"][r.end as usize % 4];
            std::fs::write(path, format!("{blank}{text}{end}"))?;
            refs.push((name.into(), to));
        }
        let head = self.head as usize % refs.len();
        std::fs::write(git.join("HEAD"), format!("ref: {}\n", refs[head].0))?;
        Ok(World { dir: dir.to_path_buf(), git, all, refs, head, deltas })
    }
}

impl World {
    fn final_target(&self, mut k: usize) -> usize {
        loop {
            match &self.refs[k].1 {
                Ok(o) => return *o,
                Err(n) => k = self.refs.iter().position(|r| r.0 == *n).unwrap(),
            }
        }
    }
    fn hops(&self, mut k: usize) -> usize {
        let mut n = 0;
        while let Err(t) = &self.refs[k].1 {
            k = self.refs.iter().position(|r| r.0 == *t).unwrap();
            n += 1;
        }
        n
    }
    pub fn absent(&self, seed: u64) -> Oid {
        let mut id = sha1(&seed.to_be_bytes());
        if seed % 2 == 0 {
            // a neighbour of one that exists
            id = self.all[(seed / 2) as usize % self.all.len()].0.id;
            id[19] ^= 1 << (seed % 7);
        }
        while self.all.iter().any(|m| m.0.id == id) {
            id[3] = id[3].wrapping_add(1);
        }
        id
    }
}

// ================================================================ C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    Parse(u16),
    Stream(u16, u16),
    Absent(u64),
    Ref(u16),
    Peel(u16),
    Head,
    List(u8),
}

fn ask() -> BoxedStrategy<Ask> {
    prop_oneof![
        6 => any::<u16>().prop_map(Ask::Parse),
        3 => (any::<u16>(), prop_oneof![Just(0u16), 1u16..9000]).prop_map(|(a, b)| Ask::Stream(a, b)),
        2 => any::<u64>().prop_map(Ask::Absent),
        2 => any::<u16>().prop_map(Ask::Ref),
        2 => any::<u16>().prop_map(Ask::Peel),
        1 => Just(Ask::Head),
        1 => any::<u8>().prop_map(Ask::List),
    ]
    .boxed()
}

#[derive(Debug)]
pub enum Out {
    Right,
    NotFound,
    Error(String),
}

/// Perform a lookup; a wrong answer is a violation at once, the rest is for the caller to judge.
pub fn perform(w: &World, repo: &Repository, ask: &Ask, what: &str) -> Res<Out> {
    let db = repo.object_database();
    let refs = repo.reference_database();
    let ref_out = |e: RefError| match &e {
        RefError::ReferenceNotFound => Out::NotFound,
        RefError::DereferencingFailed(x) if x.is_not_found() => Out::NotFound,
        _ => Out::Error(err_text(&e)),
    };
    let check_ref = |r: &Reference, k: usize| -> Res {
        let ok = match (&w.refs[k].1, r.target()) {
            // where it leads is seen by peeling it
            (Ok(_), ReferenceTarget::Direct(_)) => true,
            (Err(n), ReferenceTarget::Symbolic(s)) => s.data()[..] == *n.as_bytes(),
            _ => false,
        };
        ensure!(ok, "wrong-reference", "{what}: {} gave {r:?} instead of {:?}", w.refs[k].0, w.refs[k].1);
        Ok(())
    };
    Ok(match ask {
        Ask::Parse(k) => {
            let m = &w.all[*k as usize % w.all.len()].0;
            match lookup(db, &m.id)? {
                Got::Object(p) => {
                    expect_parsed(&format!("{what}: {} {}", m.kind.name(), hex(&m.id)), &p, &m.want)?;
                    Out::Right
                }
                Got::NotFound => Out::NotFound,
                Got::Error(e) => Out::Error(e),
            }
        }
        Ask::Stream(k, piece) => {
            let (m, loose, packed) = &w.all[*k as usize % w.all.len()];
            match stream(db, &m.id, *piece as usize)? {
                Streamed::Bytes(b) if *packed && b == m.bytes => Out::Right,
                Streamed::Bytes(b) if *loose && b == framed(m.kind, &m.bytes) => Out::Right,
                Streamed::Bytes(b) => bad!("wrong-stream", "{what}: {} {} streamed {} instead of {}", m.kind.name(), hex(&m.id), show(&b), show(&m.bytes)),
                Streamed::NotFound => Out::NotFound,
                Streamed::Error(e) => Out::Error(e),
            }
        }
        Ask::Absent(s) => {
            let id = w.absent(*s);
            match lookup(db, &id)? {
                Got::Object(p) => bad!("phantom", "{what}: absent id {} gave {p:?}", hex(&id)),
                Got::NotFound => Out::Right,
                Got::Error(e) => Out::Error(e),
            }
        }
        Ask::Ref(k) => {
            let k = *k as usize % w.refs.len();
            match guard("reference", || refs.reference(w.refs[k].0.as_bytes()))? {
                Ok(r) => {
                    check_ref(&r, k)?;
                    Out::Right
                }
                Err(e) => ref_out(e),
            }
        }
        Ask::Head => match guard("head", || refs.head())? {
            Ok(r) => {
                let ok = matches!(r.target(), ReferenceTarget::Symbolic(s) if s.data()[..] == *w.refs[w.head].0.as_bytes());
                ensure!(ok, "wrong-reference", "{what}: HEAD gave {r:?} instead of {}", w.refs[w.head].0);
                Out::Right
            }
            Err(e) => ref_out(e),
        },
        Ask::Peel(k) => {
            let k = *k as usize % w.refs.len();
            if w.hops(k) > 4 {
                return Ok(Out::Right);
            }
            let m = &w.all[w.final_target(k)].0;
            match guard("peel", || refs.reference(w.refs[k].0.as_bytes()).and_then(|r| r.peel(repo).map(|o| (oid_of(o.id()), observe(&o)))))? {
                Ok((id, p)) => {
                    ensure!(id == m.id, "wrong-peel", "{what}: {} led to {} instead of {}", w.refs[k].0, hex(&id), hex(&m.id));
                    expect_parsed(&format!("{what}: target of {}", w.refs[k].0), &p, &m.want)?;
                    Out::Right
                }
                Err(e) => ref_out(e),
            }
        }
        Ask::List(n) => {
            let (prefix, got) = match n % 4 {
                0 => ("refs/heads/", guard("head_reference_names", || refs.head_reference_names())?),
                1 => ("refs/tags/", guard("tag_reference_names", || refs.tag_reference_names())?),
                2 => ("refs/remotes/", guard("remote_reference_names", || refs.remote_reference_names())?),
                _ => ("", guard("reference_names", || refs.reference_names())?),
            };
            match got {
                Ok(mut v) => {
                    v.sort();
                    let mut want: Vec<&[u8]> = w.refs.iter().map(|r| r.0.as_bytes()).filter(|r| r.starts_with(prefix.as_bytes())).collect();
                    want.sort();
                    ensure!(
                        v.iter().map(|x| &x[..]).eq(want.iter().copied()),
                        "wrong-list",
                        "{what}: listing {prefix}* gave {:?} instead of {:?}",
                        v.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>(),
                        want.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>()
                    );
                    Out::Right
                }
                Err(e) => ref_out(e),
            }
        }
    })
}

fn must(out: Out, sig: &str, ask: &Ask, what: &str) -> Res {
    match out {
        Out::Right => Ok(()),
        o => violation(sig, format!("{what}: {ask:?} gave {o:?}")),
    }
}

// ---- split and interrupted reads

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chopped {
    store: StoreSpec,
    asks: Vec<(Ask, u64, bool)>,
    open: u64,
}

fn run_chopped(c: &Chopped, ctx: &mut Ctx) -> Res {
    let w = c.store.put(&ctx.sub("repo")?)?;
    let (repo, p) = sys::with_plan(Plan { chop: Some(c.open), ..Plan::default() }, || open(&w.dir));
    let repo = repo?;
    let (mut short, mut intr) = (p.chopped, p.interrupted);
    for (i, (a, seed, plain)) in c.asks.iter().enumerate() {
        let what = format!("lookup {i}, reads {}", if *plain { "undisturbed" } else { "split up" });
        let plan = Plan { chop: (!plain).then_some(*seed), untyped: seed % 3 == 0, ..Plan::default() };
        let (out, p) = sys::with_plan(plan, || perform(&w, &repo, a, &what));
        must(out?, "disturbed", a, &what)?;
        short += p.chopped;
        intr += p.interrupted;
    }
    // and everything there is, from a fresh handle
    let fresh = open(&w.dir)?;
    let mut seed = c.open;
    for k in 0..w.all.len() {
        let a = Ask::Parse(k as u16);
        let plan = Plan { chop: Some(crate::engine::splitmix(&mut seed)), ..Plan::default() };
        let what = "fresh handle, reads split up";
        let (out, p) = sys::with_plan(plan, || perform(&w, &fresh, &a, what));
        must(out?, "disturbed", &a, what)?;
        short += p.chopped;
        intr += p.interrupted;
    }
    ctx.add("reads cut short", short);
    ctx.add("reads interrupted", intr);
    ctx.add("lookups", (c.asks.len() + w.all.len()) as u64);
    ctx.label_if(w.deltas, "has deltas");
    ctx.nontrivial(short > 0 && intr > 0);
    Ok(())
}

// ---- split and interrupted reads of damaged files: the same answers as without

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Warped {
    store: StoreSpec,
    /// file, what happens to it, where, with what
    damage: Vec<(u16, u8, u32, u8)>,
    asks: Vec<(Ask, u64)>,
}

fn files_below(dir: &Path, out: &mut Vec<PathBuf>) -> Res {
    for e in std::fs::read_dir(dir)? {
        let p = e?.path();
        if p.is_dir() {
            files_below(&p, out)?;
        } else {
            out.push(p);
        }
    }
    Ok(())
}

/// The answer to a lookup, whatever it is.
fn answer(w: &World, repo: &Repository, ask: &Ask) -> Res<String> {
    let db = repo.object_database();
    let refs = repo.reference_database();
    let object = |id: &Oid| -> Res<String> {
        Ok(match lookup(db, id)? {
            Got::Object(p) => format!("{p:?}"),
            Got::NotFound => "not found".into(),
            Got::Error(_) => "error".into(),
        })
    };
    let failed = |e: &RefError| match e {
        RefError::ReferenceNotFound => "not found".to_string(),
        RefError::DereferencingFailed(x) if x.is_not_found() => "object not found".into(),
        RefError::Io(_) => "i/o error".into(),
        _ => "error".into(),
    };
    let target = |r: Result<Reference, RefError>| match r {
        Ok(r) => format!("{r:?}"),
        Err(e) => failed(&e),
    };
    Ok(match ask {
        Ask::Parse(k) => object(&w.all[*k as usize % w.all.len()].0.id)?,
        Ask::Absent(s) => object(&w.absent(*s))?,
        Ask::Stream(k, piece) => match stream(db, &w.all[*k as usize % w.all.len()].0.id, *piece as usize)? {
            Streamed::Bytes(b) => format!("{} {}", b.len(), hex(&sha1(&b))),
            Streamed::NotFound => "not found".into(),
            Streamed::Error(_) => "error".into(),
        },
        Ask::Ref(k) => target(guard("reference", || refs.reference(w.refs[*k as usize % w.refs.len()].0.as_bytes()))?),
        Ask::Head => target(guard("head", || refs.head())?),
        Ask::Peel(k) => {
            let name = w.refs[*k as usize % w.refs.len()].0.as_bytes();
            match guard("peel", || refs.reference(name).and_then(|r| r.peel(repo).map(|o| (oid_of(o.id()), observe(&o)))))? {
                Ok(x) => format!("{x:?}"),
                Err(e) => failed(&e),
            }
        }
        Ask::List(_) => match guard("reference_names", || refs.reference_names())? {
            Ok(mut v) => {
                v.sort();
                format!("{v:?}")
            }
            Err(e) => failed(&e),
        },
    })
}

fn run_warped(c: &Warped, ctx: &mut Ctx) -> Res {
    let w = c.store.put(&ctx.sub("repo")?)?;
    let mut files = vec![];
    for d in ["objects", "refs"] {
        files_below(&w.git.join(d), &mut files)?;
    }
    files.sort();
    files.push(w.git.join("HEAD"));
    for (f, how, at, with) in &c.damage {
        let f = &files[*f as usize % files.len()];
        let mut b = std::fs::read(f)?;
        let n = b.len().max(1);
        let at = *at as usize;
        match how % 8 {
            0 => b.truncate(n.saturating_sub(1 + at % 8)),
            1 => b.truncate(at % n),
            2 => b.extend(fill(1 + at % 40, *with % 5, at as u64)),
            3 if !b.is_empty() => b[n - 1 - at % n.min(30)] ^= 1 << (with % 8),
            4 if !b.is_empty() => b[at % n] ^= 1 << (with % 8),
            5 if !b.is_empty() => b[at % n.min(40)] = *with,
            6 => {
                let more = b.clone();
                b.extend(more);
            }
            _ => b.push(b'\n'),
        }
        std::fs::write(f, b)?;
    }
    let (calm, rough) = (open(&w.dir)?, open(&w.dir)?);
    let (mut short, mut intr, mut failed) = (0, 0, 0);
    for (i, (a, seed)) in c.asks.iter().enumerate() {
        let want = answer(&w, &calm, a)?;
        let (got, p) = sys::with_plan(Plan { chop: Some(*seed), ..Plan::default() }, || answer(&w, &rough, a));
        let got = got?;
        ensure!(got == want, "disturbed", "lookup {i}, {a:?} of a damaged repository: {want} undisturbed, {got} with reads split up");
        failed += (want.ends_with("error") || want.ends_with("not found")) as u64;
        short += p.chopped;
        intr += p.interrupted;
    }
    ctx.add("reads cut short", short);
    ctx.add("reads interrupted", intr);
    ctx.add("lookups that fail", failed);
    ctx.nontrivial(short + intr > 0 && failed > 0);
    Ok(())
}

// ---- failing calls, every one of them

pub const ERRNOS: [i32; 7] = [libc::EIO, libc::ENOMEM, libc::EMFILE, libc::EACCES, libc::ESTALE, libc::EINVAL, libc::EPERM];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Failing {
    store: StoreSpec,
    before: Vec<Ask>,
    target: Ask,
    after: Vec<Ask>,
    errno: u8,
    persist: bool,
    skip: u64,
}

/// How many places of a lookup are tried.
const POINTS: u64 = 40;

fn run_failing(c: &Failing, ctx: &mut Ctx) -> Res {
    let w = c.store.put(&ctx.sub("repo")?)?;
    let errno = ERRNOS[c.errno as usize % ERRNOS.len()];
    let prepared = || -> Res<Repository> {
        let repo = open(&w.dir)?;
        for a in &c.before {
            must(perform(&w, &repo, a, "before any fault")?, "disturbed", a, "before any fault")?;
        }
        Ok(repo)
    };
    let repo = prepared()?;
    let (out, plan) = sys::with_plan(Plan { reading: true, untyped: c.skip % 3 == 0, ..Plan::default() }, || perform(&w, &repo, &c.target, "no fault"));
    must(out?, "disturbed", &c.target, "no fault")?;
    let calls = plan.count;
    let (mut errors, mut right) = (0u64, 0u64);
    let points: Vec<u64> = if calls <= POINTS {
        (0..calls).collect()
    } else {
        // the first and the last, and some in between
        let mut x = c.skip;
        let mut v: BTreeSet<u64> = (0..12).chain(calls - 8..calls).collect();
        while v.len() < POINTS as usize {
            v.insert(crate::engine::splitmix(&mut x) % calls);
        }
        v.into_iter().collect()
    };
    for k in points {
        let repo = prepared()?;
        let what = format!("call {k} of {calls} fails with errno {errno}{}", if c.persist { ", and all after it" } else { "" });
        let plan = Plan { reading: true, at: Some(k), act: Act::Fail(errno), persist: c.persist, untyped: c.skip % 3 == 0, ..Plan::default() };
        let (out, plan) = sys::with_plan(plan, || perform(&w, &repo, &c.target, &what));
        let on = plan.fired_on;
        match out? {
            Out::Right => right += 1,
            Out::Error(_) if plan.fired => errors += 1,
            o => bad!("fault-misreported", "{what} ({on:?}): {:?} gave {o:?}", c.target),
        }
        if let Some(call) = on {
            ctx.add(format!("fault at {call:?}"), 1);
        }
        let what = format!("after a lookup in which {what} ({on:?})");
        must(perform(&w, &repo, &c.target, &what)?, "fault-lasts", &c.target, &what)?;
        for a in &c.after {
            must(perform(&w, &repo, a, &what)?, "fault-lasts", a, &what)?;
        }
    }
    ctx.add("faults that gave an error", errors);
    ctx.add("faults that did not matter", right);
    ctx.label_if(c.before.is_empty(), "first lookup of the handle");
    ctx.nontrivial(errors > 0);
    Ok(())
}

// ---- histories of faults of all kinds

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    None,
    Chop(u64),
    Fail { at: u8, errno: u8, persist: bool, chop: Option<u64> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faulty {
    store: StoreSpec,
    asks: Vec<(Ask, Fault)>,
}

fn run_faulty(c: &Faulty, ctx: &mut Ctx) -> Res {
    let w = c.store.put(&ctx.sub("repo")?)?;
    let repo = open(&w.dir)?;
    let mut trail: Vec<String> = vec![];
    let (mut errors, mut later) = (0, 0);
    for (i, (a, f)) in c.asks.iter().enumerate() {
        let plan = match f {
            Fault::None => Plan::default(),
            Fault::Chop(s) => Plan { chop: Some(*s), ..Plan::default() },
            Fault::Fail { at, errno, persist, chop } => Plan {
                reading: true,
                at: Some(*at as u64),
                act: Act::Fail(ERRNOS[*errno as usize % ERRNOS.len()]),
                persist: *persist,
                chop: *chop,
                untyped: errno % 16 >= 11,
                ..Plan::default()
            },
        };
        let what = format!("lookup {i} under {f:?}, after faults at [{}]", trail.join(", "));
        let (out, plan) = sys::with_plan(plan, || perform(&w, &repo, a, &what));
        match out? {
            Out::Right => later += (errors > 0) as u64,
            Out::Error(_) if plan.fired => {
                errors += 1;
                trail.push(format!("lookup {i} ({:?})", plan.fired_on));
            }
            o => bad!("fault-misreported", "{what} ({:?}): {a:?} gave {o:?}", plan.fired_on),
        }
    }
    for k in 0..w.all.len() {
        let a = Ask::Parse(k as u16);
        let what = format!("all faults gone, after faults at [{}]", trail.join(", "));
        must(perform(&w, &repo, &a, &what)?, "fault-lasts", &a, &what)?;
    }
    ctx.add("faults that gave an error", errors);
    ctx.add("correct lookups after a fault", later);
    ctx.label_if(errors >= 3, "three or more failed lookups on one handle");
    ctx.nontrivial(errors > 0);
    Ok(())
}

pub fn c20() -> Prop {
    let chopped = |max: u32, packs: usize, items: usize| {
        (store_spec(max, 0..packs + 1, items, 4), vec((ask(), any::<u64>(), proptest::bool::weighted(0.1)), 1..14), any::<u64>())
            .prop_map(|(store, asks, open)| Chopped { store, asks, open })
    };
    let warped = (
        store_spec(2000, 0..3, 5, 4),
        vec((any::<u16>(), any::<u8>(), any::<u32>(), any::<u8>()), 1..8),
        vec((ask(), any::<u64>()), 1..14),
    )
        .prop_map(|(store, damage, asks)| Warped { store, damage, asks });
    let failing = (
        store_spec(3000, 0..3, 6, 3),
        prop_oneof![2 => Just(vec![]), 3 => vec(ask(), 1..4)],
        ask(),
        vec(ask(), 0..4),
        any::<u8>(),
        proptest::bool::weighted(0.4),
        any::<u64>(),
    )
        .prop_map(|(store, before, target, after, errno, persist, skip)| Failing { store, before, target, after, errno, persist, skip });
    let fault = prop_oneof![
        1 => Just(Fault::None),
        1 => any::<u64>().prop_map(Fault::Chop),
        4 => (prop_oneof![4 => 0u8..12, 2 => 0u8..40, 1 => any::<u8>()], any::<u8>(), proptest::bool::weighted(0.3), proptest::option::weighted(0.3, any::<u64>()))
            .prop_map(|(at, errno, persist, chop)| Fault::Fail { at, errno, persist, chop }),
    ];
    let faulty = (store_spec(5000, 0..4, 6, 4), vec((ask(), fault), 2..24)).prop_map(|(store, asks)| Faulty { store, asks });
    Prop {
        id: "C20",
        title: "Short, interrupted and failing file reads never change what is read",
        level: "fault_enumeration",
        rule: "a case is a repository (packs with deltas, loose objects, references) and a history of lookups and listings; its reads are cut short and interrupted at random at the system-call boundary (also with damaged files, whose lookups must come out as without), or a call that opens, reads, seeks or lists fails (each one of the lookup in turn, up to 40 of them; once or from then on) and the lookup and others are repeated on the same handle without faults; non-trivial: reads were both cut and interrupted, or a fault gave an error",
        assumptions: &["the library reaches the system through open, read, lseek, opendir and readdir of libc, as the standard library does", "failing calls give none of ENOENT, ENOTDIR, EINTR, which carry a meaning of their own"],
        arms: vec![
            arm("split-reads", 3000, 80_000, chopped(3000, 2, 8), run_chopped),
            arm("split-reads-large", 250, 6000, chopped(150_000, 2, 5), run_chopped),
            arm("split-reads-damaged", 4000, 120_000, warped, run_warped),
            sched_arm("each-call-fails", 900, 30_000, failing, run_failing),
            sched_arm("fault-histories", 5000, 150_000, faulty, run_faulty),
        ],
    }
}

// ================================================================ C21

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    PackCut(u32),
    PackEmpty,
    PackGone,
    PackJunk(u16, u64),
    PackZero,
    PackAppend(u16, u64),
    PackSignature(u8, u8),
    PackVersion(u32),
    PackCount(u32),
    PackTrailer(u8, u8),
    PackData(u16, u32, u8),
    PackEntry(u16, u8),
    PackSwap(u8),
    PackDir,
    IdxCut(u32),
    IdxEmpty,
    IdxGone,
    IdxJunk(u16, u64),
    IdxZero,
    IdxFlip(u32, u8),
    IdxSum(u8, u8),
    IdxSwap(u8),
    IdxDir,
    LooseCut(u32),
    LooseEmpty,
    LooseJunk(u16, u64),
    LooseFlip(u32, u8),
    LooseOther(u16),
    LooseDir,
}

fn damage() -> BoxedStrategy<Damage> {
    use Damage::*;
    let x = || 1u8..=255;
    let pack = prop_oneof![
        2 => any::<u32>().prop_map(PackCut),
        1 => Just(PackEmpty),
        1 => Just(PackGone),
        1 => (0u16..600, any::<u64>()).prop_map(|(a, b)| PackJunk(a, b)),
        1 => Just(PackZero),
        1 => (1u16..600, any::<u64>()).prop_map(|(a, b)| PackAppend(a, b)),
        1 => (0u8..4, x()).prop_map(|(a, b)| PackSignature(a, b)),
        1 => prop_oneof![Just(0u32), Just(1), Just(4), Just(0x0200_0000), 5..u32::MAX].prop_map(PackVersion),
        1 => any::<u32>().prop_map(PackCount),
        1 => (0u8..20, x()).prop_map(|(a, b)| PackTrailer(a, b)),
        4 => (any::<u16>(), any::<u32>(), x()).prop_map(|(a, b, c)| PackData(a, b, c)),
        1 => (any::<u16>(), x()).prop_map(|(a, b)| PackEntry(a, b)),
        1 => any::<u8>().prop_map(PackSwap),
        1 => Just(PackDir),
    ];
    let idx = prop_oneof![
        2 => any::<u32>().prop_map(IdxCut),
        1 => Just(IdxEmpty),
        1 => Just(IdxGone),
        1 => (0u16..2000, any::<u64>()).prop_map(|(a, b)| IdxJunk(a, b)),
        1 => Just(IdxZero),
        2 => (any::<u32>(), x()).prop_map(|(a, b)| IdxFlip(a, b)),
        1 => (0u8..20, x()).prop_map(|(a, b)| IdxSum(a, b)),
        1 => any::<u8>().prop_map(IdxSwap),
        1 => Just(IdxDir),
    ];
    let loose = prop_oneof![
        2 => any::<u32>().prop_map(LooseCut),
        1 => Just(LooseEmpty),
        1 => (0u16..300, any::<u64>()).prop_map(|(a, b)| LooseJunk(a, b)),
        2 => (any::<u32>(), x()).prop_map(|(a, b)| LooseFlip(a, b)),
        1 => any::<u16>().prop_map(LooseOther),
        1 => Just(LooseDir),
    ];
    prop_oneof![4 => pack, 3 => idx, 2 => loose].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damaged {
    packs: Vec<PackSpec>,
    loose: Vec<(Obj, u8)>,
    /// further copies: (object, 0 loose, 1 first extra pack, 2 second extra pack)
    copies: Vec<(u16, u8)>,
    /// the same packs again under other names
    twins: Vec<(u8, u64)>,
    damage: Vec<(u8, Damage)>,
    strays: Vec<(u8, u64)>,
    /// order in which files are created (and hence found)
    order: u64,
    /// lookups before the damage, on a handle that stays in use
    warm: Vec<u16>,
    in_place: bool,
    asks: Vec<(u16, u8, u16)>,
}

struct Pair {
    base: PathBuf,
    pack: Vec<u8>,
    idx: Vec<u8>,
    ids: Vec<Oid>,
    data: Vec<(usize, usize)>,
    offsets: Vec<u64>,
    raw: Vec<Vec<u8>>,
    state: State,
    warm_state: State,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum State {
    Intact,
    /// what is read from it is exact, or an error
    Hard,
    /// nothing can tell whether what is read from it is right
    Soft,
}

/// Put new content where a file was: none removes it.
fn replace(path: &Path, new: Option<&[u8]>, in_place: bool) -> Res {
    match new {
        Some(b) if in_place => std::fs::write(path, b)?,
        Some(b) => {
            let tmp = path.with_file_name("incoming");
            std::fs::write(&tmp, b)?;
            std::fs::rename(&tmp, path)?;
        }
        None => std::fs::remove_file(path)?,
    }
    Ok(())
}

/// The stream passes its own checks, but with other content.
fn passes_with_other(stream: &[u8], want: &[u8]) -> bool {
    let mut v = vec![];
    let r = flate2::bufread::ZlibDecoder::new(stream).read_to_end(&mut v);
    r.is_ok() && v != want
}

fn scale(pos: u32, len: usize) -> usize {
    (pos as u64 * len as u64 >> 32) as usize
}

fn run_damaged(c: &Damaged, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    // ---- what is stored, and where
    let mut pairs: Vec<Pair> = vec![];
    let mut made: BTreeMap<Oid, Made> = BTreeMap::new();
    let mut order: Vec<Oid> = vec![];
    let mut loose: BTreeMap<Oid, (Vec<u8>, Vec<u8>, State)> = BTreeMap::new();
    let folder = g.join("objects/pack");
    let pair = |bytes: Vec<u8>, idx: Vec<u8>, sum: &Oid, ids: Vec<Oid>, data: Vec<(usize, usize)>, offsets: Vec<u64>, raw: Vec<Vec<u8>>| Pair {
        base: folder.join(format!("pack-{}", hex(sum))),
        pack: bytes,
        idx,
        ids,
        data,
        offsets,
        raw,
        state: State::Intact,
        warm_state: State::Intact,
    };
    let raw_of = |e: &PackEntry| match &e.repr {
        Repr::Whole => e.bytes.clone(),
        Repr::Ofs { delta, .. } | Repr::Ref { delta, .. } => delta.clone(),
    };
    for p in &c.packs {
        let b = p.build();
        if b.made.is_empty() {
            continue;
        }
        for m in &b.made {
            if made.insert(m.id, m.clone()).is_none() {
                order.push(m.id);
            }
        }
        let raw = b.entries.iter().map(raw_of).collect();
        pairs.push(pair(b.pack.bytes.clone(), b.idx.clone(), &b.pack.sum, b.made.iter().map(|m| m.id).collect(), b.pack.data.clone(), b.pack.offsets.clone(), raw));
    }
    for (o, level) in &c.loose {
        let m = o.made();
        let plain = framed(m.kind, &m.bytes);
        loose.insert(m.id, (deflate(&plain, *level), plain, State::Intact));
        if made.insert(m.id, m.clone()).is_none() {
            order.push(m.id);
        }
    }
    if order.is_empty() {
        return Ok(());
    }
    let mut extra: [BTreeSet<Oid>; 2] = Default::default();
    for (k, place) in &c.copies {
        let id = order[*k as usize % order.len()];
        match place % 3 {
            0 => {
                let m = &made[&id];
                let plain = framed(m.kind, &m.bytes);
                loose.entry(id).or_insert_with(|| (deflate(&plain, 6), plain, State::Intact));
            }
            n => {
                extra[n as usize - 1].insert(id);
            }
        }
    }
    for (i, set) in extra.iter().enumerate() {
        if set.is_empty() {
            continue;
        }
        let entries: Vec<PackEntry> = set
            .iter()
            .map(|id| PackEntry { id: *id, kind: made[id].kind, bytes: made[id].bytes.clone(), repr: Repr::Whole, level: 1 + i as u8 * 8, gap: 0, pad: 0 })
            .collect();
        let p = build_pack(2, &entries);
        let ids: Vec<Oid> = set.iter().copied().collect();
        let idx = idx_for(&p, &ids, 2 - i as u8, None);
        let raw = entries.iter().map(raw_of).collect();
        pairs.push(pair(p.bytes.clone(), idx, &p.sum, ids, p.data.clone(), p.offsets.clone(), raw));
    }
    if !pairs.is_empty() {
        for (which, seed) in &c.twins {
            let p = &pairs[*which as usize % pairs.len()];
            let twin = Pair {
                base: folder.join(format!("pack-{}", hex(&sha1(&seed.to_le_bytes())))),
                pack: p.pack.clone(),
                idx: p.idx.clone(),
                ids: p.ids.clone(),
                data: p.data.clone(),
                offsets: p.offsets.clone(),
                raw: p.raw.clone(),
                ..*p
            };
            pairs.push(twin);
        }
    }
    let mut names = BTreeSet::new();
    pairs.retain(|p| names.insert(p.base.clone()));
    // ---- files, created in some order
    let mut files: Vec<(PathBuf, Vec<u8>)> = vec![];
    for p in &pairs {
        files.push((p.base.with_extension("pack"), p.pack.clone()));
        files.push((p.base.with_extension("idx"), p.idx.clone()));
    }
    for (id, (f, ..)) in &loose {
        files.push((loose_path(&g, id), f.clone()));
    }
    for (kind, seed) in &c.strays {
        let name = format!("pack-{}", hex(&sha1(&seed.to_be_bytes())));
        let some = (!pairs.is_empty()).then(|| &pairs[*seed as usize % pairs.len()]);
        match kind % 10 {
            0 => {
                if let Some(p) = some {
                    files.push((folder.join(format!("{name}.idx")), p.idx.clone()));
                }
            }
            1 => std::fs::create_dir_all(folder.join(format!("{name}.idx")))?,
            2 => {
                files.push((folder.join("tmp_pack_a8Bc2d"), fill(*seed as usize % 400, 2, *seed)));
                files.push((folder.join("tmp_idx_x8Bc2d"), vec![]));
            }
            3 => files.push((folder.join(format!("{name}.idx")), vec![])),
            4 => files.push((folder.join(format!("{name}.pack")), fill(*seed as usize % 400, 2, *seed))),
            5 => {
                files.push((folder.join("multi-pack-index"), fill(300, 2, *seed)));
                for e in ["keep", "rev", "bitmap", "mtimes", "promisor", "idx.lock"] {
                    files.push((folder.join(format!("{name}.{e}")), fill(*seed as usize % 60, 2, *seed)));
                }
            }
            6 => std::os::unix::fs::symlink("nowhere", folder.join(format!("{name}.idx")))?,
            7 => {
                use std::os::unix::ffi::OsStrExt;
                files.push((folder.join(std::ffi::OsStr::from_bytes(b"pack-\xff\xfe.idx")), fill(*seed as usize % 1200, 2, *seed)));
                files.push((folder.join(".idx"), vec![0xff, b't', b'O', b'c']));
            }
            8 => {
                // the same pack under another name
                if let Some(p) = some {
                    files.push((folder.join(format!("{name}.idx")), p.idx.clone()));
                    files.push((folder.join(format!("{name}.pack")), p.pack.clone()));
                }
            }
            _ => files.push((g.join("objects/info/alternates.bak"), vec![b'x'; 5])),
        }
    }
    let duplicate_pairs = c.strays.iter().any(|(k, _)| k % 10 == 8);
    let mut x = c.order;
    for i in (1..files.len()).rev() {
        files.swap(i, crate::engine::splitmix(&mut x) as usize % (i + 1));
    }
    for (p, b) in &files {
        std::fs::create_dir_all(p.parent().unwrap())?;
        std::fs::write(p, b)?;
    }
    // ---- a handle from before the damage
    let warm = open(&dir)?;
    for k in &c.warm {
        expect_object(warm.object_database(), &made[&order[*k as usize % order.len()]], "before the damage")?;
    }
    // ---- damage
    let mut done: Vec<String> = vec![];
    let loose_ids: Vec<Oid> = loose.keys().copied().collect();
    let others: Vec<(Vec<u8>, Vec<u8>)> = pairs.iter().map(|p| (p.pack.clone(), p.idx.clone())).collect();
    let mut hit = BTreeSet::new();
    for (which, d) in &c.damage {
        use Damage::*;
        let is_loose = matches!(d, LooseCut(_) | LooseEmpty | LooseJunk(..) | LooseFlip(..) | LooseOther(_) | LooseDir);
        if is_loose {
            if loose_ids.is_empty() {
                continue;
            }
            let id = loose_ids[*which as usize % loose_ids.len()];
            let path = loose_path(&g, &id);
            if !hit.insert(path.clone()) {
                continue;
            }
            let (file, plain, state) = loose.get_mut(&id).unwrap();
            *state = State::Hard;
            match d {
                LooseCut(k) => replace(&path, Some(&file[..scale(*k, file.len())]), c.in_place)?,
                LooseEmpty => replace(&path, Some(&[]), c.in_place)?,
                LooseJunk(n, s) => replace(&path, Some(&fill(*n as usize, 2, *s)), c.in_place)?,
                LooseFlip(p, v) => {
                    let mut f = file.clone();
                    let p = scale(*p, f.len());
                    f[p] ^= *v;
                    if passes_with_other(&f, plain) {
                        *state = State::Soft;
                    }
                    replace(&path, Some(&f), c.in_place)?;
                }
                LooseOther(k) => {
                    *state = State::Soft;
                    let o = &made[&order[*k as usize % order.len()]];
                    let f = deflate(&framed(o.kind, &o.bytes), 6);
                    replace(&path, Some(&f), c.in_place)?;
                }
                _ => {
                    std::fs::remove_file(&path)?;
                    std::fs::create_dir(&path)?;
                }
            }
            done.push(format!("{d:?} on the loose {}", hex(&id)));
            continue;
        }
        if pairs.is_empty() {
            continue;
        }
        let k = *which as usize % pairs.len();
        let pick = |o: u8| &others[(k + 1 + o as usize % others.len()) % others.len()];
        let p = &mut pairs[k];
        let on_pack = matches!(
            d,
            PackCut(_) | PackEmpty | PackGone | PackJunk(..) | PackZero | PackAppend(..) | PackSignature(..) | PackVersion(_) | PackCount(_) | PackTrailer(..) | PackData(..) | PackEntry(..) | PackSwap(_) | PackDir
        );
        let path = p.base.with_extension(if on_pack { "pack" } else { "idx" });
        if !hit.insert(path.clone()) {
            continue;
        }
        let mut state = State::Hard;
        let mut warm_state = State::Hard;
        let mut f = if on_pack { p.pack.clone() } else { p.idx.clone() };
        let n = f.len();
        let new = match d {
            PackCut(k) | IdxCut(k) => {
                f.truncate(scale(*k, n));
                Some(f)
            }
            PackEmpty | IdxEmpty => Some(vec![]),
            PackGone | IdxGone | PackDir | IdxDir => None,
            PackJunk(n, s) | IdxJunk(n, s) => Some(fill(*n as usize, 2, *s)),
            PackZero | IdxZero => Some(vec![0; n]),
            PackAppend(n, s) => {
                f.extend(fill(*n as usize, 2, *s));
                Some(f)
            }
            PackSignature(i, v) => {
                f[*i as usize] ^= *v;
                Some(f)
            }
            PackVersion(v) => {
                f[4..8].copy_from_slice(&v.to_be_bytes());
                Some(f)
            }
            PackCount(v) => {
                let v = if *v as usize == p.ids.len() { v ^ 1 } else { *v };
                f[8..12].copy_from_slice(&v.to_be_bytes());
                Some(f)
            }
            PackTrailer(i, v) => {
                f[n - 20 + *i as usize] ^= *v;
                Some(f)
            }
            PackData(e, pos, v) => {
                let e = *e as usize % p.ids.len();
                let (s, t) = p.data[e];
                f[s + scale(*pos, t - s)] ^= *v;
                if passes_with_other(&f[s..], &p.raw[e]) {
                    state = State::Soft;
                    warm_state = State::Soft;
                }
                Some(f)
            }
            PackEntry(e, v) => {
                state = State::Soft;
                warm_state = State::Soft;
                let at = p.offsets[*e as usize % p.ids.len()] as usize;
                f[at] ^= *v;
                Some(f)
            }
            PackSwap(o) => {
                warm_state = State::Soft;
                let o = &pick(*o).0;
                if *o == f {
                    f.truncate(n / 2);
                    Some(f)
                } else {
                    Some(o.clone())
                }
            }
            IdxFlip(pos, v) => {
                state = State::Soft;
                f[scale(*pos, n)] ^= *v;
                Some(f)
            }
            IdxSum(i, v) => {
                f[n - 40 + *i as usize] ^= *v;
                Some(f)
            }
            IdxSwap(o) => {
                let o = &pick(*o).1;
                if *o == f {
                    f.truncate(n / 2);
                    Some(f)
                } else {
                    Some(o.clone())
                }
            }
            _ => None,
        };
        // a handle that loads the pair only now is in the place of a new one
        if c.warm.is_empty() {
            warm_state = state.max(warm_state);
        }
        replace(&path, new.as_deref(), c.in_place)?;
        if matches!(d, PackDir | IdxDir) {
            std::fs::create_dir(&path)?;
        }
        p.state = p.state.max(state);
        p.warm_state = p.warm_state.max(warm_state).max(if on_pack { State::Intact } else { state });
        done.push(format!("{d:?} on {}", path.file_name().unwrap().to_string_lossy()));
    }
    let what_damage = done.join("; ");
    // ---- what must still be readable
    let state_of = |id: &Oid, warm: bool| -> (bool, bool) {
        let mut intact = false;
        let mut soft = false;
        for p in pairs.iter().filter(|p| p.ids.contains(id)) {
            intact |= p.state == State::Intact;
            soft |= (if warm { p.warm_state } else { p.state }) == State::Soft;
        }
        if let Some(l) = loose.get(id) {
            intact |= l.2 == State::Intact;
            soft |= l.2 == State::Soft;
        }
        (intact, soft)
    };
    let (mut must_n, mut second, mut lost) = (0u64, 0u64, 0u64);
    let mut handles = vec![warm, open(&dir)?, open(&dir)?];
    let check = |h: &Repository, warm: bool, id: &Oid, piece: Option<u16>, what: &str, t: &mut (u64, u64, u64)| -> Res {
        let m = &made[id];
        let (intact, soft) = state_of(id, warm);
        let what = format!("{what}, damage: {what_damage}");
        let db = h.object_database();
        let damaged_copy = pairs.iter().any(|p| p.state != State::Intact && p.ids.contains(id)) || loose.get(id).map_or(false, |l| l.2 != State::Intact);
        if intact && !soft {
            match piece {
                None => expect_object(db, m, &what)?,
                Some(n) => expect_stream(db, m, n as usize, loose.contains_key(id), pairs.iter().any(|p| p.ids.contains(id)) || duplicate_pairs, &what)?,
            }
            t.0 += 1;
            t.1 += damaged_copy as u64;
        } else {
            // whatever comes, without a crash
            match lookup(db, id)? {
                Got::Object(p) if p == m.want => (),
                Got::Object(p) if !soft => bad!("damaged-accepted", "{what}: {} was read as {p:?} instead of {:?}", hex(id), m.want),
                _ => t.2 += 1,
            }
        }
        Ok(())
    };
    let mut t = (0, 0, 0);
    for (i, (k, h, how)) in c.asks.iter().enumerate() {
        let id = order[*k as usize % order.len()];
        let h = *h as usize;
        if h % 8 == 7 {
            handles[2] = open(&dir)?;
        }
        let h = h % 3;
        let piece = match how % 3 {
            0 => Some(how / 3 % 4000),
            _ => None,
        };
        if how % 31 == 5 {
            let absent = sha1(format!("absent {i} {how}").as_bytes());
            if let Got::Object(p) = lookup(handles[h].object_database(), &absent)? {
                bad!("phantom", "absent id {} gave {p:?}, damage: {what_damage}", hex(&absent));
            }
        }
        check(&handles[h], h == 0, &id, piece, &format!("lookup {i} on handle {h}"), &mut t)?;
    }
    let last = open(&dir)?;
    for id in &order {
        check(&last, false, id, None, "fresh handle", &mut t)?;
        check(&handles[0], true, id, None, "handle from before the damage", &mut t)?;
    }
    must_n += t.0;
    second += t.1;
    lost += t.2;
    ctx.add("lookups of objects that must be found", must_n);
    ctx.add("of these with another, damaged copy", second);
    ctx.add("lookups of objects lost to the damage", lost);
    ctx.label_if(pairs.iter().any(|p| p.state != State::Intact), "damaged pack or index");
    ctx.label_if(loose.values().any(|l| l.2 != State::Intact), "damaged loose file");
    ctx.label_if(!c.strays.is_empty(), "stray files");
    ctx.label_if(pairs.len() >= 2, "two or more packs");
    ctx.label_if(!c.twins.is_empty(), "a pack under several names");
    for (_, d) in &c.damage {
        let t = format!("{d:?}");
        ctx.label(t.split('(').next().unwrap().to_string());
    }
    ctx.nontrivial(!done.is_empty() && must_n > 0);
    Ok(())
}

/// One object in many packs, all but one of them damaged where it lies.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Copies {
    shared: Obj,
    /// of each pack: the object it holds besides, what is done to the shared one
    packs: Vec<(Obj, u8)>,
    good: u8,
    delta: u16,
    loose_too: bool,
    asks: u8,
}

fn run_copies(c: &Copies, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let m = c.shared.made();
    let n = c.packs.len();
    let good = c.good as usize % n;
    let mut own: Vec<Made> = vec![];
    for (k, (o, how)) in c.packs.iter().enumerate() {
        let o = o.made();
        let whole = |m: &Made| PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr: Repr::Whole, level: 6, gap: 0, pad: 0 };
        // what makes the pack differ from the others
        let mark = blob_made(format!("in pack {k}").into_bytes());
        let mut e: Vec<PackEntry> = vec![];
        for x in [mark, o] {
            if x.id != m.id && e.iter().all(|y| y.id != x.id) {
                e.push(whole(&x));
                own.push(x);
            }
        }
        if c.delta >> (k % 16) & 1 == 1 {
            let base = edit(&m.bytes, k as u64, *how);
            let id = object_id(m.kind, &base);
            if e.iter().all(|x| x.id != id) && id != m.id {
                let delta = encode_delta(base.len() as u64, m.bytes.len() as u64, &diff_ops(&base, &m.bytes, k as u64), (0, 0));
                e.push(PackEntry { id, kind: m.kind, bytes: base, repr: Repr::Whole, level: 6, gap: 0, pad: 0 });
                e.push(PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr: Repr::Ofs { base: e.len() - 1, delta }, level: 6, gap: 0, pad: 0 });
            } else {
                e.push(whole(&m));
            }
        } else {
            e.push(whole(&m));
        }
        let ids: Vec<Oid> = e.iter().map(|e| e.id).collect();
        let pack = build_pack(2, &e);
        let idx = idx_for(&pack, &ids, 2, None);
        let mut bytes = pack.bytes.clone();
        let (from, to) = *pack.data.last().unwrap();
        if k != good {
            match how % 3 {
                // the whole stream
                0 => bytes[from..to].fill(0),
                // its end, where the content is checked
                1 => bytes[to - 4..to].iter_mut().for_each(|b| *b ^= 0x55),
                _ => bytes[from..from + 2].iter_mut().for_each(|b| *b ^= 0xff),
            }
        }
        put_pack(&g, &bytes, &idx, &pack.sum)?;
    }
    if c.loose_too {
        // a loose copy, damaged as well
        put_loose(&g, &m, 6)?;
        let at = g.join("objects").join(&hex(&m.id)[..2]).join(&hex(&m.id)[2..]);
        std::fs::write(&at, b"\x78\x9c\xff\xff\xff\xff")?;
    }
    let repo = open(&dir)?;
    for k in 0..2 + c.asks % 3 {
        expect_object(repo.object_database(), &m, &format!("lookup {k} of an object with one intact copy, in {n} packs"))?;
        if let Some(o) = own.get(c.asks as usize * 7 % own.len().max(1)) {
            expect_object(repo.object_database(), o, "another object of these packs")?;
        }
    }
    for o in &own {
        expect_object(repo.object_database(), o, "an object of one of these packs")?;
    }
    expect_object(open(&dir)?.object_database(), &m, "fresh handle")?;
    ctx.label(match n {
        0..=3 => "2-3 copies",
        4..=7 => "4-7 copies",
        8..=16 => "8-16 copies",
        _ => "more copies",
    });
    ctx.label_if(c.loose_too, "a damaged loose copy besides");
    ctx.label_if(c.delta != 0, "copies that are deltas");
    ctx.nontrivial(n > 3);
    Ok(())
}

pub fn c21() -> Prop {
    let case = |max: u32, packs: usize, items: usize| {
        (
            vec(pack_spec(obj(max), items), 1..packs + 1),
            vec((obj(max), level()), 0..5),
            (vec((any::<u16>(), any::<u8>()), 0..9), prop_oneof![3 => Just(vec![]), 1 => vec((any::<u8>(), any::<u64>()), 1..3)]),
            vec((any::<u8>(), damage()), 1..4),
            vec((any::<u8>(), any::<u64>()), 0..3),
            any::<u64>(),
            prop_oneof![1 => Just(vec![]), 1 => vec(any::<u16>(), 1..4)],
            any::<bool>(),
            vec((any::<u16>(), any::<u8>(), any::<u16>()), 1..20),
        )
            .prop_map(|(packs, loose, (copies, twins), damage, strays, order, warm, in_place, asks)| Damaged { packs, loose, copies, twins, damage, strays, order, warm, in_place, asks })
    };
    Prop {
        id: "C21",
        title: "A damaged storage file never hides objects stored in other files",
        level: "exploration",
        rule: "a case is a repository of up to six packs and loose objects, some objects with several copies, of which one to three files are damaged (cut, emptied, removed, replaced by junk, zeros, a directory or another file's content, header, checksum, data or table bytes changed), with stray files beside them, or one object in 2 to 150 packs of which all but one are damaged where it lies; objects are looked up in random order on a handle from before the damage and on new ones; every object with an intact copy and no copy whose damage nothing could detect must be read exactly; non-trivial: something was damaged and some object had to be found",
        assumptions: &["damage after which a file still passes its own checks with other content (changed index entries, entry headers, another object's loose file) exempts the objects with a copy in that file"],
        arms: vec![
            sched_arm("small", 8000, 250_000, case(300, 4, 6), run_damaged),
            sched_arm("larger", 500, 15_000, case(20_000, 3, 8), run_damaged),
            arm(
                "many-copies",
                1000,
                40_000,
                (obj(600), prop_oneof![8 => vec((small_obj(), any::<u8>()), 2..20), 1 => vec((small_obj(), any::<u8>()), 20..150)], any::<u8>(), prop_oneof![1 => Just(0u16), 1 => any::<u16>()], proptest::bool::weighted(0.2), any::<u8>())
                    .prop_map(|(shared, packs, good, delta, loose_too, asks)| Copies { shared, packs, good, delta, loose_too, asks }),
                run_copies,
            ),
        ],
    }
}
