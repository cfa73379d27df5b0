//! What errors say about a failure, and what printed values show (C26).
use super::faults::{store_spec, StoreSpec, World, ERRNOS};
use super::*;
use crate::store::*;
use crate::sys::{self, Act, Plan};
use crate::{bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use rusty_git::object::{Id, ObjectData};
use rusty_git::reference::Reference;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::error::Error;
use std::fmt::Debug;
use std::path::PathBuf;
use std::str::FromStr;

// ---------------------------------------------------------------- errors

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Parse(u16),
    Read(u16),
    Absent(u64),
    Ref(u16),
    Peel(u16),
    Head,
    List(u8),
    Write(u64),
    Open,
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => any::<u16>().prop_map(Op::Parse),
        2 => any::<u16>().prop_map(Op::Read),
        1 => any::<u64>().prop_map(Op::Absent),
        2 => any::<u16>().prop_map(Op::Ref),
        3 => any::<u16>().prop_map(Op::Peel),
        1 => Just(Op::Head),
        2 => any::<u8>().prop_map(Op::List),
        3 => any::<u64>().prop_map(Op::Write),
    ]
    .boxed()
}

/// A failure as a caller sees it.
#[derive(Debug)]
struct Report {
    text: String,
    /// the operating system's error numbers in the chain of causes
    errnos: Vec<i32>,
    /// the id the error is about, and the id asked for
    id: Option<(String, String)>,
    not_found: bool,
    ambiguous: bool,
    /// the caller itself was the one to read: the error is the reader's
    stream: bool,
}

fn report(e: &(dyn Error + 'static)) -> Report {
    let mut errnos = vec![];
    let mut c: Option<&(dyn Error + 'static)> = Some(e);
    let mut n = 0;
    while let Some(e) = c {
        if let Some(n) = e.downcast_ref::<std::io::Error>().and_then(|e| e.raw_os_error()) {
            errnos.push(n);
        }
        c = e.source();
        n += 1;
        if n > 100 {
            break;
        }
    }
    let _ = (format!("{e:?}"), format!("{e:#?}"), format!("{e:#}"));
    Report { text: if n > 100 { "an endless chain of causes".into() } else { err_text(e) }, errnos, id: None, not_found: false, ambiguous: false, stream: false }
}

fn object_report(e: &rusty_git::object::ReadObjectError, id: &Oid) -> Report {
    Report { id: Some((e.id().to_string(), hex(id))), not_found: e.is_not_found(), ambiguous: e.is_ambiguous(), ..report(e) }
}

fn ref_report(e: &rusty_git::reference::Error) -> Report {
    use rusty_git::reference::Error as R;
    match e {
        R::DereferencingFailed(x) => Report { not_found: x.is_not_found(), ambiguous: x.is_ambiguous(), ..report(e) },
        R::ReferenceNotFound => Report { not_found: true, ..report(e) },
        _ => report(e),
    }
}

/// None: it succeeded.
fn attempt(w: &World, repo: &Repository, op: &Op) -> Res<Option<Report>> {
    let db = repo.object_database();
    let refs = repo.reference_database();
    let name = |k: u16| w.refs[k as usize % w.refs.len()].0.as_bytes();
    guard(&format!("{op:?}"), || match op {
        Op::Parse(k) => {
            let id = w.all[*k as usize % w.all.len()].0.id;
            db.parse_object(id_of(&id)).err().map(|e| object_report(&e, &id))
        }
        Op::Absent(s) => {
            let id = w.absent(*s);
            db.parse_object(id_of(&id)).err().map(|e| object_report(&e, &id))
        }
        Op::Read(k) => {
            let id = w.all[*k as usize % w.all.len()].0.id;
            match db.read_object(id_of(&id)) {
                Err(e) => Some(object_report(&e, &id)),
                Ok(mut r) => r.reader().read_to_end(&mut vec![]).err().map(|e| Report { stream: true, ..report(&e) }),
            }
        }
        Op::Ref(k) => refs.reference(name(*k)).err().map(|e| ref_report(&e)),
        Op::Peel(k) => refs.reference(name(*k)).and_then(|r| r.peel(repo)).err().map(|e| ref_report(&e)),
        Op::Head => refs.head().err().map(|e| ref_report(&e)),
        Op::List(n) => match n % 4 {
            0 => refs.head_reference_names(),
            1 => refs.tag_reference_names(),
            2 => refs.remote_reference_names(),
            _ => refs.reference_names(),
        }
        .err()
        .map(|e| ref_report(&e)),
        Op::Write(s) => db.write_object(&framed(Kind::Blob, &s.to_be_bytes())).err().map(|e| report(&e)),
        Op::Open => Repository::open(w.dir.clone()).err().map(|e| report(&e)),
    })
}

fn common(r: &Report, what: &str) -> Res {
    ensure!(!r.ambiguous, "ambiguous", "{what}: a full id was reported as ambiguous: {}", r.text);
    if let Some((got, asked)) = &r.id {
        ensure!(got == asked, "wrong-error-id", "{what}: asked for {asked}, the error is about {got}");
        ensure!(r.text.contains(&asked[..]), "id-not-printed", "{what}: the error for {asked} prints as `{}`", r.text);
    }
    ensure!(!r.text.trim().is_empty(), "silent-error", "{what}: the error prints as nothing");
    ensure!(r.text != "an endless chain of causes", "endless-causes", "{what}: more than 100 causes");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Failing {
    store: StoreSpec,
    before: Vec<Op>,
    ops: Vec<Op>,
    errno: u8,
    at: u64,
    /// every further call fails too
    lasting: bool,
}

fn run_failing(c: &Failing, ctx: &mut Ctx) -> Res {
    let w = c.store.put(&ctx.sub("repo")?)?;
    let errno = ERRNOS[c.errno as usize % ERRNOS.len()];
    let base = w.git.to_str().unwrap().to_string();
    let mut at = c.at;
    let (mut reported, mut kinds) = (0u64, BTreeSet::new());
    for (i, op) in c.ops.iter().enumerate() {
        // how many calls there are to fail
        let prepared = || -> Res<Repository> {
            let repo = open(&w.dir)?;
            for b in &c.before {
                attempt(&w, &repo, b)?;
            }
            Ok(repo)
        };
        let writes = matches!(op, Op::Write(_));
        let repo = prepared()?;
        let (out, plan) = sys::with_plan(Plan { reading: true, mutating: writes, ..Plan::default() }, || attempt(&w, &repo, op));
        if let Some(r) = out? {
            let absent = matches!(op, Op::Absent(_));
            let deep = matches!(op, Op::Peel(_));
            if !(absent && r.not_found) && !deep {
                bad!("refused", "{op:?} failed without any fault: {}", r.text);
            }
            if absent {
                common(&r, "no fault")?;
                ensure!(r.errnos.is_empty(), "invented-cause", "nothing failed, but the absent object's error is `{}`", r.text);
            }
        }
        for _ in 0..4 {
            if plan.count == 0 {
                break;
            }
            let k = crate::engine::splitmix(&mut at) % plan.count;
            let op = match op {
                Op::Write(s) => Op::Write(s.wrapping_add(crate::engine::splitmix(&mut at))),
                o => o.clone(),
            };
            let repo = prepared()?;
            let p = Plan { reading: true, mutating: writes, at: Some(k), act: Act::Fail(errno), persist: c.lasting, ..Plan::default() };
            let (out, p) = sys::with_plan(p, || attempt(&w, &repo, &op));
            let Some(r) = out? else { continue };
            let call = p.fired_on;
            let path = p.fired_path.as_ref().map(|p| String::from_utf8_lossy(p).into_owned());
            let what = format!("operation {i}, {op:?}, call {k} ({call:?} {path:?}) fails with errno {errno}{}", if c.lasting { ", and all after it" } else { "" });
            common(&r, &what)?;
            if r.not_found && matches!(op, Op::Absent(_)) {
                // whatever could not be read, the object is not there
                continue;
            }
            ensure!(!r.not_found, "misreported", "{what}: reported as not found: {}", r.text);
            if matches!(op, Op::Peel(_)) && !p.fired {
                continue;
            }
            ensure!(r.errnos.contains(&errno), "cause-lost", "{what}: the error does not lead to the failure: `{}`, error numbers {:?}", r.text, r.errnos);
            // listings and writes deal with files that are not the caller's business
            if matches!(op, Op::List(_) | Op::Write(_)) {
            } else if let (Some(path), false) = (&path, c.lasting) {
                let shown = path.trim_end_matches('/');
                ensure!(r.text.contains(shown), "file-not-named", "{what}: the error does not name the file: `{}`", r.text);
            } else {
                ensure!(r.text.contains(&base), "file-not-named", "{what}: the error does not name a file: `{}`", r.text);
            }
            reported += 1;
            kinds.insert(format!("{call:?}"));
        }
    }
    for k in &kinds {
        ctx.label(format!("failed at {k}"));
    }
    ctx.add("failures reported", reported);
    ctx.nontrivial(reported > 0);
    Ok(())
}

// ---------------------------------------------------------------- files that cannot be reached

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Place {
    Object,
    ObjectDir,
    Pack,
    Idx,
    PackDir,
    Ref,
    RefDir,
    Head,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Block {
    /// a symbolic link to itself
    Loop,
    /// a symbolic link to a name that no file can have
    TooLong,
    /// a directory in place of a file
    Dir,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unreachable {
    objs: Vec<Obj>,
    place: Place,
    block: Block,
    which: u8,
    before: bool,
    stream: bool,
}

fn run_unreachable(c: &Unreachable, ctx: &mut Ctx) -> Res {
    use std::os::unix::fs::symlink;
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let packed = matches!(c.place, Place::Pack | Place::Idx | Place::PackDir);
    let mut ids = BTreeSet::new();
    let made: Vec<Made> = c.objs.iter().map(|o| o.made()).filter(|m| ids.insert(m.id)).collect();
    let m = &made[c.which as usize % made.len()];
    let other = blob_made(b"somewhere else".to_vec());
    put_loose(&g, &other, 6)?;
    let mut path = match c.place {
        Place::Object => loose_path(&g, &m.id),
        Place::ObjectDir => loose_path(&g, &m.id).parent().unwrap().to_path_buf(),
        Place::PackDir => g.join("objects/pack"),
        Place::Ref => g.join("refs/heads/it"),
        Place::RefDir => g.join("refs/heads"),
        _ => g.join("HEAD"),
    };
    if packed {
        let e: Vec<PackEntry> = made
            .iter()
            .map(|m| PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr: Repr::Whole, level: 6, gap: 0, pad: 0 })
            .collect();
        let ids: Vec<Oid> = e.iter().map(|e| e.id).collect();
        let p = build_pack(2, &e);
        let at = put_pack(&g, &p.bytes, &idx_for(&p, &ids, 2, None), &p.sum)?;
        match c.place {
            Place::Pack => path = at.with_extension("pack"),
            Place::Idx => path = at.with_extension("idx"),
            _ => (),
        }
    } else {
        for m in &made {
            put_loose(&g, m, 6)?;
        }
    }
    std::fs::write(g.join("refs/heads/it"), format!("{}\n", hex(&m.id)))?;
    std::fs::write(g.join("HEAD"), "ref: refs/heads/it\n")?;
    let repo = open(&dir)?;
    if c.before {
        expect_object(repo.object_database(), &other, "before")?;
        let absent = sha1(b"absent before");
        expect_absent(repo.object_database(), &absent, "before")?;
        if packed {
            return Ok(());
        }
    }
    let folder = matches!(c.place, Place::ObjectDir | Place::PackDir | Place::RefDir);
    std::fs::rename(&path, ctx.dir.join("away"))?;
    let errnos: &[i32] = match c.block {
        _ if folder && matches!(c.block, Block::Dir) => {
            // what is in the folder is gone: a loop again
            symlink(&path, &path)?;
            &[libc::ELOOP]
        }
        Block::Loop => {
            symlink(&path, &path)?;
            &[libc::ELOOP]
        }
        Block::TooLong => {
            symlink("x".repeat(300), &path)?;
            &[libc::ENAMETOOLONG]
        }
        Block::Dir => {
            std::fs::create_dir(&path)?;
            &[libc::EISDIR]
        }
    };
    let what = format!("{:?} ({}) cannot be reached: {:?}", c.place, path.display(), c.block);
    let db = repo.object_database();
    let refs = repo.reference_database();
    let mut seen: Vec<(&str, Report)> = vec![];
    let name: &[u8] = if matches!(c.place, Place::Head) { b"HEAD" } else { b"refs/heads/it" };
    if matches!(c.place, Place::Ref | Place::RefDir | Place::Head) {
        if let Some(r) = guard("reference", || refs.reference(name).err().map(|e| ref_report(&e)))? {
            seen.push(("reference", r));
        }
        if let Some(r) = guard("head", || refs.head().and_then(|r| r.peel(&repo)).err().map(|e| ref_report(&e)))? {
            seen.push(("head", r));
        }
    } else {
        let r = guard("read", || {
            if c.stream {
                match db.read_object(id_of(&m.id)) {
                    Err(e) => Some(object_report(&e, &m.id)),
                    Ok(mut r) => r.reader().read_to_end(&mut vec![]).err().map(|e| report(&e)),
                }
            } else {
                db.parse_object(id_of(&m.id)).err().map(|e| object_report(&e, &m.id))
            }
        })?;
        match r {
            Some(r) => seen.push(("lookup", r)),
            None => bad!("read", "{what}: but {} was read", hex(&m.id)),
        }
        if let Some(r) = guard("peel", || refs.reference(b"refs/heads/it").and_then(|r| r.peel(&repo)).err().map(|e| ref_report(&e)))? {
            seen.push(("peel", r));
        }
    }
    ensure!(!seen.is_empty(), "read", "{what}: but everything was read");
    for (which, r) in &seen {
        let what = format!("{what}: {which}");
        common(r, &what)?;
        ensure!(!r.not_found, "misreported", "{what}: reported as not found: {}", r.text);
        ensure!(errnos.iter().any(|e| r.errnos.contains(e)), "cause-lost", "{what}: the error does not lead to the failure: `{}`, error numbers {:?}", r.text, r.errnos);
        ensure!(r.text.contains(path.to_str().unwrap()), "file-not-named", "{what}: the error does not name the file: `{}`", r.text);
    }
    ctx.label(format!("{:?} {:?}", c.place, c.block));
    ctx.nontrivial(true);
    Ok(())
}

// ---------------------------------------------------------------- broken files

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Break {
    PackGone,
    PackEmpty,
    PackCut(u16),
    PackSignature(u8),
    PackVersion(u8),
    PackDir,
    IdxEmpty,
    IdxHeader(u8),
    IdxVersion(u8),
    IdxCut(u16),
    IdxDir,
    Foreign,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Broken {
    packs: Vec<PackSpec>,
    loose: Vec<Obj>,
    which: u8,
    what: Break,
    twice: bool,
}

fn run_broken(c: &Broken, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let mut built: Vec<(BuiltPack, PathBuf)> = vec![];
    let mut seen = BTreeSet::new();
    for o in &c.loose {
        let m = o.made();
        seen.insert(m.id);
        put_loose(&g, &m, 6)?;
    }
    let mut packs = BTreeSet::new();
    for p in &c.packs {
        let b = p.build();
        if b.made.is_empty() || !packs.insert(b.pack.sum) {
            continue;
        }
        let p = b.put(&g)?;
        built.push((b, p));
    }
    if built.is_empty() {
        return Ok(());
    }
    let k = c.which as usize % built.len();
    for (i, (b, _)) in built.iter().enumerate() {
        if i != k {
            seen.extend(b.made.iter().map(|m| m.id));
        }
    }
    let (b, _) = &built[k];
    let only: Vec<&Made> = b.made.iter().filter(|m| !seen.contains(&m.id)).collect();
    let stem = format!("pack-{}", hex(&b.pack.sum));
    let pack = g.join("objects/pack").join(format!("{stem}.pack"));
    let idx = g.join("objects/pack").join(format!("{stem}.idx"));
    let (mut pf, mut xf) = (b.pack.bytes.clone(), b.idx.clone());
    let cut = |v: &mut Vec<u8>, at: u16, min: usize| {
        let n = v.len();
        v.truncate(min.min(n) + at as usize % (n - min.min(n)).max(1));
    };
    match &c.what {
        Break::PackGone => std::fs::remove_file(&pack)?,
        Break::PackDir => {
            std::fs::remove_file(&pack)?;
            std::fs::create_dir(&pack)?;
        }
        Break::IdxDir => {
            std::fs::remove_file(&idx)?;
            std::fs::create_dir(&idx)?;
        }
        w => {
            match w {
                Break::PackEmpty => pf.clear(),
                Break::PackCut(at) => cut(&mut pf, *at % 32, 0),
                Break::PackSignature(x) => pf[(*x % 4) as usize] ^= 1 + x / 4,
                Break::PackVersion(x) => pf[(4 + *x % 4) as usize] ^= 8 + (x / 4) % 8 * 16,
                Break::IdxEmpty => xf.clear(),
                Break::IdxHeader(x) => {
                    // a version 1 index starts with its table: make that one decrease
                    if b.idx[..4] == [0xff, b't', b'O', b'c'] {
                        xf[(*x % 4) as usize] ^= 1 + x / 4;
                    }
                    let t = if b.idx[..4] == [0xff, b't', b'O', b'c'] { 8 } else { 0 };
                    xf[t..t + 4].copy_from_slice(&[0x7f; 4]);
                }
                Break::IdxVersion(x) => {
                    if b.idx[..4] == [0xff, b't', b'O', b'c'] {
                        xf[(4 + *x % 4) as usize] ^= 8 + (x / 4) % 8 * 16;
                    } else {
                        xf.clear();
                    }
                }
                Break::IdxCut(at) => cut(&mut xf, *at, 0),
                _ => {
                    // the trailer's first checksum is the pack's: that of another pack
                    let n = xf.len();
                    xf[n - 40] ^= 0xff;
                }
            }
            std::fs::write(&pack, &pf)?;
            std::fs::write(&idx, &xf)?;
        }
    }
    let repo = open(&dir)?;
    let db = repo.object_database();
    for round in 0..1 + c.twice as usize {
        for m in &only {
            let what = format!("{stem} broken by {:?}, lookup of an object only there, round {round}", c.what);
            let r = guard("parse_object", || db.parse_object(id_of(&m.id)).map(|o| observe(&o)).map_err(|e| object_report(&e, &m.id)))?;
            match r {
                Ok(p) => expect_parsed(&what, &p, &m.want)?,
                Err(r) => {
                    common(&r, &what)?;
                    ensure!(!r.not_found, "misreported", "{what}: {} was reported as not found, as if it were known not to exist: `{}`", hex(&m.id), r.text);
                    ensure!(r.text.contains(&stem), "file-not-named", "{what}: the error does not name the pack: `{}`", r.text);
                    ctx.add("errors", 1);
                    ctx.label(format!("{:?}", c.what).split('(').next().unwrap().to_string());
                    ctx.nontrivial(true);
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- broken entries of a pack

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spoilt {
    pack: PackSpec,
    /// entry, how, where, with what
    spoil: Vec<(u16, u8, u16, u8)>,
    stream: bool,
}

fn run_spoilt(c: &Spoilt, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let b = c.pack.build();
    if b.made.is_empty() {
        return Ok(());
    }
    let mut f = b.pack.bytes.clone();
    let mut how = vec![];
    for (which, kind, at, with) in &c.spoil {
        let k = *which as usize % b.pack.offsets.len();
        let (start, (from, to), base) = (b.pack.offsets[k] as usize, b.pack.data[k], b.pack.base_at[k]);
        let code = f[start] >> 4 & 7;
        how.push(match kind % 6 {
            // the base is no object of the pack, or the object itself
            0 | 1 if code == 7 => {
                let id = if with % 2 == 0 { sha1(&[*with]) } else { b.entries[k].id };
                f[base..base + 20].copy_from_slice(&id);
                "base id"
            }
            0 | 1 if code == 6 => {
                let n = from - base;
                for (i, c) in f[base..from].iter_mut().enumerate() {
                    *c = if i + 1 < n { 0x80 | with.wrapping_add(i as u8) } else { *at as u8 & 0x7f };
                }
                "base offset"
            }
            2 => {
                f[start] = f[start] & 0x8f | (with % 8) << 4;
                "type"
            }
            3 => {
                f[start] = f[start] & 0xf0 | (f[start] & 15) ^ (1 + with % 15);
                "size"
            }
            4 => {
                f[from..to].fill(*with);
                "data"
            }
            _ => {
                f[from + *at as usize % (to - from)] ^= 1 << (with % 8);
                "a bit"
            }
        });
    }
    put_pack(&g, &f, &b.idx, &b.pack.sum)?;
    let repo = open(&dir)?;
    let db = repo.object_database();
    for m in &b.made {
        let what = format!("a pack with changed {how:?}, lookup of {}", hex(&m.id));
        let r = guard("lookup", || {
            if c.stream {
                match db.read_object(id_of(&m.id)) {
                    Err(e) => Some(object_report(&e, &m.id)),
                    Ok(mut r) => r.reader().read_to_end(&mut vec![]).err().map(|e| report(&e)),
                }
            } else {
                db.parse_object(id_of(&m.id)).err().map(|e| object_report(&e, &m.id))
            }
        })?;
        if let Some(r) = r {
            common(&r, &what)?;
            ensure!(!r.not_found, "misreported", "{what}: reported as not found, though the index has it: `{}`", r.text);
            ctx.add("errors", 1);
            for h in &how {
                ctx.label(h.to_string());
            }
            ctx.nontrivial(true);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- printed values

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Printed {
    objs: Vec<Obj>,
    packed: bool,
    refs: Vec<(Vec<u8>, bool)>,
}

fn has<'a>(text: &str, pretty: &str, what: &str, parts: impl IntoIterator<Item = (&'a str, String)>) -> Res {
    for (label, one) in parts {
        let want = format!("{label}{one}");
        ensure!(text.contains(&want), "misprinted", "{what}: `{}` is not in the printed form `{}`", cut(&want), cut(text));
        // pretty printing may spread over lines, but the values stay in one piece
        ensure!(!one.starts_with('"') || pretty.contains(&one), "misprinted", "{what}: `{}` is not in the printed form `{}`", cut(&one), cut(pretty));
    }
    Ok(())
}

fn cut(s: &str) -> String {
    s.chars().take(600).collect()
}

fn both(x: &impl Debug) -> String {
    format!("{x:?}")
}

fn run_printed(c: &Printed, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let repo = open(&dir)?;
    let db = repo.object_database();
    let made: Vec<Made> = c.objs.iter().map(|o| o.made()).collect();
    if c.packed {
        let mut ids = BTreeSet::new();
        let e: Vec<PackEntry> = made
            .iter()
            .filter(|m| ids.insert(m.id))
            .map(|m| PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr: Repr::Whole, level: 6, gap: 0, pad: 0 })
            .collect();
        let ids: Vec<Oid> = e.iter().map(|e| e.id).collect();
        let p = build_pack(2, &e);
        put_pack(&g, &p.bytes, &idx_for(&p, &ids, 2, None), &p.sum)?;
    } else {
        for m in &made {
            put_loose(&g, m, 6)?;
        }
    }
    for m in &made {
        let what = format!("{} {}", m.kind.name(), hex(&m.id));
        let o = match guard("parse_object", || db.parse_object(id_of(&m.id)))? {
            Ok(o) => o,
            Err(e) => bad!("read-error", "{what}: {}", err_text(&e)),
        };
        expect_parsed(&what, &guard("accessors", || observe(&o))?, &m.want)?;
        let (text, pretty, data) = guard("printing the object", || (format!("{o:?}"), format!("{o:#?}"), format!("{:?}", o.data())))?;
        has(&text, &pretty, &what, [("", hex(&m.id)), ("", data)])?;
        ensure!(pretty.contains(&hex(&m.id)), "misprinted", "{what}: the id is not in the printed form `{}`", cut(&pretty));
        let sig = |s: &rusty_git::object::Signature, what: &str| -> Res<String> {
            let (t, p) = guard("printing the identity", || (format!("{s:?}"), format!("{s:#?}")))?;
                has(
                &t,
                &p,
                what,
                [
                    ("name: ", both(&s.name())),
                    ("email: ", both(&s.email())),
                    ("timestamp: ", both(&s.timestamp())),
                    ("timezone: ", both(&s.timezone())),
                ],
            )?;
            Ok(t)
        };
        match o.data() {
            ObjectData::Blob(b) => {
                let (t, p) = guard("printing the blob", || (format!("{b:?}"), format!("{b:#?}")))?;
                has(&t, &p, &what, [("data: ", both(&b.data()))])?;
            }
            ObjectData::Tree(tree) => {
                let (t, p) = guard("printing the tree", || (format!("{tree:?}"), format!("{tree:#?}")))?;
                let mut at = 0;
                for (k, e) in tree.entries().enumerate() {
                    let (et, ep) = guard("printing the entry", || (format!("{e:?}"), format!("{e:#?}")))?;
                    let what = format!("{what} entry {k}");
                    has(&et, &ep, &what, [("mode: ", both(&e.mode())), ("id: ", e.id().to_hex()), ("filename: ", both(&e.filename()))])?;
                    match t[at..].find(&et) {
                        Some(n) => at += n + et.len(),
                        None => bad!("misprinted", "{what}: `{}` does not come next in the printed tree `{}`", cut(&et), cut(&t)),
                    }
                    ensure!(p.contains(&both(&e.filename())), "misprinted", "{what}: the name is not in the printed tree `{}`", cut(&p));
                }
                let n = tree.entries().len();
                ensure!(n > 0 || t.trim() == "[]", "misprinted", "{what}: an empty tree prints as `{}`", cut(&t));
                ctx.label_if(n > 1, "tree of several entries");
            }
            ObjectData::Commit(c) => {
                let (t, p) = guard("printing the commit", || (format!("{c:?}"), format!("{c:#?}")))?;
                let parents: Vec<String> = c.parents().map(|p| p.to_hex()).collect();
                let author = sig(&c.author(), &what)?;
                let committer = sig(&c.committer(), &what)?;
                has(
                    &t,
                    &p,
                    &what,
                    [
                        ("tree: ", c.tree().to_hex()),
                        ("parents: ", format!("[{}]", parents.join(", "))),
                        ("author: ", author),
                        ("committer: ", committer),
                        ("encoding: ", both(&c.encoding())),
                        ("message: ", both(&c.message())),
                    ],
                )?;
                ctx.label_if(parents.len() > 1, "commit of several parents");
            }
            ObjectData::Tag(tag) => {
                let (t, p) = guard("printing the tag", || (format!("{tag:?}"), format!("{tag:#?}")))?;
                let tagger = match tag.tagger() {
                    Some(s) => format!("Some({})", sig(&s, &what)?),
                    None => "None".into(),
                };
                has(
                    &t,
                    &p,
                    &what,
                    [
                        ("tag: ", both(&tag.tag())),
                        ("object: ", tag.object().to_hex()),
                        ("kind: ", both(&tag.kind())),
                        ("tagger: ", tagger),
                        ("message: ", both(&tag.message())),
                    ],
                )?;
            }
        }
        // the id as text
        let id: Id = *o.id();
        let (d, b, p) = guard("printing the id", || (format!("{id}"), format!("{id:?}"), format!("{id:#?}")))?;
        for t in [d, b, p] {
            ensure!(t == hex(&m.id), "misprinted", "the id {} prints as `{t}`", hex(&m.id));
        }
        // whatever the padding and precision asked for: the id or an abbreviation, padded or not
        let (w, n) = (c.refs.len() * 29 + made.len() * 7, m.id[0] as usize % 90);
        let texts = guard("printing the id", || {
            [format!("{id:w$}"), format!("{id:>w$}"), format!("{id:^w$}"), format!("{id:.n$}"), format!("{id:*<w$.n$}"), format!("{id:#w$?}"), format!("{id:.n$?}"), format!("{id:w$.41}"), format!("{id:.7}")]
        })?;
        for t in &texts {
            let t = t.trim_matches(|c| c == ' ' || c == '*');
            ensure!(hex(&m.id).starts_with(t), "misprinted", "the id {} prints as `{t}` with width {w} or precision {n}", hex(&m.id));
        }
        for t in [&texts[0], &texts[1], &texts[2], &texts[5], &texts[7]] {
            ensure!(t.contains(&hex(&m.id)), "misprinted", "the id {} prints as `{t}` with width {w}", hex(&m.id));
        }
        let short = rusty_git::object::ShortId::from(id);
        let t = guard("printing the abbreviation", || [format!("{short:.n$}"), format!("{short:>w$}"), format!("{short:w$.n$?}")])?;
        ensure!(t.iter().all(|t| hex(&m.id).starts_with(t.trim())), "misprinted", "the abbreviation {} prints as {t:?} with width {w} and precision {n}", hex(&m.id));
        ensure!(guard("parsing the id", || Id::from_str(&hex(&m.id)).ok())? == Some(id), "misprinted", "the printed id {} does not parse", hex(&m.id));
        ctx.label(m.kind.name());
        ctx.nontrivial(m.kind != Kind::Blob);
    }
    for (name, direct) in &c.refs {
        if *direct {
            let id = sha1(name);
            let r = match guard("from_bytes", || Reference::from_bytes(hex(&id).as_bytes()))? {
                Ok(r) => r,
                Err(e) => bad!("read-error", "{}: {}", hex(&id), err_text(&e)),
            };
            let (t, p) = guard("printing the reference", || (format!("{r:?}"), format!("{r:#?}")))?;
            ensure!(t.contains(&hex(&id)) && p.contains(&hex(&id)), "misprinted", "a reference to {} prints as `{t}` and `{p}`", hex(&id));
        } else {
            let mut b = b"ref: ".to_vec();
            b.extend_from_slice(name);
            b.push(b'\n');
            let Ok(r) = guard("from_bytes", || Reference::from_bytes(&b))? else { continue };
            let (t, p) = guard("printing the reference", || (format!("{r:?}"), format!("{r:#?}")))?;
            if let rusty_git::reference::ReferenceTarget::Symbolic(s) = r.target() {
                let want = both(&s.data());
                ensure!(t.contains(&want) && p.contains(&want), "misprinted", "a symbolic reference to {} prints as `{}` and `{}`", show(name), cut(&t), cut(&p));
            }
        }
        ctx.label("reference");
    }
    Ok(())
}

// ---------------------------------------------------------------- errors of bad content

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Junk {
    /// content of a loose object file, compressed; and of a reference file
    bodies: Vec<Vec<u8>>,
    refs: Vec<Vec<u8>>,
}

fn body() -> BoxedStrategy<Vec<u8>> {
    let word = prop_oneof![
        Just(b"blob ".to_vec()),
        Just(b"tree ".to_vec()),
        Just(b"commit ".to_vec()),
        Just(b"tag ".to_vec()),
        Just(b"ofs-delta ".to_vec()),
        Just(b"99999999999999999999 ".to_vec()),
        Just(b"5\0".to_vec()),
        Just(b"0\0".to_vec()),
        Just(b"object 0123456789012345678901234567890123456789\n".to_vec()),
        Just(b"type commit\n".to_vec()),
        Just(b"type ".to_vec()),
        Just(b"tree 0123456789012345678901234567890123456789\n".to_vec()),
        Just(b"author A <a@b> 1 +0000\n".to_vec()),
        Just(b"ref: ".to_vec()),
        Just(b"{}{0}{:?}%s%n".to_vec()),
        vec(any::<u8>(), 0..12),
        "\\PC{0,8}".prop_map(|s| s.into_bytes()),
    ];
    vec(word, 0..7).prop_map(|v| v.concat()).boxed()
}

fn run_junk(c: &Junk, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let repo = open(&dir)?;
    for b in &c.bodies {
        let id = sha1(b);
        put_loose_raw(&g, &id, &deflate(b, 6))?;
        let r = guard("parse_object", || repo.object_database().parse_object(id_of(&id)).map(|o| (format!("{o:?}"), format!("{o:#?}"))).map_err(|e| object_report(&e, &id)))?;
        match r {
            Ok((t, _)) => ensure!(t.contains(&hex(&id)), "misprinted", "{} prints as `{}`", hex(&id), cut(&t)),
            Err(r) => {
                let what = format!("an object file holding {}", show(b));
                common(&r, &what)?;
                ensure!(!r.not_found, "misreported", "{what}: reported as not found: {}", r.text);
                ctx.add("invalid objects", 1);
                ctx.nontrivial(true);
            }
        }
    }
    for b in &c.refs {
        std::fs::write(g.join("refs/heads/it"), b)?;
        let what = format!("a reference file holding {}", show(b));
        let r = guard("reference", || repo.reference_database().reference(b"refs/heads/it").map(|r| format!("{r:?} {r:#?}")).map_err(|e| ref_report(&e)))?;
        if let Err(r) = r {
            common(&r, &what)?;
            ensure!(!r.not_found, "misreported", "{what}: reported as not found: {}", r.text);
            ctx.add("invalid references", 1);
            ctx.nontrivial(true);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- places without a repository

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nowhere {
    name: Vec<u8>,
    how: u8,
}

fn run_nowhere(c: &Nowhere, ctx: &mut Ctx) -> Res {
    use std::os::unix::ffi::OsStrExt;
    let dir = ctx.sub("place")?;
    let path = dir.join(std::ffi::OsStr::from_bytes(&c.name));
    match c.how % 3 {
        0 => (),
        1 => std::fs::create_dir(&path)?,
        _ => std::fs::write(&path, b"a file")?,
    }
    let e = match guard("open", || Repository::open(path.clone()))? {
        Ok(_) => bad!("opened", "{} holds no repository but was opened", path.display()),
        Err(e) => e,
    };
    let r = guard("printing the error", || report(&e))?;
    let what = format!("opening {}", path.display());
    common(&r, &what)?;
    match &e {
        rusty_git::repository::OpenError::NotFound(p) => {
            ensure!(*p == path, "wrong-path", "{what}: the error is about {}", p.display());
            if std::str::from_utf8(&c.name).is_ok_and(|n| n.chars().all(|c| c.is_ascii_graphic())) {
                let text = e.to_string();
                ensure!(text.contains(path.to_str().unwrap()), "file-not-named", "{what}: the error prints as `{text}`");
            }
        }
        e => bad!("misreported", "{what}: {}", err_text(e)),
    }
    ctx.nontrivial(true);
    Ok(())
}

pub fn c26() -> Prop {
    let failing = (store_spec(3000, 0..3, 6, 3), prop_oneof![2 => Just(vec![]), 2 => vec(op(), 1..3)], vec(op(), 1..6), any::<u8>(), any::<u64>(), proptest::bool::weighted(0.3))
        .prop_map(|(store, before, ops, errno, at, lasting)| Failing { store, before, ops, errno, at, lasting });
    let place = prop_oneof![
        Just(Place::Object),
        Just(Place::ObjectDir),
        Just(Place::Pack),
        Just(Place::Idx),
        Just(Place::PackDir),
        Just(Place::Ref),
        Just(Place::RefDir),
        Just(Place::Head),
    ];
    let block = prop_oneof![Just(Block::Loop), Just(Block::TooLong), Just(Block::Dir)];
    let unreachable = (vec(small_obj(), 1..4), place, block, any::<u8>(), proptest::bool::weighted(0.3), any::<bool>())
        .prop_map(|(objs, place, block, which, before, stream)| Unreachable { objs, place, block, which, before, stream });
    let brk = prop_oneof![
        Just(Break::PackGone),
        Just(Break::PackEmpty),
        any::<u16>().prop_map(Break::PackCut),
        any::<u8>().prop_map(Break::PackSignature),
        any::<u8>().prop_map(Break::PackVersion),
        Just(Break::PackDir),
        Just(Break::IdxEmpty),
        any::<u8>().prop_map(Break::IdxHeader),
        any::<u8>().prop_map(Break::IdxVersion),
        any::<u16>().prop_map(Break::IdxCut),
        Just(Break::IdxDir),
        Just(Break::Foreign),
    ];
    let broken = (vec(pack_spec(small_obj(), 5), 1..4), vec(small_obj(), 0..3), any::<u8>(), brk, any::<bool>())
        .prop_map(|(packs, loose, which, what, twice)| Broken { packs, loose, which, what, twice });
    let spoilt = (pack_spec(small_obj(), 6), vec((any::<u16>(), any::<u8>(), any::<u16>(), any::<u8>()), 1..4), any::<bool>())
        .prop_map(|(pack, spoil, stream)| Spoilt { pack, spoil, stream });
    let name = prop_oneof![vec(1u8..=255, 1..30), "refs/[a-z\"\\\\{}/]{1,20}".prop_map(|s| s.into_bytes())];
    let printed = (vec(obj(3000), 1..6), any::<bool>(), vec((name, any::<bool>()), 0..3)).prop_map(|(objs, packed, refs)| Printed { objs, packed, refs });
    let junk = (vec(body(), 1..8), vec(body(), 0..6)).prop_map(|(bodies, refs)| Junk { bodies, refs });
    let nowhere = (prop_oneof!["[a-zA-Z{}%. -]{1,20}".prop_map(|s| s.into_bytes()), vec(1u8..=255, 1..20)], any::<u8>())
        .prop_filter_map("a name", |(name, how)| {
            (!name.contains(&b'/') && !name.contains(&0) && name != b"." && name != b"..").then_some(Nowhere { name, how })
        });
    Prop {
        id: "C26",
        title: "Errors say what failed and why; printing shows the value and never fails",
        level: "exploration",
        rule: "a case is a repository and operations of which some system call fails, a file or folder that cannot be reached, a pack or index broken beyond use, broken entries of a pack, object and reference files of arbitrary content, a place without a repository, or objects and references to print; every error is walked along its causes and printed in all forms, every printed value compared with what the accessors report; non-trivial: an error was reported, or a value other than a blob printed",
        assumptions: &["failing calls give none of ENOENT, ENOTDIR, EINTR, which carry a meaning of their own"],
        arms: vec![
            arm("failing-calls", 3000, 50_000, failing, run_failing),
            arm("unreachable", 2000, 60_000, unreachable, run_unreachable),
            arm("broken-packs", 4000, 80_000, broken, run_broken),
            arm("broken-entries", 4000, 80_000, spoilt, run_spoilt),
            arm("printed", 6000, 100_000, printed, run_printed),
            arm("bad-content", 6000, 100_000, junk, run_junk),
            arm("no-repository", 2000, 60_000, nowhere, run_nowhere),
        ],
    }
}
