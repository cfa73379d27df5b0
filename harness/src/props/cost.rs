//! What operations cost: bytes read and written, calls, memory, time (C27).
use super::*;
use crate::store::*;
use crate::sys::{self, Plan};
use crate::{alloc, bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::OnceLock;

/// Reading one entry or file may fetch this much more than is needed.
const SLACK: u64 = 96 * 1024;
const MIB: u64 = 1 << 20;

#[derive(Debug, Default, Clone)]
struct Cost {
    read: u64,
    written: u64,
    calls: u64,
    opened: Vec<String>,
    peak: u64,
}

fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let ((out, plan), peak) = alloc::peak(|| sys::with_plan(Plan { opened: Some(Vec::with_capacity(64)), ..Plan::default() }, f));
    let opened = plan.opened.unwrap_or_default().iter().map(|p| String::from_utf8_lossy(p).into_owned()).collect();
    (out, Cost { read: plan.bytes_read, written: plan.bytes_written, calls: plan.calls, opened, peak: peak as u64 })
}

fn ref_name(i: u8) -> String {
    format!("refs/heads/d{}/r{i}", i % 5)
}

fn within(what: &str, kind: &str, got: u64, most: u64) -> Res {
    ensure!(got <= most, format!("too-much-{kind}"), "{what}: {kind} {got}, more than the {most} it can need");
    Ok(())
}

/// A pack of very many tiny objects, the same for every case.
fn crowd() -> &'static BuiltPack {
    static P: OnceLock<BuiltPack> = OnceLock::new();
    P.get_or_init(|| {
        let entries: Vec<PackEntry> = (0..24_000u32)
            .map(|i| {
                let bytes = format!("{i}").into_bytes();
                PackEntry { id: object_id(Kind::Blob, &bytes), kind: Kind::Blob, bytes, repr: Repr::Whole, level: 0, gap: 0, pad: 0 }
            })
            .collect();
        let pack = build_pack(2, &entries);
        let ids: Vec<Oid> = entries.iter().map(|e| e.id).collect();
        let idx = idx_for(&pack, &ids, 2, None);
        let made = entries.iter().take(50).map(|e| blob_made(e.bytes.clone())).collect();
        BuiltPack { made, entries: vec![], depth: vec![], ofs: 0, refs: 0, forward: false, max_distance: 0, pack, idx }
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    len: u32,
    style: u8,
    seed: u64,
    /// delta against the one before
    delta: bool,
    level: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Parse(u16),
    /// open a stream and read this share of it, in pieces of this size
    Stream(u16, u8, u16),
    Absent(u64),
    AddPack,
    AddCrowd,
    /// more than the refresh interval passes
    Wait,
    /// less than the refresh interval passes (in milliseconds)
    Nap(u16),
    Write { len: u32, style: u8, seed: u64 },
    Rewrite(u16),
    Reopen,
    List,
    Ref(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Costs {
    packs: Vec<Vec<Big>>,
    late: Vec<Big>,
    loose: Vec<Big>,
    crowd: bool,
    refs: u8,
    /// other files among the packs
    clutter: u16,
    steps: Vec<Step>,
}

fn big(max: u32) -> BoxedStrategy<Big> {
    (prop_oneof![2 => 0..max, 1 => 0u32..2000], prop_oneof![4 => Just(2u8), 2 => 0u8..5], any::<u64>(), proptest::bool::weighted(0.6), prop_oneof![3 => Just(1u8), 1 => 0u8..10])
        .prop_map(|(len, style, seed, delta, level)| Big { len, style, seed, delta, level })
        .boxed()
}

/// What reading an object touches.
#[derive(Clone, Debug, Default)]
struct Need {
    /// compressed bytes, entries
    file: u64,
    entries: u64,
    /// sizes of everything on the way
    memory: u64,
    size: u64,
    loose: bool,
}

struct Stored {
    made: Made,
    need: Need,
}

fn build(list: &[Big], out: &mut BTreeMap<Oid, Stored>) -> Option<(Pack, Vec<u8>)> {
    let mut entries: Vec<PackEntry> = vec![];
    let mut bases: Vec<Option<usize>> = vec![];
    let mut sizes = vec![];
    for b in list {
        let last = entries.len().checked_sub(1);
        let mut bytes = fill(b.len as usize, b.style, b.seed);
        let mut base = None;
        if let (true, Some(k)) = (b.delta, last) {
            // mostly its base, with something changed and something added
            bytes = entries[k].bytes.clone();
            if bytes.len() > 3 << 20 {
                bytes.truncate(1 << 20);
            }
            let at = (b.seed % (bytes.len() as u64 + 1)) as usize;
            let new = fill(b.len as usize / 8, b.style, b.seed);
            bytes.splice(at..at, new);
            base = Some(k);
        }
        let id = object_id(Kind::Blob, &bytes);
        if entries.iter().any(|e| e.id == id) {
            continue;
        }
        let repr = match base {
            Some(k) if !bytes.is_empty() => {
                let ops = diff_ops(&entries[k].bytes, &bytes, 7);
                let delta = encode_delta(entries[k].bytes.len() as u64, bytes.len() as u64, &ops, (0, 0));
                sizes.push(delta.len() as u64 + bytes.len() as u64);
                bases.push(Some(k));
                if b.seed % 2 == 0 {
                    Repr::Ofs { base: k, delta }
                } else {
                    Repr::Ref { base: entries[k].id, delta }
                }
            }
            _ => {
                sizes.push(bytes.len() as u64);
                bases.push(None);
                Repr::Whole
            }
        };
        entries.push(PackEntry { id, kind: Kind::Blob, bytes, repr, level: b.level, gap: 0, pad: 0 });
    }
    if entries.is_empty() {
        return None;
    }
    let pack = build_pack(2, &entries);
    let ids: Vec<Oid> = entries.iter().map(|e| e.id).collect();
    let idx = idx_for(&pack, &ids, 2, None);
    for (k, e) in entries.iter().enumerate() {
        let mut need = Need { size: e.bytes.len() as u64, ..Need::default() };
        let mut at = Some(k);
        while let Some(i) = at {
            need.file += (pack.data[i].1 - pack.data[i].0) as u64 + 64;
            need.entries += 1;
            need.memory += sizes[i];
            at = bases[i];
        }
        out.entry(e.id).or_insert_with(|| Stored { made: blob_made(e.bytes.clone()), need });
    }
    Some((pack, idx))
}

fn run_costs(c: &Costs, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let mut all: BTreeMap<Oid, Stored> = BTreeMap::new();
    // idx bytes of the packs in place, and of those the handle knows
    let mut idx_total = 0u64;
    let mut packs_total = 0u64;
    let put = |pack: &Pack, idx: &[u8]| put_pack(&g, &pack.bytes, idx, &pack.sum).map(|_| ());
    for p in &c.packs {
        if let Some((pack, idx)) = build(p, &mut all) {
            put(&pack, &idx)?;
            idx_total += idx.len() as u64;
            packs_total += 1;
        }
    }
    let mut crowd_in = false;
    let add_crowd = |all: &mut BTreeMap<Oid, Stored>| -> Res<u64> {
        let p = crowd();
        put_pack(&g, &p.pack.bytes, &p.idx, &p.pack.sum)?;
        for m in p.made.iter().take(3) {
            all.entry(m.id).or_insert(Stored { made: m.clone(), need: Need { file: 100, entries: 1, memory: 100, size: m.bytes.len() as u64, loose: false } });
        }
        Ok(p.idx.len() as u64)
    };
    if c.crowd {
        idx_total += add_crowd(&mut all)?;
        packs_total += 1;
        crowd_in = true;
    }
    for b in &c.loose {
        let m = blob_made(fill(b.len as usize, b.style, b.seed));
        put_loose(&g, &m, b.level)?;
        let file = std::fs::metadata(loose_path(&g, &m.id))?.len();
        let size = m.bytes.len() as u64;
        all.entry(m.id).or_insert(Stored { made: m, need: Need { file, entries: 1, memory: size, size, loose: true } });
    }
    if all.is_empty() {
        return Ok(());
    }
    let mut dirs = 8;
    for i in 0..c.refs {
        let name = ref_name(i);
        std::fs::create_dir_all(g.join(format!("refs/heads/d{}", i % 5)))?;
        let k = i as usize % all.len();
        if i % 4 > 0 {
            // up to three levels of symbolic references
            std::fs::write(g.join(name), format!("ref: {}\n", ref_name(i - 1)))?;
        } else {
            std::fs::write(g.join(name), format!("{}\n", hex(all.keys().nth(k).unwrap())))?;
        }
    }
    dirs += 5;
    for i in 0..c.clutter {
        std::fs::write(g.join(format!("objects/pack/pack-{:040x}.{}", i / 3, ["keep", "rev", "bitmap"][i as usize % 3])), b"")?;
    }
    if packs_total == 0 && c.clutter == 0 {
        // git makes the folder when it needs it
        let _ = std::fs::remove_dir(g.join("objects/pack"));
    }
    let _clock = sys::stop_clock();
    let mut repo = open(&dir)?;
    // whether a lookup that misses may look for new packs
    let mut due = true;
    let mut looked = std::time::Instant::now();
    // what the handle does not know yet
    let (mut idx_new, mut packs_new) = (idx_total, packs_total);
    let mut known = 0u64;
    let mut late_in = false;
    let mut touched = false;
    let mut costly = 0u64;
    for (i, step) in c.steps.iter().enumerate() {
        let what = format!("step {i} ({step:?})");
        let db = repo.object_database();
        let pick = |k: u16| all.values().nth(k as usize % all.len()).unwrap();
        // a lookup may meet the packs that appeared, and look for more of them
        let scan_read = idx_new + packs_new * SLACK;
        let due_now = due || packs_new > 0 || looked.elapsed().as_millis() >= 2000;
        let scan = if due_now { 4 * c.clutter as u64 + 16 * known } else { 0 };
        let scan_calls = 64 + scan + packs_new * 64 + scan_read / 1024;
        let scan_memory = 4 * scan_read + 4 * MIB;
        let mut met = true;
        match step {
            Step::Parse(k) => {
                let s = pick(*k);
                let (r, cost) = measure(|| guard("parse_object", || db.parse_object(id_of(&s.made.id)).map(|o| observe(&o)).map_err(|e| err_text(&e))));
                match r? {
                    Ok(p) => expect_parsed(&what, &p, &s.made.want)?,
                    Err(e) => bad!("read-error", "{what}: {e}"),
                }
                let n = &s.need;
                let what = format!("{what}, {} of {} bytes from {} entries ({} bytes in files)", if n.loose { "loose" } else { "packed" }, n.size, n.entries, n.file);
                within(&what, "read", cost.read, n.file + (n.entries + 1) * SLACK + scan_read)?;
                within(&what, "calls", cost.calls, scan_calls + 32 * n.entries + n.file / 128)?;
                within(&what, "memory", cost.peak, 8 * n.memory + scan_memory + n.entries * 1024)?;
                within(&what, "written", cost.written, 0)?;
                costly += (cost.read > SLACK) as u64;
            }
            Step::Stream(k, share, piece) => {
                let s = pick(*k);
                let n = &s.need;
                let want = n.size * *share as u64 / 255;
                let piece = (*piece).max(1) as usize;
                let mut buf = vec![0; piece];
                let (r, cost) = measure(|| {
                    guard("read_object", || match db.read_object(id_of(&s.made.id)) {
                        Err(e) => Err(err_text(&e)),
                        Ok(mut r) => {
                            let mut got = 0u64;
                            while got < want {
                                match r.reader().read(&mut buf) {
                                    Ok(0) => break,
                                    Ok(n) => got += n as u64,
                                    Err(e) => return Err(err_text(&e)),
                                }
                            }
                            Ok(got)
                        }
                    })
                });
                let got = match r? {
                    Ok(n) => n,
                    Err(e) => bad!("read-error", "{what}: {e}"),
                };
                let what = format!("{what}, {got} of {} bytes, {}", n.size, if n.loose { "loose" } else { "packed" });
                if n.loose {
                    // noise does not compress: how far the file was read is how far the stream was
                    let far = n.file.min(if n.file >= n.size { got + got / 16 } else { n.file });
                    within(&what, "read", cost.read, far + SLACK + scan_read)?;
                    within(&what, "memory", cost.peak, MIB + scan_memory)?;
                } else {
                    within(&what, "read", cost.read, n.file + (n.entries + 1) * SLACK + scan_read)?;
                    within(&what, "memory", cost.peak, 8 * n.memory + scan_memory)?;
                }
                // each read may look whether there is more in the file
                within(&what, "calls", cost.calls, scan_calls + 32 * n.entries + n.file / 128 + 2 * (got / piece as u64))?;
                ctx.label_if(n.loose && got + 4 * SLACK < n.size, "loose stream read in part");
            }
            Step::Absent(s) => {
                let id = sha1(&s.to_be_bytes());
                let (r, cost) = measure(|| lookup(db, &id));
                ensure!(matches!(r?, Got::NotFound), "phantom", "{what}: absent id was found");
                within(&what, "read", cost.read, scan_read)?;
                within(&what, "calls", cost.calls, scan_calls)?;
                within(&what, "memory", cost.peak, scan_memory)?;
                within(&what, "written", cost.written, 0)?;
                if !due_now {
                    let packs = g.join("objects/pack");
                    let looked = cost.opened.iter().any(|p| std::path::Path::new(p).starts_with(&packs));
                    ensure!(!looked, "looked-again", "{what}: opened {:?} less than two seconds after looking for packs", cost.opened);
                    ctx.label("absent id again within two seconds");
                    ctx.label_if(!packs.exists(), "the same without a pack folder");
                }
            }
            Step::AddPack => {
                met = false;
                if !late_in {
                    late_in = true;
                    if let Some((pack, idx)) = build(&c.late, &mut all) {
                        put(&pack, &idx)?;
                        idx_new += idx.len() as u64;
                        packs_new += 1;
                        sys::advance_clock(2_100_000_000);
                    }
                }
            }
            Step::AddCrowd => {
                met = false;
                if !crowd_in {
                    crowd_in = true;
                    idx_new += add_crowd(&mut all)?;
                    packs_new += 1;
                    sys::advance_clock(2_100_000_000);
                }
            }
            Step::Nap(ms) if !due && packs_new == 0 => {
                met = false;
                sys::advance_clock(*ms as i64 * 1_000_000);
            }
            // it is not known when the handle looked last
            Step::Wait | Step::Nap(_) => {
                met = false;
                due = true;
                sys::advance_clock(2_100_000_000);
            }
            Step::Write { len, style, seed } => {
                met = false;
                let bytes = framed(Kind::Blob, &fill(*len as usize, *style, *seed));
                let (r, cost) = measure(|| write(db, &bytes));
                if let Err(e) = r? {
                    bad!("write-error", "{what}: {e}");
                }
                let n = bytes.len() as u64;
                within(&what, "written", cost.written, n + n / 64 + 4096)?;
                within(&what, "memory", cost.peak, 2 * MIB)?;
                within(&what, "calls", cost.calls, 64 + n / 128)?;
                ctx.label_if(n > 4 * MIB, "wrote more than 4 MiB");
            }
            Step::Rewrite(k) => {
                met = false;
                let s = pick(*k);
                let bytes = framed(s.made.kind, &s.made.bytes);
                let (first, _) = measure(|| write(db, &bytes));
                let (r, cost) = measure(|| write(db, &bytes));
                if let Err(e) = first?.and(r?) {
                    bad!("write-error", "{what}: {e}");
                }
                within(&format!("{what}, stored already"), "memory", cost.peak, 2 * MIB)?;
            }
            Step::Reopen => {
                met = false;
                let (r, cost) = measure(|| open(&dir));
                repo = r?;
                due = true;
                idx_total = 0;
                packs_total = 0;
                for e in std::fs::read_dir(g.join("objects/pack")).into_iter().flatten() {
                    let e = e?;
                    if e.path().extension() == Some("idx".as_ref()) {
                        idx_total += e.metadata()?.len();
                        packs_total += 1;
                    }
                }
                idx_new = idx_total;
                packs_new = packs_total;
                known = 0;
                within(&what, "read", cost.read, SLACK)?;
                within(&what, "calls", cost.calls, 64)?;
                within(&what, "memory", cost.peak, MIB)?;
                ensure!(!cost.opened.iter().any(|p| p.ends_with(".pack") || p.ends_with(".idx")), "eager-open", "{what}: opened {:?}", cost.opened);
            }
            Step::List => {
                met = false;
                let refs = repo.reference_database();
                let (r, cost) = measure(|| guard("reference_names", || refs.reference_names().map_err(|e| err_text(&e))));
                match r? {
                    Ok(v) => ensure!(v.len() == c.refs as usize, "wrong-list", "{what}: {} names instead of {}", v.len(), c.refs),
                    Err(e) => bad!("read-error", "{what}: {e}"),
                }
                within(&what, "read", cost.read, 0)?;
                within(&what, "calls", cost.calls, 64 + 8 * (c.refs as u64 + dirs))?;
                ensure!(cost.opened.iter().all(|p| !std::path::Path::new(p).is_file()), "list-opens", "{what}: opened {:?}", cost.opened);
            }
            Step::Ref(k) => {
                met = false;
                if c.refs == 0 {
                    continue;
                }
                let i = k % c.refs;
                let name = ref_name(i);
                let refs = repo.reference_database();
                let (r, cost) = measure(|| guard("reference", || refs.reference(name.as_bytes()).map(|_| ()).map_err(|e| err_text(&e))));
                if let Err(e) = r? {
                    bad!("read-error", "{what}: {e}");
                }
                within(&what, "read", cost.read, SLACK)?;
                within(&what, "calls", cost.calls, 64)?;
                within(&what, "memory", cost.peak, MIB)?;
                let want: PathBuf = g.join(&name);
                ensure!(cost.opened.iter().all(|p| std::path::Path::new(p) == want), "ref-opens", "{what}: opened {:?}", cost.opened);
                // and on to its end
                let chain: Vec<PathBuf> = (i / 4 * 4..=i).map(|k| g.join(ref_name(k))).collect();
                let (r, cost) = measure(|| guard("peel", || refs.reference(name.as_bytes()).and_then(|r| r.peel(&repo)).map(|o| observe(&o)).map_err(|e| err_text(&e))));
                // the directory order of ids decided at the start which object it is
                match r? {
                    Ok(p) => ensure!(all.values().any(|s| expect_parsed(&what, &p, &s.made.want).is_ok()), "wrong-object", "{what}: peeled to an object that is not in the repository"),
                    Err(e) => bad!("read-error", "{what}: {e}"),
                }
                let objects = g.join("objects");
                for p in &cost.opened {
                    let p = std::path::Path::new(p);
                    ensure!(p.starts_with(&objects) || chain.iter().any(|c| c == p), "ref-opens", "{what}: resolving opened {}", p.display());
                }
                ctx.label_if(chain.len() > 1, "resolved a symbolic reference");
            }
        }
        if met {
            if packs_new > 0 {
                // the lookup need not have looked for new packs; at the latest the next one that misses does
                if matches!(step, Step::Absent(_)) {
                    due = false;
                    looked = std::time::Instant::now();
                    known += packs_new;
                    packs_new = 0;
                    idx_new = 0;
                }
            } else {
                if matches!(step, Step::Absent(_)) {
                    // by the clock alone it is not certain that this one looked
                    if due {
                        looked = std::time::Instant::now();
                    }
                    due = false;
                }
                touched |= known > 0;
            }
        }
    }
    ctx.label_if(c.clutter > 100, "many other files among the packs");
    ctx.label_if(crowd_in, "an index of 700 kB");
    ctx.label_if(touched, "lookups on a handle that knows all packs");
    ctx.add("lookups that read much", costly);
    ctx.nontrivial(touched);
    Ok(())
}

// ---------------------------------------------------------------- shapes that must not take long

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Shape {
    /// a tree of many entries
    Tree(u32),
    Parents(u32),
    /// other header lines; long ones
    Headers(u32, bool),
    Message(u32),
    Name(u32, u8),
    /// a delta of many instructions, each of which copies or inserts one byte
    TinyOps(u32, bool),
    /// reference file with many lines before the value
    RefLines(u32, bool),
    /// a long name in a symbolic reference
    RefName(u32),
    /// many references
    Refs(u32),
    /// many packs
    Packs(u32),
    /// a stream read byte by byte
    Bytewise(u32),
    /// a chain, read from the far end and from the near end
    Chain(u32),
    /// one base of very many deltas
    Star(u32),
    TagMessage(u32),
    /// lookups in an index of many ids with the same first byte
    Lookups(u32, u8),
}

fn run_shape(s: &Shape, ctx: &mut Ctx) -> Res {
    let _clock = sys::stop_clock();
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let repo = open(&dir)?;
    let db = repo.object_database();
    let tree = "tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904\n";
    let who = "A U Thor <a@example.com> 1 +0000\n";
    let check = |kind: Kind, content: Vec<u8>| -> Res {
        let id = object_id(kind, &content);
        put_loose_raw(&g, &id, &deflate(&framed(kind, &content), 1))?;
        let start = crate::engine::cpu_ms();
        let what = format!("{s:?}, a {} of {} bytes", kind.name(), content.len());
        let (r, cost) = measure(|| guard("parse_object", || db.parse_object(id_of(&id)).map_err(|e| err_text(&e))));
        let n = content.len() as u64;
        match r? {
            Ok(o) => {
                guard("accessors", || format!("{:?}", observe(&o)).len())?;
            }
            Err(e) => bad!("read-error", "{what}: {e}"),
        }
        within(&what, "memory", cost.peak, 12 * n + 2 * MIB)?;
        within(&what, "time (ms)", crate::engine::cpu_ms() - start, 3000 + content.len() as u64 / 1000)
    };
    match s {
        Shape::Tree(n) => {
            let mut v = vec![];
            for i in 0..*n {
                v.extend_from_slice(format!("100644 f{i:08}\0").as_bytes());
                v.extend_from_slice(&[7; 20]);
            }
            check(Kind::Tree, v)?;
        }
        Shape::Parents(n) => {
            let mut v = tree.to_string();
            for i in 0..*n {
                v.push_str(&format!("parent {i:040x}\n"));
            }
            check(Kind::Commit, format!("{v}author {who}committer {who}\nm").into_bytes())?;
        }
        Shape::Headers(n, long) => {
            let mut v = format!("{tree}author {who}committer {who}");
            if *long {
                v.push_str(&format!("mergetag {}\n", "x".repeat(8 * *n as usize)));
            } else {
                v.push_str("gpgsig a\n");
                for _ in 0..*n {
                    v.push_str(" line\n");
                }
            }
            check(Kind::Commit, format!("{v}encoding x\n\nm").into_bytes())?;
        }
        Shape::Message(n) => check(Kind::Commit, format!("{tree}author {who}committer {who}\n{}", "\n\n <>:\"".repeat(*n as usize)).into_bytes())?,
        Shape::TagMessage(n) => check(
            Kind::Tag,
            format!("object {}\ntype commit\ntag v\ntagger {who}\n{}", "1".repeat(40), "\n\n <>:\"".repeat(*n as usize)).into_bytes(),
        )?,
        Shape::Name(n, b) => {
            // kept inside the name, so that nothing is dropped
            let fill = [" ", "<", "> ", ".", "\"'", "a ", "> 1 ", ", <a> 1 +0000 "][*b as usize % 8].replace(['<', '>'], ";");
            let name = format!("A{}Z", fill.repeat(*n as usize));
            check(Kind::Commit, format!("{tree}author {name} <a@b> 1 +0000\ncommitter {who}\nm").into_bytes())?;
        }
        Shape::TinyOps(n, insert) => {
            let base = blob_made(fill(1000, 2, 1));
            let mut delta = varint(1000, 0);
            delta.extend(varint(*n as u64, 0));
            let mut want = vec![];
            for i in 0..*n {
                if *insert {
                    delta.extend([1, i as u8]);
                    want.push(i as u8);
                } else {
                    let at = i % 256;
                    delta.extend([0x91, at as u8, 1]);
                    want.push(base.bytes[at as usize]);
                }
            }
            let m = blob_made(want);
            let e = [
                PackEntry { id: base.id, kind: Kind::Blob, bytes: base.bytes.clone(), repr: Repr::Whole, level: 1, gap: 0, pad: 0 },
                PackEntry { id: m.id, kind: Kind::Blob, bytes: vec![], repr: Repr::Ofs { base: 0, delta }, level: 1, gap: 0, pad: 0 },
            ];
            let p = build_pack(2, &e);
            put_pack(&g, &p.bytes, &idx_for(&p, &[base.id, m.id], 2, None), &p.sum)?;
            let start = crate::engine::cpu_ms();
            expect_object(db, &m, &format!("{s:?}"))?;
            within(&format!("{s:?}"), "time (ms)", crate::engine::cpu_ms() - start, 3000 + *n as u64 / 100)?;
        }
        Shape::RefLines(n, comments) => {
            let id = "0123456789".repeat(4);
            let line = if *comments { "# pack-refs with: peeled\n" } else { "\n" };
            std::fs::write(g.join("refs/heads/it"), format!("{}{id}\n", line.repeat(*n as usize)))?;
            let start = crate::engine::cpu_ms();
            let r = guard("reference", || repo.reference_database().reference(b"refs/heads/it").map(|_| ()).map_err(|e| err_text(&e)))?;
            if let Err(e) = r {
                bad!("read-error", "{s:?}: {e}");
            }
            within(&format!("{s:?}"), "time (ms)", crate::engine::cpu_ms() - start, 3000 + *n as u64 / 50)?;
        }
        Shape::RefName(n) => {
            std::fs::write(g.join("refs/heads/it"), format!("ref: refs/heads/{}\n", "a/b".repeat(*n as usize)))?;
            let start = crate::engine::cpu_ms();
            let r = guard("reference", || repo.reference_database().reference(b"refs/heads/it").map(|_| ()).map_err(|e| err_text(&e)))?;
            if let Err(e) = r {
                bad!("read-error", "{s:?}: {e}");
            }
            within(&format!("{s:?}"), "time (ms)", crate::engine::cpu_ms() - start, 3000 + *n as u64 / 100)?;
        }
        Shape::Refs(n) => {
            for i in 0..*n {
                if i % 500 == 0 {
                    std::fs::create_dir_all(g.join(format!("refs/tags/{}", i / 500)))?;
                }
                std::fs::write(g.join(format!("refs/tags/{}/t{i}", i / 500)), "0123456789012345678901234567890123456789\n")?;
            }
            let start = crate::engine::cpu_ms();
            let r = guard("tag_reference_names", || repo.reference_database().tag_reference_names().map(|v| v.len()).map_err(|e| err_text(&e)))?;
            ensure!(r == Ok(*n as usize), "wrong-list", "{s:?}: {r:?}");
            within(&format!("{s:?}"), "time (ms)", crate::engine::cpu_ms() - start, 3000 + *n as u64)?;
        }
        Shape::Packs(n) => {
            let mut made = vec![];
            for i in 0..*n {
                let m = blob_made(format!("in pack {i}").into_bytes());
                let e = [PackEntry { id: m.id, kind: Kind::Blob, bytes: m.bytes.clone(), repr: Repr::Whole, level: 1, gap: 0, pad: 0 }];
                let p = build_pack(2, &e);
                put_pack(&g, &p.bytes, &idx_for(&p, &[m.id], 2, None), &p.sum)?;
                made.push(m);
            }
            let start = crate::engine::cpu_ms();
            for m in &made {
                expect_object(db, m, &format!("{s:?}"))?;
            }
            within(&format!("{s:?}"), "time (ms)", crate::engine::cpu_ms() - start, 5000 + *n as u64 * 4)?;
        }
        Shape::Bytewise(n) => {
            let m = blob_made(fill(*n as usize, 4, *n as u64));
            put_loose(&g, &m, 6)?;
            let start = crate::engine::cpu_ms();
            expect_stream(db, &m, 1, true, false, &format!("{s:?}"))?;
            within(&format!("{s:?}"), "time (ms)", crate::engine::cpu_ms() - start, 3000 + *n as u64 / 200)?;
        }
        Shape::Chain(n) => {
            let mut e: Vec<PackEntry> = vec![];
            let mut made: Vec<Made> = vec![];
            for i in 0..*n {
                let m = blob_made(format!("{} number {i}", "common ".repeat(20)).into_bytes());
                let repr = match made.last() {
                    None => Repr::Whole,
                    Some(b) => Repr::Ofs { base: e.len() - 1, delta: encode_delta(b.bytes.len() as u64, m.bytes.len() as u64, &diff_ops(&b.bytes, &m.bytes, 3), (0, 0)) },
                };
                e.push(PackEntry { id: m.id, kind: Kind::Blob, bytes: m.bytes.clone(), repr, level: 1, gap: 0, pad: 0 });
                made.push(m);
            }
            let p = build_pack(2, &e);
            let ids: Vec<Oid> = e.iter().map(|e| e.id).collect();
            put_pack(&g, &p.bytes, &idx_for(&p, &ids, 2, None), &p.sum)?;
            let start = crate::engine::cpu_ms();
            for m in [made.last().unwrap(), &made[0], &made[made.len() / 2]] {
                expect_object(db, m, &format!("{s:?}"))?;
            }
            within(&format!("{s:?}"), "time (ms)", crate::engine::cpu_ms() - start, 4000 + *n as u64)?;
        }
        Shape::Lookups(n, byte) => {
            let mut x = *n as u64;
            let mut ids: Vec<Oid> = vec![];
            for _ in 0..*n {
                let mut id = [*byte; 20];
                for c in id[1..].chunks_mut(8) {
                    c.copy_from_slice(&crate::engine::splitmix(&mut x).to_be_bytes()[..c.len()]);
                }
                ids.push(id);
            }
            ids.sort();
            ids.dedup();
            // one object under all the ids
            let m = blob_made(b"x".to_vec());
            let mut bytes = b"PACK\0\0\0\x02".to_vec();
            bytes.extend((ids.len() as u32).to_be_bytes());
            bytes.extend(entry_header(3, 1, 0));
            bytes.extend(deflate(&m.bytes, 1));
            let sum = sha1(&bytes);
            bytes.extend(sum);
            let entries: Vec<IdxEntry> = ids.iter().map(|id| IdxEntry { id: *id, offset: 12, crc: 0, large: false }).collect();
            put_pack(&g, &bytes, &build_idx(2, &entries, &sum), &sum)?;
            let absent = |k: usize| {
                let mut id = ids[ids.len() - 1 - k * 7 % (ids.len() / 4)];
                id[19] ^= 1;
                id
            };
            expect_absent(db, &absent(0), &format!("{s:?}"))?;
            let count = 20_000;
            let start = crate::engine::cpu_ms();
            for k in 0..count {
                expect_absent(db, &absent(k), &format!("{s:?}"))?;
            }
            within(&format!("{s:?}, {count} lookups"), "time (ms)", crate::engine::cpu_ms() - start, 3000)?;
        }
        Shape::Star(n) => {
            let base = blob_made(fill(20_000, 1, 5));
            let mut e = vec![PackEntry { id: base.id, kind: Kind::Blob, bytes: base.bytes.clone(), repr: Repr::Whole, level: 1, gap: 0, pad: 0 }];
            let mut made = vec![];
            for i in 0..*n {
                let m = blob_made([&base.bytes[..], format!("{i}").as_bytes()].concat());
                let delta = encode_delta(base.bytes.len() as u64, m.bytes.len() as u64, &diff_ops(&base.bytes, &m.bytes, 3), (0, 0));
                e.push(PackEntry { id: m.id, kind: Kind::Blob, bytes: vec![], repr: Repr::Ref { base: base.id, delta }, level: 1, gap: 0, pad: 0 });
                made.push(m);
            }
            let p = build_pack(2, &e);
            let ids: Vec<Oid> = e.iter().map(|e| e.id).collect();
            put_pack(&g, &p.bytes, &idx_for(&p, &ids, 2, None), &p.sum)?;
            let start = crate::engine::cpu_ms();
            for m in &made {
                expect_object(db, m, &format!("{s:?}"))?;
            }
            within(&format!("{s:?}"), "time (ms)", crate::engine::cpu_ms() - start, 4000 + *n as u64 * 4)?;
        }
    }
    ctx.label(format!("{s:?}").split('(').next().unwrap().to_string());
    ctx.nontrivial(true);
    Ok(())
}

pub fn c27() -> Prop {
    let costs = |max: u32, steps: usize, write: u32| {
        let step = prop_oneof![
            5 => any::<u16>().prop_map(Step::Parse),
            5 => (any::<u16>(), prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => 0u8..20, 1 => Just(255u8)], prop_oneof![1 => 1u16..100, 2 => 100u16..65535]).prop_map(|(a, b, c)| Step::Stream(a, b, c)),
            5 => any::<u64>().prop_map(Step::Absent),
            1 => Just(Step::AddPack),
            1 => Just(Step::AddCrowd),
            2 => Just(Step::Wait),
            2 => (0u16..1990).prop_map(Step::Nap),
            2 => (0..write, 0u8..5, any::<u64>()).prop_map(|(len, style, seed)| Step::Write { len, style, seed }),
            1 => any::<u16>().prop_map(Step::Rewrite),
            1 => Just(Step::Reopen),
            1 => Just(Step::List),
            1 => any::<u8>().prop_map(Step::Ref),
        ];
        (vec(vec(big(max), 1..8), 0..4), vec(big(max), 0..4), vec(big(max * 2), 0..4), proptest::bool::weighted(0.5), 0u8..40, 0u16..500, vec(step, 3..steps))
            .prop_map(|(mut packs, late, loose, mut crowd, refs, mut clutter, steps)| {
                if refs % 5 == 2 && !loose.is_empty() {
                    // no packs at all, at first
                    packs.clear();
                    crowd = false;
                    clutter = 0;
                }
                Costs { packs, late, loose, crowd, refs, clutter, steps }
            })
    };
    let shape = prop_oneof![
        (1000u32..150_000).prop_map(Shape::Tree),
        (1000u32..80_000).prop_map(Shape::Parents),
        (1000u32..300_000, any::<bool>()).prop_map(|(a, b)| Shape::Headers(a, b)),
        (1000u32..500_000).prop_map(Shape::Message),
        (1000u32..500_000).prop_map(Shape::TagMessage),
        (1000u32..300_000, any::<u8>()).prop_map(|(a, b)| Shape::Name(a, b)),
        (1000u32..1_000_000, any::<bool>()).prop_map(|(a, b)| Shape::TinyOps(a, b)),
        (1000u32..200_000, any::<bool>()).prop_map(|(a, b)| Shape::RefLines(a, b)),
        (1000u32..1_000_000).prop_map(Shape::RefName),
        (200u32..4000).prop_map(Shape::Refs),
        (20u32..250).prop_map(Shape::Packs),
        (1000u32..1_000_000).prop_map(Shape::Bytewise),
        (500u32..20_000).prop_map(Shape::Chain),
        (500u32..4000).prop_map(Shape::Star),
        (80_000u32..300_000, any::<u8>()).prop_map(|(n, b)| Shape::Lookups(n, b)),
    ];
    Prop {
        id: "C27",
        title: "What an operation costs is in proportion to what it has to touch",
        level: "exploration",
        rule: "a case is a repository of packs with large objects and delta chains, an index of 24000 entries, loose objects and references, and a history of operations on one handle, for each of which bytes read and written, calls, files opened and peak memory are measured and compared with a bound computed from the sizes of what it has to touch; or an object, reference or repository of an extreme shape and processor time against a bound linear in its size; non-trivial: lookups were made on a handle that knew all packs, or an extreme shape",
        assumptions: &["bounds leave 96 KiB per entry or file for buffering, a factor of 8 for memory and at least 3 s for time, so that a differently buffered implementation passes"],
        arms: vec![
            arm("histories", 500, 15_000, costs(400_000, 20, 600_000), run_costs),
            arm("histories-large", 24, 800, costs(4_000_000, 14, 12_000_000), run_costs),
            arm("shapes", 120, 3000, shape, run_shape),
        ],
    }
}
