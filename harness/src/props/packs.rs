//! C03 objects in packs, C04 lookup by id, C05 deltas.
use super::*;
use crate::git;
use crate::store::*;
use crate::{bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::OnceLock;

// ================================================================ C03

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum How {
    Parse,
    Stream(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Read1 {
    what: u16,
    how: How,
    handle: u8,
    reopen: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PackCase {
    pack: PackSpec,
    reads: Vec<Read1>,
    git: bool,
}

fn reads(max: usize) -> BoxedStrategy<Vec<Read1>> {
    vec(
        (
            any::<u16>(),
            prop_oneof![2 => Just(How::Parse), 1 => Just(How::Stream(0)), 1 => (1u16..9000).prop_map(How::Stream)],
            0u8..2,
            proptest::bool::weighted(0.05),
        )
            .prop_map(|(what, how, handle, reopen)| Read1 { what, how, handle, reopen }),
        0..max,
    )
    .boxed()
}

fn read1(db: &ObjectDatabase, m: &Made, how: &How, at: &str) -> Res {
    match how {
        How::Parse => expect_object(db, m, at),
        How::Stream(n) => expect_stream(db, m, *n as usize, false, true, at),
    }
}

fn run_pack(c: &PackCase, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let b = c.pack.build();
    b.put(&g)?;
    let n = b.made.len();
    if n > 0 {
        let mut handles = [open(&dir)?, open(&dir)?];
        for (k, r) in c.reads.iter().enumerate() {
            let h = r.handle as usize % 2;
            if r.reopen {
                handles[h] = open(&dir)?;
            }
            let m = &b.made[r.what as usize % n];
            read1(handles[h].object_database(), m, &r.how, &format!("read {k}"))?;
        }
        // every object, by every method, from a used and a fresh handle, in opposite orders
        let fresh = open(&dir)?;
        for m in &b.made {
            expect_object(handles[0].object_database(), m, "used handle")?;
            expect_stream(handles[0].object_database(), m, 0, false, true, "used handle")?;
        }
        for m in b.made.iter().rev() {
            expect_stream(fresh.object_database(), m, 0, false, true, "fresh handle")?;
            expect_object(fresh.object_database(), m, "fresh handle")?;
        }
    }
    if c.git && git::available() && n > 0 {
        let got = git::cat_file(&g, &b.made.iter().map(|m| m.id).collect::<Vec<_>>())?;
        for (m, g) in b.made.iter().zip(got) {
            if g.as_ref().map(|(k, b)| (*k, &b[..])) != Some((m.kind, &m.bytes[..])) {
                return Err(Fail::Harness(format!("git does not read the harness's pack {}: {} {:?}", serde_json::to_string(&c.pack).unwrap(), hex(&m.id), g.map(|g| show(&g.1)))));
            }
        }
        ctx.label("pack read by git too");
    }
    let depth = b.depth.iter().copied().max().unwrap_or(0);
    ctx.label_if(depth >= 1, "has a delta");
    ctx.label_if(depth >= 3, "chain of 3 or more");
    ctx.label_if(depth >= 20, "chain of 20 or more");
    ctx.label_if(depth >= 100, "chain of 100 or more");
    ctx.label_if(b.forward, "base later in the file");
    ctx.label_if(b.ofs > 0 && b.refs > 0, "offset and reference deltas");
    ctx.label_if(b.max_distance >= 16512, "offset distance of 3 bytes or more");
    ctx.label_if(b.max_distance >= 2113664, "offset distance of 4 bytes or more");
    ctx.label_if(c.pack.idx_version == 1, "index version 1");
    ctx.label_if(c.pack.large.is_some() && c.pack.idx_version == 2, "64-bit offset table");
    ctx.label_if(n == 0, "empty pack");
    ctx.label_if(b.made.iter().any(|m| m.bytes.len() > 65536), "object above 64 KiB");
    let giant = b.made.iter().any(|m| m.bytes.len() >= 1 << 24);
    ctx.label_if(giant, "object of 16 MiB or more");
    ctx.label_if(b.made.iter().any(|m| m.bytes.len() >= 1 << 25), "object of 32 MiB or more");
    ctx.add("objects", n as u64);
    ctx.nontrivial(depth >= 1 || giant);
    Ok(())
}

fn pack_case(obj_max: u32, items: usize, reads_max: usize, git: f64) -> BoxedStrategy<PackCase> {
    (pack_spec(obj(obj_max), items), reads(reads_max), proptest::bool::weighted(git))
        .prop_map(|(pack, reads, git)| PackCase { pack, reads, git })
        .boxed()
}

/// Chains as deep as the pack is long.
fn deep_case() -> BoxedStrategy<PackCase> {
    let spec = (0u8..3, 40usize..260, any::<u64>(), prop_oneof![Just(1u8), Just(2u8)], 0u64..6).prop_map(|(mix, n, seed, idx, order)| {
        let mut x = seed;
        let items = (0..n)
            .map(|i| {
                let r = crate::engine::splitmix(&mut x);
                ItemSpec {
                    item: Item::Edit { of: 1, seed: r, ops: 1 + (r % 3) as u8 },
                    repr: match (mix, r % 2) {
                        _ if i == 0 => ReprSpec::Whole,
                        (0, _) | (2, 0) => ReprSpec::Ofs(1),
                        _ => ReprSpec::Ref(1),
                    },
                    level: 1 + (r % 9) as u8,
                    enc: r,
                    pad: 0,
                }
            })
            .collect();
        PackSpec { items, order: if mix == 0 { 0 } else { order }, pack_version: 2, idx_version: idx, large: None }
    });
    (spec, reads(12)).prop_map(|(pack, reads)| PackCase { pack, reads, git: false }).boxed()
}

/// Incompressible fillers between a base and its deltas: long offset distances.
fn wide_case() -> BoxedStrategy<PackCase> {
    let filler = (20_000u32..900_000, any::<u64>()).prop_map(|(len, seed)| Item::New(Obj::Blob(Data::Gen { len, style: 2, seed })));
    let small = prop_oneof![
        2 => (any::<u16>(), any::<u64>(), 0u8..6).prop_map(|(of, seed, ops)| Item::Edit { of: of & !3, seed, ops }),
        1 => small_obj().prop_map(Item::New),
    ];
    let item = prop_oneof![1 => filler, 3 => small];
    let items = vec(
        (item, any::<u16>(), any::<bool>(), any::<u64>()).prop_map(|(item, k, whole, enc)| ItemSpec {
            repr: if whole && matches!(item, Item::New(_)) { ReprSpec::Whole } else { ReprSpec::Ofs(k & !3) },
            item,
            level: 1,
            enc,
            pad: 0,
        }),
        4..14,
    );
    (items, 0u64..3, reads(10))
        .prop_map(|(items, order, reads)| PackCase {
            pack: PackSpec { items, order, pack_version: 2, idx_version: 2, large: None },
            reads,
            git: false,
        })
        .boxed()
}

/// Objects around 16 and 32 MiB: sizes of five bytes in the entry header.
fn giant_case() -> BoxedStrategy<PackCase> {
    let big = (
        prop_oneof![
            (select(vec![1u32 << 24, 1 << 25]), 0u32..64).prop_map(|(a, b)| a - 32 + b),
            10_000_000u32..40_000_000,
        ],
        0u8..5,
        any::<u64>(),
    )
        .prop_map(|(len, style, seed)| ItemSpec {
            item: Item::New(Obj::Blob(Data::Gen { len, style, seed })),
            repr: ReprSpec::Whole,
            level: 1,
            enc: 0,
            pad: 0,
        });
    let edit = (any::<u64>(), 0u8..4, any::<bool>(), 0u64..4).prop_map(|(seed, ops, r, enc)| ItemSpec {
        item: Item::Edit { of: 1, seed, ops },
        repr: if r { ReprSpec::Ref(1) } else { ReprSpec::Ofs(1) },
        level: 1,
        enc,
        pad: 0,
    });
    (big, proptest::option::of(edit), prop_oneof![Just(1u8), Just(2u8)])
        .prop_map(|(big, edit, idx_version)| PackCase {
            pack: PackSpec { items: std::iter::once(big).chain(edit).collect(), order: 0, pack_version: 2, idx_version, large: None },
            reads: vec![],
            git: false,
        })
        .boxed()
}

/// Packs written by git itself.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct GitPack {
    objects: Vec<Item>,
    window: u8,
    depth: u8,
    ofs: bool,
    idx: u8,
    reads: Vec<Read1>,
}

fn git_pack() -> BoxedStrategy<GitPack> {
    let item = prop_oneof![
        2 => (any::<u16>(), any::<u64>(), any::<u8>()).prop_map(|(of, seed, ops)| Item::Edit { of, seed, ops }),
        1 => obj(30_000).prop_map(Item::New),
    ];
    (vec(item, 1..40), 0u8..30, 0u8..60, any::<bool>(), 0u8..3, reads(20))
        .prop_map(|(objects, window, depth, ofs, idx, reads)| GitPack { objects, window, depth, ofs, idx, reads })
        .boxed()
}

fn run_git_pack(c: &GitPack, ctx: &mut Ctx) -> Res {
    if !git::available() {
        ctx.label("skipped: no git");
        return Ok(());
    }
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let spec = PackSpec {
        items: c.objects.iter().map(|i| ItemSpec { item: i.clone(), repr: ReprSpec::Whole, level: 1, enc: 0, pad: 0 }).collect(),
        order: 0,
        pack_version: 2,
        idx_version: 2,
        large: None,
    };
    let made = spec.build().made;
    let mut list = String::new();
    for m in &made {
        put_loose(&g, m, 1)?;
        list.push_str(&hex(&m.id));
        list.push('\n');
    }
    let (w, d) = (format!("--window={}", c.window), format!("--depth={}", c.depth));
    let mut args = vec!["pack-objects", "-q", &w, &d, "--threads=1"];
    if c.ofs {
        args.push("--delta-base-offset");
    }
    args.push(["--index-version=2", "--index-version=1", "--index-version=2,0x40"][c.idx as usize % 3]);
    args.push("objects/pack/pack");
    let o = git::git(&g, &args, Some(list.as_bytes()))?;
    if !o.status.success() {
        // objects git's packer refuses (it looks into tags and commits)
        ctx.label("skipped: git refuses the objects");
        return Ok(());
    }
    for m in &made {
        std::fs::remove_file(loose_path(&g, &m.id))?;
    }
    let mut handles = [open(&dir)?, open(&dir)?];
    for (k, r) in c.reads.iter().enumerate() {
        let h = r.handle as usize % 2;
        if r.reopen {
            handles[h] = open(&dir)?;
        }
        read1(handles[h].object_database(), &made[r.what as usize % made.len()], &r.how, &format!("read {k}"))?;
    }
    for m in &made {
        expect_object(handles[0].object_database(), m, "git's pack")?;
        expect_stream(handles[1].object_database(), m, 0, false, true, "git's pack")?;
    }
    ctx.label(format!("index form {}", c.idx % 3));
    ctx.add("objects", made.len() as u64);
    ctx.nontrivial(made.len() > 1 && c.window > 0 && c.depth > 0);
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        title: "Every object in a valid pack reads back with its exact kind and content",
        level: "exploration",
        rule: "a case is a pack and index with random objects, representations, order, compression and encodings (or one written by git), and a random history of reads through two handles, after which every object is read by every method; non-trivial: the pack has at least one delta or an object of 16 MiB (git's packs: a delta window over several objects)",
        assumptions: &["the harness's pack writer is right (a sample of its packs is read by git too, and git-written packs are a separate arm)"],
        arms: vec![
            arm("packs", 9000, 200_000, pack_case(2500, 14, 12, 0.01), run_pack),
            arm("packs-large", 350, 8000, pack_case(400_000, 8, 8, 0.05), run_pack),
            arm("deep-chains", 160, 3000, deep_case(), run_pack),
            arm("wide-packs", 60, 1500, wide_case(), run_pack),
            arm("giant", 8, 200, giant_case(), run_pack),
            arm("sparse", 300, 6000, sparse(), run_sparse),
            arm("git-packs", 250, 5000, git_pack(), run_git_pack),
        ],
    }
}

// ================================================================ C04

/// A pool of small blobs sorted by id, dense enough that neighbours share leading bytes.
fn pool() -> &'static Vec<(Oid, u32)> {
    static P: OnceLock<Vec<(Oid, u32)>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v: Vec<(Oid, u32)> = (0..70_000u32).map(|i| (object_id(Kind::Blob, &pool_bytes(i)), i)).collect();
        v.sort();
        v
    })
}

fn pool_bytes(i: u32) -> Vec<u8> {
    format!("pool object {i}\n").into_bytes()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Choose {
    /// a run of neighbours in id order
    Run { start: u32, len: u16 },
    /// spread evenly
    Every { start: u32, step: u16, len: u16 },
    /// all ids beginning with this byte (at most some)
    Byte { byte: u8, skip: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Place {
    Loose,
    Pack { idx: u8, large: Option<u64>, shuffle: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LookupCase {
    parts: Vec<(Choose, Place)>,
    strays: u16,
    queries: Vec<(u32, u8, u8)>,
    parse: bool,
    #[serde(default)]
    layout: (u8, u64),
    /// how many objects each pack holds twice
    #[serde(default)]
    twice: u8,
}

fn choose(max: u16) -> BoxedStrategy<Choose> {
    prop_oneof![
        3 => (0u32..70_000, 1u16..max).prop_map(|(start, len)| Choose::Run { start, len }),
        2 => (0u32..70_000, 1u16..500, 1u16..max).prop_map(|(start, step, len)| Choose::Every { start, step, len }),
        2 => (prop_oneof![Just(0u8), Just(255u8), any::<u8>()], 0u8..4).prop_map(|(byte, skip)| Choose::Byte { byte, skip }),
        1 => prop_oneof![Just(0u32), Just(69_999)].prop_map(|start| Choose::Run { start, len: 3 }),
    ]
    .boxed()
}

fn chosen(c: &Choose) -> Vec<usize> {
    let p = pool();
    let n = p.len();
    match c {
        Choose::Run { start, len } => (0..*len as usize).map(|i| (*start as usize + i) % n).collect(),
        Choose::Every { start, step, len } => {
            (0..*len as usize).map(|i| (*start as usize + i * *step as usize) % n).collect::<BTreeSet<_>>().into_iter().collect()
        }
        Choose::Byte { byte, skip } => {
            let at = p.partition_point(|(id, _)| id[0] < *byte);
            (at..n).take_while(|i| p[*i].0[0] == *byte).step_by(*skip as usize + 1).collect()
        }
    }
}

fn lookup_case(max: u16, parts: usize) -> BoxedStrategy<LookupCase> {
    let place = prop_oneof![
        1 => Just(Place::Loose),
        3 => (1u8..=2, proptest::option::weighted(0.4, any::<u64>()), any::<u64>()).prop_map(|(idx, large, shuffle)| Place::Pack { idx, large, shuffle }),
    ];
    (
        vec((choose(max), place), 0..parts),
        any::<u16>(),
        vec((any::<u32>(), 0u8..15, any::<u8>()), 1..60),
        any::<bool>(),
        prop_oneof![2 => Just((0u8, 0u64)), 1 => (layout_bits(), any::<u64>())],
        prop_oneof![4 => Just(0u8), 1 => 1u8..40],
    )
        .prop_map(|(parts, strays, queries, parse, layout, twice)| LookupCase { parts, strays, queries, parse, layout, twice })
        .boxed()
}

/// Very many packs of one or two objects.
fn many_packs() -> Vec<LookupCase> {
    [130u32, 260, 300, 520, 700, 1030, 1300, 2060, 4100]
        .iter()
        .enumerate()
        .map(|(k, n)| LookupCase {
            parts: (0..*n)
                .map(|i| {
                    let ch = Choose::Run { start: i * 17 + k as u32, len: 1 + (i % 3 == 0) as u16 };
                    (ch, Place::Pack { idx: 1 + (i % 5 != 0) as u8, large: None, shuffle: 0 })
                })
                .collect(),
            strays: 0,
            queries: (0..20u32).map(|i| (i * 0x0501_0301, (i % 15) as u8, i as u8)).collect(),
            parse: k % 2 == 0,
            layout: (0, k as u64),
            twice: (k % 3) as u8,
        })
        .collect()
}

fn strays(g: &Path, bits: u16, name: &str) -> Res {
    let p = g.join("objects/pack");
    let list: [(&str, &[u8]); 8] = [
        ("keep", b""),
        ("rev", b"RIDX\0\0\0\x01\0\0\0\x01"),
        ("bitmap", b"BITM"),
        ("mtimes", b"MTME"),
        ("promisor", b""),
        ("idx.lock", b""),
        ("pack.tmp", b"PACK"),
        ("old", b"x"),
    ];
    for (i, (ext, b)) in list.iter().enumerate() {
        if bits & (1 << i) != 0 {
            std::fs::write(p.join(format!("{name}.{ext}")), b)?;
        }
    }
    if bits & 0x100 != 0 {
        std::fs::write(p.join("multi-pack-index"), b"MIDX\x01\x01\0\0")?;
    }
    if bits & 0x200 != 0 {
        std::fs::write(p.join("tmp_pack_abcdef"), b"PACK\0\0")?;
    }
    if bits & 0x400 != 0 {
        std::fs::write(p.join("tmp_idx_abcdef"), b"\xfftOc")?;
    }
    if bits & 0x800 != 0 {
        std::fs::create_dir_all(p.join("subdir"))?;
    }
    if bits & 0x1000 != 0 {
        std::fs::create_dir_all(g.join("objects/00"))?;
        std::fs::write(g.join("objects/00/tmp_obj_x"), b"")?;
    }
    if bits & 0x2000 != 0 {
        std::fs::write(g.join("objects/info/packs"), b"P pack-x.pack\n")?;
        std::fs::write(g.join("objects/info/commit-graph"), b"CGPH")?;
    }
    Ok(())
}

/// A variation of a stored id.
fn vary(id: &Oid, how: u8, arg: u8) -> Oid {
    let mut v = *id;
    let add = |v: &mut Oid, up: bool| {
        for b in v.iter_mut().rev() {
            let (n, o) = if up { b.overflowing_add(1) } else { b.overflowing_sub(1) };
            *b = n;
            if !o {
                break;
            }
        }
    };
    match how {
        0 => v[19] ^= 1,
        1 => v[19] ^= 0x80,
        2 => add(&mut v, true),
        3 => add(&mut v, false),
        4 => v[0] ^= 1 << (arg % 8),
        5 => v[1 + arg as usize % 19] ^= 1 << (arg / 19 % 8),
        6 => {
            // same leading bytes, then zeros
            let k = 1 + arg as usize % 19;
            v[k..].fill(0);
        }
        7 => {
            let k = 1 + arg as usize % 19;
            v[k..].fill(0xff);
        }
        8 => v = [0; 20],
        9 => v = [0xff; 20],
        10 => {
            v = [0; 20];
            v[0] = arg;
        }
        11 => {
            v = [0xff; 20];
            v[0] = arg;
        }
        12 => v.reverse(),
        13 => v = KNOWN_IDS[arg as usize % KNOWN_IDS.len()],
        _ => v.swap(18, 19),
    }
    v
}

fn run_lookup(c: &LookupCase, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let p = pool();
    let mut stored: BTreeMap<Oid, u32> = BTreeMap::new();
    let (mut packs, mut loose, mut repeated) = (0, 0, 0);
    let mut idx_forms = BTreeSet::new();
    let mut biggest = 0;
    for (k, (ch, place)) in c.parts.iter().enumerate() {
        let mut ids = chosen(ch);
        match place {
            Place::Loose => {
                ids.truncate(30);
                for i in &ids {
                    put_loose(&g, &blob_made(pool_bytes(p[*i].1)), 1)?;
                }
                loose += ids.len();
            }
            Place::Pack { idx, large, shuffle } => {
                let again: Vec<usize> = ids.iter().step_by(1 + (*shuffle % 3) as usize).take(c.twice as usize).copied().collect();
                repeated += again.len();
                ids.extend(again);
                let mut x = *shuffle;
                for i in (1..ids.len()).rev() {
                    ids.swap(i, crate::engine::splitmix(&mut x) as usize % (i + 1));
                }
                let entries: Vec<PackEntry> = ids
                    .iter()
                    .map(|i| PackEntry {
                        id: p[*i].0,
                        kind: Kind::Blob,
                        bytes: pool_bytes(p[*i].1),
                        repr: Repr::Whole,
                        level: 0,
                        gap: 0,
                        pad: 0,
                    })
                    .collect();
                let pk = build_pack(2, &entries);
                let oids: Vec<Oid> = entries.iter().map(|e| e.id).collect();
                let ix = idx_for(&pk, &oids, *idx, if *idx == 2 { *large } else { None });
                let base = put_pack(&g, &pk.bytes, &ix, &pk.sum)?;
                strays(&g, c.strays.rotate_left(k as u32), base.file_name().unwrap().to_str().unwrap())?;
                packs += 1;
                biggest = biggest.max(ids.len());
                idx_forms.insert((*idx, large.is_some() && *idx == 2));
            }
        }
        for i in &ids {
            stored.insert(p[*i].0, p[*i].1);
        }
    }
    strays(&g, c.strays, "pack-stray")?;
    relayout(&g, c.layout.0, c.layout.1)?;
    let repo = open(&dir)?;
    // The database of a repository without work tree can be opened by itself.
    let bare = if c.layout.1 % 3 == 1 { Some(guard("ObjectDatabase::open", || ObjectDatabase::open(&g))?) } else { None };
    ctx.label_if(bare.is_some(), "database opened by itself");
    let db = bare.as_ref().unwrap_or(repo.object_database());
    let keys: Vec<Oid> = stored.keys().copied().collect();
    let check = |id: &Oid, what: &str| -> Res<bool> {
        match stored.get(id) {
            Some(i) => {
                let m = blob_made(pool_bytes(*i));
                if c.parse {
                    expect_object(db, &m, what)?;
                } else {
                    expect_stream(db, &m, 0, true, true, what)?;
                }
                Ok(true)
            }
            None => {
                expect_absent(db, id, what)?;
                Ok(false)
            }
        }
    };
    let (mut hit, mut miss) = (0u64, 0u64);
    for (at, how, arg) in &c.queries {
        let near = if keys.is_empty() { p[*at as usize % p.len()].0 } else { keys[*at as usize % keys.len()] };
        for id in [near, vary(&near, *how, *arg)] {
            if check(&id, &format!("query {how}"))? {
                hit += 1
            } else {
                miss += 1
            }
        }
        // the pool's own neighbours, stored or not
        let k = p.partition_point(|(id, _)| id < &near);
        for j in [k.wrapping_sub(1), k + 1] {
            if let Some((id, _)) = p.get(j) {
                if check(id, "pool neighbour")? {
                    hit += 1
                } else {
                    miss += 1
                }
            }
        }
    }
    // every stored id (a sample of large sets), from a fresh handle
    let fresh = open(&dir)?;
    let step = 1 + keys.len() / 400;
    for id in keys.iter().step_by(step) {
        expect_object(fresh.object_database(), &blob_made(pool_bytes(stored[id])), "all stored ids")?;
    }
    ctx.label_if(repeated > 0, "an object twice in one pack");
    ctx.label_if(packs >= 2, "several packs");
    ctx.label_if(packs > 500, "more than 500 packs");
    ctx.label_if(c.layout.0 & 1 != 0 && packs > 0, "packs under other names");
    ctx.label_if(c.layout.0 & 62 != 0, "files or folders behind links");
    ctx.label_if(loose > 0 && packs > 0, "loose and packed");
    ctx.label_if(idx_forms.contains(&(1, false)), "index version 1");
    ctx.label_if(idx_forms.contains(&(2, true)), "64-bit offset table");
    ctx.label_if(biggest > 1000, "pack of more than 1000 objects");
    ctx.label_if(keys.is_empty(), "empty repository");
    ctx.add("present ids looked up", hit);
    ctx.add("absent ids looked up", miss);
    ctx.nontrivial(hit > 0 && miss > 0);
    Ok(())
}

/// Packs of more than 4 GiB, as sparse files.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sparse {
    /// offsets of the objects (made increasing), and whether each is a delta on an earlier one
    at: Vec<(u64, u8)>,
    small_in_table: u64,
    /// a version 1 index, whose offsets have 32 bits
    v1: bool,
}

fn sparse() -> BoxedStrategy<Sparse> {
    let off = prop_oneof![
        2 => 12u64..5_000_000,
        2 => (select(vec![0x7fff_ff00u64, 0x7fff_fff0, 0x8000_0000, 0xffff_ff00, 0xffff_fff0, 0x1_0000_0000, 0x1_8000_0000, 0x2_0000_0000]), 0u64..300)
            .prop_map(|(a, b)| a + b),
        1 => 0x1_0000_0000u64..0x3_0000_0000,
        1 => (33u32..43, 0u64..600).prop_map(|(b, d)| (1 << b) + d - 300),
    ];
    (vec((off, any::<u8>()), 2..10), any::<u64>(), any::<bool>()).prop_map(|(at, small_in_table, v1)| Sparse { at, small_in_table, v1 }).boxed()
}

fn run_sparse(c: &Sparse, ctx: &mut Ctx) -> Res {
    use std::io::{Seek, SeekFrom};
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let mut at: Vec<(u64, u8)> = c.at.clone();
    if c.v1 {
        at.iter_mut().for_each(|a| a.0 &= 0xffff_ffff);
    }
    at.sort();
    let mut f = std::fs::File::create(g.join("objects/pack/pack-sparse.pack"))?;
    let n = at.len() as u32;
    f.write_all(b"PACK\0\0\0\x02")?;
    f.write_all(&n.to_be_bytes())?;
    let mut end = 12;
    let mut made: Vec<(Made, u64)> = vec![];
    let mut x = c.small_in_table;
    let mut idx = vec![];
    let (mut far, mut v1) = (false, c.v1);
    for (k, (off, how)) in at.iter().enumerate() {
        // the first object of a pack always follows its header
        let off = if k == 0 { 12 } else { (*off).max(end) };
        let bytes = format!("object {k} of a very large pack, at {off}\n").into_bytes();
        let m = blob_made(bytes.clone());
        let mut e = vec![];
        let base = match how >> 3 {
            0..=11 => made.last(),
            12..=19 => made.first(),
            h => made.get(h as usize % made.len().max(1)),
        };
        match base {
            Some((b, boff)) if how % 8 < 6 => {
                let d = encode_delta(b.bytes.len() as u64, bytes.len() as u64, &diff_ops(&b.bytes, &bytes, k as u64), (0, 0));
                if how % 8 < 4 {
                    e.extend(entry_header(6, d.len() as u64, 0));
                    e.extend(ofs_varint(off - boff));
                    far |= off - boff > 1 << 32;
                } else {
                    e.extend(entry_header(7, d.len() as u64, 0));
                    e.extend(b.id);
                }
                e.extend(deflate(&d, 6));
            }
            _ => {
                e.extend(entry_header(3, bytes.len() as u64, 0));
                e.extend(deflate(&bytes, 6));
            }
        }
        f.seek(SeekFrom::Start(off))?;
        f.write_all(&e)?;
        idx.push(IdxEntry { id: m.id, offset: off, crc: crc32(&e), large: k > 0 && crate::engine::splitmix(&mut x) % 3 == 0 });
        end = off + e.len() as u64;
        v1 &= off < 1 << 32;
        made.push((m, off));
    }
    // the checksum of gigabytes of zeros is not computed: index and pack agree on this one
    let sum = sha1(&c.small_in_table.to_be_bytes());
    f.write_all(&sum)?;
    drop(f);
    std::fs::write(g.join("objects/pack/pack-sparse.idx"), build_idx(if v1 { 1 } else { 2 }, &idx, &sum))?;
    let repo = open(&dir)?;
    for (m, off) in made.iter().rev().chain(made.iter()) {
        expect_object(repo.object_database(), m, &format!("offset {off:#x}"))?;
        expect_stream(repo.object_database(), m, 0, false, true, &format!("offset {off:#x}"))?;
    }
    for (m, _) in &made {
        expect_absent(repo.object_database(), &vary(&m.id, 0, 0), "large pack")?;
    }
    ctx.label_if(end > 1 << 32, "pack above 4 GiB");
    ctx.label_if(made.iter().any(|m| (1 << 31..1 << 32).contains(&m.1)), "offset between 2 and 4 GiB");
    ctx.label_if(far, "base more than 4 GiB away");
    ctx.label_if(v1, "version 1 index");
    ctx.nontrivial(end > 1 << 31);
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        title: "Looking up an id finds exactly the object stored under that id",
        level: "exploration",
        rule: "a case spreads ids (runs of neighbours, whole first-byte buckets, even spreads over 70000 ids) over packs with indexes of both versions and loose files, with stray files around, and looks up stored ids, their neighbours and variations against a set model; sparse packs above 4 GiB have 64-bit offsets; non-trivial: present and absent ids were looked up (sparse: an offset above 2 GiB)",
        assumptions: &["pack files above 4 GiB are sparse and carry a checksum that is not the SHA-1 of their content; index and pack agree on it"],
        arms: vec![
            arm("spread", 2500, 60_000, lookup_case(60, 5), run_lookup),
            arm("large-indexes", 120, 3000, lookup_case(6000, 3), run_lookup),
            arm("sparse", 400, 10_000, sparse(), run_sparse),
            list_arm("many-packs", many_packs(), run_lookup),
        ],
    }
}

// ================================================================ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
enum OpSpec {
    /// positions are scaled to the base
    Copy { off: u32, len: u32, enc: u8, from_end: bool },
    Insert { len: u8, style: u8, seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    BaseSize(i64),
    BaseSizeHuge(u8),
    ResultSize(i64),
    ResultSizeHuge(u8),
    /// a copy that ends this far beyond the base
    CopyBeyond { at: u8, off: u32, over: u32 },
    /// a copy that starts beyond the base
    CopyFar { at: u8, off: u32 },
    /// the delta is cut (kept share of its length)
    Cut(u16),
    /// the delta ends inside an instruction, and its sizes are right if that is ignored, shortened or filled up
    CutInside { at: u8, insert: bool, len: u8, keep: u8 },
    /// the reserved instruction
    Zero { at: u8 },
    /// an instruction too many
    Extra { insert: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DeltaCase {
    base: Data,
    ops: Vec<OpSpec>,
    pads: (u8, u8),
    by_ref: bool,
    faults: Vec<Fault>,
    on_top: bool,
    level: u8,
}

fn op_spec() -> BoxedStrategy<OpSpec> {
    prop_oneof![
        3 => (
            prop_oneof![2 => Just(0u32), 3 => 0u32..300, 2 => any::<u32>()],
            prop_oneof![4 => 1u32..300, 2 => select(vec![0x100u32, 0xff00, 0xffff, 0x10000, 0x10001, 0x20000, 0xff0000, 0xffffff]), 1 => any::<u32>()],
            any::<u8>(),
            any::<bool>(),
        )
            .prop_map(|(off, len, enc, from_end)| OpSpec::Copy { off, len, enc, from_end }),
        2 => (prop_oneof![1u8..20, Just(127u8), Just(126u8), 1u8..128], 0u8..5, any::<u64>()).prop_map(|(len, style, seed)| OpSpec::Insert { len, style, seed }),
    ]
    .boxed()
}

fn fault() -> BoxedStrategy<Fault> {
    let delta = || prop_oneof![Just(1i64), Just(-1), -300i64..300, Just(256), Just(-128), Just(1 << 32), Just(128)];
    prop_oneof![
        2 => delta().prop_map(Fault::BaseSize),
        1 => any::<u8>().prop_map(Fault::BaseSizeHuge),
        2 => delta().prop_map(Fault::ResultSize),
        1 => any::<u8>().prop_map(Fault::ResultSizeHuge),
        3 => (any::<u8>(), prop_oneof![0u32..300, any::<u32>()], prop_oneof![Just(1u32), 1u32..300, any::<u32>()])
            .prop_map(|(at, off, over)| Fault::CopyBeyond { at, off, over }),
        2 => (any::<u8>(), prop_oneof![Just(0u32), 1u32..10, any::<u32>()]).prop_map(|(at, off)| Fault::CopyFar { at, off }),
        4 => any::<u16>().prop_map(Fault::Cut),
        4 => (any::<u8>(), any::<bool>(), any::<u8>(), any::<u8>()).prop_map(|(at, insert, len, keep)| Fault::CutInside { at, insert, len, keep }),
        2 => any::<u8>().prop_map(|at| Fault::Zero { at }),
        2 => any::<bool>().prop_map(|insert| Fault::Extra { insert }),
    ]
    .boxed()
}

fn resolve(base_len: usize, specs: &[OpSpec], cap: usize) -> Vec<Op> {
    let mut total = 0;
    let mut v = vec![];
    for s in specs {
        match s {
            OpSpec::Insert { len, style, seed } => {
                v.push(Op::Insert(fill(*len as usize, *style, *seed)));
                total += *len as usize;
            }
            OpSpec::Copy { off, len, enc, from_end } => {
                if base_len == 0 {
                    continue;
                }
                let len = (*len as usize).clamp(1, base_len.min(0xffffff));
                if total + len > cap {
                    continue;
                }
                let room = base_len - len;
                let off = if *from_end { room - (*off as usize).min(room) } else { *off as usize % (room + 1) };
                total += len;
                v.push(Op::Copy { off: off as u32, len: len as u32, enc: *enc });
            }
        }
    }
    v
}

/// n, spelled with continuation bytes up to ten and bits beyond the sixty-fourth set.
fn huge_varint(n: u64, extra: u8) -> Vec<u8> {
    let mut v = vec![];
    for k in 0..9 {
        v.push(0x80 | ((n >> (7 * k)) & 0x7f) as u8);
    }
    v.push((n >> 63) as u8 | (2 << (extra % 6)));
    v
}

fn delta_case(base: BoxedStrategy<Data>, ops: usize) -> BoxedStrategy<DeltaCase> {
    (base, vec(op_spec(), 0..ops), (0u8..3, 0u8..3), any::<bool>(), vec(fault(), 1..6), any::<bool>(), level())
        .prop_map(|(base, ops, pads, by_ref, faults, on_top, level)| DeltaCase { base, ops, pads, by_ref, faults, on_top, level })
        .boxed()
}

fn entry(m: &Made, repr: Repr, level: u8) -> PackEntry {
    PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr, level, gap: 0, pad: 0 }
}

fn run_delta(c: &DeltaCase, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let base = blob_made(c.base.bytes());
    let ops = resolve(base.bytes.len(), &c.ops, 40_000_000);
    let result = apply_ops(&base.bytes, &ops).expect("ops within the base");
    let (bl, rl) = (base.bytes.len() as u64, result.len() as u64);
    let target = blob_made(result);
    let good = encode_delta(bl, rl, &ops, c.pads);
    let head = varint(bl, c.pads.0).len() + varint(rl, c.pads.1).len();
    // positions between instructions
    let mut marks = vec![head];
    for o in &ops {
        let mut v = vec![];
        encode_op(o, &mut v);
        marks.push(marks.last().unwrap() + v.len());
    }
    let body = &good[head..];
    let splice = |at: u8, ins: &[u8], result_len: u64| {
        let k = marks[at as usize % marks.len()] - head;
        let mut d = varint(bl, 0);
        d.extend(varint(result_len, 0));
        d.extend_from_slice(&body[..k]);
        d.extend_from_slice(ins);
        d.extend_from_slice(&body[k..]);
        d
    };
    let with_head = |h: [Vec<u8>; 2]| {
        let mut d = h.concat();
        d.extend_from_slice(body);
        d
    };
    let mut broken: Vec<(String, Vec<u8>)> = vec![];
    for f in &c.faults {
        let d = match f {
            Fault::BaseSize(k) => {
                let n = bl.wrapping_add(*k as u64);
                if n == bl {
                    continue;
                }
                with_head([varint(n, 0), varint(rl, 0)])
            }
            Fault::ResultSize(k) => {
                let n = rl.wrapping_add(*k as u64);
                if n == rl {
                    continue;
                }
                with_head([varint(bl, 0), varint(n, 0)])
            }
            Fault::BaseSizeHuge(x) => with_head([huge_varint(bl, *x), varint(rl, 0)]),
            Fault::ResultSizeHuge(x) => with_head([varint(bl, 0), huge_varint(rl, *x)]),
            Fault::CopyBeyond { at, off, over } => {
                let off = *off as u64 % (bl + 1);
                let len = bl - off + *over as u64;
                let len = if len > 0xffffff { 0xffffff } else { len };
                if off + len <= bl {
                    continue;
                }
                let mut ins = vec![];
                encode_op(&Op::Copy { off: off as u32, len: len as u32, enc: 0 }, &mut ins);
                // as if the copy were left out, or shortened to what there is
                broken.push((format!("{f:?}, left out"), splice(*at, &ins, rl)));
                broken.push((format!("{f:?}, shortened"), splice(*at, &ins, rl + bl - off)));
                splice(*at, &ins, rl + len)
            }
            Fault::CopyFar { at, off } => {
                let off = (bl + *off as u64).min(u32::MAX as u64);
                let mut ins = vec![];
                encode_op(&Op::Copy { off: off as u32, len: 1, enc: 0 }, &mut ins);
                broken.push((format!("{f:?}, left out"), splice(*at, &ins, rl)));
                splice(*at, &ins, rl + 1)
            }
            Fault::Cut(k) => good[..*k as usize % good.len()].to_vec(),
            Fault::CutInside { at, insert, len, keep } => {
                let k = *at as usize % marks.len();
                let before: u64 = ops[..k]
                    .iter()
                    .map(|o| match o {
                        Op::Copy { len, .. } => *len as u64,
                        Op::Insert(v) => v.len() as u64,
                    })
                    .sum();
                // the instruction, as far as it is there, and how long its result might be taken to be
                let mut ins = vec![];
                let mut lens = vec![0];
                if *insert {
                    let n = 1 + *len as usize % 127;
                    let m = *keep as usize % n;
                    ins.push(n as u8);
                    ins.extend(fill(m, *len % 5, *keep as u64));
                    lens.extend([m as u64, n as u64]);
                } else {
                    let cmd = 0x80 | (*len | 1 << (*keep % 7)) & 0x7f;
                    let operands = (cmd & 0x7f).count_ones() as usize;
                    let there = *keep as usize % operands;
                    ins.push(cmd);
                    // a small length, from the start of the base
                    let mut n = 0u64;
                    for bit in (0..7).filter(|b| cmd >> b & 1 == 1).take(there) {
                        let v = if bit == 4 { 1 + *len % 9 } else { 0 };
                        n |= if bit == 4 { v as u64 } else { 0 };
                        ins.push(v);
                    }
                    lens.push(if n == 0 { 0x10000 } else { n });
                    lens.push(n.max(1));
                    lens.push(bl);
                }
                for n in &lens {
                    let mut d = varint(bl, c.pads.0);
                    d.extend(varint(before + n, c.pads.1));
                    d.extend_from_slice(&body[..marks[k] - head]);
                    d.extend_from_slice(&ins);
                    broken.push((format!("{f:?}, {n} more bytes"), d));
                }
                continue;
            }
            Fault::Zero { at } => splice(*at, &[0], rl),
            Fault::Extra { insert } => {
                let mut d = good.clone();
                if *insert || bl == 0 {
                    d.extend_from_slice(b"\x01x");
                } else {
                    encode_op(&Op::Copy { off: 0, len: 1, enc: 0 }, &mut d);
                }
                d
            }
        };
        broken.push((format!("{f:?}"), d));
    }
    // one pack: the base, the well-formed delta, and every broken one under an id of its own
    let mut entries = vec![entry(&base, Repr::Whole, 1)];
    let mut ids = vec![base.id];
    let put = |entries: &mut Vec<PackEntry>, ids: &mut Vec<Oid>, id: Oid, d: &[u8], b: usize| {
        let repr = if c.by_ref { Repr::Ref { base: ids[b], delta: d.to_vec() } } else { Repr::Ofs { base: b, delta: d.to_vec() } };
        entries.push(PackEntry { id, kind: Kind::Blob, bytes: vec![], repr, level: c.level, gap: 0, pad: 0 });
        ids.push(id);
        entries.len() - 1
    };
    // git refuses deltas shorter than four bytes, which only an empty result can have
    let same = target.id == base.id || good.len() < 4;
    let good_at;
    let mut top = None;
    if !same {
        good_at = put(&mut entries, &mut ids, target.id, &good, 0);
        let second = blob_made([&target.bytes[..], b"!"].concat());
        if c.on_top && second.id != base.id && second.bytes.len() < 1_000_000 {
            let ops = diff_ops(&target.bytes, &second.bytes, 7);
            let d = encode_delta(target.bytes.len() as u64, second.bytes.len() as u64, &ops, (0, 0));
            put(&mut entries, &mut ids, second.id, &d, good_at);
            top = Some(second);
        }
    }
    let mut bad_ids = vec![];
    for (k, (what, d)) in broken.iter().enumerate() {
        let id = sha1(format!("broken {k} {what}").as_bytes());
        put(&mut entries, &mut ids, id, d, 0);
        bad_ids.push((id, what.clone()));
    }
    let good_there = !same;
    let pk = build_pack(2, &entries);
    let ix = idx_for(&pk, &ids, 2, None);
    put_pack(&g, &pk.bytes, &ix, &pk.sum)?;
    let repo = open(&dir)?;
    let db = repo.object_database();
    let check_good = |at: &str| -> Res {
        if let Some(t) = &top {
            expect_object(db, t, at)?;
        }
        if good_there {
            expect_stream(db, &target, 0, false, true, at)?;
            expect_object(db, &target, at)?;
        }
        expect_object(db, &base, at)
    };
    if c.by_ref {
        check_good("well-formed delta")?;
    }
    for (id, what) in &bad_ids {
        match lookup(db, id)? {
            Got::Error(_) => (),
            Got::NotFound => bad!("not-found", "an object stored as an ill-formed delta ({what}) was reported as not found"),
            Got::Object(p) => bad!("accepted", "an ill-formed delta ({what}) was accepted and gave {p:?}; delta: {}", show(&broken[bad_ids.iter().position(|b| b.0 == *id).unwrap()].1)),
        }
        match stream(db, id, 0)? {
            Streamed::Error(_) => (),
            s => bad!("accepted", "an ill-formed delta ({what}) streamed {s:?}"),
        }
    }
    check_good("well-formed delta, beside refused ones")?;
    let copies = ops.iter().filter(|o| matches!(o, Op::Copy { .. })).count();
    ctx.label_if(same, "result equals base, or delta below 4 bytes");
    ctx.label_if(ops.iter().any(|o| matches!(o, Op::Copy { len, .. } if *len == 0x10000)), "copy of 65536");
    ctx.label_if(ops.iter().any(|o| matches!(o, Op::Copy { len, .. } if *len > 0x10000)), "copy above 65536");
    ctx.label_if(ops.iter().any(|o| matches!(o, Op::Copy { off, .. } if *off > 0xffff)), "offset of 3 bytes or more");
    ctx.label_if(ops.iter().any(|o| matches!(o, Op::Copy { off, .. } if *off > 0xffffff)), "offset of 4 bytes");
    ctx.label_if(rl == 0, "empty result");
    ctx.label_if(bl == 0, "empty base");
    ctx.label_if(c.pads != (0, 0), "sizes not in shortest form");
    ctx.add("ill-formed deltas", bad_ids.len() as u64);
    for f in &c.faults {
        let d = format!("{f:?}");
        ctx.label(format!("fault {}", d.split(|c: char| !c.is_alphanumeric()).next().unwrap()));
    }
    ctx.nontrivial(copies > 0 && ops.len() > copies || !bad_ids.is_empty());
    Ok(())
}

/// Deltas between objects of every kind keep the kind of the base.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KindCase {
    a: Obj,
    b: Obj,
    seed: u64,
    by_ref: bool,
}

fn same_kind() -> BoxedStrategy<KindCase> {
    let pair = prop_oneof![
        (data_upto(500), data_upto(500)).prop_map(|(a, b)| (Obj::Blob(a), Obj::Blob(b))),
        (tree(), tree()).prop_map(|(a, b)| (Obj::Tree(a), Obj::Tree(b))),
        (commit(), commit()).prop_map(|(a, b)| (Obj::Commit(a), Obj::Commit(b))),
        (tag(), tag()).prop_map(|(a, b)| (Obj::Tag(a), Obj::Tag(b))),
        // same object but for the message: long copies
        (commit(), message()).prop_map(|(a, m)| {
            let mut b = a.clone();
            b.message = m;
            (Obj::Commit(a), Obj::Commit(b))
        }),
        (tree(), any::<u16>()).prop_map(|(a, k)| {
            let mut b = a.clone();
            if !b.entries.is_empty() {
                let k = k as usize % b.entries.len();
                b.entries.remove(k);
            }
            (Obj::Tree(a), Obj::Tree(b))
        }),
    ];
    (pair, any::<u64>(), any::<bool>()).prop_map(|((a, b), seed, by_ref)| KindCase { a, b, seed, by_ref }).boxed()
}

fn run_kind(c: &KindCase, ctx: &mut Ctx) -> Res {
    let (a, b) = (c.a.made(), c.b.made());
    if a.id == b.id {
        return Ok(());
    }
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let ops = diff_ops(&a.bytes, &b.bytes, c.seed);
    let d = encode_delta(a.bytes.len() as u64, b.bytes.len() as u64, &ops, (0, 0));
    let repr = if c.by_ref { Repr::Ref { base: a.id, delta: d } } else { Repr::Ofs { base: 0, delta: d } };
    let pk = build_pack(2, &[entry(&a, Repr::Whole, 6), entry(&b, repr, 6)]);
    let ix = idx_for(&pk, &[a.id, b.id], 1, None);
    put_pack(&g, &pk.bytes, &ix, &pk.sum)?;
    let repo = open(&dir)?;
    for (m, what) in [(&b, "delta"), (&a, "base"), (&b, "delta, again")] {
        expect_object(repo.object_database(), m, what)?;
        expect_stream(repo.object_database(), m, 0, false, true, what)?;
    }
    ctx.label(a.kind.name());
    ctx.nontrivial(ops.iter().any(|o| matches!(o, Op::Copy { .. })));
    ensure!(a.kind == b.kind, "harness", "kinds differ");
    Ok(())
}

/// Every way to spell one copy: all 128 instruction bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spelling {
    cmd: u8,
    operands: [u8; 7],
}

fn run_spelling(c: &Spelling, ctx: &mut Ctx) -> Res {
    // operands present in the instruction byte take the listed values
    let mut op = vec![c.cmd];
    let (mut off, mut len) = (0u64, 0u64);
    for k in 0..4 {
        if c.cmd & (1 << k) != 0 {
            let v = if k == 3 { c.operands[k] & 1 } else { c.operands[k] };
            op.push(v);
            off |= (v as u64) << (8 * k);
        }
    }
    for k in 0..3 {
        if c.cmd & (0x10 << k) != 0 {
            let v = if k == 2 { c.operands[4 + k] & 3 } else { c.operands[4 + k] };
            op.push(v);
            len |= (v as u64) << (8 * k);
        }
    }
    if len == 0 {
        len = 0x10000;
    }
    // a base that is different everywhere and long enough
    let base = blob_made(fill((off + len) as usize + 3, 4, c.cmd as u64));
    let want = base.bytes[off as usize..(off + len) as usize].to_vec();
    let target = blob_made([&want[..], b"z"].concat());
    let mut d = varint(base.bytes.len() as u64, 0);
    d.extend(varint(target.bytes.len() as u64, 0));
    d.extend(op);
    d.extend_from_slice(b"\x01z");
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let pk = build_pack(2, &[entry(&base, Repr::Whole, 1), entry(&target, Repr::Ofs { base: 0, delta: d }, 6)]);
    put_pack(&g, &pk.bytes, &idx_for(&pk, &[base.id, target.id], 2, None), &pk.sum)?;
    let repo = open(&dir)?;
    expect_object(repo.object_database(), &target, &format!("copy instruction {:#x}, offset {off}, length {len}", c.cmd))?;
    ctx.nontrivial(true);
    Ok(())
}

fn spellings() -> Vec<Spelling> {
    let mut v = vec![];
    for cmd in 0x80..=0xffu8 {
        v.push(Spelling { cmd, operands: [3, 2, 1, 0, 5, 4, 1] });
        v.push(Spelling { cmd, operands: [0xff, 0, 2, 0, 0, 0, 0] });
        v.push(Spelling { cmd, operands: [0, 0xff, 0, 0, 0, 1, 0] });
        if cmd & 8 != 0 && cmd & 0x47 == 0 {
            v.push(Spelling { cmd, operands: [0, 0, 0, 1, 9, 0, 0] });
        }
    }
    v
}

pub fn c05() -> Prop {
    let big = (prop_oneof![Just(0x1000000u32 + 70_000), 0x1000000u32..0x1300000, 70_000u32..3_000_000], 3u8..5, any::<u64>())
        .prop_map(|(len, style, seed)| Data::Gen { len, style, seed })
        .boxed();
    Prop {
        id: "C05",
        title: "Deltas rebuild exactly their target; ill-formed deltas are refused",
        level: "exploration",
        rule: "a case is a base, a random list of copy and insert instructions in random legal encodings, stored as an offset or reference delta, compared with the harness's own interpretation, beside single-fault variants that must be refused with an error; every copy instruction byte is enumerated; non-trivial: copies and inserts together, or at least one ill-formed delta",
        assumptions: &["objects stored under ids that are not the SHA-1 of their content (the ill-formed ones) are looked up like others"],
        arms: vec![
            list_arm("copy-spellings", spellings(), run_spelling),
            arm("deltas", 9000, 200_000, delta_case(data_upto(1500), 10), run_delta),
            arm("deltas-large", 500, 10_000, delta_case(data_upto(300_000), 12), run_delta),
            arm("deltas-16M", 24, 400, delta_case(big, 8), run_delta),
            arm("kinds", 2500, 60_000, same_kind(), run_kind),
        ],
    }
}
