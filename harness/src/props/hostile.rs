//! C06 malformed object storage, C07 damaged object data.
use super::*;
use crate::store::*;
use crate::sys::{with_plan, Plan};
use crate::{alloc, bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

// ================================================================ C06

/// Memory a case may use beyond what is live at its start; its files are below 100 KB.
const CAP: usize = 64 << 20;
/// File operations all lookups of a case may make together.
const BUDGET: u64 = 1_500_000;

#[derive(Default)]
struct Tally {
    objects: u64,
    errors: u64,
    missing: u64,
    calls: u64,
}

/// Look up every id, by both methods, twice, with memory and file operations limited.
fn survive(dir: &Path, ids: &[Oid], ctx: &mut Ctx) -> Res<Tally> {
    survive_within(BUDGET, dir, ids, ctx)
}

fn survive_within(budget: u64, dir: &Path, ids: &[Oid], ctx: &mut Ctx) -> Res<Tally> {
    let mut t = Tally::default();
    // a lookup that fails may be tried again when it is time to look for new packs
    let _clock = crate::sys::stop_clock();
    let repo = open(dir)?;
    let db = repo.object_database();
    alloc::arm(CAP);
    let (r, plan) = with_plan(Plan { budget: Some(budget), ..Plan::default() }, || -> Res {
        for round in 0..2 {
            for id in ids {
                let got = guard(&format!("parse_object({}), round {round}", hex(id)), || match db.parse_object(id_of(id)) {
                    Ok(o) => {
                        let text = format!("{o:?}");
                        Got::Object(observe(&o)).also(text)
                    }
                    Err(e) => {
                        let text = format!("{e:?} {}", err_text(&e));
                        if e.is_not_found() {
                            Got::NotFound
                        } else {
                            Got::Error(text)
                        }
                    }
                })?;
                match got {
                    Got::Object(_) => t.objects += 1,
                    Got::NotFound => t.missing += 1,
                    Got::Error(_) => t.errors += 1,
                }
                if round == 0 {
                    match bounded_stream(db, id)? {
                        Streamed::Bytes(_) => t.objects += 1,
                        Streamed::NotFound => t.missing += 1,
                        Streamed::Error(_) => t.errors += 1,
                    }
                }
            }
        }
        Ok(())
    });
    alloc::arm(DEFAULT_ALLOC);
    r?;
    if plan.budget_hit {
        bad!("runs-on", "{} lookups made more than {budget} file operations", 3 * ids.len());
    }
    t.calls = plan.calls;
    ctx.add("lookups that gave an object", t.objects);
    ctx.add("lookups that gave an error", t.errors);
    ctx.add("lookups that gave not found", t.missing);
    Ok(t)
}

impl Got {
    fn also(self, _: String) -> Got {
        self
    }
}

/// Stream without keeping what comes out.
fn bounded_stream(db: &ObjectDatabase, id: &Oid) -> Res<Streamed> {
    guard(&format!("read_object({})", hex(id)), || match db.read_object(id_of(id)) {
        Ok(mut r) => {
            let mut buf = vec![0; 4096];
            let mut total = 0u64;
            loop {
                match r.reader().read(&mut buf) {
                    Ok(0) => break Streamed::Bytes(vec![]),
                    Ok(n) => total += n as u64,
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                    Err(e) => break Streamed::Error(err_text(&e)),
                }
                if total > 1 << 30 {
                    break Streamed::Error("stopped reading after 1 GiB".into());
                }
            }
        }
        Err(e) if e.is_not_found() => Streamed::NotFound,
        Err(e) => Streamed::Error(err_text(&e)),
    })
}

// ---- arm: well-formed files with bytes changed

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    Flip { file: u8, pos: u32, bit: u8 },
    Set { file: u8, pos: u32, val: u8 },
    /// a big-endian word at a multiple of four
    Word { file: u8, slot: u32, val: u32 },
    Cut { file: u8, keep: u32 },
    Append { file: u8, len: u16, seed: u64 },
    Remove { file: u8, pos: u32, len: u16 },
    Insert { file: u8, pos: u32, len: u16, seed: u64 },
}

const WORDS: [u32; 14] = [
    0, 1, 2, 255, 256, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff, 0xffff_fffe, 0x0fff_ffff, 0x1000_0000, 0x0100_0000, 0x40,
];

fn mutation() -> BoxedStrategy<Mut> {
    let pos = || prop_oneof![2 => 0u32..64, 1 => 0u32..1200, 2 => any::<u32>()];
    let file = || prop_oneof![3 => Just(0u8), 4 => Just(1u8), 2 => 2u8..8];
    prop_oneof![
        3 => (file(), pos(), 0u8..8).prop_map(|(file, pos, bit)| Mut::Flip { file, pos, bit }),
        2 => (file(), pos(), any::<u8>()).prop_map(|(file, pos, val)| Mut::Set { file, pos, val }),
        3 => (file(), pos(), prop_oneof![select(WORDS.to_vec()), any::<u32>(), 0u32..600]).prop_map(|(file, slot, val)| Mut::Word { file, slot, val }),
        2 => (file(), pos()).prop_map(|(file, keep)| Mut::Cut { file, keep }),
        1 => (file(), prop_oneof![Just(8u16), Just(20), 1u16..2000], any::<u64>()).prop_map(|(file, len, seed)| Mut::Append { file, len, seed }),
        1 => (file(), pos(), prop_oneof![Just(8u16), Just(20), 1u16..500]).prop_map(|(file, pos, len)| Mut::Remove { file, pos, len }),
        1 => (file(), pos(), prop_oneof![Just(8u16), Just(20), 1u16..500], any::<u64>()).prop_map(|(file, pos, len, seed)| Mut::Insert { file, pos, len, seed }),
    ]
    .boxed()
}

fn at(len: usize, pos: u32) -> usize {
    // small numbers count from the start, large ones spread over the file
    if len == 0 {
        0
    } else if pos < 1200 {
        pos as usize % len
    } else {
        (pos as u64 * len as u64 >> 32) as usize
    }
}

fn mutate(files: &mut [Vec<u8>], m: &Mut) {
    let n = files.len();
    match *m {
        Mut::Flip { file, pos, bit } => {
            let f = &mut files[file as usize % n];
            let k = at(f.len(), pos);
            if let Some(b) = f.get_mut(k) {
                *b ^= 1 << bit;
            }
        }
        Mut::Set { file, pos, val } => {
            let f = &mut files[file as usize % n];
            let k = at(f.len(), pos);
            if let Some(b) = f.get_mut(k) {
                *b = val;
            }
        }
        Mut::Word { file, slot, val } => {
            let f = &mut files[file as usize % n];
            let k = at(f.len() / 4, slot) * 4;
            if let Some(b) = f.get_mut(k..k + 4) {
                b.copy_from_slice(&val.to_be_bytes());
            }
        }
        Mut::Cut { file, keep } => {
            let f = &mut files[file as usize % n];
            let k = at(f.len() + 1, keep);
            f.truncate(k);
        }
        Mut::Append { file, len, seed } => files[file as usize % n].extend(fill(len as usize, (seed % 5) as u8, seed)),
        Mut::Remove { file, pos, len } => {
            let f = &mut files[file as usize % n];
            let k = at(f.len(), pos);
            let e = (k + len as usize).min(f.len());
            f.drain(k..e);
        }
        Mut::Insert { file, pos, len, seed } => {
            let f = &mut files[file as usize % n];
            let k = at(f.len(), pos);
            f.splice(k..k, fill(len as usize, (seed % 5) as u8, seed));
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bitrot {
    pack: PackSpec,
    loose: Vec<(Obj, u8)>,
    muts: Vec<Mut>,
    /// make the checksums of pack and index agree again afterwards
    fix: bool,
}

fn bitrot(max_items: usize) -> BoxedStrategy<Bitrot> {
    (
        pack_spec(prop_oneof![2 => small_obj(), 1 => obj(2500)].boxed(), max_items),
        vec((prop_oneof![2 => small_obj(), 1 => obj(2500)], level()), 1..4),
        vec(mutation(), 1..5),
        proptest::bool::weighted(0.75),
    )
        .prop_map(|(pack, loose, muts, fix)| Bitrot { pack, loose, muts, fix })
        .boxed()
}

fn fix_sums(files: &mut [Vec<u8>]) {
    let n = files[0].len();
    if n < 20 {
        return;
    }
    let sum: Oid = sha1(&files[0][..n - 20]);
    files[0][n - 20..].copy_from_slice(&sum);
    let n = files[1].len();
    if n >= 40 {
        files[1][n - 40..n - 20].copy_from_slice(&sum);
        let s = sha1(&files[1][..n - 20]);
        files[1][n - 20..].copy_from_slice(&s);
    }
}

fn run_bitrot(c: &Bitrot, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let b = c.pack.build();
    let loose: Vec<Made> = c.loose.iter().map(|(o, _)| o.made()).collect();
    let mut files = vec![b.pack.bytes.clone(), b.idx.clone()];
    for ((_, l), m) in c.loose.iter().zip(&loose) {
        files.push(deflate(&framed(m.kind, &m.bytes), *l));
    }
    for m in &c.muts {
        mutate(&mut files, m);
    }
    if c.fix {
        fix_sums(&mut files);
    }
    put_pack(&g, &files[0], &files[1], &b.pack.sum)?;
    for (m, f) in loose.iter().zip(&files[2..]) {
        put_loose_raw(&g, &m.id, f)?;
    }
    let mut ids: Vec<Oid> = b.made.iter().chain(&loose).map(|m| m.id).collect();
    ids.truncate(40);
    ids.push([0x5a; 20]);
    // ids that a changed index may now hold
    for k in 0..4 {
        let v = &files[1];
        if v.len() > 1032 + 20 * (k + 1) {
            let mut id = [0; 20];
            id.copy_from_slice(&v[1032 + 20 * k..][..20]);
            ids.push(id);
        }
    }
    let t = survive(&dir, &ids, ctx)?;
    ctx.nontrivial(t.errors > 0);
    Ok(())
}

// ---- arm: packs assembled from hostile entries

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Body {
    Data(Data),
    /// a delta on the entry with this number, consistent with its content as first declared
    Delta { of: u8, ops: Vec<(u16, u16, bool)> },
    /// anything after a delta header
    RawDelta { base: u64, result: u64, bytes: Vec<u8> },
    Object(Obj),
    /// bytes that are no zlib stream
    Garbage(Vec<u8>),
    /// a zlib stream cut short
    CutStream(Data, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SizeSpec {
    True,
    Off(i32),
    Huge(u64),
    /// the true size with one bit flipped
    High(u8),
    /// header that never ends or carries too many bits
    Endless(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum BaseSpec {
    /// this entry
    Entry(u8),
    /// an absolute distance
    Far(u64),
    Endless,
    Unknown,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawEntry {
    code: u8,
    size: SizeSpec,
    base: BaseSpec,
    body: Body,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawPack {
    entries: Vec<RawEntry>,
    count_off: i64,
    version: u32,
    idx: u8,
    /// index offsets to replace: entry, offset
    shift: Vec<(u8, u64)>,
    large: bool,
    /// what is wrong with the signature
    #[serde(default)]
    signature: u32,
}

fn sizes() -> BoxedStrategy<u64> {
    prop_oneof![
        select(vec![
            0u64, 1, 1 << 20, 100 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, (1 << 62) + 5, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX
        ]),
        any::<u64>(),
        0u64..5000,
    ]
    .boxed()
}

fn raw_entry() -> BoxedStrategy<RawEntry> {
    let size = prop_oneof![
        6 => Just(SizeSpec::True),
        1 => (-40i32..40).prop_map(SizeSpec::Off),
        1 => (0u8..72).prop_map(SizeSpec::High),
        1 => sizes().prop_map(SizeSpec::Huge),
        1 => any::<u8>().prop_map(SizeSpec::Endless),
    ];
    let base = prop_oneof![
        8 => any::<u8>().prop_map(BaseSpec::Entry),
        1 => sizes().prop_map(BaseSpec::Far),
        1 => Just(BaseSpec::Endless),
        1 => Just(BaseSpec::Unknown),
    ];
    let body = prop_oneof![
        2 => data_upto(200).prop_map(Body::Data),
        5 => (any::<u8>(), vec((any::<u16>(), any::<u16>(), any::<bool>()), 0..5)).prop_map(|(of, ops)| Body::Delta { of, ops }),
        2 => (sizes(), sizes(), vec(any::<u8>(), 0..20)).prop_map(|(base, result, bytes)| Body::RawDelta { base, result, bytes }),
        1 => small_obj().prop_map(Body::Object),
        1 => vec(any::<u8>(), 0..60).prop_map(Body::Garbage),
        1 => (data_upto(300), any::<u8>()).prop_map(|(d, k)| Body::CutStream(d, k)),
    ];
    (prop_oneof![2 => 1u8..5, 5 => Just(6u8), 5 => Just(7u8), 1 => 0u8..8], size, base, body)
        .prop_map(|(code, size, base, body)| RawEntry { code, size, base, body })
        .boxed()
}

fn raw_pack() -> BoxedStrategy<RawPack> {
    (
        vec(raw_entry(), 1..12),
        prop_oneof![10 => Just(0i64), 1 => -2i64..3, 1 => Just(0xffff_ffff)],
        prop_oneof![12 => Just(2u32), 1 => any::<u32>(), 1 => Just(3)],
        1u8..=2,
        prop_oneof![3 => Just(vec![]), 1 => vec((any::<u8>(), sizes()), 1..3)],
        any::<bool>(),
        prop_oneof![20 => Just(0u32), 1 => any::<u32>(), 1 => (0u8..32).prop_map(|k| 1 << k)],
    )
        .prop_map(|(entries, count_off, version, idx, shift, large, signature)| RawPack { entries, count_off, version, idx, shift, large, signature })
        .boxed()
}

fn run_raw_pack(c: &RawPack, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let n = c.entries.len();
    let ids: Vec<Oid> = (0..n).map(|i| sha1(format!("hostile entry {i}").as_bytes())).collect();
    // content each entry would have if its base were what it says
    let mut content: Vec<Vec<u8>> = vec![];
    let mut plain: Vec<Vec<u8>> = vec![];
    for e in &c.entries {
        let (raw, full) = match &e.body {
            Body::Data(d) | Body::CutStream(d, _) => (d.bytes(), d.bytes()),
            Body::Object(o) => (o.bytes(), o.bytes()),
            Body::Garbage(b) => (b.clone(), vec![]),
            Body::RawDelta { base, result, bytes } => {
                let mut d = varint(*base, 0);
                d.extend(varint(*result, 0));
                d.extend_from_slice(bytes);
                (d, vec![])
            }
            Body::Delta { of, ops } => {
                let empty = vec![];
                let base = if content.is_empty() { &empty } else { &content[*of as usize % content.len()] };
                let mut v: Vec<Op> = vec![];
                let mut total = 0;
                for (a, b, copy) in ops {
                    if *copy && !base.is_empty() {
                        let off = *a as usize % base.len();
                        let len = 1 + *b as usize % (base.len() - off);
                        if total + len <= 3000 {
                            total += len;
                            v.push(Op::Copy { off: off as u32, len: len as u32, enc: 0 });
                        }
                    } else {
                        v.push(Op::Insert(a.to_be_bytes().to_vec()));
                        total += 2;
                    }
                }
                let full = apply_ops(base, &v).unwrap_or_default();
                (encode_delta(base.len() as u64, full.len() as u64, &v, (0, 0)), full)
            }
        };
        plain.push(raw);
        content.push(full);
    }
    let mut b = (u32::from_be_bytes(*b"PACK") ^ c.signature).to_be_bytes().to_vec();
    b.extend_from_slice(&c.version.to_be_bytes());
    b.extend_from_slice(&((n as i64 + c.count_off) as u32).to_be_bytes());
    let mut offsets = vec![];
    let mut declared = vec![];
    for (i, e) in c.entries.iter().enumerate() {
        let here = b.len() as u64;
        offsets.push(here);
        let len = plain[i].len() as u64;
        declared.push(match &e.size {
            SizeSpec::True => len,
            SizeSpec::Off(k) => (len as i64 + *k as i64).max(0) as u64,
            SizeSpec::High(k) if *k < 64 => len ^ 1 << k,
            SizeSpec::High(_) => u64::MAX,
            SizeSpec::Huge(k) => *k,
            SizeSpec::Endless(_) => u64::MAX,
        });
        match &e.size {
            SizeSpec::True => b.extend(entry_header(e.code, len, 0)),
            SizeSpec::Off(k) => b.extend(entry_header(e.code, (len as i64 + *k as i64).max(0) as u64, 0)),
            SizeSpec::High(k) => b.extend(entry_header_wide(e.code, len as u128 ^ 1 << k, 0)),
            SizeSpec::Huge(k) => b.extend(entry_header(e.code, *k, 0)),
            SizeSpec::Endless(k) => {
                b.push(0x80 | e.code << 4 | 15);
                b.extend(vec![0xff; 8 + *k as usize % 20]);
                if k % 2 == 0 {
                    b.push(0x7f);
                }
            }
        }
        match (e.code, &e.base) {
            (6, BaseSpec::Entry(k)) => {
                // earlier entries; its own offset and later ones as distance 0 or below
                let k = *k as usize % n;
                b.extend(ofs_varint(if k <= i { here - offsets[k] } else { 0 }));
            }
            (6, BaseSpec::Far(d)) => b.extend(ofs_varint(*d)),
            (6, BaseSpec::Endless) => b.extend(vec![0xff; 15]),
            (6, BaseSpec::Unknown) => b.extend(ofs_varint(here.saturating_sub(5))),
            (7, BaseSpec::Entry(k)) => b.extend_from_slice(&ids[*k as usize % n]),
            (7, _) => b.extend_from_slice(&[0x77; 20]),
            _ => (),
        }
        match &e.body {
            Body::Garbage(g) => b.extend_from_slice(g),
            Body::CutStream(_, k) => {
                let z = deflate(&plain[i], 6);
                b.extend_from_slice(&z[..*k as usize % z.len()]);
            }
            _ => b.extend(deflate(&plain[i], 6)),
        }
    }
    let sum = sha1(&b);
    b.extend_from_slice(&sum);
    let mut shifted = vec![false; n];
    for (k, off) in &c.shift {
        let k = *k as usize % n;
        shifted[k] = true;
        offsets[k] = if *off < 5000 { *off % (b.len() as u64 + 40) } else { *off };
    }
    let idx: Vec<IdxEntry> = (0..n)
        .map(|i| IdxEntry { id: ids[i], offset: offsets[i], crc: 0, large: c.idx == 2 && c.large && i > 0 })
        .collect();
    put_pack(&g, &b, &build_idx(c.idx, &idx, &sum), &sum)?;
    let t = survive(&dir, &ids, ctx)?;
    if c.signature != 0 || !matches!(c.version, 2 | 3) || c.count_off != 0 {
        ensure!(t.objects == 0 && t.missing == 0, "no-pack", "a file that is no pack of this index was used: {} lookups gave objects and {} found nothing", t.objects, t.missing);
        ctx.label("signature, version or count of no pack");
    }
    // does some chain of reference deltas form a cycle?
    let next: Vec<Option<usize>> = c
        .entries
        .iter()
        .map(|e| match (e.code, &e.base) {
            (7, BaseSpec::Entry(k)) => Some(*k as usize % n),
            _ => None,
        })
        .collect();
    let loops: Vec<bool> = (0..n)
        .map(|i| {
            let mut k = i;
            for _ in 0..=n {
                match next[k] {
                    Some(j) => k = j,
                    None => return false,
                }
            }
            true
        })
        .collect();
    let cyclic = loops.contains(&true);
    // what cannot be an object is not one
    let repo = open(&dir)?;
    for i in 0..n {
        let sound = matches!(c.entries[i].body, Body::Data(_) | Body::Delta { .. } | Body::RawDelta { .. } | Body::Object(_));
        let short = sound && declared[i] > plain[i].len() as u64;
        if shifted.contains(&true) || !(short || loops[i]) {
            continue;
        }
        let why = if loops[i] { "is a delta in or on a cycle" } else { "declares more data than it has" };
        if let Got::Object(p) = lookup(repo.object_database(), &ids[i])? {
            bad!("impossible-object", "entry {i} {why}, but gave {p:?}");
        }
        ctx.add("lookups of impossible entries", 1);
    }
    ctx.label_if(cyclic, "cycle of deltas");
    ctx.nontrivial(t.errors > 0);
    Ok(())
}

// ---- arm: hostile index tables

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawIndex {
    signature: u8,
    version: u32,
    /// counts per first byte, spread over the table; `raw` replaces whole slots
    bumps: Vec<(u8, u32)>,
    raw: Vec<(u8, u32)>,
    entries: u8,
    body_extra: i16,
    offsets: Vec<u32>,
    large: Vec<u64>,
    pack_count: Option<u32>,
    v1: bool,
}

fn raw_index() -> BoxedStrategy<RawIndex> {
    (
        (prop_oneof![12 => Just(0u8), 1 => any::<u8>()], prop_oneof![12 => Just(2u32), 1 => any::<u32>(), 1 => 0u32..4]),
        vec((any::<u8>(), prop_oneof![4 => 0u32..4, 1 => select(WORDS.to_vec())]), 0..6),
        vec((any::<u8>(), prop_oneof![select(WORDS.to_vec()), any::<u32>(), 0u32..10]), 0..4),
        0u8..12,
        prop_oneof![6 => Just(0i16), 1 => select(vec![8i16, -8, 16, -16, 4, -4, 20, -20, 28, -28, 1, -1, 40, -40]), 1 => -300i16..300],
        vec(prop_oneof![3 => 12u32..200, 1 => any::<u32>(), 2 => (0u32..6).prop_map(|k| k | 0x8000_0000)], 12),
        vec(sizes(), 0..4),
        proptest::option::weighted(0.2, any::<u32>()),
        any::<bool>(),
    )
        .prop_map(|((signature, version), bumps, raw, entries, body_extra, offsets, large, pack_count, v1)| RawIndex {
            signature,
            version,
            bumps,
            raw,
            entries,
            body_extra,
            offsets,
            large,
            pack_count,
            v1,
        })
        .boxed()
}

fn run_raw_index(c: &RawIndex, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let n = c.entries as usize;
    let blobs: Vec<Made> = (0..n).map(|i| blob_made(format!("blob {i} in a hostile index").into_bytes())).collect();
    let entries: Vec<PackEntry> = blobs
        .iter()
        .map(|m| PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr: Repr::Whole, level: 1, gap: 0, pad: 0 })
        .collect();
    let pk = build_pack(2, &entries);
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| blobs[*i].id);
    let mut fan = [0u32; 256];
    for m in &blobs {
        fan[m.id[0] as usize] += 1;
    }
    for (k, v) in &c.bumps {
        fan[*k as usize] = fan[*k as usize].wrapping_add(*v);
    }
    let mut acc = 0u32;
    for f in fan.iter_mut() {
        acc = acc.wrapping_add(*f);
        *f = acc;
    }
    for (k, v) in &c.raw {
        fan[*k as usize] = *v;
    }
    let mut b = vec![];
    if !c.v1 {
        b.extend_from_slice(b"\xfftOc");
        b[0] ^= c.signature;
        b.extend_from_slice(&c.version.to_be_bytes());
    }
    for f in fan {
        b.extend_from_slice(&f.to_be_bytes());
    }
    let declared = fan[255].min(200) as usize;
    for k in 0..declared {
        let id = order.get(k).map_or([k as u8; 20], |i| blobs[*i].id);
        if c.v1 {
            b.extend_from_slice(&c.offsets[k % 12].to_be_bytes());
        }
        b.extend_from_slice(&id);
    }
    if !c.v1 {
        b.extend(vec![0; 4 * declared]);
        for k in 0..declared {
            b.extend_from_slice(&c.offsets[k % 12].to_be_bytes());
        }
        for l in &c.large {
            b.extend_from_slice(&l.to_be_bytes());
        }
    }
    if c.body_extra > 0 {
        b.extend(vec![0x11; c.body_extra as usize]);
    } else {
        let keep = b.len().saturating_sub((-c.body_extra) as usize);
        b.truncate(keep);
    }
    b.extend_from_slice(&pk.sum);
    let s = sha1(&b);
    b.extend_from_slice(&s);
    let mut pack = pk.bytes.clone();
    // let the counts agree, so that the index is used
    pack[8..12].copy_from_slice(&c.pack_count.unwrap_or(fan[255]).to_be_bytes());
    put_pack(&g, &pack, &b, &pk.sum)?;
    let mut ids: Vec<Oid> = blobs.iter().map(|m| m.id).collect();
    for (k, _) in c.bumps.iter().chain(&c.raw) {
        for d in [0u8, 1, 255] {
            let mut id = [0x80; 20];
            id[0] = k.wrapping_add(d);
            ids.push(id);
        }
    }
    ids.push([0; 20]);
    ids.push([0xff; 20]);
    let t = survive(&dir, &ids, ctx)?;
    // an index that contradicts itself or its pack is not taken for the truth about what is absent
    let count = fan[255] as u64;
    let rest = (b.len() as u64).saturating_sub(256 * 4 + if c.v1 { 0 } else { 8 });
    let least = count * if c.v1 { 24 } else { 28 } + 40;
    let most = least + if c.v1 { 0 } else { 8 * count.saturating_sub(1) };
    let wrong = if c.v1 && fan[0] == 0xff744f63 {
        None
    } else if !fan.windows(2).all(|w| w[0] <= w[1]) {
        Some("whose counts decrease")
    } else if !c.v1 && c.version != 2 && c.signature == 0 {
        Some("of an unknown version")
    } else if (c.v1 || c.signature == 0) && !(least..=most).contains(&rest) {
        Some("whose length does not suit its counts")
    } else if c.pack_count.is_some_and(|n| n != fan[255]) {
        Some("with another count than its pack")
    } else {
        None
    };
    if let Some(why) = wrong {
        ensure!(t.objects == 0 && t.missing == 0, "inconsistent-accepted", "an index {why} was used: {} lookups gave objects and {} found nothing", t.objects, t.missing);
        ctx.label("inconsistent index");
    }
    ctx.label_if(c.v1, "version 1 layout");
    ctx.nontrivial(t.errors > 0);
    Ok(())
}

// ---- arm: hostile loose objects (and the same bodies in a pack)

#[derive(Clone, Debug, Serialize, Deserialize)]
enum LooseBody {
    /// header text, then content
    Framed { header: Vec<u8>, body: Data },
    /// an object body with bytes changed, header size right
    Object { obj: Obj, muts: Vec<Mut>, cut: Option<u16> },
    /// the kind of one object, the body of another
    Wrong { kind: Kind, body: Data },
    /// not a zlib stream, or a damaged one
    Raw(Data),
    Stream { data: Data, muts: Vec<Mut> },
    /// lines of the kind's grammar in a random arrangement
    Lines { kind: Kind, lines: Vec<Vec<u8>> },
}

fn loose_body() -> BoxedStrategy<LooseBody> {
    let header = prop_oneof![
        3 => (select(vec!["blob", "tree", "commit", "tag", "blo", "", "blobs", "ofs-delta", "BLOB"]), sizes()).prop_map(|(k, n)| format!("{k} {n}\0").into_bytes()),
        1 => select(vec![
            "blob\0", "blob \0", "blob -1\0", "blob 99999999999999999999\0", "blob 18446744073709551616\0", "blob 3", "blob 0x3\0", "blob 3 \0", " \0", "\0", "", "blob 000000000000000000000000000000000003\0", "blob \t3\0", "blob 3\n\0"
        ]).prop_map(|s| s.as_bytes().to_vec()),
        1 => vec(any::<u8>(), 0..40),
    ];
    let file_mut = mutation().prop_map(|m| m);
    let line = prop_oneof![
        4 => select(vec![
            "tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904", "parent 4b825dc642cb6eb9a060e54bf8d69288fbee4904", "author A <a@b> 1 +0000", "committer A <a@b> 1 +0000",
            "encoding x", "", "object 4b825dc642cb6eb9a060e54bf8d69288fbee4904", "type commit", "type blob", "tag v1", "tagger A <a@b> 1 +0000", "gpgsig x", " y", "tree", "tree ", "parent", "author", "committer", "author ", "author <", "author >", "author <>", "author A <", "type", "type ", "tag", "tag ", "object", "100644 a\0xxxxxxxxxxxxxxxxxxxx", "100644", "100644 a", "100644 a\0x",
        ]).prop_map(|s| s.as_bytes().to_vec()),
        1 => vec(any::<u8>(), 0..50),
    ];
    prop_oneof![
        3 => (header, data_upto(400)).prop_map(|(header, body)| LooseBody::Framed { header, body }),
        4 => (obj(800), vec(file_mut.clone(), 0..4), proptest::option::weighted(0.4, any::<u16>())).prop_map(|(obj, muts, cut)| LooseBody::Object { obj, muts, cut }),
        1 => (kind(), data_upto(400)).prop_map(|(kind, body)| LooseBody::Wrong { kind, body }),
        1 => data_upto(300).prop_map(LooseBody::Raw),
        2 => (data_upto(2000), vec(file_mut, 1..4)).prop_map(|(data, muts)| LooseBody::Stream { data, muts }),
        4 => (kind(), vec(line, 0..8)).prop_map(|(kind, lines)| LooseBody::Lines { kind, lines }),
    ]
    .boxed()
}

fn run_loose(c: &Vec<LooseBody>, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let mut ids = vec![];
    let mut packed = vec![];
    for (i, b) in c.iter().enumerate() {
        let id = sha1(format!("hostile {i}").as_bytes());
        let zip = |v: &[u8]| deflate(v, 6);
        let file = match b {
            LooseBody::Framed { header, body } => zip(&[&header[..], &body.bytes()].concat()),
            LooseBody::Object { obj, muts, cut } => {
                let mut f = [obj.bytes()];
                for m in muts {
                    mutate(&mut f, m);
                }
                if let Some(k) = cut {
                    let k = *k as usize % (f[0].len() + 1);
                    f[0].truncate(k);
                }
                packed.push((obj.kind(), f[0].clone()));
                zip(&framed(obj.kind(), &f[0]))
            }
            LooseBody::Wrong { kind, body } => {
                packed.push((*kind, body.bytes()));
                zip(&framed(*kind, &body.bytes()))
            }
            LooseBody::Raw(d) => d.bytes(),
            LooseBody::Stream { data, muts } => {
                let mut f = [zip(&framed(Kind::Blob, &data.bytes()))];
                for m in muts {
                    mutate(&mut f, m);
                }
                f[0].clone()
            }
            LooseBody::Lines { kind, lines } => {
                let mut v = lines.join(&b'\n');
                if v.len() % 2 == 0 {
                    v.push(b'\n');
                }
                packed.push((*kind, v.clone()));
                zip(&framed(*kind, &v))
            }
        };
        put_loose_raw(&g, &id, &file)?;
        ids.push(id);
    }
    // the same bodies, packed under other ids
    let entries: Vec<PackEntry> = packed
        .into_iter()
        .enumerate()
        .map(|(i, (kind, bytes))| PackEntry { id: sha1(format!("packed {i}").as_bytes()), kind, bytes, repr: Repr::Whole, level: 6, gap: 0, pad: 0 })
        .collect();
    let pk = build_pack(2, &entries);
    let pids: Vec<Oid> = entries.iter().map(|e| e.id).collect();
    put_pack(&g, &pk.bytes, &idx_for(&pk, &pids, 2, None), &pk.sum)?;
    ids.extend(pids);
    let t = survive(&dir, &ids, ctx)?;
    ctx.nontrivial(t.errors > 0);
    Ok(())
}

// ---- arm: long chains and long cycles, on an ordinary thread's stack

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    n: u16,
    /// 0 offset deltas, 1 reference deltas to the previous, 2 a cycle of reference deltas, 3 a tail leading into a cycle
    form: u8,
    level: u8,
}

fn run_long(c: &Long, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let n = c.n as usize + 2;
    let content = |i: usize| format!("{i:06}").into_bytes();
    let ids: Vec<Oid> = (0..n).map(|i| object_id(Kind::Blob, &content(i))).collect();
    let mut entries = vec![];
    for i in 0..n {
        // always six bytes from six bytes
        let d = encode_delta(6, 6, &[Op::Insert(content(i))], (0, 0));
        let prev = match (c.form, i) {
            (0, 0) | (1, 0) => None,
            (2, 0) => Some(n - 1),
            (3, 0) => Some(n / 2),
            _ => Some(i - 1),
        };
        let repr = match prev {
            None => Repr::Whole,
            Some(p) if c.form == 0 => Repr::Ofs { base: p, delta: d },
            Some(p) => Repr::Ref { base: ids[p], delta: d },
        };
        entries.push(PackEntry { id: ids[i], kind: Kind::Blob, bytes: content(i), repr, level: c.level, gap: 0, pad: 0 });
    }
    let pk = build_pack(2, &entries);
    put_pack(&g, &pk.bytes, &idx_for(&pk, &ids, 2, None), &pk.sum)?;
    let some = [ids[n - 1], ids[n / 2], ids[0], ids[n - 1]];
    let mut sub = Ctx { dir: dir.clone(), tier: ctx.tier, labels: Default::default(), nontrivial: false, known: Default::default() };
    let t = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || survive_within(BUDGET + 1000 * n as u64, &dir, &some, &mut sub))
            .expect("thread")
            .join()
            .map_err(|_| Fail::Harness("thread".into()))?
    })?;
    if c.form < 2 {
        ensure!(t.errors == 0 && t.missing == 0, "read-error", "a well-formed chain of {n} deltas could not be read");
    } else {
        ensure!(t.objects == 0, "cycle-accepted", "a cycle of deltas gave an object");
    }
    ctx.labels.extend(sub.labels);
    ctx.add("most file operations", t.calls);
    ctx.label(["offset chain", "reference chain", "cycle", "tail into a cycle"][c.form as usize % 4]);
    ctx.nontrivial(n > 50);
    Ok(())
}

// ---- arm: small files that expand to far more than they declare

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bomb {
    /// 0 loose, 1 whole entry, 2 the data of a delta, 3 what the copies of a delta amount to, 4 the same beyond a declared
    /// size that is right at first, 5 what follows the declared content of a base
    form: u8,
    kind: u8,
    mib: u16,
    declared: u32,
}

fn bombs() -> Vec<Bomb> {
    let mut v = vec![];
    for form in 0..6 {
        for (kind, mib, declared) in [(3, 200, 0), (3, 90, 5), (1, 100, 300), (2, 130, 40), (4, 80, 200), (3, 300, 70_000), (3, 100, 1 << 20)] {
            v.push(Bomb { form, kind, mib, declared });
        }
    }
    v
}

/// `n` bytes of zeros in a zlib stream, without keeping them.
fn deflate_zeros(head: &[u8], n: u64) -> Res<Vec<u8>> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(head)?;
    let block = vec![0u8; 1 << 16];
    let mut left = n;
    while left > 0 {
        let k = left.min(1 << 16);
        e.write_all(&block[..k as usize])?;
        left -= k;
    }
    Ok(e.finish()?)
}

fn run_bomb(c: &Bomb, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let kind = [Kind::Commit, Kind::Tree, Kind::Blob, Kind::Tag][(c.kind as usize).clamp(1, 4) - 1];
    let n = (c.mib as u64) << 20;
    let declared = c.declared as u64;
    let id = sha1(&[c.form, c.kind, c.mib as u8]);
    if c.form == 0 {
        put_loose_raw(&g, &id, &deflate_zeros(&header(kind, c.declared as usize), n)?)?;
    } else {
        let base = fill(1 << 16, 1, 3);
        let base_id = sha1(&base);
        let mut b = b"PACK\0\0\0\x02\0\0\0\x02".to_vec();
        let mut at = vec![12u64];
        // many copies of the whole base
        let copies = |n: u64| -> Vec<Op> { (0..n >> 16).map(|_| Op::Copy { off: 0, len: 1 << 16, enc: 0 }).collect() };
        if c.form == 5 {
            b.extend(entry_header(3, declared, 0));
            b.extend(deflate_zeros(b"", n)?);
            at.push(b.len() as u64);
            let d = encode_delta(declared, 1, &[Op::Insert(vec![7])], (0, 0));
            b.extend(entry_header(6, d.len() as u64, 0));
            b.extend(ofs_varint(at[1] - at[0]));
            b.extend(deflate(&d, 6));
        } else {
            b.extend(entry_header(kind.code(), base.len() as u64, 0));
            b.extend(deflate(&base, 6));
            at.push(b.len() as u64);
            let (len, data) = match c.form {
                1 => (declared, deflate_zeros(b"", n)?),
                2 => {
                    let d = encode_delta(1 << 16, declared, &[Op::Copy { off: 0, len: 7, enc: 0 }], (0, 0));
                    (d.len() as u64, deflate_zeros(&d, n)?)
                }
                f => {
                    let result = if f == 3 { declared } else { (1 << 16) * (1 + declared % 7) };
                    let d = encode_delta(1 << 16, result, &copies(n), (0, 0));
                    (d.len() as u64, deflate(&d, 6))
                }
            };
            b.extend(entry_header(if c.form == 1 { kind.code() } else { 6 }, len, 0));
            if c.form != 1 {
                b.extend(ofs_varint(at[1] - at[0]));
            }
            b.extend(data);
        }
        let sum = sha1(&b);
        b.extend_from_slice(&sum);
        let idx: Vec<IdxEntry> = [base_id, id].iter().zip(&at).map(|(id, o)| IdxEntry { id: *id, offset: *o, crc: 0, large: false }).collect();
        put_pack(&g, &b, &build_idx(2, &idx, &sum), &sum)?;
    }
    // what it expands to is not streamed from a pack, and more than it declares is no object
    let t = survive(&dir, &[id], ctx)?;
    let repo = open(&dir)?;
    if let Got::Object(p) = lookup(repo.object_database(), &id)? {
        bad!("impossible-object", "content beyond the declared size gave {p:?}");
    }
    ctx.label(["loose", "whole entry", "delta data", "delta result", "delta result, later", "base"][c.form as usize % 6]);
    ctx.nontrivial(t.errors > 0);
    Ok(())
}

// ---- arm: files of random bytes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Noise {
    pack: Option<Data>,
    idx: Option<Data>,
    pack_head: bool,
    idx_head: bool,
    loose: Data,
    agree: bool,
}

fn run_noise(c: &Noise, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let p = g.join("objects/pack");
    let mut pack = c.pack.as_ref().map(|d| d.bytes());
    if let (Some(v), true) = (&mut pack, c.pack_head) {
        v.splice(0..0, b"PACK\0\0\0\x02\0\0\0\x05".iter().copied());
    }
    let mut idx = c.idx.as_ref().map(|d| d.bytes());
    if let (Some(v), true) = (&mut idx, c.idx_head) {
        let mut h = b"\xfftOc\0\0\0\x02".to_vec();
        for k in 0..256u32 {
            h.extend_from_slice(&(k / 51).min(5).to_be_bytes());
        }
        v.splice(0..0, h);
        if c.agree {
            v.resize(8 + 1024 + 5 * 28 + 40, 0x42);
        }
    }
    if let (Some(p), Some(i), true) = (&pack, &mut idx, c.agree) {
        if p.len() >= 20 && i.len() >= 40 {
            let at = i.len() - 40;
            i[at..at + 20].copy_from_slice(&p[p.len() - 20..]);
        }
    }
    if let Some(v) = &pack {
        std::fs::write(p.join("pack-noise.pack"), v)?;
    }
    if let Some(v) = &idx {
        std::fs::write(p.join("pack-noise.idx"), v)?;
    }
    let id = [0x33; 20];
    put_loose_raw(&g, &id, &c.loose.bytes())?;
    let mut ids = vec![id, [0; 20], [0xff; 20], [0x42; 20]];
    if let Some(v) = &idx {
        for k in 0..5 {
            if let Some(s) = v.get(1032 + 20 * k..1052 + 20 * k) {
                let mut id = [0; 20];
                id.copy_from_slice(s);
                ids.push(id);
            }
        }
    }
    let t = survive(&dir, &ids, ctx)?;
    ctx.nontrivial(t.errors > 0);
    Ok(())
}

pub fn c06() -> Prop {
    let noise = (
        proptest::option::weighted(0.9, data_upto(600)),
        proptest::option::weighted(0.9, data_upto(3000)),
        any::<bool>(),
        any::<bool>(),
        data_upto(200),
        any::<bool>(),
    )
        .prop_map(|(pack, idx, pack_head, idx_head, loose, agree)| Noise { pack, idx, pack_head, idx_head, loose, agree });
    let mut longs = vec![];
    for form in 0..4 {
        for n in [0u16, 1, 2, 10, 300, 3000, 20_000] {
            longs.push(Long { n, form, level: 0 });
        }
    }
    Prop {
        id: "C06",
        title: "Malformed object storage is refused without crash, hang or memory blow-up",
        level: "exploration",
        rule: "a case is a repository whose packs, indexes and loose files are hostile (well-formed files with bytes changed and checksums made to agree again; packs of entries with wrong sizes, bases, cycles and bodies; index tables with arbitrary counts, sizes and offsets; ill-formed objects; delta chains and cycles of up to 20000; small files that expand to hundreds of megabytes; noise); every id in it is looked up by both methods on one handle, with memory limited to 64 MiB and file operations to 1.5 million (and 1000 for each delta of a long chain); non-trivial: some lookup met the damage (an error other than not found)",
        assumptions: &["a lookup that needs more than 64 MiB for files below 100 KB, 1.5 million file operations, or 20 s of CPU time is out of proportion"],
        arms: vec![
            list_arm("long-chains", longs, run_long),
            list_arm("bombs", bombs(), run_bomb),
            arm("changed-bytes", 14_000, 400_000, bitrot(8), run_bitrot),
            arm("hostile-entries", 14_000, 400_000, raw_pack(), run_raw_pack),
            arm("hostile-indexes", 14_000, 400_000, raw_index(), run_raw_index),
            arm("hostile-objects", 8000, 250_000, vec(loose_body(), 1..6), run_loose),
            arm("noise", 6000, 150_000, noise, run_noise),
        ],
    }
}

// ================================================================ C07

/// An error, or exactly the original.
fn error_or_exact(db: &ObjectDatabase, m: &Made, what: &str) -> Res<bool> {
    match lookup(db, &m.id)? {
        Got::Object(p) if p == m.want => Ok(false),
        Got::Object(p) => violation("damaged-accepted", format!("{what}: {} {} was read as {p:?} instead of {:?}", m.kind.name(), hex(&m.id), m.want)),
        _ => Ok(true),
    }
}

/// Would the damaged stream pass its own checks with other content? (then nothing can tell)
fn undetectable(stream: &[u8], want: &[u8]) -> bool {
    let mut v = vec![];
    let mut d = flate2::bufread::ZlibDecoder::new(stream);
    match d.read_to_end(&mut v) {
        Ok(_) => v.len() == want.len() && v != want,
        Err(_) => false,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LooseDamage {
    obj: Obj,
    level: u8,
    /// bytes to change: all of them for short files, else these
    at: Vec<u32>,
    xor: u8,
    cuts: Vec<u32>,
}

fn loose_damage(max: u32) -> BoxedStrategy<LooseDamage> {
    (obj(max), level(), vec(any::<u32>(), 40), 1u8..=255, vec(any::<u32>(), 20))
        .prop_map(|(obj, level, at, xor, cuts)| LooseDamage { obj, level, at, xor, cuts })
        .boxed()
}

fn run_loose_damage(c: &LooseDamage, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let m = c.obj.made();
    let plain = framed(m.kind, &m.bytes);
    let file = deflate(&plain, c.level);
    put_loose_raw(&g, &m.id, &file)?;
    let repo = open(&dir)?;
    let db = repo.object_database();
    expect_object(db, &m, "undamaged")?;
    let mut refused = 0;
    let mut tried = 0;
    let mut undet = 0;
    let positions: Vec<usize> = if file.len() <= 260 {
        (0..file.len()).collect()
    } else {
        let mut v: Vec<usize> = c.at.iter().map(|p| (*p as u64 * file.len() as u64 >> 32) as usize).collect();
        v.extend(0..12);
        v.extend(file.len() - 8..file.len());
        v
    };
    for (k, p) in positions.iter().enumerate() {
        for x in [c.xor, 1 << (k % 8)] {
            let mut f = file.clone();
            f[*p] ^= x;
            if undetectable(&f, &plain) {
                undet += 1;
                continue;
            }
            put_loose_raw(&g, &m.id, &f)?;
            refused += error_or_exact(db, &m, &format!("byte {p} of {} changed by {x:#x}", file.len()))? as u64;
            tried += 1;
        }
    }
    let cuts: Vec<usize> = if file.len() <= 260 {
        (0..file.len()).collect()
    } else {
        c.cuts.iter().map(|p| (*p as u64 * file.len() as u64 >> 32) as usize).chain(file.len() - 8..file.len()).collect()
    };
    for k in cuts {
        put_loose_raw(&g, &m.id, &file[..k])?;
        refused += error_or_exact(db, &m, &format!("cut to {k} of {} bytes", file.len()))? as u64;
        tried += 1;
    }
    put_loose_raw(&g, &m.id, &file)?;
    expect_object(db, &m, "restored")?;
    ctx.add("damaged files", tried);
    ctx.add("refused", refused);
    ctx.add("skipped: the damage passes the checksum of the stream", undet);
    ctx.label(m.kind.name());
    ctx.nontrivial(refused > 0);
    Ok(())
}

/// More or less content than declared, loose and packed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SizeDamage {
    obj: Obj,
    /// content cut by (negative) or extended by
    by: i32,
    seed: u64,
    level: u8,
    delta: u8,
    /// declare another size instead of changing the content
    declare: bool,
    /// with a size declared, a high bit of it: the size is right in its low bits
    #[serde(default)]
    high: u8,
}

fn size_damage(max: u32) -> BoxedStrategy<SizeDamage> {
    let by = prop_oneof![
        3 => select(vec![1i32, -1, 2, -2, 16, -16, 128, -128]),
        2 => -300i32..300,
        1 => select(vec![4096i32, 8192, 32768, 65536, -65536, 100_000]),
    ];
    (obj(max), by, any::<u64>(), level(), 0u8..3, any::<bool>(), prop_oneof![3 => Just(0u8), 2 => 8u8..64, 1 => 64u8..70])
        .prop_map(|(obj, by, seed, level, delta, declare, high)| SizeDamage { obj, by, seed, level, delta, declare, high: if declare { high } else { 0 } })
        .boxed()
}

fn run_size_damage(c: &SizeDamage, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let m = c.obj.made();
    let n = m.bytes.len();
    let changed = |v: &[u8]| -> Option<Vec<u8>> {
        let mut v = v.to_vec();
        if c.by >= 0 {
            // what follows is like the content itself: nothing stands out
            let more: Vec<u8> = match c.seed % 3 {
                0 => vec![0; c.by as usize],
                1 => v.iter().copied().chain(std::iter::repeat(b'\n')).take(c.by as usize).collect(),
                _ => fill(c.by as usize, 2, c.seed),
            };
            v.extend(more);
        } else {
            let k = v.len().checked_sub((-c.by) as usize)?;
            v.truncate(k);
        }
        Some(v)
    };
    let declared = |n: usize| -> Option<u128> {
        match c.high {
            0 => u128::try_from(n as i64 + c.by as i64).ok(),
            k => Some(n as u128 + (1 << k)),
        }
    };
    let (Some(content), Some(other)) = (changed(&m.bytes), declared(n)) else {
        return Ok(());
    };
    if c.by == 0 {
        return Ok(());
    }
    // loose
    let file = if c.declare {
        [format!("{} {other}\0", m.kind.name()).into_bytes(), m.bytes.clone()].concat()
    } else {
        [header(m.kind, n), content.clone()].concat()
    };
    put_loose_raw(&g, &m.id, &deflate(&file, c.level))?;
    let refuse = |dir: &Path, m: &Made, what: &str| -> Res {
        let repo = open(dir)?;
        for round in 0..2 {
            if !error_or_exact(repo.object_database(), m, what)? {
                bad!("wrong-size-accepted", "{what}: {} with {} bytes of content was accepted (lookup {round})", m.kind.name(), n);
            }
        }
        Ok(())
    };
    let what = if c.high != 0 { format!("declared size off by 2^{}", c.high) } else if c.declare { format!("declared size off by {}", c.by) } else { format!("content longer by {}", c.by) };
    refuse(&dir, &m, &format!("loose, {what}"))?;
    // packed: whole, or as the delta of something, or as a base
    let dir = ctx.sub("repo2")?;
    let g = init_repo(&dir)?;
    let base = blob_made(fill(300, 1, c.seed));
    let mut b = b"PACK\0\0\0\x02\0\0\0\x02".to_vec();
    let (mut off, mut ids) = (vec![12u64], vec![]);
    let target;
    let plain: Vec<u8>;
    match c.delta {
        0 | 2 => {
            target = m.clone();
            plain = m.bytes.clone();
            ids.push(m.id);
            let (len, data) = if c.declare { (other, plain) } else { (n as u128, content) };
            b.extend(entry_header_wide(m.kind.code(), len, 0));
            b.extend(deflate(&data, c.level));
        }
        _ => {
            ids.push(base.id);
            b.extend(entry_header(3, base.bytes.len() as u64, 0));
            b.extend(deflate(&base.bytes, c.level));
            let t = blob_made(edit(&base.bytes, c.seed, 5));
            plain = encode_delta(base.bytes.len() as u64, t.bytes.len() as u64, &diff_ops(&base.bytes, &t.bytes, c.seed), (0, 0));
            off.push(b.len() as u64);
            let (Some(content), Some(other)) = (changed(&plain), declared(plain.len())) else {
                return Ok(());
            };
            let (len, data) = if c.declare { (other, plain) } else { (plain.len() as u128, content) };
            b.extend(entry_header_wide(6, len, 0));
            b.extend(ofs_varint(off[1] - 12));
            b.extend(deflate(&data, c.level));
            ids.push(t.id);
            target = t;
        }
    }
    if c.delta == 0 || c.delta == 2 {
        // a delta on top of the damaged entry, which copies all of it
        off.push(b.len() as u64);
        let top = [&m.bytes[..], b"\n"].concat();
        let top_id = object_id(m.kind, &top);
        let d = encode_delta(n as u64, n as u64 + 1, &diff_ops(&m.bytes, &top, 3), (0, 0));
        b.extend(entry_header(6, d.len() as u64, 0));
        b.extend(ofs_varint(off[1] - off[0]));
        b.extend(deflate(&d, c.level));
        ids.push(top_id);
    }
    let sum = sha1(&b);
    b.extend_from_slice(&sum);
    let idx: Vec<IdxEntry> = ids.iter().zip(&off).map(|(id, o)| IdxEntry { id: *id, offset: *o, crc: 0, large: false }).collect();
    put_pack(&g, &b, &build_idx(2, &idx, &sum), &sum)?;
    if c.delta == 2 {
        // through the delta first
        let repo = open(&dir)?;
        if let Got::Object(p) = lookup(repo.object_database(), &ids[1])? {
            bad!("wrong-size-accepted", "a delta on an entry with {what} gave {p:?}");
        }
        if !error_or_exact(repo.object_database(), &target, "damaged base, after its delta")? {
            bad!("wrong-size-accepted", "packed, {what}: accepted after its delta was refused");
        }
    }
    refuse(&dir, &target, &format!("packed (form {}), {what}", c.delta))?;
    if c.delta == 1 {
        expect_object(open(&dir)?.object_database(), &base, "the intact base")?;
    }
    ctx.label(format!("packed form {}", c.delta));
    ctx.label_if(c.by > 0 && !c.declare, "extra content");
    ctx.label_if(c.by < 0 && !c.declare, "missing content");
    ctx.label_if(c.declare, "another size declared");
    ctx.label_if(c.high != 0, "declared size right in its low bits");
    ctx.nontrivial(true);
    Ok(())
}

/// Bytes changed in the compressed data of a pack.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PackDamage {
    pack: PackSpec,
    at: Vec<(u16, u32, u8)>,
    order: u64,
}

fn pack_damage(max: u32, items: usize) -> BoxedStrategy<PackDamage> {
    (pack_spec(obj(max), items), vec((any::<u16>(), any::<u32>(), 1u8..=255), 1..25), any::<u64>())
        .prop_map(|(pack, at, order)| PackDamage { pack, at, order })
        .boxed()
}

fn run_pack_damage(c: &PackDamage, ctx: &mut Ctx) -> Res {
    let b = c.pack.build();
    let n = b.made.len();
    if n == 0 {
        return Ok(());
    }
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let path = b.put(&g)?.with_extension("pack");
    let (mut refused, mut tried, mut undet) = (0, 0, 0);
    let mut x = c.order;
    for (k, (e, pos, xor)) in c.at.iter().enumerate() {
        let e = *e as usize % n;
        let (s, t) = b.pack.data[e];
        let p = s + if k % 4 == 3 { (t - s) - 1 - *pos as usize % 4.min(t - s) } else { (*pos as u64 * (t - s) as u64 >> 32) as usize };
        let mut f = b.pack.bytes.clone();
        f[p] ^= *xor;
        let raw = match &b.entries[e].repr {
            Repr::Whole => &b.entries[e].bytes,
            Repr::Ofs { delta, .. } | Repr::Ref { delta, .. } => delta,
        };
        if undetectable(&f[s..], raw) {
            undet += 1;
            continue;
        }
        std::fs::write(&path, &f)?;
        let repo = open(&dir)?;
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, crate::engine::splitmix(&mut x) as usize % (i + 1));
        }
        order.push(e);
        for i in order {
            let what = format!("byte {p} of the pack (data of entry {e}, {}) changed by {xor:#x}, reading entry {i}", b.entries[e].kind.name());
            refused += error_or_exact(repo.object_database(), &b.made[i], &what)? as u64;
        }
        tried += 1;
    }
    ctx.add("damaged packs", tried);
    ctx.add("refused", refused);
    ctx.add("skipped: the damage passes the checksum of the stream", undet);
    ctx.label_if(b.depth.iter().any(|d| *d > 0), "has deltas");
    ctx.nontrivial(refused > 0);
    Ok(())
}

/// An index beside a pack it does not belong to.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mismatch {
    a: PackSpec,
    b: PackSpec,
    how: u8,
    loose: u64,
}

fn run_mismatch(c: &Mismatch, ctx: &mut Ctx) -> Res {
    let a = c.a.build();
    if a.made.is_empty() {
        return Ok(());
    }
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let mut ids: Vec<Made> = a.made.clone();
    let (pack, idx) = match c.how % 6 {
        0 => {
            // another pack altogether
            let b = c.b.build();
            ids.extend(b.made.clone());
            (b.pack.bytes.clone(), a.idx.clone())
        }
        1 => {
            // the same objects, compressed or ordered differently
            let mut s = c.a.clone();
            s.order = s.order.wrapping_add(1);
            for i in s.items.iter_mut() {
                i.level = if i.level == 0 { 9 } else { 0 };
                i.repr = ReprSpec::Whole;
            }
            let b = s.build();
            (b.pack.bytes.clone(), a.idx.clone())
        }
        2 => {
            // the same number of objects, all of them others
            let mut e = vec![];
            for (i, m) in a.made.iter().enumerate() {
                let m = blob_made([&m.bytes[..], format!("other {i}").as_bytes()].concat());
                e.push(PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr: Repr::Whole, level: 6, gap: 0, pad: 0 });
            }
            (build_pack(2, &e).bytes, a.idx.clone())
        }
        3 => {
            // the pack's count changed, its checksum kept
            let mut p = a.pack.bytes.clone();
            let n = a.made.len() as u32 + 1 + (c.loose % 3) as u32;
            p[8..12].copy_from_slice(&n.to_be_bytes());
            (p, a.idx.clone())
        }
        4 => {
            // an index of fewer objects that names this pack
            let keep: Vec<IdxEntry> = a
                .made
                .iter()
                .enumerate()
                .skip(1)
                .map(|(i, m)| IdxEntry { id: m.id, offset: a.pack.offsets[i], crc: a.pack.crcs[i], large: false })
                .collect();
            (a.pack.bytes.clone(), build_idx(c.a.idx_version, &keep, &a.pack.sum))
        }
        _ => {
            // an index of the same objects that names another pack: one bit of the checksum differs
            let mut sum = a.pack.sum;
            let k = c.loose as usize;
            sum[k % 20] ^= 1 << (k / 20 % 8);
            let all: Vec<IdxEntry> =
                a.made.iter().enumerate().map(|(i, m)| IdxEntry { id: m.id, offset: a.pack.offsets[i], crc: a.pack.crcs[i], large: false }).collect();
            (a.pack.bytes.clone(), build_idx(c.a.idx_version, &all, &sum))
        }
    };
    if pack == a.pack.bytes && idx == a.idx {
        return Ok(());
    }
    if c.how % 6 <= 2 && pack[pack.len() - 20..] == a.pack.sum[..] {
        return Ok(());
    }
    put_pack(&g, &pack, &idx, &a.pack.sum)?;
    // some of the objects are loose as well: these are found
    let mut x = c.loose;
    let mut there = std::collections::BTreeSet::new();
    for m in &ids {
        if crate::engine::splitmix(&mut x) % 4 == 0 {
            put_loose(&g, m, 6)?;
            there.insert(m.id);
        }
    }
    let repo = open(&dir)?;
    for round in 0..2 {
        for m in &ids {
            let got = lookup(repo.object_database(), &m.id)?;
            match (there.contains(&m.id), got) {
                (true, Got::Object(p)) if p == m.want => (),
                (true, got) => bad!("loose-lost", "the intact loose copy of {} gave {got:?}", hex(&m.id)),
                (false, Got::Object(p)) => bad!("mismatch-used", "an index that belongs to another pack (form {}, lookup {round}) answered {} with {p:?}", c.how % 6, hex(&m.id)),
                (false, _) => (),
            }
        }
    }
    ctx.label(format!("form {}", c.how % 6));
    ctx.nontrivial(true);
    Ok(())
}

pub fn c07() -> Prop {
    let mm = (
        pack_spec(small_obj(), 6),
        pack_spec(small_obj(), 6),
        any::<u8>(),
        any::<u64>(),
    )
        .prop_map(|(a, b, how, loose)| Mismatch { a, b, how, loose });
    Prop {
        id: "C07",
        title: "Damaged object data is never handed out as intact",
        level: "exploration",
        rule: "a case is an object or a pack and damage to it: every (for files above 260 bytes: sampled) byte of a loose file changed and every length it can be cut to, bytes of the compressed data of a pack changed with all objects read afterwards in random order, content longer or shorter than declared loose, packed, as a delta and as a base, or an index beside a pack with another count or checksum; non-trivial: something was refused",
        assumptions: &["damage that leaves a stream valid by its own checksum with other content of the same length is skipped (counted)"],
        arms: vec![
            arm("loose-small", 500, 12_000, loose_damage(150), run_loose_damage),
            arm("loose-large", 700, 16_000, loose_damage(100_000), run_loose_damage),
            arm("sizes", 9000, 200_000, size_damage(1000), run_size_damage),
            arm("sizes-large", 800, 20_000, size_damage(200_000), run_size_damage),
            arm("pack-bytes", 1500, 40_000, pack_damage(600, 8), run_pack_damage),
            arm("pack-bytes-large", 100, 3000, pack_damage(100_000, 6), run_pack_damage),
            arm("mismatch", 4000, 80_000, mm, run_mismatch),
        ],
    }
}
