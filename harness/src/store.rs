//! Writers for the on-disk formats: repositories, loose objects, deltas, packs, indexes.
use crate::engine::{splitmix, Res};
use crate::model::*;
use flate2::write::ZlibEncoder;
use flate2::{Compression, FlushCompress};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- repositories

/// Make a repository skeleton under `dir`; returns the .git directory.
pub fn init_repo(dir: &Path) -> Res<PathBuf> {
    let g = dir.join(".git");
    for d in ["objects/pack", "objects/info", "refs/heads", "refs/tags"] {
        fs::create_dir_all(g.join(d))?;
    }
    fs::write(g.join("HEAD"), b"ref: refs/heads/master\n")?;
    fs::write(g.join("config"), b"[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n")?;
    Ok(g)
}

pub fn loose_path(git: &Path, id: &Oid) -> PathBuf {
    let h = hex(id);
    git.join("objects").join(&h[..2]).join(&h[2..])
}

pub fn put_loose_raw(git: &Path, id: &Oid, file: &[u8]) -> Res {
    let p = loose_path(git, id);
    fs::create_dir_all(p.parent().unwrap())?;
    fs::write(p, file)?;
    Ok(())
}

pub fn put_loose(git: &Path, m: &Made, level: u8) -> Res {
    put_loose_raw(git, &m.id, &deflate(&framed(m.kind, &m.bytes), level))
}

/// zlib stream; levels 0..=9, 10.. = the same with flushes inside.
pub fn deflate(data: &[u8], level: u8) -> Vec<u8> {
    if level <= 9 {
        let mut e = ZlibEncoder::new(Vec::new(), Compression::new(level as u32));
        e.write_all(data).unwrap();
        return e.finish().unwrap();
    }
    let mut c = flate2::Compress::new(Compression::new((level % 10) as u32), true);
    let mut out = Vec::with_capacity(data.len() + data.len() / 2 + 4096);
    let step = 1 + data.len() / 3;
    for chunk in data.chunks(step) {
        let before = c.total_in();
        out.reserve(chunk.len() * 2 + 1000);
        c.compress_vec(chunk, &mut out, FlushCompress::Sync).unwrap();
        assert_eq!((c.total_in() - before) as usize, chunk.len());
    }
    loop {
        out.reserve(1000);
        match c.compress_vec(&[], &mut out, FlushCompress::Finish).unwrap() {
            flate2::Status::StreamEnd => break,
            _ => continue,
        }
    }
    out
}

pub fn inflate(data: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut v = vec![];
    flate2::read::ZlibDecoder::new(data).read_to_end(&mut v).ok()?;
    Some(v)
}

pub fn level() -> BoxedStrategy<u8> {
    prop_oneof![4 => Just(6u8), 1 => Just(0u8), 3 => 1u8..=9, 1 => 10u8..20].boxed()
}

// ---------------------------------------------------------------- deltas

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Op {
    /// offset, length; `enc`: extra operand bytes to spell out although zero
    Copy { off: u32, len: u32, enc: u8 },
    Insert(Vec<u8>),
}

pub fn varint(mut n: u64, pad: u8) -> Vec<u8> {
    // `pad` extra continuation bytes carrying zeros (legal, not minimal)
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            break;
        }
        v.push(b | 0x80);
    }
    for _ in 0..pad {
        *v.last_mut().unwrap() |= 0x80;
        v.push(0);
    }
    v
}

pub fn encode_op(op: &Op, out: &mut Vec<u8>) {
    match op {
        Op::Copy { off, len, enc } => {
            let at = out.len();
            out.push(0x80);
            let mut cmd = 0x80u8;
            for k in 0..4 {
                let b = (off >> (8 * k)) as u8;
                if b != 0 || enc & (1 << k) != 0 {
                    cmd |= 1 << k;
                    out.push(b);
                }
            }
            // length 0x10000 may be written as no length bytes
            let l = if *len == 0x10000 && enc & 0x80 == 0 { 0 } else { *len };
            for k in 0..3 {
                let b = (l >> (8 * k)) as u8;
                if b != 0 || enc & (0x10 << k) != 0 {
                    cmd |= 0x10 << k;
                    out.push(b);
                }
            }
            out[at] = cmd;
        }
        Op::Insert(b) => {
            assert!(!b.is_empty() && b.len() < 128);
            out.push(b.len() as u8);
            out.extend_from_slice(b);
        }
    }
}

pub fn apply_ops(base: &[u8], ops: &[Op]) -> Option<Vec<u8>> {
    let mut v = vec![];
    for o in ops {
        match o {
            Op::Copy { off, len, .. } => v.extend_from_slice(base.get(*off as usize..)?.get(..*len as usize)?),
            Op::Insert(b) => v.extend_from_slice(b),
        }
    }
    Some(v)
}

pub fn encode_delta(base_len: u64, result_len: u64, ops: &[Op], pad: (u8, u8)) -> Vec<u8> {
    let mut d = varint(base_len, pad.0);
    d.extend(varint(result_len, pad.1));
    for o in ops {
        encode_op(o, &mut d);
    }
    d
}

/// A delta from `base` to `target`, with the choices driven by `seed`.
pub fn diff_ops(base: &[u8], target: &[u8], seed: u64) -> Vec<Op> {
    let mut x = seed;
    let mut ops = vec![];
    let copy = |ops: &mut Vec<Op>, x: &mut u64, mut off: usize, mut len: usize| {
        while len > 0 {
            let mut n = match splitmix(x) % 6 {
                0 => 1 + splitmix(x) as usize % 40,
                1 => 0x10000,
                2 => 0xffff,
                3 => 0x10000 + splitmix(x) as usize % 0x20000,
                4 => 256 * (1 + splitmix(x) as usize % 300),
                _ => 0xffffff,
            };
            n = n.min(len).min(0xffffff);
            let enc = if splitmix(x) % 3 == 0 { splitmix(x) as u8 } else { 0 };
            ops.push(Op::Copy { off: off as u32, len: n as u32, enc });
            off += n;
            len -= n;
        }
    };
    let insert = |ops: &mut Vec<Op>, x: &mut u64, mut b: &[u8]| {
        while !b.is_empty() {
            let n = match splitmix(x) % 4 {
                0 => 1 + splitmix(x) as usize % 20,
                1 => 1,
                _ => 127,
            };
            let n = n.min(b.len()).min(127);
            ops.push(Op::Insert(b[..n].to_vec()));
            b = &b[n..];
        }
    };
    // index of 8-byte blocks of the base
    let mut index: BTreeMap<&[u8], usize> = BTreeMap::new();
    if base.len() < 200_000 {
        for i in (0..base.len().saturating_sub(7)).step_by(4) {
            index.entry(&base[i..i + 8]).or_insert(i);
        }
    }
    let mut pos = 0;
    let mut lit = 0;
    let pre = base.iter().zip(target).take_while(|(a, b)| a == b).count();
    if pre > 0 {
        copy(&mut ops, &mut x, 0, pre);
        pos = pre;
        lit = pre;
    }
    let suf = base[pre..].iter().rev().zip(target[pre..].iter().rev()).take_while(|(a, b)| a == b).count();
    let stop = target.len() - suf;
    while pos < stop {
        let hit = if pos + 8 <= stop { index.get(&target[pos..pos + 8]).copied() } else { None };
        match hit {
            Some(b) if splitmix(&mut x) % 8 != 0 => {
                let n = base[b..].iter().zip(&target[pos..stop]).take_while(|(a, b)| a == b).count();
                insert(&mut ops, &mut x, &target[lit..pos]);
                copy(&mut ops, &mut x, b, n);
                pos += n;
                lit = pos;
            }
            _ => pos += 1,
        }
    }
    insert(&mut ops, &mut x, &target[lit..stop]);
    if suf > 0 {
        copy(&mut ops, &mut x, base.len() - suf, suf);
    }
    ops
}

// ---------------------------------------------------------------- packs

#[derive(Clone, Debug)]
pub enum Repr {
    Whole,
    /// base: position in the pack's object list
    Ofs { base: usize, delta: Vec<u8> },
    Ref { base: Oid, delta: Vec<u8> },
}

#[derive(Clone, Debug)]
pub struct PackEntry {
    pub id: Oid,
    pub kind: Kind,
    pub bytes: Vec<u8>,
    pub repr: Repr,
    pub level: u8,
    /// free space before the entry (sparse packs)
    pub gap: u64,
    /// not-minimal size encoding: extra continuation bytes
    pub pad: u8,
}

pub struct Pack {
    pub bytes: Vec<u8>,
    pub offsets: Vec<u64>,
    pub crcs: Vec<u32>,
    pub sum: Oid,
    /// where each entry's compressed data starts and ends
    pub data: Vec<(usize, usize)>,
    /// where each entry's ofs/ref base field starts
    pub base_at: Vec<usize>,
}

pub fn entry_header(code: u8, len: u64, pad: u8) -> Vec<u8> {
    entry_header_wide(code, len.into(), pad)
}

pub fn entry_header_wide(code: u8, len: u128, pad: u8) -> Vec<u8> {
    let mut v = vec![(code << 4) | (len & 15) as u8];
    let mut n = len >> 4;
    while n != 0 {
        *v.last_mut().unwrap() |= 0x80;
        v.push((n & 0x7f) as u8);
        n >>= 7;
    }
    for _ in 0..pad {
        *v.last_mut().unwrap() |= 0x80;
        v.push(0);
    }
    v
}

pub fn ofs_varint(mut n: u64) -> Vec<u8> {
    let mut v = vec![(n & 0x7f) as u8];
    n >>= 7;
    while n != 0 {
        n -= 1;
        v.push(0x80 | (n & 0x7f) as u8);
        n >>= 7;
    }
    v.reverse();
    v
}

pub fn build_pack(version: u32, entries: &[PackEntry]) -> Pack {
    let mut b = b"PACK".to_vec();
    b.extend_from_slice(&version.to_be_bytes());
    b.extend_from_slice(&(entries.len() as u32).to_be_bytes());
    let mut p = Pack { bytes: vec![], offsets: vec![], crcs: vec![], sum: [0; 20], data: vec![], base_at: vec![] };
    for e in entries {
        let at = b.len();
        p.offsets.push(at as u64);
        let raw: &[u8] = match &e.repr {
            Repr::Whole => {
                b.extend(entry_header(e.kind.code(), e.bytes.len() as u64, e.pad));
                p.base_at.push(b.len());
                &e.bytes
            }
            Repr::Ofs { base, delta } => {
                b.extend(entry_header(6, delta.len() as u64, e.pad));
                p.base_at.push(b.len());
                b.extend(ofs_varint(at as u64 - p.offsets[*base]));
                delta
            }
            Repr::Ref { base, delta } => {
                b.extend(entry_header(7, delta.len() as u64, e.pad));
                p.base_at.push(b.len());
                b.extend_from_slice(base);
                delta
            }
        };
        let s = b.len();
        b.extend(deflate(raw, e.level));
        p.data.push((s, b.len()));
        p.crcs.push(crc32(&b[at..]));
    }
    p.sum = sha1(&b);
    b.extend_from_slice(&p.sum);
    p.bytes = b;
    p
}

// ---------------------------------------------------------------- indexes

pub struct IdxEntry {
    pub id: Oid,
    pub offset: u64,
    pub crc: u32,
    /// put the offset in the 64-bit table although it would fit
    pub large: bool,
}

pub fn build_idx(version: u8, entries: &[IdxEntry], pack_sum: &Oid) -> Vec<u8> {
    let mut e: Vec<&IdxEntry> = entries.iter().collect();
    e.sort_by_key(|e| e.id);
    let mut fan = [0u32; 256];
    for x in &e {
        fan[x.id[0] as usize] += 1;
    }
    let mut b = vec![];
    if version == 2 {
        b.extend_from_slice(b"\xfftOc\0\0\0\x02");
    }
    let mut n = 0;
    for f in fan {
        n += f;
        b.extend_from_slice(&n.to_be_bytes());
    }
    if version == 1 {
        for x in &e {
            b.extend_from_slice(&(x.offset as u32).to_be_bytes());
            b.extend_from_slice(&x.id);
        }
    } else {
        for x in &e {
            b.extend_from_slice(&x.id);
        }
        for x in &e {
            b.extend_from_slice(&x.crc.to_be_bytes());
        }
        let mut large = vec![];
        for x in &e {
            if x.large || x.offset > 0x7fffffff {
                b.extend_from_slice(&(0x80000000u32 | large.len() as u32).to_be_bytes());
                large.push(x.offset);
            } else {
                b.extend_from_slice(&(x.offset as u32).to_be_bytes());
            }
        }
        for l in large {
            b.extend_from_slice(&l.to_be_bytes());
        }
    }
    b.extend_from_slice(pack_sum);
    let s = sha1(&b);
    b.extend_from_slice(&s);
    b
}

/// Which offsets go to the 64-bit table: those above a threshold, never all of them.
pub fn idx_for(pack: &Pack, ids: &[Oid], version: u8, large_seed: Option<u64>) -> Vec<u8> {
    let first = pack.offsets.iter().copied().min().unwrap_or(0);
    let mut x = large_seed.unwrap_or(0);
    let all = large_seed.map_or(false, |s| s % 3 == 0);
    let v: Vec<IdxEntry> = ids
        .iter()
        .enumerate()
        .map(|(i, id)| IdxEntry {
            id: *id,
            offset: pack.offsets[i],
            crc: pack.crcs[i],
            large: large_seed.is_some() && pack.offsets[i] != first && (all || splitmix(&mut x) % 2 == 0),
        })
        .collect();
    build_idx(version, &v, &pack.sum)
}

pub fn put_pack(git: &Path, pack: &[u8], idx: &[u8], sum: &Oid) -> Res<PathBuf> {
    let base = git.join("objects/pack").join(format!("pack-{}", hex(sum)));
    fs::create_dir_all(base.parent().unwrap())?;
    fs::write(base.with_extension("pack"), pack)?;
    fs::write(base.with_extension("idx"), idx)?;
    Ok(base)
}

/// Rearrange the object store in ways that git allows and that change nothing of what is stored:
/// 1 packs under other names, 2 pack files behind links, 4 the pack folder a link, 8 the folder of objects
/// a link, 16 folders of loose objects links, 32 loose objects links, 64 read-only files, 128 hard links.
pub fn relayout(git: &Path, bits: u8, seed: u64) -> Res {
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::fs::{symlink, PermissionsExt};
    if bits == 0 {
        return Ok(());
    }
    let store = git.parent().unwrap().join("store");
    fs::create_dir_all(&store)?;
    let mut x = seed;
    let mut next = move || crate::engine::splitmix(&mut x);
    let mut n = 0;
    // moves a file or folder to the store and leaves a link
    let mut away = |p: &Path, relative: bool| -> Res {
        n += 1;
        let to = store.join(format!("{n}"));
        fs::rename(p, &to)?;
        if relative {
            let up = "../".repeat(p.strip_prefix(git.parent().unwrap()).unwrap().components().count() - 1);
            symlink(format!("{up}store/{n}"), p)?;
        } else {
            symlink(fs::canonicalize(&to)?, p)?;
        }
        Ok(())
    };
    let objects = git.join("objects");
    let pack = objects.join("pack");
    if bits & 1 != 0 && pack.is_dir() {
        let mut k = 0;
        for e in sorted(&pack)? {
            if e.extension() != Some("idx".as_ref()) || !e.with_extension("pack").is_file() {
                continue;
            }
            k += 1;
            let name: Vec<u8> = match next() % 9 {
                0 => format!("p{k}").into_bytes(),
                1 => format!("pack-{k}.b").into_bytes(),
                2 => format!("pack {k}").into_bytes(),
                3 => [&b"pack-\xff\xfe"[..], k.to_string().as_bytes()].concat(),
                4 => format!(".{k}").into_bytes(),
                5 => format!("pack-{k}.pack").into_bytes(),
                6 => format!("PACK-{k}.IDX").into_bytes(),
                7 => format!("tmp_{k}").into_bytes(),
                _ => continue,
            };
            for ext in ["idx", "pack"] {
                let mut to = name.clone();
                to.push(b'.');
                to.extend(ext.as_bytes());
                fs::rename(e.with_extension(ext), pack.join(std::ffi::OsStr::from_bytes(&to)))?;
            }
        }
    }
    let fans: Vec<PathBuf> = sorted(&objects)?.into_iter().filter(|p| p.file_name().unwrap().len() == 2).collect();
    let mut files = vec![];
    if pack.is_dir() {
        files.extend(sorted(&pack)?.into_iter().filter(|p| p.is_file()).map(|p| (p, 2)));
    }
    for f in &fans {
        files.extend(sorted(f)?.into_iter().filter(|p| p.is_file()).map(|p| (p, 32)));
    }
    for (f, bit) in &files {
        if bits & 128 != 0 && next() % 2 == 0 {
            fs::hard_link(f, store.join(format!("hard{}", next())))?;
        }
        if bits & 64 != 0 {
            fs::set_permissions(f, fs::Permissions::from_mode(0o444))?;
        }
        if bits & bit != 0 && next() % 4 != 0 {
            away(f, next() % 2 == 0)?;
        }
    }
    for f in &fans {
        if bits & 16 != 0 && bits & 32 == 0 && next() % 4 != 0 {
            away(f, next() % 2 == 0)?;
        }
    }
    // (a relative link inside a folder that is moved would lead elsewhere)
    if bits & 4 != 0 && pack.is_dir() && bits & 2 == 0 {
        away(&pack, next() % 2 == 0)?;
    }
    if bits & 8 != 0 && bits & (2 | 4 | 16 | 32) == 0 {
        away(&objects, next() % 2 == 0)?;
    }
    Ok(())
}

pub fn layout_bits() -> BoxedStrategy<u8> {
    prop_oneof![2 => any::<u8>(), 3 => (0u8..8).prop_map(|b| 1 << b)].boxed()
}

fn sorted(dir: &Path) -> Res<Vec<PathBuf>> {
    let mut v = vec![];
    for e in fs::read_dir(dir)? {
        v.push(e?.path());
    }
    v.sort();
    Ok(v)
}

// ---------------------------------------------------------------- random packs

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum ReprSpec {
    Whole,
    /// base chosen among eligible entries, by this number
    Ofs(u16),
    Ref(u16),
}

/// One object of a random pack. `Near` objects are edits of an earlier object
/// of the list, so that deltas between them have copies in them.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Item {
    New(Obj),
    /// blob made from the content of another item by copies and inserts
    Edit { of: u16, seed: u64, ops: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct ItemSpec {
    pub item: Item,
    pub repr: ReprSpec,
    pub level: u8,
    pub enc: u64,
    pub pad: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct PackSpec {
    pub items: Vec<ItemSpec>,
    pub order: u64,
    pub pack_version: u8,
    pub idx_version: u8,
    pub large: Option<u64>,
}

pub struct BuiltPack {
    pub made: Vec<Made>,
    pub entries: Vec<PackEntry>,
    pub pack: Pack,
    pub idx: Vec<u8>,
    /// chain length of each entry, ofs/ref deltas in it
    pub depth: Vec<usize>,
    pub ofs: usize,
    pub refs: usize,
    /// some reference delta's base lies later in the file
    pub forward: bool,
    pub max_distance: u64,
}

pub fn edit(base: &[u8], seed: u64, n: u8) -> Vec<u8> {
    let mut x = seed;
    let mut v = vec![];
    for _ in 0..1 + n % 12 {
        if splitmix(&mut x) % 3 != 0 && !base.is_empty() {
            let off = splitmix(&mut x) as usize % base.len();
            let len = 1 + splitmix(&mut x) as usize % (base.len() - off);
            v.extend_from_slice(&base[off..off + len]);
        } else {
            let len = 1 + splitmix(&mut x) as usize % 200;
            let style = splitmix(&mut x) as u8;
            let s = splitmix(&mut x);
            v.extend(fill(len, style, s));
        }
        if v.len() > 300_000 {
            break;
        }
    }
    v
}

impl PackSpec {
    pub fn build(&self) -> BuiltPack {
        // objects
        let mut made: Vec<Made> = vec![];
        let mut specs: Vec<&ItemSpec> = vec![];
        for s in &self.items {
            let m = match &s.item {
                Item::New(o) => o.made(),
                Item::Edit { of, seed, ops } => {
                    let blobs: Vec<usize> = (0..made.len()).filter(|i| made[*i].kind == Kind::Blob).collect();
                    if blobs.is_empty() {
                        blob_made(edit(b"seed content of a chain of edits, long enough to be worth copying from", *seed, *ops))
                    } else {
                        // mostly the latest blob, so that chains grow
                        let of = *of as usize;
                        let k = if of % 4 != 0 { blobs.len() - 1 } else { (of / 4) % blobs.len() };
                        blob_made(edit(&made[blobs[k]].bytes, *seed, *ops))
                    }
                }
            };
            if made.iter().all(|o| o.id != m.id) {
                made.push(m);
                specs.push(s);
            }
        }
        // file order
        let n = made.len();
        let mut order: Vec<usize> = (0..n).collect();
        if self.order % 3 != 0 {
            let mut x = self.order;
            for i in (1..n).rev() {
                order.swap(i, splitmix(&mut x) as usize % (i + 1));
            }
        }
        let mut place = vec![0; n];
        for (pos, i) in order.iter().enumerate() {
            place[*i] = pos;
        }
        // representations; a rank makes reference deltas acyclic: bases have a lower list index
        let mut entries: Vec<PackEntry> = Vec::with_capacity(n);
        let mut base_of: Vec<Option<usize>> = vec![None; n];
        let (mut ofs, mut refs, mut forward) = (0, 0, false);
        for &i in &order {
            let s = specs[i];
            let pick = |list: Vec<usize>, k: u16| -> Option<usize> {
                if list.is_empty() {
                    return None;
                }
                let k = k as usize;
                Some(if k % 4 != 0 { list[list.len() - 1] } else { list[(k / 4) % list.len()] })
            };
            let same: Vec<usize> = (0..i).filter(|b| made[*b].kind == made[i].kind).collect();
            let delta = |b: usize| {
                let ops = diff_ops(&made[b].bytes, &made[i].bytes, s.enc);
                debug_assert_eq!(apply_ops(&made[b].bytes, &ops).as_deref(), Some(&made[i].bytes[..]));
                encode_delta(
                    made[b].bytes.len() as u64,
                    made[i].bytes.len() as u64,
                    &ops,
                    if s.pad % 4 == 3 { (1, 0) } else { (0, 0) },
                )
            };
            let repr = match &s.repr {
                ReprSpec::Whole => Repr::Whole,
                // git refuses the two-byte delta to an empty result
                _ if made[i].bytes.is_empty() => Repr::Whole,
                ReprSpec::Ofs(k) => match pick(same.into_iter().filter(|b| place[*b] < place[i]).collect(), *k) {
                    None => Repr::Whole,
                    Some(b) => {
                        base_of[i] = Some(b);
                        ofs += 1;
                        Repr::Ofs { base: place[b], delta: delta(b) }
                    }
                },
                ReprSpec::Ref(k) => match pick(same, *k) {
                    None => Repr::Whole,
                    Some(b) => {
                        base_of[i] = Some(b);
                        refs += 1;
                        forward |= place[b] > place[i];
                        Repr::Ref { base: made[b].id, delta: delta(b) }
                    }
                },
            };
            entries.push(PackEntry {
                id: made[i].id,
                kind: made[i].kind,
                bytes: made[i].bytes.clone(),
                repr,
                level: s.level,
                gap: 0,
                pad: if s.pad % 8 == 7 { 1 } else { 0 },
            });
        }
        let depth: Vec<usize> = order
            .iter()
            .map(|&i| {
                let mut d = 0;
                let mut k = i;
                while let Some(b) = base_of[k] {
                    d += 1;
                    k = b;
                }
                d
            })
            .collect();
        let made: Vec<Made> = order.iter().map(|i| made[*i].clone()).collect();
        let pack = build_pack(self.pack_version as u32, &entries);
        let mut max_distance = 0;
        for (k, e) in entries.iter().enumerate() {
            if let Repr::Ofs { base, .. } = e.repr {
                max_distance = max_distance.max(pack.offsets[k] - pack.offsets[base]);
            }
        }
        let ids: Vec<Oid> = made.iter().map(|m| m.id).collect();
        let idx = idx_for(&pack, &ids, self.idx_version, if self.idx_version == 2 { self.large } else { None });
        BuiltPack { made, entries, pack, idx, depth, ofs, refs, forward, max_distance }
    }
}

impl BuiltPack {
    pub fn put(&self, git: &Path) -> Res<PathBuf> {
        put_pack(git, &self.pack.bytes, &self.idx, &self.pack.sum)
    }
}

pub fn item_spec(obj: BoxedStrategy<Obj>) -> BoxedStrategy<ItemSpec> {
    let item = prop_oneof![
        1 => obj.prop_map(Item::New),
        1 => (any::<u16>(), any::<u64>(), any::<u8>()).prop_map(|(of, seed, ops)| Item::Edit { of, seed, ops }),
    ];
    let repr = prop_oneof![
        2 => Just(ReprSpec::Whole),
        3 => any::<u16>().prop_map(ReprSpec::Ofs),
        3 => any::<u16>().prop_map(ReprSpec::Ref),
    ];
    (item, repr, level(), any::<u64>(), any::<u8>())
        .prop_map(|(item, repr, level, enc, pad)| ItemSpec { item, repr, level, enc, pad })
        .boxed()
}

pub fn pack_spec(obj: BoxedStrategy<Obj>, max: usize) -> BoxedStrategy<PackSpec> {
    (
        vec(item_spec(obj), 0..max + 1),
        any::<u64>(),
        prop_oneof![3 => Just(2u8), 1 => Just(3u8)],
        prop_oneof![3 => Just(2u8), 2 => Just(1u8)],
        proptest::option::weighted(0.35, any::<u64>()),
    )
        .prop_map(|(items, order, pack_version, idx_version, large)| PackSpec {
            items,
            order,
            pack_version,
            idx_version,
            large,
        })
        .boxed()
}
