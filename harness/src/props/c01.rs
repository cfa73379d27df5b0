use super::*;
use crate::{bad, ensure};
use crate::git;
use crate::store::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    /// Any bytes at all.
    Bytes(Data),
    /// A well-formed object, header included.
    Object(Obj),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write { what: u8, handle: u8 },
    Read { what: u8, handle: u8, piece: u16 },
    Parse { what: u8, handle: u8 },
    Reopen { handle: u8 },
    /// Another program stores the object first, compressed its own way.
    Other { what: u8, level: u8 },
    /// Another program removes the object as unreachable, and perhaps its folder.
    Prune { what: u8, folder: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    pool: Vec<What>,
    ops: Vec<Op>,
    git: bool,
    /// folders behind links, see `relayout`
    #[serde(default)]
    layout: u8,
}

fn what(max: u32) -> BoxedStrategy<What> {
    prop_oneof![1 => data_upto(max).prop_map(What::Bytes), 1 => obj(max).prop_map(What::Object)].boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => (any::<u8>(), any::<u8>()).prop_map(|(what, handle)| Op::Write { what, handle }),
        2 => (any::<u8>(), any::<u8>(), prop_oneof![Just(0u16), 1u16..5000]).prop_map(|(what, handle, piece)| Op::Read { what, handle, piece }),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(what, handle)| Op::Parse { what, handle }),
        1 => any::<u8>().prop_map(|handle| Op::Reopen { handle }),
        1 => (any::<u8>(), level()).prop_map(|(what, level)| Op::Other { what, level }),
        1 => (any::<u8>(), any::<bool>()).prop_map(|(what, folder)| Op::Prune { what, folder }),
    ]
    .boxed()
}

fn history(max: u32, ops: usize, git_share: f64) -> BoxedStrategy<History> {
    (vec(what(max), 1..6), vec(op(), 1..ops), proptest::bool::weighted(git_share), prop_oneof![4 => Just(0u8), 1 => proptest::sample::select(vec![4u8, 8, 16])])
        .prop_map(|(pool, ops, git, layout)| History { pool, ops, git, layout })
        .boxed()
}

/// Around 16 and 32 MiB, where sizes need another byte somewhere.
fn giant() -> BoxedStrategy<History> {
    let len = prop_oneof![
        (proptest::sample::select(vec![1u32 << 24, 1 << 25]), 0u32..80).prop_map(|(a, b)| a - 40 + b),
        8_000_000u32..36_000_000,
    ];
    let what = (len, 0u8..5, any::<u64>(), any::<bool>()).prop_map(|(len, style, seed, object)| {
        let d = Data::Gen { len, style, seed };
        if object { What::Object(Obj::Blob(d)) } else { What::Bytes(d) }
    });
    (vec(what, 1..2), vec(op(), 0..3))
        .prop_map(|(pool, mut ops)| {
            ops.insert(0, Op::Write { what: 0, handle: 0 });
            History { pool, ops, git: false, layout: 0 }
        })
        .boxed()
}

/// Lengths around powers of two, up to where a length no longer fits the header of a small object.
fn round_sizes() -> Vec<History> {
    let mut v = vec![];
    let mut add = |len: u32, style: u8| {
        v.push(History {
            pool: vec![What::Bytes(Data::Gen { len, style, seed: len as u64 })],
            ops: vec![Op::Write { what: 0, handle: 0 }],
            git: false,
            layout: 0,
        })
    };
    for k in 6..22 {
        for d in [-65i32, -9, -1, 0, 1, 7, 40, 63, 64, 65] {
            let len = (1i32 << k) + d;
            if len >= 0 {
                add(len as u32, (k + d.unsigned_abs()) as u8 % 5);
            }
        }
    }
    for k in 22..=24 {
        for (j, d) in [-1i32, 0, 3, 50].into_iter().enumerate() {
            add(((1i32 << k) + d) as u32, 2 * (j % 2) as u8);
        }
    }
    for (len, style) in [(3u32 << 23, 1), ((3 << 23) + 9, 2), (1 << 25, 1), ((1 << 25) + 30, 0)] {
        add(len, style);
    }
    v
}

fn run(h: &History, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let dotgit = init_repo(&dir)?;
    let pool: Vec<(Vec<u8>, Option<Made>)> = h
        .pool
        .iter()
        .map(|w| match w {
            What::Bytes(d) => (d.bytes(), None),
            What::Object(o) => {
                let m = o.made();
                (framed(m.kind, &m.bytes), Some(m))
            }
        })
        .collect();
    if h.layout & 16 != 0 {
        for (b, _) in &pool {
            std::fs::create_dir_all(loose_path(&dotgit, &sha1(b)).parent().unwrap())?;
        }
    }
    relayout(&dotgit, h.layout, pool.len() as u64)?;
    ctx.label_if(h.layout != 0, "folders behind links");
    let mut handles = vec![open(&dir)?, open(&dir)?];
    let mut stored: BTreeMap<Oid, usize> = BTreeMap::new();
    let mut foreign: BTreeMap<Oid, Vec<u8>> = BTreeMap::new();
    let n = pool.len();
    let mut writes = 0;
    let mut rewrites = 0;
    let mut prunes = 0;
    for (k, op) in h.ops.iter().enumerate() {
        let at = format!("step {k} ({op:?})");
        match op {
            Op::Write { what, handle } => {
                let i = *what as usize % n;
                let id = expect_write(handles[*handle as usize % 2].object_database(), &pool[i].0, &at)?;
                if stored.insert(id, i).is_some() {
                    rewrites += 1;
                }
                writes += 1;
                let file = std::fs::read(loose_path(&dotgit, &id));
                let Ok(file) = file else {
                    bad!("no-file", "{at}: no file {} after the write", loose_path(&dotgit, &id).display())
                };
                match inflate_exact(&file) {
                    Some(b) if b == pool[i].0 => (),
                    other => bad!("bad-file", "{at}: the stored file is not one zlib stream of the bytes written: {:?}", other.as_deref().map(show)),
                }
                if let Some(f) = foreign.get(&id) {
                    let same = inflate(&file) == inflate(f);
                    ensure!(same, "bad-file", "{at}: rewriting changed what another program stored");
                }
            }
            Op::Other { what, level } => {
                let i = *what as usize % n;
                let id = sha1(&pool[i].0);
                if !stored.contains_key(&id) {
                    let f = deflate(&pool[i].0, *level);
                    put_loose_raw(&dotgit, &id, &f)?;
                    foreign.insert(id, f);
                    stored.insert(id, i);
                }
            }
            Op::Prune { what, folder } => {
                let i = *what as usize % n;
                let id = sha1(&pool[i].0);
                if stored.remove(&id).is_some() {
                    foreign.remove(&id);
                    let p = loose_path(&dotgit, &id);
                    std::fs::remove_file(&p)?;
                    if *folder && h.layout & 16 == 0 {
                        // goes only when empty
                        let _ = std::fs::remove_dir(p.parent().unwrap());
                    }
                    prunes += 1;
                }
            }
            Op::Read { what, handle, piece } => {
                let i = *what as usize % n;
                let id = sha1(&pool[i].0);
                let db = handles[*handle as usize % 2].object_database();
                read_back(db, &id, stored.contains_key(&id), &pool[i].0, *piece as usize, &at)?;
            }
            Op::Parse { what, handle } => {
                let i = *what as usize % n;
                let id = sha1(&pool[i].0);
                let db = handles[*handle as usize % 2].object_database();
                parse_back(db, &id, stored.contains_key(&id), pool[i].1.as_ref(), &at)?;
            }
            Op::Reopen { handle } => handles[*handle as usize % 2] = open(&dir)?,
        }
    }
    // Everything stored is still there, for old and new handles.
    handles.push(open(&dir)?);
    for (id, i) in &stored {
        for (hn, hd) in handles.iter().enumerate() {
            let at = format!("at the end, handle {hn}");
            read_back(hd.object_database(), id, true, &pool[*i].0, 0, &at)?;
            parse_back(hd.object_database(), id, true, pool[*i].1.as_ref(), &at)?;
        }
    }
    if h.git && git::available() {
        let ids: Vec<(&Oid, &Made)> = stored.iter().filter_map(|(id, i)| pool[*i].1.as_ref().map(|m| (id, m))).collect();
        let got = git::cat_file(&dotgit, &ids.iter().map(|x| *x.0).collect::<Vec<_>>())?;
        for ((id, m), g) in ids.iter().zip(got) {
            match g {
                Some((k, b)) if k == m.kind && b == m.bytes => ctx.label("read by git too"),
                g => bad!("git-disagrees", "git reads {} as {:?}", hex(*id), g.map(|(k, b)| (k, show(&b)))),
            }
        }
    }
    let big = stored.values().any(|i| pool[*i].0.len() > 8192);
    ctx.label_if(rewrites > 0, "rewrite");
    ctx.label_if(prunes > 0, "object removed by another program");
    ctx.label_if(!foreign.is_empty(), "object stored by another program");
    ctx.label_if(big, "object above 8 KiB");
    ctx.label_if(stored.values().any(|i| pool[*i].0.len() > 65536), "object above 64 KiB");
    ctx.label_if(stored.values().any(|i| pool[*i].0.is_empty()), "empty byte string");
    ctx.add("writes", writes);
    ctx.nontrivial(writes > 0 && (rewrites > 0 || big || !foreign.is_empty()));
    Ok(())
}

/// One zlib stream and nothing after it.
fn inflate_exact(file: &[u8]) -> Option<Vec<u8>> {
    let mut d = flate2::bufread::ZlibDecoder::new(file);
    let mut v = vec![];
    d.read_to_end(&mut v).ok()?;
    if d.total_in() as usize == file.len() {
        Some(v)
    } else {
        None
    }
}

fn read_back(db: &ObjectDatabase, id: &Oid, there: bool, bytes: &[u8], piece: usize, at: &str) -> Res {
    match (stream(db, id, piece)?, there) {
        (Streamed::Bytes(b), true) if b == bytes => Ok(()),
        (Streamed::NotFound, false) => Ok(()),
        (got, true) => violation("wrong-read", format!("{at}: {} streamed {got:?}, expected {}", hex(id), show(bytes))),
        (got, false) => violation("phantom", format!("{at}: {} was never written but gave {got:?}", hex(id))),
    }
}

fn parse_back(db: &ObjectDatabase, id: &Oid, there: bool, m: Option<&Made>, at: &str) -> Res {
    match (there, m) {
        (true, Some(m)) => expect_object(db, m, at),
        // bytes that are no object: any answer but a crash or not found
        (true, None) => match lookup(db, id)? {
            Got::NotFound => violation("not-found", format!("{at}: stored bytes {} reported as not found", hex(id))),
            _ => Ok(()),
        },
        (false, _) => expect_absent(db, id, at),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        title: "Written objects read back byte for byte under their SHA-1",
        level: "exploration",
        rule: "a case is a history of writes, rewrites, streaming and parsing reads and reopenings over a pool of byte strings and well-formed objects, on two handles and finally a fresh one, against a map from SHA-1 to bytes; stored files are inflated by the harness and read by git; non-trivial: a rewrite, an object above 8 KiB, or one stored first by another program",
        assumptions: &["the harness's own SHA-1 and the zlib of flate2 are right (both are cross-checked by git's reading of the same files)"],
        arms: vec![
            arm("history", 6000, 120_000, history(3000, 12, 0.02), run),
            arm("history-large", 700, 20_000, history(300_000, 8, 0.1), run),
            arm("huge", 16, 400, history(6_000_000, 4, 1.0), run),
            arm("giant", 6, 300, giant(), run),
            list_arm("round-sizes", round_sizes(), run),
        ],
    }
}
