//! C08 commits, C09 trees, C10 tags, C11 identities: generated objects against
//! the structure they were generated from.
use super::*;
use crate::git;
use crate::store::*;
use crate::{bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// How an object gets into the repository.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Place {
    Loose(u8),
    Written,
    Packed(u8),
    /// as a delta against a blob-like edit of itself is not possible (kinds must match),
    /// so: as a reference delta against another object of the same kind
    Delta(u64),
}

fn place() -> BoxedStrategy<Place> {
    prop_oneof![
        3 => level().prop_map(Place::Loose),
        2 => Just(Place::Written),
        2 => level().prop_map(Place::Packed),
        1 => any::<u64>().prop_map(Place::Delta),
    ]
    .boxed()
}

fn put(git: &Path, db: &ObjectDatabase, m: &Made, p: &Place) -> Res {
    match p {
        Place::Loose(l) => put_loose(git, m, *l),
        Place::Written => expect_write(db, &framed(m.kind, &m.bytes), "storing the object").map(|_| ()),
        Place::Packed(l) => {
            let e = PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr: Repr::Whole, level: *l, gap: 0, pad: 0 };
            let pack = build_pack(2, &[e]);
            let idx = idx_for(&pack, &[m.id], 2, None);
            put_pack(git, &pack.bytes, &idx, &pack.sum).map(|_| ())
        }
        Place::Delta(seed) => {
            // the base need only be bytes of the same kind
            let base = edit(&m.bytes, *seed, *seed as u8);
            let base_id = object_id(m.kind, &base);
            if base_id == m.id {
                return put(git, db, m, &Place::Packed(6));
            }
            let ops = diff_ops(&base, &m.bytes, *seed);
            let delta = encode_delta(base.len() as u64, m.bytes.len() as u64, &ops, (0, 0));
            let e = [
                PackEntry { id: base_id, kind: m.kind, bytes: base, repr: Repr::Whole, level: 6, gap: 0, pad: 0 },
                PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr: Repr::Ofs { base: 0, delta }, level: 6, gap: 0, pad: 0 },
            ];
            let pack = build_pack(2, &e);
            let idx = idx_for(&pack, &[base_id, m.id], 2, None);
            put_pack(git, &pack.bytes, &idx, &pack.sum).map(|_| ())
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case<T> {
    items: Vec<(T, Place)>,
}

fn cases<T: Clone + std::fmt::Debug + 'static>(s: BoxedStrategy<T>) -> BoxedStrategy<Case<T>> {
    vec((s, place()), 1..5).prop_map(|items| Case { items }).boxed()
}

fn run_objs<T: Clone>(c: &Case<T>, to: impl Fn(&T) -> Obj, ctx: &mut Ctx, mut note: impl FnMut(&T, &mut Ctx)) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let repo = open(&dir)?;
    let mut made = vec![];
    for (o, p) in &c.items {
        let m = to(o).made();
        put(&g, repo.object_database(), &m, p)?;
        note(o, ctx);
        ctx.label(match p {
            Place::Loose(_) => "in a loose file",
            Place::Written => "written by write_object",
            Place::Packed(_) => "in a pack, whole",
            Place::Delta(_) => "in a pack, as a delta",
        });
        made.push(m);
    }
    let repo = open(&dir)?;
    for m in &made {
        expect_object(repo.object_database(), m, "decoding")?;
    }
    // decoded again, in the other order: nothing depends on earlier decoding
    for m in made.iter().rev() {
        expect_object(repo.object_database(), m, "decoding again")?;
    }
    Ok(())
}

/// Lengths around those at which a field could stop fitting where a decoder keeps it.
fn long_len() -> BoxedStrategy<usize> {
    let edges = vec![255usize, 256, 1023, 1024, 4095, 4096, 8192, 16_384, 32_767, 32_768, 65_535, 65_536, 131_072];
    prop_oneof![
        3 => (select(edges), 0usize..6).prop_map(|(e, d)| e + d - 2),
        1 => 200usize..150_000,
    ]
    .boxed()
}

fn long_text(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed;
    (0..n).map(|_| b"abcdefghijklmnopqrstuvwxyz-_/0123456789"[crate::engine::splitmix(&mut x) as usize % 39]).collect()
}

fn long_id(seed: u64) -> Oid {
    sha1(&seed.to_be_bytes())
}

fn long_ident(i: &mut Ident, what: u8, n: usize, seed: u64) {
    let part = if what % 2 == 0 { &mut i.name } else { &mut i.email };
    if what % 4 < 2 {
        part[1] = [b"x", &long_text(n, seed)[..], b"y"].concat();
    } else {
        // padding inside and at the edges
        part[0] = vec![b' '; n / 3];
        part[1] = [b"x", &vec![b' '; n][..], b"y"].concat();
    }
}

/// A commit with one part of unusual size, or many parts of one sort.
fn long_commit() -> BoxedStrategy<CommitSpec> {
    (commit(), any::<u8>(), long_len(), any::<u64>())
        .prop_map(|(mut c, what, n, seed)| {
            let header = |k: u64, n: usize| Header { key: format!("x-{k}").into_bytes(), lines: vec![long_text(n, k)] };
            match what % 10 {
                0 | 1 => c.parents = (0..n as u64 / 48 + 1).map(|k| long_id(seed ^ k)).collect(),
                2 => long_ident(&mut c.author, what / 10, n, seed),
                3 => long_ident(&mut c.committer, what / 10, n, seed),
                4 => c.extra_authors = (0..n / 20).map(|_| c.committer.clone()).collect(),
                5 => c.headers = vec![header(seed, n)],
                6 => c.headers = (0..n as u64 / 30).map(|k| header(k, 10)).collect(),
                7 => c.encoding = Some((what / 10, long_text(n, seed))),
                8 => c.message = Data::Gen { len: n as u32, style: what / 10, seed },
                _ => c.headers = vec![Header { key: b"gpgsig".to_vec(), lines: (0..n as u64 / 60).map(|k| long_text(58, k)).collect() }],
            }
            c
        })
        .boxed()
}

fn long_tag() -> BoxedStrategy<TagSpec> {
    (tag(), any::<u8>(), long_len(), any::<u64>())
        .prop_map(|(mut t, what, n, seed)| {
            match what % 5 {
                0 => t.name = long_text(n, seed),
                1 => {
                    let mut i = simple_ident();
                    long_ident(&mut i, what / 5, n, seed);
                    t.tagger = Some(i);
                }
                2 => t.headers = vec![Header { key: b"gpgsig".to_vec(), lines: (0..n as u64 / 60 + 1).map(|k| long_text(58, k)).collect() }],
                3 => t.message = Some(Data::Gen { len: n as u32, style: what / 5, seed }),
                _ => t.headers = (0..n as u64 / 30).map(|k| Header { key: format!("x-{k}").into_bytes(), lines: vec![vec![]] }).collect(),
            }
            t
        })
        .boxed()
}

fn long_tree() -> BoxedStrategy<TreeSpec> {
    (tree(), vec((long_len(), any::<u64>()), 1..4), prop_oneof![8 => 0u32..20, 1 => select(vec![1000u32, 1024, 4090, 4095, 4096, 5000])])
        .prop_map(|(mut t, long, many)| {
            for (n, seed) in long {
                let name = long_text(n, seed).into_iter().map(|b| if b == b'/' { b'.' } else { b }).collect();
                t.entries.push(EntrySpec { mode: MODES[seed as usize % 5].into(), name, id: long_id(seed) });
            }
            t.many.0 = many;
            t
        })
        .boxed()
}

fn long_idents() -> BoxedStrategy<Idents> {
    (vec((ident(), any::<u8>(), long_len(), any::<u64>()), 1..4), any::<u8>())
        .prop_map(|(ids, order)| Idents {
            ids: ids
                .into_iter()
                .map(|(mut i, what, n, seed)| {
                    long_ident(&mut i, what, n, seed);
                    if what % 16 == 15 {
                        i.time = Some(seed.to_string().repeat(n / 20 + 1));
                    }
                    i
                })
                .collect(),
            order,
        })
        .boxed()
}

const MIB: usize = 1 << 20;

/// Every way an object is kept, for one of unusual size.
fn everywhere<T: Clone>(v: Vec<T>) -> Vec<Case<T>> {
    v.into_iter()
        .enumerate()
        .map(|(k, t)| {
            let p = [Place::Loose(1), Place::Packed(1), Place::Written, Place::Packed(6)];
            Case { items: vec![(t, p[k % 4].clone())] }
        })
        .collect()
}

fn plain_commit() -> CommitSpec {
    CommitSpec {
        tree: long_id(1),
        parents: vec![long_id(2)],
        author: simple_ident(),
        extra_authors: vec![],
        committer: simple_ident(),
        headers: vec![],
        encoding: None,
        message: Data::Raw(b"message\n".to_vec()),
    }
}

/// Counts and sizes beyond those any history has.
fn huge_commits() -> Vec<Case<CommitSpec>> {
    let mut v = vec![];
    let c = plain_commit();
    for n in [4095u64, 4097, 20_000, 65_535, 65_536, 65_537, 140_000] {
        v.push(CommitSpec { parents: (0..n).map(long_id).collect(), ..c.clone() });
    }
    for n in [5000u64, 70_000] {
        v.push(CommitSpec { headers: (0..n).map(|k| Header { key: format!("x-{k}").into_bytes(), lines: vec![long_text(9, k)] }).collect(), ..c.clone() });
    }
    for n in [MIB - 1, MIB + 1, 5 * MIB] {
        v.push(CommitSpec { headers: vec![Header { key: b"note".to_vec(), lines: vec![long_text(n, 3)] }], ..c.clone() });
    }
    v.push(CommitSpec { headers: vec![Header { key: b"gpgsig".to_vec(), lines: (0..40_000).map(|k| long_text(64, k)).collect() }], ..c.clone() });
    for (k, n) in [MIB - 1, MIB, MIB + 1, 2 * MIB + 3, 17 * MIB].into_iter().enumerate() {
        v.push(CommitSpec { message: Data::Gen { len: n as u32, style: k as u8, seed: 5 }, ..c.clone() });
    }
    for n in [MIB + 1, 3 * MIB] {
        let mut i = simple_ident();
        long_ident(&mut i, 0, n, 6);
        v.push(CommitSpec { author: i.clone(), committer: simple_ident(), ..c.clone() });
        v.push(CommitSpec { committer: i, ..c.clone() });
    }
    v.push(CommitSpec { extra_authors: vec![simple_ident(); 70_000], ..c.clone() });
    everywhere(v)
}

fn huge_trees() -> Vec<Case<TreeSpec>> {
    let mut v = vec![];
    for n in [4096u32, 5000, 8193, 32_769, 65_535, 65_536, 65_537, 140_000] {
        v.push(TreeSpec { entries: vec![], many: (n, n as u64) });
    }
    for n in [MIB - 1, MIB + 1, 5 * MIB] {
        let name = long_text(n, 1).into_iter().map(|b| if b == b'/' { b'.' } else { b }).collect();
        v.push(TreeSpec { entries: vec![EntrySpec { mode: "100644".into(), name, id: long_id(2) }], many: (3, 4) });
    }
    everywhere(v)
}

fn huge_tags() -> Vec<Case<TagSpec>> {
    let mut v = vec![];
    let t = TagSpec { object: long_id(1), kind: Kind::Commit, name: b"v1".to_vec(), tagger: Some(simple_ident()), headers: vec![], message: Some(Data::Raw(b"m".to_vec())) };
    for n in [MIB - 1, MIB + 1, 5 * MIB] {
        v.push(TagSpec { name: long_text(n, 2), ..t.clone() });
    }
    for (k, n) in [MIB - 1, MIB, MIB + 1, 17 * MIB].into_iter().enumerate() {
        v.push(TagSpec { message: Some(Data::Gen { len: n as u32, style: k as u8, seed: 5 }), ..t.clone() });
    }
    for n in [5000u64, 70_000] {
        v.push(TagSpec { headers: (0..n).map(|k| Header { key: format!("x-{k}").into_bytes(), lines: vec![long_text(9, k)] }).collect(), ..t.clone() });
    }
    let mut i = simple_ident();
    long_ident(&mut i, 1, 2 * MIB, 6);
    v.push(TagSpec { tagger: Some(i), ..t.clone() });
    everywhere(v)
}

fn huge_idents() -> Vec<Idents> {
    [MIB - 1, MIB + 1, 3 * MIB]
        .into_iter()
        .flat_map(|n| {
            (0u8..12).map(move |k| {
                let mut i = simple_ident();
                long_ident(&mut i, k % 4, n, k as u64);
                Idents { ids: vec![i], order: k / 4 }
            })
        })
        .collect()
}

// ---------------------------------------------------------------- C08

fn note_commit(c: &CommitSpec, ctx: &mut Ctx) {
    let msg = c.message.bytes();
    ctx.label(match c.parents.len() {
        0 => "no parent",
        1 => "one parent",
        2..=3 => "2-3 parents",
        _ => "many parents",
    });
    ctx.label_if(!c.headers.is_empty(), "other headers");
    ctx.label_if(c.headers.iter().any(|h| h.lines.len() > 1), "header with continuation lines");
    ctx.label_if(c.encoding.is_some(), "encoding");
    ctx.label_if(!c.extra_authors.is_empty(), "several author lines");
    ctx.label_if(msg.is_empty(), "empty message");
    ctx.label_if(msg.starts_with(b"\n"), "message starts with a newline");
    ctx.label_if(std::str::from_utf8(&msg).is_err(), "message not UTF-8");
    ctx.nontrivial(c.parents.len() > 1 || !c.headers.is_empty() || !c.extra_authors.is_empty() || c.encoding.is_some());
}

fn commits(c: &Case<CommitSpec>, ctx: &mut Ctx) -> Res {
    run_objs(c, |o| Obj::Commit(o.clone()), ctx, note_commit)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GitCommit {
    parents: Vec<(String, u32)>,
    name: String,
    email: String,
    committer: String,
    time: u32,
    zone: String,
    encoding: Option<String>,
    message: String,
}

/// Commits and tags made by git itself, described by git itself.
fn git_commits(c: &GitCommit, ctx: &mut Ctx) -> Res {
    if !git::available() {
        ctx.label("git is not installed");
        return Ok(());
    }
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let tree = text(git::git_ok(&g, &["mktree"], Some(b""))?);
    let date = format!("{} {}", c.time, c.zone);
    let mut script = String::new();
    script.push_str(&format!("tree {tree}\n"));
    let mut parents = vec![];
    for (m, t) in &c.parents {
        let p = framed_commit(&tree, *t, m);
        let id = text(git::git_ok(&g, &["hash-object", "-w", "-t", "commit", "--stdin"], Some(&p))?);
        if !parents.contains(&id) {
            parents.push(id);
        }
    }
    let mut args: Vec<String> = vec![];
    if let Some(e) = &c.encoding {
        args.push("-c".into());
        args.push(format!("i18n.commitEncoding={e}"));
    }
    args.push("commit-tree".into());
    args.push(tree.clone());
    for p in &parents {
        args.push("-p".into());
        args.push(p.clone());
    }
    let env = [
        ("GIT_AUTHOR_NAME", c.name.as_str()),
        ("GIT_AUTHOR_EMAIL", &c.email),
        ("GIT_AUTHOR_DATE", &date),
        ("GIT_COMMITTER_NAME", &c.committer),
        ("GIT_COMMITTER_EMAIL", &c.email),
        ("GIT_COMMITTER_DATE", &date),
    ];
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let out = git::git_env(&g, &args, Some(c.message.as_bytes()), &env)?;
    if !out.status.success() {
        ctx.label("git refused the input");
        return Ok(());
    }
    let id = text(out.stdout);
    // what git says about it
    let fmt = "%T%x00%P%x00%an%x00%ae%x00%ad%x00%cn%x00%ce%x00%e";
    let said = git::git_ok(
        &g,
        &["-c", "i18n.logOutputEncoding=UTF-8", "show", "-s", "--date=raw", &format!("--format=format:{fmt}"), &id],
        None,
    )?;
    let f: Vec<&[u8]> = said.split(|b| *b == 0).collect();
    ensure!(f.len() == 8, "harness", "git show printed {}", show(&said));
    let raw = git::git_ok(&g, &["cat-file", "commit", &id], None)?;
    let at = raw.windows(2).position(|w| w == b"\n\n").map(|p| p + 2).unwrap_or(raw.len());
    let repo = open(&dir)?;
    let oid = unhex(&id);
    let Got::Object(Parsed::Commit { tree: t, parents: ps, author, committer, encoding, message }) = lookup(repo.object_database(), &oid)? else {
        bad!("read-error", "the commit {id} made by git is not readable: {:?}", lookup(repo.object_database(), &oid)?)
    };
    let ps: Vec<String> = ps.iter().map(|p| hex(p)).collect();
    ensure!(hex(&t).as_bytes() == f[0], "wrong-content", "tree {} but git says {}", hex(&t), show(f[0]));
    ensure!(ps.join(" ").as_bytes() == f[1], "wrong-content", "parents {ps:?} but git says {}", show(f[1]));
    ensure!(message == raw[at..], "wrong-content", "message {} but git stored {}", show(&message), show(&raw[at..]));
    ensure!(encoding.clone().unwrap_or_default() == f[7], "wrong-content", "encoding {encoding:?} but git says {}", show(f[7]));
    let date = [author.time.clone().unwrap_or_default(), author.zone.clone().unwrap_or_default()].join(&b' ');
    ensure!(date == f[4], "wrong-content", "author date {} but git says {}", show(&date), show(f[4]));
    // names are recoded by git's output unless stored as UTF-8; newer git keeps '.' at the edges
    if encoding.is_none() {
        let f: Vec<&[u8]> = f.iter().map(|v| trim_crud(v)).collect();
        ensure!(author.name == f[2], "wrong-content", "author name {} but git says {}", show(&author.name), show(f[2]));
        ensure!(author.email == f[3], "wrong-content", "author email {} but git says {}", show(&author.email), show(f[3]));
        ensure!(committer.name == f[5], "wrong-content", "committer name {} but git says {}", show(&committer.name), show(f[5]));
        ensure!(committer.email == f[6], "wrong-content", "committer email {} but git says {}", show(&committer.email), show(f[6]));
    }
    ctx.label("commit made by git");
    ctx.nontrivial(!ps.is_empty() || c.encoding.is_some());
    Ok(())
}

fn trim_crud(v: &[u8]) -> &[u8] {
    let a = v.iter().position(|b| !is_crud(*b)).unwrap_or(v.len());
    let z = v.iter().rposition(|b| !is_crud(*b)).map_or(a, |p| p + 1);
    &v[a..z]
}

fn framed_commit(tree: &str, t: u32, m: &str) -> Vec<u8> {
    format!("tree {tree}\nauthor A <a@b> {t} +0000\ncommitter A <a@b> {t} +0000\n\n{m}").into_bytes()
}

pub fn text(b: Vec<u8>) -> String {
    String::from_utf8_lossy(&b).trim_end().to_string()
}

pub fn unhex(s: &str) -> Oid {
    let mut o = [0; 20];
    for (i, b) in o.iter_mut().enumerate() {
        *b = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex");
    }
    o
}

fn git_commit() -> BoxedStrategy<GitCommit> {
    let name = prop_oneof![
        2 => "[A-Z][a-z]{1,6}( [A-Z][a-z]{1,6})?",
        1 => "[0-9a-zA-Z!#$%&()*+/=?@^_`{|}~-][ -;=?-~]{0,10}[0-9a-zA-Z!#$%&()*+/=?@^_`{|}~-]",
        1 => "[.,:;'\"]{0,2}[0-9A-Za-z][ -;=?-~éü]{0,8}[0-9A-Za-z][.,:;'\" ]{0,3}",
    ];
    (
        vec(("[ -~\n]{0,10}", 1u32..2_000_000_000), 0..4),
        name.clone(),
        "[0-9a-z]{1,6}@[0-9a-z.]{0,6}[0-9a-z]",
        name,
        100_000_000u32..2_000_000_000,
        "[+-](0[0-9]|1[0-2])[0-5][0-9]",
        proptest::option::weighted(0.3, select(vec!["ISO-8859-1".to_string(), "latin1".into(), "UTF-8".into()])),
        "[ -~\n]{0,80}",
    )
        .prop_map(|(parents, name, email, committer, time, zone, encoding, message)| GitCommit {
            parents,
            name,
            email,
            committer,
            time,
            zone,
            encoding,
            message,
        })
        .boxed()
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        title: "Commits are decoded exactly",
        level: "exploration",
        rule: "1-4 generated commits per case, stored loose, by write_object, whole in a pack or as a delta; every accessor is compared with the generated structure, twice; non-trivial: a commit with several parents, other headers, an encoding or several author lines",
        assumptions: &["identities in this check carry no padding (C11 varies it)"],
        arms: vec![
            arm("generated", 12_000, 400_000, cases(commit()), commits),
            arm("long", 500, 20_000, cases(long_commit()), commits),
            list_arm("huge", huge_commits(), commits),
            arm("made-by-git", 60, 2_000, git_commit(), git_commits),
        ],
    }
}

// ---------------------------------------------------------------- C09

fn trees(c: &Case<TreeSpec>, ctx: &mut Ctx) -> Res {
    run_objs(
        c,
        |o| Obj::Tree(o.clone()),
        ctx,
        |t, ctx| {
            let all = t.all();
            ctx.label(match all.len() {
                0 => "empty tree",
                1..=15 => "1-15 entries",
                16..=255 => "16-255 entries",
                _ => "256 and more entries",
            });
            ctx.label_if(all.iter().any(|e| e.id.contains(&0) || e.id.contains(&b' ')), "id with NUL or space bytes");
            ctx.label_if(all.iter().any(|e| e.name.contains(&b' ') || e.name.contains(&b'\n')), "name with space or newline");
            ctx.label_if(all.iter().any(|e| std::str::from_utf8(&e.name).is_err()), "name not UTF-8");
            ctx.nontrivial(all.len() > 1);
        },
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GitTree {
    files: Vec<(u8, String, String)>,
}

fn git_trees(c: &GitTree, ctx: &mut Ctx) -> Res {
    if !git::available() {
        ctx.label("git is not installed");
        return Ok(());
    }
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let mut input = vec![];
    let mut seen = std::collections::BTreeSet::new();
    let empty = text(git::git_ok(&g, &["mktree"], Some(b""))?);
    for (m, n, content) in &c.files {
        if n == "." || n == ".." || !seen.insert(n.clone()) {
            continue;
        }
        let blob = text(git::git_ok(&g, &["hash-object", "-w", "--stdin"], Some(content.as_bytes()))?);
        let line = match m % 5 {
            0 => format!("100644 blob {blob}\t{n}\0"),
            1 => format!("100755 blob {blob}\t{n}\0"),
            2 => format!("120000 blob {blob}\t{n}\0"),
            3 => format!("160000 commit {blob}\t{n}\0"),
            _ => format!("040000 tree {empty}\t{n}\0"),
        };
        input.extend_from_slice(line.as_bytes());
    }
    let out = git::git(&g, &["mktree", "-z", "--missing"], Some(&input))?;
    if !out.status.success() {
        ctx.label("git refused the input");
        return Ok(());
    }
    let id = text(out.stdout);
    let said = git::git_ok(&g, &["ls-tree", "-z", &id], None)?;
    let mut want = vec![];
    for l in said.split(|b| *b == 0).filter(|l| !l.is_empty()) {
        let tab = l.iter().position(|b| *b == b'\t').unwrap();
        let head = String::from_utf8_lossy(&l[..tab]).into_owned();
        let f: Vec<&str> = head.split(' ').collect();
        want.push((u16::from_str_radix(f[0], 8).unwrap(), l[tab + 1..].to_vec(), unhex(f[2])));
    }
    let repo = open(&dir)?;
    match lookup(repo.object_database(), &unhex(&id))? {
        Got::Object(p) => expect_parsed("tree made by git", &p, &Parsed::Tree(want.clone()))?,
        g => bad!("read-error", "the tree {id} made by git gave {g:?}"),
    }
    ctx.label("tree made by git");
    ctx.nontrivial(want.len() > 1);
    Ok(())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        title: "Trees are decoded exactly",
        level: "exploration",
        rule: "1-4 generated trees per case (0 to about 4000 entries, in git order), stored loose, by write_object, whole in a pack or as a delta; the entries, their number and every accessor are compared with the generated structure, twice; non-trivial: a tree with several entries",
        assumptions: &[],
        arms: vec![
            arm("generated", 9_000, 300_000, cases(tree()), trees),
            arm("long", 500, 20_000, cases(long_tree()), trees),
            list_arm("huge", huge_trees(), trees),
            arm(
                "made-by-git",
                40,
                1_000,
                vec((any::<u8>(), "[a-zA-Z0-9._ éß-]{1,12}", "[a-z]{0,5}"), 0..12).prop_map(|files| GitTree { files }),
                git_trees,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C10

fn tags(c: &Case<TagSpec>, ctx: &mut Ctx) -> Res {
    run_objs(
        c,
        |o| Obj::Tag(o.clone()),
        ctx,
        |t, ctx| {
            ctx.label(format!("target {}", t.kind.name()));
            ctx.label_if(t.tagger.is_none(), "no tagger");
            ctx.label_if(t.message.is_none(), "no message");
            ctx.label_if(!t.headers.is_empty(), "further headers");
            ctx.label_if(t.message.as_ref().map_or(false, |m| m.len() == 0), "empty message");
            ctx.label_if(t.message.as_ref().map_or(false, |m| m.bytes().starts_with(b"\n")), "message starts with a newline");
            ctx.nontrivial(t.kind != Kind::Commit || t.tagger.is_none() || t.message.as_ref().map_or(true, |m| m.bytes().contains(&b'\n')));
        },
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GitTag {
    kind: Kind,
    name: String,
    who: String,
    message: String,
}

fn git_tags(c: &GitTag, ctx: &mut Ctx) -> Res {
    if !git::available() {
        ctx.label("git is not installed");
        return Ok(());
    }
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let tree = text(git::git_ok(&g, &["mktree"], Some(b""))?);
    let target = match c.kind {
        Kind::Tree => tree,
        Kind::Blob => text(git::git_ok(&g, &["hash-object", "-w", "--stdin"], Some(c.who.as_bytes()))?),
        Kind::Commit => text(git::git_ok(&g, &["commit-tree", &tree, "-m", "x"], None)?),
        Kind::Tag => {
            git::git_ok(&g, &["tag", "-a", "-m", "inner", "inner", &tree], None)?;
            text(git::git_ok(&g, &["rev-parse", "inner"], None)?)
        }
    };
    let env = [("GIT_COMMITTER_NAME", c.who.as_str())];
    let out = git::git_env(&g, &["tag", "-a", "--cleanup=verbatim", "-F", "-", &c.name, &target], Some(c.message.as_bytes()), &env)?;
    if !out.status.success() {
        ctx.label("git refused the input");
        return Ok(());
    }
    let id = text(git::git_ok(&g, &["rev-parse", &format!("refs/tags/{}", c.name)], None)?);
    let said = git::git_ok(
        &g,
        &["for-each-ref", "--format=%(object)%00%(type)%00%(tag)%00%(taggername)%00%(taggeremail:trim)%00%(taggerdate:raw)", &format!("refs/tags/{}", c.name)],
        None,
    )?;
    let said = text(said);
    let f: Vec<&str> = said.split('\0').collect();
    let raw = git::git_ok(&g, &["cat-file", "tag", &id], None)?;
    let at = raw.windows(2).position(|w| w == b"\n\n").map(|p| p + 2);
    let repo = open(&dir)?;
    let Got::Object(Parsed::Tag { object, kind, name, tagger, message }) = lookup(repo.object_database(), &unhex(&id))? else {
        bad!("read-error", "the tag {id} made by git is not readable: {:?}", lookup(repo.object_database(), &unhex(&id))?)
    };
    ensure!(hex(&object) == f[0], "wrong-content", "object {} but git says {}", hex(&object), f[0]);
    ensure!(kind.map(|k| k.name()) == Some(f[1]), "wrong-content", "kind {kind:?} but git says {}", f[1]);
    ensure!(name == f[2].as_bytes(), "wrong-content", "tag name {} but git says {}", show(&name), f[2]);
    let Some(t) = tagger else { bad!("wrong-content", "no tagger in {}", show(&raw)) };
    ensure!(t.name == trim_crud(f[3].as_bytes()), "wrong-content", "tagger name {} but git says {}", show(&t.name), f[3]);
    ensure!(t.email == f[4].as_bytes(), "wrong-content", "tagger email {} but git says {}", show(&t.email), f[4]);
    let date = format!("{} {}", String::from_utf8_lossy(&t.time.unwrap_or_default()), String::from_utf8_lossy(&t.zone.unwrap_or_default()));
    ensure!(date == f[5], "wrong-content", "tagger date {date} but git says {}", f[5]);
    ensure!(message.as_deref() == at.map(|a| &raw[a..]), "wrong-content", "message {:?} but git stored {}", message.as_deref().map(show), show(&raw));
    ctx.label("tag made by git");
    ctx.nontrivial(c.kind != Kind::Commit || c.message.contains('\n'));
    Ok(())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        title: "Tags are decoded exactly",
        level: "exploration",
        rule: "1-4 generated tags per case, stored loose, by write_object, whole in a pack or as a delta; every accessor is compared with the generated structure, twice; non-trivial: a target other than a commit, no tagger, no message or a message of several lines",
        assumptions: &["identities in this check carry no padding (C11 varies it)"],
        arms: vec![
            arm("generated", 14_000, 500_000, cases(tag()), tags),
            arm("long", 500, 20_000, cases(long_tag()), tags),
            list_arm("huge", huge_tags(), tags),
            arm(
                "made-by-git",
                40,
                1_000,
                (kind(), "[a-z][a-z0-9._-]{0,6}[a-z0-9]", "[A-Z0-9][a-z0-9]{0,5}( [A-Z0-9][a-z0-9]{1,5})?", "[ -~\n]{1,60}")
                    .prop_map(|(kind, name, who, message)| GitTag { kind, name, who, message }),
                git_tags,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Idents {
    ids: Vec<Ident>,
    order: u8,
}

fn idents(c: &Idents, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let repo = open(&dir)?;
    for (k, i) in c.ids.iter().enumerate() {
        let other = c.ids[(k + 1) % c.ids.len()].clone();
        let o = match (c.order as usize + k) % 3 {
            0 => Obj::Commit(CommitSpec {
                tree: [7; 20],
                parents: vec![],
                author: i.clone(),
                extra_authors: if c.order % 5 == 0 { vec![other.clone()] } else { vec![] },
                committer: other,
                headers: vec![],
                encoding: None,
                message: Data::Raw(format!("message {k}").into_bytes()),
            }),
            1 => Obj::Commit(CommitSpec {
                tree: [7; 20],
                parents: vec![[9; 20]],
                author: other,
                extra_authors: vec![],
                committer: i.clone(),
                headers: vec![],
                encoding: None,
                message: Data::Raw(vec![]),
            }),
            _ => Obj::Tag(TagSpec {
                object: [7; 20],
                kind: Kind::Commit,
                name: format!("t{k}").into_bytes(),
                tagger: Some(i.clone()),
                headers: vec![],
                message: Some(Data::Raw(b"m\n".to_vec())),
            }),
        };
        let m = o.made();
        put_loose(&g, &m, 1)?;
        expect_object(repo.object_database(), &m, "identity")?;
        let digit = |v: &Vec<u8>| v.first().map_or(false, |b| b.is_ascii_digit()) || v.last().map_or(false, |b| b.is_ascii_digit());
        let padded = [&i.name[0], &i.name[2], &i.email[0], &i.email[2]].iter().any(|v| !v.is_empty());
        let utf = |v: &Vec<u8>| std::str::from_utf8(v).is_ok();
        ctx.label_if(padded, "padding to drop");
        ctx.label_if(digit(&i.name[1]) || digit(&i.email[1]), "digit at an edge");
        ctx.label_if(!utf(&i.name[1]) || !utf(&i.email[1]), "not UTF-8");
        ctx.label_if(i.name[1].is_empty() || i.email[1].is_empty(), "empty name or email");
        ctx.label_if(i.time.is_none(), "no timestamp");
        ctx.label_if(i.time.is_some() && i.zone.is_none(), "no time zone");
        ctx.add("identities", 1);
        ctx.nontrivial(padded || digit(&i.name[1]) || digit(&i.email[1]) || !utf(&i.name[1]) || !utf(&i.email[1]) || i.zone.is_none());
    }
    Ok(())
}

/// Every byte at the start, in the middle and at the end of names and emails.
fn edge_bytes() -> Vec<Idents> {
    let mut v = vec![];
    for b in 1u8..=255 {
        if matches!(b, b'\n') {
            continue;
        }
        let mut ids = vec![];
        for pos in 0..3 {
            for field in 0..2 {
                let mut parts: [Vec<u8>; 3] = [vec![], b"xyz".to_vec(), vec![]];
                if is_crud(b) {
                    match pos {
                        0 => parts[0] = vec![b],
                        1 if b != b'<' && b != b'>' => parts[1] = vec![b'x', b, b'z'],
                        1 => continue,
                        _ if b == b'<' && field == 1 => continue,
                        _ => parts[2] = vec![b],
                    }
                } else {
                    parts[1] = match pos {
                        0 => vec![b, b'y'],
                        1 => vec![b'x', b, b'z'],
                        _ => vec![b'y', b],
                    };
                }
                let mut i = simple_ident();
                if field == 0 {
                    i.name = parts;
                } else {
                    i.email = parts;
                }
                ids.push(i);
            }
        }
        v.push(Idents { ids, order: b });
    }
    v
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        title: "Author, committer and tagger identities are reported exactly",
        level: "exploration",
        rule: "1-6 generated identities per case, each as author, committer or tagger of a stored object, compared with the core the generator put between the padding; plus every byte value at the start, inside and at the end of names and emails; non-trivial: padding, a digit at an edge, bytes that are not UTF-8, or an absent timestamp or zone",
        assumptions: &["an identity line is name, space, '<', email, '>' and optionally a decimal time and a signed zone, as git writes it"],
        arms: vec![
            list_arm("every-byte", edge_bytes(), idents),
            arm("generated", 16_000, 600_000, (vec(ident(), 1..7), any::<u8>()).prop_map(|(ids, order)| Idents { ids, order }), idents),
            arm("long", 500, 20_000, long_idents(), idents),
            list_arm("huge", huge_idents(), idents),
        ],
    }
}
