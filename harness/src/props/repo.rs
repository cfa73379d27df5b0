//! Repositories as a whole: opening (C22), and what operations leave behind (C23).
use super::refs::{chdir, component, spelled};
use super::*;
use crate::store::*;
use crate::sys::{self, Act, Call, Plan};
use crate::{bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use rusty_git::repository::{OpenError, Repository};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt};
use std::path::PathBuf;

// ---------------------------------------------------------------- snapshots

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FileState {
    pub kind: char,
    pub mode: u32,
    pub content: Vec<u8>,
    pub mtime: (i64, i64),
    pub inode: u64,
}

/// Every file and directory below `dir`.
pub fn snapshot(dir: &Path) -> Res<BTreeMap<PathBuf, FileState>> {
    fn walk(base: &Path, dir: &Path, out: &mut BTreeMap<PathBuf, FileState>) -> std::io::Result<()> {
        for e in std::fs::read_dir(dir)? {
            let e = e?;
            let p = e.path();
            let m = std::fs::symlink_metadata(&p)?;
            let (kind, content) = if m.is_dir() {
                ('d', vec![])
            } else if m.file_type().is_symlink() {
                ('l', std::fs::read_link(&p)?.into_os_string().into_vec())
            } else {
                ('f', std::fs::read(&p)?)
            };
            let state = FileState {
                kind,
                mode: m.mode(),
                content,
                // a directory's time changes with its entries, which are compared anyway
                mtime: if m.is_dir() { (0, 0) } else { (m.mtime(), m.mtime_nsec()) },
                inode: m.ino(),
            };
            out.insert(p.strip_prefix(base).unwrap().to_path_buf(), state);
            if m.is_dir() {
                walk(base, &p, out)?;
            }
        }
        Ok(())
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out)?;
    Ok(out)
}

/// The first difference, in words.
fn changed(a: &BTreeMap<PathBuf, FileState>, b: &BTreeMap<PathBuf, FileState>) -> Option<String> {
    for (p, s) in a {
        match b.get(p) {
            None => return Some(format!("{} was removed", p.display())),
            Some(t) if t != s => {
                let what = if t.content != s.content {
                    format!("content {} instead of {}", show(&t.content), show(&s.content))
                } else if t.mode != s.mode {
                    "its mode".into()
                } else if t.mtime != s.mtime {
                    "its modification time".into()
                } else {
                    "it was replaced".into()
                };
                return Some(format!("{} was altered: {what}", p.display()));
            }
            _ => (),
        }
    }
    b.keys().find(|p| !a.contains_key(*p)).map(|p| format!("{} was created", p.display()))
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Git {
    Full,
    /// A .git directory with nothing in it.
    Bare,
    /// Some of the usual contents are missing or are something else.
    Partial(u8, u8),
    /// .git is a file, as in a worktree or submodule.
    File(u8),
    Missing,
    DanglingLink,
    /// .git is a link to a directory elsewhere
    Link(bool),
    LinkToFile,
    /// The directory itself looks like a .git directory.
    BareRepository,
    /// .git spelled differently
    OtherName(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Site {
    /// where: a directory inside the previous site, or beside it
    nested: bool,
    name: Vec<u8>,
    git: Git,
    objects: Vec<(u8, bool)>,
    refs: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Target {
    Site(u8),
    GitDir(u8),
    Below(u8, Vec<u8>),
    BelowFile(u8),
    Missing(Vec<u8>),
    File,
    LinkToSite(u8),
    Base,
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Opens {
    sites: Vec<Site>,
    opens: Vec<(Target, u8)>,
    env: bool,
}

fn git_kind() -> BoxedStrategy<Git> {
    prop_oneof![
        8 => Just(Git::Full),
        2 => Just(Git::Bare),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Git::Partial(a, b)),
        2 => any::<u8>().prop_map(Git::File),
        2 => Just(Git::Missing),
        1 => Just(Git::DanglingLink),
        1 => any::<bool>().prop_map(Git::Link),
        1 => Just(Git::LinkToFile),
        1 => Just(Git::BareRepository),
        1 => any::<u8>().prop_map(Git::OtherName),
    ]
    .boxed()
}

fn opens() -> BoxedStrategy<Opens> {
    let site = (any::<bool>(), component(), git_kind(), vec((any::<u8>(), any::<bool>()), 0..4), any::<u8>())
        .prop_map(|(nested, name, git, objects, refs)| Site { nested, name, git, objects, refs });
    let target = prop_oneof![
        10 => any::<u8>().prop_map(Target::Site),
        1 => any::<u8>().prop_map(Target::GitDir),
        2 => (any::<u8>(), component()).prop_map(|(s, c)| Target::Below(s, c)),
        1 => any::<u8>().prop_map(Target::BelowFile),
        1 => component().prop_map(Target::Missing),
        1 => Just(Target::File),
        2 => any::<u8>().prop_map(Target::LinkToSite),
        1 => Just(Target::Base),
        1 => Just(Target::Empty),
    ];
    (vec(site, 1..5), vec((target, any::<u8>()), 1..6), proptest::bool::weighted(0.3))
        .prop_map(|(sites, opens, env)| Opens { sites, opens, env })
        .boxed()
}

struct Built {
    dir: PathBuf,
    /// a repository: its objects and references
    repo: Option<(BTreeSet<usize>, BTreeMap<Vec<u8>, usize>)>,
    readable: bool,
}

fn build_sites(o: &Opens, base: &Path, pool: &[Made]) -> Res<Vec<Built>> {
    let mut out: Vec<Built> = vec![];
    for (i, s) in o.sites.iter().enumerate() {
        let parent = match (s.nested, out.last()) {
            (true, Some(b)) => b.dir.clone(),
            _ => base.to_path_buf(),
        };
        let name = [format!("s{i}-").as_bytes(), &s.name].concat();
        let dir = parent.join(OsStr::from_bytes(&name));
        std::fs::create_dir_all(&dir)?;
        std::fs::write(dir.join("a file"), b"some file")?;
        let g = dir.join(".git");
        let fill = |g: &Path| -> Res<(BTreeSet<usize>, BTreeMap<Vec<u8>, usize>)> {
            let mut objs = BTreeSet::new();
            for (k, packed) in &s.objects {
                let k = *k as usize % pool.len();
                let m = &pool[k];
                if *packed {
                    let pack = build_pack(2, &[PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr: Repr::Whole, level: 6, gap: 0, pad: 0 }]);
                    put_pack(g, &pack.bytes, &idx_for(&pack, &[m.id], 2, None), &pack.sum)?;
                } else {
                    put_loose(g, m, 6)?;
                }
                objs.insert(k);
            }
            let mut refs = BTreeMap::new();
            for b in 0..3 {
                if s.refs >> b & 1 == 1 {
                    let k = (s.refs as usize + b) % pool.len();
                    std::fs::write(g.join(format!("refs/heads/b{b}")), format!("{}\n", hex(&pool[k].id)))?;
                    refs.insert(format!("refs/heads/b{b}").into_bytes(), k);
                }
            }
            Ok((objs, refs))
        };
        let mut b = Built { dir: dir.clone(), repo: None, readable: true };
        match &s.git {
            Git::Full => {
                init_repo(&dir)?;
                b.repo = Some(fill(&g)?);
            }
            Git::Bare => {
                std::fs::create_dir(&g)?;
                b.repo = Some(Default::default());
            }
            Git::Partial(what, how) => {
                init_repo(&dir)?;
                let p = g.join(["HEAD", "config", "objects", "refs", "objects/pack", "objects/info", "refs/heads"][*what as usize % 7]);
                if p.is_dir() {
                    std::fs::remove_dir_all(&p)?;
                } else {
                    std::fs::remove_file(&p)?;
                }
                match how % 4 {
                    0 | 1 => (),
                    2 => std::fs::write(&p, b"something else")?,
                    _ => std::fs::create_dir(&p)?,
                }
                b.repo = Some(Default::default());
                // what reading then gives is not specified
                b.readable = how % 4 < 2;
            }
            Git::File(k) => {
                let to = out.last().map(|b: &Built| b.dir.join(".git")).unwrap_or_else(|| base.join("elsewhere"));
                match k % 3 {
                    0 => std::fs::write(&g, format!("gitdir: {}\n", to.display()))?,
                    1 => std::fs::write(&g, b"")?,
                    _ => std::fs::write(&g, b"ref: refs/heads/master\n")?,
                }
            }
            Git::Missing => (),
            Git::Link(relative) => {
                init_repo(&dir)?;
                b.repo = Some(fill(&g)?);
                std::fs::rename(&g, dir.join("kept elsewhere"))?;
                if *relative {
                    symlink("kept elsewhere", &g)?;
                } else {
                    symlink(dir.join("kept elsewhere"), &g)?;
                }
            }
            Git::DanglingLink => symlink("nowhere", &g)?,
            Git::LinkToFile => symlink("a file", &g)?,
            Git::BareRepository => {
                // the same layout one level up
                let t = ctx_tmp(&dir)?;
                let g = init_repo(&t)?;
                fill(&g)?;
                for e in std::fs::read_dir(&g)? {
                    let e = e?;
                    std::fs::rename(e.path(), dir.join(e.file_name()))?;
                }
                std::fs::remove_dir_all(&t)?;
            }
            Git::OtherName(k) => {
                let t = ctx_tmp(&dir)?;
                let g = init_repo(&t)?;
                fill(&g)?;
                std::fs::rename(&g, dir.join([".GIT", "git", ".git ", ".gitx", "_git", ".git.bak"][*k as usize % 6]))?;
                std::fs::remove_dir_all(&t)?;
            }
        }
        out.push(b);
    }
    Ok(out)
}

fn ctx_tmp(dir: &Path) -> Res<PathBuf> {
    let t = dir.join("tmp-layout");
    std::fs::create_dir(&t)?;
    Ok(t)
}

fn run_open(o: &Opens, ctx: &mut Ctx) -> Res {
    let base = ctx.sub("base")?.canonicalize()?;
    let pool: Vec<Made> = (0..6u8).map(|i| blob_made(vec![b'a' + i; 10 + i as usize])).collect();
    let sites = build_sites(o, &base, &pool)?;
    std::fs::write(base.join("plain"), b"plain")?;
    std::fs::create_dir(base.join("vacant"))?;
    for (i, s) in sites.iter().enumerate() {
        symlink(&s.dir, base.join(format!("link{i}")))?;
    }
    struct Env;
    impl Drop for Env {
        fn drop(&mut self) {
            for v in ["GIT_DIR", "GIT_OBJECT_DIRECTORY", "GIT_WORK_TREE"] {
                std::env::remove_var(v);
            }
        }
    }
    let _env = Env;
    if o.env {
        let other = &sites[sites.len() - 1].dir;
        std::env::set_var("GIT_DIR", other.join(".git"));
        std::env::set_var("GIT_OBJECT_DIRECTORY", other.join(".git/objects"));
        std::env::set_var("GIT_WORK_TREE", other);
    }
    let before = snapshot(&base)?;
    for (t, spelling) in &o.opens {
        // the directory meant, and the site expected to be found there
        let (dir, site): (PathBuf, Option<usize>) = match t {
            Target::Site(k) => {
                let k = *k as usize % sites.len();
                (sites[k].dir.clone(), Some(k))
            }
            Target::GitDir(k) => (sites[*k as usize % sites.len()].dir.join(".git"), None),
            Target::Below(k, c) => (sites[*k as usize % sites.len()].dir.join(OsStr::from_bytes(c)), None),
            Target::BelowFile(k) => (sites[*k as usize % sites.len()].dir.join("a file"), None),
            Target::Missing(c) => (base.join("none").join(OsStr::from_bytes(c)), None),
            Target::File => (base.join("plain"), None),
            Target::LinkToSite(k) => {
                let k = *k as usize % sites.len();
                (base.join(format!("link{k}")), Some(k))
            }
            Target::Base => (base.clone(), None),
            Target::Empty => (base.join("vacant"), None),
        };
        // (the parent of a link is not the parent of what it leads to)
        let link = matches!(t, Target::LinkToSite(_));
        let (path, cwd) = if dir.is_dir() && !(link && spelling % 10 == 6) { spelled(&dir, *spelling) } else { (dir.clone(), None) };
        let _cwd = chdir(&cwd)?;
        let shown = path.display().to_string();
        let got = guard(&format!("Repository::open({shown})"), || Repository::open(path.clone()))?;
        let is_repo = site.map_or(false, |k| sites[k].repo.is_some());
        match (got, is_repo) {
            (Ok(_), false) => bad!("opened", "opening {shown} ({t:?}) succeeded although there is no .git directory in it"),
            (Err(e), true) => bad!("open-failed", "opening {shown} ({t:?}) failed although it has a .git directory: {}", err_text(&e)),
            (Err(OpenError::NotFound(p)), false) => {
                ensure!(p == path, "wrong-path", "opening {shown} reports {} as not found", p.display());
                ctx.label("not found");
            }
            (Err(e), false) => bad!("wrong-error", "opening {shown} ({t:?}) should be reported as not found but gave: {}", err_text(&e)),
            (Ok(repo), true) => {
                let k = site.unwrap();
                ctx.label("opened");
                ctx.label_if(matches!(o.sites[k].git, Git::Bare | Git::Partial(..)), "opened an incomplete repository");
                ctx.label_if(*spelling % 10 > 3, "path in another spelling");
                // a relative path names the directory it led to when the repository was opened
                let moved = match spelling / 10 % 4 {
                    0 => None,
                    1 => Some(PathBuf::from("/")),
                    2 => Some(base.join("vacant")),
                    _ => Some(sites[(k + 1 + *spelling as usize / 40) % sites.len()].dir.clone()).filter(|d| d.is_dir()),
                };
                let _moved = match moved {
                    Some(d) => {
                        ctx.label_if(path.is_relative(), "working directory changed after opening a relative path");
                        Some(chdir(&Some(d))?)
                    }
                    None => None,
                };
                if sites[k].readable {
                    contents(&repo, &sites[k], &pool, &shown)?;
                } else {
                    any_answer(&repo, &pool)?;
                }
                ctx.nontrivial(sites.len() > 1);
            }
        }
    }
    if let Some(c) = changed(&before, &snapshot(&base)?) {
        bad!("changed", "opening and reading changed the repositories: {c}");
    }
    Ok(())
}

fn contents(repo: &Repository, b: &Built, pool: &[Made], shown: &str) -> Res {
    let (objs, refs) = b.repo.as_ref().unwrap();
    let what = format!("through {shown}");
    for (k, m) in pool.iter().enumerate() {
        if objs.contains(&k) {
            expect_object(repo.object_database(), m, &what)?;
        } else {
            expect_absent(repo.object_database(), &m.id, &what)?;
        }
    }
    let names = guard("reference_names", || repo.reference_database().reference_names())?;
    match names {
        Ok(mut n) => {
            n.sort();
            ensure!(n == refs.keys().cloned().collect::<Vec<_>>(), "wrong-refs", "{what}: {} references are listed instead of {}", n.len(), refs.len());
        }
        Err(e) => bad!("list-error", "{what}: listing references failed: {}", err_text(&e)),
    }
    for b in 0..3 {
        let n = format!("refs/heads/b{b}").into_bytes();
        let got = guard("reference", || repo.reference_database().reference(&n).and_then(|r| r.peel(repo)))?;
        match (refs.get(&n), got) {
            (Some(k), Ok(o)) => ensure!(oid_of(o.id()) == pool[*k].id, "wrong-ref", "{what}: branch b{b} leads to another object"),
            (Some(k), Err(e)) => ensure!(!objs.contains(k), "ref-error", "{what}: branch b{b} cannot be resolved: {}", err_text(&e)),
            (None, Ok(_)) => bad!("wrong-ref", "{what}: branch b{b} is not in this repository"),
            (None, Err(_)) => (),
        }
    }
    Ok(())
}

fn any_answer(repo: &Repository, pool: &[Made]) -> Res {
    for m in pool.iter().take(2) {
        lookup(repo.object_database(), &m.id)?;
    }
    let _ = guard("reference_names", || repo.reference_database().reference_names())?;
    let _ = guard("head", || repo.reference_database().head().map(|_| ()))?;
    Ok(())
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        title: "Opening recognises exactly the directories that hold a repository",
        level: "exploration",
        rule: "a case is a set of nested and neighbouring directories (complete, empty and incomplete .git directories, .git files, links, bare layouts, similar names) with different objects and references, opened by paths in different spellings, some with GIT_DIR set, some with the working directory changed afterwards; opening must succeed exactly for those with a .git directory, each handle must show exactly its own repository's objects and references, and nothing on disk may change; non-trivial: a repository opened with others around it",
        assumptions: &["a .git that is a symbolic link to a directory is not judged"],
        arms: vec![arm("open", 12_000, 400_000, opens(), run_open)],
    }
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Parse(u8),
    Stream(u8, u16),
    Absent(Oid),
    Write(u8),
    WriteBytes(Data),
    /// A write that fails at some call: which of its mutating calls, how
    FailingWrite { what: u8, at: u8, how: u8 },
    /// A write that cannot succeed because something is in the way
    BlockedWrite { what: u8, how: u8 },
    List(u8),
    Ref(u8),
    Head,
    Missing(Vec<u8>),
    Reopen,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Life {
    loose: Vec<Obj>,
    pack: Option<PackSpec>,
    fresh: Vec<Obj>,
    /// damage to files: which, where, how
    damage: Vec<(u16, u16, u8)>,
    steps: Vec<Step>,
    modes: u8,
    /// usual contents of the repository that are missing
    lack: u8,
    /// files that other programs leave in a repository
    extra: Vec<(u8, u8)>,
}

/// Files that other programs keep, or forget, in a repository.
const EXTRA: [&str; 20] = [
    "HEAD.lock",
    "index",
    "index.lock",
    "packed-refs",
    "packed-refs.lock",
    "refs/heads/r0.lock",
    "FETCH_HEAD",
    "gc.pid",
    "shallow",
    "logs/HEAD",
    "objects/tmp_obj_aB3xYz",
    "objects/5a/tmp_obj_Zz09aa",
    "objects/info/packs",
    "objects/info/commit-graph",
    "objects/pack/tmp_pack_QwErTy",
    "objects/pack/tmp_idx_QwErTy",
    "objects/pack/pack-0000000000000000000000000000000000000001.keep",
    "objects/pack/pack-0000000000000000000000000000000000000002.pack",
    "objects/pack/pack-0000000000000000000000000000000000000003.idx",
    "objects/5a/0000000000000000000000000000000000005a.tmp",
];

fn life() -> BoxedStrategy<Life> {
    let step = prop_oneof![
        3 => any::<u8>().prop_map(Step::Parse),
        2 => (any::<u8>(), prop_oneof![Just(0u16), 1u16..3000]).prop_map(|(a, b)| Step::Stream(a, b)),
        1 => oid().prop_map(Step::Absent),
        4 => any::<u8>().prop_map(Step::Write),
        1 => data_upto(20_000).prop_map(Step::WriteBytes),
        4 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(what, at, how)| Step::FailingWrite { what, at, how }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(what, how)| Step::BlockedWrite { what, how }),
        2 => any::<u8>().prop_map(Step::List),
        2 => any::<u8>().prop_map(Step::Ref),
        1 => Just(Step::Head),
        1 => component().prop_map(Step::Missing),
        1 => Just(Step::Reopen),
    ];
    (
        vec(small_obj(), 0..4),
        proptest::option::of(pack_spec(small_obj(), 4)),
        vec(prop_oneof![3 => small_obj(), 1 => obj(60_000)], 1..4),
        prop_oneof![2 => Just(vec![]), 1 => vec((any::<u16>(), any::<u16>(), any::<u8>()), 1..3)],
        vec(step, 1..10),
        any::<u8>(),
        prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
        prop_oneof![2 => Just(vec![]), 1 => vec((any::<u8>(), any::<u8>()), 1..5)],
    )
        .prop_map(|(loose, pack, fresh, damage, steps, modes, lack, extra)| Life { loose, pack, fresh, damage, steps, modes, lack, extra })
        .boxed()
}

fn run_life(l: &Life, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let dotgit = init_repo(&dir)?;
    let mut objs: Vec<Made> = l.loose.iter().map(|o| o.made()).collect();
    for (i, m) in objs.iter().enumerate() {
        put_loose(&dotgit, m, (i % 10) as u8)?;
    }
    if let Some(p) = &l.pack {
        let b = p.build();
        b.put(&dotgit)?;
        objs.extend(b.made.iter().cloned());
    }
    let mut refs = vec![];
    for (i, m) in objs.iter().take(3).enumerate() {
        let n = format!("refs/{}/r{i}", ["heads", "tags", "heads/deep"][i]).into_bytes();
        let p = dotgit.join(OsStr::from_bytes(&n));
        std::fs::create_dir_all(p.parent().unwrap())?;
        std::fs::write(p, format!("{}\n", hex(&m.id)))?;
        refs.push(n);
    }
    std::fs::write(dotgit.join("refs/heads/sym"), b"ref: refs/heads/r0\n")?;
    refs.push(b"refs/heads/sym".to_vec());
    std::fs::write(dotgit.join("refs/heads/cycle"), b"ref: refs/heads/cycle\n")?;
    refs.push(b"refs/heads/cycle".to_vec());
    std::fs::write(dotgit.join("refs/heads/bad"), b"nothing\n")?;
    refs.push(b"refs/heads/bad".to_vec());
    std::fs::write(dir.join("worktree file"), b"untouched")?;
    // Damage some storage files: failing lookups must not change anything either.
    let mut files: Vec<PathBuf> = snapshot(&dotgit.join("objects"))?.into_iter().filter(|(_, s)| s.kind == 'f').map(|(p, _)| dotgit.join("objects").join(p)).collect();
    files.sort();
    for (which, at, how) in &l.damage {
        if files.is_empty() {
            break;
        }
        let f = &files[*which as usize % files.len()];
        let mut b = std::fs::read(f)?;
        match how % 3 {
            0 if !b.is_empty() => {
                let k = *at as usize % b.len();
                b[k] ^= how | 1;
            }
            1 => b.truncate(*at as usize % (b.len() + 1)),
            _ => b.extend_from_slice(b"junk"),
        }
        std::fs::write(f, b)?;
    }
    // git stores objects read-only
    if l.modes & 1 == 1 {
        use std::os::unix::fs::PermissionsExt;
        for f in &files {
            std::fs::set_permissions(f, std::fs::Permissions::from_mode(0o444))?;
        }
    }
    for (i, p) in ["objects/pack", "objects/info", "refs/tags", "refs/heads/deep", "HEAD", "config", "branches", "hooks"].iter().enumerate() {
        let p = dotgit.join(p);
        // only what holds nothing of the repository
        if l.lack >> i & 1 == 1 {
            if p.is_dir() {
                let _ = std::fs::remove_dir(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
    for (which, kind) in &l.extra {
        let p = dotgit.join(EXTRA[*which as usize % EXTRA.len()]);
        if p.exists() || std::fs::create_dir_all(p.parent().unwrap()).is_err() {
            continue;
        }
        let content: &[u8] = match kind % 4 {
            0 => b"",
            1 => b"junk of some other program\n",
            2 => &[0u8; 600],
            _ => b"0000000000000000000000000000000000000000 refs/heads/x\n",
        };
        std::fs::write(&p, content)?;
        if kind & 4 == 0 {
            // left behind long ago
            let f = std::fs::OpenOptions::new().write(true).open(&p)?;
            f.set_times(std::fs::FileTimes::new().set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000)))?;
        }
        ctx.label("files of other programs");
    }
    let fresh: Vec<Made> = l.fresh.iter().map(|o| o.made()).collect();
    let all: Vec<&Made> = objs.iter().chain(fresh.iter()).collect();
    let mut before = snapshot(&dir)?;
    let mut repo = open(&dir)?;
    if let Some(c) = changed(&before, &snapshot(&dir)?) {
        bad!("changed", "opening the repository changed it: {c}");
    }
    let (mut wrote, mut failed) = (0, 0);
    for (k, step) in l.steps.iter().enumerate() {
        let at = format!("step {k} ({step:?})");
        let db = repo.object_database();
        let rdb = repo.reference_database();
        let mut writing: Option<(Vec<u8>, Result<Oid, String>, bool)> = None;
        match step {
            Step::Parse(i) => {
                lookup(db, &all[*i as usize % all.len()].id)?;
            }
            Step::Stream(i, piece) => {
                stream(db, &all[*i as usize % all.len()].id, *piece as usize)?;
            }
            Step::Absent(id) => {
                lookup(db, id)?;
                stream(db, id, 0)?;
            }
            Step::Write(i) => {
                let m = all[*i as usize % all.len()];
                let b = framed(m.kind, &m.bytes);
                let r = write(db, &b)?;
                writing = Some((b, r, true));
            }
            Step::WriteBytes(d) => {
                let b = d.bytes();
                let r = write(db, &b)?;
                writing = Some((b, r, true));
            }
            Step::FailingWrite { what, at, how } => {
                let m = all[*what as usize % all.len()];
                let b = framed(m.kind, &m.bytes);
                let e = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EDQUOT][*how as usize / 2 % 4];
                let act = if how % 2 == 0 { Act::Fail(e) } else { Act::ShortThenFail(e) };
                let plan = Plan { mutating: true, at: Some(*at as u64 % 9), act, ..Plan::default() };
                let (r, plan) = sys::with_plan(plan, || write(db, &b));
                let r = r?;
                failed += r.is_err() as u64;
                // the clean-up after another failure cannot be asked to succeed if it fails itself
                let forgiven = matches!(plan.fired_on, Some(Call::Unlink | Call::Rmdir));
                writing = Some((b, r, !forgiven));
            }
            Step::BlockedWrite { what, how } => {
                let m = all[*what as usize % all.len()];
                let p = loose_path(&dotgit, &m.id);
                let blocked = match how % 2 {
                    // a file where the fan-out directory belongs
                    0 if !p.parent().unwrap().exists() => {
                        std::fs::write(p.parent().unwrap(), b"in the way")?;
                        true
                    }
                    // a directory where the object belongs: neither written nor damaged
                    _ if !p.exists() => {
                        std::fs::create_dir_all(p.join("in the way"))?;
                        true
                    }
                    _ => false,
                };
                if blocked {
                    before = snapshot(&dir)?;
                    let r = write(db, &framed(m.kind, &m.bytes))?;
                    failed += r.is_err() as u64;
                    if let Some(c) = changed(&strip_times(&before), &strip_times(&snapshot(&dir)?)) {
                        bad!("changed", "{at}: a write that is blocked changed the repository: {c}");
                    }
                    if p.is_dir() {
                        std::fs::remove_dir_all(&p)?;
                    } else {
                        std::fs::remove_file(p.parent().unwrap())?;
                    }
                }
                before = snapshot(&dir)?;
            }
            Step::List(i) => {
                let _ = guard("listing", || match i % 4 {
                    0 => rdb.reference_names(),
                    1 => rdb.head_reference_names(),
                    2 => rdb.tag_reference_names(),
                    _ => rdb.remote_reference_names(),
                })?;
            }
            Step::Ref(i) if !refs.is_empty() => {
                let n = &refs[*i as usize % refs.len()];
                let _ = guard("reference", || rdb.reference(n).and_then(|r| r.peel(&repo)).map(|_| ()))?;
            }
            Step::Ref(_) => (),
            Step::Head => {
                let _ = guard("head", || rdb.head().and_then(|r| r.peel(&repo)).map(|_| ()))?;
            }
            Step::Missing(c) => {
                let n = [b"refs/heads/none/", &c[..]].concat();
                let _ = guard("reference", || rdb.parse_reference(&n).map(|_| ()))?;
            }
            Step::Reopen => repo = open(&dir)?,
        }
        let after = snapshot(&dir)?;
        match writing {
            None => {
                if let Some(c) = changed(&before, &after) {
                    bad!("changed", "{at} changed the repository: {c}");
                }
            }
            Some((bytes, r, judge)) => {
                let id = sha1(&bytes);
                let file = loose_path(Path::new(".git"), &id);
                let (a, mut b) = (strip_times(&before), strip_times(&after));
                // a fan-out directory may appear
                if !a.contains_key(file.parent().unwrap()) {
                    b.remove(file.parent().unwrap());
                }
                let new = if a.contains_key(&file) { None } else { b.remove(&file) };
                if judge {
                    if let Some(c) = changed(&a, &b) {
                        let sig = if r.is_err() { "failed-write-changed" } else { "changed" };
                        bad!(sig, "{at} (result {r:?}) changed something else: {c}");
                    }
                }
                match (&r, new) {
                    (Ok(_), Some(f)) => {
                        ensure!(inflate(&f.content).as_deref() == Some(&bytes[..]), "bad-file", "{at}: the new file does not hold the object");
                        wrote += 1;
                    }
                    (Err(_), Some(f)) => {
                        // a failed write may still have stored the whole object
                        ensure!(inflate(&f.content).as_deref() == Some(&bytes[..]), "bad-file", "{at}: a failed write left a file that does not hold the object");
                    }
                    _ => (),
                }
            }
        }
        before = after;
    }
    ctx.add("objects written", wrote);
    ctx.add("failed writes", failed);
    ctx.label_if(!l.damage.is_empty(), "damaged storage");
    ctx.label_if(l.lack != 0, "incomplete repository");
    ctx.nontrivial(wrote > 0 || failed > 0 || !l.damage.is_empty());
    Ok(())
}

fn strip_times(s: &BTreeMap<PathBuf, FileState>) -> BTreeMap<PathBuf, FileState> {
    s.iter()
        .map(|(p, f)| (p.clone(), FileState { mtime: (0, 0), ..f.clone() }))
        .collect()
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        title: "Reading changes nothing; writing an object adds only that object",
        level: "exploration",
        rule: "a case is a repository (loose and packed objects, references, some files damaged or read-only, some of the usual contents missing, some files of other programs present) and a history of lookups, listings, resolutions, writes, writes that fail at a chosen system call and blocked writes, with every file and directory compared before and after each step (content, mode, inode, and for reads the modification time); non-trivial: something was written, a write failed, or storage was damaged",
        assumptions: &["an empty fan-out directory (objects/xx) may remain after a failed write", "when removing the temporary file is itself the call that fails, it may remain"],
        arms: vec![arm("life", 12_000, 400_000, life(), run_life)],
    }
}
