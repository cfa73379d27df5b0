//! References: decoding (C14), resolution (C15), listing (C16), containment (C17).
use super::*;
use crate::store::*;
use crate::sys::{self, Plan};
use crate::{bad, ensure, git};
use proptest::collection::vec;
use proptest::prelude::*;
use rusty_git::reference::{Direct, Error as RefError, Reference, ReferenceDatabase, ReferenceTarget, Symbolic};
use rusty_git::repository::Repository;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::io::{self, Read};
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;

// ---------------------------------------------------------------- names

/// One component of a reference name git allows.
pub fn component() -> BoxedStrategy<Vec<u8>> {
    let plain = "[A-Za-z0-9_+=!$%&'(),;<>|\"`#-]{1,12}".prop_map(|s| s.into_bytes());
    let uni = "[a-zé漢😀\u{a0}\u{3000}\u{85}\u{2028}]{1,6}".prop_map(|s| s.into_bytes());
    let high = vec(prop_oneof![0x80u8..=0xff, b'a'..=b'z'], 1..8);
    let fixed = prop::sample::select(vec![
        "heads", "tags", "remotes", "HEAD", "master", "lock", "locks", "a.lockx", "lock.a", "refs", "v1.0", "v1.0.0-rc1", "0", "ref:", "origin",
        "da1a5d18c0ab0c03b20fdd91581bc90acd10d512", "feature.x", "a@b", "{", "}", "\u{feff}x", "main",
    ])
    .prop_map(|s: &str| s.as_bytes().to_vec());
    let long = (60usize..200, b'a'..=b'z').prop_map(|(n, b)| vec![b; n]);
    prop_oneof![12 => plain, 4 => uni, 4 => high, 6 => fixed, 1 => special_without(b"\0"), 2 => long].prop_map(legal).boxed()
}

/// Make a component one that git accepts (see git-check-ref-format).
fn legal(mut c: Vec<u8>) -> Vec<u8> {
    for b in c.iter_mut() {
        if *b <= 32 || *b == 127 || b"~^:?*[\\/".contains(b) {
            *b = b'x';
        }
    }
    while let Some(i) = c.windows(2).position(|w| w == b".." || w == b"@{") {
        c[i] = b'y';
    }
    if c.is_empty() || c == b"@" {
        c = b"z".to_vec();
    }
    if c[0] == b'.' || c[0] == b'-' {
        c[0] = b'w';
    }
    if c.ends_with(b".") || c.ends_with(b".lock") {
        c.push(b'v');
    }
    c
}

/// Many short components.
fn deep() -> BoxedStrategy<Vec<Vec<u8>>> {
    let short = prop_oneof![3 => b'a'..=b'z', 1 => b'0'..=b'9'].prop_map(|b| vec![b]);
    let long = (150usize..250, b'a'..=b'z').prop_map(|(n, b)| vec![b; n]);
    prop_oneof![3 => vec(short.clone(), 5..40), 1 => vec(short, 40..300), 1 => vec(long, 4..15)].boxed()
}

fn joined(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.join(&b'/')
}

fn under() -> BoxedStrategy<&'static str> {
    prop::sample::select(vec!["refs/heads", "refs/tags", "refs/remotes", "refs/remotes/origin", "refs/notes", "refs"]).boxed()
}

/// A full name, usually below refs/.
fn full_name() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        16 => (under(), vec(component(), 1..4)).prop_map(|(u, c)| [u.as_bytes(), &b"/"[..], &joined(&c)].concat()),
        1 => (under(), deep()).prop_map(|(u, c)| [u.as_bytes(), &b"/"[..], &joined(&c)].concat()),
        2 => vec(component(), 1..3).prop_map(|c| [&b"X"[..], &joined(&c)].concat()),
        2 => prop::sample::select(vec!["HEAD", "ORIG_HEAD", "FETCH_HEAD", "MERGE_HEAD", "refs/stash"]).prop_map(|s: &str| s.as_bytes().to_vec()),
    ]
    .boxed()
}

fn ref_path(dotgit: &Path, name: &[u8]) -> PathBuf {
    dotgit.join(OsStr::from_bytes(name))
}

fn put_ref(dotgit: &Path, name: &[u8], content: &[u8]) -> Res {
    let p = ref_path(dotgit, name);
    std::fs::create_dir_all(p.parent().unwrap())?;
    std::fs::write(p, content)?;
    Ok(())
}

fn text(b: &[u8]) -> String {
    b.escape_ascii().to_string()
}

// ---------------------------------------------------------------- observing references

#[derive(Clone, Debug, PartialEq, Eq)]
enum Dec {
    Direct(Oid),
    Symbolic(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Seen {
    Ok(Dec),
    NotFound,
    Error(String),
}

/// The id of a direct reference shows in the error for an object that is missing.
fn dec(r: &Reference, empty: &Repository) -> Res<Dec> {
    match r.target() {
        ReferenceTarget::Symbolic(s) => {
            let data = s.data().to_vec();
            let name = r.name().map(|s| s.as_bytes().to_vec());
            let want = std::str::from_utf8(&data).ok().map(|s| s.as_bytes().to_vec());
            ensure!(name == want, "wrong-name", "name() is {:?} for the symbolic reference to {}", name.map(|n| text(&n)), text(&data));
            Ok(Dec::Symbolic(data))
        }
        ReferenceTarget::Direct(d) => {
            ensure!(r.name().is_none(), "wrong-name", "a direct reference has the name {:?}", r.name());
            let _ = format!("{r:?}");
            match d.object(empty) {
                Err(RefError::DereferencingFailed(e)) => {
                    let s = e.id().to_string();
                    if s.len() != 40 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
                        bad!("wrong-error-id", "the id of a direct reference is reported as {s:?}");
                    }
                    Ok(Dec::Direct(crate::props::decode::unhex(&s)))
                }
                Err(e) => violation("wrong-error", format!("a direct reference into an empty repository gave: {}", err_text(&e))),
                Ok(_) => violation("phantom", "a direct reference into an empty repository gave an object"),
            }
        }
    }
}

fn seen(what: &str, empty: &Repository, f: impl FnOnce() -> Result<Reference, RefError>) -> Res<Seen> {
    guard(what, || match f() {
        Ok(r) => dec(&r, empty).map(Seen::Ok),
        Err(RefError::ReferenceNotFound) => Ok(Seen::NotFound),
        Err(e) => {
            let _ = format!("{e:?}");
            Ok(Seen::Error(err_text(&e)))
        }
    })?
}

/// A reader that hands out its bytes in arbitrary pieces, now and then interrupted.
struct Pieces<'a> {
    left: &'a [u8],
    rng: u64,
    fail_at_end: bool,
    calm: u8,
}

impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let r = splitmix(&mut self.rng);
        if r % 4 == 0 && self.calm < 3 {
            self.calm += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.calm = 0;
        if self.left.is_empty() && self.fail_at_end {
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        let n = (1 + (r >> 8) as usize % 17).min(buf.len()).min(self.left.len());
        buf[..n].copy_from_slice(&self.left[..n]);
        self.left = &self.left[n..];
        Ok(n)
    }
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pre {
    Blank { spaces: u8, crlf: bool },
    Comment { text: Vec<u8>, crlf: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Body {
    Direct { id: Oid, upper: u64 },
    Symbolic { name: Vec<u8> },
    Nothing,
    EmptySymbolic,
    Short { id: Oid, len: u8 },
    Long { id: Oid, extra: Vec<u8> },
    NonHex { id: Oid, pos: u8, byte: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RefFile {
    pre: Vec<Pre>,
    body: Body,
    tail: Vec<u8>,
    at: Vec<u8>,
    rng: u64,
}

fn hex_case(id: &Oid, upper: u64) -> Vec<u8> {
    let mut h = hex(id).into_bytes();
    for (i, b) in h.iter_mut().enumerate() {
        if upper >> (i % 64) & 1 == 1 {
            *b = b.to_ascii_uppercase();
        }
    }
    h
}

impl RefFile {
    fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        for p in &self.pre {
            let crlf = match p {
                Pre::Blank { spaces, crlf } => {
                    v.extend(std::iter::repeat(b' ').take(*spaces as usize));
                    crlf
                }
                Pre::Comment { text, crlf } => {
                    v.push(b'#');
                    v.extend(text.iter().map(|b| if *b == b'\n' { b'n' } else { *b }));
                    crlf
                }
            };
            v.extend_from_slice(if *crlf { b"\r\n" } else { b"\n" });
        }
        match &self.body {
            Body::Direct { id, upper } => v.extend(hex_case(id, *upper)),
            Body::Symbolic { name } => {
                v.extend_from_slice(b"ref: ");
                v.extend_from_slice(name);
            }
            Body::Nothing => (),
            Body::EmptySymbolic => v.extend_from_slice(b"ref: "),
            Body::Short { id, len } => v.extend_from_slice(&hex(id).as_bytes()[..1 + *len as usize % 39]),
            Body::Long { id, extra } => {
                v.extend_from_slice(hex(id).as_bytes());
                v.extend(extra.iter().map(|b| b"0123456789abcdefABCDEF"[*b as usize % 22]));
            }
            Body::NonHex { id, pos, byte } => {
                let mut h = hex(id).into_bytes();
                h[*pos as usize % 40] = if byte.is_ascii_hexdigit() || b" /\n\r\t\x0c".contains(byte) { b'g' } else { *byte };
                v.extend(h);
            }
        }
        v.extend(self.tail.iter().map(|b| b"\n\r \t\n"[*b as usize % 5]));
        v
    }
    /// How much comes before the reference.
    fn pre_len(&self) -> usize {
        let before = RefFile { body: Body::Nothing, tail: vec![], ..self.clone() };
        before.bytes().len()
    }
    fn expected(&self) -> Option<Dec> {
        match &self.body {
            Body::Direct { id, .. } => Some(Dec::Direct(*id)),
            Body::Symbolic { name } => Some(Dec::Symbolic(name.clone())),
            _ => None,
        }
    }
}

fn pre() -> BoxedStrategy<Pre> {
    let words = prop_oneof![
        vec(any::<u8>(), 0..20),
        Just(b" pack-refs with: peeled fully-peeled sorted".to_vec()),
        Just(b" ref: refs/heads/other".to_vec()),
        Just(b"\rda1a5d18c0ab0c03b20fdd91581bc90acd10d512".to_vec()),
    ];
    prop_oneof![
        (prop_oneof![3 => Just(0u8), 1 => 0u8..5], any::<bool>()).prop_map(|(spaces, crlf)| Pre::Blank { spaces, crlf }),
        (words, any::<bool>()).prop_map(|(text, crlf)| Pre::Comment { text, crlf }),
    ]
    .boxed()
}

fn body() -> BoxedStrategy<Body> {
    prop_oneof![
        6 => (oid(), prop_oneof![2 => Just(0u64), 1 => Just(u64::MAX), 1 => any::<u64>()]).prop_map(|(id, upper)| Body::Direct { id, upper }),
        6 => full_name().prop_map(|name| Body::Symbolic { name }),
        1 => Just(Body::Nothing),
        1 => Just(Body::EmptySymbolic),
        1 => (oid(), any::<u8>()).prop_map(|(id, len)| Body::Short { id, len }),
        1 => (oid(), vec(any::<u8>(), 1..30)).prop_map(|(id, extra)| Body::Long { id, extra }),
        2 => (oid(), any::<u8>(), any::<u8>()).prop_map(|(id, pos, byte)| Body::NonHex { id, pos, byte }),
    ]
    .boxed()
}

fn ref_file() -> BoxedStrategy<RefFile> {
    let tail = prop_oneof![2 => Just(vec![]), 4 => Just(vec![0u8]), 2 => Just(vec![1u8, 0]), 3 => vec(any::<u8>(), 0..7)];
    (prop_oneof![2 => Just(vec![]), 1 => vec(pre(), 1..4)], body(), tail, full_name(), any::<u64>())
        .prop_map(|(pre, body, tail, at, rng)| RefFile { pre, body, tail, at, rng })
        .boxed()
}

/// Decode the same bytes every way there is; all must agree.
fn decode_all(bytes: &[u8], at: &[u8], rng: u64, dir: &Path, empty: &Repository) -> Res<Seen> {
    let mem = seen("Reference::from_bytes", empty, || Reference::from_bytes(bytes))?;
    let piece = seen("Reference::from_reader", empty, || Reference::from_reader(Pieces { left: bytes, rng, fail_at_end: false, calm: 0 }))?;
    let agree = |a: &Seen, b: &Seen| match (a, b) {
        (Seen::Ok(a), Seen::Ok(b)) => a == b,
        (Seen::Ok(_), _) | (_, Seen::Ok(_)) => false,
        _ => true,
    };
    ensure!(agree(&mem, &piece), "disagree", "{} decodes as {mem:?} from memory and as {piece:?} from a reader", text(bytes));
    let failing = seen("Reference::from_reader", empty, || Reference::from_reader(Pieces { left: bytes, rng, fail_at_end: true, calm: 0 }))?;
    ensure!(
        matches!(failing, Seen::Error(_)),
        "read-error-ignored",
        "a reader that fails after {} decodes as {failing:?}",
        text(bytes)
    );
    let dotgit = dir.join(".git");
    let below = [at, b"/f"].concat();
    let at = if ref_path(&dotgit, at).is_dir() { &below } else { at };
    put_ref(&dotgit, at, bytes)?;
    let repo = open(dir)?;
    let db = repo.reference_database();
    let mut ways = vec![
        ("reference", seen("reference", empty, || db.reference(at))?),
        ("parse_reference", seen("parse_reference", empty, || db.parse_reference(at))?),
    ];
    let raw = guard("read_reference_file", || db.read_reference_file(at).map(|mut r| slurp(&mut r)))?;
    match raw {
        Ok(Ok(b)) => ensure!(b == bytes, "wrong-file", "read_reference_file({}) gave {} instead of {}", text(at), text(&b), text(bytes)),
        Ok(Err(e)) => bad!("wrong-file", "reading the reference {} failed: {e}", text(at)),
        Err(e) => bad!("wrong-file", "opening the reference {} failed: {}", text(at), err_text(&e)),
    }
    if at == b"HEAD" {
        ways.push(("head", seen("head", empty, || db.head())?));
        let raw = guard("read_head", || db.read_head().map(|mut r| slurp(&mut r)))?;
        ensure!(matches!(&raw, Ok(Ok(b)) if b == bytes), "wrong-file", "read_head gave something else than {}", text(bytes));
    }
    for (w, s) in ways {
        ensure!(agree(&mem, &s), "disagree", "{} decodes as {mem:?} from memory and as {s:?} from {w}({})", text(bytes), text(at));
    }
    Ok(mem)
}

fn slurp(r: &mut dyn Read) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    r.read_to_end(&mut v).map(|_| v).map_err(|e| e.to_string())
}

/// References made without a file, and comparing references.
fn made_directly(f: &RefFile, bytes: &[u8]) -> Res {
    let file = guard("Reference::from_bytes", || Reference::from_bytes(bytes).ok())?;
    let other = object_id(Kind::Blob, bytes);
    match &f.body {
        Body::Symbolic { name } => {
            let (s, with, t) = guard("Symbolic::from_bytes", || {
                let bad = Symbolic::from_bytes(name, Some(&hex(&other).as_bytes()[..39])).is_ok();
                let mut longer = name.clone();
                longer.push(b'x');
                (Symbolic::from_bytes(name, None).ok(), bad, Symbolic::from_bytes(&longer, None).ok())
            })?;
            ensure!(s.is_some() && t.is_some(), "refused", "a symbolic reference to {} cannot be made", text(name));
            ensure!(!with, "accepted", "a symbolic reference that leads to an id of 39 digits was made");
            let (s, t) = (ReferenceTarget::Symbolic(s.unwrap()), ReferenceTarget::Symbolic(t.unwrap()));
            ensure!(s != t, "wrong-equal", "symbolic references to {} and to that with an x after it are equal", text(name));
            if let Some(r) = file {
                ensure!(*r.target() == s, "wrong-equal", "{} is not equal to a symbolic reference to {}", text(bytes), text(name));
            }
        }
        Body::Direct { id, upper } => {
            let (d, o) = guard("Direct::from_bytes", || (Direct::from_bytes(&hex_case(id, *upper)).ok(), Direct::from_bytes(hex(&other).as_bytes()).ok()))?;
            ensure!(d.is_some() && o.is_some(), "refused", "a direct reference to {} cannot be made", hex(id));
            let (d, o) = (ReferenceTarget::Direct(d.unwrap()), ReferenceTarget::Direct(o.unwrap()));
            ensure!(d != o || *id == other, "wrong-equal", "direct references to {} and {} are equal", hex(id), hex(&other));
            if let Some(r) = file {
                ensure!(*r.target() == d, "wrong-equal", "{} is not equal to a direct reference to {}", text(bytes), hex(id));
            }
        }
        _ => {
            let from = f.pre_len();
            let body = bytes[from..bytes.len() - f.tail.len()].to_vec();
            let (d, s) = guard("from_bytes", || (Direct::from_bytes(&body).is_ok(), Symbolic::from_bytes(b"", None).is_ok()))?;
            ensure!(!d && !s, "accepted", "a direct reference was made of {}, or a symbolic one of nothing", text(&body));
        }
    }
    Ok(())
}

fn run_decode(f: &RefFile, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    init_repo(&dir)?;
    let edir = ctx.sub("empty")?;
    init_repo(&edir)?;
    let empty = open(&edir)?;
    let bytes = f.bytes();
    let got = decode_all(&bytes, &f.at, f.rng, &dir, &empty)?;
    made_directly(f, &bytes)?;
    match (f.expected(), got) {
        (Some(w), Seen::Ok(g)) => ensure!(w == g, "wrong-decode", "{} decodes as {g:?} instead of {w:?}", text(&bytes)),
        (Some(w), g) => bad!("refused", "{} is refused ({g:?}) instead of decoding as {w:?}", text(&bytes)),
        (None, Seen::Error(_)) => (),
        (None, g) => bad!("accepted", "{} decodes as {g:?} instead of being refused", text(&bytes)),
    }
    ctx.label(match &f.body {
        Body::Direct { .. } => "direct",
        Body::Symbolic { .. } => "symbolic",
        Body::Nothing | Body::EmptySymbolic => "empty",
        _ => "malformed id",
    });
    let odd = f.tail.iter().any(|b| b"\n\r \t\n"[*b as usize % 5] != b'\n');
    ctx.label_if(odd, "trailing white space other than a line feed");
    ctx.label_if(!f.pre.is_empty(), "blank or comment lines first");
    ctx.nontrivial(odd || !f.pre.is_empty() || f.expected().is_none() || matches!(&f.body, Body::Symbolic { name } if !name.is_ascii()));
    Ok(())
}

/// A reference file of unusual size.
fn long_file() -> BoxedStrategy<RefFile> {
    let size = prop_oneof![
        2 => (7u32..20, 0u32..200).prop_map(|(b, d)| (1usize << b) + d as usize),
        1 => (prop::sample::select(vec![255usize, 1000, 1024, 4096, 8192, 16_384, 65_535, 1_000_000, 1 << 20]), 0usize..9).prop_map(|(a, d)| a + d - 4),
    ];
    (ref_file(), size, 0u8..6, 0u8..40)
        .prop_map(|(mut f, n, what, c)| {
            match what {
                0 => f.pre.push(Pre::Comment { text: vec![b'c'; n], crlf: c % 3 == 0 }),
                1 => f.pre.extend((0..n / (c as usize + 2) + 1).map(|_| Pre::Comment { text: vec![b'x'; c as usize], crlf: c % 3 == 0 })),
                2 => f.pre.extend((0..n / 2).map(|_| Pre::Blank { spaces: c / 16, crlf: c % 3 == 0 })),
                3 => f.tail.extend((0..n).map(|k| (k * (c as usize + 1) % 251) as u8)),
                // a name that is only decoded, not looked up
                4 => f.body = Body::Symbolic { name: [b"refs/heads/", &vec![b'n'; n][..]].concat() },
                _ => f.body = Body::Symbolic { name: [b"refs", &b"/xyz".repeat(n / 4)[..]].concat() },
            }
            f
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Junk {
    parts: Vec<Vec<u8>>,
    at: Vec<u8>,
    rng: u64,
}

fn junk() -> BoxedStrategy<Junk> {
    let part = prop_oneof![
        vec(any::<u8>(), 0..10),
        prop::sample::select(vec!["ref: ", "ref:", "ref", " ", "\n", "\r\n", "#", "/", "refs/heads/master", "\t", "^", "\0", "\u{3000}", "\u{feff}"])
            .prop_map(|s: &str| s.as_bytes().to_vec()),
        (oid(), 0usize..42).prop_map(|(o, n)| hex(&o).into_bytes()[..n.min(40)].to_vec()),
        oid().prop_map(|o| hex(&o).into_bytes()),
    ];
    (vec(part, 0..8), full_name(), any::<u64>()).prop_map(|(parts, at, rng)| Junk { parts, at, rng }).boxed()
}

fn run_junk(j: &Junk, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    init_repo(&dir)?;
    let edir = ctx.sub("empty")?;
    init_repo(&edir)?;
    let empty = open(&edir)?;
    let bytes = j.parts.concat();
    let got = decode_all(&bytes, &j.at, j.rng, &dir, &empty)?;
    // A decoded id or name is always somewhere in the bytes.
    if let Seen::Ok(d) = &got {
        let there = match d {
            Dec::Direct(o) => bytes.to_ascii_lowercase().windows(40).any(|w| w == hex(o).as_bytes()),
            Dec::Symbolic(n) => !n.is_empty() && bytes.windows(n.len()).any(|w| w == &n[..]),
        };
        ensure!(there, "invented", "{} decodes as {d:?}, which is not in it", text(&bytes));
    }
    ctx.label_if(matches!(got, Seen::Ok(_)), "decoded");
    ctx.nontrivial(bytes.len() > 4);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lookups {
    present: Vec<Vec<u8>>,
    asked: Vec<(u8, Vec<u8>)>,
    delete: u8,
}

fn lookups() -> BoxedStrategy<Lookups> {
    (vec(full_name(), 1..5), vec((any::<u8>(), full_name()), 1..8), any::<u8>())
        .prop_map(|(present, asked, delete)| Lookups { present, asked, delete })
        .boxed()
}

fn run_missing(l: &Lookups, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let dotgit = init_repo(&dir)?;
    let _ = std::fs::remove_file(dotgit.join("HEAD"));
    let edir = ctx.sub("empty")?;
    init_repo(&edir)?;
    let empty = open(&edir)?;
    let mut there: BTreeMap<Vec<u8>, Oid> = BTreeMap::new();
    for (i, n) in l.present.iter().enumerate() {
        let clash = ref_path(&dotgit, n).exists()
            || there.keys().any(|o| n.starts_with(&[&o[..], b"/"].concat()) || o.starts_with(&[&n[..], b"/"].concat()));
        if !clash {
            let id = sha1(&[i as u8]);
            put_ref(&dotgit, n, format!("{}\n", hex(&id)).as_bytes())?;
            there.insert(n.clone(), id);
        }
    }
    let repo = open(&dir)?;
    let db = repo.reference_database();
    let ask = |n: &[u8], there: &BTreeMap<Vec<u8>, Oid>, ctx: &mut Ctx| -> Res {
        let want = there.get(n).map(|id| Seen::Ok(Dec::Direct(*id)));
        let is_dir = ref_path(&dotgit, n).is_dir();
        let raw = |r: Result<Result<Vec<u8>, String>, RefError>| match r {
            Ok(Ok(_)) => Seen::Ok(Dec::Symbolic(vec![])),
            Ok(Err(e)) => Seen::Error(e),
            Err(RefError::ReferenceNotFound) => Seen::NotFound,
            Err(e) => Seen::Error(err_text(&e)),
        };
        let mut ways = vec![
            ("reference", seen("reference", &empty, || db.reference(n))?),
            ("parse_reference", seen("parse_reference", &empty, || db.parse_reference(n))?),
            ("read_reference_file", raw(guard("read_reference_file", || db.read_reference_file(n).map(|mut r| slurp(&mut r)))?)),
        ];
        if n == b"HEAD" {
            ways.push(("head", seen("head", &empty, || db.head())?));
            ways.push(("read_head", raw(guard("read_head", || db.read_head().map(|mut r| slurp(&mut r)))?)));
        }
        for (w, s) in ways {
            match (&want, &s) {
                (Some(_), Seen::Ok(Dec::Symbolic(v))) if v.is_empty() && w.starts_with("read") => (),
                (Some(w), s) if w == s => (),
                (Some(want), s) => bad!("wrong-lookup", "{w}({}) gave {s:?} instead of {want:?}", text(n)),
                (None, Seen::NotFound) => (),
                // a directory of that name: refused, in whatever words
                (None, Seen::Error(_)) if is_dir => ctx.label("name of a directory"),
                (None, s) => bad!("not-missing", "{w}({}) gave {s:?} although there is no such file", text(n)),
            }
        }
        Ok(())
    };
    for (how, n) in &l.asked {
        let keys: Vec<&Vec<u8>> = there.keys().collect();
        let base = keys.get(*how as usize / 8 % keys.len().max(1)).map(|k| k.to_vec()).unwrap_or_default();
        let name = match how % 8 {
            0 => n.clone(),
            1 => base,
            2 => [&base[..], b"/", b"below"].concat(),
            3 => [&base[..], b"x"].concat(),
            4 => base[..base.len().saturating_sub(1)].to_vec(),
            5 => [&base[..], b".lock"].concat(),
            6 => base.rsplitn(2, |b| *b == b'/').last().unwrap_or(&[]).to_vec(),
            _ => b"HEAD".to_vec(),
        };
        if name.is_empty() || name.ends_with(b"/") || name.split(|b| *b == b'/').any(|c| c.len() > 255) {
            continue;
        }
        ctx.label_if(!there.contains_key(&name), "absent name");
        ask(&name, &there, ctx)?;
    }
    // A reference that is deleted is gone at once.
    let keys: Vec<Vec<u8>> = there.keys().cloned().collect();
    if !keys.is_empty() {
        let k = &keys[l.delete as usize % keys.len()];
        std::fs::remove_file(ref_path(&dotgit, k))?;
        there.remove(k);
        ask(k, &there, ctx)?;
        for k in &keys {
            ask(k, &there, ctx)?;
        }
    }
    ctx.nontrivial(true);
    Ok(())
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        title: "Reference files are decoded exactly and bad ones refused",
        level: "exploration",
        rule: "a case is a reference file (blank and comment lines, a direct or symbolic reference or a malformed one, line ending and trailing white space) at a generated name, decoded from memory, from readers that deliver it in interrupted pieces or fail, and from a repository (and made without a file, and compared), against the value it was built from; junk files are checked for agreement and crashes; lookups of absent names for not found; non-trivial: white space other than one line feed, preceding lines, a malformed file, a name that is not ASCII, or an absent name",
        assumptions: &["names follow git-check-ref-format; the id of a direct reference is observed through the error for a missing object"],
        arms: vec![
            arm("decode", 60_000, 2_000_000, ref_file(), run_decode),
            arm("long", 300, 10_000, long_file(), run_decode),
            arm("junk", 30_000, 1_500_000, junk(), run_junk),
            arm("missing", 15_000, 500_000, lookups(), run_missing),
        ],
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Node {
    Sym(u8),
    SymMissing(Vec<u8>),
    SymEscape(u8),
    Direct(u8),
    DirectMissing(Oid),
    Bad(u8),
    Absent,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Graph {
    objs: Vec<(Obj, bool)>,
    /// A chain from node 0 on, then its end, then other nodes.
    chain: u8,
    end: Node,
    others: Vec<Node>,
    names: Vec<(u8, Vec<Vec<u8>>)>,
    ask: Vec<(u8, u8)>,
    updates: Vec<(u8, Node)>,
    ending: u8,
    /// references of the same name elsewhere, beside those that are missing
    decoys: bool,
}

const BADS: &[&str] = &["", "\n", "ref: \n", "ref:\n", "0123456789abcdef\n", "not an id\n", "da1a5d18c0ab0c03b20fdd91581bc90acd10d51g\n", "# comment\n", "da1a5d18c0ab0c03b20fdd91581bc90acd10d5120\n"];

fn node() -> BoxedStrategy<Node> {
    prop_oneof![
        4 => any::<u8>().prop_map(Node::Sym),
        5 => any::<u8>().prop_map(Node::Direct),
        1 => full_name().prop_map(Node::SymMissing),
        1 => any::<u8>().prop_map(Node::SymEscape),
        1 => oid().prop_map(Node::DirectMissing),
        1 => any::<u8>().prop_map(Node::Bad),
        1 => Just(Node::Absent),
    ]
    .boxed()
}

fn graph() -> BoxedStrategy<Graph> {
    (
        vec((small_obj(), any::<bool>()), 1..4),
        prop_oneof![6 => 0u8..7, 2 => 6u8..14, 1 => 14u8..60],
        node(),
        vec(node(), 0..6),
        vec((any::<u8>(), prop_oneof![24 => vec(component(), 1..3), 1 => deep()]), 1..5),
        vec((any::<u8>(), any::<u8>()), 1..8),
        vec((any::<u8>(), node()), 0..4),
        any::<u8>(),
        any::<bool>(),
    )
        .prop_map(|(objs, chain, end, others, names, ask, updates, ending, decoys)| Graph { objs, chain, end, others, names, ask, updates, ending, decoys })
        .boxed()
}

enum End {
    Object(usize),
    Broken(&'static str),
}

fn run_resolve(g: &Graph, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let dotgit = init_repo(&dir)?;
    // what an escaping name would lead to
    let outside = ctx.sub("outside")?;
    let mut made = vec![];
    for (i, (o, packed)) in g.objs.iter().enumerate() {
        let m = o.made();
        if *packed {
            let pack = build_pack(2, &[PackEntry { id: m.id, kind: m.kind, bytes: m.bytes.clone(), repr: Repr::Whole, level: 6, gap: 0, pad: 0 }]);
            let idx = idx_for(&pack, &[m.id], 2, None);
            put_pack(&dotgit, &pack.bytes, &idx, &pack.sum)?;
        } else {
            put_loose(&dotgit, &m, (i % 10) as u8)?;
        }
        made.push(m);
    }
    std::fs::write(outside.join("secret"), format!("{}\n", hex(&made[0].id)))?;
    let mut nodes: Vec<Node> = (0..g.chain).map(|i| Node::Sym(i + 1)).collect();
    nodes.push(g.end.clone());
    nodes.extend(g.others.iter().cloned());
    let n = nodes.len();
    let name = |i: usize| -> Vec<u8> {
        if i == 0 {
            return b"HEAD".to_vec();
        }
        let (u, c) = &g.names[i % g.names.len()];
        let u = ["refs/heads", "refs/tags", "refs/remotes/origin", "refs/notes", "refs", ""][*u as usize % 6];
        let mut v = u.as_bytes().to_vec();
        if !v.is_empty() {
            v.push(b'/');
        }
        // distinct directories, so that no name lies below another
        v.extend_from_slice(format!("d{i}.").as_bytes());
        v.extend(joined(c));
        v.extend_from_slice(format!("/n{i}").as_bytes());
        v
    };
    let content = |node: &Node| -> Option<Vec<u8>> {
        let nl = ["\n", "", "\r\n", "\n\n", " \n"][g.ending as usize % 5];
        let sym = |name: &[u8]| [b"ref: ", name, nl.as_bytes()].concat();
        Some(match node {
            Node::Sym(t) => sym(&name(*t as usize % n)),
            Node::SymMissing(m) => sym(&[b"refs/heads/missing/", &m[..]].concat()),
            Node::SymEscape(k) => match k % 4 {
                0 => sym(b"../../outside/secret"),
                1 => sym(b"refs/heads/../../../../outside/secret"),
                2 => sym(outside.join("secret").as_os_str().as_bytes()),
                _ => sym(b"../HEAD"),
            },
            Node::Direct(o) => [hex(&made[*o as usize % made.len()].id).as_bytes(), nl.as_bytes()].concat(),
            Node::DirectMissing(o) => [hex(o).as_bytes(), nl.as_bytes()].concat(),
            Node::Bad(k) => BADS[*k as usize % BADS.len()].as_bytes().to_vec(),
            Node::Absent => return None,
        })
    };
    for (i, node) in nodes.iter().enumerate() {
        match content(node) {
            Some(c) => put_ref(&dotgit, &name(i), &c)?,
            None => {
                let _ = std::fs::remove_file(ref_path(&dotgit, &name(i)));
            }
        }
    }
    if g.decoys {
        for (i, node) in nodes.iter().enumerate() {
            let missing = match node {
                Node::Absent => name(i),
                Node::SymMissing(m) => [b"refs/heads/missing/", &m[..]].concat(),
                _ => continue,
            };
            let path = ref_path(&dotgit, &missing);
            let tops = ["refs/heads/", "refs/tags/", "refs/remotes/origin/", "refs/remotes/", "refs/notes/", "refs/", ""];
            let tail = tops.iter().find_map(|t| missing.strip_prefix(t.as_bytes())).unwrap();
            let mut there: Vec<Vec<u8>> = tops.iter().map(|t| [t.as_bytes(), tail].concat()).collect();
            there.extend([[&missing[..], b".lock"].concat(), missing.to_ascii_uppercase(), [&missing[..], b"~1"].concat()]);
            if !matches!(node, Node::Absent) {
                there.push([&missing[..], b"/HEAD"].concat());
            }
            for d in there {
                let p = ref_path(&dotgit, &d);
                if p != path && p.symlink_metadata().is_err() && std::fs::create_dir_all(p.parent().unwrap()).is_ok() {
                    let _ = std::fs::write(&p, format!("{}\n", hex(&made[0].id)));
                }
            }
            ctx.label("missing, but there elsewhere");
        }
    }
    let repo = open(&dir)?;
    let check = |nodes: &[Node], ctx: &mut Ctx, round: &str| -> Res {
        // every chain from its start is always asked for
        let all: Vec<(u8, u8)> = [(0u8, 0u8)].into_iter().chain(g.ask.iter().copied()).collect();
        for (s, how) in all {
            let start = s as usize % nodes.len();
            let (mut at, mut levels, mut steps) = (start, 0usize, 0);
            let end = loop {
                steps += 1;
                if steps > nodes.len() + 1 {
                    break End::Broken("cycle");
                }
                match &nodes[at] {
                    Node::Sym(t) => {
                        levels += 1;
                        at = *t as usize % n;
                    }
                    Node::Direct(o) => break End::Object(*o as usize % made.len()),
                    Node::DirectMissing(o) => match made.iter().position(|m| m.id == *o) {
                        Some(i) => break End::Object(i),
                        None => break End::Broken("missing object"),
                    },
                    Node::SymMissing(_) | Node::Absent => break End::Broken("missing reference"),
                    Node::SymEscape(_) => break End::Broken("name outside the repository"),
                    Node::Bad(_) => break End::Broken("malformed reference"),
                }
            };
            let nm = name(start);
            let what = format!("{round}, resolving {} ({levels} levels)", text(&nm));
            let got = guard(&what, || -> Result<Result<(Oid, Parsed), String>, RefError> {
                let db = repo.reference_database();
                let r = match how % 5 {
                    0 if start == 0 => db.head()?,
                    1 => db.parse_reference(&nm)?,
                    2 => match content(&nodes[start]) {
                        Some(c) => Reference::from_bytes(&c)?,
                        None => db.reference(&nm)?,
                    },
                    _ => db.reference(&nm)?,
                };
                let o = match (how % 5, r.target()) {
                    (3, t) => t.peel(&repo)?,
                    // as packed references come: with the id they lead to
                    (4, ReferenceTarget::Symbolic(s)) if how >= 128 && matches!(end, End::Object(_)) => {
                        let End::Object(i) = end else { unreachable!() };
                        Symbolic::from_bytes(s.data(), Some(hex(&made[i].id).as_bytes())).map_err(RefError::from)?.peel(&repo)?
                    }
                    (4, ReferenceTarget::Symbolic(s)) => Symbolic::from_bytes(s.data(), None).map_err(RefError::from)?.peel(&repo)?,
                    (4, ReferenceTarget::Direct(d)) => d.object(&repo)?,
                    _ => r.peel(&repo)?,
                };
                Ok(Ok((oid_of(o.id()), observe(&o))))
            })?;
            match (end, got) {
                (End::Object(i), Ok(Ok((id, p)))) => {
                    ensure!(id == made[i].id, "wrong-object", "{what} gave object {} instead of {}", hex(&id), hex(&made[i].id));
                    expect_parsed(&what, &p, &made[i].want)?;
                    ctx.label(if levels > 5 { "more than five levels" } else if levels > 0 { "symbolic" } else { "direct" });
                    ctx.nontrivial(levels > 0);
                }
                (End::Object(i), Err(e)) => {
                    ensure!(levels > 5, "unresolved", "{what} failed instead of giving {}: {}", hex(&made[i].id), err_text(&e));
                    ctx.label("more than five levels");
                }
                (End::Broken(why), Ok(Ok((id, _)))) => bad!("resolved-broken", "{what} gave {} although it ends in a {why}", hex(&id)),
                (End::Broken(why), Err(e)) => {
                    let _ = format!("{e:?} {e}");
                    ctx.label(why);
                    ctx.nontrivial(true);
                }
                (_, Ok(Err(_))) => unreachable!(),
            }
        }
        Ok(())
    };
    check(&nodes, ctx, "at first")?;
    // References change; the same handle must follow.
    for (i, node) in &g.updates {
        let i = *i as usize % n;
        nodes[i] = node.clone();
        match content(node) {
            Some(c) => put_ref(&dotgit, &name(i), &c)?,
            None => {
                let _ = std::fs::remove_file(ref_path(&dotgit, &name(i)));
            }
        }
    }
    if !g.updates.is_empty() {
        ctx.label("references changed between lookups");
        check(&nodes, ctx, "after updates")?;
    }
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        title: "Resolving a reference reaches the object it leads to, or reports an error",
        level: "exploration",
        rule: "a case is a graph of references (chains of up to 60 levels, cycles, missing, malformed and escaping ends, direct references to loose, packed and missing objects) resolved through every entry point, before and after some of the references change, against a walk of the same graph by the harness; non-trivial: a symbolic or a broken chain",
        assumptions: &["chains of more than five symbolic references may be refused"],
        arms: vec![arm("graph", 25_000, 800_000, graph(), run_resolve)],
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Spot {
    Ref(u8, Vec<Vec<u8>>),
    EmptyDir(u8, Vec<Vec<u8>>),
    Lock(u8, Vec<Vec<u8>>),
    /// A file somewhere else in .git.
    Stray(u8, Vec<Vec<u8>>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refs {
    /// which of refs, refs/heads, refs/tags, refs/remotes exist at first
    dirs: u8,
    spots: Vec<Spot>,
    later: Vec<(Spot, bool)>,
    many: u16,
    spelling: u8,
    git: bool,
    /// seed of what the reference files contain; 0: an id and a newline each
    contents: u64,
    /// which directory is a symbolic link to one elsewhere: refs, or one below it
    link: u8,
}

const TOPS: [&str; 3] = ["refs/heads", "refs/tags", "refs/remotes"];
const STRAY: [&str; 9] = ["refs/notes", "refs", "logs/refs/heads", "refs/original/refs/heads", "objects/refs/heads", "refs/headsx", "", "refs/tag", "refs/heads.d"];

fn spot() -> BoxedStrategy<Spot> {
    let parts = || prop_oneof![6 => vec(component(), 1..2), 6 => vec(component(), 1..4), 2 => vec(component(), 3..8), 1 => deep()];
    prop_oneof![
        8 => (any::<u8>(), parts()).prop_map(|(t, p)| Spot::Ref(t, p)),
        1 => (any::<u8>(), parts()).prop_map(|(t, p)| Spot::EmptyDir(t, p)),
        2 => (any::<u8>(), parts()).prop_map(|(t, p)| Spot::Lock(t, p)),
        2 => (any::<u8>(), parts()).prop_map(|(t, p)| Spot::Stray(t, p)),
    ]
    .boxed()
}

fn refs() -> BoxedStrategy<Refs> {
    (
        prop_oneof![2 => Just(15u8), 2 => any::<u8>()],
        vec(spot(), 0..14),
        vec((spot(), any::<bool>()), 0..4),
        prop_oneof![30 => Just(0u16), 1 => 50u16..400],
        any::<u8>(),
        proptest::bool::weighted(0.015),
        prop_oneof![1 => Just(0u64), 3 => any::<u64>()],
        prop_oneof![8 => Just(0u8), 1 => 1u8..6],
    )
        .prop_map(|(dirs, spots, later, many, spelling, git, contents, link)| Refs { dirs, spots, later, many, spelling, git, contents, link })
        .boxed()
}

/// Different ways to write the path of a directory.
pub fn spelled(dir: &Path, how: u8) -> (PathBuf, Option<PathBuf>) {
    let parent = dir.parent().unwrap().to_path_buf();
    let base = dir.file_name().unwrap().to_os_string();
    match how % 10 {
        0..=3 => (dir.to_path_buf(), None),
        4 => {
            let mut s = dir.as_os_str().to_os_string();
            s.push("/");
            (s.into(), None)
        }
        5 => (parent.join(".").join(&base).join("."), None),
        6 => (parent.join(&base).join("..").join(&base), None),
        7 => {
            let mut s = parent.as_os_str().to_os_string();
            s.push("//");
            s.push(&base);
            s.push("//");
            (s.into(), None)
        }
        // relative, from the parent or from inside
        8 => (PathBuf::from(&base), Some(parent)),
        _ => (PathBuf::from("."), Some(dir.to_path_buf())),
    }
}

pub struct Cwd;

impl Drop for Cwd {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
    }
}

pub fn chdir(to: &Option<PathBuf>) -> Res<Cwd> {
    if let Some(d) = to {
        std::env::set_current_dir(d)?;
    }
    Ok(Cwd)
}

fn spot_name(s: &Spot) -> Vec<u8> {
    let (t, p) = match s {
        Spot::Ref(t, p) | Spot::EmptyDir(t, p) | Spot::Lock(t, p) => (TOPS[*t as usize % 3], p),
        Spot::Stray(t, p) => (STRAY[*t as usize % STRAY.len()], p),
    };
    let mut v = t.as_bytes().to_vec();
    if !v.is_empty() {
        v.push(b'/');
    }
    v.extend(joined(p));
    if let Spot::Lock(..) = s {
        v.extend_from_slice(b".lock");
    }
    v
}

/// Writes a reference file in one of the forms they come in: whatever it holds, it is a reference.
fn write_ref(path: &Path, content: &[u8], seed: u64) -> Res {
    use std::os::unix::fs::PermissionsExt;
    let id = &content[..40];
    let h = path.as_os_str().as_bytes().iter().fold(seed, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
    let bytes: Vec<u8> = match if seed == 0 { 9 } else { (h >> 17) % 10 } {
        0 => id.to_vec(),
        1 => [id, b"\r\n"].concat(),
        2 => [b"# comment\n\n", id, b"\n"].concat(),
        3 => b"ref: refs/heads/x".to_vec(),
        4 => b"ref: refs/heads/some/branch\n".to_vec(),
        5 => [b"ref: refs/remotes/origin/", &b"long/".repeat((h >> 40) as usize % 60)[..], b"main\n"].concat(),
        6 => [id, b"   \n\n"].concat(),
        _ => content.to_vec(),
    };
    if seed != 0 && (h >> 47) % 16 == 0 {
        // a link to a file elsewhere
        let dotgit = path.ancestors().filter(|a| a.file_name() == Some(".git".as_ref())).last().unwrap();
        let to = dotgit.with_file_name(format!("linked-{h}"));
        std::fs::write(&to, bytes)?;
        std::os::unix::fs::symlink(&to, path)?;
        return Ok(());
    }
    std::fs::write(path, bytes)?;
    match if seed == 0 { 9 } else { (h >> 29) % 10 } {
        0 => std::fs::set_permissions(path, std::fs::Permissions::from_mode(0o444))?,
        1 => std::fs::set_permissions(path, std::fs::Permissions::from_mode(0o755))?,
        2 => std::fs::File::options().write(true).open(path)?.set_modified(std::time::UNIX_EPOCH)?,
        _ => (),
    }
    Ok(())
}

/// Put a spot in place unless something of that name is in the way.
fn place(dotgit: &Path, s: &Spot, content: &[u8], seed: u64, expect: &mut BTreeSet<Vec<u8>>) -> Res<bool> {
    let name = spot_name(s);
    if name.len() > 3800 || name.split(|b| *b == b'/').any(|c| c.len() > 240) {
        return Ok(false);
    }
    let path = ref_path(dotgit, &name);
    if path.exists() {
        return Ok(false);
    }
    let made_dir = std::fs::create_dir_all(if let Spot::EmptyDir(..) = s { &path } else { path.parent().unwrap() });
    if made_dir.is_err() {
        return Ok(false); // below an existing file
    }
    match s {
        Spot::EmptyDir(..) => (),
        Spot::Ref(..) => {
            write_ref(&path, content, seed)?;
            expect.insert(name);
        }
        Spot::Stray(..) if name.starts_with(b"refs/heads/") || name.starts_with(b"refs/tags/") || name.starts_with(b"refs/remotes/") => {
            write_ref(&path, content, seed)?;
            expect.insert(name);
        }
        // "refs" itself: a component may be the name of one of the directories
        Spot::Stray(..) if name == b"refs" || TOPS.iter().any(|t| name == t.as_bytes()) => return Ok(false),
        _ => std::fs::write(&path, content)?,
    }
    Ok(true)
}

fn run_listing(r: &Refs, ctx: &mut Ctx) -> Res {
    let dir = ctx.sub("repo")?;
    let dotgit = init_repo(&dir)?;
    let m = blob_made(b"target".to_vec());
    put_loose(&dotgit, &m, 6)?;
    let content = format!("{}\n", hex(&m.id));
    let all = dotgit.join("refs");
    if all.exists() {
        std::fs::remove_dir_all(&all)?;
    }
    // as git-new-workdir sets work trees up
    let elsewhere = ctx.sub("elsewhere")?;
    let linked = match r.link {
        1 => Some(all.clone()),
        n @ 2..=4 => Some(dotgit.join(TOPS[n as usize - 2])),
        _ => None,
    };
    if let Some(l) = &linked {
        std::fs::create_dir_all(l.parent().unwrap())?;
        std::os::unix::fs::symlink(&elsewhere, l)?;
    }
    if r.dirs & 1 != 0 {
        std::fs::create_dir_all(&all)?;
    }
    for (i, t) in TOPS.iter().enumerate() {
        if r.dirs >> (i + 1) & 1 != 0 {
            std::fs::create_dir_all(dotgit.join(t))?;
        }
    }
    // names that exist only here are no loose references
    std::fs::write(dotgit.join("packed-refs"), format!("# pack-refs with: peeled fully-peeled sorted \n{} refs/notes/packed\n", hex(&m.id)))?;
    let mut expect: BTreeSet<Vec<u8>> = BTreeSet::new();
    let seed = if r.git { 0 } else { r.contents };
    for s in &r.spots {
        place(&dotgit, s, content.as_bytes(), seed, &mut expect)?;
    }
    for i in 0..r.many {
        let s = if r.many % 2 == 0 {
            // over namespaces and folders
            Spot::Ref(i as u8, vec![format!("many{}", i % 7).into_bytes(), format!("branch-{i}").into_bytes()])
        } else {
            // in one folder
            Spot::Ref(r.spelling, vec![format!("branch-{i}").into_bytes()])
        };
        place(&dotgit, &s, content.as_bytes(), seed, &mut expect)?;
    }
    let (path, cwd) = spelled(&dir, r.spelling);
    let _cwd = chdir(&cwd)?;
    let repo = match guard("Repository::open", || Repository::open(&path))? {
        Ok(r) => r,
        Err(e) => bad!("open-failed", "opening {} failed: {}", path.display(), err_text(&e)),
    };
    let bare = if r.contents % 3 == 1 { Some(guard("ReferenceDatabase::open", || ReferenceDatabase::open(path.join(".git")))?) } else { None };
    ctx.label_if(bare.is_some(), "database opened by itself");
    let db = bare.as_ref().unwrap_or(repo.reference_database());
    compare(db, &expect, "at first", r.contents % 5 == 1)?;
    for (s, remove) in &r.later {
        if *remove && !expect.is_empty() {
            let k = expect.iter().nth(spot_name(s).len() % expect.len()).unwrap().clone();
            std::fs::remove_file(ref_path(&dotgit, &k))?;
            expect.remove(&k);
        } else {
            place(&dotgit, s, content.as_bytes(), seed, &mut expect)?;
        }
    }
    if !r.later.is_empty() {
        compare(db, &expect, "after changes", r.contents % 7 == 1)?;
    }
    // without a "refs" folder git takes it for no repository
    if r.git && git::available() && all.is_dir() {
        let out = git::git_ok(&dotgit, &["for-each-ref", "--format=%(refname)", "refs/heads", "refs/tags", "refs/remotes"], None)?;
        let names: BTreeSet<Vec<u8>> = out.split(|b| *b == b'\n').filter(|l| !l.is_empty()).map(|l| l.to_vec()).collect();
        if names != expect {
            return Err(Fail::Harness(format!(
                "git lists {:?} but the harness expects {:?}",
                names.iter().map(|n| text(n)).collect::<Vec<_>>(),
                expect.iter().map(|n| text(n)).collect::<Vec<_>>()
            )));
        }
        ctx.label("same as git for-each-ref");
    }
    let deep = expect.iter().any(|n| n.iter().filter(|b| **b == b'/').count() > 3);
    let absent = TOPS.iter().any(|t| !dotgit.join(t).exists());
    let locks = r.spots.iter().any(|s| matches!(s, Spot::Lock(..)));
    ctx.label_if(expect.is_empty(), "no references");
    ctx.label_if(absent, "a directory is absent");
    ctx.label_if(locks, "lock files");
    ctx.label_if(seed != 0, "reference files of different forms");
    ctx.label_if(linked.is_some(), "a directory is a symbolic link");
    ctx.label_if(deep, "deep names");
    ctx.label_if(r.contents % 5 == 1, "listing without file types");
    ctx.label_if(r.many > 0, "hundreds of references");
    ctx.label_if(r.many > 1000, "thousands of references");
    ctx.add("references", expect.len() as u64);
    ctx.nontrivial(absent || locks || deep || r.many > 0);
    Ok(())
}

fn listed(what: &str, f: impl FnOnce() -> Result<Vec<Vec<u8>>, RefError>) -> Res<Vec<Vec<u8>>> {
    match guard(what, f)? {
        Ok(mut v) => {
            v.sort();
            Ok(v)
        }
        Err(e) => violation("list-error", format!("{what} failed: {}", err_text(&e))),
    }
}

fn compare(db: &ReferenceDatabase, expect: &BTreeSet<Vec<u8>>, when: &str, untyped: bool) -> Res {
    sys::with_plan(Plan { untyped, ..Plan::default() }, || compare_now(db, expect, when)).0
}

fn compare_now(db: &ReferenceDatabase, expect: &BTreeSet<Vec<u8>>, when: &str) -> Res {
    let per = [
        ("head_reference_names", listed("head_reference_names", || db.head_reference_names())?),
        ("tag_reference_names", listed("tag_reference_names", || db.tag_reference_names())?),
        ("remote_reference_names", listed("remote_reference_names", || db.remote_reference_names())?),
    ];
    for ((what, got), top) in per.iter().zip(TOPS) {
        let want: Vec<Vec<u8>> = expect.iter().filter(|n| n.starts_with(format!("{top}/").as_bytes())).cloned().collect();
        diff(&format!("{when}, {what}"), got, &want)?;
    }
    let got = listed("reference_names", || db.reference_names())?;
    let want: Vec<Vec<u8>> = expect.iter().cloned().collect();
    diff(&format!("{when}, reference_names"), &got, &want)?;
    for n in &got {
        match guard("reference", || db.reference(n))? {
            Ok(_) => (),
            Err(e) => bad!("listed-not-found", "{when}: the listed name {} cannot be looked up: {}", text(n), err_text(&e)),
        }
    }
    Ok(())
}

fn diff(what: &str, got: &[Vec<u8>], want: &[Vec<u8>]) -> Res {
    if got == want {
        return Ok(());
    }
    for w in want {
        ensure!(got.contains(w), "missing-name", "{what}: {} is missing", text(w));
    }
    for g in got {
        ensure!(want.contains(g), "extra-name", "{what}: {} is listed but is no such reference", text(g));
    }
    violation("repeated-name", format!("{what}: a name is listed more than once"))
}

/// Very many references, in one folder or over the namespaces.
fn crowds() -> Vec<Refs> {
    [700u16, 1001, 1030, 1250, 2051, 3100, 4101, 8200, 12_000]
        .iter()
        .enumerate()
        .flat_map(|(k, n)| [*n, *n + 3].map(|many| (k as u64, many)))
        .map(|(k, many)| Refs {
            dirs: 15,
            spots: vec![],
            later: vec![(Spot::Ref(1, vec![b"one-more".to_vec()]), false), (Spot::Ref(2, vec![b"x".to_vec()]), true)],
            many,
            // plain paths; the number also chooses the namespace of a crowd in one folder
            spelling: (k % 3) as u8,
            git: k == 1,
            contents: [0, 5, 1, 7][k as usize % 4],
            link: 0,
        })
        .collect()
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        title: "Listing references yields exactly the loose references that exist",
        level: "exploration",
        rule: "a case is a set of reference files at generated names and depths, lock files, empty and absent directories and files elsewhere in .git, listed (with the repository's path spelled in different ways) before and after changes and compared with the set put there, a share of them with git for-each-ref; every listed name is looked up; non-trivial: an absent directory, lock files, names four or more levels deep, or hundreds of references",
        assumptions: &["names follow git-check-ref-format, so no component starts with a dot or ends in .lock"],
        arms: vec![
            arm("list", 16_000, 500_000, refs(), run_listing),
            list_arm("crowds", crowds(), run_listing),
        ],
    }
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Piece {
    Up,
    Dot,
    Empty,
    Comp(Vec<u8>),
    Word(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Escape {
    /// 0: relative, 1: absolute to a decoy, 2: absolute into the repository, 3: absolute path as below
    root: u8,
    pieces: Vec<Piece>,
    decoy: u8,
    /// through a symbolic reference file (depth of the chain), or directly
    via: u8,
    spelling: u8,
}

const WORDS: [&str; 12] = ["refs", "heads", "master", "HEAD", ".git", "repo", "outside", "secret", "..git", "...", "tags", ".git-other"];

/// Places outside .git, relative to the case directory.
const DECOYS: [&str; 8] = ["outside/secret", "secret", "repo/secret", "repo/.git-other/refs/heads/master", "repo.git/HEAD", "repo/HEAD", "HEAD", "repo2/.git/refs/heads/master"];

fn escape() -> BoxedStrategy<Escape> {
    let piece = prop_oneof![
        4 => Just(Piece::Up),
        1 => Just(Piece::Dot),
        1 => Just(Piece::Empty),
        2 => component().prop_map(Piece::Comp),
        4 => any::<u8>().prop_map(Piece::Word),
    ];
    (prop_oneof![6 => Just(0u8), 1 => 1u8..4], vec(piece, 0..7), any::<u8>(), 0u8..6, any::<u8>())
        .prop_map(|(root, pieces, decoy, via, spelling)| Escape { root, pieces, decoy, via, spelling })
        .boxed()
}

fn run_escape(e: &Escape, ctx: &mut Ctx) -> Res {
    let base = ctx.dir.canonicalize()?;
    let dir = base.join("repo");
    std::fs::create_dir_all(&dir)?;
    let dotgit = init_repo(&dir)?;
    let secret = blob_made(b"the secret".to_vec());
    let inside = blob_made(b"inside".to_vec());
    put_loose(&dotgit, &secret, 6)?;
    put_loose(&dotgit, &inside, 6)?;
    for d in DECOYS {
        let p = base.join(d);
        std::fs::create_dir_all(p.parent().unwrap())?;
        std::fs::write(&p, format!("{}\n", hex(&secret.id)))?;
    }
    put_ref(&dotgit, b"refs/heads/master", format!("{}\n", hex(&inside.id)).as_bytes())?;
    put_ref(&dotgit, b"HEAD", b"ref: refs/heads/master\n")?;

    let decoy = DECOYS[e.decoy as usize % DECOYS.len()];
    let mut parts: Vec<Vec<u8>> = e
        .pieces
        .iter()
        .map(|p| match p {
            Piece::Up => b"..".to_vec(),
            Piece::Dot => b".".to_vec(),
            Piece::Empty => vec![],
            Piece::Comp(c) => c.clone(),
            Piece::Word(w) => WORDS[*w as usize % WORDS.len()].as_bytes().to_vec(),
        })
        .collect();
    let name: Vec<u8> = match e.root {
        1 => base.join(decoy).as_os_str().as_bytes().to_vec(),
        2 => dotgit.join(["HEAD", "refs/heads/master"][e.decoy as usize % 2]).as_os_str().as_bytes().to_vec(),
        3 => [dotgit.as_os_str().as_bytes(), b"/", &joined(&parts)].concat(),
        _ => {
            if e.decoy & 0x80 != 0 {
                // made to reach a decoy: up as far as it takes (through directories that exist), then down
                let normal = ["refs", "heads"];
                let k = e.decoy as usize % 3;
                let mut v: Vec<Vec<u8>> = normal[..k].iter().map(|s| s.as_bytes().to_vec()).collect();
                v.extend(std::iter::repeat(b"..".to_vec()).take(k + 2));
                v.extend(decoy.split('/').map(|s| s.as_bytes().to_vec()));
                parts.truncate((e.decoy as usize / 3) % 2);
                if parts.iter().any(|p| p == b"." || p.is_empty()) {
                    let mut w = parts.clone();
                    w.extend(v);
                    v = w;
                }
                parts = v;
            }
            joined(&parts)
        }
    };
    let comps: Vec<&[u8]> = name.split(|b| *b == b'/').collect();
    let escaping = name.starts_with(b"/") || comps.iter().any(|c| *c == b"..");

    // a chain of symbolic references that leads to the name
    let mut asked = name.clone();
    let clean = !name.is_empty() && !name.contains(&b' ') && !name.contains(&b'\n') && !name.last().unwrap().is_ascii_whitespace();
    if e.via > 1 && clean {
        for i in 0..e.via - 1 {
            let n = format!("refs/tags/link{i}").into_bytes();
            put_ref(&dotgit, &n, &[b"ref: ", &asked[..], b"\n"].concat())?;
            asked = n;
        }
    }
    let (path, cwd) = spelled(&dir, e.spelling);
    let _cwd = chdir(&cwd)?;
    let cur = std::env::current_dir()?;
    let repo = match guard("Repository::open", || Repository::open(&path))? {
        Ok(r) => r,
        Err(x) => bad!("open-failed", "opening {} failed: {}", path.display(), err_text(&x)),
    };
    let db = repo.reference_database();
    let mut results: Vec<(&str, bool, String)> = vec![];
    let plan = Plan { opened: Some(vec![]), ..Plan::default() };
    let (r, plan) = sys::with_plan(plan, || -> Res {
        let mut note = |w: &'static str, r: Result<String, RefError>| {
            let (ok, t) = match r {
                Ok(s) => (true, s),
                Err(x) => (false, err_text(&x)),
            };
            results.push((w, ok, t));
        };
        let peel = |r: Reference| r.peel(&repo).map(|o| format!("object {}", hex(&oid_of(o.id()))));
        if asked == name {
            note("read_reference_file", guard("read_reference_file", || db.read_reference_file(&asked).map(|_| "an open file".into()))?);
            note("reference", guard("reference", || db.reference(&asked).map(|r| format!("{r:?}")))?);
            note("parse_reference", guard("parse_reference", || db.parse_reference(&asked).map(|r| format!("{r:?}")))?);
        }
        note("reference and peel", guard("peel", || db.reference(&asked).and_then(peel))?);
        if !name.is_empty() {
            note("Symbolic::peel", guard("Symbolic::peel", || Symbolic::from_bytes(&name, None).map_err(RefError::from).and_then(|s| s.peel(&repo).map(|o| format!("object {}", hex(&oid_of(o.id()))))))?);
        }
        Ok(())
    });
    r?;
    // Every path the library opened must lie in .git.
    for p in plan.opened.unwrap_or_default() {
        let p = cur.join(OsStr::from_bytes(&p));
        let real = match p.canonicalize() {
            Ok(r) => r,
            Err(_) => lexical(&p),
        };
        ensure!(real.starts_with(&dotgit), "opened-outside", "asked for {}, the library opened {}", text(&name), real.display());
    }
    if escaping {
        for (w, ok, t) in &results {
            ensure!(!ok, "escape-accepted", "{w} with the name {} (asked for {}) gave {t} instead of an error", text(&name), text(&asked));
        }
        ctx.label(if name.starts_with(b"/") { "absolute name" } else { "name with a parent component" });
        let hits = cur.join(ref_path(&dotgit, &name)).is_file();
        ctx.label_if(hits, "name of an existing file outside");
        ctx.label_if(asked != name, "through symbolic references");
        ctx.nontrivial(true);
    } else {
        for (w, ok, t) in &results {
            ensure!(!(*ok && t.contains(&hex(&secret.id))), "escaped", "{w} with the name {} gave {t}", text(&name));
        }
    }
    Ok(())
}

/// Resolve `.` and `..` by the letter, as far as the path exists by its real directories.
fn lexical(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                out.pop();
            }
            std::path::Component::CurDir => (),
            c => out.push(c),
        }
    }
    // a missing file: where would it be?
    let mut known = out.clone();
    let mut rest = vec![];
    while !known.exists() {
        let Some(f) = known.file_name().map(|f| f.to_os_string()) else { break };
        rest.push(f);
        known.pop();
    }
    let mut real = known.canonicalize().unwrap_or(known);
    real.extend(rest.iter().rev());
    real
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        title: "Reference lookups never leave the repository",
        level: "exploration",
        rule: "a case is a name made of parent and current-directory components, ordinary ones and absolute paths (many of them names of decoy files placed around the repository in the scratch directory), passed by the caller or held by a chain of symbolic reference files; every file the library opens is recorded at the system-call boundary and must lie in .git, and names with a parent component or absolute names must give an error; non-trivial: such a name",
        assumptions: &["files are opened through open/openat of libc, as the standard library does"],
        arms: vec![arm("escape", 30_000, 1_000_000, escape(), run_escape)],
    }
}
