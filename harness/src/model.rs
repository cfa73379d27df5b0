//! Reference models: hashes, the object formats, generators of well-formed objects.
use crate::engine::{splitmix, violation, Res};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use rusty_git::object::{Id, Object, ObjectData, ObjectKind, Signature};
use serde::{Deserialize, Serialize};

pub type Oid = [u8; 20];

// ---------------------------------------------------------------- hashes

pub struct Sha1 {
    h: [u32; 5],
    buf: Vec<u8>,
    len: u64,
}

impl Sha1 {
    pub fn new() -> Self {
        Sha1 { h: [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0], buf: vec![], len: 0 }
    }
    fn block(h: &mut [u32; 5], b: &[u8]) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut bb, mut c, mut d, mut e] = *h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((bb & c) | (!bb & d), 0x5A827999),
                1 => (bb ^ c ^ d, 0x6ED9EBA1),
                2 => ((bb & c) | (bb & d) | (c & d), 0x8F1BBCDC),
                _ => (bb ^ c ^ d, 0xCA62C1D6u32),
            };
            let t = a
                .rotate_left(5)
                .wrapping_add(f)
                .wrapping_add(e)
                .wrapping_add(k)
                .wrapping_add(*wi);
            e = d;
            d = c;
            c = bb.rotate_left(30);
            bb = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, bb, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    pub fn update(&mut self, mut data: &[u8]) {
        self.len += data.len() as u64;
        if !self.buf.is_empty() {
            let n = (64 - self.buf.len()).min(data.len());
            self.buf.extend_from_slice(&data[..n]);
            data = &data[n..];
            if self.buf.len() == 64 {
                let b = std::mem::take(&mut self.buf);
                Sha1::block(&mut self.h, &b);
            }
        }
        let mut chunks = data.chunks_exact(64);
        for c in &mut chunks {
            Sha1::block(&mut self.h, c);
        }
        self.buf.extend_from_slice(chunks.remainder());
    }
    pub fn finish(mut self) -> Oid {
        let bits = self.len * 8;
        let mut pad = vec![0x80u8];
        while (self.buf.len() + pad.len()) % 64 != 56 {
            pad.push(0);
        }
        pad.extend_from_slice(&bits.to_be_bytes());
        self.update(&pad);
        let mut out = [0; 20];
        for (o, h) in out.chunks_mut(4).zip(self.h) {
            o.copy_from_slice(&h.to_be_bytes());
        }
        out
    }
}

pub fn sha1(data: &[u8]) -> Oid {
    let mut s = Sha1::new();
    s.update(data);
    s.finish()
}

pub fn crc32(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

pub fn id_of(o: &Oid) -> Id {
    Id::from_bytes(o)
}

// ---------------------------------------------------------------- kinds

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Kind {
    Commit,
    Tree,
    Blob,
    Tag,
}

impl Kind {
    pub const ALL: [Kind; 4] = [Kind::Commit, Kind::Tree, Kind::Blob, Kind::Tag];
    pub fn name(self) -> &'static str {
        match self {
            Kind::Commit => "commit",
            Kind::Tree => "tree",
            Kind::Blob => "blob",
            Kind::Tag => "tag",
        }
    }
    pub fn code(self) -> u8 {
        match self {
            Kind::Commit => 1,
            Kind::Tree => 2,
            Kind::Blob => 3,
            Kind::Tag => 4,
        }
    }
    pub fn of(k: ObjectKind) -> Option<Kind> {
        match k {
            ObjectKind::Commit => Some(Kind::Commit),
            ObjectKind::Tree => Some(Kind::Tree),
            ObjectKind::Blob => Some(Kind::Blob),
            ObjectKind::Tag => Some(Kind::Tag),
            _ => None,
        }
    }
}

pub fn header(kind: Kind, len: usize) -> Vec<u8> {
    format!("{} {}\0", kind.name(), len).into_bytes()
}

pub fn framed(kind: Kind, content: &[u8]) -> Vec<u8> {
    let mut v = header(kind, content.len());
    v.extend_from_slice(content);
    v
}

pub fn object_id(kind: Kind, content: &[u8]) -> Oid {
    let mut s = Sha1::new();
    s.update(&header(kind, content.len()));
    s.update(content);
    s.finish()
}

// ---------------------------------------------------------------- what is observed

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sig {
    pub name: Vec<u8>,
    pub email: Vec<u8>,
    pub time: Option<Vec<u8>>,
    pub zone: Option<Vec<u8>>,
}

#[derive(Clone, PartialEq, Eq)]
pub enum Parsed {
    Blob(Vec<u8>),
    Tree(Vec<(u16, Vec<u8>, Oid)>),
    Commit {
        tree: Oid,
        parents: Vec<Oid>,
        author: Sig,
        committer: Sig,
        encoding: Option<Vec<u8>>,
        message: Vec<u8>,
    },
    Tag {
        object: Oid,
        kind: Option<Kind>,
        name: Vec<u8>,
        tagger: Option<Sig>,
        message: Option<Vec<u8>>,
    },
}

pub fn show(b: &[u8]) -> String {
    let cut = &b[..b.len().min(160)];
    let mut s = String::from("b\"");
    for c in cut {
        s.extend(std::ascii::escape_default(*c).map(|c| c as char));
    }
    s.push('"');
    if b.len() > cut.len() {
        s.push_str(&format!("… ({} bytes)", b.len()));
    }
    s
}

impl Sig {
    fn text(&self) -> String {
        format!(
            "name {} email {} time {} zone {}",
            show(&self.name),
            show(&self.email),
            self.time.as_deref().map(show).unwrap_or("none".into()),
            self.zone.as_deref().map(show).unwrap_or("none".into())
        )
    }
}

impl std::fmt::Debug for Parsed {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Parsed::Blob(b) => write!(f, "blob {}", show(b)),
            Parsed::Tree(t) => {
                write!(f, "tree of {} entries", t.len())?;
                for (m, n, i) in t.iter().take(6) {
                    write!(f, " [{m:o} {} {}]", show(n), hex(i))?;
                }
                Ok(())
            }
            Parsed::Commit { tree, parents, author, committer, encoding, message } => write!(
                f,
                "commit tree {} parents {:?} author ({}) committer ({}) encoding {:?} message {}",
                hex(tree),
                parents.iter().map(|p| hex(p)).collect::<Vec<_>>(),
                author.text(),
                committer.text(),
                encoding.as_deref().map(show),
                show(message)
            ),
            Parsed::Tag { object, kind, name, tagger, message } => write!(
                f,
                "tag object {} kind {:?} name {} tagger ({}) message {:?}",
                hex(object),
                kind,
                show(name),
                tagger.as_ref().map(|t| t.text()).unwrap_or("none".into()),
                message.as_deref().map(show)
            ),
        }
    }
}

impl Parsed {
    pub fn kind(&self) -> Kind {
        match self {
            Parsed::Blob(_) => Kind::Blob,
            Parsed::Tree(_) => Kind::Tree,
            Parsed::Commit { .. } => Kind::Commit,
            Parsed::Tag { .. } => Kind::Tag,
        }
    }
}

pub fn oid_of(id: &Id) -> Oid {
    let h = id.to_hex();
    let mut out = [0; 20];
    for (i, o) in out.iter_mut().enumerate() {
        *o = u8::from_str_radix(h.get(2 * i..2 * i + 2).unwrap_or("00"), 16).unwrap_or(0);
    }
    out
}

fn observe_sig(s: &Signature) -> Sig {
    Sig {
        name: s.name().to_vec(),
        email: s.email().to_vec(),
        time: s.timestamp().map(|b| b.to_vec()),
        zone: s.timezone().map(|b| b.to_vec()),
    }
}

/// Everything the public interface reports about an object. Call inside `guard`.
pub fn observe(o: &Object) -> Parsed {
    match o.data() {
        ObjectData::Blob(b) => Parsed::Blob(b.data().to_vec()),
        ObjectData::Tree(t) => {
            let it = t.entries();
            let n = it.len();
            let v: Vec<_> = it.map(|e| (e.mode(), e.filename().to_vec(), oid_of(&e.id()))).collect();
            assert_eq!(n, v.len(), "entries().len() differs from the entries yielded");
            Parsed::Tree(v)
        }
        ObjectData::Commit(c) => {
            let it = c.parents();
            let n = it.len();
            let parents: Vec<_> = it.map(|p| oid_of(&p)).collect();
            assert_eq!(n, parents.len(), "parents().len() differs from the parents yielded");
            Parsed::Commit {
                tree: oid_of(&c.tree()),
                parents,
                author: observe_sig(&c.author()),
                committer: observe_sig(&c.committer()),
                encoding: c.encoding().map(|b| b.to_vec()),
                message: c.message().to_vec(),
            }
        }
        ObjectData::Tag(t) => Parsed::Tag {
            object: oid_of(&t.object()),
            kind: Kind::of(t.kind()),
            name: t.tag().to_vec(),
            tagger: t.tagger().as_ref().map(observe_sig),
            message: t.message().map(|b| b.to_vec()),
        },
    }
}

pub fn expect_parsed(what: &str, got: &Parsed, want: &Parsed) -> Res {
    if got == want {
        Ok(())
    } else if got.kind() != want.kind() {
        violation("wrong-kind", format!("{what}: got {got:?}, expected {want:?}"))
    } else {
        violation("wrong-content", format!("{what}: got {got:?}, expected {want:?}"))
    }
}

// ---------------------------------------------------------------- blobs of bytes

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Data {
    Raw(Vec<u8>),
    Gen { len: u32, style: u8, seed: u64 },
}

impl Data {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Data::Raw(v) => v.clone(),
            Data::Gen { len, style, seed } => fill(*len as usize, *style, *seed),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Data::Raw(v) => v.len(),
            Data::Gen { len, .. } => *len as usize,
        }
    }
}

pub fn fill(len: usize, style: u8, seed: u64) -> Vec<u8> {
    let mut x = seed;
    let mut v = Vec::with_capacity(len + 8);
    match style % 5 {
        0 => v.resize(len, (seed & 0xff) as u8),
        1 => {
            const W: [&str; 12] = [
                "the ", "object ", "tree ", "commit ", "parent\n", "author ", "0123456789", "\n\n", " <a@b> ", "\0", "blob 12\0", "refs/heads/",
            ];
            while v.len() < len {
                v.extend_from_slice(W[(splitmix(&mut x) % 12) as usize].as_bytes());
            }
        }
        2 => {
            while v.len() < len {
                v.extend_from_slice(&splitmix(&mut x).to_le_bytes());
            }
        }
        3 => {
            let p = 1 + (seed % 300) as usize;
            let pat: Vec<u8> = (0..p).map(|_| splitmix(&mut x) as u8).collect();
            while v.len() < len {
                let n = pat.len().min(len - v.len());
                v.extend_from_slice(&pat[..n]);
            }
        }
        _ => {
            // runs: parts that compress and parts that do not
            while v.len() < len {
                let n = 1 + (splitmix(&mut x) % 3000) as usize;
                if splitmix(&mut x) % 2 == 0 {
                    let b = splitmix(&mut x) as u8;
                    v.extend(std::iter::repeat(b).take(n));
                } else {
                    for _ in 0..n / 8 + 1 {
                        v.extend_from_slice(&splitmix(&mut x).to_le_bytes());
                    }
                }
            }
        }
    }
    v.truncate(len);
    v
}

/// Lengths that cross buffer and encoding boundaries.
pub const EDGES: [u32; 22] = [
    0, 1, 9, 10, 15, 16, 27, 28, 29, 99, 100, 127, 128, 2047, 2048, 4096, 8192, 16384, 32768, 65535, 65536, 131072,
];

pub fn len_upto(max: u32) -> BoxedStrategy<u32> {
    let edges: Vec<u32> = EDGES.iter().copied().filter(|e| *e + 4 <= max.max(4)).collect();
    prop_oneof![
        3 => 0..=max.min(64),
        3 => (select(edges), -3i32..=3).prop_map(move |(e, d)| (e as i64 + d as i64).clamp(0, max as i64) as u32),
        2 => 0..=max.min(3000),
        1 => 0..=max,
    ]
    .boxed()
}

pub fn data_upto(max: u32) -> BoxedStrategy<Data> {
    prop_oneof![
        8 => vec(any::<u8>(), 0..(max.min(40) as usize + 1)).prop_map(Data::Raw),
        1 => special().prop_map(move |mut v| {
            v.truncate(max as usize);
            Data::Raw(v)
        }),
        20 => (len_upto(max), 0u8..5, any::<u64>()).prop_map(|(len, style, seed)| Data::Gen { len, style, seed }),
    ]
    .boxed()
}

// ---------------------------------------------------------------- identities

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Ident {
    pub name: [Vec<u8>; 3],
    pub email: [Vec<u8>; 3],
    pub time: Option<String>,
    pub zone: Option<String>,
}

pub fn is_crud(b: u8) -> bool {
    b <= 32 || b".,:;<>\"\\'".contains(&b)
}

impl Ident {
    pub fn line(&self) -> Vec<u8> {
        let mut v = vec![];
        for p in &self.name {
            v.extend_from_slice(p);
        }
        v.extend_from_slice(b" <");
        for p in &self.email {
            v.extend_from_slice(p);
        }
        v.push(b'>');
        if let Some(t) = &self.time {
            v.push(b' ');
            v.extend_from_slice(t.as_bytes());
            if let Some(z) = &self.zone {
                v.push(b' ');
                v.extend_from_slice(z.as_bytes());
            }
        }
        v
    }
    pub fn expected(&self) -> Sig {
        let trim = |parts: &[Vec<u8>; 3]| {
            // the core starts and ends with a byte that is not dropped; the rest is dropped
            parts[1].clone()
        };
        Sig {
            name: trim(&self.name),
            email: trim(&self.email),
            time: self.time.as_ref().map(|t| t.clone().into_bytes()),
            zone: self.time.as_ref().and(self.zone.as_ref()).map(|t| t.clone().into_bytes()),
        }
    }
}

/// A core: empty, or bytes without '<', '>', newline that begin and end with a kept byte.
pub fn ident_core() -> BoxedStrategy<Vec<u8>> {
    let mid = prop_oneof![
        3 => select(b" abcdefghijklmnopqrstuvwxyzABCXYZ0123456789".to_vec()),
        2 => select(b"!#$%&()*+,-./0123456789:;=?@[]^_`{|}~ '\"\\".to_vec()),
        1 => (1u8..=255).prop_map(|b| if b == b'\n' || b == b'<' || b == b'>' { b'_' } else { b }),
        1 => 128u8..=255,
    ];
    let edge = prop_oneof![
        3 => select(b"abcdefghijklmnopqrstuvwxyzABCXYZ".to_vec()),
        3 => select(b"0123456789!#$%&()*+-/=?@[]^_`{|}~\x7f".to_vec()),
        2 => 128u8..=255,
    ];
    prop_oneof![
        1 => Just(vec![]),
        2 => edge.clone().prop_map(|b| vec![b]),
        2 => special_without(b"\n<>\0").prop_map(|v| {
            let v: Vec<u8> = v.into_iter().rev().skip_while(|b| is_crud(*b)).collect();
            v.into_iter().rev().skip_while(|b| is_crud(*b)).collect()
        }),
        4 => "[A-Z][a-z]{1,8} [A-Z][a-z]{1,8}".prop_map(|s| s.into_bytes()),
        1 => "[0-9]{1,4}[a-z]{0,5}[0-9]{1,4}".prop_map(|s| s.into_bytes()),
        1 => "\\PC{1,6}".prop_map(|s| s.chars().filter(|c| !matches!(c, '<' | '>' | '\n')).collect::<String>().into_bytes())
            .prop_map(|v| if v.is_empty() || is_crud(v[0]) || is_crud(v[v.len() - 1]) { b"\xc3\xa9".to_vec() } else { v }),
        8 => (edge.clone(), vec(mid, 0..14), edge).prop_map(|(a, m, z)| {
            let mut v = vec![a];
            v.extend(m);
            v.push(z);
            v
        }),
    ]
    .boxed()
}

fn crud(angles: &'static [u8]) -> BoxedStrategy<Vec<u8>> {
    let plain = b" \t.,:;\"\\' ".to_vec();
    let ctrl = (1u8..=32).prop_map(|b| if b == b'\n' { b'\r' } else { b });
    let one = if angles.is_empty() {
        prop_oneof![4 => select(plain), 1 => ctrl].boxed()
    } else {
        prop_oneof![4 => select(plain), 1 => ctrl, 1 => select(angles.to_vec())].boxed()
    };
    prop_oneof![3 => Just(vec![]), 2 => vec(one, 1..4)].boxed()
}

pub fn ident_clean() -> BoxedStrategy<Ident> {
    let time = prop_oneof![
        8 => "[1-9][0-9]{8,9}",
        2 => "[0-9]{1,20}",
    ];
    let zone = prop_oneof![
        8 => "[+-][0-9]{4}",
        2 => "[+-][0-9]{1,7}",
    ];
    (
        ident_core(),
        ident_core(),
        proptest::option::weighted(0.9, (time, proptest::option::weighted(0.9, zone))),
    )
        .prop_map(|(name, email, t)| {
            let (time, zone) = match t {
                None => (None, None),
                Some((t, z)) => (Some(t), z),
            };
            Ident { name: [vec![], name, vec![]], email: [vec![], email, vec![]], time, zone }
        })
        .boxed()
}

pub fn ident() -> BoxedStrategy<Ident> {
    (ident_clean(), crud(b"<>"), crud(b"<>"), crud(b"<>"), crud(b">"))
        .prop_map(|(mut i, a, b, c, d)| {
            i.name[0] = a;
            i.name[2] = b;
            i.email[0] = c;
            i.email[2] = d;
            i
        })
        .boxed()
}

// ---------------------------------------------------------------- objects

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Header {
    pub key: Vec<u8>,
    /// first line, then continuation lines
    pub lines: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct CommitSpec {
    pub tree: Oid,
    pub parents: Vec<Oid>,
    pub author: Ident,
    pub extra_authors: Vec<Ident>,
    pub committer: Ident,
    pub headers: Vec<Header>,
    pub encoding: Option<(u8, Vec<u8>)>,
    pub message: Data,
}

impl CommitSpec {
    /// The lines of the header, each without its newline.
    pub fn header_lines(&self) -> Vec<Vec<u8>> {
        let mut l = vec![];
        let with = |p: &str, r: &[u8]| {
            let mut v = p.as_bytes().to_vec();
            v.extend_from_slice(r);
            v
        };
        l.push(with("tree ", hex(&self.tree).as_bytes()));
        for p in &self.parents {
            l.push(with("parent ", hex(p).as_bytes()));
        }
        l.push(with("author ", &self.author.line()));
        for a in &self.extra_authors {
            l.push(with("author ", &a.line()));
        }
        l.push(with("committer ", &self.committer.line()));
        let at = self.encoding.as_ref().map(|e| e.0 as usize % (self.headers.len() + 1));
        for i in 0..=self.headers.len() {
            if at == Some(i) {
                l.push(with("encoding ", &self.encoding.as_ref().unwrap().1));
            }
            if let Some(h) = self.headers.get(i) {
                for (n, line) in h.lines.iter().enumerate() {
                    let mut v = if n == 0 { h.key.clone() } else { vec![] };
                    v.push(b' ');
                    v.extend_from_slice(line);
                    l.push(v);
                }
            }
        }
        l
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        for l in self.header_lines() {
            v.extend_from_slice(&l);
            v.push(b'\n');
        }
        v.push(b'\n');
        v.extend_from_slice(&self.message.bytes());
        v
    }
    pub fn expected(&self) -> Parsed {
        Parsed::Commit {
            tree: self.tree,
            parents: self.parents.clone(),
            author: self.author.expected(),
            committer: self.committer.expected(),
            encoding: self.encoding.as_ref().map(|e| e.1.clone()),
            message: self.message.bytes(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct TagSpec {
    pub object: Oid,
    pub kind: Kind,
    pub name: Vec<u8>,
    pub tagger: Option<Ident>,
    #[serde(default)]
    pub headers: Vec<Header>,
    pub message: Option<Data>,
}

impl TagSpec {
    pub fn header_lines(&self) -> Vec<Vec<u8>> {
        let mut l = vec![
            format!("object {}", hex(&self.object)).into_bytes(),
            format!("type {}", self.kind.name()).into_bytes(),
        ];
        let mut t = b"tag ".to_vec();
        t.extend_from_slice(&self.name);
        l.push(t);
        if let Some(i) = &self.tagger {
            let mut t = b"tagger ".to_vec();
            t.extend_from_slice(&i.line());
            l.push(t);
        }
        for h in &self.headers {
            for (n, line) in h.lines.iter().enumerate() {
                let mut v = if n == 0 { h.key.clone() } else { vec![] };
                v.push(b' ');
                v.extend_from_slice(line);
                l.push(v);
            }
        }
        l
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        for l in self.header_lines() {
            v.extend_from_slice(&l);
            v.push(b'\n');
        }
        if let Some(m) = &self.message {
            v.push(b'\n');
            v.extend_from_slice(&m.bytes());
        }
        v
    }
    pub fn expected(&self) -> Parsed {
        Parsed::Tag {
            object: self.object,
            kind: Some(self.kind),
            name: self.name.clone(),
            tagger: self.tagger.as_ref().map(|t| t.expected()),
            message: self.message.as_ref().map(|m| m.bytes()),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct EntrySpec {
    /// octal text of the mode
    pub mode: String,
    pub name: Vec<u8>,
    pub id: Oid,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct TreeSpec {
    pub entries: Vec<EntrySpec>,
    /// Further entries, generated: (count, seed)
    pub many: (u32, u64),
}

impl TreeSpec {
    pub fn all(&self) -> Vec<EntrySpec> {
        let mut v = self.entries.clone();
        let mut x = self.many.1;
        for i in 0..self.many.0 {
            let r = splitmix(&mut x);
            let mut id = [0; 20];
            for c in id.chunks_mut(4) {
                let w = splitmix(&mut x) as u32;
                c.copy_from_slice(&w.to_be_bytes());
            }
            let name = format!("{:x}-{}", r % 4096, i).into_bytes();
            v.push(EntrySpec { mode: MODES[(r >> 20) as usize % 5].to_string(), name, id });
        }
        let key = |e: &EntrySpec| {
            let mut k = e.name.clone();
            if e.mode.trim_start_matches('0') == "40000" {
                k.push(b'/');
            }
            k
        };
        v.sort_by(|a, b| key(a).cmp(&key(b)));
        v.dedup_by(|a, b| a.name == b.name);
        v
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        for e in self.all() {
            v.extend_from_slice(e.mode.as_bytes());
            v.push(b' ');
            v.extend_from_slice(&e.name);
            v.push(0);
            v.extend_from_slice(&e.id);
        }
        v
    }
    pub fn expected(&self) -> Parsed {
        Parsed::Tree(
            self.all()
                .into_iter()
                .map(|e| (u16::from_str_radix(&e.mode, 8).unwrap(), e.name, e.id))
                .collect(),
        )
    }
}

pub const MODES: [&str; 7] = ["100644", "40000", "100755", "120000", "160000", "100664", "040000"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Obj {
    Blob(Data),
    Tree(TreeSpec),
    Commit(CommitSpec),
    Tag(TagSpec),
}

impl Obj {
    pub fn kind(&self) -> Kind {
        match self {
            Obj::Blob(_) => Kind::Blob,
            Obj::Tree(_) => Kind::Tree,
            Obj::Commit(_) => Kind::Commit,
            Obj::Tag(_) => Kind::Tag,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Obj::Blob(d) => d.bytes(),
            Obj::Tree(t) => t.bytes(),
            Obj::Commit(c) => c.bytes(),
            Obj::Tag(t) => t.bytes(),
        }
    }
    pub fn expected(&self) -> Parsed {
        match self {
            Obj::Blob(d) => Parsed::Blob(d.bytes()),
            Obj::Tree(t) => t.expected(),
            Obj::Commit(c) => c.expected(),
            Obj::Tag(t) => t.expected(),
        }
    }
    pub fn made(&self) -> Made {
        let bytes = self.bytes();
        let id = object_id(self.kind(), &bytes);
        Made { kind: self.kind(), id, want: self.expected(), bytes }
    }
}

/// A concrete object: what is stored and what should be reported.
#[derive(Clone)]
pub struct Made {
    pub kind: Kind,
    pub bytes: Vec<u8>,
    pub id: Oid,
    pub want: Parsed,
}

pub fn blob_made(bytes: Vec<u8>) -> Made {
    Made { kind: Kind::Blob, id: object_id(Kind::Blob, &bytes), want: Parsed::Blob(bytes.clone()), bytes }
}

const fn known(hex: &[u8; 40]) -> Oid {
    const fn digit(b: u8) -> u8 {
        if b <= b'9' {
            b - b'0'
        } else {
            b - b'a' + 10
        }
    }
    let mut o = [0; 20];
    let mut i = 0;
    while i < 20 {
        o[i] = digit(hex[2 * i]) << 4 | digit(hex[2 * i + 1]);
        i += 1;
    }
    o
}

/// Ids that programs know: no object, the empty tree, the empty blob, the hash of nothing.
pub const KNOWN_IDS: [Oid; 4] = [
    [0; 20],
    known(b"4b825dc642cb6eb9a060e54bf8d69288fbee4904"),
    known(b"e69de29bb2d1d6434b8b29ae775ad8c2e48c5391"),
    known(b"da39a3ee5e6b4b0d3255bfef95601890afd80709"),
];

pub fn oid() -> BoxedStrategy<Oid> {
    prop_oneof![
        12 => any::<[u8; 20]>(),
        1 => select(KNOWN_IDS.to_vec()),
        2 => select(vec![0u8, 0x20, 0x0a, 0xff, 0x30]).prop_map(|b| [b; 20]),
        4 => (any::<[u8; 20]>(), vec((0usize..20, select(vec![0u8, 0x20, 0x0a, 0x3c, 0xff])), 1..6)).prop_map(|(mut i, v)| {
            for (p, b) in v {
                i[p] = b;
            }
            i
        }),
    ]
    .boxed()
}

/// What programs that mean well treat specially.
const SPECIAL: [&[u8]; 64] = [
    b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\r\n", b"\r", b"\xc2\x85", b"\xe2\x80\xa8", b"\xe2\x80\x8b", b"\xc2\xa0", b"\xe3\x80\x80", b"\xc2\xad",
    b"e\xcc\x81", b"\xc3\xa9", b"\xe2\x84\xab", b"\xed\xa0\x80", b"\xf0\x9f\x98\x80", b"\xc0\xaf", b"\xe9", b"\x80", b"\t", b" \n", b"\n\n\n", b"\x0c", b"\x0b", b"\x1b[31m",
    b"\x08", b"\x7f", b"\x1a", b"\x04", b"\x00", b"%20", b"%2F", b"%00", b"&amp;", b"&#39;", b"\\n", b"\\", b"\\303\\251", b"\\x41", b"\\u0041", b"=?utf-8?q?=41?=", b"=41", b"$HOME",
    b"${x}", b"~", b"~/x", b"*", b"?", b"[a]", b"C:\\x", b"file:///x", b"git~1", b".git", b".GIT", b"con", b"-", b"--", b"@{-1}", b"HEAD", b"!x", b"\"q\"", b"'q'", b"`q`", b"ABC",
];

/// Text put together from such pieces and plain ones.
pub fn special() -> BoxedStrategy<Vec<u8>> {
    let piece = prop_oneof![3 => select(SPECIAL.to_vec()).prop_map(|s| s.to_vec()), 1 => "[a-zA-Z0-9 ._-]{1,6}".prop_map(|s| s.into_bytes())];
    vec(piece, 1..5).prop_map(|v| v.concat()).boxed()
}

/// The same without some bytes, and of at least one.
pub fn special_without(not: &'static [u8]) -> BoxedStrategy<Vec<u8>> {
    special()
        .prop_map(move |v| {
            let v: Vec<u8> = v.into_iter().filter(|b| !not.contains(b)).collect();
            if v.is_empty() {
                b"s".to_vec()
            } else {
                v
            }
        })
        .boxed()
}

/// Lines of which git's own formats, and what people paste, are made.
const LINES: [&[u8]; 40] = [
    b"", b" ", b"\t", b"\r", b"tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904", b"parent 4b825dc642cb6eb9a060e54bf8d69288fbee4904",
    b"parent 4b82", b"author A U Thor <author@example.com> 1 +0000", b"author ", b"committer C <c@d> 2 -0100", b"committer", b"encoding UTF-8",
    b"encoding", b"object 4b825dc642cb6eb9a060e54bf8d69288fbee4904", b"type commit", b"type", b"tag v1", b"tagger T <t@u> 3 +0100",
    b"gpgsig -----BEGIN PGP SIGNATURE-----", b"-----BEGIN PGP SIGNATURE-----", b"-----END PGP SIGNATURE-----", b"-----BEGIN PGP MESSAGE-----",
    b"-----BEGIN SSH SIGNATURE-----", b"-----END SSH SIGNATURE-----", b"-----BEGIN SIGNED MESSAGE-----", b"-----END SIGNED MESSAGE-----",
    b"Version: GnuPG v2", b"iQEzBAABCAAdFiEE", b"=abcd", b"mergetag object 4b825dc642cb6eb9a060e54bf8d69288fbee4904", b"Signed-off-by: A <a@b>",
    b"Co-authored-by: C <c@d>", b"# a comment", b"diff --git a/x b/x", b"--- a/x", b"# ------------------------ >8 ------------------------", b"\xff\xfe\x00", b"\xe9t\xe9",
    b"ref: refs/heads/x", b"git-svn-id: http://x/trunk@1 0",
];

/// Such lines in any order.
fn soup(lines: std::ops::Range<usize>) -> BoxedStrategy<Vec<Vec<u8>>> {
    vec(0usize..LINES.len(), lines).prop_map(|v| v.into_iter().map(|k| LINES[k].to_vec()).collect()).boxed()
}

fn header_value() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => (0usize..LINES.len()).prop_map(|k| LINES[k].to_vec()),
        3 => "[ -~]{0,30}".prop_map(|s| s.into_bytes()),
        1 => Just(vec![]),
        1 => vec(any::<u8>().prop_map(|b| if b == b'\n' { b' ' } else { b }), 0..20),
        1 => special_without(b"\n"),
        1 => select(vec!["encoding latin1", "author A <a@b> 1 +0000", "committer C <c@d> 2 +0000", "tree 0000", "", "-----BEGIN PGP SIGNATURE-----"])
            .prop_map(|s| s.as_bytes().to_vec()),
    ]
    .boxed()
}

pub fn header_spec() -> BoxedStrategy<Header> {
    let key = prop_oneof![
        3 => select(vec!["gpgsig", "mergetag", "HG:extra", "change-id", "gpgsig-sha256", "encodings", "authored", "treeish", "x"])
            .prop_map(|s| s.as_bytes().to_vec()),
        1 => "[a-z][a-z0-9-]{0,12}".prop_map(|s| if s == "encoding" { b"encodin".to_vec() } else { s.into_bytes() }),
    ];
    (key, vec(header_value(), 1..5)).prop_map(|(key, lines)| Header { key, lines }).boxed()
}

pub fn message() -> BoxedStrategy<Data> {
    prop_oneof![
        1 => Just(Data::Raw(vec![])),
        2 => special().prop_map(Data::Raw),
        3 => "[ -~\n]{0,60}".prop_map(|s| Data::Raw(s.into_bytes())),
        2 => vec(any::<u8>(), 0..60).prop_map(Data::Raw),
        1 => select(vec!["\n", "\n\nx", "encoding x\n\ny", "author A <a@b> 1 +0000\n", "tree \0", "\0"]).prop_map(|s| Data::Raw(s.as_bytes().to_vec())),
        2 => (soup(1..9), any::<bool>()).prop_map(|(v, end)| {
            let mut m = v.join(&b'\n');
            if end {
                m.push(b'\n');
            }
            Data::Raw(m)
        }),
        2 => (len_upto(40000), 1u8..5, any::<u64>()).prop_map(|(len, style, seed)| Data::Gen { len, style, seed }),
    ]
    .boxed()
}

/// Ids of which some are the same, or nearly.
fn oids(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Oid>> {
    (vec(oid(), n), vec((any::<u8>(), any::<u8>(), 0u8..20, 0u8..3), 0..4))
        .prop_map(|(mut v, same)| {
            for (a, b, at, x) in same {
                if !v.is_empty() {
                    let (a, b) = (a as usize % v.len(), b as usize % v.len());
                    v[a] = v[b];
                    v[a][at as usize] ^= x;
                }
            }
            v
        })
        .boxed()
}

pub fn commit_with(id: impl Fn() -> BoxedStrategy<Ident>) -> BoxedStrategy<CommitSpec> {
    let parents = prop_oneof![
        6 => oids(0..4),
        1 => oids(4..20),
        1 => oids(60..70),
    ];
    (
        oid(),
        parents,
        id(),
        prop_oneof![5 => Just(vec![]), 1 => vec(id(), 1..3)],
        id(),
        prop_oneof![3 => Just(vec![]), 3 => vec(header_spec(), 1..4)],
        proptest::option::weighted(
            0.3,
            (
                any::<u8>(),
                prop_oneof![
                    4 => select(vec!["UTF-8", "ISO-8859-1", "latin1", "x", "SHIFT JIS", " ", "", "utf8\r", " utf-8", "cp1252 "]).prop_map(|s| s.as_bytes().to_vec()),
                    1 => vec(any::<u8>().prop_map(|b| if b == b'\n' { b' ' } else { b }), 0..30),
                    1 => special_without(b"\n"),
                ],
            ),
        ),
        message(),
    )
        .prop_map(|(tree, parents, author, extra_authors, committer, headers, encoding, message)| CommitSpec {
            tree,
            parents,
            author,
            extra_authors,
            committer,
            headers,
            encoding,
            message,
        })
        .boxed()
}

pub fn commit() -> BoxedStrategy<CommitSpec> {
    commit_with(ident_clean)
}

pub fn kind() -> BoxedStrategy<Kind> {
    select(Kind::ALL.to_vec()).boxed()
}

pub fn tag_with(id: impl Fn() -> BoxedStrategy<Ident>) -> BoxedStrategy<TagSpec> {
    let name = prop_oneof![
        4 => "[a-zA-Z0-9._-]{1,20}".prop_map(|s| s.into_bytes()),
        1 => special_without(b"\n\0"),
        1 => select(vec!["v1.0 final", "tagger", "object 00", " ", "\u{e9}t\u{e9}"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => vec((1u8..=255).prop_map(|b| if b == b'\n' { b'_' } else { b }), 1..20),
    ];
    (oid(), kind(), name, proptest::option::weighted(0.75, id()), prop_oneof![4 => Just(vec![]), 1 => vec(header_spec(), 1..3)], proptest::option::weighted(0.85, message()))
        .prop_map(|(object, kind, name, tagger, headers, message)| TagSpec { object, kind, name, tagger, headers, message })
        .boxed()
}

pub fn tag() -> BoxedStrategy<TagSpec> {
    tag_with(ident_clean)
}

pub fn file_name() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => "[a-zA-Z0-9._-]{1,16}".prop_map(|s| s.into_bytes()),
        1 => special_without(b"/\0"),
        1 => select(vec![" ", "100644 x", "a b", "\n", ".", "..", ".git", "-", "\u{fc}", "40000"]).prop_map(|s| s.as_bytes().to_vec()),
        2 => vec((1u8..=255).prop_map(|b| if b == b'/' { b'_' } else { b }), 1..24),
        1 => (200usize..600, any::<u64>()).prop_map(|(n, s)| {
            let mut v = fill(n, 2, s);
            for b in v.iter_mut() {
                if *b == 0 || *b == b'/' {
                    *b = b'x';
                }
            }
            v
        }),
    ]
    .boxed()
}

pub fn tree() -> BoxedStrategy<TreeSpec> {
    let entry = (select(MODES.to_vec()), file_name(), oid())
        .prop_map(|(m, name, id)| EntrySpec { mode: m.to_string(), name, id });
    (
        prop_oneof![1 => Just(vec![]), 6 => vec(entry, 1..12)],
        prop_oneof![
            6 => Just((0u32, 0u64)),
            2 => (1u32..200, any::<u64>()),
            1 => (200u32..4000, any::<u64>()),
        ],
    )
        .prop_map(|(entries, many)| TreeSpec { entries, many })
        .boxed()
}

pub fn obj(max_blob: u32) -> BoxedStrategy<Obj> {
    prop_oneof![
        4 => data_upto(max_blob).prop_map(Obj::Blob),
        2 => tree().prop_map(Obj::Tree),
        2 => commit().prop_map(Obj::Commit),
        1 => tag().prop_map(Obj::Tag),
    ]
    .boxed()
}

/// Small objects of all kinds, for checks that need many of them cheaply.
pub fn small_obj() -> BoxedStrategy<Obj> {
    prop_oneof![
        4 => data_upto(300).prop_map(Obj::Blob),
        1 => vec((select(MODES.to_vec()), "[a-z]{1,6}", oid()), 0..4).prop_map(|v| Obj::Tree(TreeSpec {
            entries: v.into_iter().map(|(m, n, id)| EntrySpec { mode: m.into(), name: n.into_bytes(), id }).collect(),
            many: (0, 0)
        })),
        1 => (oid(), vec(oid(), 0..3), "[a-z]{0,20}").prop_map(|(tree, parents, m)| Obj::Commit(CommitSpec {
            tree,
            parents,
            author: simple_ident(),
            extra_authors: vec![],
            committer: simple_ident(),
            headers: vec![],
            encoding: None,
            message: Data::Raw(m.into_bytes()),
        })),
        1 => (oid(), kind(), "[a-z]{1,8}").prop_map(|(object, kind, n)| Obj::Tag(TagSpec {
            object,
            kind,
            name: n.into_bytes(),
            tagger: Some(simple_ident()),
            headers: vec![],
            message: Some(Data::Raw(b"msg\n".to_vec())),
        })),
    ]
    .boxed()
}

pub fn simple_ident() -> Ident {
    Ident {
        name: [vec![], b"Ann Other".to_vec(), vec![]],
        email: [vec![], b"ann@example.org".to_vec(), vec![]],
        time: Some("1596907199".into()),
        zone: Some("+0100".into()),
    }
}
