//! Single-fault variants of well-formed objects: each must be refused.
use super::*;
use crate::store::*;
use crate::{bad, ensure};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faulty {
    obj: Obj,
    fault: u8,
    a: u32,
    b: u8,
    place: u8,
}

/// Join header lines, blank line and message.
fn join(lines: &[Vec<u8>], rest: Option<&[u8]>) -> Vec<u8> {
    let mut v = vec![];
    for l in lines {
        v.extend_from_slice(l);
        v.push(b'\n');
    }
    if let Some(m) = rest {
        v.push(b'\n');
        v.extend_from_slice(m);
    }
    v
}

/// Damage the 40 hex digits that start at `at` of a line.
fn hurt_hex(line: &mut Vec<u8>, at: usize, a: u32, b: u8) -> &'static str {
    let p = at + a as usize % 40;
    match b % 7 {
        0 => {
            line.remove(p);
            "id one digit short"
        }
        1 => {
            line.insert(p, b"0123456789abcdef"[a as usize % 16]);
            "id one digit long"
        }
        2 => {
            line[p] = b"gGzZ`@/: \t+-_xX\0"[(a / 40) as usize % 16];
            "id with a character that is no hex digit"
        }
        3 => {
            line.push(b' ');
            "space after the id"
        }
        4 => {
            line.insert(at, b' ');
            "two spaces before the id"
        }
        5 => {
            line.truncate(at + a as usize % 40);
            "id cut short"
        }
        _ => {
            let mut more = line[at..].to_vec();
            more.truncate(1 + a as usize % 40);
            line.extend(more);
            "id with more digits after it"
        }
    }
}

/// The faulty body, or none if the fault does not apply to this object.
fn damage(c: &Faulty) -> Option<(Vec<u8>, &'static str)> {
    match &c.obj {
        Obj::Commit(s) => {
            let mut lines = s.header_lines();
            let msg = s.message.bytes();
            let np = s.parents.len();
            let author = 1 + np;
            let na = 1 + s.extra_authors.len();
            let committer = author + na;
            match c.fault % 14 {
                0 => {
                    lines.remove(0);
                    Some((join(&lines, Some(&msg)), "no tree line"))
                }
                1 => {
                    lines.drain(author..committer);
                    Some((join(&lines, Some(&msg)), "no author line"))
                }
                2 => {
                    lines.remove(committer);
                    Some((join(&lines, Some(&msg)), "no committer line"))
                }
                3 => Some((join(&lines, None), "no blank line and no message")),
                4 => {
                    // the blank line left out: the message runs on from the header
                    let flat: Vec<u8> = msg.iter().map(|b| if *b == b'\n' { b'.' } else { *b }).collect();
                    let mut v = join(&lines, None);
                    v.extend(flat);
                    Some((v, "no blank line before the message"))
                }
                5 | 6 => {
                    let what = hurt_hex(&mut lines[0], 5, c.a, c.b);
                    Some((join(&lines, Some(&msg)), what))
                }
                7 | 8 if np > 0 => {
                    let what = hurt_hex(&mut lines[1 + c.a as usize / 64 % np], 7, c.a, c.b);
                    Some((join(&lines, Some(&msg)), what))
                }
                9 => {
                    let (x, y) = match c.b % 3 {
                        0 => (0, author),
                        1 => (author, committer),
                        _ => (0, committer),
                    };
                    if c.b % 3 == 1 && na > 1 {
                        return None;
                    }
                    lines.swap(x, y);
                    Some((join(&lines, Some(&msg)), "required lines out of order"))
                }
                10 => {
                    let i = [0, author, committer][c.b as usize % 3];
                    let key = lines[i].iter().position(|b| *b == b' ').unwrap();
                    if i == author && na > 1 {
                        return None;
                    }
                    match c.a % 4 {
                        0 => lines[i][0] = lines[i][0].to_ascii_uppercase(),
                        1 => lines[i][key] = b'\t',
                        2 => {
                            lines[i].remove(key - 1);
                        }
                        _ => lines[i].insert(key, b's'),
                    }
                    Some((join(&lines, Some(&msg)), "key of a required line misspelt"))
                }
                11 => {
                    let i = if c.b % 2 == 0 { author } else { committer };
                    let drop: u8 = if c.a % 2 == 0 { b'<' } else { b'>' };
                    lines[i].retain(|b| *b != drop);
                    Some((join(&lines, Some(&msg)), "identity without its angle brackets"))
                }
                12 if np > 0 => {
                    let p = lines.remove(1);
                    lines.insert(0, p);
                    Some((join(&lines, Some(&msg)), "parent before tree"))
                }
                _ => {
                    // cut anywhere before the end of the blank line
                    let v = join(&lines, Some(&[]));
                    let n = c.a as usize % v.len();
                    Some((v[..n].to_vec(), "cut inside the header"))
                }
            }
        }
        Obj::Tag(s) => {
            let mut lines = s.header_lines();
            let msg = s.message.as_ref().map(|m| m.bytes());
            let m = msg.as_deref();
            match c.fault % 8 {
                0 => {
                    lines.remove(c.b as usize % 3);
                    Some((join(&lines, m), "a required line missing"))
                }
                1 => {
                    let (x, y) = [(0, 1), (1, 2), (0, 2)][c.b as usize % 3];
                    lines.swap(x, y);
                    Some((join(&lines, m), "required lines out of order"))
                }
                2 | 3 => {
                    let what = hurt_hex(&mut lines[0], 7, c.a, c.b);
                    Some((join(&lines, m), what))
                }
                4 => {
                    let k = ["", "blobb", "comit", "Tree", "commit ", " tag", "ofs-delta", "commit\0", "1", "blob tree"][c.b as usize % 10];
                    lines[1] = format!("type {k}").into_bytes();
                    Some((join(&lines, m), "unknown target kind"))
                }
                5 => {
                    let i = c.b as usize % 3;
                    let key = lines[i].iter().position(|b| *b == b' ').unwrap();
                    match c.a % 3 {
                        0 => lines[i][0] = lines[i][0].to_ascii_uppercase(),
                        1 => lines[i][key] = b'\t',
                        _ => lines[i].insert(key, b's'),
                    }
                    Some((join(&lines, m), "key of a required line misspelt"))
                }
                6 if s.tagger.is_some() => {
                    let drop: u8 = if c.a % 2 == 0 { b'<' } else { b'>' };
                    lines[3].retain(|b| *b != drop);
                    Some((join(&lines, m), "identity without its angle brackets"))
                }
                _ => {
                    let v = join(&lines[..3], None);
                    let n = c.a as usize % v.len();
                    Some((v[..n].to_vec(), "cut inside the required lines"))
                }
            }
        }
        Obj::Tree(t) => {
            let mut all = t.all();
            if all.is_empty() {
                return None;
            }
            let i = c.a as usize / 1024 % all.len();
            let enc = |e: &[EntrySpec]| TreeSpec { entries: vec![], many: (0, 0) }.bytes_of(e);
            match c.fault % 6 {
                0 | 1 => {
                    // cut inside entry i
                    let from = enc(&all[..i]).len();
                    let to = enc(&all[..=i]).len();
                    let n = from + 1 + c.a as usize % (to - from - 1);
                    Some((enc(&all)[..n].to_vec(), "last entry incomplete"))
                }
                2 | 3 => {
                    let m = &mut all[i].mode;
                    let p = c.a as usize % m.len();
                    let what = match c.b % 6 {
                        0 => {
                            let d = ["8", "9", "a", "x", "/", ":", "-", "\t", "\u{e9}", "."][c.a as usize / 16 % 10];
                            m.replace_range(p..p + 1, d);
                            "mode with a character that is no octal digit"
                        }
                        1 => {
                            m.clear();
                            "empty mode"
                        }
                        2 => {
                            m.insert(0, if c.a % 2 == 0 { '+' } else { '-' });
                            "mode with a sign"
                        }
                        3 => {
                            *m = ["200000", "777777", "1000000", "400000000000", "77777777777777777777777"][c.a as usize % 5].into();
                            "mode that does not fit 16 bits"
                        }
                        4 => {
                            m.insert(p, b"89abxX"[c.a as usize / 16 % 6] as char);
                            "mode with a character that is no octal digit"
                        }
                        _ => {
                            m.insert(0, ' ');
                            "mode with a space before it"
                        }
                    };
                    Some((enc(&all), what))
                }
                4 => {
                    // last entry without its NUL, and no NUL in its id
                    let k = all.len() - 1;
                    for b in all[k].id.iter_mut() {
                        if *b == 0 {
                            *b = 1;
                        }
                    }
                    let mut v = enc(&all);
                    let at = v.len() - 21;
                    v.remove(at);
                    Some((v, "last entry without NUL"))
                }
                _ => {
                    // last entry without any space
                    let k = all.len() - 1;
                    let from = enc(&all[..k]).len();
                    let mut v = enc(&all);
                    let tail: Vec<u8> = v.split_off(from).into_iter().filter(|b| *b != b' ').collect();
                    v.extend(tail);
                    Some((v, "last entry without space"))
                }
            }
        }
        Obj::Blob(_) => None,
    }
}

impl TreeSpec {
    fn bytes_of(&self, e: &[EntrySpec]) -> Vec<u8> {
        let mut v = vec![];
        for e in e {
            v.extend_from_slice(e.mode.as_bytes());
            v.push(b' ');
            v.extend_from_slice(&e.name);
            v.push(0);
            v.extend_from_slice(&e.id);
        }
        v
    }
}

fn refuse(repo: &rusty_git::repository::Repository, id: &Oid, what: &str, body: &[u8]) -> Res {
    match lookup(repo.object_database(), id)? {
        Got::Error(_) => Ok(()),
        Got::NotFound => violation("not-found", format!("{what}: reported as not found instead of invalid: {}", show(body))),
        Got::Object(p) => violation("accepted", format!("{what}: {} was read as {p:?}", show(body))),
    }
}

fn put_pack_as(g: &Path, kind: Kind, body: &[u8], level: u8) -> Res<Oid> {
    let id = object_id(kind, body);
    let e = PackEntry { id, kind, bytes: body.to_vec(), repr: Repr::Whole, level, gap: 0, pad: 0 };
    let pack = build_pack(2, &[e]);
    let idx = idx_for(&pack, &[id], 2, None);
    put_pack(g, &pack.bytes, &idx, &pack.sum)?;
    Ok(id)
}

fn body(c: &Faulty, ctx: &mut Ctx) -> Res {
    let Some((b, what)) = damage(c) else {
        ctx.label("fault does not apply");
        return Ok(());
    };
    let kind = c.obj.kind();
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let id = if c.place % 3 == 0 {
        put_pack_as(&g, kind, &b, 6)?
    } else {
        let id = object_id(kind, &b);
        put_loose_raw(&g, &id, &deflate(&framed(kind, &b), 6))?;
        id
    };
    ctx.label(format!("{}: {what}", kind.name()));
    ctx.nontrivial(true);
    refuse(&open(&dir)?, &id, &format!("{} with {what}", kind.name()), &b)
}

// ---------------------------------------------------------------- header faults

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadHeader {
    obj: Obj,
    fault: u8,
    a: u32,
}

fn head(c: &BadHeader, ctx: &mut Ctx) -> Res {
    let kind = c.obj.kind();
    let body = c.obj.bytes();
    let n = body.len() as i128;
    let k = kind.name();
    let a = c.a as i128;
    let (h, what): (Vec<u8>, &str) = match c.fault % 19 {
        0 => (format!("{k} {}\0", n + 1 + a % 5).into(), "size too large"),
        1 => (format!("{k} {}\0", n + 1 + a * 4096).into(), "size much too large"),
        2 if n > 0 => (format!("{k} {}\0", n - 1 - a % n).into(), "size too small"),
        3 => {
            let w = ["blobb", "Blob", "", "comit", "trees", "TAG", "b", "delta", "ofs-delta", "blob\n", "commi"][c.a as usize % 11];
            (format!("{w} {n}\0").into(), "unknown kind")
        }
        4 => (format!("{k} -{n}\0").into(), "negative size"),
        5 => (format!("{k} +{n}\0").into(), "size with a sign"),
        6 => (format!("{k} 0x{n:x}\0").into(), "size in hex"),
        7 => (format!("{k} \0").into(), "no size"),
        8 => (format!("{k}  {n}\0").into(), "two spaces"),
        9 => (format!("{k} {n} \0").into(), "space after the size"),
        10 => (format!("{k} {}\0", n + (1i128 << 64)).into(), "size above 2^64"),
        11 => (format!("{k} {}\0", u64::MAX as i128 - a).into(), "size just below 2^64"),
        12 => (format!("{k}{n}\0").into(), "no space"),
        13 => {
            // no NUL, and none in what follows: use text
            let t: Vec<u8> = format!("{k} {n}").into_bytes();
            let b: Vec<u8> = body.iter().map(|b| if *b == 0 { b'0' } else { *b }).collect();
            let dir = ctx.sub("repo")?;
            let g = init_repo(&dir)?;
            let mut f = t;
            f.extend(b);
            let id = sha1(&f);
            put_loose_raw(&g, &id, &deflate(&f, 6))?;
            ctx.label("header: no NUL");
            ctx.nontrivial(true);
            return refuse(&open(&dir)?, &id, "header without NUL", &f);
        }
        // the same in the low bits of some integer
        16 => (format!("{k} {}\0", n + (1i128 << (8 + a % 118))).into(), "size with one more high bit"),
        17 => (format!("{k} {}\0", n + (((a + 1) & 0x7fff_ffff) << 32)).into(), "size off by a multiple of 2^32"),
        18 => (format!("{k} {}\0", n - (1i128 << (8 + a % 118))).into(), "size with a high bit less"),
        14 => (format!("{n} {k}\0").into(), "size before kind"),
        _ => (format!("{k} {n}.0\0").into(), "size with a fraction"),
    };
    let mut f = h;
    f.extend_from_slice(&body);
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let id = sha1(&f);
    put_loose_raw(&g, &id, &deflate(&f, 6))?;
    ctx.label(format!("header: {what}"));
    ctx.nontrivial(true);
    refuse(&open(&dir)?, &id, &format!("header with {what}"), &f)
}

// ---------------------------------------------------------------- the wrong kind

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WrongKind {
    obj: Obj,
    as_kind: Kind,
    packed: bool,
}

/// The body of one kind under the name of another is refused (a blob may hold anything).
fn wrong_kind(c: &WrongKind, ctx: &mut Ctx) -> Res {
    let kind = c.obj.kind();
    let b = c.obj.bytes();
    if c.as_kind == kind || c.as_kind == Kind::Blob || kind == Kind::Blob || b.is_empty() {
        ctx.label("kinds do not conflict");
        return Ok(());
    }
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let id = if c.packed {
        put_pack_as(&g, c.as_kind, &b, 6)?
    } else {
        let id = object_id(c.as_kind, &b);
        put_loose_raw(&g, &id, &deflate(&framed(c.as_kind, &b), 6))?;
        id
    };
    ctx.label(format!("{} as {}", kind.name(), c.as_kind.name()));
    ctx.nontrivial(true);
    refuse(&open(&dir)?, &id, &format!("{} body under kind {}", kind.name(), c.as_kind.name()), &b)
}

// ---------------------------------------------------------------- soundness on near misses

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mutated {
    obj: Obj,
    at: u32,
    len: u8,
    byte: u8,
    what: u8,
}

/// Any small change of a body: what is reported must be what the strict reading
/// of the changed bytes says, or an error; never something else.
fn mutated(c: &Mutated, ctx: &mut Ctx) -> Res {
    let kind = c.obj.kind();
    let mut b = c.obj.bytes();
    if b.is_empty() {
        return Ok(());
    }
    // mostly near the front, where the structure is
    let n = b.len();
    let at = if c.at % 4 != 0 { c.at as usize % n.min(260) } else { c.at as usize % n };
    let len = 1 + c.len as usize % 4;
    match c.what % 5 {
        0 => b[at] = c.byte,
        1 => b.insert(at, c.byte),
        2 => drop(b.drain(at..(at + len).min(n))),
        3 => {
            let piece = b[at..(at + len * 10).min(n)].to_vec();
            b.splice(at..at, piece);
        }
        _ => {
            let x = (at + 1 + c.byte as usize) % n;
            b.swap(at, x);
        }
    }
    let want = strict(kind, &b);
    let dir = ctx.sub("repo")?;
    let g = init_repo(&dir)?;
    let id = object_id(kind, &b);
    put_loose_raw(&g, &id, &deflate(&framed(kind, &b), 6))?;
    let got = lookup(open(&dir)?.object_database(), &id)?;
    match (got, want) {
        (Got::Object(p), Some(w)) => {
            ensure!(p == w, "misread", "{} {} was read as {p:?}, it says {w:?}", kind.name(), show(&b));
            ctx.label("still well-formed");
            ctx.nontrivial(true);
        }
        (Got::Object(p), None) => bad!("accepted", "{} {} was read as {p:?}", kind.name(), show(&b)),
        (Got::Error(_), None) => {
            ctx.label("malformed");
            ctx.nontrivial(true);
        }
        (Got::Error(_), Some(_)) => ctx.label("refused although the required structure is there"),
        (Got::NotFound, _) => bad!("not-found", "{} {} was reported as not found", kind.name(), show(&b)),
    }
    Ok(())
}

/// A reading of the format written from the statement: fields are taken as far
/// as they are required to be, and identities are not looked into.
fn strict(kind: Kind, b: &[u8]) -> Option<Parsed> {
    fn line<'a>(b: &mut &'a [u8], key: &[u8]) -> Option<&'a [u8]> {
        let n = b.iter().position(|c| *c == b'\n')?;
        let l = b[..n].strip_prefix(key)?;
        *b = &b[n + 1..];
        Some(l)
    }
    fn id(l: &[u8]) -> Option<Oid> {
        if l.len() != 40 || !l.iter().all(|c| c.is_ascii_hexdigit()) {
            return None;
        }
        let s = std::str::from_utf8(l).ok()?;
        let mut o = [0; 20];
        for (i, x) in o.iter_mut().enumerate() {
            *x = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()?;
        }
        Some(o)
    }
    fn ident(l: &[u8]) -> Option<Sig> {
        // the last " <", then the last '>' after it
        let lt = l.windows(2).rposition(|w| w == b" <")?;
        let gt = l.iter().rposition(|c| *c == b'>')?;
        if gt < lt + 2 {
            // an earlier " <" may still have its '>'
            let lt2 = l[..gt].windows(2).rposition(|w| w == b" <")?;
            return Some(fields(l, lt2, gt));
        }
        Some(fields(l, lt, gt))
    }
    fn fields(l: &[u8], lt: usize, gt: usize) -> Sig {
        let trim = |v: &[u8]| {
            let a = v.iter().position(|c| !is_crud(*c)).unwrap_or(v.len());
            let z = v.iter().rposition(|c| !is_crud(*c)).map_or(a, |p| p + 1);
            v[a..z].to_vec()
        };
        let digits = |v: &[u8]| v.iter().take_while(|c| c.is_ascii_digit()).count();
        let rest = &l[gt + 1..];
        let (mut time, mut zone) = (None, None);
        if rest.first() == Some(&b' ') && digits(&rest[1..]) > 0 {
            let n = digits(&rest[1..]);
            time = Some(rest[1..1 + n].to_vec());
            let rest = &rest[1 + n..];
            if rest.len() > 2 && rest[0] == b' ' && (rest[1] == b'+' || rest[1] == b'-') && digits(&rest[2..]) > 0 {
                zone = Some(rest[1..2 + digits(&rest[2..])].to_vec());
            }
        }
        Sig { name: trim(&l[..lt]), email: trim(&l[lt + 2..gt]), time, zone }
    }
    let mut r = b;
    match kind {
        Kind::Blob => Some(Parsed::Blob(b.to_vec())),
        Kind::Tree => {
            let mut v = vec![];
            while !r.is_empty() {
                let sp = r.iter().position(|c| *c == b' ')?;
                let mode = &r[..sp];
                if mode.is_empty() || !mode.iter().all(|c| (b'0'..=b'7').contains(c)) {
                    return None;
                }
                let mode = u16::from_str_radix(std::str::from_utf8(mode).ok()?, 8).ok()?;
                r = &r[sp + 1..];
                let nul = r.iter().position(|c| *c == 0)?;
                let name = r[..nul].to_vec();
                r = &r[nul + 1..];
                if r.len() < 20 {
                    return None;
                }
                let mut o = [0; 20];
                o.copy_from_slice(&r[..20]);
                r = &r[20..];
                v.push((mode, name, o));
            }
            Some(Parsed::Tree(v))
        }
        Kind::Commit => {
            let tree = id(line(&mut r, b"tree ")?)?;
            let mut parents = vec![];
            while r.starts_with(b"parent ") {
                parents.push(id(line(&mut r, b"parent ")?)?);
            }
            let author = ident(line(&mut r, b"author ")?)?;
            while r.starts_with(b"author ") {
                ident(line(&mut r, b"author ")?)?;
            }
            let committer = ident(line(&mut r, b"committer ")?)?;
            let mut encoding = None;
            loop {
                if r.first() == Some(&b'\n') {
                    break;
                }
                let l = line(&mut r, b"")?;
                if let Some(e) = l.strip_prefix(b"encoding ") {
                    encoding = Some(e.to_vec());
                }
            }
            Some(Parsed::Commit { tree, parents, author, committer, encoding, message: r[1..].to_vec() })
        }
        Kind::Tag => {
            let object = id(line(&mut r, b"object ")?)?;
            let k = line(&mut r, b"type ")?;
            let k = Kind::ALL.into_iter().find(|x| x.name().as_bytes() == k)?;
            let name = line(&mut r, b"tag ")?.to_vec();
            let tagger = if r.starts_with(b"tagger ") { Some(ident(line(&mut r, b"tagger ")?)?) } else { None };
            // further headers
            while r.first().map_or(false, |c| *c != b'\n') {
                if line(&mut r, b"").is_none() {
                    r = &[];
                }
            }
            let message = if r.first() == Some(&b'\n') { Some(r[1..].to_vec()) } else { None };
            Some(Parsed::Tag { object, kind: Some(k), name, tagger, message })
        }
    }
}

fn structured() -> BoxedStrategy<Obj> {
    prop_oneof![
        3 => commit().prop_map(Obj::Commit),
        2 => tree().prop_map(Obj::Tree),
        2 => tag().prop_map(Obj::Tag),
    ]
    .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        title: "Objects with missing or malformed fields are refused, never misread",
        level: "exploration",
        rule: "a well-formed object with exactly one fault (body, object header, or kind) must give an error other than not found; an object with a small random change must give what a reader written from the statement finds in the changed bytes, or an error; non-trivial: the fault applied",
        assumptions: &["identity lines are read as in C11", "nothing is required of a tag after its tag line"],
        arms: vec![
            arm(
                "one-fault",
                24_000,
                800_000,
                (structured(), any::<u8>(), any::<u32>(), any::<u8>(), any::<u8>()).prop_map(|(obj, fault, a, b, place)| Faulty { obj, fault, a, b, place }),
                body,
            ),
            arm("header", 12_000, 400_000, (small_obj(), any::<u8>(), any::<u32>()).prop_map(|(obj, fault, a)| BadHeader { obj, fault, a }), head),
            arm(
                "wrong-kind",
                6_000,
                200_000,
                (structured(), kind(), any::<bool>()).prop_map(|(obj, as_kind, packed)| WrongKind { obj, as_kind, packed }),
                wrong_kind,
            ),
            arm(
                "small-change",
                24_000,
                1_000_000,
                (
                    prop_oneof![3 => small_obj(), 1 => structured()],
                    any::<u32>(),
                    any::<u8>(),
                    prop_oneof![select(b" \n\0<>0179af+-".to_vec()), any::<u8>()],
                    any::<u8>(),
                )
                    .prop_map(|(obj, at, len, byte, what)| Mutated { obj, at, len, byte, what }),
                mutated,
            ),
        ],
    }
}
