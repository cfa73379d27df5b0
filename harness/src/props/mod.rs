use crate::engine::*;
use crate::model::*;
use rusty_git::object::{Object, ObjectDatabase, ShortId};
use rusty_git::repository::Repository;
use std::io::Read;
use std::path::Path;

mod c01;
mod c12;
mod c13;
mod cost;
mod crash;
mod decode;
mod faults;
mod hostile;
mod packs;
mod refs;
mod repack;
mod repo;
mod report;
mod threads;
mod values;

pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => c01::prop(),
        "C02" => crash::prop(),
        "C03" => packs::c03(),
        "C04" => packs::c04(),
        "C05" => packs::c05(),
        "C06" => hostile::c06(),
        "C07" => hostile::c07(),
        "C08" => decode::c08(),
        "C09" => decode::c09(),
        "C10" => decode::c10(),
        "C11" => decode::c11(),
        "C12" => c12::prop(),
        "C13" => c13::prop(),
        "C14" => refs::c14(),
        "C15" => refs::c15(),
        "C16" => refs::c16(),
        "C17" => refs::c17(),
        "C18" => threads::prop(),
        "C19" => repack::prop(),
        "C20" => faults::c20(),
        "C21" => faults::c21(),
        "C22" => repo::c22(),
        "C23" => repo::c23(),
        "C24" => values::c24(),
        "C25" => values::c25(),
        "C26" => report::c26(),
        "C27" => cost::c27(),
        _ => return None,
    })
}

pub fn err_text(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(e) = c {
        s.push_str(" <- ");
        s.push_str(&e.to_string());
        c = e.source();
    }
    s
}

pub fn open(dir: &Path) -> Res<Repository> {
    match guard("Repository::open", || Repository::open(dir))? {
        Ok(r) => Ok(r),
        Err(e) => violation("open-failed", format!("opening {}: {}", dir.display(), err_text(&e))),
    }
}

/// What a lookup gave.
pub enum Got {
    Object(Parsed),
    NotFound,
    Error(String),
}

impl std::fmt::Debug for Got {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Got::Object(p) => p.fmt(f),
            Got::NotFound => write!(f, "not found"),
            Got::Error(e) => write!(f, "error: {e}"),
        }
    }
}

/// Parse an object; checks that an error names the id and that the object carries it.
pub fn lookup(db: &ObjectDatabase, id: &Oid) -> Res<Got> {
    let want = id_of(id);
    let r = guard(&format!("parse_object({})", hex(id)), || match db.parse_object(want) {
        Ok(o) => Ok((oid_of(o.id()), observe(&o))),
        Err(e) => {
            let _ = format!("{e:?}");
            Err((e.is_not_found(), e.is_ambiguous(), e.id(), err_text(&e)))
        }
    })?;
    match r {
        Ok((got, p)) => {
            crate::ensure!(got == *id, "wrong-id", "parse_object({}) returned an object that calls itself {}", hex(id), hex(&got));
            Ok(Got::Object(p))
        }
        Err((nf, amb, sid, text)) => {
            crate::ensure!(sid == ShortId::from(want), "wrong-error-id", "the error for {} names {}", hex(id), sid);
            crate::ensure!(!amb, "ambiguous", "a full id {} was reported as ambiguous", hex(id));
            Ok(if nf { Got::NotFound } else { Got::Error(text) })
        }
    }
}

pub fn expect_object(db: &ObjectDatabase, m: &Made, what: &str) -> Res {
    match lookup(db, &m.id)? {
        Got::Object(p) => expect_parsed(&format!("{what}: {} {}", m.kind.name(), hex(&m.id)), &p, &m.want),
        Got::NotFound => violation("not-found", format!("{what}: stored {} {} was reported as not found", m.kind.name(), hex(&m.id))),
        Got::Error(e) => violation("read-error", format!("{what}: reading stored {} {} failed: {e}", m.kind.name(), hex(&m.id))),
    }
}

pub fn expect_absent(db: &ObjectDatabase, id: &Oid, what: &str) -> Res {
    match lookup(db, id)? {
        Got::NotFound => (),
        Got::Object(p) => return violation("phantom", format!("{what}: absent id {} gave {p:?}", hex(id))),
        Got::Error(e) => return violation("absent-error", format!("{what}: absent id {} gave an error other than not found: {e}", hex(id))),
    }
    match stream(db, id, 0)? {
        Streamed::NotFound => Ok(()),
        o => violation("absent-error", format!("{what}: read_object of absent id {} gave {o:?}", hex(id))),
    }
}

pub enum Streamed {
    Bytes(Vec<u8>),
    NotFound,
    Error(String),
}

impl std::fmt::Debug for Streamed {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Streamed::Bytes(b) => write!(f, "{}", show(b)),
            Streamed::NotFound => write!(f, "not found"),
            Streamed::Error(e) => write!(f, "error: {e}"),
        }
    }
}

/// Stream an object; `piece` 0 reads to the end at once, other values read in pieces of that size.
pub fn stream(db: &ObjectDatabase, id: &Oid, piece: usize) -> Res<Streamed> {
    guard(&format!("read_object({})", hex(id)), || match db.read_object(id_of(id)) {
        Ok(mut r) => {
            let mut v = vec![];
            let r = r.reader();
            if piece == 0 {
                match r.read_to_end(&mut v) {
                    Ok(_) => Streamed::Bytes(v),
                    Err(e) => Streamed::Error(err_text(&e)),
                }
            } else {
                let mut buf = vec![0; piece];
                loop {
                    match r.read(&mut buf) {
                        Ok(0) => break Streamed::Bytes(v),
                        Ok(n) => v.extend_from_slice(&buf[..n]),
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                        Err(e) => break Streamed::Error(err_text(&e)),
                    }
                }
            }
        }
        Err(e) if e.is_not_found() => Streamed::NotFound,
        Err(e) => Streamed::Error(err_text(&e)),
    })
}

/// A stored object streams its content; a loose one is preceded by its header.
pub fn expect_stream(db: &ObjectDatabase, m: &Made, piece: usize, loose: bool, packed: bool, what: &str) -> Res {
    match stream(db, &m.id, piece)? {
        Streamed::Bytes(b) if packed && b == m.bytes => Ok(()),
        Streamed::Bytes(b) if loose && b == framed(m.kind, &m.bytes) => Ok(()),
        Streamed::Bytes(b) => violation(
            "wrong-stream",
            format!("{what}: {} {} streamed {} instead of {}", m.kind.name(), hex(&m.id), show(&b), show(&m.bytes)),
        ),
        Streamed::NotFound => violation("not-found", format!("{what}: stored {} {} was reported as not found", m.kind.name(), hex(&m.id))),
        Streamed::Error(e) => violation("read-error", format!("{what}: streaming {} {} failed: {e}", m.kind.name(), hex(&m.id))),
    }
}

pub fn write(db: &ObjectDatabase, bytes: &[u8]) -> Res<Result<Oid, String>> {
    guard("write_object", || match db.write_object(bytes) {
        Ok(id) => Ok(oid_of(&id)),
        Err(e) => Err(err_text(&e)),
    })
}

pub fn expect_write(db: &ObjectDatabase, bytes: &[u8], what: &str) -> Res<Oid> {
    match write(db, bytes)? {
        Ok(id) => {
            let want = sha1(bytes);
            crate::ensure!(id == want, "wrong-write-id", "{what}: write_object returned {} for bytes whose SHA-1 is {}", hex(&id), hex(&want));
            Ok(id)
        }
        Err(e) => violation("write-error", format!("{what}: write_object failed: {e}")),
    }
}

#[allow(dead_code)]
pub fn keep(_: &Object) {}
