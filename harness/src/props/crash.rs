//! Writes that fail, are interrupted or race (C02).
use super::*;
use crate::store::*;
use crate::sys::{self, Act, Call, Plan};
use crate::{bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::path::PathBuf;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scene {
    /// What is written: an object, or (odd cases) bytes that are none.
    what: Obj,
    raw: Option<Data>,
    /// Objects already there: (object, shares the fan-out directory of the one written)
    others: Vec<(Obj, bool)>,
    pack: Option<PackSpec>,
    /// the object's fan-out directory exists already
    fanout: bool,
    /// a reader that has looked things up before
    warm: bool,
    mode: Mode,
    /// how many earlier interrupted writes of the same object there were
    crashes: u8,
    /// the object is there already: written by the library (1) or another program (2)
    stored: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mode {
    /// The process dies at a system call, for every one of them.
    Die { half: bool },
    /// One call fails, for every one of them.
    Fail { errno: u8 },
    /// From one call on, everything of the kind fails.
    FailOn { errno: u8 },
    /// A disk write stops short and later ones fail.
    Short { errno: u8 },
    /// Another writer stores the same object at each call.
    Writer { how: u8 },
    /// Another writer stores the same object at each call, and that call fails.
    WriterAndFail { how: u8, errno: u8 },
    /// A reader looks at each call.
    Reader { piece: u16 },
    /// Two processes write, and both die: the second at each call of its own.
    DieTwice { first: u8 },
    /// The temporary files' names are taken: 1, 2, ... of them, left behind by dead processes.
    Leftovers,
}

const ERRNOS: [i32; 6] = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EACCES, libc::EMFILE, libc::EROFS];

fn mode() -> BoxedStrategy<Mode> {
    prop_oneof![
        4 => any::<bool>().prop_map(|half| Mode::Die { half }),
        2 => any::<u8>().prop_map(|errno| Mode::Fail { errno }),
        1 => any::<u8>().prop_map(|errno| Mode::FailOn { errno }),
        2 => any::<u8>().prop_map(|errno| Mode::Short { errno }),
        3 => any::<u8>().prop_map(|how| Mode::Writer { how }),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(how, errno)| Mode::WriterAndFail { how, errno }),
        2 => prop_oneof![Just(0u16), 1u16..5000].prop_map(|piece| Mode::Reader { piece }),
        1 => any::<u8>().prop_map(|first| Mode::DieTwice { first }),
        1 => Just(Mode::Leftovers),
    ]
    .boxed()
}

/// Content that takes many disk writes.
fn scene_big() -> BoxedStrategy<Scene> {
    (scene(10), 60_000u32..220_000, prop_oneof![Just(2u8), Just(4u8)], any::<u64>())
        .prop_map(|(s, len, style, seed)| Scene { what: Obj::Blob(Data::Gen { len, style, seed }), raw: None, ..s })
        .boxed()
}

fn scene(max: u32) -> BoxedStrategy<Scene> {
    (
        prop_oneof![1 => small_obj(), 2 => obj(max)],
        proptest::option::weighted(0.2, data_upto(max)),
        vec((small_obj(), any::<bool>()), 0..3),
        proptest::option::weighted(0.3, pack_spec(small_obj(), 3)),
        any::<bool>(),
        any::<bool>(),
        mode(),
        prop_oneof![3 => Just(0u8), 1 => 1u8..4],
        prop_oneof![5 => Just(0u8), 1 => 1u8..3],
    )
        .prop_map(|(what, raw, others, pack, fanout, warm, mode, crashes, stored)| Scene { what, raw, others, pack, fanout, warm, mode, crashes, stored })
        .boxed()
}

struct Setup {
    dir: PathBuf,
    dotgit: PathBuf,
    bytes: Vec<u8>,
    id: Oid,
    object: Option<Made>,
    others: Vec<Made>,
}

impl Setup {
    fn new(s: &Scene, dir: PathBuf) -> Res<Setup> {
        let dotgit = init_repo(&dir)?;
        let (bytes, object) = match &s.raw {
            Some(d) => (d.bytes(), None),
            None => {
                let m = s.what.made();
                (framed(m.kind, &m.bytes), Some(m))
            }
        };
        let id = sha1(&bytes);
        let mut others: Vec<Made> = vec![];
        for (o, share) in &s.others {
            let mut m = o.made();
            if *share {
                // a blob whose id starts with the same byte
                for k in 0u32..4000 {
                    let c = blob_made(k.to_le_bytes().to_vec());
                    if c.id[0] == id[0] && c.id != id {
                        m = c;
                        break;
                    }
                }
            }
            if m.id != id {
                put_loose(&dotgit, &m, 6)?;
                others.push(m);
            }
        }
        if let Some(p) = &s.pack {
            let b = p.build();
            if b.made.iter().all(|m| m.id != id) {
                b.put(&dotgit)?;
                others.extend(b.made.iter().cloned());
            }
        }
        if s.fanout {
            std::fs::create_dir_all(loose_path(&dotgit, &id).parent().unwrap())?;
        }
        match s.stored {
            1 => expect_write(open(&dir)?.object_database(), &bytes, "storing it beforehand").map(|_| ())?,
            2 => put_loose_raw(&dotgit, &id, &deflate(&bytes, 1))?,
            _ => (),
        }
        Ok(Setup { dir, dotgit, bytes, id, object, others })
    }

    /// The id is absent or complete; returns whether it is there.
    fn whole_or_absent(&self, db: &ObjectDatabase, what: &str) -> Res<bool> {
        let there = match stream(db, &self.id, 0)? {
            Streamed::NotFound => false,
            Streamed::Bytes(b) if b == self.bytes => true,
            got => bad!("partial", "{what}: {} reads as {got:?} instead of {} or nothing", hex(&self.id), show(&self.bytes)),
        };
        match (lookup(db, &self.id)?, &self.object) {
            (Got::NotFound, _) => ensure!(!there, "partial", "{what}: {} streams but is not found when parsed", hex(&self.id)),
            (Got::Object(p), Some(m)) => {
                ensure!(there, "partial", "{what}: {} parses but does not stream", hex(&self.id));
                expect_parsed(what, &p, &m.want)?;
            }
            (Got::Error(e), Some(_)) => bad!("partial", "{what}: {} cannot be parsed: {e}", hex(&self.id)),
            (_, None) => (),
        }
        // what is on disk under the object's name is complete, whoever reads it
        if let Ok(f) = std::fs::read(loose_path(&self.dotgit, &self.id)) {
            ensure!(
                inflate(&f).as_deref() == Some(&self.bytes[..]),
                "partial",
                "{what}: the file {} does not hold the object",
                loose_path(&self.dotgit, &self.id).display()
            );
        }
        Ok(there)
    }

    fn others_intact(&self, db: &ObjectDatabase, what: &str) -> Res {
        for m in &self.others {
            expect_object(db, m, what)?;
        }
        Ok(())
    }

    /// Everything that must hold once the dust has settled.
    /// `stored`: somebody has stored the object successfully.
    fn after(&self, warm: Option<&rusty_git::repository::Repository>, result: Option<&Result<Oid, String>>, stored: bool, what: &str) -> Res {
        let repo = open(&self.dir)?;
        for r in [Some(&repo), warm].into_iter().flatten() {
            let there = self.whole_or_absent(r.object_database(), what)?;
            if let Some(Ok(id)) = result {
                ensure!(*id == self.id, "wrong-write-id", "{what}: write_object returned {}", hex(id));
                ensure!(there, "lost", "{what}: write_object succeeded but {} is not there", hex(&self.id));
            }
            ensure!(there || !stored, "lost", "{what}: {} had been stored but is not there", hex(&self.id));
            self.others_intact(r.object_database(), what)?;
        }
        // the same write succeeds now
        expect_write(repo.object_database(), &self.bytes, &format!("{what}, writing again"))?;
        for r in [Some(&repo), warm].into_iter().flatten() {
            let what = format!("{what}, after writing again");
            ensure!(self.whole_or_absent(r.object_database(), &what)?, "unwritable", "{what}: {} is not there", hex(&self.id));
            self.others_intact(r.object_database(), &what)?;
        }
        // and once another process has removed the object as unreachable
        std::fs::remove_file(loose_path(&self.dotgit, &self.id))?;
        let what = format!("{what}, removed and written again");
        expect_write(repo.object_database(), &self.bytes, &what)?;
        for r in [Some(&repo), warm].into_iter().flatten() {
            ensure!(self.whole_or_absent(r.object_database(), &what)?, "unwritable", "{what}: {} is not there", hex(&self.id));
        }
        Ok(())
    }
}

/// Write in a child process that dies at mutating call `at`; says whether it got that far.
fn die_at(s: &Setup, at: u64, half: bool) -> Res<bool> {
    let repo = open(&s.dir)?;
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Err(Fail::Harness("fork failed".into()));
    }
    if pid == 0 {
        let plan = Plan { mutating: true, at: Some(at), act: if half { Act::DieHalf } else { Act::Die }, ..Plan::default() };
        let (r, _) = sys::with_plan(plan, || write(repo.object_database(), &s.bytes));
        let code = match r {
            Ok(Ok(id)) if id == s.id => 0,
            Ok(_) => 1,
            Err(_) => 2,
        };
        unsafe { libc::_exit(code) }
    }
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            return Err(Fail::Harness("waitpid failed".into()));
        }
    }
    if libc::WIFSIGNALED(st) {
        bad!("signal", "write_object killed its process with signal {}", libc::WTERMSIG(st));
    }
    match libc::WEXITSTATUS(st) {
        99 => Ok(true),
        0 => Ok(false),
        1 => violation("write-error", "an undisturbed write failed in a child process"),
        2 => violation("panic", "write_object panicked in a child process"),
        c => Err(Fail::Harness(format!("child process ended with {c}"))),
    }
}

/// A mutating call of a write, for every k, up to this many.
const MAX_CALLS: u64 = 60;

fn run(s: &Scene, ctx: &mut Ctx) -> Res {
    let mut points = 0;
    let mut on: Vec<Call> = vec![];
    // Which calls the write makes is found out as it goes: k rises until nothing happens.
    for k in 0..MAX_CALLS {
        let dir = ctx.sub("repo")?;
        let set = Setup::new(s, dir)?;
        for c in 0..s.crashes {
            die_at(&set, c as u64 * 2 + 1, c % 2 == 0)?;
        }
        let warm = if s.warm {
            let r = open(&set.dir)?;
            set.whole_or_absent(r.object_database(), "before")?;
            Some(r)
        } else {
            None
        };
        let writer = open(&set.dir)?;
        let what = format!("{:?} at mutating call {k}", s.mode);
        let stored = s.stored != 0;
        let reached = match &s.mode {
            Mode::Die { half } => {
                let died = die_at(&set, k, *half)?;
                let fine = Ok(set.id);
                set.after(warm.as_ref(), if died { None } else { Some(&fine) }, stored, &what)?;
                died
            }
            Mode::DieTwice { first } => {
                die_at(&set, *first as u64 % 6, first & 8 != 0)?;
                let died = die_at(&set, k, first & 16 != 0)?;
                let fine = Ok(set.id);
                set.after(warm.as_ref(), if died { None } else { Some(&fine) }, stored, &what)?;
                died
            }
            Mode::Fail { errno } | Mode::FailOn { errno } | Mode::Short { errno } => {
                let e = ERRNOS[*errno as usize % ERRNOS.len()];
                let act = if let Mode::Short { .. } = s.mode { Act::ShortThenFail(e) } else { Act::Fail(e) };
                let plan = Plan { mutating: true, at: Some(k), act, persist: matches!(s.mode, Mode::FailOn { .. }), ..Plan::default() };
                let (r, plan) = sys::with_plan(plan, || write(writer.object_database(), &set.bytes));
                let r = r?;
                if let Some(c) = plan.fired_on {
                    on.push(c);
                }
                set.after(warm.as_ref(), Some(&r), stored, &format!("{what} ({:?})", plan.fired_on))?;
                // and through the handle whose write failed
                set.whole_or_absent(writer.object_database(), &what)?;
                plan.fired
            }
            Mode::Leftovers => {
                let stale_not = hex(&set.id)[2..].as_bytes().to_vec();
                let plan = Plan { stale: k + 1, stale_not, ..Plan::default() };
                let (r, plan) = sys::with_plan(plan, || write(writer.object_database(), &set.bytes));
                let r = r?;
                if let Err(e) = &r {
                    bad!("write-error", "with {} files left behind by dead writers the write failed: {e}", plan.stale_made);
                }
                set.after(warm.as_ref(), Some(&r), stored, &format!("with {} files left behind", plan.stale_made))?;
                plan.stale_made == k + 1 && k < 5
            }
            Mode::Writer { how } | Mode::WriterAndFail { how, .. } => {
                let seen: Rc<RefCell<Res>> = Rc::new(RefCell::new(Ok(())));
                let note = seen.clone();
                let (bytes, id, dotgit, dir, how) = (set.bytes.clone(), set.id, set.dotgit.clone(), set.dir.clone(), *how);
                let cb = move || {
                    *note.borrow_mut() = (|| {
                        match how % 3 {
                            // the library itself, through another handle
                            0 | 1 => {
                                expect_write(open(&dir)?.object_database(), &bytes, "the other writer")?;
                            }
                            // another program: a temporary file, then a rename
                            _ => {
                                let p = loose_path(&dotgit, &id);
                                std::fs::create_dir_all(p.parent().unwrap())?;
                                let t = p.with_file_name("tmp_obj_other");
                                std::fs::write(&t, deflate(&bytes, 1))?;
                                std::fs::rename(&t, &p)?;
                            }
                        }
                        Ok(())
                    })();
                };
                let act = match &s.mode {
                    Mode::WriterAndFail { errno, .. } => Act::CallbackThenFail(ERRNOS[*errno as usize % ERRNOS.len()]),
                    _ => Act::Callback,
                };
                let plan = Plan { mutating: true, at: Some(k), act, callback: Some(Box::new(cb)), ..Plan::default() };
                let (r, plan) = sys::with_plan(plan, || write(writer.object_database(), &set.bytes));
                seen.replace(Ok(()))?;
                if let Some(c) = plan.fired_on {
                    on.push(c);
                }
                let r = r?;
                if let (Err(e), Mode::Writer { .. }) = (&r, &s.mode) {
                    bad!("write-error", "{what} ({:?}): the write failed: {e}", plan.fired_on);
                }
                set.after(warm.as_ref(), Some(&r), stored || plan.fired, &format!("{what} ({:?})", plan.fired_on))?;
                plan.fired
            }
            Mode::Reader { piece } => {
                let seen: Rc<RefCell<Res>> = Rc::new(RefCell::new(Ok(())));
                let note = seen.clone();
                let set = Rc::new(set);
                let inner = set.clone();
                let piece = *piece as usize;
                let warm = warm.map(Rc::new);
                let w = warm.clone();
                let cb = move || {
                    *note.borrow_mut() = (|| {
                        let fresh = open(&inner.dir)?;
                        for r in [Some(&fresh), w.as_deref()].into_iter().flatten() {
                            inner.whole_or_absent(r.object_database(), "a reader during the write")?;
                            match stream(r.object_database(), &inner.id, piece)? {
                                Streamed::NotFound => (),
                                Streamed::Bytes(b) if b == inner.bytes => (),
                                got => bad!("partial", "a reader during the write sees {got:?}"),
                            }
                            inner.others_intact(r.object_database(), "a reader during the write")?;
                        }
                        Ok(())
                    })();
                };
                let plan = Plan { mutating: true, at: Some(k), act: Act::Callback, callback: Some(Box::new(cb)), ..Plan::default() };
                let (r, plan) = sys::with_plan(plan, || write(writer.object_database(), &set.bytes));
                if let Some(c) = plan.fired_on {
                    on.push(c);
                }
                if let Err(Fail::Violation { sig, msg }) = seen.replace(Ok(())) {
                    bad!(sig, "{what} ({:?}): {msg}", plan.fired_on);
                }
                let r = r?;
                if let Err(e) = &r {
                    bad!("write-error", "{what}: the write failed: {e}");
                }
                set.after(warm.as_deref(), Some(&r), stored, &what)?;
                plan.fired
            }
        };
        std::fs::remove_dir_all(ctx.dir.join("repo"))?;
        if !reached {
            break;
        }
        points += 1;
    }
    ctx.add("points of interference", points);
    for c in on {
        ctx.label(format!("at {c:?}"));
    }
    ctx.label(match &s.mode {
        Mode::Die { .. } => "process dies",
        Mode::DieTwice { .. } => "two processes die",
        Mode::Fail { .. } | Mode::FailOn { .. } => "calls fail",
        Mode::Short { .. } => "write stops short",
        Mode::Writer { .. } => "second writer",
        Mode::WriterAndFail { .. } => "second writer, and the call fails",
        Mode::Reader { .. } => "reader during the write",
        Mode::Leftovers => "files left behind",
    });
    ctx.label_if(s.stored != 0, "stored already");
    ctx.nontrivial(points > 0);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        title: "A failed or interrupted write never leaves a damaged object behind",
        level: "fault_enumeration",
        rule: "a case is a repository, the bytes written to it and one kind of interference (the process dies before or half-way through a call, a call or all later ones fail, a disk write stops short, another writer stores the object, a reader looks, temporary names are taken); the write is repeated from the same state with the interference at its first, second, ... mutating system call until none is left; afterwards fresh and older handles must see the complete object or none, all other objects, and a repeated write must succeed; non-trivial: at least one point of interference",
        assumptions: &["what reached the page cache survives the death of a process; power loss is not modelled"],
        arms: vec![
            arm("small", 4000, 80_000, scene(3000), run),
            arm("large", 300, 10_000, scene(400_000), run),
            arm("many-writes", 90, 5_000, scene_big(), run),
        ],
    }
}
