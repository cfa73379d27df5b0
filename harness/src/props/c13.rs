use super::*;
use crate::{bad, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use rusty_git::object::{Id, ShortId};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::str::FromStr;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
    /// bytes given to the hex parsers
    text: Vec<u8>,
}

const AROUND: [&str; 24] = [
    "\n", "\r\n", " ", "  ", "\t", "\0", "\u{feff}", "\u{a0}", "\u{2028}", "\u{b}", "\u{c}", "0x", "0X", "+", "-", "#", "g", "^", "~1", "@", "{}", "\"", "...", "/",
];

fn text() -> BoxedStrategy<Text> {
    let digits = b"0123456789abcdef".to_vec();
    let mixed = b"0123456789abcdefABCDEF".to_vec();
    let near = b"gG`@/: -+xX_\0\x80\xff\n".to_vec();
    prop_oneof![
        3 => vec(select(digits.clone()), 40..41),
        2 => vec(select(mixed.clone()), 40..41),
        4 => vec(select(mixed.clone()), 0..90),
        2 => vec(select(mixed.clone()), 2..44),
        // one bad byte somewhere in a text of the right length
        4 => (vec(select(mixed.clone()), 40..41), 0usize..40, prop_oneof![select(near.clone()), any::<u8>()]).prop_map(|(mut v, p, b)| {
            v[p] = b;
            v
        }),
        3 => (vec(select(mixed), 4..40), any::<u8>(), prop_oneof![select(near), any::<u8>()]).prop_map(|(mut v, p, b)| {
            let n = v.len();
            v[p as usize % n] = b;
            v
        }),
        1 => vec(any::<u8>(), 0..60),
        // what other tools put around ids
        3 => (vec(select(digits), 40..41), any::<bool>(), proptest::option::of(select(AROUND.to_vec())), proptest::option::of(select(AROUND.to_vec()))).prop_map(|(d, short, a, b)| {
            let d = if short { &d[..12] } else { &d[..] };
            [a.unwrap_or("").as_bytes(), d, b.unwrap_or("").as_bytes()].concat()
        }),
    ]
    .prop_map(|text| Text { text })
    .boxed()
}

fn model_hex(t: &[u8]) -> Option<Vec<u8>> {
    let d = |b: u8| (b as char).to_digit(16).map(|d| d as u8);
    if t.len() % 2 != 0 {
        return None;
    }
    t.chunks(2).map(|c| Some(d(c[0])? << 4 | d(c[1])?)).collect()
}

fn parse(c: &Text, ctx: &mut Ctx) -> Res {
    let t = &c.text;
    let bytes = model_hex(t);
    let want_id = bytes.clone().filter(|b| b.len() == 20);
    let want_short = bytes.filter(|b| (2..=20).contains(&b.len()));
    let lower = String::from_utf8_lossy(t).to_ascii_lowercase();

    let id = guard("Id::from_hex", || Id::from_hex(t).map(|i| (oid_of(&i), i.to_hex(), i.to_string(), format!("{i:?}"), i)))?;
    match (&id, &want_id) {
        (Ok((o, h, d, dbg, i)), Some(b)) => {
            ensure!(o.as_slice() == b.as_slice(), "wrong-id", "{} parsed as {}", show(t), hex(o));
            ensure!(*h == lower && *d == lower && *dbg == lower, "wrong-hex", "{} printed as {h}, {d}, {dbg}", show(t));
            let mut a = [0; 20];
            a.copy_from_slice(b);
            ensure!(*i == Id::from_bytes(&a), "wrong-id", "{} is not equal to the id of its bytes", show(t));
        }
        (Err(_), None) => (),
        (Ok((o, ..)), None) => bad!("accepted", "{} was accepted as id {}", show(t), hex(o)),
        (Err(e), Some(_)) => bad!("rejected", "{} was rejected as an id: {e}", show(t)),
    }
    let short = guard("ShortId::from_hex", || ShortId::from_hex(t).map(|i| (i.to_hex(), i.to_string(), format!("{i:?}"))))?;
    match (&short, &want_short) {
        (Ok((h, d, dbg)), Some(_)) => ensure!(*h == lower && *d == lower && *dbg == lower, "wrong-hex", "abbreviation {} printed as {h}, {d}, {dbg}", show(t)),
        (Err(_), None) => (),
        (Ok((h, ..)), None) => bad!("accepted", "{} was accepted as abbreviation {h}", show(t)),
        (Err(e), Some(_)) => bad!("rejected", "{} was rejected as an abbreviation: {e}", show(t)),
    }
    if let Ok(s) = std::str::from_utf8(t) {
        let i = guard("Id::from_str", || Id::from_str(s).ok())?;
        ensure!(i == id.as_ref().ok().map(|x| x.4), "from-str", "from_str and from_hex disagree on {s:?}");
        let sh = guard("ShortId::from_str", || ShortId::from_str(s).ok())?;
        ensure!(sh.map(|s| s.to_hex()) == short.as_ref().ok().map(|s| s.0.clone()), "from-str", "from_str and from_hex disagree on {s:?}");
    }
    ctx.label(if want_id.is_some() {
        "an id"
    } else if want_short.is_some() {
        "an abbreviation"
    } else {
        "neither"
    });
    ctx.label_if(t.iter().any(|b| b.is_ascii_uppercase()), "upper case");
    ctx.nontrivial(want_short.is_some() || (4..=40).contains(&t.len()));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: Oid,
    b: Oid,
    /// abbreviation: how many bytes of `a`
    len: u8,
    /// how many leading bytes `b` shares with `a`
    shared: u8,
}

fn compare(c: &Pair, ctx: &mut Ctx) -> Res {
    let len = 2 + c.len as usize % 19;
    let mut b = c.b;
    let shared = c.shared as usize % 21;
    b[..shared].copy_from_slice(&c.a[..shared]);
    let (ia, ib) = (id_of(&c.a), id_of(&b));
    let want = c.a.cmp(&b);
    let ord = guard("Id comparison", || (ia.cmp(&ib), ia.partial_cmp(&ib), ia == ib))?;
    ensure!(ord == (want, Some(want), want == Ordering::Equal), "id-order", "{} against {}: {ord:?}, bytes say {want:?}", hex(&c.a), hex(&b));
    let text = hex(&c.a[..len]);
    let short = guard("ShortId::from_hex", || ShortId::from_hex(text.as_bytes()))?;
    let Ok(short) = short else { bad!("rejected", "abbreviation {text} was rejected") };
    for (o, i) in [(b, ib), (c.a, ia)] {
        // slices compare as required: a proper prefix is less than what it is a prefix of
        let want = c.a[..len].cmp(&o[..]);
        let got = guard("cmp_id", || (short.cmp_id(&i), i.cmp_short(&short)))?;
        ensure!(got == (want, want.reverse()), "short-order", "abbreviation {text} against {}: cmp_id {:?}, cmp_short {:?}, expected {want:?}", hex(&o), got.0, got.1);
        ctx.label(match want {
            Ordering::Equal => "complete and equal",
            Ordering::Less if o.starts_with(&c.a[..len]) => "prefix",
            _ => "differs",
        });
    }
    let full = guard("ShortId::from", || ShortId::from(ia))?;
    ensure!(full.to_hex() == hex(&c.a), "wrong-hex", "ShortId::from({}) prints {}", hex(&c.a), full.to_hex());
    let got = guard("cmp_id", || full.cmp_id(&ib))?;
    ensure!(got == c.a.cmp(&b), "short-order", "complete abbreviation of {} against {}: {got:?}", hex(&c.a), hex(&b));
    let (x, y) = (guard("from", || ShortId::from(ia) == ShortId::from(ib))?, c.a == b);
    ensure!(x == y, "short-eq", "complete abbreviations of {} and {}: equal {x}", hex(&c.a), hex(&b));
    ctx.nontrivial(shared >= 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hash {
    data: Data,
}

fn hash(c: &Hash, ctx: &mut Ctx) -> Res {
    let b = c.data.bytes();
    let want = sha1(&b);
    let got = guard("Id::from_hash", || oid_of(&Id::from_hash(&b)))?;
    ensure!(got == want, "wrong-hash", "hash of {} is {}, expected {}", show(&b), hex(&got), hex(&want));
    ctx.label_if(b.len() > 64, "several blocks");
    ctx.label_if(b.is_empty(), "empty");
    ctx.nontrivial(b.len() > 55);
    Ok(())
}

pub fn prop() -> Prop {
    let lens: Vec<Hash> = (0..400).map(|n| Hash { data: Data::Gen { len: n, style: 2, seed: n as u64 } }).collect();
    let texts: Vec<Text> = (0..=84)
        .map(|n| Text { text: vec![b'a'; n] })
        .chain((0u8..=255).flat_map(|b| [0usize, 20, 39].into_iter().map(move |p| (b, p))).map(|(b, p)| {
            let mut t = vec![b'0'; 40];
            t[p] = b;
            Text { text: t }
        }))
        .chain(AROUND.iter().flat_map(|w| {
            let id = "0123456789abcdef0123456789abcdef01234567";
            [format!("{w}{id}"), format!("{id}{w}"), format!("{w}{id}{w}"), format!("{}{w}{}", &id[..20], &id[20..]), format!("{w}{}", &id[..40 - w.len().min(40)]), format!("{}{w}", &id[..40 - w.len().min(40)])]
                .map(|t| Text { text: t.into_bytes() })
        }))
        .collect();
    Prop {
        id: "C13",
        title: "Object ids and abbreviated ids convert and compare lawfully",
        level: "exploration",
        rule: "texts of every kind against a hex parser written from the statement, pairs of ids and abbreviations with shared prefixes against slice order, byte strings against the harness SHA-1; every text length 0-84, every byte value at three places and every hash length 0-399 enumerated; non-trivial: text of a plausible length, ids that share two bytes and more, hashes of more than one block",
        assumptions: &["the harness's own SHA-1 is right (git agrees with it in C01 and C03)"],
        arms: vec![
            list_arm("lengths-and-bytes", texts, parse),
            list_arm("hash-lengths", lens, hash),
            arm("text", 60_000, 3_000_000, text(), parse),
            arm(
                "compare",
                60_000,
                3_000_000,
                (oid(), oid(), any::<u8>(), any::<u8>()).prop_map(|(a, b, len, shared)| Pair { a, b, len, shared }),
                compare,
            ),
            arm("hash", 4_000, 200_000, data_upto(200_000).prop_map(|data| Hash { data }), hash),
        ],
    }
}
