//! Sessions for the safety property: what a session is, how one is generated
//! and how it is carried out. Everything is done through cola's public, safe
//! API; the same code runs natively and inside Miri.

use crate::rng::{fnv, splitmix, Rng};
use cola::{Anchor, AnchorBias, Deletion, EncodedReplica, Insertion, Replica};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc};

macro_rules! kinds {
    ($($name:ident $text:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum K { $($name),* }
        impl K {
            pub const ALL: &'static [K] = &[$(K::$name),*];
            pub fn text(self) -> &'static str {
                match self { $(K::$name => $text),* }
            }
        }
    };
}

kinds! {
    Ins "insert", Type "type", Scatter "scatter", Del "delete", Recv "receive",
    Sync "sync", Drain "drain", Fork "fork", Snap "snapshot", Mark "anchor",
    Resolve "resolve", Bad "misuse", Garbage "garbage", Wire "wire",
    Clone "clone", Share "share", Exchange "exchange",
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub k: K,
    pub a: [u32; 3],
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Case {
    pub len: u32,
    pub peers: u32,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn to_text(&self) -> String {
        let mut s = String::from("property C25\n");
        let _ = writeln!(s, "start {} {}", self.len, self.peers);
        for o in &self.ops {
            let _ = writeln!(s, "{} {} {} {}", o.k.text(), o.a[0], o.a[1], o.a[2]);
        }
        s
    }

    pub fn from_text(t: &str) -> Option<Self> {
        let mut c = Case::default();
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') || l.starts_with("property") {
                continue;
            }
            let mut it = l.split_whitespace();
            let w = it.next()?;
            let mut n = [0; 3];
            for (x, y) in n.iter_mut().zip(it) {
                *x = y.parse().ok()?;
            }
            if w == "start" {
                c.len = n[0];
                c.peers = n[1];
            } else {
                let k = *K::ALL.iter().find(|k| k.text() == w)?;
                c.ops.push(Op { k, a: n });
            }
        }
        (c.peers > 0).then_some(c)
    }

    pub fn hash64(&self) -> u64 {
        fnv(self.to_text().as_bytes())
    }
}

pub const STYLES: [&str; 7] = ["mixed", "wide", "deep", "threads", "pieces", "decoders", "waiting"];

/// The case with this index: a pure function of its arguments.
pub fn gen(seed: u64, index: u64, native: bool) -> (Case, &'static str) {
    let mut x = seed ^ fnv(b"C25") ^ index.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let mut g = Rng::new(splitmix(&mut x));
    // mixed wide deep threads pieces decoders waiting
    let w: [u32; 7] = if native { [4, 3, 1, 16, 3, 1, 3] } else { [16, 6, 1, 10, 10, 6, 10] };
    let style = g.weighted(&w);
    let mut c = Case { len: g.range(0, 30) as u32, peers: g.range(2, 4) as u32, ops: vec![] };
    let push = |g: &mut Rng, c: &mut Case, k: K| {
        let a = [g.u64() as u32 >> 8, g.u64() as u32 >> 8, g.u64() as u32 >> 8];
        c.ops.push(Op { k, a });
    };
    //                        Ins Ty Sc De Re Sy Dr Fo Sn Ma Rs Ba Ga Wi Cl Sh Ex
    let weights: [u32; 17] = match style {
        0 => [8, 3, 0, 7, 8, 2, 2, 1, 1, 3, 2, 1, 0, 1, 1, 0, 0],
        1 => [6, 1, 2, 9, 6, 2, 2, 1, 1, 2, 1, 0, 0, 0, 0, 0, 0],
        2 => [4, 1, 1, 6, 3, 2, 1, 0, 1, 2, 1, 0, 0, 0, 0, 0, 0],
        3 => [6, 2, 1, 5, 5, 1, 1, 1, 1, 2, 1, 0, 0, 1, 1, 2, 2],
        4 => [9, 0, 0, 7, 5, 1, 1, 0, 1, 4, 3, 0, 0, 0, 0, 0, 0],
        5 => [6, 2, 1, 5, 3, 1, 1, 1, 1, 1, 1, 2, 9, 2, 1, 0, 0],
        _ => [8, 2, 0, 6, 9, 0, 3, 1, 1, 1, 1, 0, 0, 1, 0, 0, 0],
    };
    // Everything takes a thousand times as long inside Miri.
    let big = if native { 2 } else { 1 };
    let n = match style {
        0 | 6 => g.range(6, 24 * big),
        1 => {
            // Enough runs for an inner node or two.
            push(&mut g, &mut c, K::Scatter);
            c.ops.last_mut().unwrap().a[1] = g.range(20, 50 * big) as u32;
            c.peers = c.peers.min(3);
            g.range(4, 12 * big)
        },
        2 => {
            push(&mut g, &mut c, K::Scatter);
            c.ops.last_mut().unwrap().a[1] = g.range(380, 450) as u32;
            c.peers = 1;
            push(&mut g, &mut c, K::Fork);
            g.range(3, 9)
        },
        3 => g.range(3, 10 * big),
        4 => {
            // One insertion to be cut to pieces.
            c.len = g.range(20, 80) as u32;
            g.range(14, 28 * big)
        },
        _ => g.range(4, 10 * big),
    };
    for _ in 0..n {
        let k = K::ALL[g.weighted(&weights)];
        push(&mut g, &mut c, k);
        let last = c.ops.last_mut().unwrap();
        match k {
            K::Scatter => last.a[1] = g.range(5, if native { 60 } else { 16 }) as u32,
            K::Del if style == 1 || style == 2 => {
                if g.chance(2, 3) {
                    last.a[2] = last.a[2] / 4 * 4 + 2;
                }
            },
            _ => {},
        }
    }
    (c, STYLES[style])
}

/// One unit of text: who wrote it and which of theirs it is.
type Unit = (u64, usize);

#[derive(Clone)]
enum Msg {
    Ins(Insertion),
    Del(Deletion),
}

/// Lets the harness build, and say so, should cola's types ever stop being
/// `Send` or `Sync` (see `thread_safe`).
struct Across<T>(T);
unsafe impl<T> Send for Across<T> {}
unsafe impl<T> Sync for Across<T> {}
impl<T> Across<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn into(self) -> T {
        self.0
    }
}

struct Peer {
    id: u64,
    r: Replica,
    buf: Vec<Unit>,
    inbox: Vec<usize>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub calls: u64,
    pub remote: u64,
    pub backlogged: u64,
    pub wide: u64,
    pub decoded: u64,
    pub garbage: u64,
    pub threads: u64,
    pub max_runs: u64,
}

type Res<T> = Result<T, String>;

fn own_insert(r: &mut Replica, buf: &mut Vec<Unit>, off: usize, len: usize) -> Insertion {
    let i = r.inserted(off, len);
    let t = i.text();
    let (id, range) = (t.inserted_by(), t.temporal_range());
    buf.splice(off..off, range.map(|x| (id, x)));
    i
}

fn own_delete(r: &mut Replica, buf: &mut Vec<Unit>, start: usize, end: usize) -> Deletion {
    let d = r.deleted(start..end);
    buf.drain(start..end);
    d
}

fn insert_text(buf: &mut Vec<Unit>, t: &cola::Text, off: usize) -> Res<()> {
    if off > buf.len() {
        return Err(format!("an insertion goes at {off} in a document of length {}", buf.len()));
    }
    let id = t.inserted_by();
    buf.splice(off..off, t.temporal_range().map(|x| (id, x)));
    Ok(())
}

fn delete_ranges(buf: &mut Vec<Unit>, ranges: &[std::ops::Range<usize>]) -> Res<()> {
    for r in ranges.iter().rev() {
        if r.start > r.end || r.end > buf.len() {
            return Err(format!("{r:?} is to be deleted from a document of length {}", buf.len()));
        }
        buf.drain(r.clone());
    }
    Ok(())
}

fn integrate(r: &mut Replica, buf: &mut Vec<Unit>, m: &Msg) -> Res<bool> {
    Ok(match m {
        Msg::Ins(i) => match r.integrate_insertion(i) {
            Some(off) => {
                insert_text(buf, i.text(), off)?;
                true
            },
            None => false,
        },
        Msg::Del(d) => {
            let ranges = r.integrate_deletion(d);
            delete_ranges(buf, &ranges)?;
            !ranges.is_empty()
        },
    })
}

fn drain(r: &mut Replica, buf: &mut Vec<Unit>) -> Res<()> {
    for (t, off) in r.backlogged_insertions() {
        insert_text(buf, &t, off)?;
    }
    for ranges in r.backlogged_deletions() {
        delete_ranges(buf, &ranges)?;
    }
    Ok(())
}

/// What somebody who only reads a replica gets to see.
fn read(r: &Replica, anchors: &[Anchor], seed: u64, buf: &[Unit]) -> u64 {
    let mut g = Rng::new(seed);
    let mut h = 0u64;
    let mut put = |x: u64| h = (h ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(9);
    for _ in 0..g.range(2, 6) {
        match g.below(7) {
            0 => put(r.len() as u64),
            1 => {
                for a in anchors {
                    put(r.resolve_anchor(*a).map_or(u64::MAX, |x| x as u64));
                }
            },
            2 | 3 => {
                let off = g.below(r.len() + 1);
                let bias = if g.chance(1, 2) { AnchorBias::Left } else { AnchorBias::Right };
                let a = r.create_anchor(off, bias);
                put(r.resolve_anchor(a).map_or(u64::MAX, |x| x as u64));
            },
            4 => {
                let d = Replica::decode(77_777, &r.encode());
                put(d.map_or(u64::MAX, |d| d.len() as u64));
            },
            5 => {
                let mut f = r.fork(88_888);
                let off = g.below(f.len() + 1);
                let i = f.inserted(off, 3);
                put(f.len() as u64);
                let mut b = buf.to_vec();
                let mut c = r.clone();
                let at = c.integrate_insertion(&i);
                put(at.map_or(u64::MAX, |x| x as u64));
                if let Some(at) = at.filter(|&at| at <= b.len()) {
                    b.splice(at..at, i.text().temporal_range().map(|x| (88_888, x)));
                }
                put(b.len() as u64);
                put(c.len() as u64);
            },
            _ => {
                put(r.id());
                put(format!("{r:?}").len() as u64);
            },
        }
    }
    h
}

pub fn run(c: &Case, st: &mut Stats) -> Res<()> {
    let r = catch_unwind(AssertUnwindSafe(|| run_inner(c, st)));
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("a call panicked: {}", panic_text(&*e))),
    }
}

fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "(no message)".into())
}

const MAX_PEERS: usize = 4;

fn run_inner(c: &Case, st: &mut Stats) -> Res<()> {
    let first = Replica::new(1, c.len as usize);
    let buf: Vec<Unit> = (0..c.len as usize).map(|x| (1, x)).collect();
    let mut next_id = 1u64;
    let mut new_id = || {
        next_id = next_id.wrapping_mul(0x5851_F42D_4C95_7F2D) | 1;
        if next_id == 1 {
            next_id = 3;
        }
        next_id
    };
    let mut peers = vec![];
    for _ in 1..c.peers.max(1) {
        let id = new_id();
        peers.push(Peer { id, r: first.fork(id), buf: buf.clone(), inbox: vec![] });
    }
    peers.push(Peer { id: 1, r: first, buf, inbox: vec![] });
    let mut msgs: Vec<Arc<Across<Msg>>> = vec![];
    let mut anchors: Vec<Anchor> = vec![];

    fn tell(peers: &mut [Peer], msgs: &mut Vec<Arc<Across<Msg>>>, by: usize, m: Msg) {
        let n = msgs.len();
        msgs.push(Arc::new(Across(m)));
        for (i, p) in peers.iter_mut().enumerate() {
            if i != by {
                p.inbox.push(n);
            }
        }
    }

    fn sync(p: &mut Peer, msgs: &[Arc<Across<Msg>>], st: &mut Stats) -> Res<()> {
        for n in std::mem::take(&mut p.inbox) {
            st.calls += 1;
            if integrate(&mut p.r, &mut p.buf, msgs[n].get())? {
                st.remote += 1;
            } else {
                st.backlogged += 1;
            }
        }
        drain(&mut p.r, &mut p.buf)
    }

    for (at, op) in c.ops.iter().enumerate() {
        let [a, b, d] = op.a.map(|x| x as usize);
        let by = a % peers.len();
        let len = peers[by].buf.len();
        st.calls += 1;
        match op.k {
            K::Ins => {
                let p = &mut peers[by];
                let m = own_insert(&mut p.r, &mut p.buf, b % (len + 1), 1 + d % 7);
                tell(&mut peers, &mut msgs, by, Msg::Ins(m));
            },
            K::Type => {
                let mut off = b % (len + 1);
                for _ in 0..2 + d % 5 {
                    let p = &mut peers[by];
                    let m = own_insert(&mut p.r, &mut p.buf, off, 1);
                    off += 1;
                    tell(&mut peers, &mut msgs, by, Msg::Ins(m));
                }
            },
            K::Scatter => {
                let mut g = Rng::new(d as u64);
                for _ in 0..b % 1000 {
                    let p = &mut peers[by];
                    let off = g.below(p.buf.len() + 1);
                    let n = g.range(1, 3);
                    let m = own_insert(&mut p.r, &mut p.buf, off, n);
                    tell(&mut peers, &mut msgs, by, Msg::Ins(m));
                }
            },
            K::Del => {
                if len == 0 {
                    continue;
                }
                let start = b % len;
                let n = match d % 4 {
                    0 | 1 => 1 + d / 4 % 3,
                    2 => 1 + d / 4 % (len - start).max(1),
                    _ => 1 + d / 4 % 20,
                };
                let end = (start + n).min(len);
                st.wide += (end - start > 12) as u64;
                let p = &mut peers[by];
                let m = own_delete(&mut p.r, &mut p.buf, start, end);
                tell(&mut peers, &mut msgs, by, Msg::Del(m));
            },
            K::Recv => {
                for _ in 0..1 + d % 4 {
                    let p = &mut peers[by];
                    if p.inbox.is_empty() {
                        break;
                    }
                    // Mostly in order.
                    let k = if d & 64 == 0 { 0 } else { b % p.inbox.len() };
                    let n = p.inbox.remove(k);
                    st.calls += 1;
                    if integrate(&mut p.r, &mut p.buf, msgs[n].get())? {
                        st.remote += 1;
                    } else {
                        st.backlogged += 1;
                    }
                }
            },
            K::Sync => sync(&mut peers[by], &msgs, st)?,
            K::Drain => {
                let p = &mut peers[by];
                if d % 4 == 0 {
                    // An iterator that isn't driven to its end.
                    let x = p.r.backlogged_insertions().next();
                    if let Some((t, off)) = x {
                        insert_text(&mut p.buf, &t, off)?;
                    }
                    let x = p.r.backlogged_deletions().next();
                    if let Some(x) = x {
                        delete_ranges(&mut p.buf, &x)?;
                    }
                } else {
                    drain(&mut p.r, &mut p.buf)?;
                }
            },
            K::Fork | K::Snap => {
                let id = new_id();
                let p = &peers[by];
                let r = if op.k == K::Fork {
                    p.r.fork(id)
                } else {
                    st.decoded += 1;
                    let e = p.r.encode();
                    Replica::decode(id, &e).map_err(|e| format!("operation {at}: an encoded replica is rejected: {e}"))?
                };
                let q = Peer { id, r, buf: p.buf.clone(), inbox: p.inbox.clone() };
                if peers.len() < MAX_PEERS {
                    peers.push(q);
                } else {
                    peers[by] = q;
                }
            },
            K::Mark => {
                let bias = if d % 2 == 0 { AnchorBias::Left } else { AnchorBias::Right };
                anchors.push(peers[by].r.create_anchor(b % (len + 1), bias));
            },
            K::Resolve => {
                for x in &anchors {
                    if let Some(off) = peers[by].r.resolve_anchor(*x) {
                        if off > len {
                            return Err(format!("operation {at}: an anchor resolves to {off} in a document of length {len}"));
                        }
                    }
                }
            },
            K::Bad => {
                let p = &mut peers[by];
                let before = p.r.len();
                let r = &mut p.r;
                let x = catch_unwind(AssertUnwindSafe(|| match d % 4 {
                    0 => drop(r.inserted(len + 1 + b % 5, 1)),
                    1 => drop(r.deleted(0..len + 1 + b % 5)),
                    2 => drop(r.create_anchor(len + 1 + b % 5, AnchorBias::Left)),
                    _ => drop(r.fork(0)),
                }));
                if x.is_ok() || p.r.len() != before {
                    return Err(format!("operation {at}: a call outside of the document was let through"));
                }
            },
            K::Garbage => {
                garbage(&peers[by].r, &msgs, &anchors, (b as u64) << 32 | d as u64, st);
            },
            K::Wire => {
                if msgs.is_empty() {
                    continue;
                }
                let n = b % msgs.len();
                let m = wire(msgs[n].get(), d)?;
                msgs[n] = Arc::new(Across(m));
            },
            K::Clone => {
                let p = &peers[by];
                let mut q = p.r.clone();
                let mut b2 = p.buf.clone();
                let off = b % (len + 1);
                let _ = own_insert(&mut q, &mut b2, off, 2);
                let end = (off + 5).min(b2.len());
                let _ = own_delete(&mut q, &mut b2, off, end);
                if q.len() != b2.len() {
                    return Err(format!("operation {at}: a clone has length {}, not {}", q.len(), b2.len()));
                }
            },
            K::Share => {
                st.threads += 1;
                share(&peers[by], &anchors, (b as u64) << 32 | d as u64).map_err(|e| format!("operation {at}: {e}"))?;
            },
            K::Exchange => {
                st.threads += 1;
                for p in &mut peers {
                    sync(p, &msgs, st)?;
                }
                peers = exchange(peers, (b as u64) << 32 | d as u64).map_err(|e| format!("operation {at}: {e}"))?;
            },
        }
        for (i, p) in peers.iter().enumerate() {
            if p.r.len() != p.buf.len() {
                return Err(format!(
                    "operation {at}: the replica of peer {i} has length {}, its buffer {}",
                    p.r.len(),
                    p.buf.len()
                ));
            }
        }
    }
    for p in &mut peers {
        sync(p, &msgs, st)?;
        st.max_runs = st.max_runs.max(p.r.num_runs() as u64);
    }
    equal(&peers)?;
    let (p, rest) = peers.split_first().unwrap();
    for x in &anchors {
        let off = p.r.resolve_anchor(*x);
        for q in rest {
            if q.r.resolve_anchor(*x) != off {
                return Err(format!("{x:?} resolves to {off:?} and to {:?} in the same document", q.r.resolve_anchor(*x)));
            }
        }
    }
    Ok(())
}

fn equal(peers: &[Peer]) -> Res<()> {
    for p in peers {
        if p.r.len() != p.buf.len() {
            return Err(format!("a replica has length {}, its buffer {}", p.r.len(), p.buf.len()));
        }
        if p.buf != peers[0].buf {
            return Err(format!("peers {:x} and {:x} have the same edits and different documents", peers[0].id, p.id));
        }
    }
    Ok(())
}

fn bin<T: serde::Serialize>(x: &T) -> Vec<u8> {
    bincode::serde::encode_to_vec(x, bincode::config::standard()).expect("bincode")
}

fn unbin<T: serde::de::DeserializeOwned>(b: &[u8]) -> Option<T> {
    bincode::serde::decode_from_slice(b, bincode::config::standard()).ok().map(|(x, _)| x)
}

fn wire(m: &Msg, how: usize) -> Res<Msg> {
    let lost = || "an edit is lost in serialisation".to_string();
    Ok(match m {
        Msg::Ins(i) if how % 3 == 0 => Msg::Ins(serde_json::from_str(&serde_json::to_string(i).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?),
        Msg::Del(d) if how % 3 == 0 => Msg::Del(serde_json::from_str(&serde_json::to_string(d).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?),
        Msg::Ins(i) => Msg::Ins(unbin(&bin(i)).ok_or_else(lost)?),
        Msg::Del(d) => Msg::Del(unbin(&bin(d)).ok_or_else(lost)?),
    })
}

/// Decoders get to see damaged and made-up bytes, also behind a checksum that
/// fits. They may answer as they like.
fn garbage(r: &Replica, msgs: &[Arc<Across<Msg>>], anchors: &[Anchor], seed: u64, st: &mut Stats) {
    use sha2::{Digest, Sha256};
    let mut g = Rng::new(seed);
    let good = r.encode();
    let bytes: &[u8] = good.as_ref();
    for _ in 0..2 + g.below(5) {
        st.garbage += 1;
        match g.below(4) {
            0 | 1 => {
                // The version is a single byte, the checksum has 32.
                let mut p = bytes[33.min(bytes.len())..].to_vec();
                mangle(&mut p, &mut g);
                let mut b = vec![bytes[0]];
                b.extend_from_slice(&Sha256::digest(&p));
                b.extend_from_slice(&p);
                let _ = catch_unwind(|| drop(Replica::decode(5, &EncodedReplica::from_bytes(&b))));
            },
            2 => {
                let mut b = bytes.to_vec();
                mangle(&mut b, &mut g);
                let _ = catch_unwind(|| drop(Replica::decode(5, &EncodedReplica::from_bytes(&b))));
            },
            _ => {
                if let Some(m) = (!msgs.is_empty()).then(|| msgs[g.below(msgs.len())].get()) {
                    let mut b = match m {
                        Msg::Ins(i) => bin(i),
                        Msg::Del(d) => bin(d),
                    };
                    mangle(&mut b, &mut g);
                    let _ = catch_unwind(|| {
                        let _ = unbin::<Insertion>(&b);
                        let _ = unbin::<Deletion>(&b);
                        let _ = unbin::<Anchor>(&b);
                        let _ = unbin::<EncodedReplica<'static>>(&b);
                    });
                }
                if let Some(a) = anchors.first() {
                    let mut b = bin(a);
                    mangle(&mut b, &mut g);
                    let _ = catch_unwind(|| unbin::<Anchor>(&b));
                }
            },
        }
    }
}

fn mangle(p: &mut Vec<u8>, g: &mut Rng) {
    for _ in 0..1 + g.below(3) {
        if p.is_empty() {
            p.push(g.u64() as u8);
        }
        let i = g.below(p.len());
        match g.below(6) {
            0 => p[i] ^= 1 << g.below(8),
            1 => p[i] = [0, 1, 2, 0x7f, 0x80, 0xff][g.below(6)],
            2 => p.truncate(i),
            3 => p.insert(i, g.u64() as u8),
            4 => {
                p.remove(i);
            },
            _ => p[i] = p[i].wrapping_add(1),
        }
    }
}

/// One replica is read from several threads at once.
fn share(p: &Peer, anchors: &[Anchor], seed: u64) -> Res<()> {
    let mut g = Rng::new(seed);
    let n = g.range(2, 4);
    let rounds = if cfg!(miri) { 1 } else { 3 };
    let seeds: Vec<Vec<u64>> = (0..n).map(|_| (0..rounds).map(|_| g.u64()).collect()).collect();
    let expect: Vec<Vec<u64>> =
        seeds.iter().map(|s| s.iter().map(|&s| read(&p.r, anchors, s, &p.buf)).collect()).collect();
    let shared = Across((&p.r, anchors, &p.buf[..]));
    let shared = &shared;
    let got: Vec<Res<Vec<u64>>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seeds| {
                s.spawn(move || {
                    let (r, anchors, buf) = *shared.get();
                    seeds.iter().map(|&s| read(r, anchors, s, buf)).collect::<Vec<u64>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|e| format!("a reading thread panicked: {}", panic_text(&*e)))).collect()
    });
    for (g, e) in got.into_iter().zip(expect) {
        if g? != e {
            return Err("a replica read from several threads at once doesn't answer as when it's read from one".into());
        }
    }
    Ok(())
}

/// Every peer moves to a thread of its own, where it edits and receives what
/// the others send. They come back when they have everything.
fn exchange(peers: Vec<Peer>, seed: u64) -> Res<Vec<Peer>> {
    let mut g = Rng::new(seed);
    let steps = g.range(3, 14);
    let n = peers.len();
    let (txs, rxs): (Vec<_>, Vec<_>) = (0..n).map(|_| mpsc::channel::<Arc<Across<Msg>>>()).unzip();
    let mut hs = vec![];
    for (t, (p, rx)) in peers.into_iter().zip(rxs).enumerate() {
        let txs: Vec<_> = txs.iter().enumerate().filter(|(i, _)| *i != t).map(|(_, tx)| tx.clone()).collect();
        let seed = g.u64();
        let p = Across(p);
        hs.push(std::thread::spawn(move || -> Across<Res<Peer>> {
            let mut p = p.into();
            let mut g = Rng::new(seed);
            let mut body = || -> Res<()> {
                for _ in 0..steps {
                    let len = p.buf.len();
                    let m = match g.below(6) {
                        0 | 1 => {
                            let off = g.below(len + 1);
                            let n = g.range(1, 4);
                            Msg::Ins(own_insert(&mut p.r, &mut p.buf, off, n))
                        },
                        2 if len > 0 => {
                            let s = g.below(len);
                            let e = (s + 1 + g.below(12)).min(len);
                            Msg::Del(own_delete(&mut p.r, &mut p.buf, s, e))
                        },
                        3 => {
                            drain(&mut p.r, &mut p.buf)?;
                            continue;
                        },
                        _ => {
                            while let Ok(m) = rx.try_recv() {
                                integrate(&mut p.r, &mut p.buf, m.get())?;
                            }
                            continue;
                        },
                    };
                    let m = Arc::new(Across(m));
                    for tx in &txs {
                        // A peer that failed no longer listens.
                        let _ = tx.send(m.clone());
                    }
                }
                Ok(())
            };
            let r = body();
            drop(txs);
            if let Err(e) = r {
                return Across(Err(e));
            }
            for m in rx {
                if let Err(e) = integrate(&mut p.r, &mut p.buf, m.get()) {
                    return Across(Err(e));
                }
            }
            Across(drain(&mut p.r, &mut p.buf).map(|()| p))
        }));
    }
    drop(txs);
    let mut out = vec![];
    let mut err = None;
    for h in hs {
        match h.join() {
            Ok(x) => match x.into() {
                Ok(p) => out.push(p),
                Err(e) => err = Some(e),
            },
            Err(e) => err = Some(format!("a peer's thread panicked: {}", panic_text(&*e))),
        }
    }
    match err {
        Some(e) => Err(e),
        None => equal(&out).map(|()| out),
    }
}

/// The types a user needs to move between threads or share among them that
/// can't be, if any. Decided without failing to build.
pub fn thread_safe() -> Vec<&'static str> {
    use std::marker::PhantomData;
    struct Is<T: ?Sized>(PhantomData<T>);
    #[allow(dead_code)]
    trait No {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    impl<T: ?Sized> No for Is<T> {}
    struct Snd<T: ?Sized>(PhantomData<T>);
    impl<T: ?Sized> No for Snd<T> {}
    impl<T: ?Sized + Send> Snd<T> {
        const SEND: bool = true;
    }
    impl<T: ?Sized + Sync> Is<T> {
        const SYNC: bool = true;
    }
    let mut bad = vec![];
    macro_rules! check {
        ($($t:ty),*) => { $(
            if !<Snd<$t>>::SEND {
                bad.push(concat!(stringify!($t), " isn't Send"));
            }
            if !<Is<$t>>::SYNC {
                bad.push(concat!(stringify!($t), " isn't Sync"));
            }
        )* };
    }
    check!(Replica, Insertion, Deletion, cola::Text, Anchor, AnchorBias, EncodedReplica<'static>, cola::DecodeError);
    bad
}
