//! C24: builds with the same protocol number are compatible.
//!
//! One session whose peers run different builds of cola: the one in /repo and
//! a frozen one (`reference/`). Everything they exchange, edits, snapshots and
//! anchors, travels as bytes. The session must be as good as one in which
//! everybody runs the same build.

use crate::case::{Case, Op, OpK, SCALES};
use crate::kinds::{Ctx, Fail, Kind};
use crate::rng::Rng;
use crate::wire;
use crate::world::{call, Outcome, Stats, VERBOSE};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::HashMap;
use std::ops::Range;

type Res<T> = Result<T, Fail>;

/// A replica, in either build.
enum R {
    Cur(cola::Replica),
    Ref(cola_reference::Replica),
}

macro_rules! both {
    ($s:expr, $r:ident, $m:ident => $e:expr) => {
        match $s {
            R::Cur($r) => {
                #[allow(unused_imports)]
                use cola as $m;
                $e
            },
            R::Ref($r) => {
                #[allow(unused_imports)]
                use cola_reference as $m;
                $e
            },
        }
    };
}

fn bad<T>(msg: impl Into<String>) -> Res<T> {
    Err(Fail { kind: Kind::Compat, ctx: Ctx::Final, msg: msg.into() })
}

fn pack<T: Serialize>(x: &T, fmt: u8) -> Vec<u8> {
    match fmt % 3 {
        0 => wire::bin(x),
        1 => serde_json::to_vec(x).expect("to JSON"),
        _ => {
            let mut v = Vec::new();
            ciborium::into_writer(x, &mut v).expect("to CBOR");
            v
        },
    }
}

fn unpack<T: DeserializeOwned>(b: &[u8], fmt: u8) -> Result<T, String> {
    match fmt % 3 {
        0 => wire::unbin(b),
        1 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        _ => {
            let mut scratch = vec![0u8; b.len() + 16];
            ciborium::de::from_reader_with_buffer(b, &mut scratch).map_err(|e| e.to_string())
        },
    }
}

fn must<T>(r: Result<T, String>, what: &str) -> Res<T> {
    r.or_else(|e| bad(format!("{what} made by a peer with the other build can't be read: {e}")))
}

struct Edit {
    by: u64,
    build: bool,
    fmt: u8,
    bytes: Vec<u8>,
    kind: EK,
    /// How many edits the author had received.
    seen: usize,
}

enum EK {
    /// Where its text starts in the author's temporal order, and its length.
    Ins { first: u32, start: usize, n: usize },
    Del,
}

struct Peer {
    r: R,
    id: u64,
    doc: Vec<u32>,
    recv: Vec<bool>,
    n_recv: usize,
    /// Nothing before this one is missing.
    low: usize,
    cursor: usize,
}

struct Snap {
    build: bool,
    fmt: u8,
    bytes: Vec<u8>,
    doc: Vec<u32>,
    recv: Vec<bool>,
}

struct Mark {
    build: bool,
    fmt: u8,
    bytes: Vec<u8>,
    by: u64,
}

/// Which builds take part.
#[derive(Clone, Copy, PartialEq)]
enum Who {
    Mixed,
    Only(bool),
}

struct Session<'a> {
    case: &'a Case,
    who: Who,
    k: usize,
    peers: Vec<Peer>,
    edits: Vec<Edit>,
    snaps: Vec<Snap>,
    marks: Vec<Mark>,
    /// (author, temporal offset / k) -> character; and the identity of each.
    texts: HashMap<(u64, usize), (u32, usize)>,
    chars: u32,
    deleted: Vec<bool>,
    ids: u64,
    s: Stats,
}

const CUR: bool = true;

fn name(b: bool) -> &'static str {
    if b == CUR {
        "this build"
    } else {
        "the reference build"
    }
}

impl R {
    fn build(&self) -> bool {
        matches!(self, R::Cur(_)) == CUR
    }
    fn new(build: bool, id: u64, len: usize) -> R {
        if build == CUR {
            R::Cur(cola::Replica::new(id, len))
        } else {
            R::Ref(cola_reference::Replica::new(id, len))
        }
    }
    fn len(&self) -> usize {
        both!(self, r, m => r.len())
    }
    fn fork(&self, id: u64) -> R {
        match self {
            R::Cur(r) => R::Cur(r.fork(id)),
            R::Ref(r) => R::Ref(r.fork(id)),
        }
    }
    /// `fmt` 3: the bytes themselves.
    fn encode(&self, fmt: u8) -> Vec<u8> {
        both!(self, r, m => {
            let e = r.encode();
            if fmt == 3 { e.as_bytes().to_vec() } else { pack(&e, fmt) }
        })
    }
    fn decode(build: bool, id: u64, b: &[u8], fmt: u8) -> Result<R, String> {
        macro_rules! go {
            ($m:ident, $v:ident) => {{
                if fmt == 3 {
                    let e = $m::EncodedReplica::from_bytes(b);
                    $m::Replica::decode(id, &e).map(R::$v).map_err(|e| e.to_string())
                } else {
                    let e: $m::EncodedReplica<'static> = unpack(b, fmt)?;
                    $m::Replica::decode(id, &e).map(R::$v).map_err(|e| e.to_string())
                }
            }};
        }
        if build == CUR {
            go!(cola, Cur)
        } else {
            go!(cola_reference, Ref)
        }
    }
    /// Serialised edit, and the start of its text.
    fn inserted(&mut self, at: usize, n: usize, fmt: u8) -> (Vec<u8>, usize) {
        both!(self, r, m => {
            let i = r.inserted(at, n);
            (pack(&i, fmt), i.text().temporal_range().start)
        })
    }
    fn deleted(&mut self, range: Range<usize>, fmt: u8) -> Vec<u8> {
        both!(self, r, m => pack(&r.deleted(range), fmt))
    }
    #[allow(clippy::type_complexity)]
    fn integrate_insertion(&mut self, b: &[u8], fmt: u8) -> Result<(Option<usize>, u64, u64, Range<usize>), String> {
        both!(self, r, m => {
            let i: m::Insertion = unpack(b, fmt)?;
            let at = r.integrate_insertion(&i);
            Ok((at, i.inserted_by(), i.text().inserted_by(), i.text().temporal_range()))
        })
    }
    fn integrate_deletion(&mut self, b: &[u8], fmt: u8) -> Result<(Vec<Range<usize>>, u64), String> {
        both!(self, r, m => {
            let d: m::Deletion = unpack(b, fmt)?;
            Ok((r.integrate_deletion(&d), d.deleted_by()))
        })
    }
    fn drain_ins(&mut self) -> Vec<(u64, Range<usize>, usize)> {
        both!(self, r, m => r.backlogged_insertions().map(|(t, at)| (t.inserted_by(), t.temporal_range(), at)).collect())
    }
    fn drain_del(&mut self) -> Vec<Vec<Range<usize>>> {
        both!(self, r, m => r.backlogged_deletions().collect())
    }
    fn anchor(&self, at: usize, left: bool, fmt: u8) -> Vec<u8> {
        both!(self, r, m => {
            let bias = if left { m::AnchorBias::Left } else { m::AnchorBias::Right };
            pack(&r.create_anchor(at, bias), fmt)
        })
    }
    fn resolve(&self, b: &[u8], fmt: u8) -> Result<Option<usize>, String> {
        both!(self, r, m => {
            let a: m::Anchor = unpack(b, fmt)?;
            Ok(r.resolve_anchor(a))
        })
    }
}

fn say(msg: impl FnOnce() -> String) {
    if VERBOSE.with(|v| v.get()) {
        println!("  {}", msg());
    }
}

impl<'a> Session<'a> {
    fn pick_build(&self, x: u64) -> bool {
        match self.who {
            Who::Only(b) => b,
            Who::Mixed => (x ^ self.case.cfg.id_seed).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 63 == 1,
        }
    }

    fn fresh_id(&mut self) -> u64 {
        let n = self.ids;
        self.ids += 1;
        let c = &self.case.cfg;
        match c.ids % 5 {
            0 => n + 1,
            1 => 250 + n,
            2 => u64::MAX - n * (1 + c.id_seed % 100),
            3 => (n + 1).wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ c.id_seed << 16 | 1 << 50,
            _ => 20_000 - n * 37,
        }
    }

    fn fmt(&self, o: &Op) -> u8 {
        match self.case.cfg.transport {
            0 => (o.c % 3) as u8,
            t => t % 3,
        }
    }

    fn new(case: &'a Case, who: Who) -> Res<Session<'a>> {
        let c = &case.cfg;
        let k = SCALES[c.scale as usize % SCALES.len()].min(1 << 40);
        let mut s = Session {
            case,
            who,
            k,
            peers: vec![],
            edits: vec![],
            snaps: vec![],
            marks: vec![],
            texts: HashMap::new(),
            chars: c.init_len,
            deleted: vec![false; c.init_len as usize],
            ids: 0,
            s: Stats::default(),
        };
        let id = s.fresh_id();
        let first = s.pick_build(0);
        let r = call(Ctx::New, "Replica::new", || R::new(first, id, c.init_len as usize * k))?;
        if c.init_len > 0 {
            s.texts.insert((id, 0), (0, c.init_len as usize));
        }
        s.peers.push(Peer { r, id, doc: (0..c.init_len).collect(), recv: vec![], n_recv: 0, low: 0, cursor: 0 });
        for i in 1..(c.start_peers as usize).max(2) {
            // At least one of each.
            let b = match who {
                Who::Only(b) => b,
                Who::Mixed if i == 1 => !first,
                Who::Mixed => s.pick_build(i as u64),
            };
            s.join(0, b, (c.fin_seed as usize + i) as u8)?;
        }
        Ok(s)
    }

    fn add(&mut self, r: R, id: u64, doc: Vec<u32>, recv: Vec<bool>) -> Res<()> {
        let n_recv = recv.iter().filter(|x| **x).count();
        let cursor = doc.len();
        self.peers.push(Peer { r, id, doc, recv, n_recv, low: 0, cursor });
        self.check_len(self.peers.len() - 1)
    }

    fn join(&mut self, p: usize, build: bool, x: u8) -> Res<()> {
        let id = self.fresh_id();
        let from = self.peers[p].r.build();
        let (doc, recv) = (self.peers[p].doc.clone(), self.peers[p].recv.clone());
        let r = if from == build && x % 2 == 0 {
            self.s.forks += 1;
            call(Ctx::Fork, "fork", || self.peers[p].r.fork(id))?
        } else {
            self.s.joins += 1;
            self.s.crossed += (from != build) as u64;
            let fmt = x / 2 % 4;
            let b = call(Ctx::Codec, "encode", || self.peers[p].r.encode(fmt))?;
            must(call(Ctx::Codec, "decode", || R::decode(build, id, &b, fmt))?, "a snapshot")?
        };
        say(|| format!("peer {} ({}) joins from peer {p}", self.peers.len(), name(build)));
        self.add(r, id, doc, recv)
    }

    fn check_len(&mut self, p: usize) -> Res<()> {
        let (a, b) = (self.peers[p].r.len(), self.peers[p].doc.len() * self.k);
        if a != b {
            return bad(format!("the replica of peer {p} ({}) is {a} long, its buffer {b}", name(self.peers[p].r.build())));
        }
        Ok(())
    }

    fn got(&mut self, p: usize, e: usize) {
        let n = self.edits.len();
        let q = &mut self.peers[p];
        q.recv.resize(n, false);
        if !q.recv[e] {
            q.recv[e] = true;
            q.n_recv += 1;
        }
        while q.low < q.recv.len() && q.recv[q.low] {
            q.low += 1;
        }
    }

    fn ins(&mut self, p: usize, at: usize, n: usize, fmt: u8) -> Res<()> {
        let k = self.k;
        let q = &mut self.peers[p];
        let (bytes, start) = call(Ctx::LocalIns, "inserted", || q.r.inserted(at * k, n * k, fmt))?;
        let first = self.chars;
        self.chars += n as u32;
        self.deleted.resize(self.chars as usize, false);
        q.doc.splice(at..at, first..first + n as u32);
        q.cursor = at + n;
        let (by, build, seen) = (q.id, q.r.build(), q.n_recv);
        self.texts.insert((by, start), (first, n));
        say(|| format!("peer {p} inserts {n} at {at}"));
        self.s.inserts += 1;
        self.push(p, Edit { by, build, fmt, bytes, kind: EK::Ins { first, start, n }, seen })
    }

    fn del(&mut self, p: usize, from: usize, to: usize, fmt: u8) -> Res<()> {
        let k = self.k;
        let q = &mut self.peers[p];
        let bytes = call(Ctx::LocalDel, "deleted", || q.r.deleted(from * k..to * k, fmt))?;
        for t in q.doc.drain(from..to) {
            self.deleted[t as usize] = true;
        }
        q.cursor = from;
        let (by, build, seen) = (q.id, q.r.build(), q.n_recv);
        say(|| format!("peer {p} deletes {from}..{to}"));
        self.s.deletes += 1;
        self.push(p, Edit { by, build, fmt, bytes, kind: EK::Del, seen })
    }

    fn push(&mut self, p: usize, e: Edit) -> Res<()> {
        self.s.edits += 1;
        self.edits.push(e);
        self.got(p, self.edits.len() - 1);
        self.check_len(p)
    }

    fn unit(&self, p: usize, real: usize) -> Res<usize> {
        if real % self.k != 0 || real / self.k > self.peers[p].doc.len() {
            return bad(format!("peer {p} is told about offset {real}, but units are {} long and its document {}", self.k, self.peers[p].doc.len()));
        }
        Ok(real / self.k)
    }

    fn remove(&mut self, p: usize, ranges: &[Range<usize>]) -> Res<Vec<u32>> {
        let mut gone = vec![];
        for r in ranges.iter().rev() {
            let (s, e) = (self.unit(p, r.start)?, self.unit(p, r.end)?);
            if s >= e {
                return bad(format!("peer {p} is told to delete {r:?}"));
            }
            gone.extend(self.peers[p].doc.drain(s..e));
        }
        for &g in &gone {
            if !self.deleted[g as usize] {
                return bad(format!("peer {p} is told to delete character {g}, which nobody deleted"));
            }
        }
        Ok(gone)
    }

    fn deliver(&mut self, p: usize, e: usize) -> Res<()> {
        let had = self.peers[p].recv.get(e).copied().unwrap_or(false);
        let ed = &self.edits[e];
        let q = &mut self.peers[p];
        let build = q.r.build();
        self.s.crossed += (build != ed.build) as u64;
        self.s.integrated += 1;
        self.s.concurrent += (!had && q.n_recv > ed.seen) as u64;
        say(|| format!("edit {e} (made by {}) to peer {p} ({})", name(ed.build), name(build)));
        match &ed.kind {
            &EK::Ins { first, start, n } => {
                let got = call(Ctx::IntIns, "integrate_insertion", || q.r.integrate_insertion(&ed.bytes, ed.fmt))?;
                let (at, by, tby, range) = must(got, "an insertion")?;
                if by != ed.by || tby != ed.by || range != (start..start + n * self.k) {
                    return bad(format!("an insertion of {} by {} at {start} is read as one of {range:?} by {by}/{tby}", n * self.k, ed.by));
                }
                // One that was waiting may be applied now.
                if had && at.is_some() && self.peers[p].doc.contains(&first) {
                    return bad(format!("edit {e} is applied a second time at peer {p}"));
                }
                if let Some(at) = at {
                    let at = self.unit(p, at)?;
                    self.peers[p].doc.splice(at..at, first..first + n as u32);
                }
            },
            EK::Del => {
                let got = call(Ctx::IntDel, "integrate_deletion", || q.r.integrate_deletion(&ed.bytes, ed.fmt))?;
                let (ranges, by) = must(got, "a deletion")?;
                if by != ed.by {
                    return bad(format!("a deletion by {} is read as one by {by}", ed.by));
                }
                // It may also take what its author knew to be deleted already.
                self.remove(p, &ranges)?;
            },
        }
        self.got(p, e);
        self.check_len(p)
    }

    fn drain(&mut self, p: usize) -> Res<()> {
        let got = call(Ctx::DrainIns, "backlogged_insertions", || self.peers[p].r.drain_ins())?;
        for (by, range, at) in got {
            self.s.drained += 1;
            let Some(&(first, n)) = self.texts.get(&(by, range.start)) else {
                return bad(format!("the backlog of peer {p} yields {range:?} by {by}, which nobody inserted"));
            };
            if range.len() != n * self.k {
                return bad(format!("the backlog of peer {p} yields {range:?} by {by}, {} were inserted", n * self.k));
            }
            let at = self.unit(p, at)?;
            self.peers[p].doc.splice(at..at, first..first + n as u32);
        }
        self.check_len(p)?;
        let got = call(Ctx::DrainDel, "backlogged_deletions", || self.peers[p].r.drain_del())?;
        for ranges in got {
            self.s.drained += 1;
            self.remove(p, &ranges)?;
        }
        self.check_len(p)
    }

    fn compare(&mut self) -> Res<()> {
        for p in 0..self.peers.len() {
            self.drain(p)?;
            let n = self.edits.len();
            self.peers[p].recv.resize(n, false);
        }
        let mut resolved: Vec<Option<Vec<Option<usize>>>> = (0..self.peers.len()).map(|_| None).collect();
        for p in 0..self.peers.len() {
            for q in p + 1..self.peers.len() {
                if self.peers[p].n_recv != self.peers[q].n_recv || self.peers[p].recv != self.peers[q].recv {
                    continue;
                }
                self.s.compares += 1;
                if self.peers[p].doc != self.peers[q].doc {
                    return bad(format!(
                        "peers {p} ({}) and {q} ({}) have received the same edits but have different documents",
                        name(self.peers[p].r.build()),
                        name(self.peers[q].r.build())
                    ));
                }
                for x in [p, q] {
                    if resolved[x].is_none() {
                        let mut v = vec![];
                        for m in &self.marks {
                            self.s.anchor_checks += 1;
                            self.s.crossed += (m.build != self.peers[x].r.build()) as u64;
                            let r = call(Ctx::AnchorGet, "resolve_anchor", || self.peers[x].r.resolve(&m.bytes, m.fmt))?;
                            v.push(must(r, "an anchor")?);
                        }
                        resolved[x] = Some(v);
                    }
                }
                if resolved[p] != resolved[q] {
                    let i = resolved[p].iter().flatten().zip(resolved[q].iter().flatten()).position(|(a, b)| a != b).unwrap_or(0);
                    return bad(format!(
                        "anchor {i} of {} resolves to {:?} at peer {p} ({}) and to {:?} at peer {q} ({})",
                        self.marks[i].by,
                        resolved[p].as_ref().unwrap()[i],
                        name(self.peers[p].r.build()),
                        resolved[q].as_ref().unwrap()[i],
                        name(self.peers[q].r.build())
                    ));
                }
            }
        }
        Ok(())
    }

    fn missing(&self, p: usize) -> Vec<usize> {
        let q = &self.peers[p];
        (q.low..self.edits.len()).filter(|&e| !q.recv.get(e).copied().unwrap_or(false)).collect()
    }

    fn sync_all(&mut self, how: u8, seed: u64) -> Res<()> {
        let mut rng = Rng::new(seed);
        for p in 0..self.peers.len() {
            let mut m = self.missing(p);
            match how % 4 {
                0 => {},
                1 => m.reverse(),
                2 => rng.shuffle(&mut m),
                _ => {
                    for c in m.chunks_mut(8) {
                        rng.shuffle(c);
                    }
                },
            }
            for e in m {
                self.deliver(p, e)?;
            }
        }
        self.compare()?;
        let want: usize = self.deleted.iter().filter(|d| !**d).count();
        for (p, q) in self.peers.iter().enumerate() {
            if q.doc.len() != want || q.doc.iter().any(|&c| self.deleted[c as usize]) {
                return bad(format!(
                    "after everything has been delivered, the document of peer {p} ({}) isn't everything inserted minus everything deleted",
                    name(q.r.build())
                ));
            }
        }
        Ok(())
    }

    fn pos(&self, p: usize, o: &Op) -> usize {
        let q = &self.peers[p];
        let len = q.doc.len();
        match o.c / 3 % 8 {
            0..=2 => ((o.a as usize) * (len + 1)) >> 16,
            3..=5 => (q.cursor + (o.a % 5) as usize).saturating_sub(2).min(len),
            6 => (o.a % 3) as usize % (len + 1),
            _ => len - (o.a % 3) as usize % (len + 1),
        }
    }

    fn step(&mut self, o: &Op) -> Res<()> {
        let n = self.peers.len();
        let p = o.p as usize % n;
        let fmt = self.fmt(o);
        let x = (o.b >> 4) as usize;
        match OpK::ALL[o.k as usize % OpK::N] {
            OpK::Ins => {
                let len = match o.b % 16 {
                    0..=9 => 1 + x % 3,
                    10..=14 => 1 + x % 30,
                    _ => 1 + x % 300,
                };
                let at = self.pos(p, o);
                self.ins(p, at, len, fmt)?;
            },
            OpK::Type => {
                let mut at = self.pos(p, o);
                for i in 0..1 + x % 12 {
                    self.ins(p, at, 1 + (o.b as usize >> (i % 4)) % 2, fmt)?;
                    at = self.peers[p].cursor;
                }
            },
            OpK::Back => {
                for _ in 0..1 + x % 8 {
                    let at = self.peers[p].cursor.min(self.peers[p].doc.len());
                    if at > 0 {
                        self.del(p, at - 1, at, fmt)?;
                    }
                }
            },
            OpK::DelFwd => {
                for _ in 0..1 + x % 8 {
                    let at = self.peers[p].cursor;
                    if at < self.peers[p].doc.len() {
                        self.del(p, at, at + 1, fmt)?;
                    }
                }
            },
            OpK::Del => {
                let len = self.peers[p].doc.len();
                if len > 0 {
                    let s = self.pos(p, o).min(len - 1);
                    let e = match o.b % 16 {
                        0..=7 => s + 1 + x % 4,
                        8..=13 => s + 1 + x % 40,
                        14 => len,
                        _ => s + 1 + (x * (len - s)) / 4096,
                    };
                    self.del(p, s, e.min(len), fmt)?;
                }
            },
            OpK::Chaos => {
                // Everybody inserts at the same place.
                let m = 1 + x % 3;
                for q in 0..n {
                    let at = ((o.a as usize) * (self.peers[q].doc.len() + 1)) >> 16;
                    for i in 0..m {
                        self.ins(q, if o.c % 2 == 0 { at } else { self.peers[q].cursor.min(at + i) }, 1 + i % 2, fmt)?;
                    }
                }
            },
            OpK::Marathon => {
                let m = [300, 1500, 5000][o.b as usize % 3];
                let mut rng = Rng::new(o.c as u64);
                for i in 0..m {
                    let len = self.peers[p].doc.len();
                    let at = match o.a % 4 {
                        0 => self.peers[p].cursor.min(len),
                        1 => 0,
                        2 => rng.below(len + 1),
                        _ => len / 2,
                    };
                    if len > 40 && i % 7 >= 4 {
                        let at = at.min(len - 1);
                        self.del(p, at, at + 1, 0)?;
                    } else {
                        self.ins(p, at, 1 + (i % 5 == 0) as usize, 0)?;
                    }
                }
            },
            OpK::Deliver => {
                let m = self.missing(p);
                if !m.is_empty() {
                    let e = match o.b % 4 {
                        0 | 1 => m[0],
                        2 => m[m.len() - 1],
                        _ => m[o.a as usize % m.len()],
                    };
                    self.deliver(p, e)?;
                }
            },
            OpK::DeliverN => {
                let mut m = self.missing(p);
                let mut rng = Rng::new(o.a as u64);
                rng.shuffle(&mut m);
                for e in m.into_iter().take(1 + x % 12) {
                    self.deliver(p, e)?;
                }
            },
            OpK::SyncPair => {
                let q = o.a as usize % n;
                for e in self.missing(p) {
                    if self.peers[q].recv.get(e).copied().unwrap_or(false) {
                        self.deliver(p, e)?;
                    }
                }
                self.drain(p)?;
            },
            OpK::SyncAll => self.sync_all(o.a as u8, o.b as u64)?,
            OpK::Dup => {
                if !self.edits.is_empty() {
                    let e = o.a as usize % self.edits.len();
                    if self.peers[p].recv.get(e).copied().unwrap_or(false) {
                        self.s.dups += 1;
                        self.deliver(p, e)?;
                    }
                }
            },
            OpK::DrainIns | OpK::DrainDel => self.drain(p)?,
            OpK::Fork | OpK::Join if n < self.case.cfg.max_peers as usize => {
                let b = self.pick_build(o.a as u64 * 3 + 1);
                self.join(p, b, o.b as u8)?;
            },
            OpK::Reload => {
                // Continues from its own snapshot, possibly in the other build.
                let to = self.pick_build(o.a as u64 * 5 + 2);
                self.join(p, to, o.b as u8 | 1)?;
                let new = self.peers.pop().unwrap();
                self.peers[p] = new;
            },
            OpK::SnapTake => {
                let f = (o.b % 4) as u8;
                let bytes = call(Ctx::Codec, "encode", || self.peers[p].r.encode(f))?;
                let q = &self.peers[p];
                let s = Snap { build: q.r.build(), fmt: f, bytes, doc: q.doc.clone(), recv: q.recv.clone() };
                if self.snaps.len() < 4 {
                    self.snaps.push(s);
                } else {
                    self.snaps[o.a as usize % 4] = s;
                }
            },
            OpK::SnapJoin if !self.snaps.is_empty() && n < self.case.cfg.max_peers as usize + 2 => {
                let to = self.pick_build(o.b as u64 * 7 + 3);
                let id = self.fresh_id();
                let s = &self.snaps[o.a as usize % self.snaps.len()];
                self.s.joins += 1;
                self.s.crossed += (s.build != to) as u64;
                let r = must(call(Ctx::Codec, "decode", || R::decode(to, id, &s.bytes, s.fmt))?, "a snapshot")?;
                let (doc, recv) = (s.doc.clone(), s.recv.clone());
                self.add(r, id, doc, recv)?;
            },
            OpK::AnchorNew => {
                let at = self.pos(p, o) * self.k;
                let bytes = call(Ctx::AnchorMake, "create_anchor", || self.peers[p].r.anchor(at, x % 2 == 0, fmt))?;
                if self.marks.len() < 24 {
                    self.s.anchors += 1;
                    self.marks.push(Mark { build: self.peers[p].r.build(), fmt, bytes, by: self.peers[p].id });
                }
            },
            OpK::Compare | OpK::AnchorChk => self.compare()?,
            _ => {},
        }
        Ok(())
    }
}

fn session(case: &Case, who: Who) -> (Res<()>, Stats) {
    let mut s = match Session::new(case, who) {
        Ok(s) => s,
        Err(f) => return (Err(f), Stats::default()),
    };
    let mut go = || -> Res<()> {
        for o in &case.ops {
            s.step(o)?;
        }
        let (how, seed) = (case.cfg.fin, case.cfg.fin_seed);
        s.sync_all(how, seed)?;
        // Edits made after all that.
        for p in 0..s.peers.len() {
            let len = s.peers[p].doc.len();
            s.ins(p, len / 2, 1, 0)?;
            s.ins(p, len / 2, 2, 1)?;
            if len > 4 {
                s.del(p, len / 4, len / 4 + 3, 2)?;
            }
        }
        s.sync_all(how / 4, seed ^ 1)?;
        s.s.max_doc = s.peers[0].doc.len() as u64;
        Ok(())
    };
    let r = go();
    (r, s.s)
}

/// The protocol number at the front of an encoding.
fn protocol(r: &R) -> Option<u64> {
    wire::unleb(&r.encode(3)).map(|x| x.0)
}

pub fn run(case: &Case) -> Outcome {
    let (cur, re) = (R::new(CUR, 7, 3), R::new(!CUR, 7, 3));
    let (a, b) = (protocol(&cur), protocol(&re));
    if a != b {
        // Nothing is promised then, except that it's noticed.
        let mut fail = None;
        for (x, to) in [(&cur, !CUR), (&re, CUR)] {
            if R::decode(to, 8, &x.encode(3), 3).is_ok() {
                fail = Some(Fail {
                    kind: Kind::Compat,
                    ctx: Ctx::Codec,
                    msg: format!("a snapshot with the protocol number {a:?} was decoded by a build with {b:?} (or vice versa)"),
                });
            }
        }
        return Outcome { fail, stats: Stats::default(), core: Stats::default() };
    }
    let (res, stats) = session(case, Who::Mixed);
    let mut fail = res.err();
    if let Some(f) = &mut fail {
        // Only what doesn't happen among equals counts.
        let alone = [CUR, !CUR].iter().find_map(|&b| session(case, Who::Only(b)).0.err());
        match alone {
            Some(g) => *f = Fail { kind: Kind::Diverge, ctx: g.ctx, msg: format!("also among peers with the same build: {}", g.msg) },
            None => f.kind = Kind::Compat,
        }
    }
    Outcome { fail, core: stats.clone(), stats }
}
