//! The simulated session: real `Replica`s driven by a `Case`, and next to them
//! an independent model of what each peer's user sees.
//!
//! The model never looks inside cola. Every character of the session has a
//! global identity (author, temporal offset) which the public API exposes
//! through `Insertion::text()`; each peer's buffer is a list of identities that
//! is edited exactly the way a user's buffer would be, following the offsets
//! and ranges the replica returns. The oracles only relate those buffers, the
//! identities and the set of edits each peer has integrated.

use crate::case::*;
use crate::kinds::*;
use crate::rng::Rng;
use crate::wire;
use cola::{Anchor, AnchorBias, Deletion, EncodedReplica, Insertion, Replica, ReplicaId};
use std::cell::RefCell;
use std::ops::{Bound, Range};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    pub static VERBOSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub type Res<T> = Result<T, Fail>;

pub fn call<T>(ctx: Ctx, what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(Fail {
            kind: Kind::Panic,
            ctx,
            msg: format!("{what} panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())),
        }),
    }
}

#[derive(Clone)]
pub enum Msg {
    Ins(Insertion),
    Del(Deletion),
}

pub enum EK {
    Ins { first: u32, n: u32 },
    Del { targets: Vec<u32>, visible: Bits, at_start: bool },
}

pub struct Edit {
    pub author: u32,
    /// Index among the author's edits of the same kind.
    pub seq: u32,
    pub kind: EK,
    /// Insertions of each author that the author had integrated before making
    /// this edit.
    pub deps: Vec<u32>,
    pub msg: Msg,
}

#[derive(Clone, Default)]
pub struct Bits(Vec<u64>);
impl Bits {
    fn from_doc(doc: &[u32], n: usize) -> Self {
        let mut v = vec![0u64; n / 64 + 1];
        for &c in doc {
            v[c as usize / 64] |= 1 << (c % 64);
        }
        Bits(v)
    }
    fn get(&self, c: u32) -> bool {
        self.0.get(c as usize / 64).is_some_and(|w| w >> (c % 64) & 1 == 1)
    }
}

pub struct Author {
    pub id: ReplicaId,
    /// Number of initial characters (only the first author has any).
    pub units: u32,
    pub ins: Vec<u32>,
    /// Temporal start (in units) of each insertion.
    pub ins_start: Vec<u32>,
    pub dels: Vec<u32>,
}

#[derive(Clone, Copy)]
pub struct Ch {
    pub author: u32,
    /// Index of the insertion among its author's, or u32::MAX if initial.
    pub seq: u32,
}

#[derive(Clone)]
pub struct Core {
    pub r: Replica,
    pub doc: Vec<u32>,
}

#[derive(Clone)]
pub struct Peer {
    pub author: u32,
    pub live: bool,
    pub core: Core,
    pub known: Vec<u32>,
    /// 0 = not received, 1 = received but not applied, 2 = applied.
    pub status: Vec<u8>,
    pub unrecv: Vec<u32>,
    pub pending: Vec<u32>,
    pub cursor: usize,
    pub twin: Option<Core>,
    /// Edits the causal-order twin has integrated.
    pub twin_seen: Vec<bool>,
    /// The twin has exactly the same identity: compare created edits too.
    pub twin_same: bool,
    /// The offset after the insertion the peer has just made, if it has done
    /// nothing since.
    pub typed: Option<usize>,
}

#[derive(Clone, Copy)]
pub enum Target {
    Start,
    End,
    Char(u32, AnchorBias),
}

pub struct AnchorInfo {
    pub anchor: Anchor,
    pub target: Target,
    pub author: u32,
}

pub struct Snap {
    pub bytes: Vec<u8>,
    pub peer: Peer,
    pub forked: Option<Replica>,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub edits: u64,
    pub inserts: u64,
    pub deletes: u64,
    pub integrated: u64,
    /// Integrations of an edit whose author hadn't seen everything the
    /// receiver had (i.e. genuinely concurrent).
    pub concurrent: u64,
    pub concurrent_del: u64,
    pub multi_range: u64,
    pub tie: u64,
    pub backlogged: u64,
    pub drained: u64,
    pub cross_chain: u64,
    pub dups: u64,
    pub dups_pending: u64,
    pub joins: u64,
    pub joins_rich: u64,
    pub forks: u64,
    pub clones: u64,
    pub anchors: u64,
    pub anchor_checks: u64,
    pub anchor_tomb: u64,
    pub anchor_unknown: u64,
    pub anchor_remote: u64,
    pub noops: u64,
    pub misuses: u64,
    pub corruptions: u64,
    pub garbage: u64,
    pub garbage_ok: u64,
    pub roundtrips: u64,
    pub epochs: u64,
    pub runs_checked: u64,
    pub compacts: u64,
    pub compares: u64,
    pub sizes: u64,
    pub twin_cmp: u64,
    pub twin_after: u64,
    pub edges: u64,
    pub max_doc: u64,
    pub max_runs: u64,
    pub chars: u64,
    pub outputs: u64,
    pub footprints: u64,
    pub continued: u64,
    pub idles: u64,
    pub costs: u64,
    pub views: u64,
    pub crossed: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        macro_rules! sum { ($($f:ident)*) => { $(self.$f += o.$f;)* } }
        sum!(edits inserts deletes integrated concurrent concurrent_del multi_range tie backlogged
            drained cross_chain dups dups_pending joins joins_rich forks clones anchors
            anchor_checks anchor_tomb anchor_unknown anchor_remote noops misuses corruptions garbage
            garbage_ok roundtrips epochs runs_checked compacts compares sizes twin_cmp twin_after edges
            chars outputs footprints continued idles costs views crossed);
        self.max_doc = self.max_doc.max(o.max_doc);
        self.max_runs = self.max_runs.max(o.max_runs);
    }
    pub fn fields(&self) -> Vec<(&'static str, u64)> {
        macro_rules! list { ($($f:ident)*) => { vec![$((stringify!($f), self.$f)),*] } }
        list!(edits inserts deletes integrated concurrent concurrent_del multi_range tie backlogged
            drained cross_chain dups dups_pending joins joins_rich forks clones anchors
            anchor_checks anchor_tomb anchor_unknown anchor_remote noops misuses corruptions garbage
            garbage_ok roundtrips epochs runs_checked compacts compares sizes twin_cmp twin_after edges
            chars outputs footprints continued idles costs views crossed max_doc max_runs)
    }
}

pub struct World {
    pub prop: String,
    pub mode: TwinMode,
    pub cfg: Cfg,
    /// Real length of one model unit.
    pub k: usize,
    pub authors: Vec<Author>,
    pub chars: Vec<Ch>,
    pub edits: Vec<Edit>,
    pub peers: Vec<Peer>,
    pub anchors: Vec<AnchorInfo>,
    pub snaps: Vec<Snap>,
    pub noops: Vec<(Msg, u32)>,
    /// (left, right, context): `left` was seen directly before `right`.
    pub edges: Vec<(u32, u32, Ctx)>,
    pub stats: Stats,
    pub core_stats: Stats,
    pub trace: Vec<u64>,
    pub record: bool,
    /// C22: what every peer's user sees after every step.
    pub views: Option<Vec<u64>>,
    /// C22: the ids to use, in the order they are handed out.
    pub id_table: Vec<ReplicaId>,
    pub ids_used: Vec<ReplicaId>,
    pub verbose: bool,
    /// Reference run: whatever the property is about is left out.
    neutral: bool,
    next_id: u64,
    /// Edits made by [`OpK::Marathon`] so far.
    marathon: usize,
    rng_fin: Rng,
}

macro_rules! say {
    ($self:expr, $($fmt:tt)*) => {
        if $self.verbose {
            eprintln!($($fmt)*);
        }
    };
}
macro_rules! soft {
    ($self:expr, $kind:expr, $ctx:expr, $($fmt:tt)*) => {
        if $self.wants($kind, $ctx) {
            return Err(Fail { kind: $kind, ctx: $ctx, msg: format!($($fmt)*) });
        }
    };
}
macro_rules! hard {
    ($kind:expr, $ctx:expr, $($fmt:tt)*) => {
        return Err(Fail { kind: $kind, ctx: $ctx, msg: format!($($fmt)*) })
    };
}

impl World {
    pub fn wants(&self, k: Kind, c: Ctx) -> bool {
        accepts(&self.prop, k, c)
    }

    pub fn new(prop: &str, cfg: &Cfg) -> Res<World> {
        Self::with_scale(prop, cfg, SCALES[cfg.scale as usize % SCALES.len()])
    }

    pub fn with_scale(prop: &str, cfg: &Cfg, k: usize) -> Res<World> {
        Self::with_ids(prop, cfg, k, vec![])
    }

    pub fn with_ids(prop: &str, cfg: &Cfg, k: usize, id_table: Vec<ReplicaId>) -> Res<World> {
        let mut w = World {
            prop: prop.to_string(),
            mode: twin_mode(prop),
            cfg: cfg.clone(),
            k,
            authors: vec![],
            chars: vec![],
            edits: vec![],
            peers: vec![],
            anchors: vec![],
            snaps: vec![],
            noops: vec![],
            edges: vec![],
            stats: Stats::default(),
            core_stats: Stats::default(),
            trace: vec![],
            record: false,
            views: None,
            id_table,
            ids_used: vec![],
            verbose: VERBOSE.with(|v| v.get()),
            neutral: false,
            next_id: 0,
            marathon: 0,
            rng_fin: Rng::new(cfg.fin_seed ^ 0x5eed),
        };
        let id = w.fresh_id();
        let n = cfg.init_len;
        let r = call(Ctx::New, "Replica::new", || Replica::new(id, n as usize * w.k))?;
        let a = w.new_author(id);
        w.authors[a as usize].units = n;
        for i in 0..n {
            w.chars.push(Ch { author: a, seq: u32::MAX });
            if i > 0 {
                w.edges.push((i - 1, i, Ctx::New));
            }
        }
        let core = Core { r, doc: (0..n).collect() };
        let twin = match w.mode {
            TwinMode::NoDup | TwinMode::NoNoop | TwinMode::NoMisuse => Some(core.clone()),
            TwinMode::Direct => {
                let id = w.fresh_id();
                Some(Core { r: call(Ctx::Fork, "fork", || core.r.fork(id))?, doc: core.doc.clone() })
            },
            _ => None,
        };
        w.peers.push(Peer {
            author: a,
            live: true,
            core,
            known: vec![0],
            status: vec![],
            unrecv: vec![],
            pending: vec![],
            cursor: 0,
            twin,
            twin_seen: vec![],
            typed: None,
            twin_same: matches!(w.mode, TwinMode::NoDup | TwinMode::NoNoop | TwinMode::NoMisuse),
        });
        w.check_len(0, Ctx::New)?;
        for i in 1..cfg.start_peers.max(1) {
            w.do_fork(if i % 2 == 0 { 0 } else { i as usize - 1 }, false)?;
        }
        Ok(w)
    }

    fn new_author(&mut self, id: ReplicaId) -> u32 {
        self.authors.push(Author { id, units: 0, ins: vec![], ins_start: vec![], dels: vec![] });
        self.authors.len() as u32 - 1
    }

    fn fresh_id(&mut self) -> ReplicaId {
        let n = self.next_id;
        self.next_id += 1;
        let s = self.cfg.id_seed;
        if let Some(&id) = self.id_table.get(n as usize) {
            return id;
        }
        let id = match self.cfg.ids % 5 {
            0 => 1 + n,
            1 => {
                let mut x = s.wrapping_mul(0x1234_5678_9abc_def1).wrapping_add(n);
                crate::rng::splitmix(&mut x) | 1 << 20
            },
            // Same low bits: collide in the replica-id hash maps.
            2 => ((s | 1) << 32).wrapping_add((n + 1) << 57 | n << 40).max(1),
            3 => u64::MAX - n,
            _ => {
                // Unordered small ids.
                let perm = [7u64, 3, 12, 1, 9, 5, 14, 2, 11, 6, 13, 4, 10, 8, 16, 15];
                if n < 16 { perm[n as usize] } else { n + 1 }
            },
        };
        self.ids_used.push(id);
        id
    }

    // ----- helpers ------------------------------------------------------

    pub fn live(&self) -> Vec<usize> {
        (0..self.peers.len()).filter(|&i| self.peers[i].live).collect()
    }

    fn peer_at(&self, p: usize) -> usize {
        let l = self.live();
        l[p % l.len()]
    }

    fn char_known(&self, known: &[u32], c: u32) -> bool {
        let ch = self.chars[c as usize];
        ch.seq == u32::MAX || known.get(ch.author as usize).copied().unwrap_or(0) > ch.seq
    }

    fn vv_le(deps: &[u32], known: &[u32]) -> bool {
        deps.iter().enumerate().all(|(a, &d)| d <= known.get(a).copied().unwrap_or(0))
    }

    /// The whole context the edit was made in is known to the peer, so it must
    /// be applicable.
    fn must_ready(&self, p: &Peer, e: u32) -> bool {
        let ed = &self.edits[e as usize];
        if !Self::vv_le(&ed.deps, &p.known) {
            return false;
        }
        match ed.kind {
            EK::Ins { .. } => p.known.get(ed.author as usize).copied().unwrap_or(0) == ed.seq,
            EK::Del { .. } => {
                ed.seq == 0 || {
                    let prev = self.authors[ed.author as usize].dels[ed.seq as usize - 1];
                    p.status[prev as usize] == 2
                }
            },
        }
    }

    fn set_known(p: &mut Peer, a: u32, v: u32) {
        if p.known.len() <= a as usize {
            p.known.resize(a as usize + 1, 0);
        }
        p.known[a as usize] = v;
    }

    fn log(&mut self, x: u64) {
        if self.record {
            self.trace.push(x);
        }
    }

    fn unit(&mut self, real: usize, ctx: Ctx) -> Res<usize> {
        self.stats.outputs += 1;
        if real % self.k != 0 {
            hard!(Kind::Scale, ctx, "replica returned {real}, which isn't a multiple of the unit {}", self.k);
        }
        let u = real / self.k;
        self.log(u as u64);
        Ok(u)
    }

    fn check_len(&mut self, pi: usize, ctx: Ctx) -> Res<()> {
        let p = &self.peers[pi];
        if !self.wants(Kind::Len, ctx) {
            return Ok(());
        }
        let want = p.core.doc.len() * self.k;
        let got = call(Ctx::Len, "Replica::len", || p.core.r.len())?;
        if got != want {
            soft!(self, Kind::Len, ctx, "peer {pi}: replica has length {got}, its user's buffer has length {want}");
        }
        // The same through the documented API only.
        if self.stats.edits % 4 == 0 {
            let end = call(Ctx::AnchorMake, "create_anchor(len)", || {
                p.core.r.create_anchor(want, AnchorBias::Right)
            })?;
            let got = call(Ctx::AnchorGet, "resolve_anchor(end)", || p.core.r.resolve_anchor(end))?;
            if got != Some(want) {
                soft!(self, Kind::Len, ctx, "peer {pi}: the end-of-document anchor resolves to {got:?} but the user's buffer has length {want}");
            }
        }
        Ok(())
    }

    // ----- local edits --------------------------------------------------

    fn transport_ins(&mut self, i: Insertion) -> Res<Insertion> {
        if self.cfg.transport == 0 {
            return Ok(i);
        }
        let t = self.cfg.transport as usize - 1;
        self.stats.roundtrips += 1;
        let d = call(Ctx::Serde, "serde round trip of an Insertion", || wire::round_trip(&i, t))?;
        match d {
            Ok(d) => {
                if d != i {
                    soft!(self, Kind::RoundTrip, Ctx::Serde, "Insertion changed by a serde round trip (format {t}): {i:?} became {d:?}");
                }
                Ok(d)
            },
            Err(e) => hard!(Kind::RoundTrip, Ctx::Serde, "Insertion {i:?} failed to deserialize (format {t}): {e}"),
        }
    }

    fn transport_del(&mut self, i: Deletion) -> Res<Deletion> {
        if self.cfg.transport == 0 {
            return Ok(i);
        }
        let t = self.cfg.transport as usize - 1;
        self.stats.roundtrips += 1;
        let d = call(Ctx::Serde, "serde round trip of a Deletion", || wire::round_trip(&i, t))?;
        match d {
            Ok(d) => {
                if d != i {
                    soft!(self, Kind::RoundTrip, Ctx::Serde, "Deletion changed by a serde round trip (format {t}): {i:?} became {d:?}");
                }
                Ok(d)
            },
            Err(e) => hard!(Kind::RoundTrip, Ctx::Serde, "Deletion {i:?} failed to deserialize (format {t}): {e}"),
        }
    }

    pub fn local_ins(&mut self, pi: usize, pos: usize, n: usize) -> Res<u32> {
        let k = self.k;
        let a = self.peers[pi].author;
        let author = &self.authors[a as usize];
        let (id, start) = (author.id, author.units);
        let ctx = Ctx::LocalIns;
        let len = self.peers[pi].core.doc.len();
        debug_assert!(pos <= len && n > 0);
        let storage = self.wants(Kind::Storage, ctx);
        let continues = self.peers[pi].typed.take() == Some(pos);
        let runs = if storage && continues { self.peers[pi].core.r.num_runs() } else { 0 };
        let ins = call(ctx, &format!("peer {pi}: inserted({}, {}) in a document of length {}", pos * k, n * k, len * k), || {
            self.peers[pi].core.r.inserted(pos * k, n * k)
        })?;
        if storage && continues {
            self.stats.continued += 1;
            let now = self.peers[pi].core.r.num_runs();
            if now != runs {
                soft!(self, Kind::Storage, ctx, "peer {pi}: continuing to type at {} made it grow from {runs} to {now} runs", pos * k);
            }
        }
        let want = start as usize * k..(start as usize + n) * k;
        let got = ins.text().temporal_range();
        if got != want {
            soft!(self, Kind::Temporal, ctx, "peer {pi}: insertion got temporal range {got:?}, expected {want:?}");
        }
        if ins.inserted_by() != id || ins.text().inserted_by() != id {
            soft!(self, Kind::Meta, ctx, "peer {pi}: insertion by replica {id} says it was inserted by {} / {}", ins.inserted_by(), ins.text().inserted_by());
        }
        let same = self.peers[pi].twin_same;
        if let (true, Some(t)) = (self.mode != TwinMode::Direct, self.peers[pi].twin.as_mut()) {
            let ti = call(ctx, "twin.inserted", || t.r.inserted(pos * k, n * k))?;
            self.stats.twin_cmp += 1;
            self.stats.twin_after += 1;
            if ti.text() != ins.text() || (same && ti != ins) {
                soft!(self, Kind::Twin, ctx, "peer {pi}: inserted({}, {}) produced {ins:?}, its twin produced {ti:?}", pos * k, n * k);
            }
        }
        self.check_size_ins(&ins, n)?;
        let msg = self.transport_ins(ins)?;

        let e = self.edits.len() as u32;
        let first = self.chars.len() as u32;
        let author = &mut self.authors[a as usize];
        let seq = author.ins.len() as u32;
        author.ins.push(e);
        author.ins_start.push(start);
        author.units += n as u32;
        for i in 0..n as u32 {
            self.chars.push(Ch { author: a, seq });
            if i > 0 {
                self.edges.push((first + i - 1, first + i, Ctx::New));
            }
        }
        self.stats.chars += n as u64;
        let p = &mut self.peers[pi];
        let deps = p.known.clone();
        Self::set_known(p, a, seq + 1);
        splice_in(&mut p.core.doc, pos, first, n);
        if let (true, Some(t)) = (self.mode != TwinMode::Direct, p.twin.as_mut()) {
            splice_in(&mut t.doc, pos, first, n);
        }
        p.cursor = pos + n;
        p.typed = Some(pos + n);
        note_edges(&mut self.edges, &self.peers[pi].core.doc, pos, n, ctx);
        say!(self, "peer {pi}: edit #{e} = inserted({pos}, {n}), new characters {first}..{} | {:?}", first as usize + n, self.peers[pi].core.doc);
        self.push_edit(pi, Edit { author: a, seq, kind: EK::Ins { first, n: n as u32 }, deps, msg: Msg::Ins(msg) });
        self.stats.inserts += 1;
        self.check_len(pi, ctx)?;
        Ok(e)
    }

    pub fn local_del(&mut self, pi: usize, s: usize, e: usize) -> Res<u32> {
        let k = self.k;
        let a = self.peers[pi].author;
        let id = self.authors[a as usize].id;
        let ctx = Ctx::LocalDel;
        let len = self.peers[pi].core.doc.len();
        debug_assert!(s < e && e <= len);
        // Vary the range syntax: all of them denote the same range.
        let form = (s + e + self.edits.len()) % 5;
        let del = call(ctx, &format!("peer {pi}: deleted({}..{}) in a document of length {}", s * k, e * k, len * k), || {
            let r = &mut self.peers[pi].core.r;
            match form {
                0 if s == 0 => r.deleted(..e * k),
                1 if e == len => r.deleted(s * k..),
                0 | 1 if s == 0 && e == len => r.deleted(..),
                2 => r.deleted(s * k..=e * k - 1),
                3 if s == 0 => r.deleted((Bound::Unbounded, Bound::Included(e * k - 1))),
                3 => r.deleted((Bound::Excluded(s * k - 1), Bound::Excluded(e * k))),
                _ => r.deleted(s * k..e * k),
            }
        })?;
        if del.deleted_by() != id {
            soft!(self, Kind::Meta, ctx, "peer {pi}: deletion by replica {id} says it was deleted by {}", del.deleted_by());
        }
        let same = self.peers[pi].twin_same;
        if let (true, Some(t)) = (self.mode != TwinMode::Direct, self.peers[pi].twin.as_mut()) {
            let td = call(ctx, "twin.deleted", || t.r.deleted(s * k..e * k))?;
            self.stats.twin_cmp += 1;
            self.stats.twin_after += 1;
            if same && td != del {
                soft!(self, Kind::Twin, ctx, "peer {pi}: deleted({}..{}) produced {del:?}, its twin produced {td:?}", s * k, e * k);
            }
        }
        let targets: Vec<u32> = self.peers[pi].core.doc[s..e].to_vec();
        self.check_size_del(&del, &targets, id)?;
        let msg = self.transport_del(del)?;
        let ix = self.edits.len() as u32;
        let author = &mut self.authors[a as usize];
        let seq = author.dels.len() as u32;
        author.dels.push(ix);
        let visible = Bits::from_doc(&self.peers[pi].core.doc, self.chars.len());
        let p = &mut self.peers[pi];
        let deps = p.known.clone();
        p.core.doc.drain(s..e);
        if let (true, Some(t)) = (self.mode != TwinMode::Direct, p.twin.as_mut()) {
            t.doc.drain(s..e);
        }
        p.cursor = s;
        p.typed = None;
        say!(self, "peer {pi}: edit #{ix} = deleted({s}..{e}) {targets:?} | {:?}", self.peers[pi].core.doc);
        self.push_edit(pi, Edit { author: a, seq, kind: EK::Del { targets, visible, at_start: s == 0 }, deps, msg: Msg::Del(msg) });
        self.stats.deletes += 1;
        self.check_len(pi, ctx)?;
        Ok(ix)
    }

    fn push_edit(&mut self, pi: usize, e: Edit) {
        let ix = self.edits.len() as u32;
        self.edits.push(e);
        self.stats.edits += 1;
        for (i, p) in self.peers.iter_mut().enumerate() {
            if i == pi {
                p.status.push(2);
            } else {
                p.status.push(0);
                if p.live {
                    p.unrecv.push(ix);
                }
            }
        }
        self.stats.max_doc = self.stats.max_doc.max(self.peers[pi].core.doc.len() as u64);
    }

    // ----- serialised size ----------------------------------------------

    /// Upper bounds of the numeric quantities of the session, for the size
    /// bound of serialised edits.
    fn num_lens(&self) -> (usize, usize) {
        let units: u64 = self.authors.iter().map(|a| a.units as u64).max().unwrap_or(0) + 4096;
        let t = wire::leb_len(units * self.k as u64 + 1);
        let e = wire::leb_len(self.edits.len() as u64 + self.authors.len() as u64 + 2);
        (t, e)
    }

    fn id_len(&self) -> usize {
        self.authors.iter().map(|a| wire::leb_len(a.id)).max().unwrap()
    }

    fn check_size_ins(&mut self, i: &Insertion, _n: usize) -> Res<()> {
        if !self.wants(Kind::Size, Ctx::LocalIns) {
            return Ok(());
        }
        self.stats.sizes += 1;
        let (t, e) = self.num_lens();
        let bound = 2 * self.id_len() + 3 * t + 3 * e + 2 + 24;
        let got = wire::payload_len(i);
        if got > bound {
            soft!(self, Kind::Size, Ctx::LocalIns, "a serialised insertion takes {got} bytes (bound {bound}) after {} edits by {} peers: {i:?}", self.edits.len(), self.authors.len());
        }
        Ok(())
    }

    fn check_size_del(&mut self, d: &Deletion, targets: &[u32], id: ReplicaId) -> Res<()> {
        if !self.wants(Kind::Size, Ctx::LocalDel) {
            return Ok(());
        }
        self.stats.sizes += 1;
        let (t, e) = self.num_lens();
        let mut authors: Vec<u64> =
            targets.iter().map(|&c| self.authors[self.chars[c as usize].author as usize].id).collect();
        authors.push(id);
        authors.sort_unstable();
        authors.dedup();
        let per: usize = authors.iter().map(|&i| wire::leb_len(i) + t).sum();
        let bound = 2 * self.id_len() + 2 * t + 4 * e + 3 + per + 24;
        let got = wire::payload_len(d);
        if got > bound {
            soft!(self, Kind::Size, Ctx::LocalDel, "a serialised deletion of {} characters by {} authors takes {got} bytes (bound {bound}) in a session of {} peers and {} edits: {d:?}", targets.len(), authors.len(), self.authors.len(), self.edits.len());
        }
        Ok(())
    }

    // ----- integration --------------------------------------------------

    fn mark_received(&mut self, pi: usize, e: u32) {
        let p = &mut self.peers[pi];
        if p.status[e as usize] == 0 {
            p.status[e as usize] = 1;
            p.pending.push(e);
            if let Some(i) = p.unrecv.iter().position(|&x| x == e) {
                p.unrecv.remove(i);
            }
        }
    }

    fn mark_applied(&mut self, pi: usize, e: u32) {
        let p = &mut self.peers[pi];
        p.status[e as usize] = 2;
        if let Some(i) = p.pending.iter().position(|&x| x == e) {
            p.pending.remove(i);
        }
        let ed = &self.edits[e as usize];
        self.stats.integrated += 1;
        // Concurrent if the receiver knows an insertion the author didn't.
        let conc = p
            .known
            .iter()
            .enumerate()
            .any(|(a, &n)| a as u32 != ed.author && n > ed.deps.get(a).copied().unwrap_or(0));
        if conc {
            self.stats.concurrent += 1;
            if matches!(ed.kind, EK::Del { .. }) {
                self.stats.concurrent_del += 1;
            }
        }
        if let EK::Ins { .. } = ed.kind {
            let v = p.known.get(ed.author as usize).copied().unwrap_or(0).max(ed.seq + 1);
            Self::set_known(p, ed.author, v);
        }
    }

    fn apply_ins(&mut self, pi: usize, e: u32, real: usize, ctx: Ctx) -> Res<()> {
        let off = self.unit(real, ctx)?;
        let ed = &self.edits[e as usize];
        let EK::Ins { first, n } = ed.kind else { unreachable!() };
        let len = self.peers[pi].core.doc.len();
        if off > len {
            hard!(Kind::Bounds, ctx, "peer {pi}: told to insert at {real}, but its user's buffer has length {}", len * self.k);
        }
        if self.peers[pi].known.get(ed.author as usize).copied().unwrap_or(0) != ed.seq {
            soft!(self, Kind::EarlyApply, ctx, "peer {pi}: applied insertion #{e} before an earlier one of the same author");
        }
        if !Self::vv_le(&ed.deps, &self.peers[pi].known) {
            self.stats.cross_chain += 1;
        }
        let p = &mut self.peers[pi];
        splice_in(&mut p.core.doc, off, first, n as usize);
        if off <= p.cursor {
            p.cursor += n as usize;
        }
        note_edges(&mut self.edges, &self.peers[pi].core.doc, off, n as usize, ctx);
        self.mark_applied(pi, e);
        Ok(())
    }

    /// Validates a list of ranges against a buffer and returns the characters
    /// it covers.
    fn removed(&mut self, pi: usize, doc: &[u32], ranges: &[Range<usize>], ctx: Ctx) -> Res<Vec<u32>> {
        let mut out = vec![];
        let mut prev_end: Option<usize> = None;
        for r in ranges {
            if r.start >= r.end || r.end > doc.len() * self.k {
                hard!(Kind::Bounds, ctx, "peer {pi}: told to delete {ranges:?} from a buffer of length {}", doc.len() * self.k);
            }
            if prev_end.is_some_and(|e| e >= r.start) {
                hard!(Kind::Bounds, ctx, "peer {pi}: deletion ranges aren't sorted and strictly separated: {ranges:?}");
            }
            prev_end = Some(r.end);
            let s = self.unit(r.start, ctx)?;
            let e = self.unit(r.end, ctx)?;
            out.extend_from_slice(&doc[s..e]);
        }
        if ranges.len() > 1 {
            self.stats.multi_range += 1;
        }
        Ok(out)
    }

    /// Ok if removing `s` is what deletion `e` may do to peer `pi` right now.
    fn judge_del(&self, pi: usize, e: u32, s: &[u32]) -> Result<(), (Kind, String)> {
        let ed = &self.edits[e as usize];
        let EK::Del { targets, visible, .. } = &ed.kind else { unreachable!() };
        let sset = Bits::from_doc(s, self.chars.len());
        let tset = Bits::from_doc(targets, self.chars.len());
        for &c in s {
            if tset.get(c) {
                continue;
            }
            // Text the author had already seen deleted may go early.
            if self.char_known(&ed.deps, c) && !visible.get(c) {
                continue;
            }
            return Err((
                Kind::DelExtra,
                format!("peer {pi}: deletion #{e} removed a character outside of the deleted text ({})", self.char_name(c)),
            ));
        }
        let vis = Bits::from_doc(&self.peers[pi].core.doc, self.chars.len());
        for &c in targets {
            if vis.get(c) && !sset.get(c) {
                return Err((
                    Kind::DelMissing,
                    format!("peer {pi}: deletion #{e} left a deleted character visible ({})", self.char_name(c)),
                ));
            }
        }
        Ok(())
    }

    fn char_name(&self, c: u32) -> String {
        let ch = self.chars[c as usize];
        let a = &self.authors[ch.author as usize];
        if ch.seq == u32::MAX {
            format!("initial character {c}")
        } else {
            let EK::Ins { first, .. } = self.edits[a.ins[ch.seq as usize] as usize].kind else { unreachable!() };
            format!("character {} of replica {}", a.ins_start[ch.seq as usize] + (c - first), a.id)
        }
    }

    fn apply_del(&mut self, pi: usize, e: u32, s: &[u32], ctx: Ctx) -> Res<()> {
        // Text that is deleted together with its tombstoned neighbours must lie
        // inside of the deleted range.
        // (Everything deleted before the first visible character counts as
        // inside when the range starts at the start of the document.)
        let EK::Del { targets, at_start, .. } = &self.edits[e as usize].kind else { unreachable!() };
        let (t0, t1) = (targets[0], targets[targets.len() - 1]);
        let tset = Bits::from_doc(targets, self.chars.len());
        let known_t = targets.iter().all(|&c| self.char_known(&self.peers[pi].known, c));
        for &c in s {
            if !tset.get(c) && ctx == Ctx::IntDel {
                if !at_start {
                    self.edges.push((t0, c, Ctx::IntDel));
                }
                self.edges.push((c, t1, Ctx::IntDel));
            }
        }
        if !known_t {
            soft!(self, Kind::EarlyApply, ctx, "peer {pi}: deletion #{e} took effect before all of the text it deletes was known");
        }
        self.remove_from_doc(pi, s);
        self.mark_applied(pi, e);
        Ok(())
    }

    fn remove_from_doc(&mut self, pi: usize, s: &[u32]) {
        let p = &mut self.peers[pi];
        if !s.is_empty() {
            let cur = p.cursor.min(p.core.doc.len());
            let sset = Bits::from_doc(s, self.chars.len());
            p.cursor = p.core.doc[..cur].iter().filter(|&&c| !sset.get(c)).count();
            p.core.doc.retain(|&c| !sset.get(c));
        }
    }

    /// Delivers edit `e` to peer `pi`, once.
    pub fn deliver(&mut self, pi: usize, e: u32) -> Res<()> {
        if self.neutral && self.prop == "C06" && self.peers[pi].status[e as usize] == 0 {
            for x in 0..e {
                if self.peers[pi].status[x as usize] == 0 {
                    self.deliver_one(pi, x)?;
                }
            }
        }
        self.deliver_one(pi, e)
    }

    fn deliver_one(&mut self, pi: usize, e: u32) -> Res<()> {
        self.peers[pi].typed = None;
        let st = self.peers[pi].status[e as usize];
        let is_ins = matches!(self.edits[e as usize].kind, EK::Ins { .. });
        let dup = st != 0;
        let ctx = match (is_ins, dup) {
            (true, false) => Ctx::IntIns,
            (true, true) => Ctx::DupIns,
            (false, false) => Ctx::IntDel,
            (false, true) => Ctx::DupDel,
        };
        if dup {
            self.stats.dups += 1;
            if st == 1 {
                self.stats.dups_pending += 1;
            }
        }
        let ready = st != 2 && self.must_ready(&self.peers[pi], e);
        if is_ins {
            let got = {
                let Msg::Ins(m) = &self.edits[e as usize].msg else { unreachable!() };
                let r = &mut self.peers[pi].core.r;
                call(ctx, "integrate_insertion", || r.integrate_insertion(m))?
            };
            self.log(got.map_or(0, |x| (x / self.k) as u64 + 1));
            say!(self, "peer {pi}: integrate_insertion(#{e}) = {got:?}");
            self.mirror_ins(pi, e, got, dup, ctx)?;
            match (st, got) {
                (2, Some(o)) => hard!(Kind::DupEffect, ctx, "peer {pi}: re-delivered insertion #{e} was integrated again at {o}"),
                (_, Some(o)) => {
                    self.mark_received(pi, e);
                    self.apply_ins(pi, e, o, Ctx::IntIns)?;
                },
                (0, None) => {
                    self.mark_received(pi, e);
                    self.stats.backlogged += 1;
                    if ready {
                        soft!(self, Kind::NotApplied, ctx, "peer {pi}: insertion #{e} wasn't integrated although everything its author had seen is known here");
                    }
                },
                _ => {},
            }
        } else {
            let ranges = {
                let Msg::Del(m) = &self.edits[e as usize].msg else { unreachable!() };
                let r = &mut self.peers[pi].core.r;
                call(ctx, "integrate_deletion", || r.integrate_deletion(m))?
            };
            say!(self, "peer {pi}: integrate_deletion(#{e}) = {ranges:?} of {:?}", self.peers[pi].core.doc);
            self.mirror_del(pi, e, &ranges, dup, ctx)?;
            if st == 2 {
                if !ranges.is_empty() {
                    hard!(Kind::DupEffect, ctx, "peer {pi}: re-delivered deletion #{e} deleted {ranges:?}");
                }
                return Ok(());
            }
            let doc = std::mem::take(&mut self.peers[pi].core.doc);
            let s = self.removed(pi, &doc, &ranges, ctx);
            self.peers[pi].core.doc = doc;
            let s = s?;
            self.mark_received(pi, e);
            if !s.is_empty() || (ready && st == 0) {
                if let Err((kind, msg)) = self.judge_del(pi, e, &s) {
                    if s.is_empty() {
                        soft!(self, Kind::NotApplied, ctx, "peer {pi}: deletion #{e} had no effect although everything its author had seen is known here ({msg})");
                        // Maybe the drain will apply it.
                        self.stats.backlogged += 1;
                        return self.check_len(pi, ctx);
                    }
                    soft!(self, kind, Ctx::IntDel, "{msg}");
                }
                self.apply_del(pi, e, &s, Ctx::IntDel)?;
            } else {
                self.stats.backlogged += 1;
            }
        }
        self.check_len(pi, ctx)
    }

    fn mirror_ins(&mut self, pi: usize, e: u32, got: Option<usize>, dup: bool, ctx: Ctx) -> Res<()> {
        match self.mode {
            TwinMode::Direct => return Ok(()),
            TwinMode::NoDup if dup && (got.is_none() || self.peers[pi].status[e as usize] == 2) => return Ok(()),
            _ => {},
        }
        let Some(mut t) = self.peers[pi].twin.take() else { return Ok(()) };
        let Msg::Ins(m) = &self.edits[e as usize].msg else { unreachable!() };
        let tg = call(ctx, "twin.integrate_insertion", || t.r.integrate_insertion(m))?;
        self.stats.twin_cmp += 1;
        self.stats.twin_after += 1;
        if tg != got {
            soft!(self, Kind::Twin, ctx, "peer {pi}: integrating insertion #{e} returned {got:?}, but {tg:?} at its twin");
        }
        if let Some(o) = tg {
            let EK::Ins { first, n } = self.edits[e as usize].kind else { unreachable!() };
            let o = o / self.k;
            if o <= t.doc.len() {
                splice_in(&mut t.doc, o, first, n as usize);
            }
        }
        self.peers[pi].twin = Some(t);
        Ok(())
    }

    fn mirror_del(&mut self, pi: usize, e: u32, got: &[Range<usize>], dup: bool, ctx: Ctx) -> Res<()> {
        match self.mode {
            TwinMode::Direct => return Ok(()),
            // A re-delivery of a backlogged deletion that has nothing left to
            // delete may be what integrates it: the twin has to see that too.
            TwinMode::NoDup if dup && (self.peers[pi].status[e as usize] == 2 || (got.is_empty() && !self.del_done(pi, e))) => return Ok(()),
            _ => {},
        }
        let Some(mut t) = self.peers[pi].twin.take() else { return Ok(()) };
        let Msg::Del(m) = &self.edits[e as usize].msg else { unreachable!() };
        let tg = call(ctx, "twin.integrate_deletion", || t.r.integrate_deletion(m))?;
        self.stats.twin_cmp += 1;
        self.stats.twin_after += 1;
        if tg != got {
            soft!(self, Kind::Twin, ctx, "peer {pi}: integrating deletion #{e} returned {got:?}, but {tg:?} at its twin");
        }
        let doc = t.doc.clone();
        let s = self.removed(pi, &doc, &tg, ctx)?;
        remove_chars(&mut t.doc, &s);
        self.peers[pi].twin = Some(t);
        Ok(())
    }

    fn find_text(&self, by: ReplicaId, range: &Range<usize>) -> Option<u32> {
        if range.start % self.k != 0 || range.end % self.k != 0 {
            return None;
        }
        let a = self.authors.iter().find(|a| a.id == by)?;
        let s = (range.start / self.k) as u32;
        let i = a.ins_start.binary_search(&s).ok()?;
        let e = a.ins[i];
        let EK::Ins { n, .. } = self.edits[e as usize].kind else { unreachable!() };
        (s as usize + n as usize == range.end / self.k).then_some(e)
    }

    /// Drains backlogged insertions, taking at most `limit` of them.
    pub fn drain_ins(&mut self, pi: usize, limit: Option<usize>) -> Res<usize> {
        self.peers[pi].typed = None;
        let ctx = Ctx::DrainIns;
        // In which order a backlog is emptied is nobody's business.
        let limit = if self.prop == "C22" { None } else { limit };
        let mirror = self.peers[pi].twin.is_some() && self.mode != TwinMode::Direct;
        let limit = if mirror { None } else { limit };
        let cap = limit.unwrap_or(usize::MAX).min(self.peers[pi].pending.len() + 8);
        let r = &mut self.peers[pi].core.r;
        let got = call(ctx, "draining backlogged_insertions()", || {
            let mut it = r.backlogged_insertions();
            let mut v = it.by_ref().take(cap).collect::<Vec<_>>();
            if v.len() < cap {
                // It's a fused iterator.
                v.extend(it.next());
                v.extend(it.next());
            }
            v
        })?;
        let n = got.len();
        say!(self, "peer {pi}: backlogged_insertions() = {got:?}");
        for (text, off) in got {
            let Some(e) = self.find_text(text.inserted_by(), &text.temporal_range()) else {
                soft!(self, Kind::Temporal, ctx, "peer {pi}: the backlog yielded text {text:?}, and no insertion has that author and temporal range");
                hard!(Kind::DrainBad, ctx, "peer {pi}: the backlog yielded text {text:?} that doesn't belong to any insertion");
            };
            if self.peers[pi].status[e as usize] != 1 {
                hard!(Kind::DrainBad, ctx, "peer {pi}: the backlog yielded insertion #{e} which was {}", if self.peers[pi].status[e as usize] == 0 { "never received" } else { "already applied" });
            }
            self.stats.drained += 1;
            self.apply_ins(pi, e, off, ctx)?;
        }
        self.check_len(pi, ctx)?;
        if mirror {
            self.twin_drain_ins(pi)?;
        }
        if limit.is_none() {
            let p = &self.peers[pi];
            for &e in &p.pending {
                if matches!(self.edits[e as usize].kind, EK::Ins { .. }) && self.must_ready(p, e) {
                    soft!(self, Kind::DrainMissing, ctx, "peer {pi}: insertion #{e} is still backlogged after a full drain although everything its author had seen is known here");
                }
            }
        }
        Ok(n)
    }

    fn twin_drain_ins(&mut self, pi: usize) -> Res<()> {
        let ctx = Ctx::DrainIns;
        let Some(mut t) = self.peers[pi].twin.take() else { return Ok(()) };
        let cap = self.edits.len() + 8;
        let got = call(ctx, "draining the twin's backlogged_insertions()", || {
            t.r.backlogged_insertions().take(cap).collect::<Vec<_>>()
        })?;
        for (text, off) in got {
            let Some(e) = self.find_text(text.inserted_by(), &text.temporal_range()) else {
                soft!(self, Kind::Twin, ctx, "peer {pi}: the twin's backlog yielded unknown text {text:?}");
                continue;
            };
            let EK::Ins { first, n } = self.edits[e as usize].kind else { unreachable!() };
            if off / self.k > t.doc.len() {
                soft!(self, Kind::Twin, ctx, "peer {pi}: the twin's backlog yielded an offset out of bounds");
                continue;
            }
            splice_in(&mut t.doc, off / self.k, first, n as usize);
        }
        self.stats.twin_cmp += 1;
        if t.doc != self.peers[pi].core.doc {
            soft!(self, Kind::Twin, ctx, "peer {pi}: after draining backlogged insertions its document differs from its twin's ({} vs {} units)", self.peers[pi].core.doc.len(), t.doc.len());
        }
        self.peers[pi].twin = Some(t);
        Ok(())
    }

    pub fn drain_del(&mut self, pi: usize, limit: Option<usize>) -> Res<usize> {
        self.peers[pi].typed = None;
        let ctx = Ctx::DrainDel;
        // In which order a backlog is emptied is nobody's business.
        let limit = if self.prop == "C22" { None } else { limit };
        let mirror = self.peers[pi].twin.is_some() && self.mode != TwinMode::Direct;
        let limit = if mirror { None } else { limit };
        let cap = limit.unwrap_or(usize::MAX).min(self.peers[pi].pending.len() + 8);
        let r = &mut self.peers[pi].core.r;
        let got = call(ctx, "draining backlogged_deletions()", || {
            let mut it = r.backlogged_deletions();
            let mut v = it.by_ref().take(cap).collect::<Vec<_>>();
            if v.len() < cap {
                v.extend(it.next());
                v.extend(it.next());
            }
            v
        })?;
        let n = got.len();
        say!(self, "peer {pi}: backlogged_deletions() = {got:?} of {:?}", self.peers[pi].core.doc);
        for ranges in got {
            let doc = std::mem::take(&mut self.peers[pi].core.doc);
            let s = self.removed(pi, &doc, &ranges, ctx);
            self.peers[pi].core.doc = doc;
            let s = s?;
            self.stats.drained += 1;
            if s.is_empty() {
                continue;
            }
            // It must be what some backlogged deletion deletes. (Which one
            // may be ambiguous, so nothing else is concluded from it.)
            let p = &self.peers[pi];
            let sset = Bits::from_doc(&s, self.chars.len());
            let mut why: Option<(usize, (Kind, String))> = None;
            let mut found = false;
            // The likely ones first: judging takes time.
            'found: for likely in [true, false] {
                for &e in &p.pending {
                    let EK::Del { targets, .. } = &self.edits[e as usize].kind else { continue };
                    let overlap = targets.iter().filter(|&&c| sset.get(c)).count();
                    if (overlap > 0) != likely {
                        continue;
                    }
                    let mut res = self.judge_del(pi, e, &s);
                    if res.is_ok() && !targets.iter().all(|&c| self.char_known(&p.known, c)) {
                        res = Err((Kind::EarlyApply, format!("peer {pi}: deletion #{e} took effect before all of the text it deletes was known")));
                    }
                    match res {
                        Ok(()) => {
                            found = true;
                            break 'found;
                        },
                        // Prefer the explanation with the most overlap.
                        Err(err) if overlap > 0 && why.as_ref().is_none_or(|(o, _)| overlap > *o) => why = Some((overlap, err)),
                        Err(_) => {},
                    }
                }
            }
            if !found {
                if let Some((_, (kind, msg))) = why {
                    soft!(self, kind, ctx, "{msg}");
                }
                hard!(Kind::DrainBad, ctx, "peer {pi}: the backlog yielded {ranges:?} which isn't what any backlogged deletion deletes");
            }
            self.remove_from_doc(pi, &s);
        }
        self.check_len(pi, ctx)?;
        if mirror {
            self.twin_drain_del(pi)?;
        }
        if limit.is_none() {
            // In the order they were made, so that one pass will do.
            let mut waiting = self.peers[pi].pending.clone();
            waiting.sort_unstable();
            for e in waiting {
                let p = &self.peers[pi];
                if !matches!(self.edits[e as usize].kind, EK::Del { .. }) || !self.must_ready(p, e) {
                    continue;
                }
                if !self.del_done(pi, e) {
                    soft!(self, Kind::DrainMissing, ctx, "peer {pi}: deletion #{e} still has no effect after a full drain although everything its author had seen is known here");
                    break;
                }
                self.mark_applied(pi, e);
            }
            if self.mode == TwinMode::Direct {
                self.check_direct_twin(pi)?;
            }
        }
        Ok(n)
    }

    /// The twin, which gets every edit in causal order and thus never needs
    /// its backlog, must have the same document.
    fn check_direct_twin(&mut self, pi: usize) -> Res<()> {
        let ctx = Ctx::Final;
        if !self.peers[pi].pending.is_empty() {
            return Ok(());
        }
        let Some(mut t) = self.peers[pi].twin.take() else { return Ok(()) };
        let mut seen = std::mem::take(&mut self.peers[pi].twin_seen);
        seen.resize(self.edits.len(), false);
        for e in 0..self.edits.len() {
            if seen[e] || self.peers[pi].status[e] != 2 {
                continue;
            }
            seen[e] = true;
            match self.edits[e].msg.clone() {
                Msg::Ins(m) => {
                    let got = call(Ctx::IntIns, "integrate_insertion in causal order", || t.r.integrate_insertion(&m))?;
                    let Some(o) = got else {
                        soft!(self, Kind::Twin, ctx, "peer {pi}: insertion #{e} was integrated from the backlog, but delivering the same edits in causal order backlogs it");
                        return Ok(());
                    };
                    let o = self.unit(o, Ctx::IntIns)?;
                    if o > t.doc.len() {
                        hard!(Kind::Bounds, Ctx::IntIns, "peer {pi}'s in-order twin: told to insert at unit {o} of a buffer of {} units", t.doc.len());
                    }
                    let EK::Ins { first, n } = self.edits[e].kind else { unreachable!() };
                    splice_in(&mut t.doc, o, first, n as usize);
                },
                Msg::Del(m) => {
                    let got = call(Ctx::IntDel, "integrate_deletion in causal order", || t.r.integrate_deletion(&m))?;
                    let s = self.removed(pi, &t.doc, &got, Ctx::IntDel)?;
                    remove_chars(&mut t.doc, &s);
                },
            }
        }
        self.stats.twin_cmp += 1;
        if t.doc != self.peers[pi].core.doc {
            // Text whose deletion hasn't been received yet may already be gone
            // on one side, because a later deletion spanned it.
            let mut gone = vec![false; self.chars.len()];
            for (e, ed) in self.edits.iter().enumerate() {
                if let (EK::Del { targets, .. }, true) = (&ed.kind, self.peers[pi].status[e] != 2) {
                    for &c in targets {
                        gone[c as usize] = true;
                    }
                }
            }
            let f = |d: &[u32]| d.iter().copied().filter(|&c| !gone[c as usize]).collect::<Vec<_>>();
            if f(&t.doc) != f(&self.peers[pi].core.doc) {
                soft!(self, Kind::Twin, ctx, "peer {pi}: its document differs from the one a replica gets that receives the same edits in causal order ({} vs {} units)", self.peers[pi].core.doc.len(), t.doc.len());
            }
        }
        self.peers[pi].twin = Some(t);
        self.peers[pi].twin_seen = seen;
        Ok(())
    }

    /// None of the text deleted by `e` is visible at `pi`.
    fn del_done(&self, pi: usize, e: u32) -> bool {
        let EK::Del { targets, .. } = &self.edits[e as usize].kind else { unreachable!() };
        let vis = Bits::from_doc(&self.peers[pi].core.doc, self.chars.len());
        targets.iter().all(|&c| !vis.get(c))
    }

    fn twin_drain_del(&mut self, pi: usize) -> Res<()> {
        let ctx = Ctx::DrainDel;
        let Some(mut t) = self.peers[pi].twin.take() else { return Ok(()) };
        let cap = self.edits.len() + 8;
        let got = call(ctx, "draining the twin's backlogged_deletions()", || {
            t.r.backlogged_deletions().take(cap).collect::<Vec<_>>()
        })?;
        for ranges in got {
            let doc = t.doc.clone();
            let s = self.removed(pi, &doc, &ranges, ctx)?;
            remove_chars(&mut t.doc, &s);
        }
        self.stats.twin_cmp += 1;
        if t.doc != self.peers[pi].core.doc {
            soft!(self, Kind::Twin, ctx, "peer {pi}: after draining backlogged deletions its document differs from its twin's ({} vs {} units)", self.peers[pi].core.doc.len(), t.doc.len());
        }
        self.peers[pi].twin = Some(t);
        Ok(())
    }

    pub fn drain_all(&mut self, pi: usize) -> Res<()> {
        self.drain_ins(pi, None)?;
        self.drain_del(pi, None)?;
        Ok(())
    }

    // ----- membership ---------------------------------------------------

    fn add_peer(&mut self, mut p: Peer, id: ReplicaId, twin: Option<Core>, same: bool) -> usize {
        let a = self.new_author(id);
        p.author = a;
        p.typed = None;
        p.live = true;
        p.twin = twin;
        p.twin_same = same;
        let maxp = self.cfg.max_peers.max(1) as usize;
        let live = self.live();
        if live.len() >= maxp {
            // Someone leaves for good (never the first peer).
            let leave = live[live.len() - 1 - self.edits.len() % live.len().saturating_sub(1).max(1)];
            if live.len() > 1 {
                self.peers[leave].live = false;
                self.peers[leave].unrecv.clear();
                self.peers[leave].twin = None;
            }
        }
        self.peers.push(p);
        self.peers.len() - 1
    }

    fn rich(&self, pi: usize) -> bool {
        let p = &self.peers[pi];
        !p.pending.is_empty() || p.core.doc.len() + 2 < self.chars.len()
    }

    pub fn do_fork(&mut self, pi: usize, probe: bool) -> Res<usize> {
        let id = self.fresh_id();
        let twin_id = if self.mode == TwinMode::Direct { self.fresh_id() } else { id };
        let src = &self.peers[pi];
        let r = if self.neutral && self.prop == "C08" {
            match call(Ctx::Codec, "decode(encode)", || Replica::decode(id, &src.core.r.encode()))? {
                Ok(r) => r,
                Err(e) => hard!(Kind::Codec, Ctx::Codec, "a freshly encoded replica failed to decode: {e}"),
            }
        } else {
            call(Ctx::Fork, "fork", || src.core.r.fork(id))?
        };
        if r.id() != id {
            soft!(self, Kind::Meta, Ctx::Fork, "fork({id}) has id {}", r.id());
            soft!(self, Kind::Equiv, Ctx::Fork, "fork({id}) has id {}", r.id());
        }
        self.stats.forks += 1;
        if self.rich(pi) {
            self.stats.joins_rich += 1;
        }
        if probe && self.wants(Kind::Equiv, Ctx::Fork) {
            self.probe_equiv(pi, &r, Ctx::Fork, false)?;
        }
        let src = &self.peers[pi];
        let (twin, same) = match self.mode {
            TwinMode::DecodedOfFork => {
                let d = call(Ctx::Codec, "decode(encode)", || Replica::decode(id, &src.core.r.encode()))?;
                let d = match d {
                    Ok(d) => d,
                    Err(e) => hard!(Kind::Codec, Ctx::Codec, "a freshly encoded replica failed to decode: {e}"),
                };
                (Some(Core { r: d, doc: src.core.doc.clone() }), true)
            },
            TwinMode::ForkOfDecoded | TwinMode::None => (None, false),
            _ => {
                let t = match src.twin.as_ref() {
                    Some(t) => {
                        let r = call(Ctx::Fork, "twin.fork", || t.r.fork(twin_id))?;
                        Some(Core { r, doc: t.doc.clone() })
                    },
                    None => None,
                };
                (t, self.mode != TwinMode::Direct)
            },
        };
        let mut p = src.clone();
        p.core.r = r;
        let n = self.add_peer(p, id, twin, same);
        say!(self, "peer {n} (replica {id}) = fork of peer {pi}");
        self.check_len(n, Ctx::Fork)?;
        Ok(n)
    }

    fn encode_bytes(&mut self, pi: usize) -> Res<Vec<u8>> {
        let r = &self.peers[pi].core.r;
        let enc = call(Ctx::Codec, "encode", || r.encode())?;
        let enc = match self.cfg.transport {
            0 => enc,
            t => {
                let d = call(Ctx::Serde, "serde round trip of an EncodedReplica", || wire::round_trip(&enc, t as usize - 1))?;
                self.stats.roundtrips += 1;
                match d {
                    Ok(d) => {
                        if d != enc {
                            soft!(self, Kind::RoundTrip, Ctx::Serde, "EncodedReplica changed by a serde round trip");
                        }
                        d
                    },
                    Err(e) => hard!(Kind::RoundTrip, Ctx::Serde, "EncodedReplica failed to deserialize: {e}"),
                }
            },
        };
        Ok(enc.as_bytes().to_vec())
    }

    fn decode_bytes(&mut self, id: ReplicaId, bytes: &[u8]) -> Res<Replica> {
        let d = call(Ctx::Codec, "decode", || match self.edits.len() % 3 {
            0 => Replica::decode(id, &EncodedReplica::from_bytes(bytes)),
            1 => Replica::decode(id, &EncodedReplica::from(bytes.to_vec().into_boxed_slice())),
            _ => Replica::decode(id, &EncodedReplica::from_bytes(bytes).to_static()),
        })?;
        match d {
            Ok(r) => {
                if r.id() != id {
                    soft!(self, Kind::Equiv, Ctx::Codec, "decode({id}) has id {}", r.id());
                }
                Ok(r)
            },
            Err(e) => hard!(Kind::Codec, Ctx::Codec, "a valid encoding failed to decode: {e}"),
        }
    }

    fn do_join(&mut self, pi: usize) -> Res<usize> {
        let id = self.fresh_id();
        let twin_id = if self.mode == TwinMode::Direct { self.fresh_id() } else { id };
        let r = if self.neutral && self.prop == "C07" {
            call(Ctx::Fork, "fork", || self.peers[pi].core.r.fork(id))?
        } else {
            let bytes = self.encode_bytes(pi)?;
            self.decode_bytes(id, &bytes)?
        };
        self.stats.joins += 1;
        if self.rich(pi) {
            self.stats.joins_rich += 1;
        }
        if self.wants(Kind::Equiv, Ctx::Codec) {
            self.probe_equiv(pi, &r, Ctx::Codec, false)?;
        }
        let src = &self.peers[pi];
        let (twin, same) = match self.mode {
            TwinMode::ForkOfDecoded => {
                let f = call(Ctx::Fork, "fork", || src.core.r.fork(id))?;
                (Some(Core { r: f, doc: src.core.doc.clone() }), true)
            },
            TwinMode::DecodedOfFork | TwinMode::None => (None, false),
            _ => {
                let t = match src.twin.as_ref() {
                    Some(t) => {
                        let r = call(Ctx::Fork, "twin.fork", || t.r.fork(twin_id))?;
                        Some(Core { r, doc: t.doc.clone() })
                    },
                    None => None,
                };
                (t, self.mode != TwinMode::Direct)
            },
        };
        let mut p = src.clone();
        p.core.r = r;
        let n = self.add_peer(p, id, twin, same);
        say!(self, "peer {n} (replica {id}) = decode(encode(peer {pi}))");
        self.check_len(n, Ctx::Codec)?;
        Ok(n)
    }

    fn snap_take(&mut self, pi: usize) -> Res<()> {
        let bytes = self.encode_bytes(pi)?;
        let mut peer = self.peers[pi].clone();
        let forked = None;
        if self.mode == TwinMode::ForkOfDecoded {
            // Keep the live replica around, to fork it when the snapshot is used.
            return {
                let r = self.peers[pi].core.r.clone();
                peer.twin = None;
                self.snaps.push(Snap { bytes, peer, forked: Some(r) });
                Ok(())
            };
        }
        self.snaps.push(Snap { bytes, peer, forked });
        Ok(())
    }

    fn snap_join(&mut self, which: usize) -> Res<()> {
        if self.snaps.is_empty() {
            return Ok(());
        }
        let i = which % self.snaps.len();
        let snap = self.snaps.swap_remove(i);
        let id = self.fresh_id();
        let twin_id = if self.mode == TwinMode::Direct { self.fresh_id() } else { id };
        let r = match &snap.forked {
            Some(f) if self.neutral => call(Ctx::Fork, "fork", || f.fork(id))?,
            _ => self.decode_bytes(id, &snap.bytes)?,
        };
        self.stats.joins += 1;
        let mut p = snap.peer;
        let twin = match self.mode {
            TwinMode::ForkOfDecoded => snap.forked.map(|f| Core { r: f.fork(id), doc: p.core.doc.clone() }),
            TwinMode::None | TwinMode::DecodedOfFork => None,
            _ => p.twin.take().map(|t| Core { r: t.r.fork(twin_id), doc: t.doc }),
        };
        let same = self.mode != TwinMode::Direct;
        p.core.r = r;
        let have = p.status.len();
        p.status.resize(self.edits.len(), 0);
        p.unrecv = (0..have).filter(|&e| p.status[e] == 0).map(|e| e as u32).collect();
        p.unrecv.extend(have as u32..self.edits.len() as u32);
        let n = self.add_peer(p, id, twin, same);
        say!(self, "peer {n} (replica {id}) = decoded from an older snapshot");
        self.check_len(n, Ctx::Codec)
    }

    /// Checks, on throw-away copies, that `copy` (a fork, a clone or a decoded
    /// snapshot of peer `pi`) carries the same state: same length, same anchor
    /// resolutions, same backlog, same reactions to everything not received
    /// yet.
    fn probe_equiv(&mut self, pi: usize, copy: &Replica, ctx: Ctx, same_id: bool) -> Res<()> {
        let k = self.k;
        let doc = self.peers[pi].core.doc.clone();
        let orig = &self.peers[pi].core.r;
        self.stats.twin_cmp += 1;
        let (mut a, mut b) = (call(Ctx::Clone, "clone", || orig.clone())?, call(Ctx::Clone, "clone", || copy.clone())?);
        if a.len() != b.len() {
            soft!(self, Kind::Equiv, ctx, "the copy of peer {pi} has length {}, the original {}", b.len(), a.len());
        }
        let check_anchors = |w: &World, a: &Replica, b: &Replica, when: &str| -> Res<()> {
            for (i, an) in w.anchors.iter().enumerate().rev().take(48) {
                let ra = call(ctx, "resolve_anchor", || a.resolve_anchor(an.anchor))?;
                let rb = call(ctx, "resolve_anchor", || b.resolve_anchor(an.anchor))?;
                if ra != rb {
                    soft!(w, Kind::Equiv, ctx, "{when}: anchor {i} resolves to {ra:?} at peer {pi} and to {rb:?} at its copy");
                }
            }
            Ok(())
        };
        let check_new_anchors = |w: &World, a: &Replica, b: &Replica| -> Res<()> {
            let n = a.len() / k;
            if a.len() != b.len() {
                soft!(w, Kind::Equiv, ctx, "lengths differ: {} at peer {pi}, {} at its copy", a.len(), b.len());
                return Ok(());
            }
            let step = (n / 24).max(1);
            for o in (0..=n).step_by(step) {
                for bias in [AnchorBias::Left, AnchorBias::Right] {
                    let x = call(ctx, "create_anchor", || a.create_anchor(o * k, bias))?;
                    let y = call(ctx, "create_anchor", || b.create_anchor(o * k, bias))?;
                    let rx = call(ctx, "resolve_anchor", || b.resolve_anchor(x))?;
                    let ry = call(ctx, "resolve_anchor", || a.resolve_anchor(y))?;
                    if x != y || rx != ry {
                        soft!(w, Kind::Equiv, ctx, "anchors created at {} differ: {x:?} (resolved by the copy: {rx:?}) at peer {pi}, {y:?} (resolved by the original: {ry:?}) at its copy", o * k);
                    }
                }
            }
            Ok(())
        };
        check_anchors(self, &a, &b, "right after copying")?;
        check_new_anchors(self, &a, &b)?;
        let (mut da, mut db) = (doc.clone(), doc);
        let cap = self.edits.len() + 8;
        self.scratch_drain(&mut a, &mut da, cap, ctx)?;
        self.scratch_drain(&mut b, &mut db, cap, ctx)?;
        if da != db {
            soft!(self, Kind::Equiv, ctx, "draining the backlogs of peer {pi} and of its copy gives different documents ({} vs {} units)", da.len(), db.len());
        }
        let rest: Vec<u32> = {
            let mut v = self.peers[pi].unrecv.clone();
            v.sort_unstable();
            v.truncate(400);
            v
        };
        for e in rest {
            match &self.edits[e as usize].msg {
                Msg::Ins(m) => {
                    let x = call(ctx, "integrate_insertion", || a.integrate_insertion(m))?;
                    let y = call(ctx, "integrate_insertion", || b.integrate_insertion(m))?;
                    if x != y {
                        soft!(self, Kind::Equiv, ctx, "integrating insertion #{e} returns {x:?} at peer {pi} and {y:?} at its copy");
                    }
                },
                Msg::Del(m) => {
                    let x = call(ctx, "integrate_deletion", || a.integrate_deletion(m))?;
                    let y = call(ctx, "integrate_deletion", || b.integrate_deletion(m))?;
                    if x != y {
                        soft!(self, Kind::Equiv, ctx, "integrating deletion #{e} returns {x:?} at peer {pi} and {y:?} at its copy");
                    }
                },
            }
        }
        check_anchors(self, &a, &b, "after delivering everything else")?;
        check_new_anchors(self, &a, &b)?;
        if same_id {
            let n = a.len() / k;
            for o in [0, n / 3, n] {
                let x = call(ctx, "inserted", || a.inserted(o * k, k))?;
                let y = call(ctx, "inserted", || b.inserted(o * k, k))?;
                if x != y {
                    soft!(self, Kind::Equiv, ctx, "inserted({}, {k}) produced {x:?} at peer {pi} and {y:?} at its clone", o * k);
                }
            }
            let n = a.len();
            let x = call(ctx, "deleted", || a.deleted(n / (2 * k) * k..n))?;
            let y = call(ctx, "deleted", || b.deleted(n / (2 * k) * k..n))?;
            if x != y {
                soft!(self, Kind::Equiv, ctx, "deleting produced {x:?} at peer {pi} and {y:?} at its clone");
            }
        }
        Ok(())
    }

    fn scratch_drain(&mut self, r: &mut Replica, doc: &mut Vec<u32>, cap: usize, ctx: Ctx) -> Res<()> {
        let got = call(ctx, "draining a copy", || r.backlogged_insertions().take(cap).collect::<Vec<_>>())?;
        for (text, off) in got {
            let Some(e) = self.find_text(text.inserted_by(), &text.temporal_range()) else { continue };
            let EK::Ins { first, n } = self.edits[e as usize].kind else { unreachable!() };
            if off / self.k <= doc.len() {
                splice_in(doc, off / self.k, first, n as usize);
            }
        }
        let got = call(ctx, "draining a copy", || r.backlogged_deletions().take(cap).collect::<Vec<_>>())?;
        for ranges in got {
            let d = doc.clone();
            let s = self.removed(usize::MAX, &d, &ranges, ctx)?;
            remove_chars(doc, &s);
        }
        Ok(())
    }

    // ----- anchors --------------------------------------------------------

    fn anchor_new(&mut self, pi: usize, pos: usize, bias: AnchorBias) -> Res<()> {
        let k = self.k;
        let p = &self.peers[pi];
        let len = p.core.doc.len();
        let anchor = call(Ctx::AnchorMake, &format!("create_anchor({}) in a document of length {}", pos * k, len * k), || {
            p.core.r.create_anchor(pos * k, bias)
        })?;
        if p.twin_same {
            if let Some(t) = p.twin.as_ref() {
                let ta = call(Ctx::AnchorMake, "twin.create_anchor", || t.r.create_anchor(pos * k, bias))?;
                if ta != anchor {
                    soft!(self, Kind::Twin, Ctx::AnchorMake, "peer {pi}: create_anchor({}, {bias:?}) is {anchor:?}, but {ta:?} at its twin", pos * k);
                }
            }
        }
        let target = match bias {
            AnchorBias::Left if pos == 0 => Target::Start,
            AnchorBias::Right if pos == len => Target::End,
            AnchorBias::Left => Target::Char(p.core.doc[pos - 1], bias),
            AnchorBias::Right => Target::Char(p.core.doc[pos], bias),
        };
        let author = p.author;
        // Anchors travel too.
        let anchor = if self.cfg.transport > 0 {
            let t = self.cfg.transport as usize - 1;
            self.stats.roundtrips += 1;
            match call(Ctx::Serde, "serde round trip of an Anchor", || wire::round_trip(&anchor, t))? {
                Ok(a) => {
                    if a != anchor {
                        soft!(self, Kind::RoundTrip, Ctx::Serde, "Anchor changed by a serde round trip: {anchor:?} became {a:?}");
                    }
                    a
                },
                Err(e) => hard!(Kind::RoundTrip, Ctx::Serde, "Anchor {anchor:?} failed to deserialize: {e}"),
            }
        } else {
            anchor
        };
        self.stats.anchors += 1;
        say!(self, "peer {pi}: anchor {} = create_anchor({pos}, {bias:?}) = {anchor:?}", self.anchors.len());
        self.anchors.push(AnchorInfo { anchor, target, author });
        // It must resolve to where it was created.
        let i = self.anchors.len() - 1;
        let p = &self.peers[pi];
        let got = call(Ctx::AnchorGet, "resolve_anchor", || p.core.r.resolve_anchor(self.anchors[i].anchor))?;
        if got != Some(pos * k) {
            soft!(self, Kind::AnchorWrong, Ctx::AnchorGet, "peer {pi}: the anchor created at {} with bias {bias:?} immediately resolves to {got:?}", pos * k);
        }
        Ok(())
    }

    fn anchor_chk(&mut self, pi: usize, max: usize) -> Res<()> {
        if self.anchors.is_empty() {
            return Ok(());
        }
        let k = self.k;
        let mut pos = vec![u32::MAX; self.chars.len()];
        for (i, &c) in self.peers[pi].core.doc.iter().enumerate() {
            pos[c as usize] = i as u32;
        }
        let len = self.peers[pi].core.doc.len();
        let n = self.anchors.len();
        for i in n.saturating_sub(max)..n {
            let info = &self.anchors[i];
            let p = &self.peers[pi];
            let ctx = if info.author == p.author { Ctx::AnchorGet } else { Ctx::AnchorGetR };
            let got = call(ctx, "resolve_anchor", || p.core.r.resolve_anchor(info.anchor))?;
            if let (true, Some(t)) = (p.twin.is_some() && self.mode != TwinMode::Direct, p.twin.as_ref()) {
                let tg = call(ctx, "twin.resolve_anchor", || t.r.resolve_anchor(info.anchor))?;
                if tg != got {
                    soft!(self, Kind::Twin, ctx, "peer {pi}: anchor {i} resolves to {got:?}, but {tg:?} at its twin");
                }
            }
            let (target, remote) = (info.target, ctx == Ctx::AnchorGetR);
            self.stats.anchor_checks += 1;
            if remote {
                self.stats.anchor_remote += 1;
            }
            let anchor = self.anchors[i].anchor;
            self.log(got.map_or(0, |x| (x / k) as u64 + 1));
            match target {
                Target::Start => {
                    if got != Some(0) {
                        soft!(self, Kind::AnchorWrong, ctx, "peer {pi}: the start-of-document anchor resolves to {got:?}");
                    }
                },
                Target::End => {
                    if got != Some(len * k) {
                        soft!(self, Kind::AnchorWrong, ctx, "peer {pi}: the end-of-document anchor resolves to {got:?}, the buffer has length {}", len * k);
                    }
                },
                Target::Char(c, bias) => {
                    let known = self.char_known(&self.peers[pi].known, c);
                    if !known {
                        self.stats.anchor_unknown += 1;
                        if let Some(o) = got {
                            soft!(self, Kind::AnchorEarly, ctx, "peer {pi}: anchor {anchor:?} refers to text that isn't known here, but resolves to {o}");
                        }
                        continue;
                    }
                    let Some(o) = got else {
                        soft!(self, Kind::AnchorNone, ctx, "peer {pi}: anchor {anchor:?} refers to known text but doesn't resolve");
                        continue;
                    };
                    if o > len * k {
                        soft!(self, Kind::Bounds, ctx, "peer {pi}: anchor {anchor:?} resolves to {o}, out of bounds of a buffer of length {}", len * k);
                        continue;
                    }
                    if pos[c as usize] != u32::MAX {
                        let at = pos[c as usize] as usize;
                        let want = match bias {
                            AnchorBias::Left => at + 1,
                            AnchorBias::Right => at,
                        };
                        if o != want * k {
                            soft!(self, Kind::AnchorWrong, ctx, "peer {pi}: anchor {anchor:?} on the {} of a visible character at {} resolves to {o}", if bias == AnchorBias::Left { "right" } else { "left" }, at * k);
                        }
                    } else {
                        self.stats.anchor_tomb += 1;
                        if o % k != 0 {
                            soft!(self, Kind::AnchorWrong, ctx, "peer {pi}: an anchor on deleted text resolves to {o}, inside of a character of length {k}");
                            continue;
                        }
                        // The gap it resolves to is where the deleted
                        // character used to be.
                        let o = o / k;
                        let doc = &self.peers[pi].core.doc;
                        if o > 0 {
                            self.edges.push((doc[o - 1], c, ctx));
                        }
                        if o < len {
                            self.edges.push((c, doc[o], ctx));
                        }
                    }
                },
            }
        }
        Ok(())
    }

    // ----- comparison of peers --------------------------------------------

    /// Peers that integrated the same edits must have the same document.
    fn compare(&mut self) -> Res<()> {
        let live = self.live();
        self.stats.compares += 1;
        let key = |p: &Peer| -> Vec<bool> { p.status.iter().map(|&s| s == 2).collect() };
        let keys: Vec<Vec<bool>> = live.iter().map(|&i| key(&self.peers[i])).collect();
        for i in 0..live.len() {
            for j in i + 1..live.len() {
                if keys[i] == keys[j] {
                    let (a, b) = (live[i], live[j]);
                    let mut same = self.peers[a].core.doc == self.peers[b].core.doc;
                    if !same {
                        // Text deleted by an edit that neither has integrated
                        // yet may already be gone at one of them, because a
                        // later deletion spanned it.
                        let mut gone = vec![false; self.chars.len()];
                        for (e, done) in keys[i].iter().enumerate() {
                            if let (EK::Del { targets, .. }, false) = (&self.edits[e].kind, done) {
                                for &c in targets {
                                    gone[c as usize] = true;
                                }
                            }
                        }
                        let f = |d: &[u32]| d.iter().copied().filter(|&c| !gone[c as usize]).collect::<Vec<_>>();
                        same = f(&self.peers[a].core.doc) == f(&self.peers[b].core.doc);
                        if same {
                            continue;
                        }
                    }
                    if !same {
                        soft!(self, Kind::Diverge, Ctx::Final, "peers {a} and {b} integrated the same {} edits but have different documents ({} vs {} units)", keys[i].iter().filter(|x| **x).count(), self.peers[a].core.doc.len(), self.peers[b].core.doc.len());
                    }
                    if self.wants(Kind::AnchorPeers, Ctx::AnchorGetR) {
                        let n = self.anchors.len();
                        for t in n.saturating_sub(64)..n {
                            let an = self.anchors[t].anchor;
                            let x = call(Ctx::AnchorGetR, "resolve_anchor", || self.peers[a].core.r.resolve_anchor(an))?;
                            let y = call(Ctx::AnchorGetR, "resolve_anchor", || self.peers[b].core.r.resolve_anchor(an))?;
                            if x != y {
                                soft!(self, Kind::AnchorPeers, Ctx::AnchorGetR, "peers {a} and {b} have the same document, but anchor {an:?} resolves to {x:?} and {y:?}");
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// After a peer received everything: its document must be exactly
    /// everything that was inserted minus everything that was deleted.
    fn check_complete(&mut self, pi: usize) -> Res<()> {
        let p = &self.peers[pi];
        if let Some(e) = p.status.iter().position(|&s| s != 2) {
            soft!(self, Kind::Stuck, Ctx::Final, "peer {pi}: {} #{e} is still not integrated although every edit was received and the backlog was drained", if matches!(self.edits[e].kind, EK::Ins { .. }) { "insertion" } else { "deletion" });
        }
        let mut del = vec![false; self.chars.len()];
        for e in &self.edits {
            if let EK::Del { targets, .. } = &e.kind {
                for &c in targets {
                    del[c as usize] = true;
                }
            }
        }
        let mut seen = vec![0u32; self.chars.len()];
        for &c in &p.core.doc {
            seen[c as usize] += 1;
        }
        for c in 0..self.chars.len() {
            let want = !del[c] as u32;
            if seen[c] != want {
                soft!(self, Kind::SetMismatch, Ctx::Final, "peer {pi}: after receiving everything {} appears {} times, expected {want}", self.char_name(c as u32), seen[c]);
            }
        }
        Ok(())
    }

    fn sync_peer(&mut self, pi: usize, order: &[u32], drain: u8) -> Res<()> {
        for (i, &e) in order.iter().enumerate() {
            if self.peers[pi].status[e as usize] == 0 {
                self.deliver(pi, e)?;
                if (drain == 1 && order.len() < 4_000) || i % 4_000 == 3_999 {
                    self.drain_all(pi)?;
                }
            }
        }
        self.drain_ins(pi, None)?;
        self.drain_del(pi, None)?;
        Ok(())
    }

    pub fn sync_all(&mut self, how: u8, rng: &mut Rng) -> Res<()> {
        let live = self.live();
        let n = self.edits.len() as u32;
        for pi in live {
            let mut order: Vec<u32> = (0..n).filter(|&e| self.peers[pi].status[e as usize] == 0).collect();
            // After a marathon the order is varied in blocks: sorting out tens
            // of thousands of waiting edits takes too long.
            let mut drain = 0;
            for block in order.chunks_mut(4_000) {
                drain = match how % 6 {
                    0 => 0,
                    1 => {
                        block.reverse();
                        0
                    },
                    2 => {
                        rng.shuffle(block);
                        0
                    },
                    3 => {
                        rng.shuffle(block);
                        1
                    },
                    4 => {
                        // Author by author.
                        let shift = rng.below(7) as u32;
                        block.sort_by_key(|&e| ((self.edits[e as usize].author + shift) % 7, e));
                        1
                    },
                    _ => {
                        // Deletions first, insertions in reverse.
                        block.reverse();
                        block.sort_by_key(|&e| matches!(self.edits[e as usize].kind, EK::Ins { .. }));
                        0
                    },
                };
            }
            self.sync_peer(pi, &order, drain)?;
        }
        for pi in self.live() {
            self.check_complete(pi)?;
        }
        self.compare()
    }

    // ----- the order oracle -------------------------------------------------

    /// There must be one total order of all the characters ever inserted that
    /// every document ever seen is sorted by. Every document is a chain of
    /// "directly before" pairs, so the order exists iff the union of those
    /// pairs is acyclic.
    fn check_order(&mut self) -> Res<()> {
        self.stats.edges += self.edges.len() as u64;
        let layers: [&[Ctx]; 4] = [
            &[Ctx::New, Ctx::LocalIns, Ctx::IntIns, Ctx::DrainIns],
            &[Ctx::AnchorGet],
            &[Ctx::AnchorGetR],
            &[Ctx::IntDel],
        ];
        let mut allowed: Vec<Ctx> = vec![];
        for (li, l) in layers.iter().enumerate() {
            if li > 0 && !self.edges.iter().any(|e| l.contains(&e.2)) {
                continue;
            }
            allowed.extend_from_slice(l);
            let ctx = match li {
                0 => Ctx::IntIns,
                1 => Ctx::AnchorGet,
                2 => Ctx::AnchorGetR,
                _ => Ctx::IntDel,
            };
            if let Some(msg) = self.find_cycle(&allowed) {
                soft!(self, Kind::Order, ctx, "{msg}");
                return Ok(());
            }
        }
        Ok(())
    }

    fn find_cycle(&self, allowed: &[Ctx]) -> Option<String> {
        let n = self.chars.len();
        let mut deg = vec![0u32; n];
        let mut head = vec![u32::MAX; n];
        let mut next = vec![u32::MAX; self.edges.len()];
        for (i, &(a, b, c)) in self.edges.iter().enumerate() {
            if !allowed.contains(&c) {
                continue;
            }
            next[i] = head[a as usize];
            head[a as usize] = i as u32;
            deg[b as usize] += 1;
        }
        let mut stack: Vec<u32> = (0..n as u32).filter(|&c| deg[c as usize] == 0).collect();
        let mut done = 0;
        while let Some(c) = stack.pop() {
            done += 1;
            let mut i = head[c as usize];
            while i != u32::MAX {
                let b = self.edges[i as usize].1;
                deg[b as usize] -= 1;
                if deg[b as usize] == 0 {
                    stack.push(b);
                }
                i = next[i as usize];
            }
        }
        if done == n {
            return None;
        }
        // Name some characters on a cycle.
        let mut c = (0..n).find(|&c| deg[c] > 0).unwrap() as u32;
        // Walk backwards along edges between unfinished nodes.
        let mut prev = vec![u32::MAX; n];
        for &(a, b, x) in &self.edges {
            if allowed.contains(&x) && deg[a as usize] > 0 && deg[b as usize] > 0 {
                prev[b as usize] = a;
            }
        }
        let mut seen = vec![false; n];
        let mut path = vec![];
        while !seen[c as usize] {
            seen[c as usize] = true;
            path.push(c);
            if prev[c as usize] == u32::MAX {
                break;
            }
            c = prev[c as usize];
        }
        let names: Vec<String> = path.iter().rev().take(6).map(|&c| self.char_name(c)).collect();
        Some(format!("no single order of the characters is consistent with all the documents seen; cycle through: {}", names.join(" < ")))
    }

    // ----- interpreter ------------------------------------------------------

    fn pos(&self, pi: usize, a: u16, c: u16) -> usize {
        let p = &self.peers[pi];
        let len = p.core.doc.len();
        let frac = ((a as usize) * (len + 1)) >> 16;
        let cur = p.cursor.min(len);
        match c % 10 {
            0..=2 => frac,
            3 | 4 => cur,
            5 => (cur + (a % 9) as usize).saturating_sub(4).min(len),
            6 => (a % 2) as usize % (len + 1),
            7 => len - (a % 2) as usize % (len + 1),
            _ => {
                // The next boundary between two authors / insertions.
                let doc = &p.core.doc;
                for i in frac..len {
                    if i > 0 && doc[i - 1] + 1 != doc[i] {
                        return i;
                    }
                }
                frac
            },
        }
    }

    fn ins_len(b: u16) -> usize {
        let x = (b >> 4) as usize;
        match b % 16 {
            0..=9 => 1 + x % 3,
            10..=12 => 1 + x % 12,
            13 | 14 => 1 + x % 80,
            _ => 1 + x % 500,
        }
    }

    fn del_range(&self, pi: usize, o: &Op) -> Option<(usize, usize)> {
        let len = self.peers[pi].core.doc.len();
        if len == 0 {
            return None;
        }
        let s = self.pos(pi, o.a, o.c).min(len - 1);
        let x = (o.b >> 4) as usize;
        let (s, e) = match o.b % 16 {
            0..=5 => (s, s + 1 + x % 3),
            6..=9 => (s, s + 1 + x % 12),
            10 | 11 => (s, s + 1 + x % 100),
            12 => (s, s + 1 + (x * (len - s)) / 4096),
            13 => (0, s + 1),
            14 => (s, len),
            _ => {
                if x % 4 == 0 {
                    (0, len)
                } else {
                    // Around an author boundary.
                    (s.saturating_sub(1 + x % 3), s + 1 + (x >> 4) % 3)
                }
            },
        };
        let e = e.min(len);
        (s < e).then_some((s, e))
    }

    pub fn step(&mut self, o: &Op) -> Res<()> {
        let pi = self.peer_at(o.p as usize);
        match OpK::ALL[o.k as usize % OpK::N] {
            OpK::Idle => self.idle(pi, o)?,
            OpK::Phase => {},
            OpK::Marathon => self.marathon(pi, o)?,
            OpK::Ins => {
                let pos = self.pos(pi, o.a, o.c);
                self.local_ins(pi, pos, Self::ins_len(o.b))?;
            },
            OpK::Type => {
                let mut pos = self.pos(pi, o.a, o.c);
                for i in 0..1 + (o.b % 24) as usize {
                    let n = if (o.b >> (5 + i % 8)) & 1 == 1 { 1 + i % 3 } else { 1 };
                    self.local_ins(pi, pos, n)?;
                    pos += n;
                }
            },
            OpK::Back => {
                let mut pos = self.pos(pi, o.a, o.c);
                for _ in 0..1 + (o.b % 16) as usize {
                    if pos == 0 {
                        break;
                    }
                    self.local_del(pi, pos - 1, pos)?;
                    pos -= 1;
                }
            },
            OpK::DelFwd => {
                let pos = self.pos(pi, o.a, o.c);
                for _ in 0..1 + (o.b % 16) as usize {
                    if pos >= self.peers[pi].core.doc.len() {
                        break;
                    }
                    self.local_del(pi, pos, pos + 1)?;
                }
            },
            OpK::Del => {
                if let Some((s, e)) = self.del_range(pi, o) {
                    self.local_del(pi, s, e)?;
                }
            },
            OpK::Deliver => {
                if let Some(e) = self.pick_unrecv(pi, o) {
                    self.deliver(pi, e)?;
                    if o.c % 5 == 4 {
                        self.drain_all(pi)?;
                    }
                }
            },
            OpK::DeliverN => {
                let mut rng = Rng::new(o.a as u64);
                let n = self.peers[pi].unrecv.len();
                if n > 0 {
                    let mut v = self.peers[pi].unrecv.clone();
                    if o.b % 3 != 0 {
                        rng.shuffle(&mut v);
                    }
                    v.truncate(1 + (o.b >> 2) as usize % n.min(64));
                    for e in v {
                        self.deliver(pi, e)?;
                        match o.c % 8 {
                            0 => {
                                self.drain_all(pi)?;
                            },
                            1 => {
                                self.drain_ins(pi, None)?;
                            },
                            _ => {},
                        }
                    }
                }
            },
            OpK::SyncPair => {
                let q = self.peer_at(o.a as usize);
                let mut v: Vec<u32> = (0..self.edits.len() as u32)
                    .filter(|&e| self.peers[pi].status[e as usize] == 0 && self.peers[q].status[e as usize] != 0)
                    .collect();
                if o.b % 3 == 0 {
                    let mut rng = Rng::new(o.b as u64);
                    v.chunks_mut(4_000).for_each(|c| rng.shuffle(c));
                }
                self.sync_peer(pi, &v, (o.c % 2) as u8)?;
            },
            OpK::SyncAll => {
                let mut rng = Rng::new(o.a as u64);
                self.sync_all(o.b as u8, &mut rng)?;
            },
            OpK::Dup => {
                let got: Vec<u32> = if o.b % 3 == 0 && !self.peers[pi].pending.is_empty() {
                    self.peers[pi].pending.clone()
                } else {
                    (0..self.edits.len() as u32).filter(|&e| self.peers[pi].status[e as usize] != 0).collect()
                };
                if !got.is_empty() {
                    // Recent ones are the interesting ones.
                    let i = if o.c % 2 == 0 { got.len() - 1 - (o.a as usize % got.len().min(12)) } else { o.a as usize % got.len() };
                    for _ in 0..1 + o.b % 2 {
                        self.deliver(pi, got[i])?;
                    }
                }
            },
            OpK::DrainIns => {
                let lim = if o.b % 2 == 0 { None } else { Some((o.b >> 1) as usize % 4) };
                self.drain_ins(pi, lim)?;
            },
            OpK::DrainDel => {
                let lim = if o.b % 2 == 0 { None } else { Some((o.b >> 1) as usize % 4) };
                self.drain_del(pi, lim)?;
            },
            OpK::Fork => {
                self.do_fork(pi, true)?;
            },
            OpK::Join => {
                self.do_join(pi)?;
            },
            OpK::SnapTake => {
                if self.snaps.len() < 4 {
                    self.snap_take(pi)?;
                }
            },
            OpK::SnapJoin => self.snap_join(o.a as usize)?,
            OpK::Reload => {
                if self.live().len() > 1 || self.authors.len() < 64 {
                    // The new incarnation takes the place of the old one.
                    let n = self.do_join(pi)?;
                    if n != pi && self.live().len() > 1 {
                        self.peers[pi].live = false;
                        self.peers[pi].unrecv.clear();
                    }
                }
            },
            OpK::Scratch => self.scratch(pi, o)?,
            OpK::AnchorNew => {
                for i in 0..1 + (o.b % 3) {
                    let pos = self.pos(pi, o.a.wrapping_add(i * 7919), o.c);
                    let bias = if (o.b >> (4 + i)) & 1 == 0 { AnchorBias::Left } else { AnchorBias::Right };
                    self.anchor_new(pi, pos, bias)?;
                }
            },
            OpK::AnchorChk => self.anchor_chk(pi, 48)?,
            OpK::NoOp => self.noop(pi, o)?,
            OpK::Misuse => self.misuse(pi, o)?,
            OpK::Compare => self.compare()?,
            OpK::Corrupt => self.corrupt(pi, o)?,
            OpK::Garbage => self.garbage(pi, o)?,
            OpK::Serde => self.serde_op(pi, o)?,
            OpK::Epoch => self.epoch(o)?,
            OpK::Compact => self.compact(pi, o)?,
            OpK::Chaos => {
                // Everybody types at the same place without seeing the others.
                let at = self.pos(pi, o.a, o.c);
                let left = at.checked_sub(1).map(|i| self.peers[pi].core.doc[i]);
                for q in self.live() {
                    let len = self.peers[q].core.doc.len();
                    let pos = match left {
                        None => 0,
                        Some(c) => match self.peers[q].core.doc.iter().position(|&x| x == c) {
                            Some(i) => i + 1,
                            None => at.min(len),
                        },
                    };
                    let reps = 1 + (o.b >> 8) % 3;
                    for r in 0..reps {
                        let n = 1 + ((o.b as usize) >> (q % 8)) % 3;
                        // Either keep typing or keep going back.
                        let pos = if o.b % 2 == 0 { pos } else { (pos + r as usize * n).min(self.peers[q].core.doc.len()) };
                        self.local_ins(q, pos, n)?;
                    }
                    self.stats.tie += 1;
                }
            },
        }
        Ok(())
    }

    /// Thousands of edits in a row by one peer. What they cost is kept linear:
    /// no delivery, small documents where there are many deletions.
    fn marathon(&mut self, pi: usize, o: &Op) -> Res<()> {
        const MOST: usize = 75_000;
        let n = [300, 1_500, 5_000, 17_000, 70_000][o.b as usize % 5].min(MOST - self.marathon.min(MOST));
        let style = o.a % 9;
        // Where every edit is in the middle of a long document.
        let n = if style > 6 { n.min(6_000) } else { n };
        self.marathon += n;
        let mut rng = Rng::new(o.c as u64);
        let mut at = self.pos(pi, o.a, o.c);
        if style > 6 {
            // One insertion that is cut into thousands of pieces.
            self.local_ins(pi, at, 2 * n)?;
        }
        for i in 0..n {
            let len = self.peers[pi].core.doc.len();
            at = at.min(len);
            let mut ins = 1;
            let del = match style {
                // Typing, with a jump now and then.
                0 => {
                    if i % 64 == 63 {
                        at = rng.below(len + 1);
                    }
                    i % 128 == 100
                },
                // All over the document.
                1 => {
                    at = rng.below(len + 1);
                    i % 97 == 96
                },
                // Typing what is removed at once.
                2 => i % 2 == 1,
                // Typing with corrections, somewhere else every time.
                3 => {
                    if i % 8 == 0 {
                        at = rng.below(len + 1);
                    }
                    i % 8 > 3
                },
                // Always at the start.
                4 => {
                    at = 0;
                    i % 101 == 100
                },
                // A line at once, removed one by one.
                5 => {
                    ins = 80;
                    i % 81 > 0
                },
                // Pieces with other text in between.
                7 => {
                    at = if i % 2 == 0 { rng.below(len + 1) } else { (at + 1) % (len + 1) };
                    i % 3 == 0
                },
                // Pieces of deleted text that grow together.
                8 => {
                    at = rng.below(len + 1);
                    i % 50 > 0
                },
                // Backwards, leaving a little behind.
                _ => {
                    at = at.saturating_sub(i % 3);
                    i % 16 > 8
                },
            };
            if del && len > 0 {
                let s = at.saturating_sub(1);
                self.local_del(pi, s, s + 1)?;
                at = s;
            } else {
                self.local_ins(pi, at, ins)?;
                at += ins;
            }
        }
        Ok(())
    }

    fn pick_unrecv(&self, pi: usize, o: &Op) -> Option<u32> {
        let v = &self.peers[pi].unrecv;
        if v.is_empty() {
            return None;
        }
        Some(match o.b % 6 {
            0 | 1 => {
                // Next in line of some author.
                let e = v[o.a as usize % v.len()];
                let a = self.edits[e as usize].author;
                *v.iter().filter(|&&x| self.edits[x as usize].author == a).min().unwrap()
            },
            2 => *v.iter().max().unwrap(),
            3 => *v.iter().min().unwrap(),
            _ => v[o.a as usize % v.len()],
        })
    }

    fn scratch(&mut self, pi: usize, o: &Op) -> Res<()> {
        let k = self.k;
        let mut rng = Rng::new(o.a as u64 | (o.b as u64) << 16);
        let ctx = Ctx::Scratch;
        let orig = &self.peers[pi].core.r;
        let mut copy = if o.c % 2 == 0 {
            self.stats.clones += 1;
            call(Ctx::Clone, "clone", || orig.clone())?
        } else {
            let id = self.fresh_id();
            let orig = &self.peers[pi].core.r;
            call(Ctx::Fork, "fork", || orig.fork(id))?
        };
        if self.neutral && self.prop == "C08" {
            return Ok(());
        }
        if self.wants(Kind::Equiv, ctx) {
            self.probe_equiv(pi, &copy, ctx, o.c % 2 == 0)?;
            if self.mode == TwinMode::DecodedOfFork && o.c % 2 == 0 {
                // From here on the clone shadows the original.
                let orig = &self.peers[pi].core;
                let twin = call(Ctx::Clone, "clone", || orig.clone())?;
                self.peers[pi].twin = Some(twin);
                self.peers[pi].twin_same = true;
            }
        }
        // Mangle the copy; the original must not notice.
        for _ in 0..1 + rng.below(12) {
            let len = call(ctx, "len", || copy.len())? / k;
            match rng.below(6) {
                0 | 1 => {
                    let pos = rng.below(len + 1);
                    let n = 1 + rng.below(5);
                    let _ = call(ctx, "inserted on a copy", || copy.inserted(pos * k, n * k))?;
                },
                2 | 3 if len > 0 => {
                    let s = rng.below(len);
                    let e = s + 1 + rng.below(len - s);
                    let _ = call(ctx, "deleted on a copy", || copy.deleted(s * k..e * k))?;
                },
                4 if !self.peers[pi].unrecv.is_empty() => {
                    let v = &self.peers[pi].unrecv;
                    let e = v[rng.below(v.len())];
                    match &self.edits[e as usize].msg {
                        Msg::Ins(m) => {
                            let _ = call(ctx, "integrate_insertion on a copy", || copy.integrate_insertion(m))?;
                        },
                        Msg::Del(m) => {
                            let _ = call(ctx, "integrate_deletion on a copy", || copy.integrate_deletion(m))?;
                        },
                    }
                },
                _ => {
                    call(ctx, "draining a copy", || {
                        let _ = copy.backlogged_insertions().count();
                        let _ = copy.backlogged_deletions().count();
                    })?;
                },
            }
        }
        drop(copy);
        self.check_len(pi, ctx)
    }

    fn noop(&mut self, pi: usize, o: &Op) -> Res<()> {
        let k = self.k;
        let ctx = Ctx::NoOp;
        let len = self.peers[pi].core.doc.len();
        let pos = self.pos(pi, o.a, o.c);
        self.stats.noops += 1;
        let before = self.peers[pi].core.r.len();
        let msg = if o.b % 2 == 0 {
            let r = &mut self.peers[pi].core.r;
            let i = call(ctx, "inserted(pos, 0)", || r.inserted(pos * k, 0))?;
            if !i.text().temporal_range().is_empty() {
                soft!(self, Kind::NoOpEffect, ctx, "peer {pi}: an empty insertion has temporal range {:?}", i.text().temporal_range());
            }
            if self.mode != TwinMode::NoNoop {
                if let (true, Some(t)) = (self.mode != TwinMode::Direct, self.peers[pi].twin.as_mut()) {
                    let _ = call(ctx, "twin.inserted(pos, 0)", || t.r.inserted(pos * k, 0))?;
                }
            }
            let i = self.transport_ins(i)?;
            Msg::Ins(i)
        } else {
            let r = &mut self.peers[pi].core.r;
            let pos = pos.min(len);
            let d = call(ctx, "deleted(pos..pos)", || match o.b % 6 {
                1 if pos == 0 => r.deleted(..0),
                3 if pos == len => r.deleted(pos * k..),
                _ => r.deleted(pos * k..pos * k),
            })?;
            if self.mode != TwinMode::NoNoop {
                if let (true, Some(t)) = (self.mode != TwinMode::Direct, self.peers[pi].twin.as_mut()) {
                    let _ = call(ctx, "twin.deleted(pos..pos)", || t.r.deleted(pos * k..pos * k))?;
                }
            }
            let d = self.transport_del(d)?;
            Msg::Del(d)
        };
        let after = self.peers[pi].core.r.len();
        if before != after {
            soft!(self, Kind::NoOpEffect, ctx, "peer {pi}: a no-op edit changed the length from {before} to {after}");
        }
        let author = self.peers[pi].author;
        self.noops.push((msg, author));
        // Deliver this one, and some older one, to others (and to itself).
        let live = self.live();
        for (n, &q) in live.iter().enumerate() {
            if (o.b >> (4 + n % 8)) & 1 == 1 || n % 3 == 0 {
                let i = if n % 2 == 0 { self.noops.len() - 1 } else { o.a as usize % self.noops.len() };
                self.deliver_noop(q, i)?;
            }
        }
        Ok(())
    }

    fn deliver_noop(&mut self, q: usize, i: usize) -> Res<()> {
        let ctx = Ctx::NoOp;
        let (msg, _) = &self.noops[i];
        let before = self.peers[q].core.r.len();
        let mirror = !matches!(self.mode, TwinMode::NoNoop | TwinMode::Direct);
        let p = &mut self.peers[q];
        match msg {
            Msg::Ins(m) => {
                let got = call(ctx, "integrate_insertion of an empty insertion", || p.core.r.integrate_insertion(m))?;
                if let (true, Some(t)) = (mirror, p.twin.as_mut()) {
                    let _ = call(ctx, "twin.integrate_insertion", || t.r.integrate_insertion(m))?;
                }
                if let Some(o) = got {
                    soft!(self, Kind::NoOpEffect, ctx, "peer {q}: integrating an empty insertion returned {o}");
                }
            },
            Msg::Del(m) => {
                let got = call(ctx, "integrate_deletion of an empty deletion", || p.core.r.integrate_deletion(m))?;
                if let (true, Some(t)) = (mirror, p.twin.as_mut()) {
                    let _ = call(ctx, "twin.integrate_deletion", || t.r.integrate_deletion(m))?;
                }
                if !got.is_empty() {
                    soft!(self, Kind::NoOpEffect, ctx, "peer {q}: integrating an empty deletion returned {got:?}");
                }
            },
        }
        let after = self.peers[q].core.r.len();
        if before != after {
            soft!(self, Kind::NoOpEffect, ctx, "peer {q}: integrating a no-op edit changed the length from {before} to {after}");
        }
        Ok(())
    }

    fn misuse(&mut self, pi: usize, o: &Op) -> Res<()> {
        use std::ops::Bound::*;
        let k = self.k;
        let ctx = Ctx::Misuse;
        self.stats.misuses += 1;
        let len = self.peers[pi].core.doc.len() * k;
        let over = match o.a % 6 {
            0 | 1 => len + 1,
            2 => len + 1 + (o.a >> 3) as usize,
            3 => usize::MAX,
            4 => (len + 1).saturating_mul(2),
            _ => usize::MAX - 1,
        };
        let inside = ((o.a as u128 * (len as u128 + 1)) >> 16) as usize;
        let id = self.authors[self.peers[pi].author as usize].id;
        let p = &mut self.peers[pi];
        let r = &mut p.core.r;
        let mut what = String::new();
        let quiet = |f: &mut dyn FnMut()| catch_unwind(AssertUnwindSafe(f)).is_err();
        let panicked = match o.b % 14 {
            0 | 1 => {
                what += &format!("inserted({over}, 1)");
                quiet(&mut || drop(r.inserted(over, 1)))
            },
            2 => {
                what += &format!("inserted({over}, 0)");
                quiet(&mut || drop(r.inserted(over, 0)))
            },
            3 | 4 => {
                what += &format!("deleted({inside}..{over})");
                quiet(&mut || drop(r.deleted(inside..over)))
            },
            5 => {
                what += &format!("deleted(..={})", over - 1);
                quiet(&mut || drop(r.deleted(..=over - 1)))
            },
            6 => {
                what += &format!("deleted(..={over})");
                quiet(&mut || drop(r.deleted(..=over)))
            },
            7 if inside > 0 => {
                let lo = ((o.c as u128 * inside as u128) >> 16) as usize;
                what += &format!("deleted({inside}..{lo})");
                #[allow(clippy::reversed_empty_ranges)]
                quiet(&mut || drop(r.deleted(inside..lo)))
            },
            8 => {
                what += &format!("deleted({over}..)");
                quiet(&mut || drop(r.deleted(over..)))
            },
            9 => {
                what += &format!("deleted({over}..{over})");
                quiet(&mut || drop(r.deleted(over..over)))
            },
            10 => {
                let b = if o.c % 2 == 0 { AnchorBias::Left } else { AnchorBias::Right };
                what += &format!("create_anchor({over}, {b:?})");
                quiet(&mut || {
                    let _ = r.create_anchor(over, b);
                })
            },
            11 => {
                what += "fork(0)";
                quiet(&mut || drop(r.fork(0)))
            },
            12 => {
                what += "fork(own id)";
                quiet(&mut || drop(r.fork(id)))
            },
            _ => match o.c % 3 {
                0 => {
                    what += &format!("Replica::new(0, {len})");
                    quiet(&mut || drop(Replica::new(0, len)))
                },
                1 => {
                    what += "Replica::decode(0, valid encoding)";
                    let e = call(Ctx::Codec, "encode", || r.encode())?;
                    quiet(&mut || drop(Replica::decode(0, &e)))
                },
                _ => {
                    what += &format!("deleted((Excluded({over}), Included({over})))");
                    quiet(&mut || drop(r.deleted((Excluded(over), Included(over)))))
                },
            },
        };
        if !panicked {
            soft!(self, Kind::MisuseAccepted, ctx, "peer {pi}: {what} did not panic on a document of length {len}");
            // The call may have had an effect we can't model.
            hard!(Kind::MisuseAccepted, ctx, "peer {pi}: {what} did not panic on a document of length {len}");
        }
        let got = call(Ctx::Len, "len", || self.peers[pi].core.r.len())?;
        if got != len {
            soft!(self, Kind::MisuseAccepted, ctx, "peer {pi}: the rejected call {what} changed the length from {len} to {got}");
        }
        Ok(())
    }

    fn corrupt(&mut self, pi: usize, o: &Op) -> Res<()> {
        let ctx = Ctx::Codec;
        let r = &self.peers[pi].core.r;
        let enc = call(ctx, "encode", || r.encode())?;
        let orig = enc.as_bytes().to_vec();
        let Some((cur, vlen)) = wire::unleb(&orig) else {
            hard!(Kind::Codec, ctx, "the encoding doesn't start with a protocol version");
        };
        let mut rng = Rng::new(o.a as u64 | (o.b as u64) << 16 | (o.c as u64) << 32);
        let id = 0x00C0_FFEE_u64 + self.edits.len() as u64;
        for _ in 0..24 {
            self.stats.corruptions += 1;
            let mut m = orig.clone();
            let kind = rng.below(12);
            let mut other_version = None;
            match kind {
                0..=3 => {
                    // Flip one bit, anywhere (headers get extra attention).
                    let i = if rng.chance(1, 3) { rng.below(m.len().min(40)) } else { rng.below(m.len()) };
                    m[i] ^= 1 << rng.below(8);
                },
                4 => {
                    let i = rng.below(m.len());
                    m[i] = m[i].wrapping_add(1 + rng.below(255) as u8);
                },
                5 => {
                    let n = rng.below(m.len());
                    m.truncate(n);
                },
                6 => {
                    for _ in 0..1 + rng.below(9) {
                        m.push(if rng.chance(1, 2) { 0 } else { rng.u64() as u8 });
                    }
                },
                7 => {
                    // Two payload bytes swapped.
                    let (i, j) = (vlen + rng.below(m.len() - vlen), vlen + rng.below(m.len() - vlen));
                    m.swap(i, j);
                },
                8 => {
                    // A block is dropped or duplicated.
                    let i = vlen + rng.below(m.len() - vlen);
                    let j = (i + 1 + rng.below(16)).min(m.len());
                    if rng.chance(1, 2) {
                        m.drain(i..j);
                    } else {
                        let b = m[i..j].to_vec();
                        m.splice(j..j, b);
                    }
                },
                9 => {
                    // A block is zeroed.
                    let i = vlen + rng.below(m.len() - vlen);
                    let j = (i + 1 + rng.below(32)).min(m.len());
                    m[i..j].fill(0);
                },
                _ => {
                    let v = match rng.below(5) {
                        0 => cur + 1,
                        1 => cur.saturating_sub(1),
                        2 => rng.below(300) as u64,
                        3 => u64::MAX - rng.below(3) as u64,
                        _ => rng.u64() >> rng.below(64),
                    };
                    if v == cur {
                        continue;
                    }
                    let mut b = vec![];
                    wire::leb(v, &mut b);
                    b.extend_from_slice(&m[vlen..]);
                    m = b;
                    if rng.chance(1, 4) {
                        // The payload of another version can be anything.
                        let n = b_len(&m, rng.below(64));
                        m.truncate(n);
                    }
                    if wire::unleb(&m).is_some_and(|(x, _)| x == v) {
                        other_version = Some(v);
                    }
                },
            }
            // Skip what isn't a corruption: the same bytes, or the same
            // content behind another spelling of the same version.
            if m == orig {
                continue;
            }
            if let Some((v, l)) = wire::unleb(&m) {
                if v == cur && m[l..] == orig[vlen..] {
                    continue;
                }
            }
            let same_header = m.len() >= vlen && m[..vlen] == orig[..vlen];
            let enough = m.len() >= vlen + 32;
            let via_serde = rng.chance(1, 6);
            let got = call(ctx, "decode of a corrupted encoding", || {
                if via_serde {
                    let e: EncodedReplica = wire::unbin(&wire::bin(&EncodedReplica::from_bytes(&m))).unwrap();
                    Replica::decode(id, &e).map(drop)
                } else {
                    Replica::decode(id, &EncodedReplica::from_bytes(&m)).map(drop)
                }
            })?;
            match got {
                Ok(()) => {
                    soft!(self, Kind::CorruptAccepted, ctx, "a corrupted encoding (corruption {kind}, {} of {} bytes) was decoded without an error", diff_count(&orig, &m), orig.len());
                },
                Err(e) => {
                    use cola::DecodeError::*;
                    if let Some(v) = other_version {
                        if e != (DifferentProtocol { encoded_on: v, decoding_on: cur }) {
                            soft!(self, Kind::CorruptKind, ctx, "an encoding of protocol version {v} was rejected with {e:?} instead of DifferentProtocol {{ {v}, {cur} }}");
                        }
                    } else if same_header && enough && e != ChecksumFailed {
                        soft!(self, Kind::CorruptKind, ctx, "an encoding corrupted after its header was rejected with {e:?} instead of ChecksumFailed");
                    }
                },
            }
        }
        Ok(())
    }

    fn garbage(&mut self, pi: usize, o: &Op) -> Res<()> {
        use sha2::{Digest, Sha256};
        let mut rng = Rng::new(o.a as u64 | (o.b as u64) << 16 | (o.c as u64) << 32 | 1 << 50);
        let total = |w: &World, r: Res<()>| -> Res<()> {
            if let Err(f) = r {
                soft!(w, Kind::Totality, Ctx::Codec, "{}", f.msg);
                return Err(f);
            }
            Ok(())
        };
        let r = &self.peers[pi].core.r;
        let enc = call(Ctx::Codec, "encode", || r.encode())?;
        let orig = enc.as_bytes().to_vec();
        let Some((cur, vlen)) = wire::unleb(&orig) else { return Ok(()) };
        let payload = orig[(vlen + 32).min(orig.len())..].to_vec();
        for _ in 0..24 {
            self.stats.garbage += 1;
            match rng.below(8) {
                0 => {
                    let n = rng.below(80);
                    let b: Vec<u8> = (0..n).map(|_| rng.u64() as u8).collect();
                    let x = call(Ctx::Codec, &format!("decode of {b:?}"), || drop(Replica::decode(5, &EncodedReplica::from_bytes(&b))));
                    total(self, x)?;
                    let x = call(Ctx::Codec, &format!("deserializing {b:?}"), || { wire::deserialize_all(&b); });
                    total(self, x)?;
                },
                1..=5 => {
                    // A payload with a valid header and checksum.
                    let mut p = if rng.chance(1, 6) {
                        let n = rng.below(60);
                        (0..n).map(|_| if rng.chance(2, 3) { rng.below(6) as u8 } else { rng.u64() as u8 }).collect()
                    } else {
                        payload.clone()
                    };
                    mutate(&mut p, &mut rng);
                    let mut b = vec![];
                    wire::leb(cur, &mut b);
                    b.extend_from_slice(&Sha256::digest(&p));
                    b.extend_from_slice(&p);
                    let mut ok = false;
                    let x = call(Ctx::Codec, &format!("decode of a checksum-valid payload {p:?}"), || {
                        ok = Replica::decode(5, &EncodedReplica::from_bytes(&b)).is_ok();
                    });
                    self.stats.garbage_ok += ok as u64;
                    total(self, x)?;
                },
                _ => {
                    // Mutated serialised edits.
                    if self.edits.is_empty() {
                        continue;
                    }
                    let e = &self.edits[rng.below(self.edits.len())];
                    let mut b = match &e.msg {
                        Msg::Ins(i) => wire::bin(i),
                        Msg::Del(d) => wire::bin(d),
                    };
                    b.remove(0);
                    mutate(&mut b, &mut rng);
                    let x = call(Ctx::Codec, &format!("deserializing {b:?}"), || { wire::deserialize_all(&b); });
                    total(self, x)?;
                },
            }
        }
        Ok(())
    }

    fn serde_op(&mut self, pi: usize, o: &Op) -> Res<()> {
        let ctx = Ctx::Serde;
        let fmt = o.a as usize % wire::FORMATS;
        macro_rules! rt {
            ($x:expr, $what:expr) => {{
                self.stats.roundtrips += 1;
                match call(ctx, concat!("serde round trip of ", $what), || wire::round_trip($x, fmt))? {
                    Ok(y) => {
                        if y != *$x {
                            soft!(self, Kind::RoundTrip, ctx, "{} changed by a serde round trip (format {fmt}): {:?} became {:?}", $what, $x, y);
                        }
                    },
                    Err(e) => soft!(self, Kind::RoundTrip, ctx, "{} {:?} failed to deserialize (format {fmt}): {e}", $what, $x),
                }
            }};
        }
        for i in 0..4usize {
            if self.edits.is_empty() {
                break;
            }
            let n = self.edits.len();
            let e = if i % 2 == 0 { n - 1 - (o.b as usize + i) % n.min(8) } else { (o.b as usize * 31 + i * 7) % n };
            match self.edits[e].msg.clone() {
                Msg::Ins(m) => {
                    rt!(&m, "an Insertion");
                    let t = m.text().clone();
                    rt!(&t, "a Text");
                },
                Msg::Del(m) => rt!(&m, "a Deletion"),
            }
        }
        if !self.noops.is_empty() {
            match self.noops[o.b as usize % self.noops.len()].0.clone() {
                Msg::Ins(m) => rt!(&m, "an empty Insertion"),
                Msg::Del(m) => rt!(&m, "an empty Deletion"),
            }
        }
        for i in 0..3u16 {
            let pos = self.pos(pi, o.a.wrapping_mul(i + 1), o.c.wrapping_add(i));
            for bias in [AnchorBias::Left, AnchorBias::Right] {
                let r = &self.peers[pi].core.r;
                let a = call(Ctx::AnchorMake, "create_anchor", || r.create_anchor(pos * self.k, bias))?;
                rt!(&a, "an Anchor");
            }
        }
        let r = &self.peers[pi].core.r;
        let enc = call(Ctx::Codec, "encode", || r.encode())?;
        rt!(&enc, "an EncodedReplica");
        let st = EncodedReplica::from_bytes(enc.as_bytes()).to_static();
        if st != enc || EncodedReplica::from_bytes(st.as_ref()) != enc {
            soft!(self, Kind::RoundTrip, ctx, "EncodedReplica::from_bytes(as_bytes()).to_static() isn't equal to the original");
        }
        Ok(())
    }

    /// Everybody is in sync; then everybody types one left-to-right run,
    /// concurrently; then everybody syncs again: the runs must not be mixed up.
    fn epoch(&mut self, o: &Op) -> Res<()> {
        let mut rng = Rng::new(o.a as u64 | (o.b as u64) << 16 | 1 << 51);
        self.sync_all(o.c as u8, &mut rng)?;
        self.stats.epochs += 1;
        let live = self.live();
        let len = self.peers[live[0]].core.doc.len();
        let spot = ((o.a as usize) * (len + 1)) >> 16;
        // run state: (peer, last char, edits)
        struct Run {
            peer: usize,
            chars: Vec<u32>,
            left: usize,
            pos0: usize,
        }
        let mut runs: Vec<Run> = live
            .iter()
            .map(|&p| Run {
                peer: p,
                chars: vec![],
                left: 1 + rng.below(6),
                pos0: if rng.chance(3, 4) { spot } else { rng.below(len + 1) },
            })
            .collect();
        let first_edit = self.edits.len() as u32;
        while runs.iter().any(|r| r.left > 0) {
            let i = rng.below(runs.len());
            let pi = runs[i].peer;
            if runs[i].left == 0 || rng.chance(1, 4) {
                // Some of the others' typing arrives in the meantime.
                let v: Vec<u32> = (first_edit..self.edits.len() as u32)
                    .filter(|&e| self.peers[pi].status[e as usize] == 0)
                    .collect();
                if !v.is_empty() && !runs[i].chars.is_empty() {
                    let e = v[rng.below(v.len())];
                    self.deliver(pi, e)?;
                    self.drain_all(pi)?;
                }
                continue;
            }
            let pos = match runs[i].chars.last() {
                None => runs[i].pos0.min(self.peers[pi].core.doc.len()),
                Some(&c) => match self.peers[pi].core.doc.iter().position(|&x| x == c) {
                    Some(p) => p + 1,
                    None => break,
                },
            };
            let n = 1 + rng.below(4);
            let e = self.local_ins(pi, pos, n)?;
            let EK::Ins { first, n } = self.edits[e as usize].kind else { unreachable!() };
            runs[i].chars.extend(first..first + n);
            runs[i].left -= 1;
        }
        self.sync_all(o.c.wrapping_add(3) as u8, &mut rng)?;
        for pi in self.live() {
            let doc = &self.peers[pi].core.doc;
            for r in &runs {
                if r.chars.is_empty() {
                    continue;
                }
                self.stats.runs_checked += 1;
                match doc.iter().position(|&c| c == r.chars[0]) {
                    Some(at) if at + r.chars.len() <= doc.len() && doc[at..at + r.chars.len()] == r.chars[..] => {},
                    _ => {
                        soft!(self, Kind::Interleave, Ctx::Final, "peer {pi}: the {} characters typed left to right by peer {} aren't contiguous after merging", r.chars.len(), r.peer);
                    },
                }
            }
        }
        Ok(())
    }

    fn compact(&mut self, pi: usize, o: &Op) -> Res<()> {
        let k = self.k;
        let ctx = Ctx::Scratch;
        self.stats.compacts += 1;
        let mut rng = Rng::new(o.b as u64 | 1 << 52);
        let base = self.peers[pi].core.r.clone();
        let pos = self.pos(pi, o.a, o.c);
        let n = 2 + rng.below(60);
        let size = |r: &Replica| r.encode().as_bytes().len();
        let (mut one, mut many) = (base.clone(), base.clone());
        let _ = call(ctx, "inserted", || one.inserted(pos * k, n * k))?;
        let mut at = pos;
        let mut left = n;
        while left > 0 {
            let m = (1 + rng.below(3)).min(left);
            let _ = call(ctx, "inserted", || many.inserted(at * k, m * k))?;
            at += m;
            left -= m;
        }
        let tests: [(&str, &Replica, &Replica); 1] = [("at its author", &one, &many)];
        for (who, a, b) in tests {
            let (x, y) = (a.num_runs(), b.num_runs());
            if y > x {
                soft!(self, Kind::Compact, ctx, "typing {n} units one by one at {} takes {y} runs {who}, inserting them at once {x}", pos * k);
            }
            let (x, y) = (size(a), size(b));
            if y > x + 24 {
                soft!(self, Kind::Compact, ctx, "after typing {n} units one by one at {} the replica encodes to {y} bytes {who}, inserting them at once {x}", pos * k);
            }
        }
        Ok(())
    }

    // ----- whole case -------------------------------------------------------

    fn finish(&mut self) -> Res<()> {
        let how = self.cfg.fin;
        let mut rng = self.rng_fin.clone();
        for pi in self.live() {
            self.anchor_chk(pi, 64)?;
        }
        self.compare()?;
        // Old no-op edits keep having no effect.
        for i in 0..self.noops.len().min(4) {
            for q in self.live() {
                self.deliver_noop(q, i)?;
            }
        }
        self.sync_all(how, &mut rng)?;
        for pi in self.live() {
            self.anchor_chk(pi, 256)?;
        }
        // What follows happens in every case: it doesn't make one non-trivial.
        self.core_stats = self.stats.clone();
        self.core_stats.edges = self.edges.len() as u64;
        // Same state now: it must also have the same future.
        for round in 0..2 {
            for pi in self.live() {
                let len = self.peers[pi].core.doc.len();
                self.local_ins(pi, rng.below(len + 1), 1 + rng.below(3))?;
                let len = self.peers[pi].core.doc.len();
                if rng.chance(1, 2) {
                    let s = rng.below(len);
                    let e = (s + 1 + rng.below(6)).min(len);
                    self.local_del(pi, s, e)?;
                }
                if round == 1 {
                    // Sequentially.
                    for q in self.live() {
                        let order: Vec<u32> = (0..self.edits.len() as u32).collect();
                        let order: Vec<u32> = order.into_iter().filter(|&e| self.peers[q].status[e as usize] == 0).collect();
                        self.sync_peer(q, &order, 0)?;
                    }
                }
            }
            self.sync_all(how.wrapping_add(round), &mut rng)?;
        }
        // Re-delivering the recent history changes nothing.
        for pi in self.live() {
            let n = self.edits.len();
            for _ in 0..4.min(n) {
                let e = rng.below(n) as u32;
                self.deliver(pi, e)?;
            }
            self.drain_all(pi)?;
            self.check_complete(pi)?;
        }
        self.compare()?;
        for pi in self.live() {
            self.anchor_chk(pi, 32)?;
            let p = &self.peers[pi];
            let runs = p.core.r.num_runs() as u64;
            if self.wants(Kind::Invariants, Ctx::Final) {
                if let Err(f) = call(Ctx::Final, "assert_invariants", || p.core.r.assert_invariants()) {
                    soft!(self, Kind::Invariants, Ctx::Final, "peer {pi}: {}", f.msg);
                }
            }
            if let (Some(t), true) = (p.twin.as_ref(), self.mode != TwinMode::Direct && self.wants(Kind::Twin, Ctx::Final)) {
                if t.doc != p.core.doc {
                    soft!(self, Kind::Twin, Ctx::Final, "peer {pi}: its final document differs from its twin's");
                }
                if t.r.len() != p.core.r.len() {
                    soft!(self, Kind::Twin, Ctx::Final, "peer {pi}: its final length differs from its twin's");
                }
            }
            self.stats.max_runs = self.stats.max_runs.max(runs);
            self.check_storage(pi)?;
        }
        if self.wants(Kind::Order, Ctx::IntIns)
            || self.wants(Kind::Order, Ctx::IntDel)
            || self.wants(Kind::Order, Ctx::AnchorGet)
            || self.wants(Kind::Order, Ctx::AnchorGetR)
        {
            self.check_order()?;
        }
        Ok(())
    }

    fn run_ops(&mut self, ops: &[Op]) -> Res<()> {
        for o in ops {
            if self.neutral {
                let k = OpK::ALL[o.k as usize % OpK::N];
                let out = match self.prop.as_str() {
                    "C05" => k == OpK::Dup,
                    "C09" => k == OpK::Serde,
                    "C12" | "C13" => matches!(k, OpK::AnchorNew | OpK::AnchorChk),
                    "C15" => k == OpK::Misuse,
                    "C16" => k == OpK::NoOp,
                    _ => false,
                };
                if out {
                    continue;
                }
            }
            self.step(o)?;
            self.view(o.p as usize);
        }
        let res = self.finish();
        for pi in self.live() {
            self.view(pi);
        }
        res
    }

    /// Records what the user of a peer sees, leaving out text whose deletion
    /// the peer hasn't applied yet (a later one may have taken it along).
    fn view(&mut self, p: usize) {
        if self.views.is_none() || self.edits.len() > 4_000 {
            return;
        }
        let pi = self.peer_at(p);
        let p = &self.peers[pi];
        let mut gone = vec![false; self.chars.len()];
        for (e, &s) in p.status.iter().enumerate() {
            if let (EK::Del { targets, .. }, true) = (&self.edits[e].kind, s != 2) {
                targets.iter().for_each(|&c| gone[c as usize] = true);
            }
        }
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ pi as u64;
        for &c in p.core.doc.iter().filter(|&&c| !gone[c as usize]) {
            h = (h ^ c as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(29);
        }
        self.views.as_mut().unwrap().push(h);
    }

    // ----- storage ----------------------------------------------------------

    /// What a replica takes up: runs, bytes encoded, bytes of memory.
    fn footprint(&mut self, pi: usize) -> Res<(usize, usize, usize)> {
        let r = &self.peers[pi].core.r;
        let runs = r.num_runs();
        let enc = call(Ctx::Codec, "encode", || r.encode().as_bytes().len())?;
        let before = crate::mem::live();
        let c = call(Ctx::Clone, "clone", || r.clone())?;
        let heap = crate::mem::live() - before;
        drop(c);
        Ok((runs, enc, heap))
    }

    /// It must be explained by the edits the peer knows.
    fn check_storage(&mut self, pi: usize) -> Res<()> {
        if !self.wants(Kind::Storage, Ctx::Final) {
            return Ok(());
        }
        self.stats.footprints += 1;
        let (runs, enc, heap) = self.footprint(pi)?;
        let p = &self.peers[pi];
        let authors = self.authors.len();
        let (mut ins, mut del) = (0, 0);
        for (e, &s) in p.status.iter().enumerate() {
            if s != 0 {
                match self.edits[e].kind {
                    EK::Ins { .. } => ins += 1,
                    EK::Del { .. } => del += 1,
                }
            }
        }
        let most = 1 + 2 * ins + (2 + authors) * del;
        if runs > most {
            soft!(self, Kind::Storage, Ctx::Final, "peer {pi} has {runs} runs after {ins} insertions and {del} deletions of {authors} authors (at most {most} are needed)");
        }
        // Varints of at most 10 bytes, about 8 of them per run; waiting edits
        // name every author.
        let waiting = p.pending.len();
        let most = 200 + 60 * runs + 60 * authors + waiting * (60 + 20 * authors);
        if enc > most {
            soft!(self, Kind::Storage, Ctx::Final, "the encoding of peer {pi} takes up {enc} bytes with {runs} runs, {authors} authors and {waiting} waiting edits (more than {most})");
        }
        let most = 3_000 + 1_500 * runs + 900 * authors + waiting * (500 + 140 * authors);
        if heap > most {
            soft!(self, Kind::Storage, Ctx::Final, "peer {pi} takes up {heap} bytes of memory with {runs} runs, {authors} authors and {waiting} waiting edits (more than {most})");
        }
        Ok(())
    }

    /// Calls that have no effect, over and over: nothing may pile up.
    fn idle(&mut self, pi: usize, o: &Op) -> Res<()> {
        let ctx = Ctx::Final;
        let mut was = None;
        let what = o.a % 8;
        let mut rng = Rng::new(o.c as u64);
        let have: Vec<u32> = (0..self.edits.len() as u32).filter(|&e| self.peers[pi].status[e as usize] != 0).collect();
        if what == 1 || what == 7 {
            self.drain_all(pi)?;
        }
        let mut picks: Vec<u32> = (0..8).filter(|_| !have.is_empty()).map(|_| have[rng.below(have.len())]).collect();
        picks.extend(self.peers[pi].pending.iter().copied().take(8));
        // The first rounds may have an effect: they can be the first time the
        // replica hears of somebody, and an edit which waits in the backlog is
        // integrated when it's received again (or drained) once those it needs
        // are there. So count from when no more of them are.
        let mut waiting = usize::MAX;
        let mut quiet = 0;
        let mut round = 0;
        while quiet < 10 {
            // Each round integrates at least one of the picked edits, perhaps
            // without any visible effect, as long as there's one to integrate.
            if self.peers[pi].pending.len() != waiting || usize::from(round) <= picks.len() {
                waiting = self.peers[pi].pending.len();
                quiet = 0;
            } else {
                quiet += 1;
            }
            if quiet == 2 {
                was = Some(self.footprint(pi)?);
            }
            if what == 0 || what == 7 {
                for &e in &picks {
                    self.deliver(pi, e)?;
                }
            }
            if what == 1 || what == 7 {
                self.drain_all(pi)?;
            }
            if what == 2 || what == 7 {
                let mut m = *o;
                m.b = (o.b & !0xfff) | round;
                self.noop(pi, &m)?;
            }
            if what == 3 {
                let mut m = *o;
                m.b = o.b.wrapping_add(round);
                m.a = m.a.wrapping_mul(31);
                self.misuse(pi, &m)?;
            }
            if what == 4 {
                let len = self.peers[pi].core.doc.len();
                let an = call(Ctx::AnchorMake, "create_anchor", || {
                    self.peers[pi].core.r.create_anchor(rng.below(len + 1) * self.k, if round % 2 == 0 { AnchorBias::Left } else { AnchorBias::Right })
                })?;
                let _ = call(Ctx::AnchorGet, "resolve_anchor", || self.peers[pi].core.r.resolve_anchor(an))?;
            }
            if what == 5 {
                let id = 0x00C0_FFEE_u64 + self.edits.len() as u64;
                let r = &self.peers[pi].core.r;
                call(Ctx::Fork, "fork", || drop(r.fork(id)))?;
            }
            if what == 6 {
                for i in 0..self.noops.len().min(6) {
                    self.deliver_noop(pi, i)?;
                }
            }
            round += 1;
        }
        let now = self.footprint(pi)?;
        self.stats.idles += 1;
        let was = was.unwrap();
        if now.0 > was.0 || now.1 > was.1 || now.2 > was.2 + 64 {
            soft!(self, Kind::Storage, ctx, "peer {pi}: calls without any effect ({}) made it grow from {} runs, {} bytes encoded and {} bytes of memory to {}, {} and {}", ["edits received again", "drains", "empty edits", "rejected calls", "anchors", "forks", "empty edits received", "edits received again, drains and empty edits"][what as usize], was.0, was.1, was.2, now.0, now.1, now.2);
        }
        self.check_storage(pi)
    }
}

fn b_len(m: &[u8], extra: usize) -> usize {
    (10 + extra).min(m.len())
}

fn diff_count(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).filter(|(x, y)| x != y).count() + a.len().abs_diff(b.len())
}

fn splice_in(doc: &mut Vec<u32>, at: usize, first: u32, n: usize) {
    doc.splice(at..at, first..first + n as u32);
}

fn remove_chars(doc: &mut Vec<u32>, s: &[u32]) {
    if s.is_empty() {
        return;
    }
    let max = *doc.iter().chain(s).max().unwrap() as usize;
    let set = Bits::from_doc(s, max + 1);
    doc.retain(|&c| !set.get(c));
}

fn note_edges(edges: &mut Vec<(u32, u32, Ctx)>, doc: &[u32], at: usize, n: usize, ctx: Ctx) {
    if at > 0 {
        edges.push((doc[at - 1], doc[at], ctx));
    }
    if at + n < doc.len() {
        edges.push((doc[at + n - 1], doc[at + n], ctx));
    }
}

fn mutate(p: &mut Vec<u8>, rng: &mut Rng) {
    for _ in 0..1 + rng.below(3) {
        if p.is_empty() {
            p.push(rng.u64() as u8);
            continue;
        }
        let i = if rng.chance(1, 3) { rng.below(p.len().min(12)) } else { rng.below(p.len()) };
        match rng.below(8) {
            0 => p[i] ^= 1 << rng.below(8),
            1 => p[i] = rng.u64() as u8,
            2 => p[i] = [0, 1, 2, 31, 32, 33, 0x7f, 0xff][rng.below(8)],
            3 => p.truncate(i),
            4 => {
                // A huge number.
                let mut b = vec![];
                let v = [u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, (1 << 62) + 5, rng.u64() >> rng.below(60)][rng.below(6)];
                wire::leb(v, &mut b);
                let j = (i + 1).min(p.len());
                p.splice(i..j, b);
            },
            5 => {
                let j = (i + 1 + rng.below(6)).min(p.len());
                p.drain(i..j);
            },
            6 => {
                let j = (i + 1 + rng.below(6)).min(p.len());
                let b = p[i..j].to_vec();
                p.splice(i..i, b);
            },
            _ => p.insert(i, [0, 1, 0x80, 0xff][rng.below(4)]),
        }
    }
}

pub struct Outcome {
    pub fail: Option<Fail>,
    pub stats: Stats,
    /// Statistics of the generated part of the history only.
    pub core: Stats,
}

/// Runs a case from scratch. A pure function of the case and the code.
/// Runs a case. If it was cut short by a failure that says nothing about the
/// property by itself (somebody's panic, say), the history is run once more
/// with what the property is about taken out of it: duplicates not delivered,
/// no-op or rejected calls not made, replicas forked instead of decoded and so
/// on. If that run is flawless the property is to blame.
pub fn run_case(case: &Case) -> Outcome {
    let mut out = run_once(case, false);
    let prop = case.property.as_str();
    let Some(f) = &out.fail else { return out };
    if accepts(prop, f.kind, f.ctx) {
        return out;
    }
    let (what, reference) = match prop {
        "C05" => ("re-deliveries", None),
        "C06" => ("out-of-order delivery", None),
        "C07" => ("encoding and decoding", None),
        "C08" => ("forks and clones", None),
        "C09" => ("serialization", None),
        "C12" | "C13" => ("anchors", None),
        "C15" => ("rejected calls", None),
        "C16" => ("no-op edits", None),
        "C22" if case.cfg.ids != 0 => {
            let mut c = case.clone();
            c.cfg.ids = 0;
            ("these ids", Some(c))
        },
        "C20" if case.cfg.scale != 0 => {
            let mut c = case.clone();
            c.cfg.scale = 0;
            ("multiplying every length", Some(c))
        },
        _ => return out,
    };
    let again = match &reference {
        Some(c) => run_once(c, false),
        None => run_once(case, true),
    };
    if again.fail.is_none() {
        let f = f.clone();
        out.fail = Some(Fail {
            kind: Kind::Caused,
            ctx: f.ctx,
            msg: format!("without {what} the same history goes well, but with it: {:?}/{:?}: {}", f.kind, f.ctx, f.msg),
        });
    }
    out
}

/// The same history among replicas with other ids, in the same order.
fn other_ids(case: &Case, w: &mut World) -> Option<Fail> {
    let mut rng = Rng::new(case.cfg.id_seed ^ 0x1d5);
    let n = w.ids_used.len();
    let mut pool: Vec<ReplicaId> = match rng.below(5) {
        0 => (1..=n as u64).collect(),
        1 => (0..n as u64).map(|i| u64::MAX - i).collect(),
        2 => (0..n as u64).map(|i| (i + 1) << 57 | i << 32 | 5).collect(),
        3 => (0..n as u64).map(|i| 120 + i * (1 + case.cfg.id_seed % 9000)).collect(),
        _ => (0..n).map(|_| rng.u64() | 1).collect(),
    };
    pool.sort_unstable();
    pool.dedup();
    if pool.len() < n {
        return None;
    }
    let mut sorted = w.ids_used.clone();
    sorted.sort_unstable();
    let table = w.ids_used.iter().map(|id| pool[sorted.binary_search(id).unwrap()]).collect();
    let bad = |msg: String| Some(Fail { kind: Kind::Ids, ctx: Ctx::Final, msg });
    let mut v = match World::with_ids(&case.property, &case.cfg, w.k, table) {
        Ok(v) => v,
        Err(f) => return bad(format!("with other ids in the same order, creating the replicas fails: {}", f.msg)),
    };
    v.views = Some(vec![]);
    if let Err(f) = v.run_ops(&case.ops) {
        return bad(format!("with the ids {:?} instead of {:?} (same order) the history fails: {:?}: {}", v.id_table, w.ids_used, f.kind, f.msg));
    }
    let (a, b) = (w.views.take().unwrap(), v.views.unwrap());
    w.stats.views += a.len() as u64;
    if a != b {
        let at = a.iter().zip(&b).position(|(x, y)| x != y);
        return bad(format!("with the ids {:?} instead of {:?} (same order) some peer ends up with another document (first seen at view {at:?} of {})", v.id_table, w.ids_used, a.len()));
    }
    None
}

fn run_once(case: &Case, neutral: bool) -> Outcome {
    let prop = &case.property;
    if prop == "C23" {
        return crate::cost::run(case);
    }
    if prop == "C24" {
        return crate::compat::run(case);
    }
    let r = World::new(prop, &case.cfg);
    let mut w = match r {
        Ok(w) => w,
        Err(f) => return Outcome { fail: Some(f), stats: Stats::default(), core: Stats::default() },
    };
    w.neutral = neutral;
    if neutral && prop == "C09" {
        w.cfg.transport = 0;
    }
    w.record = prop == "C20";
    if prop == "C22" {
        w.views = Some(vec![]);
    }
    let res = w.run_ops(&case.ops);
    let mut fail = res.err();
    if prop == "C22" && fail.is_none() {
        fail = other_ids(case, &mut w);
    }
    if prop == "C20" && fail.is_none() && w.k != 1 {
        // The same history with one unit of text being one unit long.
        match World::with_scale(prop, &case.cfg, 1) {
            Ok(mut v) => {
                v.record = true;
                let res = v.run_ops(&case.ops);
                match res {
                    Ok(()) => {
                        if v.trace != w.trace {
                            let at = v.trace.iter().zip(&w.trace).position(|(a, b)| a != b);
                            fail = Some(Fail {
                                kind: Kind::Scale,
                                ctx: Ctx::Final,
                                msg: format!(
                                    "with every length multiplied by {} the outputs of the session aren't multiplied by it too (first difference at output {at:?} of {})",
                                    w.k,
                                    w.trace.len()
                                ),
                            });
                        }
                    },
                    Err(f) => {
                        fail = Some(Fail {
                            kind: if f.kind == Kind::Panic { Kind::Panic } else { Kind::Scale },
                            ctx: f.ctx,
                            msg: f.msg,
                        })
                    },
                }
            },
            Err(f) => fail = Some(f),
        }
    }
    Outcome { fail, stats: w.stats, core: w.core_stats }
}
