//! C23: what an edit costs doesn't grow with the document.
//!
//! The same recipe is carried out twice, the second time with [`GROWTH`] times
//! as many edits, and the work of the same kind of calls is compared at the
//! end. Work isn't measured in time: this build counts how often every region
//! of the code is executed (`-C instrument-coverage`), so that the answer is a
//! pure function of the case and the code.

use crate::case::Case;
use crate::kinds::{Ctx, Fail, Kind};
use crate::mem;
use crate::rng::Rng;
use crate::world::{Outcome, Stats};
use cola::{Anchor, AnchorBias, Deletion, EncodedReplica, Insertion, Replica};

const SMALL: usize = 300;
const GROWTH: usize = 32;
const PROBES: usize = 64;
const WAITING: usize = 40;

#[cfg(feature = "work")]
mod counters {
    extern "C" {
        fn __llvm_profile_begin_counters() -> *const u64;
        fn __llvm_profile_end_counters() -> *const u64;
    }
    pub const ON: bool = true;
    /// Sum of all the execution counters.
    #[inline(never)]
    pub fn read() -> u64 {
        // SAFETY: the counters are a static array of the instrumented program.
        unsafe {
            let b = __llvm_profile_begin_counters();
            let n = (__llvm_profile_end_counters() as usize - b as usize) / 8;
            let mut s = 0u64;
            for i in 0..n {
                s = s.wrapping_add(std::ptr::read_volatile(b.add(i)));
            }
            s
        }
    }
}

#[cfg(not(feature = "work"))]
mod counters {
    pub const ON: bool = false;
    pub fn read() -> u64 {
        0
    }
}

#[derive(Clone)]
enum Ed {
    I(Insertion),
    D(Deletion),
}

struct Doc {
    r: Vec<Replica>,
    queue: Vec<Vec<Ed>>,
    cursor: usize,
    k: usize,
    old: Vec<Ed>,
    made: usize,
}

impl Doc {
    fn len(&self, i: usize) -> usize {
        self.r[i].len() / self.k
    }
    fn send(&mut self, i: usize, e: Ed, rng: &mut Rng) {
        self.made += 1;
        if self.old.len() < 200 {
            self.old.push(e.clone());
        } else {
            let at = rng.below(self.made);
            if at < 200 {
                self.old[at] = e.clone();
            }
        }
        for j in 0..self.r.len() {
            if j != i {
                self.queue[j].push(e.clone());
            }
        }
    }
    fn ins(&mut self, i: usize, at: usize, n: usize, rng: &mut Rng) {
        let e = self.r[i].inserted(at * self.k, n * self.k);
        self.cursor = at + n;
        self.send(i, Ed::I(e), rng);
    }
    fn del(&mut self, i: usize, from: usize, n: usize, rng: &mut Rng) {
        let e = self.r[i].deleted(from * self.k..(from + n) * self.k);
        self.cursor = from;
        self.send(i, Ed::D(e), rng);
    }
    fn sync(&mut self) {
        for j in 0..self.r.len() {
            for e in std::mem::take(&mut self.queue[j]) {
                deliver(&mut self.r[j], &e);
            }
        }
    }
}

fn deliver(r: &mut Replica, e: &Ed) {
    match e {
        Ed::I(i) => drop(r.integrate_insertion(i)),
        Ed::D(d) => drop(r.integrate_deletion(d)),
    }
}

/// Carries out the recipe with about `n` edits.
fn build(case: &Case, n: usize) -> Doc {
    let c = &case.cfg;
    let k = crate::case::SCALES[c.scale as usize % crate::case::SCALES.len()].min(1 << 20);
    let peers = 2 + c.start_peers as usize % 3;
    let id = |i: usize| match c.ids % 3 {
        0 => i as u64 + 1,
        1 => (c.id_seed | 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(i as u64) | 1 << 40,
        _ => u64::MAX - i as u64,
    };
    let mut next_id = peers;
    let first = Replica::new(id(0), (c.init_len as usize % 64 + 16) * k);
    let mut d = Doc { r: vec![first], queue: vec![vec![]; peers], cursor: 0, k, old: vec![], made: 0 };
    for i in 1..peers {
        let f = d.r[0].fork(id(i));
        d.r.push(f);
    }
    let phases = &case.ops[..];
    let total: usize = phases.iter().map(|o| 1 + o.a as usize % 8).sum();
    for o in phases {
        let mut rng = Rng::new(o.c as u64 ^ (c.id_seed << 16));
        let edits = n * (1 + o.a as usize % 8) / total.max(1);
        let batch = [1, 1, 4, 16, 64][o.b as usize % 5];
        let solo = (o.b >> 3) as usize % (peers + 2);
        let what = o.p % 10;
        let stop = d.made + edits;
        if what == 4 {
            // A long insertion that the rest of the phase cuts to pieces.
            let at = rng.below(d.len(0) + 1);
            d.ins(0, at, edits * 4 + 16, &mut rng);
            d.sync();
        }
        let (lo, span) = (rng.below(d.len(0) + 1), edits * 4 + 16);
        while d.made < stop {
            let i = if solo < peers { solo } else { rng.below(peers) };
            let len = d.len(i);
            match what {
                0 => {
                    let n = 1 + rng.below(8);
                    d.ins(i, rng.below(len + 1), n, &mut rng);
                },
                1 => {
                    // Typing, with jumps.
                    let mut at = rng.below(len + 1);
                    for _ in 0..1 + rng.below(12) {
                        d.ins(i, at, 1, &mut rng);
                        at += 1;
                    }
                },
                2 | 3 => {
                    // Mostly deletions.
                    if len < 24 || rng.below(8) == 0 {
                        d.ins(i, rng.below(len + 1), 24, &mut rng);
                    } else {
                        let n = 1 + rng.below(6);
                        d.del(i, rng.below(len - n + 1), n, &mut rng);
                    }
                },
                4 => {
                    let lo = lo.min(len);
                    let at = lo + rng.below(span.min(len - lo) + 1);
                    d.ins(i, at, 1, &mut rng);
                },
                5 => {
                    let at = if o.b & 4 == 0 { 0 } else { len };
                    let n = 1 + rng.below(3);
                    d.ins(i, at, n, &mut rng);
                },
                6 => {
                    // Typing and taking back.
                    let mut at = rng.below(len + 1);
                    let n = 1 + rng.below(6);
                    for _ in 0..n {
                        d.ins(i, at, 1, &mut rng);
                        at += 1;
                    }
                    for _ in 0..n {
                        at -= 1;
                        d.del(i, at, 1, &mut rng);
                    }
                },
                7 => {
                    // A heap of tombstones in one place.
                    let at = lo.min(len);
                    d.ins(i, at, 1 + (o.c % 3) as usize, &mut rng);
                    d.del(i, at, 1, &mut rng);
                },
                8 => {
                    // Insertions near the last one.
                    let at = d.cursor.min(len).saturating_sub(rng.below(3));
                    d.ins(i, at, 2, &mut rng);
                },
                _ => {
                    let n = 1 + rng.below(4);
                    if len > 64 && rng.chance(1, 3) {
                        d.del(i, rng.below(len - n + 1), n, &mut rng);
                    } else {
                        d.ins(i, rng.below(len + 1), n, &mut rng);
                    }
                },
            }
            if d.made % batch == 0 {
                d.sync();
            }
        }
        d.sync();
        if o.p & 0x80 != 0 {
            // Somebody goes on from a snapshot under another id.
            let who = rng.below(peers);
            let e = d.r[who].encode();
            let r = Replica::decode(id(next_id), &e).expect("a valid encoding is decoded");
            next_id += 1;
            d.r[who] = r;
        }
    }
    d
}

struct Meter {
    zero: u64,
    got: Vec<(&'static str, Vec<(u64, usize)>)>,
}

impl Meter {
    fn one<T>(&mut self, name: &'static str, f: impl FnOnce() -> T) -> T {
        let m = mem::total();
        let a = counters::read();
        let x = f();
        let w = counters::read().wrapping_sub(a).wrapping_sub(self.zero);
        let m = mem::total() - m;
        match self.got.iter_mut().find(|x| x.0 == name) {
            Some(x) => x.1.push((w, m)),
            None => self.got.push((name, vec![(w, m)])),
        }
        x
    }
    /// The last call did `n` things.
    fn last_per(&mut self, n: usize) {
        if let Some(x) = self.got.last_mut().and_then(|x| x.1.last_mut()) {
            *x = (x.0 / n.max(1) as u64, x.1 / n.max(1));
        }
    }
}

fn probe(case: &Case, d: &mut Doc, waiting: usize, stats: &mut Stats) -> Vec<(&'static str, Vec<(u64, usize)>)> {
    let mut m = Meter { zero: 0, got: vec![] };
    for _ in 0..3 {
        m.one("nothing", || {});
    }
    m.zero = m.got[0].1[2].0;
    m.got.clear();
    let mut rng = Rng::new(case.cfg.fin_seed);
    let peers = d.r.len();
    let k = d.k;
    let a = rng.below(peers);
    let b = (a + 1) % peers;
    let mut made: Vec<Ed> = vec![];
    macro_rules! rest {
        () => {
            for e in made.drain(..) {
                for j in 0..peers {
                    if j != a && j != b {
                        deliver(&mut d.r[j], &e);
                    }
                }
            }
        };
    }
    for _ in 0..PROBES {
        let at = rng.below(d.len(a) + 1);
        let n = 1 + rng.below(4);
        let i = m.one("an insertion", || d.r[a].inserted(at * k, n * k));
        m.one("integrating an insertion", || d.r[b].integrate_insertion(&i));
        made.push(Ed::I(i));
    }
    let mut at = 0;
    for x in 0..PROBES {
        if x % 8 == 0 {
            at = rng.below(d.len(a) + 1);
        }
        let i = m.one("typing", || d.r[a].inserted(at * k, k));
        m.one("integrating what is typed", || d.r[b].integrate_insertion(&i));
        at += 1;
        made.push(Ed::I(i));
    }
    for _ in 0..PROBES {
        let at = rng.below(d.len(a));
        let x = m.one("a deletion", || d.r[a].deleted(at * k..(at + 1) * k));
        m.one("integrating a deletion", || d.r[b].integrate_deletion(&x));
        made.push(Ed::D(x));
    }
    for _ in 0..PROBES {
        let at = 1 + rng.below(d.len(a));
        let x: Anchor = m.one("creating an anchor", || d.r[a].create_anchor(at * k, AnchorBias::Left));
        m.one("resolving an anchor", || d.r[a].resolve_anchor(x));
        m.one("resolving someone's anchor", || d.r[b].resolve_anchor(x));
    }
    for _ in 0..PROBES {
        let e = d.old[rng.below(d.old.len())].clone();
        match &e {
            Ed::I(i) => drop(m.one("an insertion received again", || d.r[b].integrate_insertion(i))),
            Ed::D(x) => drop(m.one("a deletion received again", || d.r[b].integrate_deletion(x))),
        }
        m.one("len", || d.r[b].len());
        m.one("draining empty backlogs", || {
            d.r[b].backlogged_insertions().count() + d.r[b].backlogged_deletions().count()
        });
    }
    rest!();
    // Out of order, then drained: also the number of waiting edits grows.
    let mut late: Vec<Ed> = vec![];
    for x in 0..waiting {
        let len = d.len(a);
        late.push(if x % 3 == 2 {
            let at = rng.below(len);
            Ed::D(d.r[a].deleted(at * k..(at + 1) * k))
        } else {
            Ed::I(d.r[a].inserted(rng.below(len + 1) * k, k))
        });
    }
    let first = late.remove(0);
    rng.shuffle(&mut late);
    late.push(first);
    for (x, e) in late.iter().enumerate() {
        if x + 30 < waiting {
            deliver(&mut d.r[b], e);
        } else if x + 1 == waiting {
            deliver(&mut d.r[b], e);
        } else {
            match e {
                Ed::I(i) => drop(m.one("an insertion that must wait", || d.r[b].integrate_insertion(i))),
                Ed::D(x) => drop(m.one("a deletion that must wait", || d.r[b].integrate_deletion(x))),
            }
        }
    }
    let n = m.one("draining backlogged insertions", || d.r[b].backlogged_insertions().count());
    m.last_per(n);
    let n = m.one("draining backlogged deletions", || d.r[b].backlogged_deletions().count());
    m.last_per(n);
    // Things that may take time proportional to the document.
    let runs = d.r[a].num_runs() as u64 + 20;
    stats.max_runs = stats.max_runs.max(runs);
    let mut linear = Meter { zero: m.zero, got: vec![] };
    let f = linear.one("forking, per run", || d.r[a].fork(u64::MAX / 3));
    drop(f);
    let e = linear.one("encoding, per run", || d.r[a].encode());
    let bytes = e.as_bytes().to_vec();
    let x = linear.one("decoding, per run", || Replica::decode(u64::MAX / 5, &EncodedReplica::from_bytes(&bytes)).is_ok());
    assert!(x, "a valid encoding is decoded");
    for (n, v) in linear.got {
        m.got.push((n, v.into_iter().map(|(w, b)| (w / runs, b / runs as usize)).collect()));
    }
    m.got
}

pub fn run(case: &Case) -> Outcome {
    assert!(counters::ON, "C23 needs the build that counts work");
    let mut stats = Stats::default();
    let mut fail = None;
    let res = crate::world::call(Ctx::Final, "a session", || {
        let mut s = build(case, SMALL);
        let mut l = build(case, SMALL * GROWTH);
        stats.edits = l.made as u64;
        stats.max_doc = l.len(0) as u64;
        let small = probe(case, &mut s, WAITING, &mut stats);
        stats.max_runs = 0;
        let large = probe(case, &mut l, WAITING * GROWTH, &mut stats);
        (small, large)
    });
    let (small, large) = match res {
        Ok(x) => x,
        Err(f) => return Outcome { fail: Some(f), core: stats.clone(), stats },
    };
    for (name, s) in &small {
        let Some((_, l)) = large.iter().find(|x| x.0 == *name) else { continue };
        stats.costs += l.len() as u64;
        let mean = |v: &[(u64, usize)]| v.iter().map(|x| x.0).sum::<u64>() / v.len() as u64;
        let median = |v: &[(u64, usize)]| {
            let mut b: Vec<usize> = v.iter().map(|x| x.1).collect();
            b.sort_unstable();
            b[b.len() / 2]
        };
        let (ws, wl) = (mean(s), mean(l));
        let (ms, ml) = (median(s), median(l));
        if crate::world::VERBOSE.with(|v| v.get()) {
            println!("{name}: work {ws} -> {wl}, bytes allocated {ms} -> {ml} ({} calls)", l.len());
        }
        // A single call may be the one for which a vector doubles.
        let ml = if name.starts_with("draining backlogged") || s.len() == 1 && !name.ends_with("per run") { 0 } else { ml };
        let most = if name.ends_with("per run") { (3 * ws + 100, 3 * ms + 4000) } else { (2 * ws.max(200) + 150, 2 * ms + 500) };
        if fail.is_none() && (wl > most.0 || ml > most.1) {
            fail = Some(Fail {
                kind: Kind::Cost,
                ctx: Ctx::Final,
                msg: format!(
                    "{name} takes {wl} steps and allocates {ml} bytes after {} edits, but {ws} steps and {ms} bytes after {} edits of the same kind",
                    stats.edits,
                    stats.edits / GROWTH as u64
                ),
            });
        }
    }
    Outcome { fail, core: stats.clone(), stats }
}
