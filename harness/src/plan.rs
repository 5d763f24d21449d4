//! What is generated for which property: history families, how many cases,
//! and when a case counts as non-trivial.

use crate::case::{OpK, Profile};
use crate::world::Stats;
use OpK::*;

const S1: &[u8] = &[0];
const SALL: &[u8] = &[0, 0, 0, 0, 1, 3, 4, 5, 6, 7];
const SBIG: &[u8] = &[1, 2, 3, 4, 5, 6, 7];
const T0: &[u8] = &[0];
const TMIX: &[u8] = &[0, 0, 0, 0, 0, 1, 2, 3];
const TALL: &[u8] = &[1, 2, 3];

fn core() -> Vec<(OpK, u32)> {
    vec![
        (Ins, 26),
        (Type, 6),
        (Back, 4),
        (DelFwd, 4),
        (Del, 18),
        (Deliver, 34),
        (DeliverN, 8),
        (SyncPair, 6),
        (SyncAll, 2),
        (Dup, 3),
        (DrainIns, 4),
        (DrainDel, 4),
        (Fork, 1),
        (Join, 1),
        (SnapTake, 1),
        (SnapJoin, 1),
        (Compare, 2),
        (Chaos, 3),
    ]
}

fn with(mut w: Vec<(OpK, u32)>, extra: &[(OpK, u32)]) -> Vec<(OpK, u32)> {
    for &(k, x) in extra {
        w.retain(|e| e.0 != k);
        if x > 0 {
            w.push((k, x));
        }
    }
    w
}

struct Shape {
    name: &'static str,
    ops: (usize, usize),
    init: (usize, usize),
    start: (usize, usize),
    max: (usize, usize),
    w: Vec<(OpK, u32)>,
}

fn shapes() -> Vec<Shape> {
    vec![
        // A few peers, short histories: every kind of small conflict.
        Shape { name: "small", ops: (3, 36), init: (0, 24), start: (1, 3), max: (2, 4), w: core() },
        Shape { name: "medium", ops: (60, 300), init: (0, 200), start: (2, 4), max: (3, 6), w: core() },
        // Long offline periods, merged at the end in the order `fin` says.
        Shape {
            name: "partition",
            ops: (20, 160),
            init: (0, 60),
            start: (2, 4),
            max: (3, 5),
            w: with(core(), &[(Deliver, 3), (DeliverN, 1), (SyncPair, 1), (SyncAll, 0)]),
        },
        // Many concurrent insertions at the same few places.
        Shape {
            name: "samespot",
            ops: (4, 40),
            init: (0, 3),
            start: (2, 6),
            max: (6, 8),
            w: vec![
                (Chaos, 20),
                (Ins, 14),
                (Type, 3),
                (Del, 6),
                (Deliver, 20),
                (DeliverN, 6),
                (SyncPair, 3),
                (Compare, 2),
                (DrainIns, 3),
                (DrainDel, 3),
            ],
        },
        // One long insertion cut into hundreds of fragments by everybody.
        Shape {
            name: "fragments",
            ops: (120, 500),
            init: (150, 3000),
            start: (2, 3),
            max: (3, 4),
            w: with(core(), &[(Ins, 40), (Del, 40), (Back, 2), (DelFwd, 2), (Type, 1), (Deliver, 60)]),
        },
        // Out-of-order delivery with a deep backlog.
        Shape {
            name: "backlog",
            ops: (30, 200),
            init: (0, 40),
            start: (2, 4),
            max: (3, 5),
            w: with(
                core(),
                &[(Deliver, 60), (DeliverN, 12), (Dup, 4), (DrainIns, 6), (DrainDel, 6), (SyncAll, 0), (SyncPair, 2), (Fork, 2), (Join, 2)],
            ),
        },
    ]
}

/// A little of everything the API offers, in one history.
fn mixed() -> Shape {
    Shape {
        name: "mixed",
        ops: (8, 70),
        init: (0, 40),
        start: (1, 3),
        max: (3, 6),
        w: with(
            core(),
            &[
                (Dup, 6),
                (Fork, 3),
                (Join, 3),
                (SnapTake, 3),
                (SnapJoin, 3),
                (Reload, 2),
                (Scratch, 2),
                (AnchorNew, 5),
                (AnchorChk, 3),
                (NoOp, 4),
                (Misuse, 4),
                (Serde, 1),
                (SyncAll, 1),
            ],
        ),
    }
}

/// Everybody comes and goes, by every route, with edits still waiting in the
/// backlogs and with snapshots that are out of date.
fn rejoin() -> Shape {
    Shape {
        name: "rejoin",
        ops: (10, 90),
        init: (0, 30),
        start: (2, 4),
        max: (4, 8),
        w: with(
            core(),
            &[
                (Ins, 20),
                (Del, 14),
                (Deliver, 24),
                (DrainIns, 3),
                (DrainDel, 3),
                (SyncAll, 0),
                (SyncPair, 2),
                (Fork, 7),
                (Join, 7),
                (SnapTake, 6),
                (SnapJoin, 6),
                (Reload, 4),
                (Scratch, 2),
                (AnchorNew, 4),
                (AnchorChk, 4),
            ],
        ),
    }
}

/// Thousands of edits: run trees with three levels.
fn big() -> Shape {
    Shape {
        name: "big",
        ops: (2200, 3600),
        init: (0, 6000),
        start: (2, 2),
        max: (2, 3),
        w: vec![(Ins, 60), (Del, 34), (Type, 2), (Deliver, 30), (DeliverN, 20), (SyncPair, 1), (DrainIns, 1), (DrainDel, 1), (Join, 1)],
    }
}

/// Many participants at once.
fn crowd() -> Shape {
    Shape {
        name: "crowd",
        ops: (40, 200),
        init: (0, 20),
        start: (8, 20),
        max: (16, 40),
        w: with(core(), &[(Ins, 30), (Deliver, 30), (DeliverN, 24), (Fork, 5), (Join, 5), (SyncAll, 0), (SyncPair, 2)]),
    }
}

/// One peer makes more edits than fit in 8, 14 or 16 bits, then the session
/// goes on (see [`Profile::gen`]).
fn marathon() -> Shape {
    Shape {
        name: "marathon",
        ops: (8, 40),
        init: (0, 10),
        start: (1, 3),
        max: (2, 4),
        w: with(
            core(),
            &[
                (Chaos, 10),
                (SyncAll, 5),
                (SyncPair, 8),
                (Join, 4),
                (Fork, 3),
                (SnapTake, 2),
                (SnapJoin, 2),
                (Reload, 4),
            ],
        ),
    }
}

/// One case in this many is a marathon.
pub fn marathon_every(p: &Plan) -> u64 {
    (p.quick as u64 / 80).max(2)
}

fn scaled(w: Vec<(OpK, u32)>, k: OpK, frac: u32) -> Vec<(OpK, u32)> {
    let tot: u32 = w.iter().map(|x| x.1).sum();
    with(w, &[(k, (tot * frac / 100).max(1))])
}

pub struct Plan {
    pub profiles: Vec<Profile>,
    pub quick: usize,
    pub thorough: usize,
}

/// (shares of small, medium, partition, samespot, fragments, backlog, big)
fn build(
    shares: [u32; 7],
    extra: &[(OpK, u32)],
    scales: &'static [u8],
    transports: &'static [u8],
    f: impl Fn(&mut Shape),
) -> Vec<Profile> {
    let mut v = shapes();
    v.push(big());
    v.push(mixed());
    v.push(rejoin());
    v.push(crowd());
    v.push(marathon());
    let tot: u32 = shares.iter().sum();
    // The marathons are scheduled (see `marathon_every`).
    let shares = shares.into_iter().chain([tot / 6, tot / 8, tot / 40, 0]);
    v.into_iter()
        .zip(shares)
        .filter(|x| x.1 > 0 || x.0.name == "marathon")
        .map(|(mut s, share)| {
            for &(k, pct) in extra {
                // In the big histories expensive extras stay rare.
                let pct = if s.name == "big" { 0 } else { pct };
                s.w = if pct == 0 { with(s.w, &[(k, if s.name == "big" { 1 } else { 0 })]) } else { scaled(s.w, k, pct) };
            }
            f(&mut s);
            Profile {
                name: s.name,
                share,
                ops: s.ops,
                init: s.init,
                start_peers: s.start,
                max_peers: s.max,
                scales,
                transports,
                w: s.w,
            }
        })
        .collect()
}

pub fn plan(prop: &str) -> Plan {
    let none = |_: &mut Shape| {};
    let (profiles, quick) = match prop {
        "C01" => (build([900, 90, 130, 260, 20, 90, 2], &[], SALL, TMIX, none), 220_000),
        "C02" => (build([900, 110, 100, 160, 40, 90, 2], &[], SALL, TMIX, none), 220_000),
        "C03" => (build([900, 90, 130, 300, 30, 60, 2], &[], SALL, T0, none), 220_000),
        "C04" => (build([900, 100, 130, 100, 60, 90, 2], &[(Del, 22)], SALL, TMIX, none), 180_000),
        "C05" => (build([900, 90, 60, 100, 20, 160, 1], &[(Dup, 22)], SALL, T0, none), 220_000),
        "C06" => (build([700, 60, 40, 60, 10, 400, 1], &[(DrainIns, 5), (DrainDel, 5)], SALL, T0, none), 180_000),
        "C07" => (
            build([600, 90, 60, 100, 40, 160, 1], &[(Join, 5), (Reload, 3), (SnapTake, 4), (SnapJoin, 4), (AnchorNew, 3), (AnchorChk, 3)], SALL, TMIX, none),
            140_000,
        ),
        "C08" => (
            build([600, 90, 60, 100, 40, 160, 1], &[(Fork, 5), (Scratch, 9), (AnchorNew, 3), (AnchorChk, 3)], SALL, T0, none),
            110_000,
        ),
        "C09" => (build([600, 60, 60, 40, 10, 60, 0], &[(Serde, 22), (NoOp, 3), (Join, 3), (AnchorNew, 3)], SALL, TALL, none), 200_000),
        "C10" => (build([600, 40, 60, 40, 10, 60, 0], &[(Corrupt, 14)], SALL, T0, none), 240_000),
        "C11" => (build([600, 40, 60, 40, 20, 80, 0], &[(Garbage, 14)], SALL, T0, none), 70_000),
        "C12" => (build([900, 110, 60, 100, 40, 60, 1], &[(AnchorNew, 14), (AnchorChk, 12)], SALL, T0, none), 240_000),
        "C13" => (build([900, 90, 90, 160, 30, 100, 1], &[(AnchorNew, 12), (AnchorChk, 12), (Compare, 6)], SALL, TMIX, none), 240_000),
        "C14" => (build([900, 90, 60, 60, 20, 120, 1], &[(Join, 4), (Fork, 3), (Reload, 3), (SnapTake, 2), (SnapJoin, 2), (Misuse, 4), (NoOp, 3)], SALL, TMIX, none), 220_000),
        "C15" => (build([900, 60, 60, 60, 20, 60, 0], &[(Misuse, 16)], SALL, T0, none), 220_000),
        "C16" => (build([900, 60, 60, 60, 20, 60, 0], &[(NoOp, 16)], SALL, TMIX, none), 240_000),
        "C17" => (
            build([500, 60, 0, 0, 10, 60, 0], &[(Epoch, 12)], SALL, T0, |s| {
                s.start = (2, 5);
                s.max = (3, 6);
            }),
            180_000,
        ),
        "C18" => (
            build([400, 60, 60, 160, 20, 30, 1], &[(Fork, 4), (Join, 4), (Reload, 4)], SALL, T0, |s| {
                s.start = (s.start.0, s.start.1 + 6);
                s.max = (s.max.0, s.max.1 + 12);
            }),
            60_000,
        ),
        "C19" => (build([600, 90, 40, 60, 20, 60, 1], &[(Compact, 12)], SALL, T0, none), 200_000),
        "C20" => (build([900, 90, 90, 90, 30, 90, 1], &[(AnchorNew, 5), (AnchorChk, 5)], SBIG, T0, none), 130_000),
        "C21" => (
            build([900, 90, 60, 90, 30, 160, 1], &[(Idle, 8), (Compare, 8), (Dup, 5), (NoOp, 3), (Misuse, 2), (Reload, 2)], SALL, TMIX, none),
            110_000,
        ),
        "C22" => (build([900, 110, 130, 260, 30, 90, 1], &[(AnchorNew, 3), (AnchorChk, 3)], SALL, T0, none), 110_000),
        "C24" => (
            build(
                [900, 90, 90, 200, 30, 120, 0],
                &[(Join, 4), (Fork, 2), (Reload, 4), (SnapTake, 4), (SnapJoin, 4), (AnchorNew, 4), (Compare, 6)],
                SALL,
                TMIX,
                |s| {
                    s.start.0 = s.start.0.max(2);
                    s.start.1 = s.start.1.max(2);
                },
            ),
            150_000,
        ),
        "C23" => (
            vec![Profile {
                name: "growth",
                share: 1,
                ops: (1, 6),
                init: (0, 60),
                start_peers: (1, 3),
                max_peers: (2, 4),
                scales: SALL,
                transports: T0,
                w: vec![(Phase, 1)],
            }],
            500,
        ),
        _ => (
            build(
                [900, 90, 90, 90, 30, 90, 1],
                &[
                    (AnchorNew, 4),
                    (AnchorChk, 4),
                    (Serde, 1),
                    (Corrupt, 1),
                    (Garbage, 1),
                    (NoOp, 3),
                    (Misuse, 3),
                    (Epoch, 1),
                    (Compact, 2),
                    (Scratch, 2),
                    (Reload, 1),
                ],
                SALL,
                TMIX,
                none,
            ),
            30_000,
        ),
    };
    let _ = S1;
    Plan { profiles, quick, thorough: quick * 20 }
}

/// Which operation a byte of fuzzer input stands for: the same mix as in the
/// generated histories.
pub fn byte_kinds(prop: &str) -> [u8; 256] {
    let mut w = vec![0f64; OpK::N];
    for p in plan(prop).profiles.iter().filter(|p| p.name != "big" && p.share > 0) {
        let tot: u32 = p.w.iter().map(|x| x.1).sum();
        for &(k, x) in &p.w {
            w[k as usize] += p.share as f64 * x as f64 / tot as f64;
        }
    }
    let tot: f64 = w.iter().sum();
    let mut t = [Ins as u8; 256];
    let mut at = 0;
    for (k, x) in w.iter().enumerate() {
        if *x > 0.0 {
            let n = ((x / tot * 250.0) as usize).max(1);
            for _ in 0..n {
                if at < 256 {
                    t[at] = k as u8;
                    at += 1;
                }
            }
        }
    }
    t
}

/// The rule by which a case counts as non-trivial for a property.
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "some edit was integrated by a peer that knew text its author didn't, some text was deleted, and peers were compared",
        "C02" => "at least 8 offsets/ranges returned by a replica were applied to a buffer, at least one for a concurrent remote edit",
        "C03" => "at least one concurrent insertion was placed and at least 3 adjacency constraints were checked",
        "C04" => "at least one deletion was integrated remotely by a peer that knew text its author didn't",
        "C05" => "at least one edit was re-delivered and an operation was compared with the duplicate-free twin afterwards",
        "C06" => "at least one edit had to wait in a backlog and was later released by it",
        "C07" => "a replica was decoded from a peer with deleted text or a backlog and at least one later operation was compared with its fork twin",
        "C08" => "a replica was forked or cloned and at least one later operation was compared",
        "C09" => "at least 3 serde round trips, of them at least one of an edit made after a merge or a deletion",
        "C10" => "at least one corrupted encoding of a document with at least 2 edits was presented to decode",
        "C11" => "at least one mutated checksum-valid payload or serialised edit was presented to a decoder",
        "C12" => "at least one anchor was resolved after at least one later edit",
        "C13" => "at least one anchor was resolved by a replica that didn't create it",
        "C14" => "at least two authors inserted, with at least 3 insertions in total",
        "C15" => "at least one out-of-contract call was made and at least one later operation was compared",
        "C16" => "at least one no-op edit was made and delivered, in a session with at least 2 real edits",
        "C17" => "at least two concurrently typed runs were checked after a merge",
        "C18" => "at least 4 serialised edits were measured in a session of at least 3 authors",
        "C19" => "at least one burst of typing was compared with a bulk edit in a document with at least 2 edits",
        "C20" => "at least 8 outputs were compared between the scaled and the unscaled run of the session",
        "C21" => "the storage of a peer with at least 4 edits was measured, after calls without effect at least once",
        "C23" => "the larger of the two sessions has at least 1000 runs",
        "C24" => "in a session of peers with both builds, at least 4 edits or snapshots made by one were used by the other, something concurrent was integrated and peers were compared",
        "C22" => "at least one peer with concurrent edits was compared between the two runs of the session",
        _ => "any edit",
    }
}

/// `s`: the generated part of the history; `t`: all of the case.
pub fn nontrivial(prop: &str, s: &Stats, t: &Stats) -> bool {
    match prop {
        "C01" => s.concurrent > 0 && s.deletes > 0 && t.compares > 0,
        "C02" => s.outputs >= 8 && s.concurrent > 0,
        "C03" => s.concurrent > s.concurrent_del && s.edges >= 3,
        "C04" => s.concurrent_del > 0,
        "C05" => s.dups > 0 && t.twin_cmp > 0,
        "C06" => s.backlogged > 0 && s.drained > 0,
        "C07" => s.joins_rich > 0 && t.twin_after > 0,
        "C08" => s.forks + s.clones > 0 && t.twin_cmp > 0 && t.twin_after > 0,
        "C09" => s.roundtrips >= 3 && s.edits >= 2,
        "C10" => s.corruptions > 0 && s.edits >= 2,
        "C11" => s.garbage > 0 && s.edits >= 1,
        "C12" => s.anchor_checks > s.anchor_remote && s.edits >= 2,
        "C13" => s.anchor_remote > 0 && s.edits >= 2,
        "C14" => s.inserts >= 3 && s.joins + s.forks > 0,
        "C15" => s.misuses > 0 && t.twin_after > 0,
        "C16" => s.noops > 0 && s.edits >= 2,
        "C17" => s.runs_checked >= 2,
        "C18" => s.sizes >= 4 && s.joins + s.forks >= 2,
        "C19" => s.compacts > 0 && s.edits >= 2,
        "C20" => s.outputs >= 8,
        "C21" => s.idles > 0 && s.edits >= 4 && t.footprints > 0,
        "C23" => s.max_runs >= 1000 && s.costs > 0,
        "C24" => s.crossed >= 4 && s.concurrent > 0 && s.compares > 0,
        "C22" => s.concurrent > 0 && t.views > 0,
        _ => s.edits > 0,
    }
}
