//! A test case: a configuration plus a list of small fixed-size abstract
//! operations. Operands are interpreted modulo whatever the current state
//! offers, so *every* list of operations is a valid history. That makes
//! shrinking (any sub-list is a case) and byte-level fuzzing (any bytes are a
//! case) work without rejection.

use crate::rng::{fnv, Rng};
use std::fmt::Write as _;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub k: u8,
    pub p: u8,
    pub a: u16,
    pub b: u16,
    pub c: u16,
}

macro_rules! ops {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(u8)]
        pub enum OpK { $($name),* }
        impl OpK {
            pub const ALL: &'static [OpK] = &[$(OpK::$name),*];
            pub const NAMES: &'static [&'static str] = &[$(stringify!($name)),*];
            pub const N: usize = Self::ALL.len();
        }
    };
}

ops! {
    Ins,        // one local insertion
    Type,       // burst of forward insertions
    Back,       // burst of backspaces
    DelFwd,     // burst of forward single deletions
    Del,        // one local range deletion
    Deliver,    // one undelivered edit (various picks)
    DeliverN,   // several undelivered edits, shuffled
    SyncPair,   // everything q has received, to p
    SyncAll,    // full synchronisation of all the peers, then compare
    Dup,        // re-delivery of an already received (or own) edit
    DrainIns,   // (partially) drain backlogged insertions
    DrainDel,   // (partially) drain backlogged deletions
    Fork,
    Join,       // late joiner through encode/decode
    SnapTake,   // encode now ...
    SnapJoin,   // ... join from the stale snapshot later
    Reload,     // peer replaced by its own decoded snapshot under a new id
    Scratch,    // clone/fork the replica, mangle the copy, throw it away
    AnchorNew,
    AnchorChk,
    NoOp,       // zero-length edits, broadcast
    Misuse,     // out-of-contract call that must panic and change nothing
    Compare,    // peers with the same edits must have the same document
    Corrupt,    // corrupted encoding must be rejected
    Garbage,    // arbitrary / checksum-valid garbage must not crash decoders
    Serde,      // serde round trips of everything
    Epoch,      // concurrent forward typing at one place, then sync
    Compact,    // typing char by char costs no more than in bulk
    Chaos,      // mass concurrent insertions at the same place
    Marathon,   // up to 66 000 edits by one peer
    Idle,       // many calls without any effect, storage measured
    Phase,      // C23 only: a share of a session of a given length
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub init_len: u32,
    /// Index into [`SCALES`].
    pub scale: u8,
    /// How replica ids are chosen.
    pub ids: u8,
    pub id_seed: u64,
    /// 0 = by reference, 1 = JSON, 2 = bincode, 3 = CBOR.
    pub transport: u8,
    /// How the final synchronisation delivers edits.
    pub fin: u8,
    pub fin_seed: u64,
    pub start_peers: u8,
    pub max_peers: u8,
}

pub const SCALES: &[usize] = &[1, 3, 7, 1000, 1 << 20, 1 << 33, 1 << 40, (1 << 32) + 1];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub property: String,
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn hash64(&self) -> u64 {
        let mut b = Vec::with_capacity(self.ops.len() * 8 + 64);
        b.extend_from_slice(format!("{:?}", self.cfg).as_bytes());
        for o in &self.ops {
            b.push(o.k);
            b.push(o.p);
            b.extend_from_slice(&o.a.to_le_bytes());
            b.extend_from_slice(&o.b.to_le_bytes());
            b.extend_from_slice(&o.c.to_le_bytes());
        }
        fnv(&b)
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let c = &self.cfg;
        let _ = writeln!(s, "colacheck-case v1");
        let _ = writeln!(s, "property {}", self.property);
        let _ = writeln!(
            s,
            "cfg init_len={} scale={} ids={} id_seed={} transport={} fin={} fin_seed={} start_peers={} max_peers={}",
            c.init_len, c.scale, c.ids, c.id_seed, c.transport, c.fin, c.fin_seed, c.start_peers, c.max_peers
        );
        for o in &self.ops {
            let name = OpK::NAMES[o.k as usize % OpK::N];
            let _ = writeln!(s, "op {} {} {} {} {} # {}", o.k, o.p, o.a, o.b, o.c, name);
        }
        s
    }

    pub fn from_text(s: &str) -> Option<Case> {
        let mut property = String::new();
        let mut cfg = Cfg {
            init_len: 0,
            scale: 0,
            ids: 0,
            id_seed: 0,
            transport: 0,
            fin: 0,
            fin_seed: 0,
            start_peers: 2,
            max_peers: 4,
        };
        let mut ops = Vec::new();
        for line in s.lines() {
            let line = line.split('#').next().unwrap().trim();
            let mut w = line.split_whitespace();
            match w.next() {
                Some("property") => property = w.next()?.to_string(),
                Some("cfg") => {
                    for kv in w {
                        let (k, v) = kv.split_once('=')?;
                        let n: u64 = v.parse().ok()?;
                        match k {
                            "init_len" => cfg.init_len = n as u32,
                            "scale" => cfg.scale = n as u8,
                            "ids" => cfg.ids = n as u8,
                            "id_seed" => cfg.id_seed = n,
                            "transport" => cfg.transport = n as u8,
                            "fin" => cfg.fin = n as u8,
                            "fin_seed" => cfg.fin_seed = n,
                            "start_peers" => cfg.start_peers = n as u8,
                            "max_peers" => cfg.max_peers = n as u8,
                            _ => return None,
                        }
                    }
                },
                Some("op") => {
                    let v: Vec<u32> = w.map_while(|x| x.parse().ok()).collect();
                    if v.len() != 5 {
                        return None;
                    }
                    ops.push(Op {
                        k: v[0] as u8,
                        p: v[1] as u8,
                        a: v[2] as u16,
                        b: v[3] as u16,
                        c: v[4] as u16,
                    });
                },
                _ => {},
            }
        }
        Some(Case { property, cfg, ops })
    }

    /// Total decoding of arbitrary bytes into a case (used by the
    /// coverage-guided fuzzing target).
    /// Any bytes are a case: eight per operation, after nine of configuration.
    /// `kinds` says which operation a byte stands for.
    pub fn from_bytes(property: &str, kinds: &[u8; 256], data: &[u8], max_ops: usize) -> Case {
        let g = |i: usize| data.get(i).copied().unwrap_or(0);
        let cfg = Cfg {
            init_len: (g(0) % 64) as u32,
            scale: g(1) % SCALES.len() as u8,
            ids: g(2) % 5,
            id_seed: g(3) as u64,
            transport: g(4) % 4,
            fin: g(5),
            fin_seed: g(6) as u64,
            start_peers: 1 + g(7) % 4,
            max_peers: 2 + g(8) % 5,
        };
        let ops = data
            .get(9..)
            .unwrap_or(&[])
            .chunks_exact(8)
            .take(max_ops)
            .map(|c| Op {
                k: kinds[c[0] as usize],
                p: c[1],
                a: u16::from_le_bytes([c[2], c[3]]),
                b: u16::from_le_bytes([c[4], c[5]]),
                c: u16::from_le_bytes([c[6], c[7]]),
            })
            .collect();
        Case { property: property.into(), cfg, ops }
    }

    /// Bytes that [`Case::from_bytes`] makes (nearly) this case from.
    pub fn to_bytes(&self, kinds: &[u8; 256]) -> Vec<u8> {
        let c = &self.cfg;
        let mut v = vec![
            (c.init_len % 64) as u8,
            c.scale,
            c.ids,
            c.id_seed as u8,
            c.transport,
            c.fin,
            c.fin_seed as u8,
            c.start_peers.saturating_sub(1),
            c.max_peers.saturating_sub(2),
        ];
        for o in &self.ops {
            let Some(k) = kinds.iter().position(|&k| k == o.k) else { continue };
            v.extend([k as u8, o.p]);
            v.extend(o.a.to_le_bytes());
            v.extend(o.b.to_le_bytes());
            v.extend(o.c.to_le_bytes());
        }
        v
    }
}

/// A family of generated histories.
#[derive(Clone)]
pub struct Profile {
    pub name: &'static str,
    /// Relative number of cases drawn from this profile.
    pub share: u32,
    pub ops: (usize, usize),
    pub init: (usize, usize),
    pub start_peers: (usize, usize),
    pub max_peers: (usize, usize),
    pub scales: &'static [u8],
    pub transports: &'static [u8],
    pub w: Vec<(OpK, u32)>,
}

impl Profile {
    pub fn gen(&self, property: &str, rng: &mut Rng) -> Case {
        let start = rng.range(self.start_peers.0, self.start_peers.1);
        let maxp = rng.range(self.max_peers.0, self.max_peers.1).max(start);
        let init = match rng.below(4) {
            0 => self.init.0,
            _ => {
                // Log-uniform-ish: small documents are as likely as large ones.
                let hi = rng.range(self.init.0, self.init.1);
                rng.range(self.init.0, hi)
            },
        };
        let cfg = Cfg {
            init_len: init as u32,
            scale: self.scales[rng.below(self.scales.len())],
            ids: rng.below(5) as u8,
            id_seed: rng.u64() & 0xffff_ffff,
            transport: self.transports[rng.below(self.transports.len())],
            fin: rng.below(256) as u8,
            fin_seed: rng.u64() & 0xffff_ffff,
            start_peers: start as u8,
            max_peers: maxp as u8,
        };
        // Swarm testing: a random subset of the operation kinds is boosted and
        // another one is switched off, so that cases differ in flavour.
        let mut w = vec![0u32; OpK::N];
        for &(k, x) in &self.w {
            let x = match rng.below(10) {
                0 => 0,
                1 | 2 => x * 4,
                _ => x,
            };
            w[k as usize] = x;
        }
        if w.iter().sum::<u32>() == 0 {
            for &(k, x) in &self.w {
                w[k as usize] = x;
            }
        }
        let n = rng.range(self.ops.0, self.ops.1);
        // Sticky peer: peers edit in bursts.
        let sticky = rng.below(4);
        let mut p = 0u8;
        let mut ops: Vec<Op> = (0..n)
            .map(|_| {
                if rng.below(4) >= sticky {
                    p = rng.below(256) as u8;
                }
                Op {
                    k: rng.weighted(&w) as u8,
                    p,
                    a: rng.u64() as u16,
                    b: rng.u64() as u16,
                    c: rng.u64() as u16,
                }
            })
            .collect();
        if self.name == "marathon" {
            let mut op = |k: OpK, p: u8| Op { k: k as u8, p, a: rng.u64() as u16, b: rng.u64() as u16, c: rng.u64() as u16 };
            let mut run = op(OpK::Marathon, p);
            run.b = [0, 1, 2, 3, 4, 4][run.b as usize % 6];
            let all = op(OpK::SyncAll, p);
            let at = run.c as usize % (n / 3 + 1);
            ops.insert(at, run);
            if all.a % 3 > 0 {
                ops.insert(at + 1, all);
            }
        }
        Case { property: property.into(), cfg, ops }
    }
}
