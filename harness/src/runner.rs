//! Parent/worker orchestration, shrinking, replay and evidence.
//!
//! The parent spawns one worker process per shard. A case is a pure function
//! of (VERIF_SEED, property, index), and which build of the code runs it is a
//! function of its index, so a run explores the same cases every time, however
//! they are scheduled. Workers die with the code under test (stack overflow,
//! abort); the parent then identifies the case that was in flight.

use crate::case::{Case, OpK};
use crate::kinds::{accepts, Ctx, Fail, Kind};
use crate::plan;
use crate::rng::{fnv, splitmix, Rng};
use crate::world::{install_panic_hook, run_case, Outcome, Stats};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Read;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;
/// Shards run by the plain release build of the code; the others run a build
/// with debug assertions and overflow checks.
pub const PLAIN_SHARDS: usize = 2;
/// A single case never takes longer than this on a working tree (the slowest
/// take about a second).
fn hang() -> Duration {
    let s = std::env::var("COLACHECK_HANG").ok().and_then(|s| s.parse().ok());
    Duration::from_secs(s.unwrap_or(90))
}

pub fn gen_case(prop: &str, seed: u64, index: u64) -> (Case, &'static str) {
    gen_case_of(prop, seed, index, "")
}

/// Like [`gen_case`], from one family of histories only unless `family` is
/// empty.
pub fn gen_case_of(prop: &str, seed: u64, index: u64, family: &str) -> (Case, &'static str) {
    let mut x = seed ^ fnv(prop.as_bytes()) ^ index.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let mut rng = Rng::new(splitmix(&mut x));
    let p = plan::plan(prop);
    let every = plan::marathon_every(&p);
    // One in every so many, at no fixed distance: the shards take turns.
    let mut block = (index / every).wrapping_add(seed);
    let family = if family.is_empty() && index % every == splitmix(&mut block) % every { "marathon" } else { family };
    let of = |f: &str| -> Vec<u32> {
        p.profiles
            .iter()
            .map(|p| match () {
                _ if f.is_empty() => p.share,
                _ => (f == p.name) as u32,
            })
            .collect()
    };
    let mut w = of(family);
    if w.iter().sum::<u32>() == 0 {
        w = of("");
    }
    let pr = &p.profiles[rng.weighted(&w)];
    (pr.gen(prop, &mut rng), pr.name)
}

/// Runs a case, turning panics that escaped into failures too.
pub fn run_guarded(case: &Case) -> Result<Outcome, String> {
    match catch_unwind(AssertUnwindSafe(|| run_case(case))) {
        Ok(o) => Ok(o),
        Err(_) => Err(crate::world::LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// The failure of a case, if it violates its property.
pub fn violation(case: &Case) -> Result<Option<Fail>, String> {
    Ok(run_guarded(case)?.fail.filter(|f| accepts(&case.property, f.kind, f.ctx)))
}

// ----- shrinking -----------------------------------------------------------

/// Delta-debugs the case; `fails` decides.
pub fn shrink(mut case: Case, budget: usize, wall: Duration, fails: &mut dyn FnMut(&Case) -> bool) -> Case {
    let t0 = Instant::now();
    let mut left = budget;
    let mut try_it = |c: &Case, left: &mut usize| -> bool {
        if *left == 0 || t0.elapsed() > wall {
            return false;
        }
        *left -= 1;
        fails(c)
    };
    loop {
        let before = (case.ops.len(), case.cfg.clone(), case.ops.clone());
        // Chunks of operations.
        let mut chunk = case.ops.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < case.ops.len() {
                let mut c = case.clone();
                let end = (i + chunk).min(c.ops.len());
                c.ops.drain(i..end);
                if try_it(&c, &mut left) {
                    case = c;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        // The configuration.
        for which in 0..9 {
            let mut c = case.clone();
            match which {
                0 => c.cfg.init_len = 0,
                1 => c.cfg.init_len /= 2,
                2 => c.cfg.scale = 0,
                3 => c.cfg.transport = 0,
                4 => {
                    c.cfg.ids = 0;
                    c.cfg.id_seed = 0;
                },
                5 => c.cfg.fin = 0,
                6 => c.cfg.fin_seed = 0,
                7 => c.cfg.start_peers = c.cfg.start_peers.saturating_sub(1).max(1),
                _ => c.cfg.init_len = c.cfg.init_len.saturating_sub(1),
            }
            if c != case && try_it(&c, &mut left) {
                case = c;
            }
        }
        // Operands.
        if case.ops.len() <= 64 {
            for i in 0..case.ops.len() {
                for which in 0..7 {
                    let mut c = case.clone();
                    let o = &mut c.ops[i];
                    match which {
                        0 => o.a = 0,
                        1 => o.b = 0,
                        2 => o.c = 0,
                        3 => o.p = 0,
                        4 => o.b &= 15,
                        5 => o.p %= 4,
                        _ => {
                            if o.k == OpK::Type as u8 || o.k == OpK::Chaos as u8 || o.k == OpK::DeliverN as u8 {
                                o.k = if o.k == OpK::DeliverN as u8 { OpK::Deliver as u8 } else { OpK::Ins as u8 };
                            }
                        },
                    }
                    if c != case && try_it(&c, &mut left) {
                        case = c;
                    }
                }
            }
        }
        if (case.ops.len(), case.cfg.clone(), case.ops.clone()) == before || left == 0 || t0.elapsed() > wall {
            return case;
        }
    }
}

// ----- worker ----------------------------------------------------------------

struct Report {
    cases: u64,
    nontrivial: Vec<u64>,
    tainted: u64,
    taints: BTreeMap<String, u64>,
    profiles: BTreeMap<String, u64>,
    stats: Stats,
    samples: Vec<String>,
    fail: Option<(u64, Case, Fail)>,
}

pub fn worker(args: &Args) -> i32 {
    install_panic_hook();
    let prop = &args.property;
    let dir = PathBuf::from(&args.dir);
    let shard = args.shard;
    let progress = fs::File::create(dir.join(format!("progress.{shard}"))).expect("progress file");
    let mut rep = Report {
        cases: 0,
        nontrivial: vec![],
        tainted: 0,
        taints: BTreeMap::new(),
        profiles: BTreeMap::new(),
        stats: Stats::default(),
        samples: vec![],
        fail: None,
    };
    let stop = dir.join("stop");
    let mut fallback: Option<(usize, String)> = None;
    let mut i = args.from.max(shard as u64);
    while i < args.cases {
        if i / SHARDS as u64 % 64 == 0 && stop.exists() {
            break;
        }
        let _ = progress.write_all_at(&(i + 1).to_le_bytes(), 0);
        let (case, profile) = gen_case_of(prop, args.seed, i, &args.family);
        let out = match run_guarded(&case) {
            Ok(o) => o,
            Err(e) => {
                eprintln!("harness error in case {i}: {e}");
                let _ = fs::write(dir.join(format!("harness-error.{shard}")), format!("case {i}: {e}\n{}", case.to_text()));
                return 70;
            },
        };
        rep.cases += 1;
        *rep.profiles.entry(profile.to_string()).or_default() += 1;
        rep.stats.add(&out.stats);
        if let Some(f) = out.fail {
            if accepts(prop, f.kind, f.ctx) {
                let kind = f.kind;
                let mut c = case.clone();
                // Same kind of failure while shrinking.
                c = shrink(c, 4000, Duration::from_secs(40), &mut |c| {
                    matches!(violation(c), Ok(Some(f)) if f.kind == kind)
                });
                let f2 = match violation(&c) {
                    Ok(Some(f)) => f,
                    _ => {
                        c = case;
                        f
                    },
                };
                rep.fail = Some((i, c, f2));
                let _ = fs::write(&stop, "");
                break;
            }
            rep.tainted += 1;
            *rep.taints.entry(format!("{:?}/{:?}", f.kind, f.ctx)).or_default() += 1;
        } else if plan::nontrivial(prop, &out.core, &out.stats) {
            rep.nontrivial.push(case.hash64());
            if rep.samples.len() < 2 && case.ops.len() <= 14 && case.ops.len() >= 4 {
                rep.samples.push(describe(&case, profile, i, &out.core));
            }
            if rep.samples.is_empty() && fallback.as_ref().is_none_or(|f| f.0 > case.ops.len()) {
                fallback = Some((case.ops.len(), describe(&case, profile, i, &out.core)));
            }
        }
        i += SHARDS as u64;
    }
    if let (true, Some((_, f))) = (rep.samples.is_empty(), fallback) {
        rep.samples.push(f.chars().take(2000).collect());
    }
    let mut s = String::new();
    let _ = writeln!(s, "cases {}", rep.cases);
    let _ = writeln!(s, "tainted {}", rep.tainted);
    for (k, v) in &rep.taints {
        let _ = writeln!(s, "taint {k} {v}");
    }
    for (k, v) in &rep.profiles {
        let _ = writeln!(s, "profile {k} {v}");
    }
    for (k, v) in rep.stats.fields() {
        let _ = writeln!(s, "stat {k} {v}");
    }
    for x in &rep.samples {
        let _ = writeln!(s, "sample {x}");
    }
    if let Some((i, c, f)) = &rep.fail {
        let _ = writeln!(s, "fail {i} {:?} {:?} {}", f.kind, f.ctx, f.msg.replace('\n', " "));
        let _ = fs::write(dir.join(format!("fail.{shard}")), c.to_text());
    }
    let bytes: Vec<u8> = rep.nontrivial.iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = fs::write(dir.join(format!("hashes.{shard}")), bytes);
    let _ = fs::write(dir.join(format!("report.{shard}")), s);
    0
}

fn describe(c: &Case, profile: &str, i: u64, s: &Stats) -> String {
    let ops: Vec<String> = c
        .ops
        .iter()
        .map(|o| format!("{}(p{} {} {} {})", OpK::NAMES[o.k as usize % OpK::N], o.p, o.a, o.b, o.c))
        .collect();
    format!(
        "case {i} [{profile}] init={} scale={} peers={} ids={} | {} | edits={} concurrent={} backlogged={} dups={}",
        c.cfg.init_len,
        c.cfg.scale,
        c.cfg.start_peers,
        c.cfg.ids,
        ops.join(" "),
        s.edits,
        s.concurrent,
        s.backlogged,
        s.dups
    )
}

// ----- parent ----------------------------------------------------------------

#[derive(Clone, Default)]
pub struct Args {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub cases: u64,
    pub from: u64,
    pub shard: usize,
    pub dir: String,
    pub plain: String,
    pub out: String,
    pub replays: String,
    pub max_fail: usize,
    /// The coverage-guided fuzzer, if it is to be run too, and for how long.
    /// Only this family of histories (for trying things out).
    pub family: String,
    pub fuzzer: String,
    pub fuzz_s: u64,
}

fn spawn(exe: &Path, a: &Args, shard: usize, from: u64, dir: &Path) -> std::io::Result<Child> {
    let err = fs::OpenOptions::new().create(true).append(true).open(dir.join(format!("stderr.{shard}")))?;
    Command::new(exe)
        .env("RUST_BACKTRACE", "0")
        .args(["worker", "--property", &a.property, "--tier", &a.tier])
        .args(["--seed", &a.seed.to_string(), "--cases", &a.cases.to_string()])
        .args(["--family", &a.family])
        .args(["--from", &from.to_string(), "--shard", &shard.to_string(), "--dir", &dir.display().to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 8);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o
}

enum OneResult {
    Pass,
    Fail(String),
    Crash(String),
    Hang(String),
    Error(String),
}

/// Runs one case in a process of its own.
fn run_one(exe: &Path, case: &Case, dir: &Path, limit: Duration) -> OneResult {
    let f = dir.join("one.case");
    if fs::write(&f, case.to_text()).is_err() {
        return OneResult::Error("can't write".into());
    }
    let mut child = match Command::new(exe)
        .env("RUST_BACKTRACE", "0")
        .args(["one", &f.display().to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return OneResult::Error(e.to_string()),
    };
    let t0 = Instant::now();
    let st = loop {
        match child.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                return OneResult::Hang(format!("some call hasn't returned after {} s", limit.as_secs()));
            },
            Ok(None) => std::thread::sleep(Duration::from_millis(2)),
            Err(e) => return OneResult::Error(e.to_string()),
        }
    };
    let mut text = String::new();
    if let Some(mut o) = child.stdout.take() {
        let _ = o.read_to_string(&mut text);
    }
    let mut err = String::new();
    if let Some(mut o) = child.stderr.take() {
        let _ = o.read_to_string(&mut err);
    }
    match st.code() {
        Some(0) => OneResult::Pass,
        Some(1) => OneResult::Fail(text.trim().to_string()),
        Some(c) => OneResult::Error(format!("exit status {c}: {}", err.trim())),
        None => {
            let sig = st.signal().unwrap_or(0);
            let err: String = err.trim().replace('\n', " ").chars().take(500).collect();
            if sig == 9 || err.contains("memory allocation of") {
                OneResult::Error(format!("ended by signal {sig}: {err}"))
            } else {
                OneResult::Crash(format!("the process was ended by signal {sig}: {err}"))
            }
        },
    }
}

pub fn one(path: &str) -> i32 {
    install_panic_hook();
    let Some(case) = fs::read_to_string(path).ok().and_then(|s| Case::from_text(&s)) else {
        eprintln!("can't read {path}");
        return 2;
    };
    match violation(&case) {
        Ok(None) => 0,
        Ok(Some(f)) => {
            println!("{:?}/{:?}: {}", f.kind, f.ctx, f.msg);
            1
        },
        Err(e) => {
            eprintln!("harness error: {e}");
            70
        },
    }
}

/// Replays a saved case against both builds.
pub fn replay(a: &Args, path: &str) -> i32 {
    let me = std::env::current_exe().unwrap();
    let Some(case) = fs::read_to_string(path).ok().and_then(|s| Case::from_text(&s)) else {
        eprintln!("can't read {path}");
        return 2;
    };
    let dir = std::env::temp_dir().join(format!("colacheck-replay-{}", std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let mut rc = 0;
    for exe in [me, PathBuf::from(&a.plain)] {
        if exe.as_os_str().is_empty() {
            continue;
        }
        match run_one(&exe, &case, &dir, hang()) {
            OneResult::Pass => {},
            OneResult::Fail(m) | OneResult::Crash(m) | OneResult::Hang(m) => {
                println!("{m}");
                println!("VIOLATION property={} replay={path}", case.property);
                rc = 1;
                break;
            },
            OneResult::Error(m) => {
                eprintln!("error: {m}");
                rc = 2;
            },
        }
    }
    let _ = fs::remove_dir_all(&dir);
    rc
}

/// Most operations in a fuzzed case.
pub const FUZZ_OPS: usize = 160;

#[derive(Default)]
struct Fuzzed {
    runs: u64,
    cov: u64,
    corpus: u64,
    fail: Option<(Case, String)>,
    errors: Vec<String>,
}

/// Coverage-guided search, by eight libFuzzer processes sharing a corpus that
/// starts from generated cases.
fn fuzz(a: &Args, dir: &Path, exe: &Path) -> Fuzzed {
    let mut out = Fuzzed::default();
    let kinds = plan::byte_kinds(&a.property);
    let corpus = dir.join("corpus");
    let _ = fs::create_dir_all(&corpus);
    let mut n = 0;
    for i in 0..4000 {
        let (c, _) = gen_case(&a.property, a.seed ^ 0xF022, i);
        if c.ops.len() <= FUZZ_OPS && n < 400 {
            n += 1;
            let _ = fs::write(corpus.join(format!("seed{i}")), c.to_bytes(&kinds));
        }
    }
    let mut kids = vec![];
    for s in 0..SHARDS {
        let art = dir.join(format!("artifact.{s}."));
        let log = dir.join(format!("fuzz.{s}"));
        let f = fs::File::create(&log).expect("fuzzer log");
        let k = Command::new(&a.fuzzer)
            .env("COLAFUZZ_PROPERTY", &a.property)
            .env("RUST_BACKTRACE", "0")
            .arg(format!("-artifact_prefix={}", art.display()))
            .arg(format!("-max_total_time={}", a.fuzz_s))
            .arg(format!("-seed={}", a.seed.wrapping_mul(8) as u32 as u64 + s as u64 + 1))
            .arg(format!("-max_len={}", 9 + 8 * FUZZ_OPS))
            .args(["-len_control=20", "-rss_limit_mb=6000", "-reload=1", "-print_final_stats=1", "-timeout=60"])
            .arg(&corpus)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(f)
            .spawn();
        match k {
            Ok(k) => kids.push((s, k, log)),
            Err(e) => out.errors.push(format!("can't start the fuzzer: {e}")),
        }
    }
    let mut stopped = false;
    let mut live: Vec<_> = kids.into_iter().map(Some).collect();
    while live.iter().any(Option::is_some) {
        for l in live.iter_mut() {
            let Some((_, k, log)) = l else { continue };
            let Ok(Some(st)) = k.try_wait() else { continue };
            let text = fs::read(&*log).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
            if !st.success() && !stopped {
                // What it was running when it ended.
                let mut arts: Vec<PathBuf> = fs::read_dir(dir)
                    .into_iter()
                    .flatten()
                    .flatten()
                    .map(|e| e.path())
                    .filter(|p| p.file_name().is_some_and(|n| n.to_string_lossy().starts_with("artifact.")))
                    .collect();
                arts.sort();
                for p in arts {
                    let Ok(b) = fs::read(&p) else { continue };
                    let case = Case::from_bytes(&a.property, &kinds, &b, FUZZ_OPS);
                    match run_one(exe, &case, dir, hang()) {
                        OneResult::Pass => out.errors.push("the fuzzer stopped at a case that passes on its own".into()),
                        OneResult::Error(e) => out.errors.push(e),
                        OneResult::Fail(m) | OneResult::Crash(m) | OneResult::Hang(m) => {
                            let small = shrink(case, 600, Duration::from_secs(60), &mut |c| {
                                matches!(run_one(exe, c, dir, hang() / 6), OneResult::Fail(_) | OneResult::Crash(_))
                            });
                            let m = match run_one(exe, &small, dir, hang()) {
                                OneResult::Fail(m) | OneResult::Crash(m) | OneResult::Hang(m) => m,
                                _ => m,
                            };
                            out.fail = Some((small, m));
                            break;
                        },
                    }
                }
                if out.fail.is_none() && out.errors.is_empty() {
                    out.errors.push(format!("the fuzzer failed: {}", text.lines().last().unwrap_or("")));
                }
                stopped = true;
            }
            for line in text.lines() {
                if let Some(n) = line.strip_prefix("stat::number_of_executed_units:") {
                    out.runs += n.trim().parse::<u64>().unwrap_or(0);
                }
                if let Some(x) = line.split(" cov: ").nth(1) {
                    out.cov = out.cov.max(x.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0));
                }
            }
            *l = None;
        }
        if stopped {
            for (_, k, _) in live.iter_mut().flatten() {
                let _ = k.kill();
                let _ = k.wait();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    out.corpus = fs::read_dir(&corpus).map(|d| d.count() as u64).unwrap_or(0);
    out
}

pub fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let mut a = a.clone();
    let plan = plan::plan(&a.property);
    if a.cases == 0 {
        a.cases = if a.tier == "thorough" { plan.thorough } else { plan.quick } as u64;
    }
    let me = std::env::current_exe().unwrap();
    let plain = if a.plain.is_empty() { me.clone() } else { PathBuf::from(&a.plain) };
    let dir = std::env::temp_dir().join(format!("colacheck-{}-{}", a.property, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch directory");
    let exe_of = |s: usize| if s >= SHARDS - PLAIN_SHARDS { plain.clone() } else { me.clone() };
    let mut kids: Vec<Option<Child>> = (0..SHARDS)
        .map(|s| Some(spawn(&exe_of(s), &a, s, 0, &dir).expect("spawn")))
        .collect();
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SHARDS];
    // (shard, case index, description)
    let mut crashes: Vec<(usize, u64, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let progress = |s: usize| -> u64 {
        fs::read(dir.join(format!("progress.{s}")))
            .ok()
            .and_then(|b| b.try_into().ok())
            .map(u64::from_le_bytes)
            .unwrap_or(0)
    };
    while kids.iter().any(Option::is_some) {
        for s in 0..SHARDS {
            let Some(k) = kids[s].as_mut() else { continue };
            match k.try_wait() {
                Ok(Some(st)) => {
                    kids[s] = None;
                    match st.code() {
                        Some(0) => {},
                        Some(c) => {
                            let why = fs::read_to_string(dir.join(format!("harness-error.{s}"))).unwrap_or_default();
                            errors.push(format!("worker {s} exited with {c}: {}", why.lines().next().unwrap_or("")));
                            let _ = fs::write(dir.join("stop"), "");
                        },
                        None => {
                            let sig = st.signal().unwrap_or(0);
                            let err = fs::read_to_string(dir.join(format!("stderr.{s}"))).unwrap_or_default();
                            let p = progress(s);
                            crashes.push((s, p.saturating_sub(1), format!("signal {sig}: {}", err.trim().chars().take(300).collect::<String>().replace('\n', " "))));
                            let _ = fs::write(dir.join("stop"), "");
                        },
                    }
                },
                Ok(None) => {
                    let p = progress(s);
                    if p != last[s].0 {
                        last[s] = (p, Instant::now());
                    } else if last[s].1.elapsed() > hang() && !dir.join(format!("fail.{s}")).exists() {
                        crashes.push((s, p.saturating_sub(1), "it doesn't end".into()));
                        let _ = k.kill();
                        let _ = k.wait();
                        kids[s] = None;
                        let _ = fs::write(dir.join("stop"), "");
                    }
                },
                Err(e) => {
                    errors.push(e.to_string());
                    kids[s] = None;
                },
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    // Collect.
    let mut cases = 0u64;
    let mut tainted = 0u64;
    let mut taints: BTreeMap<String, u64> = BTreeMap::new();
    let mut profiles: BTreeMap<String, u64> = BTreeMap::new();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    // (case index, case, message, shard)
    let mut fails: Vec<(u64, Case, String, usize)> = vec![];
    for s in 0..SHARDS {
        if let Ok(b) = fs::read(dir.join(format!("hashes.{s}"))) {
            hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        let Ok(text) = fs::read_to_string(dir.join(format!("report.{s}"))) else { continue };
        for l in text.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            let kv = rest.rsplit_once(' ').map(|(a, b)| (a.to_string(), b.parse::<u64>().unwrap_or(0)));
            match k {
                "cases" => cases += rest.parse::<u64>().unwrap_or(0),
                "tainted" => tainted += rest.parse::<u64>().unwrap_or(0),
                "taint" => {
                    let (a, b) = kv.unwrap();
                    *taints.entry(a).or_default() += b;
                },
                "profile" => {
                    let (a, b) = kv.unwrap();
                    *profiles.entry(a).or_default() += b;
                },
                "stat" => {
                    let (a, b) = kv.unwrap();
                    let e = stats.entry(a.clone()).or_default();
                    if a.starts_with("max_") {
                        *e = (*e).max(b);
                    } else {
                        *e += b;
                    }
                },
                "sample" => samples.push(rest.to_string()),
                "fail" => {
                    let (i, msg) = rest.split_once(' ').unwrap();
                    if let Some(c) = fs::read_to_string(dir.join(format!("fail.{s}"))).ok().and_then(|t| Case::from_text(&t)) {
                        fails.push((i.parse().unwrap(), c, msg.to_string(), s));
                    }
                },
                _ => {},
            }
        }
    }
    // Crashed workers: confirm and shrink in child processes.
    for (s, i, how) in crashes {
        if !fails.is_empty() {
            // One is enough (and hung cases take their time).
            break;
        }
        let exe = exe_of(s);
        let (case, _) = gen_case_of(&a.property, a.seed, i, &a.family);
        match run_one(&exe, &case, &dir, hang()) {
            OneResult::Hang(_) => {
                // So does a call that never returns. (No case takes more than
                // a few seconds, so while shrinking a shorter limit will do.)
                let small = shrink(case.clone(), 60, Duration::from_secs(60), &mut |c| matches!(run_one(&exe, c, &dir, hang() / 6), OneResult::Hang(_)));
                let (c, m) = match run_one(&exe, &small, &dir, hang()) {
                    OneResult::Hang(m) => (small, m),
                    _ => (case, format!("some call hasn't returned after {} s", hang().as_secs())),
                };
                fails.push((i, c, m, s));
            },
            OneResult::Crash(m) => {
                let ctx = Ctx::Codec;
                // A crash takes the user's whole process with it: it violates
                // whichever property was being exercised.
                let _ = (ctx, Kind::Panic);
                let small = shrink(case, 400, Duration::from_secs(60), &mut |c| matches!(run_one(&exe, c, &dir, hang()), OneResult::Crash(_)));
                fails.push((i, small, format!("{m} (case {i}, first seen: {how})"), s));
            },
            OneResult::Fail(m) => fails.push((i, case, m, s)),
            OneResult::Pass => errors.push(format!("worker {s} died ({how}) in case {i}, which passes on its own")),
            OneResult::Error(m) => errors.push(format!("worker {s} died ({how}) in case {i}: {m}")),
        }
    }
    let mut fz = Fuzzed::default();
    if !a.fuzzer.is_empty() && fails.is_empty() && errors.is_empty() {
        fz = fuzz(&a, &dir, &me);
        errors.append(&mut fz.errors);
        if let Some((c, m)) = fz.fail.take() {
            fails.push((u64::MAX, c, m, 0));
        }
    }
    fails.sort_by_key(|f| (f.1.ops.len(), f.0));

    let mut lines = vec![];
    let mut viol = vec![];
    if let Some((i, case, msg, s)) = fails.first() {
        let _ = fs::create_dir_all(&a.replays);
        let path = format!("{}/{}-{:016x}.case", a.replays.trim_end_matches('/'), a.property, case.hash64());
        let mut text = case.to_text();
        let how = if *i == u64::MAX { "the fuzzer".to_string() } else { format!("case {i} of seed {}", a.seed) };
        let _ = writeln!(text, "# found by {how} in the {} build", if *s >= SHARDS - PLAIN_SHARDS { "plain" } else { "checked" });
        for l in msg.lines() {
            let _ = writeln!(text, "# {l}");
        }
        let _ = fs::write(&path, text);
        let text = case.to_text();
        let shown: Vec<&str> = text.lines().take(80).collect();
        let more = if shown.len() < text.lines().count() { "\n..." } else { "" };
        lines.push(format!("{msg}\nminimal history ({} operations):\n{}{more}", case.ops.len(), shown.join("\n")));
        lines.push(format!("VIOLATION property={} replay={path}", a.property));
        viol.push((path, msg.clone()));
    }
    let mut rc = if !viol.is_empty() { 1 } else if !errors.is_empty() { 2 } else { 0 };
    for e in &errors {
        eprintln!("error: {e}");
    }
    // A check that had to stop looking in too many cases has decided nothing.
    if rc == 0 && tainted * 2 > cases {
        eprintln!("error: {tainted} of {cases} cases were cut short by failures of other properties: {taints:?}");
        rc = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(&a, cases, hashes.len() as u64, tainted, &taints, &profiles, &stats, &samples, &viol, &errors, &fz, wall);
    println!(
        "property {}: {} cases ({} distinct non-trivial), {} cut short, {:.1} s",
        a.property,
        cases,
        hashes.len(),
        tainted,
        wall
    );
    if tainted > 0 {
        println!("cut short by failures that belong to other properties: {taints:?}");
    }
    if fz.runs > 0 {
        println!("fuzzed: {} executions, {} edges covered, corpus of {}", fz.runs, fz.cov, fz.corpus);
    }
    for l in lines {
        println!("{l}");
    }
    let _ = fs::remove_dir_all(&dir);
    rc
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    a: &Args,
    cases: u64,
    distinct: u64,
    tainted: u64,
    taints: &BTreeMap<String, u64>,
    profiles: &BTreeMap<String, u64>,
    stats: &BTreeMap<String, u64>,
    samples: &[String],
    viol: &[(String, String)],
    errors: &[String],
    fz: &Fuzzed,
    wall: f64,
) {
    if a.out.is_empty() {
        return;
    }
    let map = |m: &BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect::<Vec<_>>().join(", ")
    };
    let mut s = String::new();
    let _ = writeln!(s, "{{");
    let _ = writeln!(s, "  \"property\": \"{}\",", a.property);
    let _ = writeln!(s, "  \"tier\": \"{}\",", a.tier);
    let _ = writeln!(s, "  \"seed\": {},", a.seed);
    let _ = writeln!(s, "  \"level\": \"exploration\",");
    let _ = writeln!(s, "  \"coverage\": {{");
    let _ = writeln!(s, "    \"evaluations\": {cases},");
    let _ = writeln!(s, "    \"distinct_nontrivial\": {distinct},");
    let _ = writeln!(s, "    \"rule\": \"{}\",", esc(plan::rule(&a.property)));
    let _ = writeln!(s, "    \"cut_short_by_other_properties\": {tainted},");
    let _ = writeln!(s, "    \"cut_short_kinds\": {{{}}},", map(taints));
    let _ = writeln!(s, "    \"cases_per_family\": {{{}}},", map(profiles));
    let _ = writeln!(s, "    \"observed\": {{{}}},", map(stats));
    let _ = writeln!(
        s,
        "    \"fuzzed\": {{\"executions\": {}, \"corpus\": {}, \"edges_covered\": {}}},",
        fz.runs, fz.corpus, fz.cov
    );
    let sm: Vec<String> = samples.iter().take(5).map(|x| format!("\"{}\"", esc(x))).collect();
    let _ = writeln!(s, "    \"samples\": [{}]", sm.join(",\n      "));
    let _ = writeln!(s, "  }},");
    let _ = writeln!(s, "  \"wall_s\": {wall:.2},");
    let vs: Vec<String> =
        viol.iter().map(|(p, m)| format!("{{\"replay\": \"{}\", \"what\": \"{}\"}}", esc(p), esc(m))).collect();
    let es: Vec<String> = errors.iter().map(|e| format!("\"{}\"", esc(e))).collect();
    let _ = writeln!(s, "  \"errors\": [{}],", es.join(", "));
    let _ = writeln!(s, "  \"violation_details\": [{}],", vs.join(", "));
    let _ = writeln!(s, "  \"violations\": {}", viol.len());
    let _ = writeln!(s, "}}");
    if let Some(d) = Path::new(&a.out).parent() {
        let _ = fs::create_dir_all(d);
    }
    let _ = fs::write(&a.out, s);
}
