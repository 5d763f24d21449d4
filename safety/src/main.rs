//! colasafe check ...      decides C25 (natively and inside Miri)
//! colasafe replay FILE    re-runs a saved session both ways
//! colasafe batch ...      runs generated sessions (what the check starts)
//! colasafe one TEXT       runs the session given as an argument

mod rng;
mod session;

use session::{gen, run, thread_safe, Case, Stats, K, STYLES};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Args {
    tier: String,
    seed: u64,
    out: String,
    replays: String,
    dir: String,
    first: u64,
    step: u64,
    count: u64,
    native: u64,
    miri: u64,
    as_native: bool,
    /// The build with AddressSanitizer.
    asan: String,
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut a = Args { tier: "quick".into(), seed: 1, replays: "/verif/replays".into(), step: 1, ..Default::default() };
    let mut free = vec![];
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("value");
        match x.as_str() {
            "--tier" => a.tier = v(),
            "--seed" => a.seed = v().parse().expect("seed"),
            "--out" => a.out = v(),
            "--replays" => a.replays = v(),
            "--dir" => a.dir = v(),
            "--first" => a.first = v().parse().expect("first"),
            "--step" => a.step = v().parse().expect("step"),
            "--count" => a.count = v().parse().expect("count"),
            "--native" => a.native = v().parse().expect("native"),
            "--miri" => a.miri = v().parse().expect("miri"),
            "--as-native" => a.as_native = true,
            "--asan" => a.asan = v(),
            _ => free.push(x),
        }
    }
    let rc = match cmd.as_str() {
        "batch" => batch(&a),
        "one" => one(&free[0]),
        "check" => check(&a),
        "replay" => replay(&a, &free[0]),
        "gen" => {
            let (c, s) = gen(a.seed, a.first, a.as_native);
            println!("# {s}\n{}", c.to_text());
            0
        },
        _ => {
            eprintln!("usage: colasafe check|replay|batch|one|gen ...");
            2
        },
    };
    std::process::exit(rc);
}

fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}

/// Cases first, first + step, ...; one line before each and one after.
fn batch(a: &Args) -> i32 {
    for n in 0..a.count {
        let i = a.first + n * a.step;
        let (c, style) = gen(a.seed, i, a.as_native);
        say(&format!("case {i} {style}"));
        let mut st = Stats::default();
        match run(&c, &mut st) {
            Ok(()) => {
                let hash = c.hash64();
                let Stats { calls, remote, backlogged, wide, decoded, garbage, threads, max_runs } = st;
                say(&format!("done {hash} {calls} {remote} {backlogged} {wide} {decoded} {garbage} {threads} {max_runs}"));
            },
            Err(e) => {
                say(&format!("fail {i} {}", e.replace('\n', " ")));
                return 1;
            },
        }
    }
    say("end");
    0
}

fn one(text: &str) -> i32 {
    let Some(c) = Case::from_text(text) else { return 2 };
    match run(&c, &mut Stats::default()) {
        Ok(()) => {
            say("pass");
            0
        },
        Err(e) => {
            say(&format!("fail 0 {}", e.replace('\n', " ")));
            1
        },
    }
}

const NATIVE_LIMIT: Duration = Duration::from_secs(90);
const MIRI_LIMIT: Duration = Duration::from_secs(420);

fn dir_of_crate() -> PathBuf {
    // .../safety/target/release/colasafe
    let exe = std::env::current_exe().unwrap();
    exe.ancestors().nth(3).unwrap().to_path_buf()
}

#[derive(Clone, Copy, PartialEq)]
enum Way {
    Plain,
    Asan,
    Miri,
}

fn command(way: Way, asan: &str, seed: u64) -> Command {
    if way != Way::Miri {
        let mut c = match way {
            Way::Asan if !asan.is_empty() => Command::new(asan),
            _ => Command::new(std::env::current_exe().unwrap()),
        };
        c.env("RUST_BACKTRACE", "0").env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1");
        return c;
    }
    let dir = dir_of_crate();
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--quiet", "--offline", "--release", "--manifest-path"])
        .arg(dir.join("Cargo.toml"))
        .arg("--")
        .env("CARGO_TARGET_DIR", dir.join("target/miri"))
        .env("RUST_BACKTRACE", "0")
        .env("MIRIFLAGS", format!("-Zmiri-tree-borrows -Zmiri-provenance-gc=1000 -Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-seed={}", seed % 1_000_000))
        .env_remove("RUSTFLAGS");
    c
}

enum End {
    Pass,
    Fail(String),
    /// Not an answer: Miri can't do something, was stopped, ...
    Nothing(String),
}

/// What Miri (or a signal) had to say about a process that didn't end well.
fn judge(code: Option<i32>, out: &str, err: &str) -> End {
    if let Some(l) = out.lines().find_map(|l| l.strip_prefix("fail ")) {
        return End::Fail(l.split_once(' ').map_or("", |x| x.1).to_string());
    }
    let first = err.lines().find(|l| l.starts_with("error")).unwrap_or("").to_string();
    let mut place = String::new();
    for l in err.lines().filter(|l| l.trim_start().starts_with("--> ")).take(1) {
        place = format!(" at {}", l.trim_start().trim_start_matches("--> "));
    }
    if let Some(l) = err.lines().find(|l| l.contains("ERROR: AddressSanitizer")) {
        let l = l.split("ERROR: ").nth(1).unwrap_or(l);
        let frame = err.lines().find(|l| l.contains("cola") && l.trim_start().starts_with('#')).unwrap_or("").trim();
        if l.contains("out-of-memory") || l.contains("allocation-size-too-big") {
            return End::Nothing(l.to_string());
        }
        return End::Fail(format!("{l} {frame}"));
    }
    if err.contains("error: Undefined Behavior")
        || err.contains("Data race detected")
        || err.contains("error: deadlock")
        || err.contains("the evaluated program deadlocked")
        || err.contains("error: memory leaked")
        || err.contains("error: abnormal termination")
    {
        return End::Fail(format!("Miri: {first}{place}"));
    }
    match code {
        Some(0) => End::Pass,
        Some(c) => End::Nothing(format!("exit status {c}: {first} {}", err.lines().next().unwrap_or(""))),
        None => {
            if err.contains("memory allocation of") {
                End::Nothing(format!("out of memory: {first}"))
            } else {
                End::Fail(format!("the process was ended by a signal {}", err.lines().next().unwrap_or("")))
            }
        },
    }
}

fn run_one(way: Way, asan: &str, seed: u64, c: &Case, limit: Duration, dir: &Path) -> End {
    use std::os::unix::process::CommandExt;
    let (fo, fe) = (dir.join("one.out"), dir.join("one.err"));
    let mut child = match command(way, asan, seed)
        .arg("one")
        .arg(c.to_text())
        .process_group(0)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&fo).expect("scratch"))
        .stderr(std::fs::File::create(&fe).expect("scratch"))
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return End::Nothing(e.to_string()),
    };
    let t = Instant::now();
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if t.elapsed() > limit => {
                kill(&mut child);
                return if way == Way::Miri {
                    End::Nothing("stopped".into())
                } else {
                    End::Fail(format!("it hasn't ended after {} s", limit.as_secs()))
                };
            },
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let text = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    judge(st.code(), &text(&fo), &text(&fe))
}

fn kill(c: &mut Child) {
    // Cargo's runner and Miri are its children: they are in its group.
    let _ = Command::new("kill").args(["-9", "--", &format!("-{}", c.id())]).status();
    let _ = c.kill();
    let _ = c.wait();
}

struct Found {
    index: u64,
    way: Way,
    seed: u64,
    msg: String,
}

#[derive(Default)]
struct Sum {
    cases: u64,
    nontrivial: HashSet<u64>,
    styles: BTreeMap<String, u64>,
    stats: BTreeMap<&'static str, u64>,
    notes: Vec<String>,
}

const SHARDS: u64 = 8;

/// Runs `total` sessions in eight processes.
fn stage(a: &Args, miri: bool, total: u64, dir: &Path, sum: &mut Sum) -> Vec<Found> {
    use std::os::unix::process::CommandExt;
    let name = if miri { "miri" } else { "native" };
    let path = |s: u64, x: &str| dir.join(format!("{name}.{s}.{x}"));
    let mut kids = vec![];
    let way_of = |s: u64| match s {
        _ if miri => Way::Miri,
        0..2 => Way::Plain,
        _ => Way::Asan,
    };
    for s in 0..SHARDS {
        let mut c = command(way_of(s), &a.asan, a.seed.wrapping_mul(SHARDS).wrapping_add(s));
        c.args(["batch", "--seed", &a.seed.to_string(), "--first", &s.to_string()])
            .args(["--step", &SHARDS.to_string(), "--count", &(total / SHARDS).to_string()])
            .process_group(0)
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(path(s, "out")).expect("scratch"))
            .stderr(std::fs::File::create(path(s, "err")).expect("scratch"));
        if !miri {
            c.arg("--as-native");
        }
        kids.push(Some(c.spawn().expect("spawn")));
        if miri && s == 0 {
            // Let the first one build it.
            let t = Instant::now();
            while std::fs::metadata(path(0, "out")).map_or(0, |m| m.len()) == 0 && t.elapsed() < Duration::from_secs(300) {
                if let Ok(Some(_)) = kids[0].as_mut().unwrap().try_wait() {
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
    let t0 = Instant::now();
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SHARDS as usize];
    let mut ends: Vec<Option<End>> = (0..SHARDS).map(|_| None).collect();
    let text = |p: PathBuf| {
        let mut s = vec![];
        if let Ok(mut f) = std::fs::File::open(p) {
            let _ = f.read_to_end(&mut s);
        }
        String::from_utf8_lossy(&s).into_owned()
    };
    while kids.iter().any(Option::is_some) {
        for s in 0..SHARDS as usize {
            let Some(k) = kids[s].as_mut() else { continue };
            match k.try_wait() {
                Ok(Some(st)) => {
                    ends[s] = Some(judge(st.code(), &text(path(s as u64, "out")), &text(path(s as u64, "err"))));
                    kids[s] = None;
                },
                _ => {
                    let n = std::fs::metadata(path(s as u64, "out")).map_or(0, |m| m.len());
                    if n != last[s].0 {
                        last[s] = (n, Instant::now());
                    }
                    let limit = if miri { t0.elapsed() > MIRI_LIMIT && a.tier == "quick" } else { last[s].1.elapsed() > NATIVE_LIMIT };
                    if limit {
                        kill(k);
                        kids[s] = None;
                        ends[s] = Some(if miri {
                            End::Nothing("out of time".into())
                        } else {
                            End::Fail(format!("it hasn't ended after {} s", NATIVE_LIMIT.as_secs()))
                        });
                    }
                },
            }
        }
        if ends.iter().flatten().any(|e| matches!(e, End::Fail(_))) {
            for k in kids.iter_mut() {
                if let Some(mut k) = k.take() {
                    kill(&mut k);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut found = vec![];
    for s in 0..SHARDS {
        let out = text(path(s, "out"));
        let mut cur = None;
        for l in out.lines() {
            if let Some(r) = l.strip_prefix("case ") {
                let (i, style) = r.split_once(' ').unwrap_or((r, ""));
                cur = i.parse::<u64>().ok();
                *sum.styles.entry(format!("{name}: {style}")).or_default() += 1;
                sum.cases += 1;
            } else if let Some(r) = l.strip_prefix("done ") {
                let n: Vec<u64> = r.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                let keys = ["calls", "remote_edits_applied", "edits_that_waited_or_had_no_effect", "wide_deletions", "snapshots_decoded", "damaged_inputs", "multi_threaded_phases", "max_runs"];
                for (k, v) in keys.into_iter().zip(&n[1..]) {
                    let e = sum.stats.entry(k).or_default();
                    *e = if k == "max_runs" { (*e).max(*v) } else { *e + v };
                }
                // remote edits, and something the unsafe code or other threads
                // have a part in
                if n[2] > 0 && (n[4] > 0 || n[5] > 0 || n[6] > 0 || n[7] > 0) {
                    sum.nontrivial.insert(n[0] ^ miri as u64);
                }
            }
        }
        match ends[s as usize].take() {
            Some(End::Fail(msg)) => found.push(Found {
                index: cur.unwrap_or(0),
                way: way_of(s),
                seed: a.seed.wrapping_mul(SHARDS).wrapping_add(s),
                msg,
            }),
            Some(End::Nothing(m)) => sum.notes.push(format!("{name} shard {s}: {m}")),
            _ => {},
        }
    }
    found
}

/// Fewer operations, then smaller ones, while it keeps failing.
fn shrink(mut c: Case, limit: Duration, fails: &mut dyn FnMut(&Case) -> bool) -> Case {
    let t = Instant::now();
    let mut n = (c.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < c.ops.len() && t.elapsed() < limit {
            let mut d = c.clone();
            d.ops.drain(i..(i + n).min(c.ops.len()));
            if fails(&d) {
                c = d;
            } else {
                i += n;
            }
        }
        if n == 1 || t.elapsed() > limit {
            break;
        }
        n = (n / 2).max(1);
    }
    loop {
        let mut better = false;
        for i in 0..c.ops.len() {
            while c.ops[i].k == K::Scatter && c.ops[i].a[1] > 0 && t.elapsed() < limit {
                let mut d = c.clone();
                d.ops[i].a[1] /= 2;
                if !fails(&d) {
                    break;
                }
                c = d;
                better = true;
            }
        }
        for (len, peers) in [(c.len / 2, c.peers), (c.len, c.peers - 1)] {
            if peers > 0 && (len, peers) != (c.len, c.peers) && t.elapsed() < limit {
                let d = Case { len, peers, ops: c.ops.clone() };
                if fails(&d) {
                    c = d;
                    better = true;
                }
            }
        }
        if !better || t.elapsed() > limit {
            return c;
        }
    }
}

fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("colasafe-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let thorough = a.tier == "thorough";
    let native = if a.native > 0 { a.native } else if thorough { 1_200_000 } else { 60_000 };
    let miri = if a.miri > 0 { a.miri } else if thorough { 6_000 } else { 160 };
    let mut sum = Sum::default();
    let mut violation: Option<(String, String)> = None;
    let replay_file = |text: &str, name: &str| {
        let _ = std::fs::create_dir_all(&a.replays);
        let p = format!("{}/C25-{name}.case", a.replays.trim_end_matches('/'));
        let _ = std::fs::write(&p, text);
        p
    };
    let bad = thread_safe();
    if !bad.is_empty() {
        let p = replay_file(&format!("property C25\ntypes\n# {}\n", bad.join(", ")), "types");
        violation = Some((p, format!("what users move between threads can't be: {}", bad.join(", "))));
    }
    let mut miri_cases = 0;
    if violation.is_none() {
        let mut found = stage(a, false, native, &dir, &mut sum);
        if found.is_empty() {
            let before = sum.cases;
            found = stage(a, true, miri, &dir, &mut sum);
            miri_cases = sum.cases - before;
        }
        found.sort_by_key(|f| gen(a.seed, f.index, f.way != Way::Miri).0.ops.len());
        if let Some(f) = found.into_iter().next() {
            let (c, style) = gen(a.seed, f.index, f.way != Way::Miri);
            let limit = if f.way == Way::Miri { Duration::from_secs(120) } else { NATIVE_LIMIT };
            // What depends on the schedule may take a few attempts.
            let tries = if style == "threads" { 5 } else { 1 };
            let fails = |c: &Case, limit: Duration| {
                (0..tries).find_map(|k| match run_one(f.way, &a.asan, f.seed + k, c, limit, &dir) {
                    End::Fail(m) => Some(m),
                    _ => None,
                })
            };
            let mut small = c.clone();
            let mut msg = f.msg.clone();
            if let Some(m) = fails(&c, limit) {
                let quick = limit / 6;
                small = shrink(c, Duration::from_secs(90), &mut |c| fails(c, quick).is_some());
                msg = fails(&small, limit).unwrap_or(m);
            } else {
                msg.push_str(" (not every time)");
            }
            let mut text = small.to_text();
            let how = match f.way {
                Way::Miri => "inside Miri",
                Way::Asan => "with AddressSanitizer",
                Way::Plain => "natively",
            };
            let _ = writeln!(text, "# case {} of seed {}, {how} (Miri seed {})\n# {msg}", f.index, a.seed, f.seed % 1_000_000);
            let p = replay_file(&text, &format!("{:016x}", small.hash64()));
            println!("minimal session ({} operations, {how}):\n{}", small.ops.len(), small.to_text());
            violation = Some((p, msg));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let wall = t0.elapsed().as_secs_f64();
    let mut rc = 0;
    // Miri not being able to run at all would leave half of it undecided, but
    // is no reason for alarm.
    for n in &sum.notes {
        eprintln!("note: {n}");
    }
    write_evidence(a, &sum, miri_cases, violation.as_ref(), wall);
    println!(
        "property C25: {} sessions ({} of them inside Miri, {} distinct non-trivial), {wall:.1} s",
        sum.cases,
        miri_cases,
        sum.nontrivial.len()
    );
    if let Some((p, m)) = violation {
        println!("{m}");
        println!("VIOLATION property=C25 replay={p}");
        rc = 1;
    }
    rc
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o
}

const RULE: &str = "Generated sessions of two to six peers through the public API only (insertions, typing, scattered insertions that fragment \
the document, narrow and wide deletions, delivery in and out of order, drains, forks, snapshots, clones, anchors, serde, misuse, damaged and made-up \
input to the decoders, several threads reading one replica, every peer on a thread of its own with edits sent through channels), natively and inside \
Miri. Non-trivial: a remote edit took effect, and there was a wide deletion, a decoded snapshot, damaged input or a phase with several threads.";

fn write_evidence(a: &Args, sum: &Sum, miri: u64, v: Option<&(String, String)>, wall: f64) {
    if a.out.is_empty() {
        return;
    }
    let mut s = String::new();
    let map = |it: &mut dyn Iterator<Item = (String, u64)>| it.map(|(k, v)| format!("\"{}\": {v}", esc(&k))).collect::<Vec<_>>().join(", ");
    let samples: Vec<String> = (0..STYLES.len() as u64)
        .map(|i| format!("\"{}\"", esc(&gen(a.seed, i, false).0.to_text().lines().take(14).collect::<Vec<_>>().join("\n"))))
        .collect();
    let _ = writeln!(s, "{{\n  \"property\": \"C25\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",", a.tier, a.seed);
    let _ = writeln!(s, "  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},", sum.cases, sum.nontrivial.len());
    let _ = writeln!(s, "    \"inside_miri\": {miri},\n    \"rule\": \"{}\",", esc(RULE));
    let _ = writeln!(s, "    \"sessions_per_family\": {{{}}},", map(&mut sum.styles.iter().map(|(k, v)| (k.clone(), *v))));
    let _ = writeln!(s, "    \"observed\": {{{}}},", map(&mut sum.stats.iter().map(|(k, v)| (k.to_string(), *v))));
    let _ = writeln!(s, "    \"samples\": [{}]\n  }},", samples.join(",\n      "));
    let _ = writeln!(s, "  \"wall_s\": {wall:.2},");
    let _ = writeln!(s, "  \"notes\": [{}],", sum.notes.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(", "));
    let d = v.map(|(p, m)| format!("{{\"replay\": \"{}\", \"what\": \"{}\"}}", esc(p), esc(m)));
    let _ = writeln!(s, "  \"violation_details\": [{}],\n  \"violations\": {}\n}}", d.unwrap_or_default(), v.is_some() as u8);
    if let Some(d) = Path::new(&a.out).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let _ = std::fs::write(&a.out, s);
}

fn replay(a: &Args, path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("can't read {path}");
        return 2;
    };
    let violation = |m: &str| {
        println!("{m}\nVIOLATION property=C25 replay={path}");
        1
    };
    if text.lines().any(|l| l == "types") {
        let bad = thread_safe();
        return if bad.is_empty() { 0 } else { violation(&bad.join(", ")) };
    }
    let Some(c) = Case::from_text(&text) else {
        eprintln!("can't read {path}");
        return 2;
    };
    let seed = text.split("(Miri seed ").nth(1).and_then(|x| x.split(')').next()).and_then(|x| x.parse().ok()).unwrap_or(a.seed);
    let dir = std::env::temp_dir().join(format!("colasafe-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut rc = 0;
    'ways: for way in [Way::Plain, Way::Asan, Way::Miri] {
        for k in 0..5 {
            match run_one(way, &a.asan, seed + k, &c, if way == Way::Miri { MIRI_LIMIT } else { NATIVE_LIMIT }, &dir) {
                End::Fail(m) => {
                    rc = violation(&m);
                    break 'ways;
                },
                End::Nothing(m) => eprintln!("note: {m}"),
                End::Pass => {},
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    rc
}
