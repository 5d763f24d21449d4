use colacheck::runner::{self, Args};

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut a = Args { seed: 1, tier: "quick".into(), replays: "/verif/replays".into(), ..Default::default() };
    let mut free = vec![];
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("value");
        match x.as_str() {
            "--property" => a.property = v(),
            "--tier" => a.tier = v(),
            "--seed" => a.seed = v().parse().expect("seed"),
            "--cases" => a.cases = v().parse().expect("cases"),
            "--from" => a.from = v().parse().expect("from"),
            "--shard" => a.shard = v().parse().expect("shard"),
            "--family" => a.family = v(),
            "--dir" => a.dir = v(),
            "--fuzzer" => a.fuzzer = v(),
            "--fuzz-seconds" => a.fuzz_s = v().parse().expect("seconds"),
            "--plain" => a.plain = v(),
            "--out" => a.out = v(),
            "--replays" => a.replays = v(),
            _ => free.push(x),
        }
    }
    let rc = match cmd.as_str() {
        "check" => runner::check(&a),
        "worker" => runner::worker(&a),
        "one" => runner::one(&free[0]),
        "explain" => {
            colacheck::world::VERBOSE.with(|v| v.set(true));
            runner::one(&free[0])
        },
        "replay" => runner::replay(&a, &free[0]),
        "gen" => {
            let (c, p) = runner::gen_case_of(&a.property, a.seed, a.from, &a.family);
            println!("# {p}\n{}", c.to_text());
            0
        },
        _ => {
            eprintln!("usage: colacheck check|worker|one|replay|gen ...");
            2
        },
    };
    std::process::exit(rc);
}

#[global_allocator]
static ALLOCATOR: colacheck::mem::Counting = colacheck::mem::Counting;
