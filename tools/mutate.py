#!/usr/bin/env python3
"""Mutation testing of the checks: applies small syntactic mutations to a copy of
/repo/src, builds the harness against it and reports the mutants no property
notices. Works in /tmp/mut only.   mutate.py [--workers N] [--sample K] [--seed S] [--files a.rs,b.rs]"""
import re, os, sys, random, subprocess, shutil, argparse, json, threading, queue
ap = argparse.ArgumentParser()
ap.add_argument("--workers", type=int, default=3)
ap.add_argument("--sample", type=int, default=0)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--files", default="")
ap.add_argument("--cases", type=int, default=4000)
ap.add_argument("--out", default="/tmp/mut/results.jsonl")
ap.add_argument("--redo", default="", help="jsonl of mutants to run again")
a = ap.parse_args()
V = "/verif"; R = "/repo"; W = "/tmp/mut"
FILES = a.files.split(",") if a.files else [f for f in sorted(os.listdir(R + "/src")) if f.endswith(".rs")]
PROPS = ["ALL", "C07", "C05", "C06", "C08", "C15", "C16", "C20", "C09", "C18", "C19", "C10", "C11", "C17"]

def skip_lines(src):
    """Line numbers of comments, attributes, tests, fmt functions, asserts."""
    skip = set(); lines = src.split("\n")
    i = 0
    def block(i):
        d = 0; started = False
        j = i
        while j < len(lines):
            for ch in lines[j]:
                if ch == "{": d += 1; started = True
                elif ch == "}": d -= 1
            if started and d <= 0: return j
            j += 1
        return j
    while i < len(lines):
        l = lines[i]
        if re.match(r"\s*(//|#\[|#!\[|use |pub use |pub mod |mod \w+;|///)", l): skip.add(i)
        if re.search(r"fn fmt\(|mod tests? \{|fn (assert_invariants|expecting|average_\w+|count_empty_leaves|debug\w*|num_runs|eq_decoded|empty_leaves)\b|mod debug|mod panic", l):
            j = block(i); skip.update(range(i, j + 1)); i = j
        elif re.match(r"\s*(debug_)?assert(_eq|_ne)?!", l):
            j = i
            while j < len(lines) and ";" not in lines[j]: j += 1
            skip.update(range(i, j + 1)); i = j
        i += 1
    return skip

def mutants(f):
    src = open(f"{R}/src/{f}").read(); lines = src.split("\n"); sk = skip_lines(src); out = []
    def add(i, new, what):
        if new != lines[i]: out.append((f, i, lines[i], new, what))
    for i, l in enumerate(lines):
        if i in sk or not l.strip(): continue
        code = l.split("//")[0]
        if re.match(r"\s*(pub(\(\w+\))? )?(fn|struct|enum|impl|trait|type|where|const)\b", code): continue
        def subs(pat, rep, what):
            for m in re.finditer(pat, code):
                add(i, code[:m.start()] + m.expand(rep) + code[m.end():], what)
        subs(r" < ", r" <= ", "<"); subs(r" <= ", r" < ", "<="); subs(r" > ", r" >= ", ">"); subs(r" >= ", r" > ", ">=")
        subs(r" == ", r" != ", "=="); subs(r" != ", r" == ", "!="); subs(r" && ", r" || ", "&&"); subs(r" \|\| ", r" && ", "||")
        subs(r" \+ ", r" - ", "+"); subs(r" - ", r" + ", "-"); subs(r" \+= ", r" -= ", "+="); subs(r" -= ", r" += ", "-=")
        subs(r"\btrue\b", "false", "true"); subs(r"\bfalse\b", "true", "false")
        subs(r" \+ 1\b", "", "+1"); subs(r" - 1\b", "", "-1")
        subs(r"\.\.=", "..", "..="); subs(r"(?<![.\w])0(?![.\w])", "1", "0"); subs(r"(?<![.\w])1(?![.\w])", "0", "1")
        subs(r"\bif (?!let)([^{]+) \{", r"if !(\1) {", "!if"); subs(r"\bif (?!let)([^{]+) \{", r"if true || (\1) {", "if1"); subs(r"\bif (?!let)([^{]+) \{", r"if false && (\1) {", "if0")
        subs(r"\bSome\(([^()]*)\)$", r"None", "None"); subs(r"\bstart\b", "end", "start"); subs(r"\bend\b", "start", "end")
        subs(r"AnchorBias::Left", "AnchorBias::Right", "L"); subs(r"AnchorBias::Right", "AnchorBias::Left", "R")
        subs(r"\.max\(", ".min(", "max"); subs(r"\.min\(", ".max(", "min")
        if re.match(r"\s*[^\s].*;\s*$", code) and not re.match(r"\s*(let|return|type|break|continue|\}|use|const|\))", code) and code.count("(") == code.count(")") and code.count("{") == code.count("}"):
            add(i, re.match(r"\s*", code).group(0) + "{}", "del")
        if re.match(r"\s*(return|break|continue)\b[^;]*;", code): add(i, "", "delret")
    return out

allm = []
for f in FILES: allm += mutants(f)
allm = [dict(file=m[0], line=m[1] + 1, old=m[2], new=m[3], what=m[4]) for m in allm]
if a.redo:
    allm = [json.loads(l) for l in open(a.redo)]; allm = [m for m in allm if m.get("status", "survived") == "survived"]
random.Random(a.seed).shuffle(allm)
if a.sample: allm = allm[:a.sample]
print(len(allm), "mutants", flush=True)
os.makedirs(W, exist_ok=True)
env = dict(os.environ, CARGO_NET_OFFLINE="true", COLACHECK_HANG="20", RUST_BACKTRACE="0")
done = set()
if os.path.exists(a.out) and not a.redo:
    for l in open(a.out):
        m = json.loads(l); done.add((m["file"], m["line"], m["new"]))
q = queue.Queue()
for m in allm:
    if (m["file"], m["line"], m["new"]) not in done: q.put(m)
lock = threading.Lock(); outf = open(a.out, "a" if not a.redo else "w")

def worker(n):
    d = f"{W}/w{n}"
    if not os.path.exists(d):
        os.makedirs(d + "/repo"); shutil.copytree(V + "/harness/src", d + "/h/src")
        for f in ("Cargo.toml", "Cargo.lock"): shutil.copy(f"{V}/harness/{f}", f"{d}/h/{f}")
        t = open(d + "/h/Cargo.toml").read().replace('path = "/repo"', f'path = "{d}/repo"')
        t += '\n[profile.mut]\ninherits = "chk"\nopt-level = 1\ndebug = 0\nincremental = true\ncodegen-units = 16\n'
        open(d + "/h/Cargo.toml", "w").write(t)
        c = open(R + "/Cargo.toml").read(); c = c[:c.index("[dev-dependencies]")]
        open(d + "/repo/Cargo.toml", "w").write(c)
    shutil.rmtree(d + "/h/src"); shutil.copytree(V + "/harness/src", d + "/h/src")
    shutil.rmtree(d + "/repo/src", ignore_errors=True); shutil.copytree(R + "/src", d + "/repo/src")
    exe = d + "/h/target/mut/colacheck"
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = f"{d}/repo/src/{m['file']}"
        src = open(p).read(); lines = src.split("\n"); assert lines[m["line"] - 1] == m["old"]
        lines[m["line"] - 1] = m["new"]
        open(p, "w").write("\n".join(lines))
        b = subprocess.run(["cargo", "build", "--offline", "--profile", "mut", "-q"], cwd=d + "/h", env=env, capture_output=True)
        st, by = "survived", ""
        if b.returncode != 0: st = "nobuild"
        else:
            for pr in PROPS:
                try:
                    r = subprocess.run([exe, "check", "--property", pr, "--cases", str(a.cases if pr == "ALL" else a.cases // 2), "--replays", d + "/rep"], env=dict(env, TMPDIR="/tmp"), capture_output=True, text=True, timeout=300)
                    rc = r.returncode
                except subprocess.TimeoutExpired: rc = 99
                if rc == 1: st, by = "killed", pr; m["msg"] = ([x for x in r.stdout.split("\n") if "/" in x] or [""])[0][:160]; break
                if rc != 0: st, by = "error", f"{pr}:{rc}"; break
        open(p, "w").write(src)
        m["status"] = st; m["by"] = by
        with lock:
            outf.write(json.dumps(m) + "\n"); outf.flush()
ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
from collections import Counter
print(Counter(json.loads(l)["status"] for l in open(a.out)))
