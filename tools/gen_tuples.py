#!/usr/bin/env python3
"""Writes a crate whose program knows many tuple shapes: gen_tuples.py SEED quick|thorough OUTDIR HARNESSDIR
Tuple notation is resolved at compile time, so the inputs of C09 and C10 are generated as Rust source.
A shape is a nested list: a node is the list of its children. A leaf is spelled `n()` or `(n(),)`."""
import os, random, sys
seed, tier, out, harness = int(sys.argv[1]), sys.argv[2], sys.argv[3], sys.argv[4]
quick = tier != "thorough"
rnd = random.Random(seed)

memo = {}
def forests(n):
    """All ordered forests with n nodes."""
    if n not in memo:
        memo[n] = [()] if n == 0 else [(t,) + f for k in range(1, n + 1) for t in trees(k) for f in forests(n - k)]
    return memo[n]
def trees(n): return [f for f in forests(n - 1)]
def count(t): return 1 + sum(count(c) for c in t)
def spec(t): return "(" + "".join(spec(c) for c in t) + ")"
def tup(xs): return "(" + ", ".join(xs) + ("," if len(xs) == 1 else "") + ")"
def expr(t, top=True):
    if not t: return "(n(),)" if rnd.random() < 0.35 else "n()"
    return tup(["n()"] + [expr(c, False) for c in t])
def fexpr(f): return tup([expr(c) for c in f])

def leafy(k): return tuple(() for _ in range(k))
def rand_tree(n, style):
    """A random tree of n nodes, no wider than 32."""
    par = [None]; kids = [[]]
    for i in range(1, n):
        while True:
            if style == 0: p = rnd.randrange(i)
            elif style == 1: p = max(0, i - 1 - rnd.randrange(3))
            elif style == 2: p = i - 1 if rnd.random() < 0.8 else rnd.randrange(i)
            elif style == 3: p = rnd.randrange(max(1, i // 4))
            else: p = rnd.choice([0, i - 1, rnd.randrange(i)])
            if len(kids[p]) < 32: break
        kids.append([]); kids[p].append(i)
    def build(i): return tuple(build(k) for k in kids[i])
    sys.setrecursionlimit(10000)
    return build(0)

ents = []  # (forest?, shape)
full = 7 if quick else 8
for n in range(1, full + 1): ents += [(False, t) for t in trees(n)]
for n in range(0, full): ents += [(True, f) for f in forests(n)]
for w in range(1, 33):
    a = leafy(w)
    ents.append((False, a)); ents.append((True, a))
    # every arity with branches among the children
    b = list(a)
    for _ in range(1 + w // 6): b[rnd.randrange(w)] = rnd.choice(trees(rnd.randrange(2, 5)))
    ents.append((rnd.random() < 0.5, tuple(b)))
    if w % 4 == 0: ents.append((False, (tuple(b), ())))
for d in [8, 16, 24] + ([40, 60] if not quick else [40]):
    t = ()
    for _ in range(d): t = (t,) if rnd.random() < 0.7 else ((), t) if rnd.random() < 0.5 else (t, ())
    ents.append((False, t)); ents.append((True, (t, ())))
for i in range(90 if quick else 900):
    n = rnd.choice([7, 8, 9, 10, 12, 15, 20, 30, 45])
    t = rand_tree(n, rnd.randrange(5))
    ents.append((False, t) if rnd.random() < 0.6 else (True, t))
seen = set(); uniq = []
for e in sorted(ents, key=lambda e: count(e[1])):
    if e not in seen: seen.add(e); uniq.append(e)
mods = 8
os.makedirs(f"{out}/src", exist_ok=True)
def w(p, s):
    # leave unchanged files alone, for cargo
    try:
        if open(p).read() == s: return
    except OSError: pass
    open(p, "w").write(s)
w(f"{out}/Cargo.toml", f"""[package]
name = "tup"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
vt = {{ path = "{harness}" }}
trees = {{ path = "/repo" }}

[profile.dev]
opt-level = 0
debug = 0
overflow-checks = true
incremental = false
codegen-units = 32

[profile.dev.package.vt]
opt-level = 1
overflow-checks = false
codegen-units = 16

# no overflow checks, no debug assertions
[profile.rel]
inherits = "dev"
overflow-checks = false
debug-assertions = false
""")
body = ["#![recursion_limit = \"1024\"]\nuse vt::tok::Lay; use vt::wt::{Entry, Job, drive_tree, drive_forest};\n"]
rows = []
for k, (f, t) in enumerate(uniq):
    e = fexpr(t) if f else expr(t)
    if not f and not t: e = ["n()", "(n(),)"][k % 2]
    if e == "()": body.append(f"fn f{k}<L: Lay>(j: &mut Job<L>) {{ drive_forest((), j) }}\n")
    else: body.append(f"fn f{k}<L: Lay>(j: &mut Job<L>) {{ let t = {{ let mut n = || j.next(); {e} }}; drive_{'forest' if f else 'tree'}(t, j) }}\n")
    rows.append(f"Entry {{ forest: {'true' if f else 'false'}, spec: \"{spec(t)}\", expr: \"{e.replace('n()','_')}\", run: f{k}::<L> }}")
body.append(f"fn table<L: Lay>() -> Vec<Entry<L>> {{ vec![\n" + ",\n".join(rows) + "] }\n")
body.append("fn main() { vt::wt::register(table(), vt::wt::sub(table(), 1)); std::process::exit(vt::driver::main()) }\n".replace("vt::wt::sub(table(), 1)", "Vec::new()" if quick else "table()"))
w(f"{out}/src/main.rs", "".join(body))
print(len(uniq), "tuple shapes")
