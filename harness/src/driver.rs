//! The search driver: worker processes, confirmation, shrinking, evidence.
use crate::gen::{self, Spec};
use crate::util::*;
use crate::{alloc, tok};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}
/// Limits the processor time until the next call; SIGVTALRM ends the process.
fn cpu_alarm(secs: i64) { unsafe { setitimer(1, &[0, 0, secs, 0], std::ptr::null_mut()); } }
const SIGVTALRM: i32 = 26;
const SIGKILL: i32 = 9;

pub struct Outcome { pub fails: Vec<Fail>, pub soft: Option<Fail>, pub feats: [u32; NFEAT], pub log: u64, pub nodes: u64 }

pub fn run_one(sp: &'static Spec, case: &Case, trace: bool) -> Outcome {
    tok::reset();
    let mut cx = Cx::new(sp.id, trace);
    alloc::begin();
    let r = catch(|| gen::run_world(sp, case, &mut cx));
    let pm = last_panic();
    let clean = match r {
        Ok(Ok(())) => true,
        Ok(Err(Stop)) => false,
        Err(p) => {
            drop(p);
            cx.fail(&["*"], format!("unexpected panic in step {}: {pm}", cx.step));
            false
        }
    };
    drop(pm);
    let reg = tok::clear();
    if let Some(e) = reg.errors.first() { if clean { cx.fail(&["C04", "C05", "C22", "C24", "C29", "C30"], e.clone()) } }
    let alive = reg.alive;
    drop(reg);
    if clean && cx.fails.is_empty() && alive != 0 && !cx.leak_ok { cx.fail(&["C04", "C05", "C22", "C24"], format!("{alive} values were never dropped")) }
    let rep = alloc::end();
    if rep.err != 0 && (clean || cx.fails.is_empty()) { cx.fail(&["C05", "C24", "C29", "C30", "C33"], alloc::describe(rep.err)) }
    if clean && cx.fails.is_empty() && rep.live != 0 && !cx.leak_ok {
        cx.fail(&["C05", "C24", "C33"], format!("{} blocks ({} bytes) are still allocated after everything was dropped", rep.live, rep.bytes))
    }
    Outcome { fails: cx.fails, soft: cx.soft, feats: cx.feats, log: cx.log, nodes: cx.nodes_seen }
}
/// The first failure that counts for this property.
fn relevant(o: &Outcome) -> Option<&Fail> { o.fails.first() }

fn limits() {
    unsafe { setrlimit(4, &[0, 0]); } // no core files
    if std::env::var("VT_NOAS").is_err() { unsafe { setrlimit(9, &[4 << 30, 4 << 30]); } }
}

fn nontrivial(sp: &Spec, o: &Outcome) -> bool { sp.feats.is_empty() || sp.feats.iter().any(|f| o.feats[*f] > 0) }

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("run") => run(&a[1..]),
        Some("worker") => worker(&a[1..]),
        Some("exec") => exec(&a[1..]),
        Some("digest") => digest(&a[1..]),
        Some("finding") => finding(&a[1..]),
        _ => { eprintln!("vt run|worker|exec|digest ..."); 2 }
    }
}

/// worker <id> <seed> <from> <step> <count> <dir> <name> <secs>
pub fn worker(a: &[String]) -> i32 {
    let sp = gen::spec(&a[0]).unwrap();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, from, step, count, secs) = (n(1), n(2), n(3), n(4), n(7));
    let dir = PathBuf::from(&a[5]);
    let name = &a[6];
    install_hook();
    limits();
    let cur = fs::File::create(dir.join(format!("{name}.cur"))).unwrap();
    let mut hashes: Vec<u64> = vec![];
    let mut feats = [0u64; NFEAT];
    let (mut evals, mut nontriv, mut foreign, mut failed, mut nodes, mut ops) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<(u64, Case)> = vec![];
    let mut foreign_msg = String::new();
    let mut fails = String::new();
    let start = Instant::now();
    let mut i = from;
    let mut last = from;
    for k in 0..count {
        if k % 64 == 0 && start.elapsed() > Duration::from_secs(secs) { break }
        let case = gen::gen(sp, seed, i);
        let _ = cur.write_at(&i.to_le_bytes(), 0);
        if k % 16 == 0 { cpu_alarm(10) }
        let o = run_one(sp, &case, false);
        last = i;
        evals += 1;
        nodes += o.nodes;
        ops += case.ops.len() as u64;
        for (x, y) in feats.iter_mut().zip(o.feats) { *x += (y > 0) as u64 }
        if let Some(f) = relevant(&o) {
            failed += 1;
            fails += &format!("FAIL {i} {}\n", f.msg.replace('\n', " "));
            if failed >= 3 { break }
        } else if let Some(f) = &o.soft { foreign += 1; if foreign_msg.is_empty() { foreign_msg = format!("{:?} {}", f.tags, f.msg) } }
        if nontrivial(sp, &o) {
            nontriv += 1;
            hashes.push(case.hash64());
            if samples.len() < 2 { samples.push((o.nodes, case)) }
        }
        i += step;
    }
    cpu_alarm(0);
    hashes.sort();
    hashes.dedup();
    let mut b = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes { b.extend(h.to_le_bytes()) }
    fs::write(dir.join(format!("{name}.hash")), b).unwrap();
    let mut s = format!("STAT {evals} {nontriv} {foreign} {nodes} {ops} {last}\n");
    for (k, f) in feats.iter().enumerate() { if *f > 0 { s += &format!("FEAT {k} {f}\n") } }
    for (_, c) in &samples { s += &format!("SAMPLE {}\n", c.to_json(sp.id)) }
    if foreign > 0 { s += &format!("FOREIGN {}\n", foreign_msg.replace('\n', " ")) }
    s += &fails;
    s += "DONE\n";
    fs::write(dir.join(format!("{name}.out")), s).unwrap();
    0
}

/// exec <case file> [trace]: runs one case; exit 3 and a line FAIL when it violates its property.
pub fn exec(a: &[String]) -> i32 {
    let text = fs::read_to_string(&a[0]).unwrap();
    let id = text.split("\"property\":\"").nth(1).and_then(|s| s.split('"').next()).unwrap_or("").to_string();
    let Some(sp) = gen::spec(&id) else { println!("unknown property {id}"); return 2 };
    install_hook();
    limits();
    let trace = a.get(1).map_or(false, |x| x == "trace");
    if let Some(r) = text.split("\"range\":[").nth(1) {
        // a range of cases in one process: [seed, from, step, count]
        let v: Vec<u64> = r.split(']').next().unwrap().split(',').filter_map(|x| x.trim().parse().ok()).collect();
        let mut i = v[1];
        for _ in 0..v[3] {
            cpu_alarm(40);
            let o = run_one(sp, &gen::gen(sp, v[0], i), false);
            if let Some(f) = relevant(&o) { println!("FAIL case {i}: {}", f.msg); return 3 }
            i += v[2];
        }
        println!("OK");
        return 0;
    }
    let Some(case) = Case::from_json(&text) else { println!("bad case file"); return 2 };
    cpu_alarm(40);
    if trace { println!("case of {} ({} operations)", id, case.ops.len()) }
    let o = run_one(sp, &case, trace);
    cpu_alarm(0);
    if trace { for f in &o.fails { println!("  {:?} {}", f.tags, f.msg) } }
    match relevant(&o) { Some(f) => { println!("FAIL {}", f.msg.replace('\n', " ")); 3 } None => { println!("OK {:016x}", o.log); 0 } }
}

/// digest <id> <seed> <from> <step> <count>: one line per case with what was observed.
pub fn digest(a: &[String]) -> i32 {
    let sp = gen::spec(&a[0]).unwrap();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    install_hook();
    limits();
    let mut i = n(2);
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for _ in 0..n(4) {
        cpu_alarm(20);
        let o = run_one(sp, &gen::gen(sp, n(1), i), false);
        let first = o.fails.first().or(o.soft.as_ref());
        let f = first.map_or(String::new(), |f| f.msg.split(" at ").next().unwrap_or("").replace('\n', " "));
        let _ = writeln!(out, "{i} {:016x} {} {}", o.log, o.nodes, if first.is_none() { "-".into() } else { f });
        let _ = out.flush();
        i += n(3);
    }
    0
}

#[derive(Debug, Clone)]
enum Res { Ok, Fail(String), Killed }

fn exe() -> PathBuf { std::env::current_exe().unwrap() }
fn exec_file(bin: &Path, f: &Path) -> Res {
    let o = Command::new(bin).arg("exec").arg(f).stderr(Stdio::null()).stdin(Stdio::null()).output().unwrap();
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    if let Some(s) = o.status.signal() {
        return match s { SIGKILL | 15 => Res::Killed, SIGVTALRM => Res::Fail("does not terminate (processor time limit)".into()), _ => Res::Fail(format!("the process was ended by signal {s}")) };
    }
    match o.status.code() {
        Some(0) => Res::Ok,
        Some(3) => Res::Fail(text.lines().find(|l| l.starts_with("FAIL ")).unwrap_or("FAIL").trim_start_matches("FAIL ").to_string()),
        c => Res::Fail(format!("the process ended with {c:?}")),
    }
}
fn try_case(bin: &Path, id: &str, c: &Case, tmp: &Path) -> Res {
    fs::write(tmp, c.to_json(id)).unwrap();
    exec_file(bin, tmp)
}
/// Makes a failing case smaller while it keeps failing.
fn shrink(bin: &Path, id: &str, mut c: Case, mut msg: String, dir: &Path, budget: Duration) -> (Case, String, usize) {
    let start = Instant::now();
    let mut tries = 0;
    // hangs are slow to confirm
    let budget = if msg.contains("terminate") { Duration::from_secs(0) } else { budget };
    let mut attempt = |d: &Case, msg: &mut String| -> bool {
        if start.elapsed() > budget { return false }
        tries += 1;
        match try_case(bin, id, d, &dir.join("shrink.json")) { Res::Fail(m) if !m.contains("terminate") => { *msg = m; true } _ => false }
    };
    let mut size = (c.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < c.ops.len() {
            let mut d = c.clone();
            d.ops.drain(i..(i + size).min(c.ops.len()));
            if attempt(&d, &mut msg) { c = d; changed = true } else { i += size }
        }
        if size > 1 { size /= 2 } else if !changed { break }
        if start.elapsed() > budget { break }
    }
    for i in 0..c.ops.len() {
        for j in 1..5 {
            for v in [0u16, 1, 2, 3, 8, c.ops[i][j] / 16, c.ops[i][j] % 8, c.ops[i][j] / 2] {
                if v < c.ops[i][j] { let mut d = c.clone(); d.ops[i][j] = v; if attempt(&d, &mut msg) { c = d; break } }
            }
        }
    }
    for i in 1..4 { for v in [0u16, c.params[i] % 16] { if v < c.params[i] { let mut d = c.clone(); d.params[i] = v; if attempt(&d, &mut msg) { c = d; break } } } }
    (c, msg, tries)
}

struct Opt { id: String, tier: String, seed: u64, verif: PathBuf, label: String, bin: PathBuf, frac: f64 }

/// run <id> <tier> <seed> <verif dir>
pub fn run(a: &[String]) -> i32 {
    let o = Opt { id: a[0].clone(), tier: a[1].clone(), seed: a[2].parse().unwrap_or(1), verif: PathBuf::from(&a[3]), label: String::new(), bin: exe(), frac: 1.0 };
    let Some(sp) = gen::spec(&o.id) else { println!("unknown property {}", o.id); return 2 };
    let start = Instant::now();
    let dir = o.verif.join("out").join(&o.id);
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let quick = o.tier != "thorough";
    let mut ev = Ev::default();
    let mut bins = vec![(String::new(), o.bin.clone(), if let Some(d) = o.tier.strip_prefix("scan") { sp.cases.0 / d.parse::<usize>().unwrap_or(10) } else if quick { sp.cases.0 } else { sp.cases.1 })];
    if let Ok(p) = std::env::var("VT_ASAN_BIN") { bins.push(("asan".into(), PathBuf::from(p), if quick { sp.cases.0 / 6 } else { sp.cases.1 / 8 })) }
    if let Ok(p) = std::env::var("VT_REL_BIN") { bins.push(("release".into(), PathBuf::from(p), if quick { sp.cases.0 / 3 } else { sp.cases.1 / 4 })) }
    let mut violation: Option<(String, PathBuf)> = None;
    // C31 only compares: what fails in both builds alike is none of its business
    if sp.id == "C31" { bins.clear() }
    for (label, bin, n) in &bins {
        let o = Opt { label: label.clone(), bin: bin.clone(), id: o.id.clone(), tier: o.tier.clone(), seed: o.seed, verif: o.verif.clone(), frac: o.frac };
        let cap = if quick { 240 } else { 600 };
        match search(sp, &o, *n as u64, cap, &dir, &mut ev) {
            Ok(None) => {}
            Ok(Some(v)) => { violation = Some(v); break }
            Err(e) => { println!("error: {e}"); return 2 }
        }
    }
    if violation.is_none() && sp.id == "C31" {
        match compare_builds(sp, &o, &mut ev, &dir) { Ok(v) => violation = v, Err(e) => { println!("error: {e}"); return 2 } }
    }
    if sp.id == "C09" || sp.id == "C10" { ev.extra.push(("tuple_shapes_compiled".into(), crate::wt::len().to_string())) }
    write_evidence(sp, &o, &ev, start.elapsed().as_secs_f64(), violation.is_some());
    known_findings(&o);
    for (_, v) in &ev.notes { println!("{v}") }
    println!("{}: {} cases, {} distinct non-trivial, {} nodes compared, {:.1} s", sp.id, ev.evals, ev.hashes.len(), ev.nodes, start.elapsed().as_secs_f64());
    if ev.foreign > 0 { println!("note: {} cases saw another property fail: {}", ev.foreign, ev.foreign_msg) }
    if let Some((msg, path)) = violation {
        println!("{msg}");
        println!("VIOLATION property={} replay={}", sp.id, path.display());
        return 1;
    }
    0
}

/// Prints the listed findings of this property that (still) show.
fn known_findings(o: &Opt) {
    let text = fs::read_to_string(o.verif.join("known_findings.txt")).unwrap_or_default();
    for l in text.lines().filter(|l| l.starts_with(&format!("KNOWN-FINDING: property={} ", o.id))) {
        let k = l.split('[').nth(1).and_then(|s| s.split(']').next()).unwrap_or("");
        let st = Command::new(&o.bin).args(["finding", k]).stdout(Stdio::null()).stderr(Stdio::null()).stdin(Stdio::null()).status();
        if st.map_or(false, |s| s.code() == Some(3)) { println!("{l}") }
    }
}
/// finding <name>: exit 3 when the known finding shows.
pub fn finding(a: &[String]) -> i32 {
    use trees::{tr, Tree};
    let shows = match a[0].as_str() {
        "K1" => {
            let mut t: Tree<i32> = tr(0) / tr(1) / tr(2);
            let mut u: Tree<i32> = tr(3) / tr(4);
            std::mem::swap(&mut *t.front_mut().unwrap(), &mut *u.front_mut().unwrap());
            // the swapped nodes took their links with them
            let bad = t.front().unwrap().parent().map(|p| *p.data()) != Some(0);
            std::mem::forget((t, u));
            bad
        }
        "K2" => {
            alloc::begin();
            let mut t: Tree<u64> = tr(0x0102_0304) / tr(0x0506_0708);
            let mut n = t.front_mut().unwrap();
            drop(n.detach());
            let v = catch(|| *n.data()).unwrap_or(0);
            std::mem::forget(t);
            alloc::end();
            v != 0x0506_0708
        }
        "K3" => {
            let mut t: Tree<i32> = tr(0) / tr(1) / tr(2);
            let mut it = t.iter_mut();
            let mut first = it.next().unwrap();
            let second = it.next().unwrap();
            let shared: &i32 = second.parent().unwrap().front().unwrap().data();
            let before = unsafe { std::ptr::read_volatile(shared) };
            *first.data_mut() = 7; // an exclusive borrow of what `shared` refers to
            before != unsafe { std::ptr::read_volatile(shared) }
        }
        _ => false,
    };
    if shows { 3 } else { 0 }
}

#[derive(Default)]
struct Ev {
    evals: u64, nontriv: u64, foreign: u64, nodes: u64, ops: u64, foreign_msg: String,
    hashes: HashSet<u64>, feats: BTreeMap<usize, u64>, samples: Vec<String>, notes: Vec<(String, String)>, extra: Vec<(String, String)>,
}

fn search(sp: &'static Spec, o: &Opt, n: u64, cap: u64, dir: &Path, ev: &mut Ev) -> Result<Option<(String, PathBuf)>, String> {
    let ws = 8u64;
    let per = (n + ws - 1) / ws;
    // `label` changes the seed, so that variants explore different cases
    let seed = o.seed.wrapping_mul(1000) + o.label.len() as u64;
    let spawn = |w: u64, from: u64, count: u64, name: &str| {
        let mut c = Command::new(&o.bin);
        c.args(["worker", sp.id, &seed.to_string(), &from.to_string(), &ws.to_string(), &count.to_string()]).arg(dir).arg(name).arg(cap.to_string());
        c.stdout(Stdio::null()).stdin(Stdio::null()).stderr(fs::File::create(dir.join(format!("{name}.err"))).unwrap());
        let _ = w;
        c.spawn().unwrap()
    };
    let mut kids: Vec<_> = (0..ws).map(|w| (w, w, per, spawn(w, w, per, &format!("{}w{w}", o.label)), 0)).collect();
    let mut failing: Vec<(u64, String, u64, u64)> = vec![]; // index, message, from, count up to it
    let mut k = 0;
    while k < kids.len() {
        let (w, from, count, ref mut ch, attempt) = kids[k];
        let st = ch.wait().map_err(|e| e.to_string())?;
        let name = if attempt == 0 { format!("{}w{w}", o.label) } else { format!("{}w{w}r{attempt}", o.label) };
        let out = fs::read_to_string(dir.join(format!("{name}.out"))).unwrap_or_default();
        if out.ends_with("DONE\n") {
            for l in out.lines() {
                let f: Vec<&str> = l.splitn(2, ' ').collect();
                let nums = || -> Vec<u64> { f[1].split(' ').map(|x| x.parse().unwrap_or(0)).collect() };
                match f[0] {
                    "STAT" => { let v = nums(); ev.evals += v[0]; ev.nontriv += v[1]; ev.foreign += v[2]; ev.nodes += v[3]; ev.ops += v[4] }
                    "FEAT" => { let v = nums(); *ev.feats.entry(v[0] as usize).or_default() += v[1] }
                    "SAMPLE" => if ev.samples.len() < 4 { ev.samples.push(f[1].to_string()) },
                    "FOREIGN" => ev.foreign_msg = f[1].into(),
                    "FAIL" => { let (i, m) = f[1].split_once(' ').unwrap_or((f[1], "")); let i = i.parse().unwrap_or(0); failing.push((i, m.into(), from, (i - from) / ws + 1)) }
                    _ => {}
                }
            }
            let mut b = vec![];
            if let Ok(mut f) = fs::File::open(dir.join(format!("{name}.hash"))) { let _ = f.read_to_end(&mut b); }
            for ch in b.chunks_exact(8) { ev.hashes.insert(u64::from_le_bytes(ch.try_into().unwrap())); }
        } else {
            // it died: the current case did it
            let b = fs::read(dir.join(format!("{name}.cur"))).unwrap_or_default();
            let i = if b.len() >= 8 { u64::from_le_bytes(b[..8].try_into().unwrap()) } else { from };
            let sig = st.signal().unwrap_or(0);
            if sig == SIGKILL || sig == 15 {
                if attempt >= 2 { return Err(format!("a worker was killed ({st})")) }
                let nm = format!("{}w{w}r{}", o.label, attempt + 1);
                let ch = spawn(w, from, count, &nm);
                kids.push((w, from, count, ch, attempt + 1));
            } else {
                let m = if sig == SIGVTALRM { "does not terminate (processor time limit)".to_string() } else { format!("the process ended: {st}") };
                ev.evals += (i - from) / ws + 1;
                failing.push((i, m, from, (i - from) / ws + 1));
            }
        }
        k += 1;
    }
    failing.sort();
    let tmp = dir.join("confirm.json");
    let mut unconfirmed = None;
    for (i, m, from, count) in failing.iter().take(6) {
        let case = gen::gen(sp, seed, *i);
        match try_case(&o.bin, sp.id, &case, &tmp) {
            Res::Fail(msg) => {
                let (c, msg, tries) = shrink(&o.bin, sp.id, case.clone(), msg, dir, Duration::from_secs(if o.tier.starts_with("scan") { 0 } else { 25 }));
                let f = o.verif.join("out").join(format!("replay-{}{}.json", sp.id, if o.label.is_empty() { String::new() } else { format!("-{}", o.label) }));
                let text = c.to_json(sp.id);
                let text = format!("{},\"message\":{},\"build\":{},\"shrunk_from_ops\":{},\"shrink_tries\":{}}}\n", &text[..text.len() - 1], json_str(&msg), json_str(&o.label), case.ops.len(), tries);
                fs::write(&f, text).unwrap();
                return Ok(Some((format!("case {i}: {msg}"), f)));
            }
            Res::Killed => return Err("a confirmation run was killed".into()),
            Res::Ok => {
                if m.contains("terminate") { ev.notes.push((String::new(), format!("note: case {i} ran out of processor time once, but not when repeated"))); continue }
                if unconfirmed.is_none() { unconfirmed = Some((*i, m.clone(), *from, *count)) }
            }
        }
    }
    if let Some((i, m, from, count)) = unconfirmed {
        // fails only after the cases before it in the same process
        let f = o.verif.join("out").join(format!("replay-{}.json", sp.id));
        fs::write(&f, format!("{{\"property\":\"{}\",\"range\":[{seed},{from},{ws},{count}],\"message\":{},\"build\":{}}}\n", sp.id, json_str(&m), json_str(&o.label))).unwrap();
        return Ok(Some((format!("case {i} (only after the cases before it): {m}"), f)));
    }
    Ok(None)
}

fn compare_builds(sp: &'static Spec, o: &Opt, ev: &mut Ev, dir: &Path) -> Result<Option<(String, PathBuf)>, String> {
    let other = PathBuf::from(std::env::var("VT_NOSTD_BIN").map_err(|_| "VT_NOSTD_BIN is not set")?);
    let n = if o.tier == "thorough" { sp.cases.1 / 2 } else { sp.cases.0 } as u64;
    let ws = 4u64;
    let seed = o.seed.wrapping_mul(1000) + 77;
    let spawn = |bin: &Path, w: u64, name: String| Command::new(bin).args(["digest", sp.id, &seed.to_string(), &w.to_string(), &ws.to_string(), &(n / ws).to_string()])
        .stdin(Stdio::null()).stderr(Stdio::null()).stdout(fs::File::create(dir.join(name)).unwrap()).spawn().unwrap();
    let kids: Vec<_> = (0..ws).flat_map(|w| [spawn(&o.bin, w, format!("std{w}")), spawn(&other, w, format!("nostd{w}"))]).collect();
    let sts: Vec<_> = kids.into_iter().map(|mut k| k.wait().unwrap()).collect();
    if sts.iter().any(|s| matches!(s.signal(), Some(9) | Some(15))) { return Err("a digest run was killed".into()) }
    let mut same = 0u64;
    for w in 0..ws {
        let a = fs::read_to_string(dir.join(format!("std{w}"))).unwrap_or_default();
        let b = fs::read_to_string(dir.join(format!("nostd{w}"))).unwrap_or_default();
        let (a, b): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
        for k in 0..(n / ws) as usize {
            let (x, y) = (a.get(k).cloned().unwrap_or("ended"), b.get(k).cloned().unwrap_or("ended"));
            if x == "ended" && y == "ended" { break }
            if x != y {
                let i = w + ws * k as u64;
                let c = gen::gen(sp, seed, i);
                let f = o.verif.join("out").join(format!("replay-{}.json", sp.id));
                let text = c.to_json(sp.id);
                fs::write(&f, format!("{},\"std\":{},\"no_std\":{}}}\n", &text[..text.len() - 1], json_str(x), json_str(y))).unwrap();
                return Ok(Some((format!("case {i}: the two builds differ: {x} / {y}"), f)));
            }
            same += 1;
            let c = gen::gen(sp, seed, w + ws * k as u64);
            ev.ops += c.ops.len() as u64;
            ev.nodes += x.split(' ').nth(2).and_then(|n| n.parse::<u64>().ok()).unwrap_or(0);
            if !c.ops.is_empty() { ev.hashes.insert(c.hash64()); ev.nontriv += 1; if ev.samples.len() < 4 { ev.samples.push(c.to_json(sp.id)) } }
        }
    }
    ev.extra.push(("histories_compared_between_builds".into(), same.to_string()));
    ev.evals += same;
    Ok(None)
}

fn write_evidence(sp: &Spec, o: &Opt, ev: &Ev, wall: f64, viol: bool) {
    let feats: Vec<String> = ev.feats.iter().map(|(k, v)| format!("{}: {v}", json_str(&gen::feat_name(*k)))).collect();
    let samples: Vec<String> = ev.samples.iter().cloned().collect();
    let extra: String = ev.extra.iter().map(|(k, v)| format!(", {}: {v}", json_str(k))).collect();
    let s = format!("{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"operations\":{},\"nodes_compared\":{},\"cases_ended_by_other_properties\":{},\"cases_exercising\":{{{}}}{extra}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        sp.id, if o.tier == "thorough" { "thorough" } else { "quick" }, o.seed, ev.evals, ev.hashes.len(),
        json_str(&format!("Seeded random histories; distinct by the hash of the generated case; non-trivial: {}", sp.rule)), samples.join(","), ev.ops, ev.nodes, ev.foreign, feats.join(","),
        json_str("single-threaded histories; user types behave (no panics, no unsafe) unless the property is about them"), wall, viol as u32);
    let _ = fs::create_dir_all(o.verif.join("evidence"));
    fs::write(o.verif.join("evidence").join(format!("{}.json", sp.id)), s).unwrap();
}
