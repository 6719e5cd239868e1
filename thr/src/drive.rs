//! Search over cases: natively, under ThreadSanitizer, under Miri.
use crate::{auto, case, sys};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};
use vt::util::{json_str, Case};

fn one(c: &Case, feats: &mut [u32; 32]) -> Option<String> {
    sys::reset();
    let _ = sys::take_fail();
    let live = sys::LIVE.load(Relaxed);
    if let Err(_) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case::run(c, feats))) { sys::fail("the main thread panicked".into()) }
    if let Some(f) = sys::take_fail() { return Some(f) }
    if let Some(f) = sys::account() { return Some(f) }
    let d = sys::LIVE.load(Relaxed) - live;
    if d != 0 { return Some(format!("{d} blocks are still allocated")) }
    None
}
/// cases <seed> <from> <step> <count> <secs>
pub fn cases(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let mut feats = [0u32; 32];
    let mut sums = [0u64; 32];
    let (mut i, start, mut done) = (n(1), Instant::now(), 0u64);
    // the first use of some things allocates for good
    one(&case::gen(1, 1), &mut feats);
    one(&case::gen(1, 1), &mut feats);
    let mut out = std::io::stdout();
    for k in 0..n(3) {
        if k % 16 == 0 && start.elapsed() > Duration::from_secs(n(4)) { break }
        let _ = out.write_all(format!("C {i}\n").as_bytes());
        let mut f = [0u32; 32];
        if let Some(m) = one(&case::gen(n(0), i), &mut f) { println!("FAIL {i} {m}"); return 3 }
        for (x, y) in sums.iter_mut().zip(f) { *x += (y > 0) as u64 }
        done += 1;
        i += n(2);
    }
    println!("DONE {done} {}", sums.map(|x| x.to_string()).join(" "));
    0
}
/// exec <file>
pub fn exec(a: &[String]) -> i32 {
    let text = if a[0] == "-" { a[1].clone() } else { fs::read_to_string(&a[0]).unwrap() };
    let Some(c) = Case::from_json(&text) else { println!("bad case"); return 2 };
    let mut f = [0u32; 32];
    one(&case::gen(1, 1), &mut f);
    match one(&c, &mut f) { Some(m) => { println!("FAIL {m}"); 3 } None => { println!("OK"); 0 } }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Eng { Native, Tsan, Miri }
struct Engines { native: PathBuf, tsan: Option<PathBuf>, miri: Option<PathBuf> }
impl Engines {
    fn cmd(&self, e: Eng, seed: u64) -> Command {
        match e {
            Eng::Native => Command::new(&self.native),
            Eng::Tsan => { let mut c = Command::new(self.tsan.as_ref().unwrap()); c.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:report_signal_unsafe=0"); c }
            Eng::Miri => { let mut c = Command::new(self.miri.as_ref().unwrap()); c.env("VT_MIRI_SEED", seed.to_string()); c }
        }
    }
}
/// What a run says: None when it is fine.
fn verdict(e: Eng, st: std::process::ExitStatus, out: &str, err: &str) -> Result<Option<String>, String> {
    if let Some(l) = out.lines().find(|l| l.starts_with("FAIL ")) { return Ok(Some(l[5..].to_string())) }
    let pick = |k: &str| err.lines().find(|l| l.contains(k)).map(|l| l.trim().chars().take(200).collect::<String>());
    match (st.code(), st.signal()) {
        (Some(0), _) => Ok(None),
        (_, Some(9)) | (_, Some(15)) => Err(format!("a run was killed under {e:?}")),
        (Some(66), _) if e == Eng::Tsan => Ok(Some(pick("WARNING: ThreadSanitizer").or(pick("ERROR: ThreadSanitizer")).unwrap_or("ThreadSanitizer report".into()))),
        (_, _) if e == Eng::Miri => match pick("Undefined Behavior").or(pick("memory leaked")).or(pick("abnormal termination")) { Some(m) => Ok(Some(m)), None => Err(format!("Miri ended with {st}: {}", err.lines().rev().take(5).collect::<Vec<_>>().join(" / "))) },
        (_, Some(s)) => Ok(Some(format!("the process was ended by signal {s}"))),
        (c, _) => Err(format!("{e:?} ended with {c:?}: {}", err.lines().take(5).collect::<Vec<_>>().join(" / "))),
    }
}
fn exec_case(en: &Engines, e: Eng, seed: u64, c: &Case) -> Result<Option<String>, String> {
    let o = en.cmd(e, seed).args(["exec", "-", &c.to_json("C32")]).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    verdict(e, o.status, &String::from_utf8_lossy(&o.stdout), &String::from_utf8_lossy(&o.stderr))
}
/// Repeats a case, as it may depend on the schedule. Gives the seed and the message of a failure.
fn confirm(en: &Engines, e: Eng, c: &Case, tries: u64) -> Result<Option<(u64, String)>, String> {
    for block in 0..(tries + 7) / 8 {
        let v: Vec<_> = std::thread::scope(|s| {
            let h: Vec<_> = (0..8).map(|k| { let seed = block * 8 + k; s.spawn(move || exec_case(en, e, seed, c).map(|r| r.map(|m| (seed, m)))) }).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in v { if let Some(x) = r? { return Ok(Some(x)) } }
    }
    Ok(None)
}
fn shrink(en: &Engines, e: Eng, seed: u64, mut c: Case, mut msg: String, budget: Duration) -> (Case, String) {
    let start = Instant::now();
    let mut fails = |d: &Case, msg: &mut String| -> bool {
        if start.elapsed() > budget { return false }
        // a schedule-dependent failure gets a few chances
        for k in 0..if e == Eng::Miri { 2 } else { 6 } { if let Ok(Some(m)) = exec_case(en, e, seed + k, d) { *msg = m; return true } }
        false
    };
    let mut size = (c.ops.len() / 2).max(1);
    loop {
        let (mut i, mut changed) = (0, false);
        while i < c.ops.len() {
            let mut d = c.clone();
            d.ops.drain(i..(i + size).min(c.ops.len()));
            if fails(&d, &mut msg) { c = d; changed = true } else { i += size }
        }
        if size > 1 { size /= 2 } else if !changed { break }
        if start.elapsed() > budget { break }
    }
    for i in 0..4 { for v in [0u16, 1, 3, 16] { if v < c.params[i] { let mut d = c.clone(); d.params[i] = v; if fails(&d, &mut msg) { c = d; break } } } }
    (c, msg)
}

/// run <id> <tier> <seed> <verif dir>
pub fn run(a: &[String]) -> i32 {
    let (id, tier, seed, verif) = (&a[0], &a[1], a[2].parse::<u64>().unwrap_or(1), PathBuf::from(&a[3]));
    let start = Instant::now();
    let quick = tier != "thorough";
    let en = Engines { native: std::env::current_exe().unwrap(), tsan: std::env::var("VT_TSAN_BIN").ok().map(PathBuf::from), miri: std::env::var("VT_MIRI").ok().map(PathBuf::from) };
    let dir = verif.join("out").join(id);
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let mut counts = vec![];
    let mut feats = [0u64; 32];
    let mut violation: Option<(String, PathBuf)> = None;
    let mut notes = vec![];
    if let Some(m) = auto::wrong() {
        let file = verif.join("out").join(format!("replay-{id}.json"));
        fs::write(&file, format!("{{\"property\":\"{id}\",\"engine\":\"auto traits\",\"message\":{}}}\n", json_str(&m))).unwrap();
        violation = Some((m, file));
    }
    let plan = [(Eng::Native, if quick { 300_000u64 } else { 8_000_000 }, if quick { 10 } else { 150 }), (Eng::Tsan, if quick { 80_000 } else { 2_000_000 }, if quick { 12 } else { 200 }), (Eng::Miri, if quick { 4_000 } else { 200_000 }, if quick { 30 } else { 450 })];
    'all: for (e, n, secs) in plan {
        if violation.is_some() { break }
        if e == Eng::Tsan && en.tsan.is_none() || e == Eng::Miri && en.miri.is_none() { continue }
        let ws = 8u64;
        let sd = seed * 1000 + e as u64;
        let t0 = Instant::now();
        let kids: Vec<_> = (0..ws).map(|w| {
            let name = dir.join(format!("{e:?}{w}"));
            en.cmd(e, seed * 100 + w).args(["cases", &sd.to_string(), &w.to_string(), &ws.to_string(), &(n / ws).to_string(), &secs.to_string()]).stdin(Stdio::null())
                .stdout(fs::File::create(name.with_extension("out")).unwrap()).stderr(fs::File::create(name.with_extension("err")).unwrap()).spawn().map(|c| (c, name, w))
        }).collect();
        let mut total = 0;
        let mut found = vec![];
        for k in kids {
            let (mut ch, name, w) = match k { Ok(x) => x, Err(x) => { println!("error: {e:?}: {x}"); return 2 } };
            let st = ch.wait().unwrap();
            let out = String::from_utf8_lossy(&fs::read(name.with_extension("out")).unwrap_or_default()).to_string();
            let err = String::from_utf8_lossy(&fs::read(name.with_extension("err")).unwrap_or_default()).to_string();
            let ran = out.lines().filter(|l| l.starts_with("C ")).count() as u64;
            total += ran;
            if let Some(d) = out.lines().find(|l| l.starts_with("DONE ")) { for (x, y) in feats.iter_mut().zip(d.split(' ').skip(2)) { *x += y.parse::<u64>().unwrap_or(0) } }
            match verdict(e, st, &out, &err) {
                Ok(None) => {}
                Ok(Some(m)) => { let i = out.lines().rev().find_map(|l| l.strip_prefix("C ")).and_then(|x| x.trim().parse::<u64>().ok()).unwrap_or(w); found.push((i, m, seed * 100 + w, w, ran)) }
                Err(m) => { println!("error: {m}"); return 2 }
            }
        }
        counts.push((format!("{e:?}"), total, t0.elapsed().as_secs_f64()));
        found.sort();
        for (i, m, ms, w, ran) in found.into_iter().take(4) {
            let c = case::gen(sd, i);
            // ThreadSanitizer does not understand fences: Miri (or a visible failure) has the last word on its races
            let race = e == Eng::Tsan && m.contains("data race");
            let r = if race {
                (if en.miri.is_some() { confirm(&en, Eng::Miri, &c, 16) } else { Ok(None) }).and_then(|r| match r { Some(x) => Ok(Some((Eng::Miri, x))), None => confirm(&en, Eng::Native, &c, 200).map(|r| r.map(|x| (Eng::Native, x))) })
            } else if e == Eng::Miri {
                // the schedule depends on the whole run: first alone, then as it was
                confirm(&en, e, &c, 32).map(|r| r.map(|x| (e, x)))
            } else { confirm(&en, e, &c, 200).map(|r| r.map(|x| (e, x))) };
            let r = match r { Ok(r) => r, Err(m) => { println!("error: {m}"); return 2 } };
            let file = verif.join("out").join(format!("replay-{id}.json"));
            match r {
                Some((eng, (sd2, m))) => {
                    let (c2, m) = shrink(&en, eng, sd2, c.clone(), m, Duration::from_secs(40));
                    let j = c2.to_json(id);
                    fs::write(&file, format!("{},\"engine\":\"{eng:?}\",\"schedule_seed\":{sd2},\"message\":{},\"shrunk_from_ops\":{}}}\n", &j[..j.len() - 1], json_str(&m), c.ops.len())).unwrap();
                    violation = Some((format!("case {i} ({eng:?}): {m}"), file));
                    break 'all;
                }
                None if race => notes.push(format!("note: ThreadSanitizer reported case {i}, which Miri does not confirm: {m}")),
                None => {
                    // seen once in a run of many cases; not reproduced alone, but the code did it
                    fs::write(&file, format!("{{\"property\":\"{id}\",\"engine\":\"{e:?}\",\"schedule_seed\":{ms},\"range\":[{sd},{w},{ws},{ran}],\"message\":{}}}\n", json_str(&m))).unwrap();
                    violation = Some((format!("case {i} ({e:?}, not reproduced alone): {m}"), file));
                    break 'all;
                }
            }
        }
    }
    let cases: u64 = counts.iter().map(|c| c.1).sum();
    let name = |k: usize| if k < case::OPS.len() { case::OPS[k].to_string() } else { match k { 20 => "ran".into(), 21 => "pieces_of_one_construction_in_different_threads".into(), 22 => "walker_read_by_several_threads".into(), 23 => "second_round".into(), _ => format!("f{k}") } };
    let fe: Vec<String> = feats.iter().enumerate().filter(|x| *x.1 > 0).map(|(k, v)| format!("{}: {v}", json_str(&name(k)))).collect();
    let en_s: Vec<String> = counts.iter().map(|c| format!("{}: {{\"cases\": {}, \"seconds\": {:.1}}}", json_str(&c.0), c.1, c.2)).collect();
    let samples: Vec<String> = (0..3).map(|i| case::gen(seed * 1000, i).to_json(id)).collect();
    let ev = format!("{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{cases},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"auto_trait_rows\":{},\"engines\":{{{}}},\"cases_exercising\":{{{}}}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        if quick { "quick" } else { "thorough" }, feats[case::F_SPLIT].max(1), json_str("Seeded random multi-threaded programs, each run once; non-trivial: pieces of one construction are in more than one thread (or a walker is shared) when the threads run"),
        samples.join(","), auto::table().len(), en_s.join(","), fe.join(","), json_str("schedules are those the operating system and Miri's seeded scheduler produce; race detection by happens-before covers others with the same order of synchronisation"), start.elapsed().as_secs_f64(), violation.is_some() as u32);
    let _ = fs::create_dir_all(verif.join("evidence"));
    fs::write(verif.join("evidence").join(format!("{id}.json")), ev).unwrap();
    for n in notes { println!("{n}") }
    println!("{id}: {} {:.1} s", counts.iter().map(|c| format!("{} cases {} in {:.1} s,", c.1, c.0, c.2)).collect::<Vec<_>>().join(" "), start.elapsed().as_secs_f64());
    if let Some((m, p)) = violation { println!("{m}"); println!("VIOLATION property={id} replay={}", p.display()); return 1 }
    0
}
