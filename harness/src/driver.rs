//! Runs the cases of one property in worker processes, watches the workers and writes the evidence.
//!
//! Verdicts are three-valued: a violation needs a case that fails again when it is run alone,
//! a run that saw too little ends with exit code 2, everything else is "held on what was observed".

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::obs::{Obs, Res};
use crate::rng::{hash_str, mix, Rng};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

pub struct Ctx {
    pub tier: Tier,
    pub idx: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// Counters that must reach a minimum, or the run is inconclusive.
    pub required: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut Rng, &Ctx, &mut Obs) -> Res,
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
}

const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

fn limit(resource: i32, v: u64) {
    unsafe {
        // The hard limit is a little higher, so that SIGXCPU comes before SIGKILL.
        setrlimit(resource, &RLimit { cur: v, max: if resource == RLIMIT_CPU { v + 10 } else { v } });
    }
}

/// CPU seconds after which a single case counts as not terminating. A case takes milliseconds.
const CASE_CPU_LIMIT: u64 = 20;
/// Wall seconds without progress after which a worker is stopped and its case is run alone.
const STALL: u64 = 30;
const MEM_LIMIT: u64 = 2 << 30;

static PANIC: Mutex<Option<String>> = Mutex::new(None);

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = Some(format!("panic at {}: {}", loc, msg));
        }
    }));
}

/// Runs `f` and returns the panic message if it panicked.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = PANIC.lock().ok().and_then(|mut p| p.take());
            Err(m.unwrap_or_else(|| "panic".to_string()))
        }
    }
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_str(id)).wrapping_add(idx))
}

fn run_case(p: &Prop, tier: Tier, seed: u64, idx: u64, obs: &mut Obs) -> Res {
    obs.begin();
    let mut rng = Rng::new(case_seed(seed, p.id, idx));
    let ctx = Ctx { tier, idx };
    match no_panic(|| (p.case)(&mut rng, &ctx, obs)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

/// Cases run on a thread with the usual size of a main thread's stack.
fn on_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap()
    })
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn trace_text(obs: &Obs) -> String {
    obs.trace.join("\n")
}

/// worker ID TIER SEED SHARD NSHARDS START TOTAL DEADLINE_S DIR
pub fn worker(p: &Prop, a: &[String]) -> i32 {
    let tier = tier_of(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let shard: u64 = a[2].parse().unwrap();
    let n: u64 = a[3].parse().unwrap();
    let start: u64 = a[4].parse().unwrap();
    let total: u64 = a[5].parse().unwrap();
    let deadline = Instant::now() + Duration::from_secs(a[6].parse().unwrap());
    let dir = PathBuf::from(&a[7]);

    limit(RLIMIT_AS, MEM_LIMIT);
    limit(RLIMIT_CORE, 0);
    install_hook();

    let progress = fs::OpenOptions::new()
        .create(true).write(true).truncate(true)
        .open(dir.join(format!("progress.{}", shard))).unwrap();

    let (obs, cases, bad, samples, cut) = on_stack(|| {
        let mut obs = Obs::default();
        let mut samples: Vec<String> = Vec::new();
        let mut cases = 0u64;
        let mut bad: Option<(u64, String, String)> = None;
        let mut cut = false;
        let mut idx = shard;
        while idx < start {
            idx += n;
        }
        while idx < total {
            if cases % 16 == 0 && Instant::now() > deadline {
                cut = true;
                break;
            }
            progress.write_at(&idx.to_le_bytes(), 0).unwrap();
            let before = obs.fps.len();
            let r = run_case(p, tier, seed, idx, &mut obs);
            cases += 1;
            if let Err(m) = r {
                bad = Some((idx, m, trace_text(&obs)));
                break;
            }
            if samples.len() < 2 && obs.fps.len() > before && !obs.trace.is_empty() {
                let mut t = trace_text(&obs);
                if t.len() > 1200 {
                    let mut e = 1200;
                    while !t.is_char_boundary(e) {
                        e -= 1;
                    }
                    t.truncate(e);
                    t.push_str(" ...");
                }
                samples.push(format!("case {}: {}", idx, t));
            }
            idx += n;
        }
        (obs, cases, bad, samples, cut)
    });

    let mut out = String::new();
    out.push_str(&format!("cases {}\n", cases));
    out.push_str(&format!("cut {}\n", cut as u8));
    for (k, v) in &obs.counters {
        out.push_str(&format!("C {} {}\n", k, v));
    }
    for s in &samples {
        out.push_str(&format!("S {}\n", esc(s)));
    }
    for s in &obs.known {
        out.push_str(&format!("K {}\n", esc(s)));
    }
    if let Some((i, m, t)) = &bad {
        out.push_str(&format!("V {} {}\n", i, esc(m)));
        out.push_str(&format!("T {}\n", esc(t)));
    }
    let mut fps = Vec::with_capacity(obs.fps.len() * 8);
    for f in &obs.fps {
        fps.extend_from_slice(&f.to_le_bytes());
    }
    fs::write(dir.join(format!("fps.{}.{}", shard, start)), fps).unwrap();
    let tmp = dir.join(format!("res.{}.{}.tmp", shard, start));
    fs::write(&tmp, out).unwrap();
    fs::rename(&tmp, dir.join(format!("res.{}.{}", shard, start))).unwrap();
    0
}

/// case ID TIER SEED IDX OUT: runs one case alone. Exit 0: held, 3: violated.
pub fn single(p: &Prop, a: &[String]) -> i32 {
    let tier = tier_of(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let idx: u64 = a[2].parse().unwrap();
    limit(RLIMIT_AS, MEM_LIMIT);
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_CPU, CASE_CPU_LIMIT);
    install_hook();
    let (r, t) = on_stack(|| {
        let mut obs = Obs::default();
        let r = run_case(p, tier, seed, idx, &mut obs);
        (r, trace_text(&obs))
    });
    match r {
        Ok(()) => 0,
        Err(m) => {
            if let Some(out) = a.get(3) {
                fs::write(out, format!("{}\n{}", esc(&m), esc(&t))).unwrap();
            } else {
                println!("{}\n{}", m, t);
            }
            3
        }
    }
}

/// plain ID TIER SEED FIRST N SECONDS: cases in this process, without limits, for sanitizers and interpreters.
pub fn plain(p: &Prop, a: &[String]) -> i32 {
    let tier = tier_of(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let first: u64 = a[2].parse().unwrap();
    let n: u64 = a[3].parse().unwrap();
    let end = Instant::now() + Duration::from_secs(a[4].parse().unwrap());
    install_hook();
    let (r, done) = on_stack(|| {
        let mut obs = Obs::default();
        let mut done = 0;
        for idx in first..first + n {
            if Instant::now() > end {
                break;
            }
            if let Err(m) = run_case(p, tier, seed, idx, &mut obs) {
                return (Err(format!("case {}: {}", idx, m)), done);
            }
            done += 1;
        }
        (Ok(()), done)
    });
    println!("cases {}", done);
    match r {
        Ok(()) => 0,
        Err(m) => {
            println!("{}", m);
            3
        }
    }
}

fn tier_of(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

struct Job {
    child: Child,
    shard: u64,
    start: u64,
    last: Option<u64>,
    since: Instant,
}

fn spawn(p: &Prop, tier: Tier, seed: u64, shard: u64, n: u64, start: u64, total: u64, left: u64, dir: &Path)
    -> std::io::Result<Job>
{
    let child = Command::new(std::env::current_exe()?)
        .arg("worker").arg(p.id).arg(tier.name())
        .args([seed, shard, n, start, total, left].iter().map(|v| v.to_string()))
        .arg(dir)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null())
        .spawn()?;
    Ok(Job { child, shard, start, last: None, since: Instant::now() })
}

fn read_progress(dir: &Path, shard: u64) -> Option<u64> {
    let b = fs::read(dir.join(format!("progress.{}", shard))).ok()?;
    let mut a = [0u8; 8];
    a.copy_from_slice(b.get(..8)?);
    Some(u64::from_le_bytes(a))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known_findings(verif: &Path, id: &str) -> Vec<(String, String)> {
    // finding: property=C14 key=text-ampersand what fails
    let mut v = Vec::new();
    if let Ok(t) = fs::read_to_string(verif.join("known-findings.txt")) {
        for l in t.lines() {
            let mut w = l.split_whitespace();
            if w.next() != Some("finding:") || w.next() != Some(&format!("property={}", id)) {
                continue;
            }
            if let Some(k) = w.next().and_then(|k| k.strip_prefix("key=")) {
                v.push((k.to_string(), w.collect::<Vec<_>>().join(" ")));
            }
        }
    }
    v
}

/// run ID TIER SEED VERIF_DIR
pub fn run(p: &Prop, tier: Tier, seed: u64, verif: &Path, extra: &str) -> i32 {
    let t0 = Instant::now();
    let jobs = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(4).min(16) as u64;
    let mut total = if tier == Tier::Quick { p.quick } else { p.thorough };
    if let Some(v) = std::env::var("MON_CASES").ok().and_then(|v| v.parse().ok()) {
        total = v;
    }
    let budget: u64 = std::env::var("MON_BUDGET_S").ok().and_then(|v| v.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 240 } else { 2400 });
    let evidence = verif.join("evidence");
    let dir = evidence.join(format!("work.{}.{}", p.id, std::process::id()));
    let replays = evidence.join("replays");
    fs::create_dir_all(&dir).unwrap();
    fs::create_dir_all(&replays).unwrap();

    let mut running: Vec<Job> = Vec::new();
    let n = jobs.min(total.max(1));
    for s in 0..n {
        running.push(spawn(p, tier, seed, s, n, 0, total, budget, &dir).expect("spawn"));
    }

    let mut bad: Vec<(u64, String, String)> = Vec::new();
    let mut inconclusive: Vec<String> = Vec::new();
    let mut restarts = 0;

    let mut stop = false;
    while !running.is_empty() {
        if stop {
            for j in &mut running {
                let _ = j.child.kill();
                let _ = j.child.wait();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
        let mut i = 0;
        while i < running.len() {
            let j = &mut running[i];
            let mut suspect: Option<(u64, String)> = None;
            let mut done = false;
            match j.child.try_wait() {
                Ok(Some(st)) => {
                    done = true;
                    if st.code() != Some(0) {
                        let what = match st.signal() {
                            Some(s) => format!("signal {}", s),
                            None => format!("exit {:?}", st.code()),
                        };
                        match read_progress(&dir, j.shard) {
                            Some(c) => suspect = Some((c, what)),
                            None => inconclusive.push(format!("worker {} ended with {} before its first case", j.shard, what)),
                        }
                    }
                }
                Ok(None) => {
                    let c = read_progress(&dir, j.shard);
                    if c != j.last {
                        j.last = c;
                        j.since = Instant::now();
                    } else if j.since.elapsed().as_secs() > STALL {
                        let _ = j.child.kill();
                        let _ = j.child.wait();
                        done = true;
                        match c {
                            Some(c) => suspect = Some((c, "no progress".to_string())),
                            None => inconclusive.push(format!("worker {} never started a case", j.shard)),
                        }
                    }
                }
                Err(e) => {
                    done = true;
                    inconclusive.push(format!("worker {}: {}", j.shard, e));
                }
            }
            if let Some((c, what)) = suspect {
                let (shard, start) = (j.shard, j.start);
                match confirm(p, tier, seed, c, &dir) {
                    Some((m, t)) => {
                        // One confirmed violation decides; the other workers could be in the same state.
                        bad.push((c, m, t));
                        stop = true;
                    }
                    None => {
                        // Not reproducible alone: not a verdict. Go on behind it.
                        inconclusive.push(format!("case {} ended with {} in a worker, but not alone", c, what));
                        restarts += 1;
                        if restarts < 5 {
                            let left = budget.saturating_sub(t0.elapsed().as_secs());
                            if let Ok(nj) = spawn(p, tier, seed, shard, n, c + 1, total, left, &dir) {
                                running.push(nj);
                            }
                        }
                    }
                }
                let _ = start;
            }
            if stop {
                break;
            }
            if done {
                running.swap_remove(i);
            } else {
                i += 1;
            }
        }
    }

    // Collect.
    let mut cases = 0u64;
    let mut cut = false;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut fps: HashSet<u64> = HashSet::new();
    let mut known: Vec<String> = Vec::new();
    if let Ok(rd) = fs::read_dir(&dir) {
        let mut names: Vec<PathBuf> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        names.sort();
        for f in names {
            let name = f.file_name().unwrap().to_string_lossy().to_string();
            if name.starts_with("fps.") {
                for c in fs::read(&f).unwrap_or_default().chunks_exact(8) {
                    let mut a = [0u8; 8];
                    a.copy_from_slice(c);
                    fps.insert(u64::from_le_bytes(a));
                }
            } else if name.starts_with("res.") && !name.ends_with(".tmp") {
                let t = fs::read_to_string(&f).unwrap_or_default();
                let mut v: Option<(u64, String)> = None;
                for l in t.lines() {
                    let (k, r) = l.split_once(' ').unwrap_or((l, ""));
                    match k {
                        "cases" => cases += r.parse::<u64>().unwrap_or(0),
                        "cut" => cut |= r == "1",
                        "C" => {
                            if let Some((a, b)) = r.rsplit_once(' ') {
                                *counters.entry(a.to_string()).or_insert(0) += b.parse::<u64>().unwrap_or(0);
                            }
                        }
                        "S" => if samples.len() < 4 { samples.push(unesc(r)) },
                        "K" => known.push(unesc(r)),
                        "V" => {
                            let (i, m) = r.split_once(' ').unwrap_or((r, ""));
                            v = Some((i.parse().unwrap_or(0), unesc(m)));
                        }
                        "T" => {
                            if let Some((i, m)) = v.take() {
                                bad.push((i, m, unesc(r)));
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    bad.sort();
    let _ = fs::remove_dir_all(&dir);

    // Known findings.
    let listed = known_findings(verif, p.id);
    known.sort();
    known.dedup();
    let mut shown = Vec::new();
    for k in &known {
        let (key, msg) = k.split_once(' ').unwrap_or((k, ""));
        match listed.iter().find(|(lk, _)| lk == key) {
            Some((_, d)) => shown.push(d.clone()),
            None => bad.push((u64::MAX, format!("unlisted finding {}: {}", key, msg), String::new())),
        }
    }
    for d in &shown {
        println!("KNOWN-FINDING: property={} {}", p.id, d);
    }

    let mut viol = 0;
    if let Some((idx, msg, trace)) = bad.first() {
        viol = bad.len();
        let path = replays.join(format!("{}-{}-{}.txt", p.id, seed, idx));
        let text = format!(
            "replay property={} tier={} seed={} case={}\nviolation: {}\n\n{}\n",
            p.id, tier.name(), seed, idx, msg, trace
        );
        let _ = fs::write(&path, text);
        println!("{}: case {}: {}", p.id, idx, msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }

    let mut missing = Vec::new();
    if viol == 0 {
        for (k, min) in p.required {
            let v = counters.get(*k).copied().unwrap_or(0);
            if v < *min {
                missing.push(format!("observed only {} of '{}', at least {} needed", v, k, min));
            }
        }
        if cases < total && !cut && inconclusive.is_empty() {
            missing.push(format!("only {} of {} cases ran", cases, total));
        }
    }

    // Evidence.
    let mut e = String::from("{\n");
    e.push_str(&format!(" \"property\": {},\n", json_str(p.id)));
    e.push_str(&format!(" \"tier\": {},\n", json_str(tier.name())));
    e.push_str(&format!(" \"seed\": {},\n", seed));
    e.push_str(" \"level\": \"exploration\",\n");
    e.push_str(" \"coverage\": {\n");
    e.push_str(&format!("  \"evaluations\": {},\n", cases));
    e.push_str(&format!("  \"distinct_nontrivial\": {},\n", fps.len()));
    e.push_str(&format!("  \"rule\": {},\n", json_str(p.rule)));
    e.push_str("  \"samples\": [");
    e.push_str(&samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    e.push_str("],\n  \"observed\": {");
    e.push_str(&counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    e.push_str("},\n");
    e.push_str(&format!("  \"stopped_by_time_budget\": {},\n", cut));
    e.push_str("  \"inconclusive\": [");
    e.push_str(&inconclusive.iter().chain(missing.iter()).map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    e.push_str("],\n  \"known_findings_seen\": [");
    e.push_str(&shown.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    e.push_str("]");
    if !extra.is_empty() {
        e.push_str(",\n  \"sanitizers\": ");
        e.push_str(&json_str(extra));
    }
    e.push_str("\n },\n \"assumptions\": [");
    e.push_str(&p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    e.push_str("],\n");
    e.push_str(&format!(" \"wall_s\": {:.3},\n", t0.elapsed().as_secs_f64()));
    e.push_str(&format!(" \"violations\": {}\n}}\n", viol));
    let mut f = fs::File::create(evidence.join(format!("{}.json", p.id))).unwrap();
    f.write_all(e.as_bytes()).unwrap();

    if viol > 0 {
        return 1;
    }
    if !missing.is_empty() || restarts >= 5 {
        for m in missing.iter().chain(inconclusive.iter()) {
            eprintln!("INCONCLUSIVE {}: {}", p.id, m);
        }
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial), {:.1} s",
        p.id, cases, fps.len(), t0.elapsed().as_secs_f64()
    );
    0
}

/// Runs a suspicious case alone, twice. A violation only if it fails both times.
fn confirm(p: &Prop, tier: Tier, seed: u64, idx: u64, dir: &Path) -> Option<(String, String)> {
    let mut last = None;
    for _ in 0..2 {
        let out = dir.join(format!("single.{}", idx));
        let _ = fs::remove_file(&out);
        let mut c = Command::new(std::env::current_exe().ok()?)
            .arg("case").arg(p.id).arg(tier.name()).arg(seed.to_string()).arg(idx.to_string()).arg(&out)
            .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null())
            .spawn().ok()?;
        let t0 = Instant::now();
        let st = loop {
            match c.try_wait() {
                Ok(Some(st)) => break Some(st),
                Ok(None) => {}
                Err(_) => break None,
            }
            // A generous watchdog; its firing is no verdict.
            if t0.elapsed().as_secs() > CASE_CPU_LIMIT * 6 {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        let st = st?;
        last = match (st.code(), st.signal()) {
            (Some(0), _) => return None,
            (Some(3), _) => {
                let t = fs::read_to_string(&out).unwrap_or_default();
                let (m, t) = t.split_once('\n').unwrap_or((&t, ""));
                Some((unesc(m), unesc(t)))
            }
            (_, Some(24)) => Some((
                format!("the case did not end within {} s of CPU time", CASE_CPU_LIMIT),
                String::new(),
            )),
            // Somebody else ended it: no verdict.
            (_, Some(9)) | (_, Some(15)) => return None,
            (_, Some(s)) => Some((
                format!("the process was ended by signal {} (stack overflow, abort or memory exhaustion)", s),
                String::new(),
            )),
            (c, _) => Some((format!("the process ended with exit code {:?}", c), String::new())),
        };
    }
    last
}
