//! Exhaustive bounded explorer.
//!
//! A property is a list of families.  A family is a finite, fully enumerated
//! space of cases 0..total; every case is executed against the real crate and
//! judged by a reference model.  Nothing is sampled: a family either runs to
//! the end or the evidence says it was capped.
//!
//! The explorer runs in a child process, so that an abort, a stack overflow or
//! runaway memory in the code under test is attributed to the case that causes
//! it (confirmed by running that case again on its own) instead of ending the
//! check.  A case that burns CPU without returning is reported as a hang.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What one executed case reports back.
#[derive(Default)]
pub struct Case {
    /// calls into the real API
    pub calls: u64,
    /// hashes of the distinct (model) states this case visited
    pub states: Vec<u64>,
    /// short label of what was observed, for outcome statistics
    pub outcome: &'static str,
    /// property violated
    pub fail: Option<String>,
}

impl Case {
    pub fn new() -> Case {
        Case { outcome: "ok", ..Default::default() }
    }
    pub fn call(&mut self) {
        self.calls += 1;
    }
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
    }
    pub fn fail(&mut self, m: String) {
        if self.fail.is_none() {
            self.fail = Some(m);
        }
    }
    pub fn out(&mut self, o: &'static str) {
        self.outcome = o;
    }
}

pub struct Family {
    pub name: &'static str,
    pub total: u64,
    pub bound: String,
    pub run: Box<dyn Fn(u64) -> Case + Sync + Send>,
    pub describe: Box<dyn Fn(u64) -> String + Sync + Send>,
}

impl Family {
    pub fn new(
        name: &'static str,
        total: u64,
        bound: impl Into<String>,
        describe: impl Fn(u64) -> String + Sync + Send + 'static,
        run: impl Fn(u64) -> Case + Sync + Send + 'static,
    ) -> Family {
        Family { name, total, bound: bound.into(), run: Box::new(run), describe: Box::new(describe) }
    }
}

/// Mixed radix index decoder: `Ix(i).take(n)` yields a digit in 0..n.
pub struct Ix(pub u64);
impl Ix {
    pub fn take(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
pub fn hash_u64s(b: &[u64]) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64;
    for &x in b {
        h ^= x;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    h
}
pub fn hash_bools(seed: u64, b: &[bool]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    let mut acc = 0u64;
    for (i, &x) in b.iter().enumerate() {
        acc = (acc << 1) | x as u64;
        if i % 64 == 63 {
            h = (h ^ acc).wrapping_mul(0xff51afd7ed558ccd);
            h ^= h >> 31;
            acc = 0;
        }
    }
    h = (h ^ acc ^ ((b.len() as u64) << 48)).wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 31)
}

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload_str(i.payload());
        PANIC_AT.with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
    }));
}

fn payload_str(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_AT.with(|p| p.borrow().clone()))
}

fn run_case(fam: &Family, i: u64) -> Case {
    match catch_unwind(AssertUnwindSafe(|| (fam.run)(i))) {
        Ok(c) => c,
        Err(_) => {
            let mut c = Case::new();
            c.outcome = "panic";
            c.fail(format!("panicked at {}", PANIC_AT.with(|p| p.borrow().clone())));
            c
        }
    }
}

pub struct Property {
    pub id: &'static str,
    pub assumptions: Vec<String>,
    pub families: Vec<Family>,
}

#[derive(Clone)]
pub struct Cfg {
    pub tier: String,
    pub seed: u64,
    pub verif: PathBuf,
    pub threads: usize,
    pub cap: Duration,
}

const SLOT: u64 = 64;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

pub fn json_str(s: &str) -> String {
    format!("\"{}\"", esc(s))
}

fn thread_cpu(task: &Path) -> f64 {
    fs::read_to_string(task.join("schedstat"))
        .ok()
        .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse::<f64>().ok()))
        .map(|ns| ns / 1e9)
        .unwrap_or(0.0)
}

struct Fail {
    family: &'static str,
    index: u64,
    desc: String,
    msg: String,
}

/// The outcome of exploring, before it is written down.
#[derive(Default)]
struct Stats {
    cases: u64,
    calls: u64,
    states: u64,
    outcomes: BTreeMap<&'static str, u64>,
    capped: bool,
}

pub fn replay_path(cfg: &Cfg, prop: &str) -> PathBuf {
    cfg.verif.join("replays").join(format!("{prop}.json"))
}

fn write_replay(cfg: &Cfg, prop: &str, f: &Fail) -> PathBuf {
    let p = replay_path(cfg, prop);
    let _ = fs::create_dir_all(p.parent().unwrap());
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"family\": {},\n \"index\": {},\n \"case\": {},\n \"violation\": {},\n \"how\": {}\n}}\n",
        json_str(prop),
        json_str(&cfg.tier),
        json_str(f.family),
        f.index,
        json_str(&f.desc),
        json_str(&f.msg),
        json_str(&format!("bash /verif/run.sh replay {prop} {} {} {}", cfg.tier, f.family, f.index)),
    );
    let _ = fs::write(&p, body);
    p
}

fn report_violation(cfg: &Cfg, prop: &str, f: &Fail) {
    let p = write_replay(cfg, prop, f);
    println!("family={} index={} case: {}", f.family, f.index, f.desc);
    println!("violated: {}", f.msg);
    println!("VIOLATION property={prop} replay={}", p.display());
    use std::io::Write;
    let _ = std::io::stdout().flush();
}

struct Shared<'a> {
    next: AtomicU64,
    stop: AtomicBool,
    fails: Mutex<Vec<Fail>>,
    /// per worker: (task dir, case index + 1 or 0, wall start ms, cpu at start)
    slots: Vec<Slot>,
    fam: &'a Family,
    start: Instant,
}

struct Slot {
    task: Mutex<PathBuf>,
    case: AtomicU64,
    since_ms: AtomicU64,
}

/// Explore one property in this process.  Returns the process exit code.
pub fn explore(cfg: &Cfg, prop: &Property, progress: &Path) -> i32 {
    let t0 = Instant::now();
    let pf = fs::OpenOptions::new().create(true).truncate(true).write(true).open(progress).ok();
    let mut per_family: Vec<(usize, Stats, f64)> = Vec::new();
    let mut samples: Vec<String> = Vec::new();
    let mut violation: Option<Fail> = None;
    let hang_limit = 45.0;
    // development aid: list every violation of a family instead of stopping
    let survey = std::env::var("MC_SURVEY").is_ok();
    let only = std::env::var("MC_FAMILY").ok().filter(|_| survey);

    for (fi, fam) in prop.families.iter().enumerate() {
        if only.as_ref().is_some_and(|n| *n != fam.name) {
            continue;
        }
        let ft = Instant::now();
        let threads = cfg.threads.min(fam.total.max(1) as usize).max(1);
        let chunk = (fam.total / (threads as u64 * 64)).clamp(1, 4096);
        let sh = Shared {
            next: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            fails: Mutex::new(Vec::new()),
            slots: (0..threads)
                .map(|_| Slot {
                    task: Mutex::new(PathBuf::new()),
                    case: AtomicU64::new(0),
                    since_ms: AtomicU64::new(0),
                })
                .collect(),
            fam,
            start: Instant::now(),
        };
        let done = AtomicBool::new(false);
        let mut stats = Stats::default();
        let all_states: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        std::thread::scope(|s| {
            let mut hs = Vec::new();
            for w in 0..threads {
                let sh = &sh;
                let pf = pf.as_ref();
                let all_states = &all_states;
                let cap = cfg.cap;
                hs.push(s.spawn(move || {
                    let mut st = Stats::default();
                    *sh.slots[w].task.lock().unwrap() = fs::read_link("/proc/thread-self")
                        .map(|p| Path::new("/proc").join(p))
                        .unwrap_or_default();
                    let mut seen: HashSet<u64> = HashSet::new();
                    'outer: loop {
                        if sh.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let from = sh.next.fetch_add(chunk, Ordering::Relaxed);
                        if from >= sh.fam.total {
                            break;
                        }
                        if t0.elapsed() > cap {
                            st.capped = true;
                            break;
                        }
                        let to = (from + chunk).min(sh.fam.total);
                        if let Some(f) = pf {
                            let rec = format!("{fi} {from} {to}");
                            let rec = format!("{rec:<63}\n");
                            let _ = f.write_all_at(rec.as_bytes(), w as u64 * SLOT);
                        }
                        for i in from..to {
                            sh.slots[w]
                                .since_ms
                                .store(sh.start.elapsed().as_millis() as u64, Ordering::Relaxed);
                            sh.slots[w].case.store(i + 1, Ordering::Relaxed);
                            let c = run_case(sh.fam, i);
                            sh.slots[w].case.store(0, Ordering::Relaxed);
                            st.cases += 1;
                            st.calls += c.calls;
                            *st.outcomes.entry(c.outcome).or_insert(0) += 1;
                            for h in c.states {
                                if seen.insert(h) {
                                    all_states[(h >> 58) as usize].lock().unwrap().insert(h);
                                }
                            }
                            if seen.len() > 2_000_000 {
                                seen.clear();
                            }
                            if let Some(msg) = c.fail {
                                sh.fails.lock().unwrap().push(Fail {
                                    family: sh.fam.name,
                                    index: i,
                                    desc: (sh.fam.describe)(i),
                                    msg,
                                });
                                if !survey {
                                    sh.stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                    }
                    if let Some(f) = pf {
                        let rec = format!("{:<63}\n", "-");
                        let _ = f.write_all_at(rec.as_bytes(), w as u64 * SLOT);
                    }
                    st
                }));
            }
            let sh_ref = &sh;
            let done_ref = &done;
            let mon = s.spawn(move || {
                let mut cpu0: BTreeMap<(usize, u64), f64> = BTreeMap::new();
                while !done_ref.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(100));
                    let now = sh_ref.start.elapsed().as_millis() as u64;
                    for (w, sl) in sh_ref.slots.iter().enumerate() {
                        let c = sl.case.load(Ordering::Relaxed);
                        if c == 0 {
                            continue;
                        }
                        let since = sl.since_ms.load(Ordering::Relaxed);
                        if now.saturating_sub(since) < 1000 {
                            continue;
                        }
                        let task = sl.task.lock().unwrap().clone();
                        let cpu = thread_cpu(&task);
                        let base = *cpu0.entry((w, c)).or_insert(cpu);
                        if cpu - base > hang_limit && sl.case.load(Ordering::Relaxed) == c {
                            let f = Fail {
                                family: sh_ref.fam.name,
                                index: c - 1,
                                desc: (sh_ref.fam.describe)(c - 1),
                                msg: format!(
                                    "no result after more than {hang_limit} s of CPU time (the call does not terminate)"
                                ),
                            };
                            report_violation(cfg, prop.id, &f);
                            write_evidence(
                                cfg,
                                prop,
                                &[],
                                &[json_str(&f.desc)],
                                1,
                                t0.elapsed().as_secs_f64(),
                            );
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in hs {
                match h.join() {
                    Ok(st) => {
                        stats.cases += st.cases;
                        stats.calls += st.calls;
                        stats.capped |= st.capped;
                        for (k, v) in st.outcomes {
                            *stats.outcomes.entry(k).or_insert(0) += v;
                        }
                    }
                    Err(_) => {
                        eprintln!("explorer thread failed");
                        std::process::exit(2);
                    }
                }
            }
            done.store(true, Ordering::Relaxed);
            let _ = mon.join();
        });
        stats.states = all_states.iter().map(|m| m.lock().unwrap().len() as u64).sum();
        for k in 0..3u64 {
            if fam.total > 0 {
                let i = (fam.total - 1) * k / 2;
                let smp = format!("{}[{}]: {}", fam.name, i, (fam.describe)(i));
                if !samples.contains(&json_str(&smp)) {
                    samples.push(json_str(&smp));
                }
            }
        }
        println!(
            "{} {:<28} cases={}/{} calls={} states={} outcomes={:?} {:.1}s{}",
            prop.id,
            fam.name,
            stats.cases,
            fam.total,
            stats.calls,
            stats.states,
            stats.outcomes,
            ft.elapsed().as_secs_f64(),
            if stats.capped { " CAPPED" } else { "" }
        );
        per_family.push((fi, stats, ft.elapsed().as_secs_f64()));
        let mut fails = sh.fails.into_inner().unwrap();
        fails.sort_by_key(|f| f.index);
        if survey {
            println!("  survey: {} violations", fails.len());
            for f in fails.iter().take(100000) {
                println!("   {} {} -> {}", f.index, f.desc, f.msg);
            }
            continue;
        }
        if let Some(f) = fails.into_iter().next() {
            violation = Some(f);
            break;
        }
    }
    let nv = violation.is_some() as u64;
    write_evidence(cfg, prop, &per_family, &samples, nv, t0.elapsed().as_secs_f64());
    match violation {
        Some(f) => {
            report_violation(cfg, prop.id, &f);
            1
        }
        None => 0,
    }
}

fn write_evidence(
    cfg: &Cfg,
    prop: &Property,
    fams: &[(usize, Stats, f64)],
    samples: &[String],
    violations: u64,
    wall: f64,
) {
    let dir = cfg.verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    let mut fj = Vec::new();
    let (mut states, mut calls, mut cases) = (0, 0, 0);
    let mut exhaustive = violations == 0;
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    for (fi, st, secs) in fams {
        let f = &prop.families[*fi];
        states += st.states;
        calls += st.calls;
        cases += st.cases;
        exhaustive &= !st.capped && st.cases == f.total;
        for (k, v) in &st.outcomes {
            *outcomes.entry(k.to_string()).or_insert(0) += v;
        }
        fj.push(format!(
            "{{\"family\": {}, \"bound\": {}, \"space\": {}, \"executed\": {}, \"calls\": {}, \"states\": {}, \"wall_s\": {:.2}}}",
            json_str(f.name),
            json_str(&f.bound),
            f.total,
            st.cases,
            st.calls,
            st.states,
            secs
        ));
    }
    let oj: Vec<String> = outcomes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let aj: Vec<String> = prop.assumptions.iter().map(|s| json_str(s)).collect();
    let body = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"model_checking\",\n\"coverage\": {{\n \"states\": {},\n \"transitions\": {},\n \"traces_validated_against_impl\": {},\n \"exhaustive\": {},\n \"outcomes\": {{{}}},\n \"families\": [\n  {}\n ],\n \"counting\": {},\n \"samples\": [\n  {}\n ]\n}},\n\"assumptions\": [{}],\n\"wall_s\": {:.2},\n\"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(&cfg.tier),
        cfg.seed,
        states,
        calls,
        cases,
        exhaustive,
        oj.join(", "),
        fj.join(",\n  "),
        json_str("states: distinct hashes of the reference model's canonical states reached (input plus expected result), counted per family in hash sets on this run; transitions: calls into the real crate's public API; traces: complete executions whose observable result was compared with the reference model"),
        samples.join(",\n  "),
        aj.join(", "),
        wall,
        violations
    );
    let _ = fs::write(dir.join(format!("{}.json", prop.id)), body);
}

/// Run the range one case at a time, logging each before it starts.
pub fn probe(prop: &Property, fi: usize, from: u64, to: u64, log: &Path) -> i32 {
    let f = fs::OpenOptions::new().create(true).truncate(true).write(true).open(log).unwrap();
    for i in from..to {
        let rec = format!("{i:<31}\n");
        let _ = f.write_all_at(rec.as_bytes(), 0);
        let _ = run_case(&prop.families[fi], i);
    }
    0
}

pub fn replay(prop: &Property, family: &str, index: u64) -> i32 {
    let fam = match prop.families.iter().find(|f| f.name == family) {
        Some(f) => f,
        None => {
            eprintln!("no family {family}");
            return 2;
        }
    };
    println!("case: {}", (fam.describe)(index));
    let c = run_case(fam, index);
    let d = run_case(fam, index);
    println!("outcome: {} calls: {}", c.outcome, c.calls);
    if c.fail != d.fail {
        println!("NOT DETERMINISTIC: {:?} vs {:?}", c.fail, d.fail);
    }
    match c.fail {
        Some(m) => {
            println!("violated: {m}");
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}

/// Parent side: run the explorer in a child and attribute crashes.
pub fn supervise(cfg: &Cfg, prop: &Property, args: &[String]) -> i32 {
    use std::process::Command;
    let exe = std::env::current_exe().unwrap();
    let work = cfg.verif.join("work");
    let _ = fs::create_dir_all(&work);
    let progress = work.join(format!("{}.progress", prop.id));
    let _ = fs::remove_file(cfg.verif.join("evidence").join(format!("{}.json", prop.id)));
    let _ = fs::remove_file(replay_path(cfg, prop.id));
    let st = Command::new(&exe)
        .arg("child")
        .args(args)
        .arg(&progress)
        .status()
        .expect("cannot start the explorer");
    if let Some(c) = st.code() {
        return c;
    }
    eprintln!("explorer ended abnormally: {st}");
    // which chunks were being executed?
    let txt = fs::read_to_string(&progress).unwrap_or_default();
    let log = work.join(format!("{}.probe", prop.id));
    for line in txt.lines() {
        let v: Vec<u64> = line.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if v.len() != 3 {
            continue;
        }
        let run = |from: u64, to: u64| {
            Command::new(&exe)
                .arg("probe")
                .args(args)
                .arg(v[0].to_string())
                .arg(from.to_string())
                .arg(to.to_string())
                .arg(&log)
                .status()
                .expect("cannot start the explorer")
        };
        let st = run(v[1], v[2]);
        if st.code().is_none() {
            let i: u64 = fs::read_to_string(&log).unwrap_or_default().trim().parse().unwrap_or(0);
            let st2 = run(i, i + 1);
            if st2.code().is_none() {
                let fam = &prop.families[v[0] as usize];
                let f = Fail {
                    family: fam.name,
                    index: i,
                    desc: (fam.describe)(i),
                    msg: format!("the process is killed by this case: {st2}"),
                };
                report_violation(cfg, prop.id, &f);
                write_evidence(cfg, prop, &[], &[json_str(&f.desc)], 1, 0.0);
                return 1;
            }
        }
    }
    eprintln!("could not attribute the crash to a case");
    2
}

/// A family given by an explicit list.
pub fn listed<T: std::fmt::Debug + Send + Sync + 'static>(
    name: &'static str,
    bound: impl Into<String>,
    items: Vec<T>,
    run: impl Fn(&T) -> Case + Sync + Send + 'static,
) -> Family {
    let it = std::sync::Arc::new(items);
    let it2 = it.clone();
    Family::new(
        name,
        it.len() as u64,
        bound,
        move |i| format!("{:?}", it2[i as usize]),
        move |i| run(&it[i as usize]),
    )
}
