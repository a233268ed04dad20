//! Stateless explicit enumeration of choice trees over the real implementation.
//!
//! A scenario is a deterministic function of a sequence of choices (`Ctx::choose`). The
//! explorer enumerates *every* choice sequence depth first (re-executing from scratch), on
//! several worker threads with work donation. A violation is a choice vector, hence
//! replayable. A run that was cut by the time cap is reported as such.

use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type RunFn = Arc<dyn Fn(&mut Ctx) -> Result<(), String> + Send + Sync>;

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub run: RunFn,
    /// Worker threads that may execute this scenario concurrently.
    pub threads: usize,
    /// Explored by several single-threaded processes instead: the schedule of other threads
    /// is part of the state, and other workers must not disturb it.
    pub isolated: bool,
}

impl Scenario {
    pub fn new(
        name: impl Into<String>,
        run: impl Fn(&mut Ctx) -> Result<(), String> + Send + Sync + 'static,
    ) -> Self {
        Scenario {
            name: name.into(),
            run: Arc::new(run),
            threads: 8,
            isolated: false,
        }
    }
    pub fn isolated(mut self) -> Self {
        self.isolated = true;
        self
    }
}

/// A run that could not be driven as intended by the harness (never a verdict).
pub const HARNESS: &str = "HARNESS: ";

/// What one execution leaves behind in the process changes the next: a prefix that can no
/// longer be followed is not an error then, every execution is judged as it comes.
fn lenient() -> bool {
    static L: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *L.get_or_init(|| std::env::var("MC_LENIENT").is_ok())
}

pub struct Ctx<'a> {
    choices: Vec<u32>,
    arity: Vec<u32>,
    prefix_len: usize,
    pub verbose: bool,
    pub log: Vec<String>,
    pub worker: usize,
    local: &'a mut Local,
}

#[derive(Default)]
pub struct Local {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub execs: u64,
    pub outcomes: HashSet<u64>,
    pub known: std::collections::BTreeMap<String, String>,
    pub max_depth: usize,
}

const STATE_CAP: usize = 6_000_000;

impl<'a> Ctx<'a> {
    /// Pick one of `n` alternatives; 0 is explored first.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "{}empty choice", HARNESS);
        let i = self.arity.len();
        if i < self.choices.len() {
            let c = self.choices[i];
            if c as usize >= n && lenient() {
                self.choices[i] = c % n as u32;
                self.arity.push(n as u32);
                return self.choices[i] as usize;
            }
            if c as usize >= n {
                panic!(
                    "{}divergence while replaying a prefix: choice {} of {} at {}",
                    HARNESS, c, n, i
                );
            }
            self.arity.push(n as u32);
            c as usize
        } else {
            self.choices.push(0);
            self.arity.push(n as u32);
            0
        }
    }
    pub fn pick<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.choose(items.len())].clone()
    }
    /// Record one executed transition of the implementation.
    pub fn step(&mut self, f: impl FnOnce() -> String) {
        self.local.transitions += 1;
        if self.verbose {
            self.log.push(f());
        }
    }
    pub fn steps(&mut self, n: u64) {
        self.local.transitions += n;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.log.push(f());
        }
    }
    /// Record a visited (observable) state by its hash.
    pub fn state<H: std::hash::Hash + ?Sized>(&mut self, h: &H) {
        if self.local.states.len() < STATE_CAP {
            let h = hash(h);
            self.local.states.insert(h);
        }
    }
    /// Record the final outcome of the run by its hash.
    pub fn outcome<H: std::hash::Hash + ?Sized>(&mut self, h: &H) {
        if self.local.outcomes.len() < STATE_CAP {
            let h = hash(h);
            self.local.outcomes.insert(h);
        }
    }
    /// Report a violation listed as a known finding and continue.
    pub fn known(&mut self, key: &str, text: String) {
        self.local.known.entry(key.to_string()).or_insert(text);
    }
}

pub fn hash<H: std::hash::Hash + ?Sized>(h: &H) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new();
    h.hash(&mut s);
    s.finish()
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("repo_src/").next().unwrap_or(f);
                format!(" at {}:{}", f, l.line())
            })
            .unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{}{}", msg, loc)));
    }));
}

/// Run `f`, turning a panic into Err("panic: ..").
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = PANIC_MSG.with(|p| p.borrow_mut().take());
        format!("panic: {}", m.unwrap_or_default())
    })
}

pub struct RunOut {
    pub choices: Vec<u32>,
    pub arity: Vec<u32>,
    pub result: Result<(), String>,
    pub log: Vec<String>,
}

pub fn execute(
    sc: &Scenario,
    prefix: Vec<u32>,
    verbose: bool,
    worker: usize,
    local: &mut Local,
) -> RunOut {
    let prefix_len = prefix.len();
    let mut ctx = Ctx {
        choices: prefix,
        arity: Vec::with_capacity(prefix_len + 8),
        prefix_len,
        verbose,
        log: vec![],
        worker,
        local,
    };
    let r = no_panic(|| (sc.run)(&mut ctx));
    let mut result = match r {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    if ctx.arity.len() < ctx.prefix_len && lenient() {
        ctx.choices.truncate(ctx.arity.len());
    } else if result.is_ok() && ctx.arity.len() < ctx.prefix_len {
        result = Err(format!("{}replayed prefix was not consumed", HARNESS));
    }
    ctx.local.execs += 1;
    ctx.local.max_depth = ctx.local.max_depth.max(ctx.arity.len());
    let (choices, arity, log) = (
        std::mem::take(&mut ctx.choices),
        std::mem::take(&mut ctx.arity),
        std::mem::take(&mut ctx.log),
    );
    RunOut {
        choices,
        arity,
        result,
        log,
    }
}

pub struct ScenarioReport {
    pub name: String,
    pub local: Local,
    pub exhaustive: bool,
    pub samples: Vec<String>,
    pub violation: Option<(Vec<u32>, String)>,
    pub wall: f64,
}

struct Shared {
    queue: Mutex<Vec<(Vec<u32>, usize)>>,
    cv: Condvar,
    idle: AtomicUsize,
    active: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
}

/// Slots describing what each worker is executing (for the hang watchdog and for crash
/// attribution by the supervising process).
pub struct Slots {
    base: *mut u8,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
pub const SLOT: usize = 8192;
pub const NSLOT: usize = 16;

impl Slots {
    pub fn map(path: &str) -> Slots {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .open(path)
            .expect("slots file");
        f.set_len((SLOT * NSLOT) as u64).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * NSLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots { base: p as *mut u8 }
    }
    /// Executions started by worker `w`.
    fn beat(&self, w: usize) -> u32 {
        unsafe { (self.base.add(w * SLOT + SLOT - 4) as *const u32).read_volatile() }
    }
    fn put(&self, w: usize, scenario: usize, prefix: &[u32]) {
        unsafe {
            let b = self.base.add(w * SLOT + SLOT - 4) as *mut u32;
            b.write_volatile(b.read_volatile().wrapping_add(1));
            let p = self.base.add(w * SLOT) as *mut u32;
            let n = prefix.len().min(SLOT / 4 - 5);
            p.write_volatile(0);
            p.add(1).write_volatile(scenario as u32);
            p.add(2).write_volatile(n as u32);
            for (i, c) in prefix.iter().take(n).enumerate() {
                p.add(3 + i).write_volatile(*c);
            }
            p.write_volatile(1);
        }
    }
    fn clear(&self, w: usize) {
        unsafe { (self.base.add(w * SLOT) as *mut u32).write_volatile(0) }
    }
    pub fn get(&self, w: usize) -> Option<(usize, Vec<u32>)> {
        unsafe {
            let p = self.base.add(w * SLOT) as *mut u32;
            if p.read_volatile() != 1 {
                return None;
            }
            let sc = p.add(1).read_volatile() as usize;
            let n = p.add(2).read_volatile() as usize;
            Some((sc, (0..n).map(|i| p.add(3 + i).read_volatile()).collect()))
        }
    }
}

pub struct Hang {
    pub prefix: Vec<u32>,
}

pub fn explore(
    idx: usize,
    sc: &Scenario,
    budget: Duration,
    slots: &Slots,
    on_hang: &(dyn Fn(Hang) + Sync),
) -> ScenarioReport {
    let t0 = Instant::now();
    let sh = Shared {
        queue: Mutex::new(vec![(vec![], 0)]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        active: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
    };
    let total = Mutex::new(Local::default());
    let violation: Mutex<Option<(Vec<u32>, String)>> = Mutex::new(None);
    let sample_paths: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![]);
    let beats: Vec<AtomicU64> = (0..NSLOT).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    let n = sc.threads;

    std::thread::scope(|s| {
        // Watchdog: an execution that never finishes is a violation (non-termination).
        let (beats_r, done_r) = (&beats, &done);
        s.spawn(move || {
            crate::shim::register(0);
            let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
            while !done_r.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                for w in 0..n {
                    let b = beats_r[w].load(SeqCst);
                    if b != last[w].0 || slots.get(w).is_none() {
                        last[w] = (b, Instant::now());
                    } else if last[w].1.elapsed() > Duration::from_secs(hang_secs()) {
                        if let Some((_, prefix)) = slots.get(w) {
                            on_hang(Hang { prefix });
                        }
                    }
                }
            }
        });
        let hs: Vec<_> = (0..n)
            .map(|w| {
                let (sh, total, violation, sample_paths, beats) =
                    (&sh, &total, &violation, &sample_paths, &beats);
                s.spawn(move || {
                    crate::shim::register(0);
                    let mut local = Local::default();
                    let mut samples: Vec<Vec<u32>> = vec![];
                    loop {
                        // take a job
                        let job = {
                            let mut q = sh.queue.lock().unwrap();
                            loop {
                                if sh.stop.load(SeqCst) {
                                    break None;
                                }
                                if let Some(j) = q.pop() {
                                    sh.active.fetch_add(1, SeqCst);
                                    break Some(j);
                                }
                                if sh.active.load(SeqCst) == 0 {
                                    sh.cv.notify_all();
                                    break None;
                                }
                                sh.idle.fetch_add(1, SeqCst);
                                q = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                                sh.idle.fetch_sub(1, SeqCst);
                            }
                        };
                        let (mut prefix, mut floor) = match job {
                            Some(j) => j,
                            None => break,
                        };
                        loop {
                            if sh.stop.load(SeqCst) {
                                break;
                            }
                            if t0.elapsed() > budget {
                                sh.capped.store(true, SeqCst);
                                break;
                            }
                            slots.put(w, idx, &prefix);
                            beats[w].fetch_add(1, SeqCst);
                            let mut out = execute(sc, prefix, false, w, &mut local);
                            beats[w].fetch_add(1, SeqCst);
                            slots.clear(w);
                            if samples.len() < 1 || (local.execs.is_power_of_two() && samples.len() < 12) {
                                samples.push(out.choices.clone());
                            }
                            if let Err(e) = out.result {
                                let mut v = violation.lock().unwrap();
                                if v.as_ref().map_or(true, |o| out.choices.len() < o.0.len()) {
                                    *v = Some((out.choices.clone(), e));
                                }
                                sh.stop.store(true, SeqCst);
                                break;
                            }
                            // donate the shallowest open siblings if someone is idle
                            if sh.idle.load(SeqCst) > 0 {
                                if let Some(i) = (floor..out.choices.len())
                                    .find(|&i| out.choices[i] + 1 < out.arity[i])
                                {
                                    let mut q = sh.queue.lock().unwrap();
                                    for alt in (out.choices[i] + 1..out.arity[i]).rev() {
                                        let mut p = out.choices[..i].to_vec();
                                        p.push(alt);
                                        q.push((p, i + 1));
                                    }
                                    floor = i + 1;
                                    drop(q);
                                    sh.cv.notify_all();
                                }
                            }
                            // backtrack
                            let mut i = out.choices.len();
                            let next = loop {
                                if i <= floor {
                                    break None;
                                }
                                i -= 1;
                                if out.choices[i] + 1 < out.arity[i] {
                                    out.choices.truncate(i + 1);
                                    out.choices[i] += 1;
                                    break Some(out.choices);
                                }
                            };
                            match next {
                                Some(p) => prefix = p,
                                None => break,
                            }
                        }
                        sh.active.fetch_sub(1, SeqCst);
                        sh.cv.notify_all();
                        if sh.capped.load(SeqCst) {
                            break;
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.transitions += local.transitions;
                    t.execs += local.execs;
                    t.max_depth = t.max_depth.max(local.max_depth);
                    if t.states.is_empty() {
                        t.states = std::mem::take(&mut local.states);
                    } else {
                        t.states.extend(local.states.drain());
                    }
                    t.outcomes.extend(local.outcomes.drain());
                    for (k, v) in std::mem::take(&mut local.known) {
                        t.known.entry(k).or_insert(v);
                    }
                    let mut sp = sample_paths.lock().unwrap();
                    if sp.len() < 4 {
                        sp.extend(samples.into_iter().rev().take(2));
                    }
                    crate::shim::unregister();
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, SeqCst);
    });

    report(
        sc,
        total.into_inner().unwrap(),
        !sh.capped.load(SeqCst),
        violation.into_inner().unwrap(),
        sample_paths.into_inner().unwrap(),
        t0,
    )
}

fn report(
    sc: &Scenario,
    local: Local,
    exhaustive: bool,
    violation: Option<(Vec<u32>, String)>,
    sample_paths: Vec<Vec<u32>>,
    t0: Instant,
) -> ScenarioReport {
    // write out a few of the explored traces
    let mut scratch = Local::default();
    let mut samples = vec![];
    if violation.is_none() {
        for p in sample_paths.into_iter().take(2) {
            let out = execute(sc, p, true, 0, &mut scratch);
            let mut s = format!("{}: {}", sc.name, out.log.join("; "));
            if s.len() > 900 {
                s.truncate(s.char_indices().take_while(|(i, _)| *i < 900).last().unwrap().0);
                s.push_str("...");
            }
            samples.push(s);
        }
    }
    ScenarioReport {
        name: sc.name.clone(),
        local,
        exhaustive,
        samples,
        violation,
        wall: t0.elapsed().as_secs_f64(),
    }
}

pub fn hang_secs() -> u64 {
    std::env::var("MC_HANG_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(40)
}

// ------------------------------------------------------------------ isolated exploration

/// Choice sequences are distributed over the shards by a hash of their first choices: half of
/// those of the first execution, at most this many.
const SHARD_DEPTH: usize = 6;
pub const SHARDS: usize = 8;

/// Explores one shard of a scenario on the calling thread and writes the result to `path`.
pub fn explore_shard(idx: usize, sc: &Scenario, k: usize, budget: Duration, slots: &Slots, path: &str) {
    let t0 = Instant::now();
    let mut local = Local::default();
    let mut samples: Vec<Vec<u32>> = vec![];
    let mut violation: Option<(Vec<u32>, String)> = None;
    let mut capped = false;
    let mut prefix: Vec<u32> = vec![];
    let mut depth = None;
    loop {
        if t0.elapsed() > budget {
            capped = true;
            break;
        }
        slots.put(k, idx, &prefix);
        let before = (local.transitions, local.execs);
        let mut out = execute(sc, prefix, false, 0, &mut local);
        slots.clear(k);
        if samples.is_empty() || (local.execs.is_power_of_two() && samples.len() < 12) {
            samples.push(out.choices.clone());
        }
        if let Err(e) = out.result {
            violation = Some((out.choices, e));
            break;
        }
        let depth = *depth.get_or_insert((out.choices.len() / 2).clamp(1, SHARD_DEPTH));
        let head = out.choices.len().min(depth);
        let foreign = hash(&out.choices[..head]) as usize % SHARDS != k;
        if foreign {
            // counted by the shard it belongs to
            local.transitions = before.0;
            local.execs = before.1;
        }
        let mut i = if foreign { head } else { out.choices.len() };
        let next = loop {
            if i == 0 {
                break None;
            }
            i -= 1;
            if out.choices[i] + 1 < out.arity[i] {
                out.choices.truncate(i + 1);
                out.choices[i] += 1;
                break Some(out.choices);
            }
        };
        match next {
            Some(p) => prefix = p,
            None => break,
        }
    }
    use std::fmt::Write;
    let join = |v: &[u32]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut t = String::new();
    writeln!(t, "n {} {} {} {}", local.transitions, local.execs, local.max_depth, capped as u8).unwrap();
    for s in samples.iter().rev().take(2) {
        writeln!(t, "p {}", join(s)).unwrap();
    }
    for (key, v) in &local.known {
        writeln!(t, "k {} {}", key, v.replace('\n', " ")).unwrap();
    }
    if let Some((c, m)) = &violation {
        writeln!(t, "v {} {}", join(c), m.replace('\n', " ")).unwrap();
    }
    for h in &local.states {
        writeln!(t, "s {:x}", h).unwrap();
    }
    for h in &local.outcomes {
        writeln!(t, "o {:x}", h).unwrap();
    }
    t.push_str("end\n");
    std::fs::write(path, t).expect("shard result");
}

/// Runs the shards of an isolated scenario as processes and merges their results.
pub fn explore_isolated(
    idx: usize,
    sc: &Scenario,
    id: &str,
    budget: Duration,
    slots: &Slots,
    slots_path: &str,
    lenient: bool,
    on_hang: &(dyn Fn(Hang) + Sync),
) -> ScenarioReport {
    let t0 = Instant::now();
    let paths: Vec<String> = (0..SHARDS).map(|k| format!("{}-shard{}", slots_path, k)).collect();
    let mut kids: Vec<std::process::Child> = (0..SHARDS)
        .map(|k| {
            std::fs::remove_file(&paths[k]).ok();
            let mut c = std::process::Command::new(std::env::current_exe().unwrap());
            if lenient {
                c.env("MC_LENIENT", "1");
            }
            c.args(["shard", id, slots_path, &idx.to_string(), &k.to_string(), &paths[k]])
                .env("MC_SHARD_BUDGET_MS", budget.as_millis().to_string())
                .spawn()
                .expect("spawn shard")
        })
        .collect();
    fn kill(kids: &mut Vec<std::process::Child>) {
        for k in kids {
            k.kill().ok();
            k.wait().ok();
        }
    }
    let mut last: Vec<(u32, Instant)> = (0..SHARDS).map(|k| (slots.beat(k), Instant::now())).collect();
    let mut done = [false; SHARDS];
    let mut found = false;
    while done.iter().any(|d| !d) && !found {
        std::thread::sleep(Duration::from_millis(3));
        for k in 0..SHARDS {
            if done[k] {
                continue;
            }
            match kids[k].try_wait().expect("wait") {
                Some(st) if st.success() => {
                    done[k] = true;
                    found |= std::fs::read_to_string(&paths[k]).map_or(false, |t| t.lines().any(|l| l.starts_with("v ")));
                }
                Some(st) => {
                    // attributed by the supervising process, like a crash of this one
                    eprintln!("shard {} ended abnormally: {}", k, st);
                    kill(&mut kids);
                    std::process::abort();
                }
                None => {
                    let b = slots.beat(k);
                    if b != last[k].0 || slots.get(k).is_none() {
                        last[k] = (b, Instant::now());
                    } else if last[k].1.elapsed().as_secs() > hang_secs() {
                        let prefix = slots.get(k).map(|s| s.1).unwrap_or_default();
                        kill(&mut kids);
                        on_hang(Hang { prefix });
                    }
                }
            }
        }
    }
    kill(&mut kids);
    let mut local = Local::default();
    let (mut capped, mut violation, mut samples) = (false, None, vec![]);
    let nums = |s: &str| -> Vec<u32> { s.split(',').filter_map(|x| x.parse().ok()).collect() };
    for k in 0..SHARDS {
        slots.clear(k);
        let t = std::fs::read_to_string(&paths[k]).unwrap_or_default();
        std::fs::remove_file(&paths[k]).ok();
        assert!(found || t.ends_with("end\n"), "{}no result of shard {}", HARNESS, k);
        for l in t.lines() {
            let (tag, rest) = l.split_at(l.len().min(2));
            match tag {
                "n " => {
                    let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                    local.transitions += v[0];
                    local.execs += v[1];
                    local.max_depth = local.max_depth.max(v[2] as usize);
                    capped |= v[3] == 1;
                }
                "p " => samples.push(nums(rest)),
                "s " => {
                    local.states.insert(u64::from_str_radix(rest, 16).unwrap());
                }
                "o " => {
                    local.outcomes.insert(u64::from_str_radix(rest, 16).unwrap());
                }
                "k " => {
                    let (a, b) = rest.split_once(' ').unwrap_or((rest, ""));
                    local.known.entry(a.to_string()).or_insert(b.to_string());
                }
                "v " => {
                    let (a, b) = rest.split_once(' ').unwrap_or((rest, ""));
                    violation = Some((nums(a), b.to_string()));
                }
                _ => {}
            }
        }
    }
    report(sc, local, !capped, violation, samples, t0)
}
