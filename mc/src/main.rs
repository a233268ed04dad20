include!(concat!(env!("OUT_DIR"), "/root.rs"));

#[cfg(feature = "buffers")]
mod buffers;
mod codec;
mod cli;
#[cfg(feature = "enc")]
mod enc;
mod explore;
#[cfg(feature = "io")]
mod io;
mod rt;
#[cfg(feature = "seg")]
mod seg;
mod shim;
mod util;

use explore::*;
use std::io::Write;
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
    pub rule: &'static str,
    pub scenarios: Vec<Scenario>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    /// `q` on the quick tier, `t` on the thorough one.
    pub fn of<T>(self, q: T, t: T) -> T {
        if self == Tier::Thorough {
            t
        } else {
            q
        }
    }
}

fn check(id: &str, tier: Tier) -> Option<Check> {
    let parts: &[fn(&str, Tier) -> Option<Check>] = &[
        #[cfg(feature = "buffers")]
        buffers::check,
        codec::check,
        #[cfg(feature = "enc")]
        enc::check,
        #[cfg(feature = "io")]
        io::check,
        #[cfg(feature = "seg")]
        seg::check,
        cli::check,
    ];
    parts.iter().find_map(|f| f(id, tier))
}

fn tier_from_env() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn fmt_choices(c: &[u32]) -> String {
    c.iter()
        .map(|x| x.to_string())
        .collect::<Vec<_>>()
        .join(",")
}

fn write_replay(id: &str, tier: Tier, sc: &str, choices: &[u32], msg: &str, log: &[String]) -> String {
    let dir = format!("{}/replays", verif_dir());
    std::fs::create_dir_all(&dir).ok();
    let path = format!(
        "{}/{}-{:08x}.replay",
        dir,
        id,
        hash(&(sc, choices)) as u32
    );
    let mut t = format!(
        "property={}\ntier={}\nscenario={}\nchoices={}\nmessage={}\n",
        id,
        if tier.thorough() { "thorough" } else { "quick" },
        sc,
        fmt_choices(choices),
        msg.replace('\n', " ")
    );
    for l in log {
        t.push_str("# ");
        t.push_str(&l.replace('\n', " "));
        t.push('\n');
    }
    std::fs::write(&path, t).expect("write replay");
    path
}

fn evidence(
    ck: &Check,
    tier: Tier,
    reports: &[ScenarioReport],
    wall: f64,
    violations: usize,
    unfinished: usize,
) {
    let mut states = 0u64;
    let (mut trans, mut execs, mut outcomes) = (0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut per = vec![];
    let mut exhaustive = unfinished == 0 && violations == 0;
    for r in reports {
        states += r.local.states.len() as u64;
        trans += r.local.transitions;
        execs += r.local.execs;
        outcomes += r.local.outcomes.len() as u64;
        exhaustive &= r.exhaustive;
        for s in &r.samples {
            if samples.len() < 10 {
                samples.push(esc(s));
            }
        }
        per.push(format!(
            "{{\"scenario\":{},\"executions\":{},\"transitions\":{},\"distinct_states\":{},\"distinct_outcomes\":{},\"max_choice_depth\":{},\"complete\":{},\"wall_s\":{:.2}}}",
            esc(&r.name),
            r.local.execs,
            r.local.transitions,
            r.local.states.len(),
            r.local.outcomes.len(),
            r.local.max_depth,
            r.exhaustive,
            r.wall
        ));
    }
    let known: Vec<String> = reports
        .iter()
        .flat_map(|r| r.local.known.iter().map(|(k, v)| esc(&format!("{}: {}", k, v))))
        .collect();
    let cov = if ck.level == "fault_enumeration" || ck.level == "exploration" {
        format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{}",
            execs, outcomes, esc(ck.rule)
        )
    } else {
        format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"rule\":{}",
            states, trans, execs, esc(ck.rule)
        )
    };
    let j = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{{{},\"samples\":[{}],\"exhaustive\":{},\"known_findings\":[{}],\"per_scenario\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        esc(ck.id),
        if tier.thorough() { "thorough" } else { "quick" },
        seed(),
        ck.level,
        cov,
        samples.join(","),
        exhaustive,
        known.join(","),
        per.join(",\n "),
        ck.assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(","),
        wall,
        violations
    );
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(format!("{}/{}.json", dir, ck.id), j).expect("write evidence");
}

/// Runs every scenario of a check in this process. Exit code 0, 1 or 3 (harness error).
fn child(id: &str, slots_path: &str) -> i32 {
    let tier = tier_from_env();
    let ck = match check(id, tier) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    util::load_known(id, &format!("{}/known_findings.txt", verif_dir()));
    let total_budget: f64 = std::env::var("MC_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier.thorough() { 800.0 } else { 420.0 });
    let t0 = Instant::now();
    let slots = Slots::map(slots_path);
    let mut reports: Vec<ScenarioReport> = vec![];
    let mut code = 0;
    let only = std::env::var("MC_ONLY").ok();
    for (i, sc) in ck.scenarios.iter().enumerate() {
        if let Some(o) = &only {
            if !sc.name.contains(o.as_str()) {
                continue;
            }
        }
        let left = total_budget - t0.elapsed().as_secs_f64();
        if left <= 0.0 {
            println!("note: time budget exhausted before scenario {}", sc.name);
            evidence(&ck, tier, &reports, t0.elapsed().as_secs_f64(), 0, 1);
            break;
        }
        let (ckr, scr) = (&ck, sc);
        let on_hang = |h: Hang| {
            // report from the watchdog; the stuck worker cannot be joined
            let msg = format!("execution did not finish within {} s", hang_secs());
            let p = write_replay(ckr.id, tier, &scr.name, &h.prefix, &msg, &[]);
            println!("scenario {}: {}", scr.name, msg);
            println!("VIOLATION property={} replay={}", ckr.id, p);
            evidence(ckr, tier, &[], 0.0, 1, 1);
            std::io::stdout().flush().ok();
            unsafe { libc::_exit(1) }
        };
        let budget = Duration::from_secs_f64(left);
        let mut r = if sc.isolated {
            explore_isolated(i, sc, id, budget, &slots, slots_path, false, &on_hang)
        } else {
            explore(i, sc, budget, &slots, &on_hang)
        };
        println!(
            "{} {}: executions={} transitions={} states={} outcomes={} depth={} complete={} {:.2}s",
            ck.id,
            r.name,
            r.local.execs,
            r.local.transitions,
            r.local.states.len(),
            r.local.outcomes.len(),
            r.local.max_depth,
            r.exhaustive,
            r.wall
        );
        std::io::stdout().flush().ok();
        if let Some((choices, msg)) = r.violation.clone() {
            let (choices, msg) = (&choices, &msg);
            // The same choices must fail again, twice, before the verdict is believed. A failure
            // that depends on what the file system threads happen to do may need several tries.
            let mut l = Local::default();
            let tries: Vec<RunOut> = (0..40)
                .scan(0, |bad, _| {
                    if *bad >= 2 {
                        return None;
                    }
                    let o = execute(sc, choices.clone(), true, 0, &mut l);
                    *bad += o.result.is_err() as usize;
                    Some(o)
                })
                .filter(|o| matches!(&o.result, Err(e) if !e.contains(HARNESS)))
                .collect();
            if msg.contains(HARNESS) || tries.len() < 2 {
                eprintln!(
                    "{}: {} ({} replays failed likewise) choices={}: again, in isolation",
                    sc.name,
                    msg,
                    tries.len(),
                    fmt_choices(choices)
                );
                // It depends on what ran before it in the same process, or at the same time.
                // Executions one after the other in a process are a history like any other:
                // what two such explorations find is believed.
                let again = || {
                    let left = total_budget - t0.elapsed().as_secs_f64();
                    let budget = Duration::from_secs_f64(left.max(1.0));
                    explore_isolated(i, sc, id, budget, &slots, slots_path, true, &on_hang)
                };
                let a = again();
                match &a.violation {
                    Some((c, m)) if !m.contains(HARNESS) => match again().violation {
                        Some((_, m2)) if !m2.contains(HARNESS) => {
                            let note = ["depends on the executions before it in the process".to_string()];
                            let p = write_replay(ck.id, tier, &sc.name, c, m, &note);
                            println!("scenario {}: {}", sc.name, m);
                            println!("VIOLATION property={} replay={}", ck.id, p);
                            code = 1;
                        }
                        _ => code = 3,
                    },
                    None if a.exhaustive => println!("note: {} holds when explored in isolation", sc.name),
                    _ => code = 3,
                }
                if code == 3 {
                    eprintln!("harness error in {}", sc.name);
                }
                r = a;
            } else {
                let p = write_replay(ck.id, tier, &sc.name, choices, msg, &tries[0].log);
                println!("scenario {}: {}", sc.name, msg);
                println!("VIOLATION property={} replay={}", ck.id, p);
                code = 1;
            }
        }
        reports.push(r);
        if code != 0 {
            break;
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    for r in &reports {
        for (k, v) in &r.local.known {
            if seen.insert(k.clone()) {
                println!("KNOWN-FINDING: property={} {} ({})", ck.id, v, k);
            }
        }
    }
    evidence(
        &ck,
        tier,
        &reports,
        t0.elapsed().as_secs_f64(),
        (code == 1) as usize,
        (reports.len() != ck.scenarios.len()) as usize,
    );
    code
}

fn spawn(args: &[&str]) -> std::process::ExitStatus {
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .status()
        .expect("spawn")
}

/// Supervises the exploring process, so that a crash of the code under test (abort, stack
/// overflow, segfault) is attributed to the execution that caused it and replayed.
fn supervise(id: &str) -> i32 {
    let slots_path = format!("{}/mc-slots-{}", util::scratch_root(), std::process::id());
    let st = spawn(&["child", id, &slots_path]);
    let code = match st.code() {
        Some(c) => c,
        None => {
            println!("exploring process ended abnormally: {}", st);
            let tier = tier_from_env();
            let slots = Slots::map(&slots_path);
            let ck = check(id, tier).unwrap();
            let mut code = 3;
            for w in 0..NSLOT {
                if let Some((sc, prefix)) = slots.get(w) {
                    let name = &ck.scenarios[sc].name;
                    let msg = format!("the process running the code ended abnormally: {}", st);
                    let p = write_replay(id, tier, name, &prefix, &msg, &[]);
                    let r = spawn(&["replay", &p]);
                    if r.code().is_none() {
                        println!("scenario {}: {}", name, msg);
                        println!("VIOLATION property={} replay={}", id, p);
                        evidence(&ck, tier, &[], 0.0, 1, 1);
                        code = 1;
                        break;
                    }
                    std::fs::remove_file(&p).ok();
                }
            }
            code
        }
    };
    std::fs::remove_file(&slots_path).ok();
    code
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|s| s.to_string()))
            .unwrap_or_default()
    };
    let tier = if get("tier") == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let ck = check(&get("property"), tier).expect("unknown property");
    util::load_known(ck.id, &format!("{}/known_findings.txt", verif_dir()));
    let name = get("scenario");
    let sc = ck
        .scenarios
        .iter()
        .find(|s| s.name == name)
        .expect("unknown scenario");
    let choices: Vec<u32> = get("choices")
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().unwrap())
        .collect();
    let mut l = Local::default();
    let out = execute(sc, choices, true, 0, &mut l);
    for s in &out.log {
        println!("  {}", s);
    }
    match out.result {
        Ok(()) => {
            println!("replay: property held");
            0
        }
        Err(e) => {
            println!("replay: {}", e);
            1
        }
    }
}

fn main() {
    install_panic_hook();
    shim::register(0);
    // A runaway allocation in the code under test must not take the sandbox down.
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 12 << 30,
            rlim_max: 12 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => supervise(&args[2]),
        Some("child") => child(&args[2], &args[3]),
        Some("shard") => {
            let ck = check(&args[2], tier_from_env()).unwrap();
            util::load_known(&args[2], &format!("{}/known_findings.txt", verif_dir()));
            let slots = Slots::map(&args[3]);
            let (i, k): (usize, usize) = (args[4].parse().unwrap(), args[5].parse().unwrap());
            let ms: u64 = std::env::var("MC_SHARD_BUDGET_MS").unwrap().parse().unwrap();
            explore_shard(i, &ck.scenarios[i], k, Duration::from_millis(ms), &slots, &args[6]);
            0
        }
        Some("replay") => replay(&args[2]),
        _ => {
            eprintln!("usage: mc check ID | replay FILE");
            2
        }
    };
    std::io::stdout().flush().ok();
    std::process::exit(code)
}
