//! C21: the configuration the server starts with, for every combination of command line
//! flags and environment variables. The real binary (built with the hook that prints the
//! configuration it was given) is executed.

use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::explore::*;
use crate::{Check, Tier};

struct Run {
    ok: bool,
    config: Option<String>,
    text: String,
}

fn launch(args: &[OsString], env: &[(&str, OsString)]) -> Result<Run, String> {
    let bin = std::env::var("MC_CLI_BIN").map_err(|_| format!("{}MC_CLI_BIN is not set", HARNESS))?;
    let dir = crate::util::scratch_root();
    let mut c = Command::new(bin);
    c.args(args).env_clear().current_dir(dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in env {
        c.env(k, v);
    }
    let mut kid = c.spawn().map_err(|e| format!("{}cannot run meerkat: {}", HARNESS, e))?;
    // read while it runs: a long line would fill the pipe
    fn drain(r: Option<impl std::io::Read + Send + 'static>) -> std::thread::JoinHandle<Vec<u8>> {
        std::thread::spawn(move || {
            let mut v = vec![];
            if let Some(mut r) = r {
                r.read_to_end(&mut v).ok();
            }
            v
        })
    }
    let (so, se) = (drain(kid.stdout.take()), drain(kid.stderr.take()));
    let t0 = Instant::now();
    // the server returns at once today; a server that keeps running is stopped once it had
    // ample time to report its configuration
    loop {
        if kid.try_wait().map_err(|e| e.to_string())?.is_some() {
            break;
        }
        if t0.elapsed() > Duration::from_secs(5) {
            kid.kill().ok();
            break;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
    let status = kid.wait().map_err(|e| e.to_string())?;
    let (out, err) = (so.join().unwrap_or_default(), se.join().unwrap_or_default());
    let out = String::from_utf8_lossy(&out).to_string();
    let config = out.lines().find_map(|l| l.strip_prefix("VERIF_CONFIG ")).map(normal);
    let err = String::from_utf8_lossy(&err).replace('\n', " ");
    Ok(Run {
        ok: status.success() || status.code().is_none(),
        config,
        text: err.chars().take(200).collect(),
    })
}

/// The path, the port and the seeds of a printed configuration, whatever the fields are called
/// and in whatever order they stand.
fn normal(printed: &str) -> String {
    let body = match printed.find(|c| c == '{' || c == '(') {
        Some(i) => &printed[i + 1..printed.trim_end().len().saturating_sub(1).max(i + 1)],
        None => printed,
    };
    let (mut depth, mut quoted, mut escaped) = (0i32, false, false);
    let mut fields = vec![String::new()];
    for c in body.chars() {
        if !quoted && depth == 0 && c == ',' {
            fields.push(String::new());
            continue;
        }
        if quoted {
            quoted = escaped || c != '"';
            escaped = !escaped && c == '\\';
        } else {
            match c {
                '"' => quoted = true,
                '[' | '(' | '{' => depth += 1,
                ']' | ')' | '}' => depth -= 1,
                _ => {}
            }
        }
        fields.last_mut().unwrap().push(c);
    }
    let mut kinds = [String::new(), String::new(), String::new()];
    for f in fields {
        let f = f.trim();
        // the name of the field
        let f = match f.find(|c: char| !(c.is_alphanumeric() || c == '_')) {
            Some(i) if f[i..].starts_with(": ") => &f[i + 2..],
            _ => f,
        };
        let kind = match f.chars().next() {
            Some('"') => 0,
            Some('0'..='9') => 1,
            Some('[') => 2,
            _ => continue,
        };
        if !kinds[kind].is_empty() {
            kinds[kind].push('+');
        }
        kinds[kind] += f;
    }
    kinds.join(", ")
}

/// How one option is given.
#[derive(Clone, Hash, Debug, PartialEq)]
struct Given<T> {
    flag: Option<T>,
    env: Option<T>,
}

impl<T: Clone> Given<T> {
    fn value(&self) -> Option<T> {
        self.flag.clone().or(self.env.clone())
    }
}

fn pick_given<T: Clone + Copy>(ctx: &mut Ctx, vals: &[T], alt: &[T]) -> Given<T> {
    match ctx.choose(4) {
        0 => Given { flag: None, env: None },
        1 => Given { flag: Some(ctx.pick(vals)), env: None },
        2 => Given { flag: None, env: Some(ctx.pick(vals)) },
        _ => Given { flag: Some(ctx.pick(vals)), env: Some(ctx.pick(alt)) },
    }
}

fn seeds_of(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars().chain(Some(',')) {
        if c == ',' {
            let t = cur.trim().to_string();
            if !t.is_empty() {
                v.push(t);
            }
            cur.clear();
        } else {
            cur.push(c);
        }
    }
    v
}

/// The few distinct strings a run builds are kept.
fn leak(s: String) -> &'static str {
    use std::collections::HashSet;
    use std::sync::Mutex;
    static KEPT: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut k = KEPT.lock().unwrap();
    let k = k.get_or_insert_with(HashSet::new);
    if let Some(x) = k.get(s.as_str()) {
        return x;
    }
    let x: &'static str = Box::leak(s.into_boxed_str());
    k.insert(x);
    x
}

fn one(
    ctx: &mut Ctx,
    db: Given<&'static [u8]>,
    port: Given<&'static str>,
    seeds: Given<&'static str>,
    form: usize,
) -> Result<(), String> {
    let mut args: Vec<Vec<OsString>> = vec![];
    let mut env: Vec<(&str, OsString)> = vec![];
    let text = |g: Given<&'static str>| Given {
        flag: g.flag.map(|x| x.as_bytes()),
        env: g.env.map(|x| x.as_bytes()),
    };
    for (g, f, e) in [
        (db.clone(), "--db-path", "MK_DB_PATH"),
        (text(port.clone()), "--gossip-port", "MK_GOSSIP_PORT"),
        (text(seeds.clone()), "--seeds", "MK_SEEDS"),
    ] {
        if let Some(v) = g.flag {
            let v = OsStr::from_bytes(v);
            args.push(if form & 1 == 0 {
                vec![f.into(), v.into()]
            } else {
                let mut a = OsString::from(f);
                a.push("=");
                a.push(v);
                vec![a]
            });
        }
        if let Some(v) = g.env {
            env.push((e, OsStr::from_bytes(v).into()));
        }
    }
    if form & 2 == 2 {
        args.reverse();
    }
    let args: Vec<OsString> = args.concat();
    let r = launch(&args, &env)?;
    ctx.step(|| format!("meerkat {:?} env {:?} -> {:?}", args, env, r.config));
    ctx.state(&(&args, &env));
    ctx.outcome(&(&r.config, r.ok));
    let want_port = match port.value() {
        None => Some(7775u16),
        Some(p) => p.parse::<u16>().ok(),
    };
    let what = format!("meerkat {:?} with {:?}", args, env);
    match (db.value(), want_port) {
        (Some(d), Some(p)) => {
            let s = seeds.value().map(seeds_of).unwrap_or_default();
            let want = format!(
                "{:?}, {:?}, {:?}",
                PathBuf::from(OsStr::from_bytes(d)),
                p,
                s
            );
            // whether an invalid port that is overridden stops the program is left open
            let overridden = port.flag.is_some() && port.env.map_or(false, |e| e.parse::<u16>().is_err());
            match r.config {
                Some(c) if c == want && r.ok => Ok(()),
                None if overridden && !r.ok => Ok(()),
                Some(c) => Err(format!("{}: started with {} instead of {}", what, c, want)),
                None => Err(format!("{}: did not start ({})", what, r.text)),
            }
        }
        _ => match r.config {
            None if !r.ok => Ok(()),
            None => Err(format!("{}: invalid options but a successful exit", what)),
            Some(c) => Err(format!("{}: started with {} although the options are invalid", what, c)),
        },
    }
}

pub fn check(id: &str, tier: Tier) -> Option<Check> {
    if id != "C21" {
        return None;
    }
    // a path is any string of bytes, not only UTF-8
    const DB: &[&[u8]] = &[b"/data/meerkat", "rel p\u{e4}th".as_bytes(), b"/data/\xff\xfe"];
    const PATHS: &[&[u8]] = &[
        b".", b"..", b"/", b"a", b"/a/", b"/a//b", b"/a/../b", b"~", b"$HOME/x", b"%20", b" lead", b"trail ",
        b"a,b", b"a=b", b"a:b", b"a\"b", b"a'b", b"a\\b", b"a\nb", b"a\tb", b"\xc3", b"\xff", b"a\x80b",
        b"\xed\xa0\x80", b"7775", b"*", b"file:///x", "\u{1F600}".as_bytes(), "\u{feff}x".as_bytes(),
    ];
    const PORT: &[&str] = &["0", "1", "7775", "7776", "65535"];
    const SEEDS: &[&str] = &[
        "", "a", "a,b", " a , b ", "a,,b", ",", " ", "10.0.0.1,host.example.com", "b,a,b", "ü,x y",
    ];
    let mut s = vec![];
    s.push(Scenario::new("every-source-of-every-option", move |ctx| {
        let db = pick_given(ctx, DB, &[b"/env"]);
        let port = pick_given(ctx, tier.of(&PORT[..3], PORT), &["4242"]);
        let seeds = pick_given(ctx, tier.of(&SEEDS[1..5], SEEDS), &["env1,env2"]);
        let form = ctx.choose(4);
        one(ctx, db, port, seeds, form)
    }));
    s.push(Scenario::new("seeds", move |ctx| {
        let db = Given { flag: Some(&b"/d"[..]), env: None };
        let port = Given { flag: None, env: None };
        let seeds = pick_given(ctx, SEEDS, SEEDS);
        let form = ctx.choose(2);
        one(ctx, db, port, seeds, form)
    }));
    s.push(Scenario::new("seed-strings", move |ctx| {
        let n = tier.of(5, 6);
        let t: &'static str = leak((0..n).map(|_| ["", "a", ",", " ", "b"][ctx.choose(5)]).collect());
        let db = Given { flag: Some(&b"/d"[..]), env: None };
        let port = Given { flag: None, env: None };
        one(ctx, db, port, Given { flag: None, env: Some(t) }, 0)
    }));
    s.push(Scenario::new("ports", move |ctx| {
        let db = Given { flag: Some(&b"/d"[..]), env: None };
        let vals = ["0", "1", "80", "7775", "7776", "32768", "65535", "65536", "70000", "-1", "abc", "1.5", "7775x", "0x10", "99999999999999999999", "080", "+80", "000000065535", " 80", "80 ", "8 0", "1e3", "8_0", "\u{664}", "65535\n", "true", "-0", "--1"];
        let v = ctx.pick(&vals);
        let port = match ctx.choose(3) {
            0 => Given { flag: Some(v), env: None },
            1 => Given { flag: None, env: Some(v) },
            _ => Given { flag: Some(v), env: Some(ctx.pick(&["", "abc", "65536", "7775", "81", "-1"])) },
        };
        // a value that starts with a dash is only unambiguous in the = form
        one(ctx, db, port, Given { flag: None, env: None }, 1)
    }));
    // blanks other than the space, long lists, long names
    s.push(Scenario::new("seed-blanks", move |ctx| {
        let cells = ["", "a", "\t", " b\t", "\r\n", "\u{a0}", "c d", "\u{3000}e", "\"f\"", "g;h", "[::1]:80", "a:1", "Host.EXAMPLE.", "k=v", "-x", "#y|$HOME~%20*"];
        let n = tier.of(3, 4);
        let t: Vec<&str> = (0..n).map(|_| cells[ctx.choose(cells.len())]).collect();
        let db = Given { flag: Some(&b"/d"[..]), env: None };
        let t = leak(t.join(","));
        let seeds = if ctx.choose(2) == 0 { Given { flag: Some(t), env: None } } else { Given { flag: None, env: Some(t) } };
        one(ctx, db, Given { flag: None, env: None }, seeds, 1)
    }));
    // names somebody could rewrite, resolve, complete or skip
    s.push(Scenario::new("seed-names", move |ctx| {
        let names = [
            "localhost", "localhost:7775", "h:7775", "h:80", "h:", ":7775", "7775", "0.0.0.0", "127.0.0.1", "127.0.0.1:7775", "255.255.255.255",
            "010.0.0.1", "::1", "[::1]", "[::1]:7775", "fe80::1%eth0", "http://h", "https://h:7775/", "tcp://h", "h/", "/h", "h.", ".h",
            "self", "none", "null", "auto", "true", "0", "*", "*.h", "_srv._tcp.h", "xn--bcher-kva.example", "bücher.example", "H", "h@x",
            "\"h\"", "'h'", "[a", "a]", "(a)", "h|i", "h i", "h\\,i", "h%2Ci", "h&i", "h+i", "~", "$HOME", "`h`", "a=b", "#h", "!h", "?", "-", "--",
        ];
        let n = ctx.pick(&names);
        let t = match ctx.choose(4) {
            0 => n.to_string(),
            1 => format!("{},a", n),
            2 => format!("a, {}", n),
            _ => format!("{},{}", n, n),
        };
        let t = leak(t);
        let db = Given { flag: Some(&b"/d"[..]), env: None };
        let port = Given { flag: None, env: if ctx.choose(2) == 1 { Some("81") } else { None } };
        let seeds = if ctx.choose(2) == 0 { Given { flag: Some(t), env: None } } else { Given { flag: None, env: Some(t) } };
        one(ctx, db, port, seeds, 1)
    }));
    s.push(Scenario::new("long-values", move |ctx| {
        let n = ctx.pick(&[2usize, 10, 17, 33, 65, 129, 256, 257, 1000, 5000]);
        let len = ctx.pick(&[1usize, 9, 20]);
        let t: Vec<String> = (0..n).map(|i| format!("{:0>w$}", i % 700, w = len)).collect();
        let t = leak(t.join(if ctx.choose(2) == 0 { "," } else { ", " }));
        let path: &'static [u8] = leak(format!("/{}", "d/".repeat(ctx.pick(&[1usize, 130, 2100])))).as_bytes();
        let seeds = if ctx.choose(2) == 0 { Given { flag: Some(t), env: None } } else { Given { flag: None, env: Some(t) } };
        one(ctx, Given { flag: None, env: Some(path) }, Given { flag: None, env: None }, seeds, 1)
    }));
    s.push(Scenario::new("paths", move |ctx| {
        let db = match ctx.choose(3) {
            0 => Given { flag: Some(ctx.pick(PATHS)), env: None },
            1 => Given { flag: None, env: Some(ctx.pick(PATHS)) },
            _ => Given { flag: Some(ctx.pick(PATHS)), env: Some(&b"/env"[..]) },
        };
        let form = ctx.choose(2);
        one(ctx, db, Given { flag: None, env: None }, Given { flag: None, env: None }, form)
    }));
    // other variables, whatever they are called, configure nothing
    s.push(Scenario::new("other-variables", move |ctx| {
        let names = [
            "MK_PORT", "MK_SEED", "MK_DBPATH", "MK_DB", "DB_PATH", "GOSSIP_PORT", "SEEDS", "MK_GOSSIP", "mk_seeds", "mk_db_path",
            "MEERKAT_SEEDS", "MEERKAT_DB_PATH", "MEERKAT_GOSSIP_PORT", "MK_CONFIG", "MK_DATA", "PORT", "RUST_LOG", "HOME", "PWD",
            "MK_SEEDS_", "MK__SEEDS", "MK_GOSSIP_PORT_", "CARGO", "MK_BOOTSTRAP", "MK_NODES", "MK_LOG", "TMPDIR", "LANG", "TERM", "COLUMNS",
        ];
        let name = ctx.pick(&names);
        let value = ctx.pick(&["", "1234", "x,y", "/elsewhere", "debug"]);
        let form = ctx.choose(4);
        let db = ctx.choose(3);
        let args: Vec<OsString> = match form {
            0 => vec![],
            1 => vec!["--gossip-port".into(), "99".into()],
            2 => vec!["--seeds".into(), "s1".into()],
            _ => vec!["--seeds=s1".into(), "--gossip-port=99".into()],
        };
        let mut env: Vec<(&str, OsString)> = vec![(name, value.into())];
        let mut args = args;
        match db {
            0 => {}
            1 => args.push("--db-path=/d".into()),
            _ => env.push(("MK_DB_PATH", "/d".into())),
        }
        let r = launch(&args, &env)?;
        ctx.step(|| format!("meerkat {:?} env {:?} -> {:?}", args, env, r.config));
        ctx.state(&(&args, &env));
        ctx.outcome(&(&r.config, r.ok));
        let port = if form % 2 == 1 { 99 } else { 7775 };
        let seeds: Vec<&str> = if form >= 2 { vec!["s1"] } else { vec![] };
        let want = if db > 0 {
            Some(format!("{:?}, {:?}, {:?}", "/d", port, seeds))
        } else {
            None
        };
        if r.config != want || r.ok != want.is_some() {
            return Err(format!("meerkat {:?} with {:?}: {:?} instead of {:?}", args, env, r.config, want));
        }
        Ok(())
    }));
    Some(Check {
        id: "C21",
        level: "model_checking",
        rule: "every combination of (flag, environment variable, both, neither) for every option x argument order x spelling, every seed list over a small alphabet, valid and invalid ports; the real executable is run and the configuration the server receives is compared with one computed independently",
        assumptions: vec!["the configuration is observed where the server receives it, through a guarded println hook", "an empty value for --db-path, repeated options, and whether an invalid port in the environment stops the program when the command line overrides it, are left unspecified"],
        scenarios: s,
    })
}
