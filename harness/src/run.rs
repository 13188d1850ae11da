//! Orchestration: workers are child processes running slices of the cases; the parent watches
//! them, decides the verdict and writes the evidence.
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::checks;
use crate::rng::{hash_str, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::io::FromRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

struct Opts {
    id: String,
    tier: Tier,
    seed: u64,
    evidence: Option<PathBuf>,
    replays: PathBuf,
    known: Option<PathBuf>,
    from: u64,
    to: u64,
    step: u64,
    scratch: PathBuf,
    only: Option<u64>,
    scale: f64,
}

fn parse(args: &[String]) -> Opts {
    let mut o = Opts {
        id: args.get(1).cloned().unwrap_or_default(),
        tier: Tier::Quick,
        seed: 1,
        evidence: None,
        replays: PathBuf::from("/verif/replays"),
        known: None,
        from: 0,
        to: 0,
        step: 1,
        scratch: PathBuf::from("/tmp"),
        only: None,
        scale: 1.0,
    };
    let mut i = 2;
    while i + 1 < args.len() {
        let v = &args[i + 1];
        match args[i].as_str() {
            "--tier" => {
                o.tier = if v == "thorough" {
                    Tier::Thorough
                } else {
                    Tier::Quick
                }
            }
            "--seed" => o.seed = v.parse().unwrap_or(1),
            "--evidence" => o.evidence = Some(v.into()),
            "--replays" => o.replays = v.into(),
            "--known" => o.known = Some(v.into()),
            "--from" => o.from = v.parse().unwrap(),
            "--to" => o.to = v.parse().unwrap(),
            "--step" => o.step = v.parse().unwrap(),
            "--scratch" => o.scratch = v.into(),
            "--only" => o.only = Some(v.parse().unwrap()),
            "--scale" => o.scale = v.parse().unwrap(),
            x => panic!("unknown option {}", x),
        }
        i += 2;
    }
    o
}

pub fn main(args: &[String]) -> i32 {
    match args.first().map(String::as_str) {
        Some("run") => run(parse(args)),
        Some("worker") => worker(parse(args)),
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id());
            }
            0
        }
        Some("helper") => checks::helper(&args[1..]),
        _ => {
            eprintln!("usage: cedmon run|worker|list ...");
            2
        }
    }
}

fn case_rng(seed: u64, id: &str, case: u64) -> Rng {
    Rng::new(
        seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ hash_str(id) ^ case.wrapping_mul(0xd134_2543_de82_ef95),
    )
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// the message and location of the last panic of this thread
pub fn take_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".to_string())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
    }));
}

/// what the sanitizer wrote down, from any process of this run
fn sanitizer_reports(scratch: &Path) -> Vec<String> {
    let mut files: Vec<PathBuf> = fs::read_dir(scratch)
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| e.path())
        .filter(|p| p.file_name().map_or(false, |n| n.to_string_lossy().starts_with("sanlog.")))
        .collect();
    files.sort();
    files
        .iter()
        .filter_map(|f| fs::read(f).ok())
        .map(|b| String::from_utf8_lossy(&b).into_owned())
        .filter(|t| {
            // notes, like the one of a stack that grew, are no reports
            t.contains("ERROR: ") || t.contains("WARNING: ThreadSanitizer") || t.contains("WARNING: MemorySanitizer")
        })
        .collect()
}

/// running a build instrumented by a sanitizer, whose shadow memory needs address space and time
fn sanitized() -> bool {
    std::env::var_os("VERIF_SAN").is_some()
}

fn worker(o: Opts) -> i32 {
    // the code under test may print: keep the protocol on a private descriptor
    let out_fd = unsafe {
        let fd = libc::dup(1);
        libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        libc::dup2(null, 1);
        libc::dup2(null, 0);
        fd
    };
    let mut out = unsafe { fs::File::from_raw_fd(out_fd) };
    let check = checks::find(&o.id).expect("known check");
    let lim = check.memory_mb();
    let only_reports = check.only_sanitizer_reports();
    if lim > 0 && !sanitized() {
        let r = libc::rlimit {
            rlim_cur: lim << 20,
            rlim_max: lim << 20,
        };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &r) };
    }
    fs::create_dir_all(&o.scratch).expect("scratch");
    std::env::set_current_dir(&o.scratch).expect("chdir scratch");
    install_panic_hook();
    let mut ctx = Ctx {
        counters: BTreeMap::new(),
        hashes: HashSet::new(),
        samples: Vec::new(),
        trace: Vec::new(),
        scratch: o.scratch.clone(),
        tier: o.tier,
        inconclusive: None,
        seed: o.seed,
    };
    let start = Instant::now();
    let budget = Duration::from_secs(match std::env::var("VERIF_BUDGET").ok().and_then(|v| v.parse().ok()) {
        Some(secs) => secs,
        None if o.tier == Tier::Quick => 240,
        // it runs in three builds one after the other
        None if check.id() == "C30" => 250,
        None => 750,
    });
    let mut done = 0u64;
    let mut case = o.from;
    let mut truncated = false;
    let mut inconclusive = 0u64;
    let mut last = Instant::now() - Duration::from_secs(60);
    while case < o.to {
        if start.elapsed() > budget {
            truncated = true;
            break;
        }
        if last.elapsed() > Duration::from_millis(5) || o.only.is_some() {
            last = Instant::now();
            let _ = writeln!(out, "B {}", case);
        } else {
            let _ = writeln!(out, "b {}", case);
        }
        ctx.trace.clear();
        ctx.inconclusive = None;
        let mut r = case_rng(o.seed, check.id(), case);
        let res: CaseResult =
            match catch_unwind(AssertUnwindSafe(|| check.run(case, &mut r, &mut ctx))) {
                Ok(r) => r,
                Err(_) => Err(take_panic()),
            };
        done += 1;
        if let Some(why) = ctx.inconclusive.take() {
            inconclusive += 1;
            let _ = writeln!(out, "I {}", json!({"case": case, "why": why}));
        }
        if only_reports && res.is_err() {
            // judged by the plain build; here only the sanitizer's reports count
            ctx.count("cases_ended_early");
        } else if let Err(msg) = res {
            let _ = writeln!(
                out,
                "V {}",
                json!({"case": case, "msg": msg, "trace": ctx.trace})
            );
            break;
        }
        case += o.step;
    }
    let hashes: Vec<&u64> = ctx.hashes.iter().collect();
    let _ = writeln!(
        out,
        "E {}",
        json!({"done": done, "truncated": truncated, "inconclusive": inconclusive,
               "counters": ctx.counters, "hashes": hashes, "samples": ctx.samples})
    );
    // some checks leave threads behind: do not wait for them
    let _ = out.flush();
    unsafe { libc::_exit(0) }
}

struct Worker {
    child: Child,
    last_case: Option<u64>,
    last_seen: Instant,
    ended: bool,
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

fn spawn(
    o: &Opts,
    idx: usize,
    from: u64,
    to: u64,
    step: u64,
    scratch: &Path,
    tx: mpsc::Sender<Msg>,
    only: bool,
) -> Worker {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(exe);
    cmd.arg("worker")
        .arg(&o.id)
        .args(["--tier", o.tier.name()])
        .args(["--seed", &o.seed.to_string()])
        .args(["--from", &from.to_string()])
        .args(["--to", &to.to_string()])
        .args(["--step", &step.to_string()])
        .arg("--scratch")
        .arg(scratch.join(format!("w{}", idx)));
    if only {
        cmd.args(["--only", "1"]);
    }
    cmd.stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .process_group(0);
    let mut child = cmd.spawn().expect("spawn worker");
    let out = child.stdout.take().unwrap();
    std::thread::spawn(move || {
        for line in BufReader::new(out).lines() {
            match line {
                Ok(l) => {
                    if tx.send(Msg::Line(idx, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Msg::Eof(idx));
    });
    Worker {
        child,
        last_case: None,
        last_seen: Instant::now(),
        ended: false,
    }
}

fn kill_group(child: &mut Child) {
    unsafe { libc::kill(-(child.id() as i32), libc::SIGKILL) };
    let _ = child.kill();
}

#[derive(Default)]
struct Totals {
    done: u64,
    truncated: bool,
    inconclusive: u64,
    counters: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<String>,
    notes: Vec<String>,
}

impl Totals {
    fn merge(&mut self, v: &Value) {
        self.done += v["done"].as_u64().unwrap_or(0);
        self.truncated |= v["truncated"].as_bool().unwrap_or(false);
        self.inconclusive += v["inconclusive"].as_u64().unwrap_or(0);
        if let Some(c) = v["counters"].as_object() {
            for (k, n) in c {
                *self.counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
        }
        if let Some(h) = v["hashes"].as_array() {
            self.hashes.extend(h.iter().filter_map(Value::as_u64));
        }
        if let Some(s) = v["samples"].as_array() {
            for x in s {
                if self.samples.len() < 6 {
                    self.samples.push(x.as_str().unwrap_or("").to_string());
                }
            }
        }
    }
}

struct Violation {
    case: u64,
    msg: String,
    trace: Vec<String>,
}

enum Alone {
    Fine(Value),
    Bad(Violation),
    Unknown(String),
}

/// runs one case by itself, with a generous limit
fn run_alone(o: &Opts, case: u64, scratch: &Path, why: &str) -> Alone {
    let (tx, rx) = mpsc::channel();
    let mut w = spawn(o, 99, case, case + 1, 1, scratch, tx, true);
    let limit = Duration::from_secs(150);
    let start = Instant::now();
    let mut viol = None;
    let mut end = None;
    loop {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(_, l)) => {
                if let Some(j) = l.strip_prefix("V ") {
                    viol = to_violation(j);
                } else if let Some(j) = l.strip_prefix("E ") {
                    end = serde_json::from_str::<Value>(j).ok();
                }
            }
            Ok(Msg::Eof(_)) => break,
            Err(_) => {
                if start.elapsed() > limit {
                    kill_group(&mut w.child);
                    let _ = w.child.wait();
                    return Alone::Bad(Violation {
                        case,
                        msg: format!(
                            "case does not terminate: no answer within {} s, run alone ({})",
                            limit.as_secs(),
                            why
                        ),
                        trace: Vec::new(),
                    });
                }
            }
        }
    }
    kill_group(&mut w.child);
    let st = w.child.wait();
    if let Some(v) = viol {
        return Alone::Bad(v);
    }
    if let Some(e) = end {
        return Alone::Fine(e);
    }
    match st {
        Ok(st) => match st.signal() {
            Some(s) if s == libc::SIGKILL || s == libc::SIGTERM => {
                Alone::Unknown(format!("worker killed by signal {} ({})", s, why))
            }
            Some(s) => Alone::Bad(Violation {
                case,
                msg: format!("process killed by signal {} (twice), e.g. abort, stack or memory exhaustion ({})", s, why),
                trace: Vec::new(),
            }),
            None => Alone::Unknown(format!("worker exited with {:?} ({})", st.code(), why)),
        },
        Err(e) => Alone::Unknown(format!("wait: {} ({})", e, why)),
    }
}

fn to_violation(j: &str) -> Option<Violation> {
    let v: Value = serde_json::from_str(j).ok()?;
    Some(Violation {
        case: v["case"].as_u64()?,
        msg: v["msg"].as_str()?.to_string(),
        trace: v["trace"]
            .as_array()?
            .iter()
            .map(|x| x.as_str().unwrap_or("").to_string())
            .collect(),
    })
}

/// "finding: property=<id> match=<text> :: <what>" lines of the known-findings file
fn known_findings(o: &Opts) -> Vec<(String, String)> {
    let mut list = Vec::new();
    if let Some(p) = &o.known {
        for l in fs::read_to_string(p).unwrap_or_default().lines() {
            let Some(rest) = l.strip_prefix("finding: property=") else {
                continue;
            };
            let Some((id, rest)) = rest.split_once(" match=") else {
                continue;
            };
            let Some((m, what)) = rest.split_once(" :: ") else {
                continue;
            };
            if id == o.id {
                list.push((m.to_string(), what.to_string()));
            }
        }
    }
    list
}

fn run(o: Opts) -> i32 {
    let check: &dyn Check = match checks::find(&o.id) {
        Some(c) => c,
        None => {
            eprintln!("unknown check {}", o.id);
            return 2;
        }
    };
    let started = Instant::now();
    let scratch = std::env::temp_dir().join(format!("cedmon.{}.{}", o.id, std::process::id()));
    fs::create_dir_all(&scratch).expect("scratch dir");
    if sanitized() {
        let log = scratch.join("sanlog");
        let common = format!("log_path={}", log.display());
        std::env::set_var("ASAN_OPTIONS", format!("{}:detect_leaks=0:exitcode=99:handle_abort=1:detect_stack_use_after_return=1:strict_string_checks=1", common));
        std::env::set_var("MSAN_OPTIONS", format!("{}:exitcode=99:handle_abort=1", common));
        std::env::set_var("TSAN_OPTIONS", format!("{}:exitcode=0:halt_on_error=0:atexit_sleep_ms=0:history_size=4:second_deadlock_stack=1", common));
    }
    let total = if let Some(c) = o.only {
        c + 1
    } else {
        ((check.cases(o.tier) as f64) * o.scale).ceil() as u64
    };
    let n = if o.only.is_some() { 1 } else { check.workers().min(total as usize).max(1) };
    let (tx, rx) = mpsc::channel();
    let mut workers: Vec<Worker> = (0..n)
        .map(|i| {
            let from = o.only.unwrap_or(i as u64);
            spawn(&o, i, from, total, n as u64, &scratch, tx.clone(), o.only.is_some())
        })
        .collect();
    let mut totals = Totals::default();
    let mut violation: Option<Violation> = None;
    let known = known_findings(&o);
    let mut known_hits: HashSet<String> = HashSet::new();
    let mut retries = 0;
    let mut looked = Instant::now();

    while violation.is_none() && workers.iter().any(|w| !w.ended) {
        let mut trouble: Option<(usize, String)> = None;
        if sanitized() && looked.elapsed() > Duration::from_secs(5) {
            looked = Instant::now();
            if !sanitizer_reports(&scratch).is_empty() {
                break;
            }
        }
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(i, l)) => {
                let w = &mut workers[i];
                w.last_seen = Instant::now();
                if let Some(c) = l.strip_prefix("B ").or_else(|| l.strip_prefix("b ")) {
                    w.last_case = c.parse().ok();
                } else if let Some(j) = l.strip_prefix("V ") {
                    violation = to_violation(j);
                    if let Some(v) = &violation {
                        if let Some((_, what)) = known.iter().find(|(m, _)| v.msg.contains(m.as_str())) {
                            known_hits.insert(what.clone());
                            violation = None;
                            // the worker stops at a violation: go on behind it
                            let next = w.last_case.unwrap_or(0) + n as u64;
                            workers[i] = spawn(&o, i, next, total, n as u64, &scratch, tx.clone(), false);
                        }
                    }
                } else if let Some(j) = l.strip_prefix("I ") {
                    if totals.notes.len() < 5 {
                        totals.notes.push(j.to_string());
                    }
                } else if let Some(j) = l.strip_prefix("E ") {
                    w.ended = true;
                    if let Ok(v) = serde_json::from_str(j) {
                        totals.merge(&v);
                    }
                }
            }
            Ok(Msg::Eof(i)) => {
                if !workers[i].ended {
                    let st = workers[i].child.wait();
                    if sanitized() && !sanitizer_reports(&scratch).is_empty() {
                        break;
                    }
                    trouble = Some((i, format!("worker ended unexpectedly: {:?}", st)));
                }
            }
            Err(_) => {}
        }
        if trouble.is_none() {
            for (i, w) in workers.iter_mut().enumerate() {
                if !w.ended && w.last_seen.elapsed() > Duration::from_secs(check.stall_secs() * if sanitized() { 4 } else { 1 }) {
                    kill_group(&mut w.child);
                    let _ = w.child.wait();
                    trouble = Some((i, "stalled".to_string()));
                    break;
                }
            }
        }
        if let Some((i, why)) = trouble {
            let Some(case) = workers[i].last_case else {
                totals.notes.push(format!("worker {}: {}", i, why));
                workers[i].ended = true;
                continue;
            };
            retries += 1;
            match run_alone(&o, case, &scratch, &why) {
                Alone::Bad(v) => violation = Some(v),
                Alone::Fine(v) => totals.merge(&v),
                Alone::Unknown(n) => {
                    totals.inconclusive += 1;
                    totals.notes.push(n);
                }
            }
            if violation.is_none() {
                if retries > 20 {
                    totals.notes.push("too many retries".into());
                    break;
                }
                workers[i] = spawn(&o, i, case + n as u64, total, n as u64, &scratch, tx.clone(), false);
                for w in workers.iter_mut() {
                    w.last_seen = Instant::now();
                }
            }
        }
    }
    for w in workers.iter_mut() {
        kill_group(&mut w.child);
        let _ = w.child.wait();
    }
    if sanitized() {
        let reports = sanitizer_reports(&scratch);
        totals.counters.insert("sanitizer reports".into(), reports.len() as u64);
        if let Some(first) = reports.first() {
            if violation.is_none() {
                let case = workers.iter().filter_map(|w| w.last_case).min().unwrap_or(0);
                let lines: Vec<String> = first.lines().take(200).map(String::from).collect();
                let head = lines
                    .iter()
                    .find(|l| l.contains("ERROR: ") || l.contains("WARNING: "))
                    .cloned()
                    .unwrap_or_default();
                let place = lines.iter().find(|l| l.contains("/repo/") || l.contains("ffi-src")).cloned().unwrap_or_default();
                violation = Some(Violation { case, msg: format!("{} {}", head.trim(), place.trim()), trace: lines });
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);

    for what in &known_hits {
        println!("KNOWN-FINDING: property={} {}", o.id, what);
    }

    let wall = started.elapsed().as_secs_f64();
    if let Some(path) = &o.evidence {
        let mut samples = totals.samples.clone();
        if samples.is_empty() {
            samples.push("(no sample recorded)".to_string());
        }
        let ev = json!({
            "property": o.id,
            "tier": o.tier.name(),
            "seed": o.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": totals.done,
                "distinct_nontrivial": totals.hashes.len(),
                "rule": check.rule(),
                "samples": samples,
                "observed": totals.counters,
                "inconclusive_cases": totals.inconclusive,
                "stopped_early": totals.truncated || violation.is_some(),
                "notes": totals.notes,
            },
            "assumptions": check.assumptions(),
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": if violation.is_some() { 1 } else { 0 },
        });
        if let Some(d) = path.parent() {
            let _ = fs::create_dir_all(d);
        }
        fs::write(path, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    if let Some(v) = violation {
        let _ = fs::create_dir_all(&o.replays);
        let path = o.replays.join(format!("{}-{}-{}.json", o.id, o.seed, v.case));
        let body = json!({
            "property": o.id, "tier": o.tier.name(), "seed": o.seed, "case": v.case,
            "message": v.msg, "trace": v.trace,
            "replay": format!("/verif/check {} --tier {} --seed {} --only {}", o.id, o.tier.name(), o.seed, v.case),
        });
        let _ = fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        for l in v.trace.iter().rev().take(12).rev() {
            println!("  {}", l);
        }
        println!("{}: case {}: {}", o.id, v.case, v.msg);
        println!("VIOLATION property={} replay={}", o.id, path.display());
        return 1;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1}s; observed {:?}{}",
        o.id,
        totals.done,
        totals.hashes.len(),
        wall,
        totals.counters,
        if totals.inconclusive > 0 {
            format!("; {} inconclusive {:?}", totals.inconclusive, totals.notes)
        } else {
            String::new()
        }
    );
    if o.only.is_none() {
        let missing: Vec<&str> = check
            .required()
            .into_iter()
            .filter(|k| totals.counters.get(*k).copied().unwrap_or(0) == 0)
            .collect();
        if totals.done == 0 || !missing.is_empty() {
            println!("{}: INCONCLUSIVE, nothing observed for {:?} {:?}", o.id, missing, totals.notes);
            return 2;
        }
    }
    0
}
