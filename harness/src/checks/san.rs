//! C30: the workloads of other checks, in builds instrumented by sanitizers.
use super::{cli, conn, engine, ffi, menu, server, session, stack, table, tui, wire};
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::rng::{hash_str, Rng};

pub struct C30Check;
pub static C30: C30Check = C30Check;

fn workloads() -> Vec<(u32, &'static dyn Check)> {
    let tsan = std::env::var("VERIF_SAN").map_or(false, |v| v == "tsan");
    vec![
        (4, &ffi::C24),
        (4, &conn::C23),
        (3, &wire::C22),
        (3, &server::C19),
        (2, &server::C18),
        (3, &cli::C26),
        // ThreadSanitizer holds back the signal that tells of a resize
        (if tsan { 0 } else { 3 }, &tui::C25),
        (3, &engine::C07),
        (2, &engine::C13),
        (2, &engine::C15),
        (1, &engine::C27),
        (1, &menu::C12),
        (1, &stack::C28),
        (1, &table::C02),
        (1, &session::C20),
    ]
}

/// the ones that touch nothing of the process but their own scratch directory
const PARALLEL: &[&str] = &["C02", "C12", "C22", "C23", "C28"];

/// several cases at the same time in threads: nothing of the code under test is shared
fn parallel(check: &'static dyn Check, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
    let threads: Vec<_> = (0..r.range(2, 4))
        .map(|i| {
            let mut r = Rng::new(r.next());
            let mut own = Ctx {
                counters: Default::default(),
                hashes: Default::default(),
                samples: Vec::new(),
                trace: Vec::new(),
                scratch: ctx.scratch.join(format!("p{}", i)),
                tier: ctx.tier,
                inconclusive: None,
                seed: ctx.seed,
            };
            std::thread::spawn(move || {
                std::fs::create_dir_all(&own.scratch).map_err(|e| format!("harness: {}", e))?;
                let mut res = Ok(());
                for _ in 0..3 {
                    res = check.run(case, &mut r, &mut own);
                }
                res.map(|()| own.counters)
            })
        })
        .collect();
    let mut res = Ok(());
    for t in threads {
        match t.join() {
            Ok(Ok(counters)) => {
                for (k, n) in counters {
                    ctx.add(&k, n);
                }
            }
            Ok(Err(e)) => res = Err(e),
            Err(_) => res = Err("panic in a thread".into()),
        }
    }
    res
}

impl Check for C30Check {
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "a case is a case of the workload of another check (C interface, client connection, wire, live servers, command line, terminal, engine, text table), run with the whole program, the standard library and the Lua interpreter instrumented by AddressSanitizer, ThreadSanitizer or MemorySanitizer; only the sanitizers' reports, of any process, are judged; distinct by workload and case"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 900,
            Tier::Thorough => 20_000,
        }
    }
    fn only_sanitizer_reports(&self) -> bool {
        true
    }
    fn stall_secs(&self) -> u64 {
        60
    }
    fn memory_mb(&self) -> u64 {
        0
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["workload C24", "workload C23", "workload C18", "workload C19", "workload C26", "workload C07"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["memory that is never released is not judged"]
    }
    fn run(&self, case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let w = workloads();
        let weights: Vec<u32> = w.iter().map(|(n, _)| *n).collect();
        let (_, check) = w[r.weighted(&weights)];
        ctx.count(&format!("workload {}", check.id()));
        ctx.log(format!("a case of {}", check.id()));
        let seen = std::mem::take(&mut ctx.hashes);
        let res = if PARALLEL.contains(&check.id()) && r.chance(1, 2) {
            ctx.count(&format!("in parallel {}", check.id()));
            parallel(check, case, r, ctx)
        } else {
            check.run(case, r, ctx)
        };
        ctx.hashes = seen;
        ctx.distinct(hash_str(&format!("{} {}", check.id(), case)));
        ctx.inconclusive = None;
        if let Err(e) = &res {
            ctx.count(&format!("ended early {}", check.id()));
            ctx.sample(|| format!("ended early: {} {}", check.id(), e));
        }
        res
    }
}
