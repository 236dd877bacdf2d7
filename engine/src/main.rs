//! llsym: bounded symbolic execution of LLVM IR with z3.
#![allow(dead_code)]
mod exec;
mod hooks;
mod ir;
mod live;
mod mem;
mod parse;
mod solver;
mod term;
use exec::*;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
}

fn main() {
    let mut ll = vec![];
    let mut entries: Vec<String> = vec![];
    let mut jobs = 8i64;
    let mut deadline = 600u64;
    let mut out = "-".to_string();
    let mut rl = 20_000_000u32;
    let mut rlh = 0u32;
    let mut tactic = String::new();
    let mut max_instr = 3_000_000_000u64;
    let mut max_viol = 10u64;
    let mut verbose = false;
    let mut grace = 0u64;
    let mut samples = 6u64;
    let mut ite = 1024u64;
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        let mut two = true;
        match a[i].as_str() {
            "--ll" => ll.push(v),
            "--entry" => entries.push(v),
            "--jobs" => jobs = v.parse().unwrap(),
            "--deadline" => deadline = v.parse().unwrap(),
            "--out" => out = v,
            "--rlimit" => rl = v.parse().unwrap(),
            "--rlimit-heavy" => rlh = v.parse().unwrap(),
            "--tactic" => tactic = v,
            "--max-instr" => max_instr = v.parse().unwrap(),
            "--max-viol" => max_viol = v.parse().unwrap(),
            "--grace" => grace = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(),
            "--ite" => ite = v.parse().unwrap(),
            "-v" => {
                verbose = true;
                two = false;
            }
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += if two { 2 } else { 1 };
    }
    if rlh == 0 {
        rlh = rl.saturating_mul(10);
    }
    let t0 = Instant::now();
    let m = match parse::Module::load(&ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("llsym: {}", e);
            std::process::exit(3);
        }
    };
    let nf = m.fns.len();
    let load_s = t0.elapsed().as_secs_f64();
    let sh: &'static Shared = unsafe { &*(mem::map_shared(std::mem::size_of::<Shared>() as u64 + 4096) as *const Shared) };
    let mut results = vec![];
    let mut rc = 0;
    let end_at = t0 + Duration::from_secs(deadline);
    // every entry point runs in its own process tree, one after another, sharing the parsed module
    let ev_base = if out == "-" { format!("/tmp/llsym.{}", std::process::id()) } else { format!("{}.ev", out) };
    let mut eng: Option<Eng> = None;
    let mut module = Some(m);
    let mut names = vec![];
    for (k, en) in entries.iter().enumerate() {
        let events = format!("{}.{}", ev_base, k);
        let _ = std::fs::remove_file(&events);
        unsafe {
            std::ptr::write_bytes(sh as *const Shared as *mut u8, 0, std::mem::size_of::<Shared>());
        }
        sh.tokens.store(jobs - 1, SeqCst);
        let te = Instant::now();
        if eng.is_none() {
            let mm = module.take().unwrap();
            names = mm.fns.iter().map(|f| f.name.clone()).collect();
            eng = Some(Eng::new(
                mm,
                sh,
                Cfg {
                    rlimit: rl,
                    rlimit_heavy: rlh,
                    tactic: tactic.clone(),
                    deadline: end_at,
                    start: t0,
                    grace,
                    max_instr,
                    max_viol,
                    events: events.clone(),
                    verbose,
                    nopanic_default: false,
                    max_samples: samples,
                    ite_limit: ite,
                    no_table: std::env::var("LLSYM_NOTABLE").is_ok(),
                },
            ));
        }
        let e = eng.as_mut().unwrap();
        e.cfg.events = events.clone();
        let Some(idx) = e.m.fn_idx.get(en).copied() else {
            eprintln!("llsym: no function {}", en);
            std::process::exit(3);
        };
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            e.watchdog();
            e.push_frame(idx, vec![], None, None);
            e.run();
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        let ld = |x: &std::sync::atomic::AtomicU64| x.load(SeqCst);
        e.synced = 0;
        e.sync_parsed();
        e.synced = 0;
        let errs = ld(&sh.errors) + (st != 0) as u64;
        let viol = ld(&sh.violations);
        let mut labels = vec![];
        for l in sh.labels.iter() {
            if l.used.load(SeqCst) != 0 {
                let b: Vec<u8> = l.name.iter().map(|x| x.load(SeqCst)).take_while(|x| *x != 0).collect();
                labels.push((String::from_utf8_lossy(&b).to_string(), ld(&l.count)));
            }
        }
        labels.sort();
        let cov: Vec<String> = (0..nf.min(65536)).filter(|i| sh.cov[*i].load(SeqCst) != 0).map(|i| names[i].clone()).collect();
        let evs: Vec<String> = std::fs::read_to_string(&events).unwrap_or_default().lines().map(|s| s.to_string()).collect();
        let _ = std::fs::remove_file(&events);
        let s = format!(
            "{{\"entry\":\"{}\",\"status\":{},\"paths\":{},\"panics\":{},\"assumed_out\":{},\"forks\":{},\"instructions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"asserts\":{},\"discharged\":{},\"trivial\":{},\"tabled\":{},\"violations\":{},\"errors\":{},\"wall_s\":{:.2},\"labels\":{{{}}},\"functions\":[{}],\"events\":[{}]}}",
            en, st, ld(&sh.paths), ld(&sh.panics), ld(&sh.assumed_out), ld(&sh.forks), ld(&sh.instrs), ld(&sh.queries), ld(&sh.sat), ld(&sh.unsat), ld(&sh.unknown),
            ld(&sh.solver_us) as f64 / 1e6, ld(&sh.maxq_us) as f64 / 1e6, ld(&sh.asserts), ld(&sh.discharged), ld(&sh.trivial), ld(&sh.tabled), viol, errs, te.elapsed().as_secs_f64(),
            labels.iter().map(|(n, c)| format!("\"{}\":{}", esc(n), c)).collect::<Vec<_>>().join(","),
            cov.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(","),
            evs.join(",")
        );
        if verbose {
            eprintln!("{}: paths {} viol {} err {} q {} solver {:.1}s instr {} wall {:.1}", en, ld(&sh.paths), viol, errs, ld(&sh.queries), ld(&sh.solver_us) as f64 / 1e6, ld(&sh.instrs), te.elapsed().as_secs_f64());
        }
        results.push(s);
        if errs > 0 {
            rc = 2;
        } else if viol > 0 && rc == 0 {
            rc = 1;
        }
        if viol > 0 && grace > 0 {
            break;
        }
    }
    let j = format!(
        "{{\"z3\":\"{}\",\"load_s\":{:.2},\"wall_s\":{:.2},\"entries\":[{}]}}\n",
        esc(&solver::version()),
        load_s,
        t0.elapsed().as_secs_f64(),
        results.join(",\n")
    );
    if out == "-" {
        print!("{}", j);
    } else {
        std::fs::write(&out, j).unwrap();
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(rc) }
}
