//! Generated-input checks of quick_cache. See /verif/DESIGN.md.
//!
//! qcheck run PROP --seed S --worker I --of N --cases C --secs T --out DIR
//! qcheck exec PROP --tape FILE [--trace]     replay one case
//! qcheck one PROP --seed S --idx I [--trace] generate one case
//! qcheck count PROP                           default number of cases (quick thorough)

mod asy;
mod conc;
mod config;
mod fault;
mod hist;
mod mem;
mod policy;
mod press;
mod reent;
mod report;
mod scale;
mod seq;
mod share;
mod tape;
mod timed;
mod types;
mod work;

use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

#[global_allocator]
static COUNTING: mem::Counting = mem::Counting;

use report::*;
use tape::{mix, Src};

fn mask(prop: &str) -> u32 {
    PANIC
        | match prop {
            "C01" => LOOKUP,
            "C02" => LOSS,
            "C03" => CAP,
            "C04" => ACCT,
            "C05" => NOTIFY,
            "C06" => PIN,
            "C07" => HOOK,
            "C08" => MUT,
            "C09" => REMOVE,
            "C10" => REPL,
            "C15" => GUARD,
            "C21" => RES,
            "C23" => STATS,
            "C24" => FUEL,
            "C11" => NEUTRAL,
            "C13" => SAME,
            "C14" => CLONE,
            "C12" => POLICY,
            "C18" => ASYNC,
            "C16" => FLIGHT,
            "C17" => STRAND,
            "C19" => LIN,
            "C20" => TIMED,
            "C22" => CONFIG,
            "C25" => LOCKS,
            "C26" => ALLOC,
            "C27" => SHARE,
            "C28" => FAULT,
            "C29" => COST,
            _ => !0,
        }
}

/// runs one case; returns whether it was non-trivial
fn run_case(prop: &str, src: &mut Src) -> bool {
    match prop {
        "C21" if conc::SHUTTLE && src.chance(1, 5) => reent::run(src),
        // a few large caches, very many lookups, very many waiters
        "C01" | "C02" | "C04" | "C09" | "C12" | "C22" | "C24" if !conc::SHUTTLE && src.chance(1, 16384) => scale::entries(src),
        "C12" | "C23" | "C24" if !conc::SHUTTLE && src.chance(1, 4096) => scale::lookups(src),
        "C02" | "C03" | "C04" | "C05" | "C06" if !conc::SHUTTLE && src.chance(1, 2048) => scale::heavy(src),
        "C16" | "C17" | "C18" if !conc::SHUTTLE && src.chance(1, 2048) => scale::waiters(src),
        // in the shuttle build, these run concurrent histories only; otherwise a few of them
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C09" | "C10" | "C21" | "C23" if conc::SHUTTLE || src.chance(1, 32) => press::run(src),
        "C19" if src.chance(1, 6) => press::run(src),
        // a share of the cases has pending futures
        "C01" | "C05" | "C07" | "C10" | "C15" | "C23" if src.chance(1, 8) => asy::run(src),
        "C09" if src.chance(1, 5) => match src.weighted(&[3, 2]) {
            0 => hist::cleared(src),
            _ => policy::run(prop, src),
        },
        "C09" | "C10" | "C15" if src.chance(1, 6) => hist::noop(prop, src),
        "C24" if src.chance(1, 12) => match src.weighted(&[200, 100, 1]) {
            0 => asy::run(src),
            1 => conc::run(prop, src),
            _ => timed::run(src),
        },
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C15" | "C23" | "C24" => {
            seq::run(prop, src)
        }
        // one in 48 is a long history whose memory use is measured
        "C21" => match src.weighted(&[84, 2, 10]) {
            0 => seq::run(prop, src),
            1 => mem::run(src),
            _ => asy::run(src),
        },
        #[cfg(not(feature = "shuttle"))]
        "C16" | "C17" if src.chance(3, 4) => asy::run(src),
        // several tasks under generated schedules
        "C18" if conc::SHUTTLE => conc::run(prop, src),
        "C18" => asy::run(src),
        "C16" | "C17" | "C19" => conc::run(prop, src),
        "C20" => timed::run(src),
        "C12" => policy::run(prop, src),
        "C22" => config::run(src),
        "C25" => reent::run(src),
        "C26" => mem::steady(src),
        "C27" => share::run(src),
        "C28" => fault::run(src),
        "C29" => work::run(src),
        "C11" => hist::neutral(src),
        "C13" => hist::same(src),
        "C14" => hist::clones(src),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn num(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).map(|s| s.parse().expect("number")).unwrap_or(default)
}

fn prop_hash(prop: &str) -> u64 {
    prop.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn tape_hash(t: &[u32]) -> u64 {
    t.iter().fold(0x1234_5678, |h, &x| mix(h, x as u64))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (Some(cmd), Some(prop)) = (args.get(1).cloned(), args.get(2).cloned()) else {
        eprintln!("usage: qcheck run|exec|one PROP ...");
        std::process::exit(2)
    };
    install_hook();
    MASK.store(mask(&prop), Relaxed);
    let seed = num(&args, "--seed", 1);
    match cmd.as_str() {
        "run" => run(&args, &prop, seed),
        "exec" | "one" => {
            TRACING.store(args.iter().any(|a| a == "--trace"), Relaxed);
            let mut src = if cmd == "exec" {
                let text = std::fs::read_to_string(arg(&args, "--tape").expect("--tape")).expect("tape file");
                let tape = text.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse::<u64>().unwrap() as u32).collect();
                Src::replay(tape)
            } else {
                let idx = num(&args, "--idx", 0);
                CASE.store(idx, Relaxed);
                Src::random(mix(mix(seed, prop_hash(&prop)), idx))
            };
            if let Some(p) = arg(&args, "--fail") {
                *FAIL_PATH.lock().unwrap() = Some(p);
            }
            if let Some(p) = arg(&args, "--journal-tape") {
                src.journal(&p);
            }
            SRC.store(&mut src, Relaxed);
            let nt = run_case(&prop, &mut src);
            let trace = TRACE.lock().unwrap().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
            println!(
                "{{\"result\":\"ok\",\"nontrivial\":{},\"tape\":{},\"marks\":{},\"trace\":[{}]}}",
                nt,
                list(src.used()),
                list(&src.marks),
                trace
            );
        }
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2)
        }
    }
}

fn run(args: &[String], prop: &str, seed: u64) {
    let worker = num(args, "--worker", 0);
    let of = num(args, "--of", 1);
    let cases = num(args, "--cases", 1000);
    let from = num(args, "--from", worker);
    let secs = num(args, "--secs", 600);
    let out = arg(args, "--out").expect("--out");
    *FAIL_PATH.lock().unwrap() = Some(format!("{out}/fail.{worker}.json"));
    // the index of the case being run, in shared memory so that it survives a crash
    let cur = map_u64(&format!("{out}/cur.{worker}"));
    let start = Instant::now();
    let base = mix(seed, prop_hash(prop));
    let (mut n, mut nt) = (0u64, 0u64);
    let mut hashes: Vec<u64> = Vec::new();
    let mut samples: Vec<u64> = Vec::new();
    let mut idx = from;
    while idx < cases {
        if n % 16 == 0 && start.elapsed().as_secs() >= secs {
            break;
        }
        unsafe { std::ptr::write_volatile(cur, idx) };
        CASE.store(idx, Relaxed);
        let mut src = Src::random(mix(base, idx));
        SRC.store(&mut src, Relaxed);
        let t = run_case(prop, &mut src);
        n += 1;
        if t {
            nt += 1;
            hashes.push(tape_hash(&src.tape));
            if samples.len() < 4 && src.tape.len() < 120 {
                samples.push(idx);
            }
        }
        idx += of;
    }
    SRC.store(std::ptr::null_mut(), Relaxed);
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{out}/hashes.{worker}")).unwrap();
    let bytes: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    f.write_all(&bytes).unwrap();
    let labels = LABELS.with(|l| l.borrow().iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(","));
    std::fs::write(
        format!("{out}/done.{worker}.{from}.json"),
        format!(
            "{{\"cases\":{n},\"nontrivial\":{nt},\"complete\":{},\"samples\":{},\"labels\":{{{labels}}},\"secs\":{:.2}}}",
            idx >= cases,
            list(&samples),
            start.elapsed().as_secs_f64()
        ),
    )
    .unwrap();
}

fn map_u64(path: &str) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().create(true).truncate(false).read(true).write(true).open(path).unwrap();
    f.set_len(8).unwrap();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u64
    }
}
