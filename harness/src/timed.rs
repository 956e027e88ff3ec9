//! C20: timed waits in real time. Generated sets of waiters with zero, short, huge and no
//! timeouts, a holder that inserts, gives up or is displaced at generated times, and unparks that
//! mean nothing. (Built with `shuttle`, schedules of timed waits are explored instead, see conc.)

use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};

use quick_cache::sync::{Cache, GuardResult};

use crate::report::*;
use crate::tape::Src;
use crate::tr;

type C = Cache<u32, u64>;

#[derive(Clone, Copy, Debug)]
enum Then {
    /// what a waiter does with the loading right
    Insert,
    GiveUp,
}

#[derive(Clone, Copy, Debug)]
struct Call {
    delay: u32,
    timeout: Option<Duration>,
    then: Then,
    hold: u32,
}

#[derive(Clone, Copy, Debug)]
enum End {
    Insert,
    GiveUp,
    Displace,
    DisplaceAndInsert,
}

struct Done {
    call: Call,
    start: Instant,
    elapsed: Duration,
    what: What,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
enum What {
    Value(u64),
    Guard,
    Timeout,
}

fn us(n: u32) {
    if n > 0 {
        thread::sleep(Duration::from_micros(n as u64));
    }
}

/// processor time used by this thread
fn cpu() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

/// waits for `n` messages, counted in short sleeps so that a suspended machine does not matter
fn wait_all(rx: &mpsc::Receiver<()>, n: usize, what: &str) {
    for _ in 0..n {
        let mut ok = false;
        for _ in 0..400 {
            if rx.recv_timeout(Duration::from_millis(100)).is_ok() {
                ok = true;
                break;
            }
        }
        if !ok {
            fail(TIMED | STRAND, what);
        }
    }
}

pub fn run(src: &mut Src) -> bool {
    if cfg!(feature = "shuttle") {
        return crate::conc::run("C20", src);
    }
    if src.chance(1, 6000) {
        long(src)
    } else if src.chance(1, 24) {
        prompt(src)
    } else if src.chance(1, 400) {
        idle(src)
    } else {
        general(src)
    }
}

fn general(src: &mut Src) -> bool {
    let c = Arc::new(C::new(100));
    let nwait = if src.chance(1, 60) { 5 + src.below(36) as usize } else { 1 + src.below(4) as usize };
    let mut calls: Vec<Vec<Call>> = Vec::new();
    for _ in 0..nwait {
        let mut v = Vec::new();
        let n = src.plan(1, 3);
        while src.more(v.len() as u32, n) && v.len() < 4 {
            let timeout = match src.weighted(&[2, 6, 2, 2]) {
                0 => Some(Duration::ZERO),
                1 => Some(Duration::from_micros(100 * (1 + src.below(25)) as u64)),
                2 => Some(src.pick(&[Duration::from_secs(3600), Duration::MAX, Duration::from_secs(u64::MAX / 2)])),
                _ => None,
            };
            let then = if src.chance(1, 2) { Then::GiveUp } else { Then::Insert };
            v.push(Call { delay: 50 * src.below(12), timeout, then, hold: 50 * src.below(10) });
        }
        calls.push(v);
    }
    let hold = 100 * src.below(30);
    let end = match src.weighted(&[4, 4, 1, 1]) {
        0 => End::Insert,
        1 => End::GiveUp,
        2 => End::Displace,
        _ => End::DisplaceAndInsert,
    };
    let unparks: Vec<(u32, usize)> = (0..src.below(5)).map(|_| (50 * src.below(20), src.below(nwait as u32) as usize)).collect();
    if tracing() {
        tr!("the holder keeps the loading right for {hold}us, then: {end:?}; unparks (after us, waiter): {unparks:?}");
        for (i, v) in calls.iter().enumerate() {
            tr!("waiter {i}: {v:?}");
        }
    }
    let GuardResult::Guard(g) = c.get_value_or_guard(&1, None) else {
        fail(TIMED | GUARD, "no guard for an absent key");
    };
    let done: Arc<Mutex<Vec<Done>>> = Default::default();
    // when an insertion through a guard (by anyone) had returned, and its value
    let inserted: Arc<Mutex<Vec<(Instant, u64, bool)>>> = Default::default();
    let live = Arc::new(AtomicU32::new(1));
    let (tx, rx) = mpsc::channel();
    let hs: Vec<_> = calls
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let (c, done, inserted, live, tx, v) = (c.clone(), done.clone(), inserted.clone(), live.clone(), tx.clone(), v.clone());
            thread::spawn(move || {
                for (j, call) in v.into_iter().enumerate() {
                    us(call.delay);
                    let start = Instant::now();
                    let r = c.get_value_or_guard(&1, call.timeout);
                    let elapsed = start.elapsed();
                    let what = match r {
                        GuardResult::Value(v) => What::Value(v),
                        GuardResult::Timeout => What::Timeout,
                        GuardResult::Guard(g) => {
                            live.fetch_add(1, SeqCst);
                            us(call.hold);
                            live.fetch_sub(1, SeqCst);
                            match call.then {
                                Then::Insert => {
                                    let id = 1000 + 10 * i as u64 + j as u64;
                                    let ok = g.insert(id).is_ok();
                                    inserted.lock().unwrap().push((Instant::now(), id, ok));
                                }
                                Then::GiveUp => drop(g),
                            }
                            What::Guard
                        }
                    };
                    done.lock().unwrap().push(Done { call, start, elapsed, what });
                }
                let _ = tx.send(());
            })
        })
        .collect();
    let t0 = Instant::now();
    let mut unparks = unparks;
    unparks.sort();
    for (at, i) in unparks {
        let at = Duration::from_micros(at as u64).min(Duration::from_micros(hold as u64));
        thread::sleep(at.saturating_sub(t0.elapsed()));
        hs[i].thread().unpark();
    }
    thread::sleep(Duration::from_micros(hold as u64).saturating_sub(t0.elapsed()));
    live.fetch_sub(1, SeqCst);
    let mut displaced = false;
    match end {
        End::Insert => {
            let ok = g.insert(1).is_ok();
            inserted.lock().unwrap().push((Instant::now(), 1, ok));
            if !ok {
                fail(TIMED | GUARD, "the holder's insertion failed although nothing displaced it");
            }
        }
        End::GiveUp => drop(g),
        End::Displace => {
            displaced = true;
            c.remove(&1);
            drop(g);
        }
        End::DisplaceAndInsert => {
            displaced = true;
            c.insert(1, 2);
            inserted.lock().unwrap().push((Instant::now(), 2, true));
            let ok = g.insert(3).is_ok();
            inserted.lock().unwrap().push((Instant::now(), 3, ok));
        }
    }
    wait_all(&rx, hs.len(), "a waiter did not return within 40 s although every guard was consumed");
    for h in hs {
        if h.join().is_err() {
            fail(PANIC, "a waiter panicked");
        }
    }
    let inserted = inserted.lock().unwrap();
    let mut waited = false;
    for d in done.lock().unwrap().iter() {
        tr!("{:?} -> {:?} after {:?}", d.call, d.what, d.elapsed);
        match d.what {
            What::Timeout => {
                label("timeouts");
                let Some(t) = d.call.timeout else { fail(TIMED, "Timeout from a call without a timeout") };
                if d.elapsed < t {
                    fail(TIMED, &format!("Timeout after {:?}, before the timeout of {t:?} had passed", d.elapsed));
                }
                // the value was there before the deadline
                if !displaced {
                    if let Some((at, v, _)) = inserted.iter().find(|(at, _, ok)| *ok && d.start.checked_add(t).is_some_and(|e| *at < e)) {
                        fail(
                            TIMED,
                            &format!(
                                "Timeout (of {t:?}, reported after {:?}) although v{v} had been inserted {:?} before the deadline",
                                d.elapsed,
                                (d.start + t).duration_since(*at)
                            ),
                        );
                    }
                }
                waited = true;
            }
            What::Value(v) => {
                if !inserted.iter().any(|(_, x, _)| *x == v) {
                    fail(TIMED | LIN, &format!("a waiter received the value {v} that nobody inserted"));
                }
                waited |= d.elapsed > Duration::from_micros(20);
            }
            What::Guard => {
                label("hand-offs and fresh guards");
                waited |= d.elapsed > Duration::from_micros(20);
            }
        }
    }
    let present = c.peek(&1).is_some();
    match c.get_value_or_guard(&1, Some(Duration::ZERO)) {
        GuardResult::Value(_) if present => (),
        GuardResult::Guard(_) if !present => (),
        _ => fail(TIMED | STRAND, "a reservation is left behind after all calls returned"),
    }
    waited
}

/// how late a single timed wait reports its timeout, compared with a plain timed sleep of a
/// control thread; only consistent lateness counts
fn prompt(src: &mut Src) -> bool {
    let t = match src.weighted(&[2, 2, 1]) {
        0 => Duration::from_millis(100 + 20 * src.below(4) as u64),
        1 => Duration::from_micros(1 + src.below(3000) as u64),
        _ => Duration::ZERO,
    };
    let unparks: Vec<u32> = if t.is_zero() { vec![] } else { (0..src.below(4)).map(|_| 30 + src.below(66)).collect() };
    tr!("one waiter with a timeout of {t:?}; unparks at {unparks:?} percent of it");
    let mut worst = Vec::new();
    for _ in 0..8 {
        let late = attempt(t, &unparks);
        if late <= Duration::from_millis(25) {
            return true;
        }
        worst.push(late);
    }
    let least = worst.iter().min().unwrap();
    fail(TIMED, &format!("the timeout of {t:?} was reported at least {least:?} late (and later than by a plain timed sleep) in each of {} attempts", worst.len()))
}

fn attempt(t: Duration, unparks: &[u32]) -> Duration {
    let c = Arc::new(C::new(100));
    let GuardResult::Guard(g) = c.get_value_or_guard(&1, None) else {
        fail(TIMED | GUARD, "no guard for an absent key");
    };
    let (tx, rx) = mpsc::channel();
    let c2 = c.clone();
    let w = thread::spawn(move || {
        let s = Instant::now();
        let r = matches!(c2.get_value_or_guard(&1, Some(t)), GuardResult::Timeout);
        let e = s.elapsed();
        let _ = tx.send(());
        (r, e)
    });
    let control = thread::spawn(move || {
        let s = Instant::now();
        while s.elapsed() < t {
            thread::park_timeout(t.saturating_sub(s.elapsed()));
        }
        s.elapsed()
    });
    let s = Instant::now();
    let mut u = unparks.to_vec();
    u.sort();
    for x in u {
        thread::sleep((t * x / 100).saturating_sub(s.elapsed()));
        w.thread().unpark();
        control.thread().unpark();
    }
    wait_all(&rx, 1, &format!("a wait with a timeout of {t:?} did not end within 40 s"));
    let (timeout, e) = w.join().unwrap_or_else(|_| fail(PANIC, "a waiter panicked"));
    let ce = control.join().unwrap();
    drop(g);
    if !timeout {
        fail(TIMED, "a waiter obtained an outcome although the holder kept the loading right");
    }
    if e < t {
        fail(TIMED, &format!("Timeout after {e:?}, before the timeout of {t:?} had passed"));
    }
    e.saturating_sub(ce)
}

/// waits of several seconds; at the end the holder inserts for those still waiting
fn long(src: &mut Src) -> bool {
    let c = Arc::new(C::new(100));
    let ts: Vec<Option<Duration>> = (0..12)
        .map(|i| match i {
            0 => None,
            1 => Some(src.pick(&[Duration::MAX, Duration::from_secs(86_400), Duration::from_secs(8)])),
            _ => Some(Duration::from_millis(100 + src.below(5000) as u64)),
        })
        .collect();
    let unparks: Vec<(u32, usize)> = (0..src.below(6)).map(|_| (src.below(5000), src.below(12) as usize)).collect();
    tr!("waiters with timeouts {ts:?}; unparks (after ms, waiter) {unparks:?}; the value is inserted after 5.5 s");
    let GuardResult::Guard(g) = c.get_value_or_guard(&1, None) else {
        fail(TIMED | GUARD, "no guard for an absent key");
    };
    let (tx, rx) = mpsc::channel();
    let hs: Vec<_> = ts
        .iter()
        .map(|&t| {
            let (c, tx) = (c.clone(), tx.clone());
            thread::spawn(move || {
                let s = Instant::now();
                let r = match c.get_value_or_guard(&1, t) {
                    GuardResult::Value(v) => What::Value(v),
                    GuardResult::Timeout => What::Timeout,
                    GuardResult::Guard(_) => What::Guard,
                };
                let e = s.elapsed();
                let _ = tx.send(());
                (r, e)
            })
        })
        .collect();
    let t0 = Instant::now();
    let mut unparks = unparks;
    unparks.sort();
    for (at, i) in unparks {
        thread::sleep(Duration::from_millis(at as u64).saturating_sub(t0.elapsed()));
        hs[i].thread().unpark();
    }
    thread::sleep(Duration::from_millis(5500).saturating_sub(t0.elapsed()));
    // the timeouts of all but the first two have passed
    wait_all(&rx, hs.len() - 2, "waits with timeouts of up to 5.1 s did not end within 45 s");
    if g.insert(1).is_err() {
        fail(TIMED | GUARD, "the holder's insertion failed although nothing displaced it");
    }
    wait_all(&rx, 2, "a waiter did not return within 40 s although the value was inserted");
    for (h, t) in hs.into_iter().zip(ts) {
        let (r, e) = h.join().unwrap_or_else(|_| fail(PANIC, "a waiter panicked"));
        tr!("timeout {t:?} -> {r:?} after {e:?}");
        match (r, t) {
            (What::Timeout, None) => fail(TIMED, "Timeout from a call without a timeout"),
            (What::Timeout, Some(t)) if e < t => fail(TIMED, &format!("Timeout after {e:?}, before the timeout of {t:?} had passed")),
            (What::Guard, _) => fail(TIMED | FLIGHT, "a waiter obtained the loading right although the holder kept it"),
            _ => (),
        }
    }
    label("waits of several seconds");
    true
}

/// a waiting thread does not spin; only consistent use of the processor counts
fn idle(src: &mut Src) -> bool {
    let t = src.pick(&[None, None, Some(Duration::from_secs(3600)), Some(Duration::from_millis(60))]);
    let ok = src.chance(1, 2);
    let unparks = src.below(3);
    tr!("one waiter with a timeout of {t:?}, {unparks} unparks; the holder {} after 60 ms", if ok { "inserts" } else { "gives up" });
    let mut least = Duration::MAX;
    for _ in 0..8 {
        let c = Arc::new(C::new(100));
        let GuardResult::Guard(g) = c.get_value_or_guard(&1, None) else {
            fail(TIMED | GUARD, "no guard for an absent key");
        };
        let (tx, rx) = mpsc::channel();
        let c2 = c.clone();
        let w = thread::spawn(move || {
            let s = cpu();
            drop(c2.get_value_or_guard(&1, t));
            let e = cpu().saturating_sub(s);
            let _ = tx.send(());
            e
        });
        for _ in 0..unparks {
            thread::sleep(Duration::from_millis(10));
            w.thread().unpark();
        }
        thread::sleep(Duration::from_millis(60 - 10 * unparks as u64));
        if ok {
            let _ = g.insert(1);
        } else {
            drop(g);
        }
        wait_all(&rx, 1, "a waiter did not return within 40 s although the guard was consumed");
        least = least.min(w.join().unwrap_or_else(|_| fail(PANIC, "a waiter panicked")));
        if least < Duration::from_micros(2500) {
            return true;
        }
    }
    fail(TIMED, &format!("a wait of 60 ms used at least {least:?} of processor time in each of 8 attempts"))
}
