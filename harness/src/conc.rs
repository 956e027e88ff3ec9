//! C16, C17, C19 (and part of C20): several threads and async tasks on one cache. Built with the
//! `shuttle` feature every scheduling decision is an entry of the tape; otherwise the threads are
//! real ones. The history of calls with their start and end times is checked afterwards.

use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::hash::{BuildHasher, Hasher};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

#[cfg(feature = "shuttle")]
use shuttle::thread;
#[cfg(not(feature = "shuttle"))]
use std::thread;

use quick_cache::sync::{Cache, DefaultLifecycle, GuardResult, PlaceholderGuard};
use quick_cache::{OptionsBuilder, Weighter};

use crate::report::*;
use crate::tape::Src;
use crate::tr;

pub const SHUTTLE: bool = cfg!(feature = "shuttle");

#[derive(Clone, Debug, PartialEq, Eq)]
struct Val {
    key: u32,
    id: u32,
    w: u8,
}
#[derive(Clone)]
struct We;
impl Weighter<u32, Val> for We {
    fn weight(&self, _: &u32, v: &Val) -> u64 {
        v.w as u64
    }
}
#[derive(Clone)]
struct Hb;
struct Hs(u64);
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
        }
    }
}
impl BuildHasher for Hb {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(0x1357_9bdf)
    }
}
type Lc = DefaultLifecycle<u32, Val>;
type C = Cache<u32, Val, We, Hb, Lc>;
type G<'a> = PlaceholderGuard<'a, u32, Val, We, Hb, Lc>;

// ---------------------------------------------------------------- plan

#[derive(Clone, Debug)]
enum Load {
    Ok(Val),
    Err,
    Panic,
}
#[derive(Clone, Copy, Debug)]
enum Tmo {
    Never,
    Zero,
    Micros(u32),
    Huge,
}
#[derive(Clone, Debug)]
struct Act {
    before: u8,
    inner: Option<Box<Op>>,
    after: u8,
    /// insert the value through the guard (with end_request or without), or drop the guard
    fin: Option<(Val, bool)>,
}
#[derive(Clone, Debug)]
enum Op {
    Get(u32),
    Peek(u32),
    Has(u32),
    Insert(Val),
    Replace(Val, bool),
    Remove(u32),
    Clear,
    Retain(u32),
    Observe,
    Pause(u8),
    Guard(u32, Tmo, Act),
    Goi(u32, Load, u8),
    GuardAsync(u32, Option<u8>, u8, Act),
    GoiAsync(u32, Load, u8, Option<u8>, u8),
    /// two waiting futures in one task; with `race` the loser is dropped
    Two(u32, u32, bool, Act, Act),
    /// polls a new future once and drops it
    PollOnce(u32),
}

struct Plan {
    cap: u64,
    items: usize,
    shards: usize,
    hot: f64,
    hot_share: u64,
    keys: u32,
    /// not everything fits
    tight: bool,
    init: Vec<Val>,
    threads: Vec<Vec<Op>>,
}

struct Gen<'a> {
    s: &'a mut Src,
    next: u32,
    keys: u32,
    maxw: u8,
    reads: bool,
    touch: bool,
    timed: u32,
    /// blocking calls that wait, or only async ones
    block: bool,
}

impl Gen<'_> {
    fn val(&mut self, key: u32) -> Val {
        self.next += 1;
        let w = 1 + self.s.below(self.maxw as u32) as u8;
        Val { key, id: self.next, w }
    }
    fn key(&mut self) -> u32 {
        // mostly key 0
        if self.s.chance(1, 3) {
            self.s.below(self.keys)
        } else {
            0
        }
    }
    fn tmo(&mut self) -> Tmo {
        match self.s.weighted(&[6, self.timed, self.timed, self.timed]) {
            0 => Tmo::Never,
            1 => Tmo::Zero,
            2 => Tmo::Micros(1 + self.s.below(400)),
            _ => Tmo::Huge,
        }
    }
    fn load(&mut self, k: u32) -> Load {
        match self.s.weighted(&[5, 3, if SHUTTLE { 0 } else { 2 }]) {
            0 => Load::Ok(self.val(k)),
            1 => Load::Err,
            _ => Load::Panic,
        }
    }
    fn act(&mut self, k: u32) -> Act {
        let before = self.s.below(3) as u8;
        let inner = if self.touch && self.s.chance(1, 4) {
            let k2 = if self.s.chance(1, 4) { self.key() } else { k };
            Some(Box::new(match self.s.below(6) {
                0 => Op::Remove(k2),
                1 => Op::Insert(self.val(k2)),
                2 => Op::Clear,
                3 => Op::PollOnce(k2),
                4 => Op::Replace(self.val(k2), self.s.chance(1, 2)),
                _ if SHUTTLE => Op::Peek(k2),
                _ => Op::Guard(k2, Tmo::Zero, Act { before: 0, inner: None, after: 0, fin: None }),
            }))
        } else {
            None
        };
        let after = self.s.below(3) as u8;
        let fin = if self.s.chance(1, 2) { None } else { Some((self.val(k), self.s.chance(1, 4))) };
        Act { before, inner, after, fin }
    }
    fn cancel(&mut self) -> Option<u8> {
        if self.s.chance(1, 2) {
            Some(1 + self.s.below(3) as u8)
        } else {
            None
        }
    }
    fn op(&mut self) -> Op {
        let k = self.key();
        let (r, t, b) = (self.reads as u32, self.touch as u32, self.block as u32);
        match self.s.weighted(&[
            10 * b, 8 * b, 10, 8, 5, 2, // joins
            4 * r, 4 * r, 2 * r, // reads
            8 * t, 4 * t, 7 * t, 2 * t, 2 * t, // writes
            2, 3, 1,
        ]) {
            0 => {
                let t = self.tmo();
                Op::Guard(k, t, self.act(k))
            }
            1 => {
                let l = self.load(k);
                Op::Goi(k, l, self.s.below(4) as u8)
            }
            2 => {
                let c = self.cancel();
                let e = self.s.below(3) as u8;
                Op::GuardAsync(k, c, e, self.act(k))
            }
            3 => {
                // a panicking future is dropped like a cancelled one: covered by Goi
                let l = match self.load(k) {
                    Load::Panic => Load::Err,
                    l => l,
                };
                let y = self.s.below(4) as u8;
                let c = self.cancel();
                Op::GoiAsync(k, l, y, c, self.s.below(3) as u8)
            }
            4 => {
                let k2 = if self.s.chance(1, 2) { self.key() } else { k };
                let race = self.s.chance(1, 2);
                let a = self.act(k);
                Op::Two(k, k2, race, a, self.act(k2))
            }
            5 => Op::PollOnce(k),
            6 => Op::Get(k),
            7 => Op::Peek(k),
            8 => Op::Has(k),
            9 => Op::Insert(self.val(k)),
            10 => {
                let v = self.val(k);
                Op::Replace(v, self.s.chance(1, 3))
            }
            11 => Op::Remove(k),
            12 => Op::Clear,
            13 => Op::Retain(self.s.below(16)),
            14 => Op::Observe,
            15 => Op::Pause(1 + self.s.below(3) as u8),
            _ => Op::Peek(k),
        }
    }
}

fn plan(prop: &str, src: &mut Src) -> Plan {
    let keys = 1 + src.weighted(&[5, 3, 2]) as u32;
    let tight = match prop {
        "C16" => src.chance(1, 5),
        "C17" => src.chance(1, 4),
        _ => src.chance(1, 3),
    };
    let maxw = if src.chance(1, 3) { 3 } else { 1 };
    let hot = src.pick(&[0.97, 0.5, 0.8]);
    let (cap, items, shards) = if tight {
        // at least one unit may be hot
        (src.range(2, 4) as u64, src.range(1, 8) as usize, 1)
    } else if src.chance(1, 5) {
        (1 << 12, 256, 4)
    } else {
        (1 << 10, src.range(1, 40) as usize, 1)
    };
    let shard_cap = if shards == 4 { cap / 4 } else { cap };
    let hot_share = (shard_cap as f64 * hot) as u64;
    let touch = match prop {
        "C16" => src.chance(1, 8),
        "C17" => src.chance(3, 4),
        "C20" => src.chance(1, 3),
        _ => src.chance(5, 6),
    };
    let reads = match prop {
        "C17" | "C20" => src.chance(1, 4),
        _ => src.chance(2, 3),
    };
    let timed = match prop {
        "C20" => 6,
        "C17" => 2,
        _ => 1,
    };
    let mut g = Gen { s: src, next: 0, keys, maxw, reads, touch, timed, block: prop != "C18" };
    let mut init = Vec::new();
    let n = g.s.plan(0, 3).saturating_sub(1);
    while g.s.more(init.len() as u32, n) {
        let k = g.s.below(keys);
        init.push(g.val(k));
    }
    // now and then a crowd, most of which waits
    let crowd = prop != "C19" && g.s.chance(1, 40);
    let nthreads = if crowd { 5 + g.s.below(16) as usize } else { 2 + g.s.weighted(&[3, 5, 2]) };
    let mut threads = Vec::new();
    for _ in 0..nthreads {
        let mut ops = Vec::new();
        let n = g.s.plan(1, if prop == "C19" { 5 } else if crowd { 1 } else { 3 });
        while g.s.more(ops.len() as u32, n) {
            ops.push(g.op());
            if ops.len() >= 8 {
                break;
            }
        }
        threads.push(ops);
    }
    // everything together must fit for the cache to be a plain map
    Plan { cap, items, shards, hot, hot_share, keys, tight, init, threads }
}

// ---------------------------------------------------------------- execution

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Read(Option<u32>),
    Has(bool),
    Write(u32, u8),
    ReplOk(u32),
    ReplErr,
    Rem(Option<u32>),
    Clear,
    /// see kept()
    Retain(u32),
    /// a waiting call returned this value
    Join(u32),
    /// a call returned the guard (or started its loader)
    Acq(u32),
    Ins(u32, u32, bool),
    /// insertion by get_or_insert: its outcome is not visible
    InsMaybe(u32, u32),
    Drop(u32),
    /// a future dropped while it waited; `inv` is when the drop started
    Cancel(u64),
    Timeout,
}

#[derive(Clone, Copy, Debug)]
struct H {
    th: usize,
    key: u32,
    inv: u64,
    resp: u64,
    kind: Kind,
}

struct Sh {
    cache: C,
    clock: AtomicU64,
    gids: AtomicU64,
    log: Mutex<Vec<H>>,
    keys: u32,
}

pub fn pause(n: u8) {
    for _ in 0..n {
        if SHUTTLE {
            thread::yield_now();
        } else {
            for _ in 0..40 {
                std::hint::spin_loop();
            }
        }
    }
}

impl Sh {
    fn now(&self) -> u64 {
        self.clock.fetch_add(1, SeqCst)
    }
    fn gid(&self) -> u32 {
        self.gids.fetch_add(1, SeqCst) as u32
    }
    fn rec(&self, th: usize, key: u32, inv: u64, kind: Kind) {
        let resp = self.now();
        self.log.lock().unwrap().push(H { th, key, inv, resp, kind });
    }
    fn check(&self, key: u32, v: &Val) -> u32 {
        if v.key != key {
            fail(LIN | LOOKUP | FLIGHT, &format!("a call for k{key} returned v{} of k{}", v.id, v.key));
        }
        v.id
    }
}

struct Wk {
    t: thread::Thread,
    woken: AtomicBool,
}
impl Wake for Wk {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, SeqCst);
        self.t.unpark();
    }
}
fn waker() -> (Arc<Wk>, Waker) {
    let w = Arc::new(Wk { t: thread::current(), woken: AtomicBool::new(false) });
    (w.clone(), Waker::from(w))
}

/// polls until ready, or until `cancel` polls were pending. The first `eager` polls happen
/// without having been woken, each with a new waker.
pub fn drive<F: Future + ?Sized>(mut f: Pin<&mut F>, cancel: Option<u8>, eager: u8) -> Option<F::Output> {
    let (mut w, mut wk) = waker();
    let mut n = 0u32;
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&wk)) {
            return Some(x);
        }
        n += 1;
        if cancel.is_some_and(|c| n >= c as u32) {
            return None;
        }
        if n <= eager as u32 {
            thread::yield_now();
            (w, wk) = waker();
        } else {
            while !w.woken.swap(false, SeqCst) {
                thread::park();
            }
        }
    }
}

struct Loader<'a> {
    sh: &'a Sh,
    th: usize,
    key: u32,
    call: u64,
    left: u8,
    load: Load,
    /// guard id and time at which the loader ended
    st: &'a std::cell::Cell<(u32, u64)>,
}
impl Future for Loader<'_> {
    type Output = Result<Val, u32>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.st.get().0 == 0 {
            let gid = self.sh.gid();
            self.st.set((gid, 0));
            self.sh.rec(self.th, self.key, self.call, Kind::Acq(gid));
        }
        if self.left > 0 {
            self.left -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.st.set((self.st.get().0, self.sh.now()));
        match &self.load {
            Load::Ok(v) => Poll::Ready(Ok(v.clone())),
            _ => Poll::Ready(Err(self.key)),
        }
    }
}

fn use_guard(sh: &Sh, th: usize, key: u32, call: u64, g: G<'_>, act: &Act) {
    let gid = sh.gid();
    sh.rec(th, key, call, Kind::Acq(gid));
    pause(act.before);
    if let Some(op) = &act.inner {
        exec(sh, th, op);
    }
    pause(act.after);
    let inv = sh.now();
    match &act.fin {
        Some((v, lc)) => {
            let r = if *lc { g.insert_with_lifecycle(v.clone()).map(drop) } else { g.insert(v.clone()) };
            match r {
                Ok(()) => sh.rec(th, key, inv, Kind::Ins(gid, v.id, true)),
                Err(x) => {
                    if x != *v {
                        fail(LIN | GUARD, "a failed guard insertion returned another value");
                    }
                    sh.rec(th, key, inv, Kind::Ins(gid, v.id, false))
                }
            }
        }
        None => {
            drop(g);
            sh.rec(th, key, inv, Kind::Drop(gid));
        }
    }
}

fn cancelled<F>(sh: &Sh, th: usize, key: u32, call: u64, f: F) {
    let t = sh.now();
    drop(f);
    sh.rec(th, key, t, Kind::Cancel(call));
}

fn exec(sh: &Sh, th: usize, op: &Op) {
    let c = &sh.cache;
    let inv = sh.now();
    match op {
        Op::Pause(n) => pause(*n),
        Op::Get(k) => {
            let r = c.get(k).map(|v| sh.check(*k, &v));
            sh.rec(th, *k, inv, Kind::Read(r))
        }
        Op::Peek(k) => {
            let r = c.peek(k).map(|v| sh.check(*k, &v));
            sh.rec(th, *k, inv, Kind::Read(r))
        }
        Op::Has(k) => {
            let r = c.contains_key(k);
            sh.rec(th, *k, inv, Kind::Has(r))
        }
        Op::Insert(v) => {
            c.insert(v.key, v.clone());
            sh.rec(th, v.key, inv, Kind::Write(v.id, v.w))
        }
        Op::Replace(v, soft) => match c.replace(v.key, v.clone(), *soft) {
            Ok(()) => sh.rec(th, v.key, inv, Kind::ReplOk(v.id)),
            Err(x) => {
                if x != (v.key, v.clone()) {
                    fail(LIN | REPL, "a failed replace returned another pair");
                }
                sh.rec(th, v.key, inv, Kind::ReplErr)
            }
        },
        Op::Remove(k) => {
            let r = c.remove(k).map(|(rk, v)| {
                if rk != *k {
                    fail(LIN | REMOVE, "remove returned another key");
                }
                sh.check(*k, &v)
            });
            sh.rec(th, *k, inv, Kind::Rem(r))
        }
        Op::Clear => {
            c.clear();
            for k in 0..sh.keys {
                sh.rec(th, k, inv, Kind::Clear);
            }
        }
        Op::Retain(keep) => {
            c.retain(|_, v| kept(*keep, v.id));
            for k in 0..sh.keys {
                sh.rec(th, k, inv, Kind::Retain(*keep));
            }
        }
        Op::Observe => {
            let w = c.weight();
            if w > c.capacity() {
                fail(LIN | CAP, &format!("weight() {w} exceeds the capacity {}", c.capacity()));
            }
            let n = c.len();
            if n > sh.keys as usize {
                fail(LIN | ACCT, &format!("len() {n} with only {} keys in use", sh.keys));
            }
            let _ = c.is_empty();
        }
        Op::Guard(k, tmo, act) => {
            let t = match tmo {
                Tmo::Never => None,
                Tmo::Zero => Some(Duration::ZERO),
                Tmo::Micros(n) => Some(Duration::from_micros(*n as u64)),
                Tmo::Huge => Some(Duration::from_secs(u64::MAX / 4)),
            };
            match c.get_value_or_guard(k, t) {
                GuardResult::Value(v) => {
                    let id = sh.check(*k, &v);
                    sh.rec(th, *k, inv, Kind::Join(id))
                }
                GuardResult::Guard(g) => use_guard(sh, th, *k, inv, g, act),
                GuardResult::Timeout => {
                    if matches!(tmo, Tmo::Never) || (!SHUTTLE && matches!(tmo, Tmo::Huge)) {
                        fail(TIMED | STRAND | FLIGHT, "Timeout from a call whose timeout did not pass");
                    }
                    sh.rec(th, *k, inv, Kind::Timeout)
                }
            }
        }
        Op::Goi(k, load, y) => {
            let st = std::cell::Cell::new((0u32, 0u64));
            let r = expecting_panic(|| {
                c.get_or_insert_with(k, || {
                    let gid = sh.gid();
                    sh.rec(th, *k, inv, Kind::Acq(gid));
                    pause(*y);
                    st.set((gid, sh.now()));
                    match load {
                        Load::Ok(v) => Ok(v.clone()),
                        Load::Err => Err(*k),
                        Load::Panic => std::panic::panic_any(Injected),
                    }
                })
            });
            loaded(sh, th, *k, inv, st.get(), load, r.ok());
        }
        Op::GoiAsync(k, load, y, cancel, eager) => {
            let st = std::cell::Cell::new((0u32, 0u64));
            let mut f = Box::pin(c.get_or_insert_async(
                k,
                Loader { sh, th, key: *k, call: inv, left: *y, load: load.clone(), st: &st },
            ));
            match drive(f.as_mut(), *cancel, *eager) {
                Some(r) => {
                    drop(f);
                    loaded(sh, th, *k, inv, st.get(), load, Some(r));
                }
                None => {
                    let t = sh.now();
                    drop(f);
                    match st.get().0 {
                        0 => sh.rec(th, *k, t, Kind::Cancel(inv)),
                        gid => sh.rec(th, *k, t, Kind::Drop(gid)),
                    }
                }
            }
        }
        Op::GuardAsync(k, cancel, eager, act) => {
            let mut f = Box::pin(c.get_value_or_guard_async(k));
            match drive(f.as_mut(), *cancel, *eager) {
                Some(r) => {
                    drop(f);
                    joined(sh, th, *k, inv, r, act)
                }
                None => {
                    pause(act.before);
                    cancelled(sh, th, *k, inv, f)
                }
            }
        }
        Op::PollOnce(k) => {
            let mut f = Box::pin(c.get_value_or_guard_async(k));
            match drive(f.as_mut(), Some(1), 0) {
                Some(r) => joined(sh, th, *k, inv, r, &Act { before: 0, inner: None, after: 0, fin: None }),
                None => cancelled(sh, th, *k, inv, f),
            }
        }
        Op::Two(k1, k2, race, a1, a2) => {
            let (w, wk) = waker();
            let mut fs = vec![
                Some((k1, a1, Box::pin(c.get_value_or_guard_async(k1)))),
                Some((k2, a2, Box::pin(c.get_value_or_guard_async(k2)))),
            ];
            while fs.iter().any(Option::is_some) {
                let mut done = false;
                for s in fs.iter_mut() {
                    let Some((k, a, f)) = s else { continue };
                    if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&wk)) {
                        joined(sh, th, **k, inv, r, a);
                        *s = None;
                        done = true;
                        if *race {
                            break;
                        }
                    }
                }
                if done && *race {
                    for s in fs.iter_mut() {
                        if let Some((k, _, f)) = s.take() {
                            cancelled(sh, th, *k, inv, f);
                        }
                    }
                }
                if !done {
                    while !w.woken.swap(false, SeqCst) {
                        thread::park();
                    }
                }
            }
        }
    }
}

fn joined(sh: &Sh, th: usize, k: u32, inv: u64, r: Result<Val, G<'_>>, act: &Act) {
    match r {
        Ok(v) => {
            let id = sh.check(k, &v);
            sh.rec(th, k, inv, Kind::Join(id))
        }
        Err(g) => use_guard(sh, th, k, inv, g, act),
    }
}

/// the end of a get_or_insert call; `r` is None if its loader panicked
fn loaded(sh: &Sh, th: usize, k: u32, inv: u64, (gid, t): (u32, u64), load: &Load, r: Option<Result<Val, u32>>) {
    if gid == 0 {
        match r {
            Some(Ok(v)) => {
                let id = sh.check(k, &v);
                sh.rec(th, k, inv, Kind::Join(id))
            }
            _ => fail(LIN | FLIGHT | GUARD, "a get_or_insert call failed without running its loader"),
        }
        return;
    }
    match (load, r) {
        (Load::Ok(v), Some(Ok(x))) if *v == x => sh.rec(th, k, t, Kind::InsMaybe(gid, v.id)),
        (Load::Err, Some(Err(e))) if e == k => sh.rec(th, k, t, Kind::Drop(gid)),
        (Load::Panic, None) => sh.rec(th, k, t, Kind::Drop(gid)),
        _ => fail(LIN | FLIGHT | GUARD, "a get_or_insert call did not return what its loader produced"),
    }
}

// ---------------------------------------------------------------- scheduling

#[cfg(feature = "shuttle")]
mod sched {
    use crate::tape::{Rng, Src};
    use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};

    pub struct Sched {
        pub src: *mut Src,
        pub done: bool,
        /// random, sticky, or priorities with a few changes
        pub strategy: u32,
        pub yielded: Vec<bool>,
        pub prio: Vec<u32>,
        pub steps: u32,
        pub next: u64,
    }
    impl Sched {
        fn prio(&mut self, id: usize, r: &mut Rng) -> u32 {
            while self.prio.len() <= id {
                self.prio.push((r.next() >> 40) as u32 | 1);
            }
            self.prio[id]
        }
    }
    impl Scheduler for Sched {
        fn new_execution(&mut self) -> Option<Schedule> {
            if std::mem::replace(&mut self.done, true) {
                return None;
            }
            Some(Schedule::new(0))
        }
        fn next_task(&mut self, tasks: &[&Task], current: Option<TaskId>, yielding: bool) -> Option<TaskId> {
            let ids: Vec<usize> = tasks.iter().map(|t| t.id().into()).collect();
            let max = *ids.iter().max().unwrap();
            if self.yielded.len() <= max {
                self.yielded.resize(max + 1, false);
            }
            let cur: Option<usize> = current.map(|c| c.into());
            if let Some(c) = cur {
                if self.yielded.len() <= c {
                    self.yielded.resize(c + 1, false);
                }
                self.yielded[c] = yielding;
            }
            self.steps += 1;
            let id = if ids.len() == 1 {
                ids[0]
            } else {
                // the simplest choice goes first: stay, then tasks that did not yield or park
                let mut order: Vec<usize> = Vec::with_capacity(ids.len());
                if let Some(c) = cur {
                    if !yielding && ids.contains(&c) {
                        order.push(c);
                    }
                }
                for pass in [false, true] {
                    for &i in &ids {
                        if self.yielded[i] == pass && !order.contains(&i) {
                            order.push(i);
                        }
                    }
                }
                // the first of the list is really able to run, the others may only be parked
                let fresh = order.iter().filter(|&&i| !self.yielded[i]).count();
                if fresh == 0 {
                    let p = order.iter().position(|&i| i == ids[0]).unwrap();
                    order.swap(0, p);
                }
                let n = order.len() as u32;
                let src = unsafe { &mut *self.src };
                let strategy = self.strategy;
                let o = order.clone();
                let me = self as *mut Sched;
                let k = src.decide(n, |r| {
                    let me = unsafe { &mut *me };
                    let x = r.next();
                    let pick = |m: u32, x: u64| (((x >> 32) * m as u64) >> 32) as u32;
                    // now and then wake anything, even spuriously
                    if x & 15 == 0 || fresh == 0 {
                        return pick(n, r.next());
                    }
                    let m = fresh as u32;
                    match strategy {
                        0 => pick(m, r.next()),
                        1 => {
                            if x >> 4 & 7 != 0 {
                                0
                            } else {
                                pick(m, r.next())
                            }
                        }
                        _ => {
                            // change the priority of the running task once in a while
                            if x >> 4 & 31 == 0 {
                                if let Some(c) = cur {
                                    me.prio(c, r);
                                    me.prio[c] = 0;
                                }
                            }
                            let mut best = 0;
                            let mut bp = 0;
                            for (j, &i) in o[..fresh].iter().enumerate() {
                                let p = me.prio(i, r) + 1;
                                if p > bp {
                                    (best, bp) = (j, p);
                                }
                            }
                            best as u32
                        }
                    }
                });
                order[k as usize]
            };
            self.yielded[id] = false;
            Some(TaskId::from(id))
        }
        fn next_u64(&mut self) -> u64 {
            self.next += 1;
            self.next
        }
    }
}

fn new_cache(p: &Plan) -> C {
    C::with_options(
        OptionsBuilder::new()
            .estimated_items_capacity(p.items)
            .weight_capacity(p.cap)
            .shards(p.shards)
            .hot_allocation(p.hot)
            .build()
            .unwrap(),
        We,
        Hb,
        Lc::default(),
    )
}

/// Runs the tasks in threads of their own and waits for them.
pub fn run_threads(tasks: Vec<Box<dyn FnOnce() + Send>>) {
    #[cfg(not(feature = "shuttle"))]
    let gate = Arc::new(std::sync::Barrier::new(tasks.len()));
    #[cfg(not(feature = "shuttle"))]
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let hs: Vec<_> = tasks
        .into_iter()
        .map(|task| {
            #[cfg(not(feature = "shuttle"))]
            let (gate, tx) = (gate.clone(), tx.clone());
            thread::spawn(move || {
                #[cfg(not(feature = "shuttle"))]
                gate.wait();
                task();
                #[cfg(not(feature = "shuttle"))]
                let _ = tx.send(());
            })
        })
        .collect();
    #[cfg(not(feature = "shuttle"))]
    for _ in 0..hs.len() {
        // counted in short sleeps, so that a suspended machine is not taken for a stuck call
        let mut ok = false;
        for _ in 0..400 {
            if rx.recv_timeout(Duration::from_millis(100)).is_ok() {
                ok = true;
                break;
            }
        }
        if !ok {
            fail(STRAND | FLIGHT | TIMED | SHARE, "a call did not return within 40 s although nothing was left to wait for");
        }
    }
    for h in hs {
        if h.join().is_err() {
            fail(PANIC, "a thread panicked");
        }
    }
}

/// identifies the running task
pub fn task_id() -> u64 {
    #[cfg(feature = "shuttle")]
    return shuttle::current::get_current_task().map_or(0, |t| usize::from(t) as u64 + 1);
    #[cfg(not(feature = "shuttle"))]
    0
}

/// Runs `body` under a generated schedule (shuttle), or as it is.
pub fn execute(src: &mut Src, body: impl Fn() + Send + Sync + 'static) {
    #[cfg(feature = "shuttle")]
    {
        let mut cfg = shuttle::Config::new();
        cfg.failure_persistence = shuttle::FailurePersistence::None;
        cfg.max_steps = shuttle::MaxSteps::FailAfter(100_000);
        cfg.silence_warnings = true;
        cfg.stack_size = 0x20000;
        let strategy = src.below(3);
        let s = sched::Sched { src: src as *mut Src, done: false, strategy, yielded: vec![], prio: vec![], steps: 0, next: 0 };
        shuttle::Runner::new(s, cfg).run(body);
    }
    #[cfg(not(feature = "shuttle"))]
    {
        let _ = src;
        body();
    }
}

struct Final {
    log: Vec<H>,
}

fn body(p: &Arc<Plan>, out: &Arc<Mutex<Option<Final>>>) {
    let sh = Arc::new(Sh {
        cache: new_cache(p),
        clock: AtomicU64::new(1),
        gids: AtomicU64::new(1),
        log: Mutex::new(Vec::new()),
        keys: p.keys,
    });
    for v in &p.init {
        exec(&sh, 0, &Op::Insert(v.clone()));
    }
    let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..p.threads.len())
        .map(|t| {
            let (p, sh) = (p.clone(), sh.clone());
            Box::new(move || {
                for op in &p.threads[t] {
                    exec(&sh, t + 1, op);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    run_threads(tasks);
    // all calls are done
    let c = &sh.cache;
    let mut n = 0;
    let mut w = 0;
    for k in 0..p.keys {
        let inv = sh.now();
        let r = c.peek(&k).map(|v| {
            w += v.w as u64;
            n += 1;
            sh.check(k, &v)
        });
        sh.rec(0, k, inv, Kind::Read(r));
    }
    if c.len() != n || c.weight() != w || c.is_empty() != (n == 0) {
        fail(LIN | ACCT, &format!("at the end len() {} and weight() {}, but {n} entries of weight {w} are stored", c.len(), c.weight()));
    }
    if w > c.capacity() {
        fail(LIN | CAP, &format!("at the end the weight {w} exceeds the capacity {}", c.capacity()));
    }
    for k in 0..p.keys {
        let present = c.peek(&k);
        for pass in 0..2 {
            match c.get_value_or_guard(&k, Some(Duration::ZERO)) {
                GuardResult::Value(v) if Some(&v) == present.as_ref() => (),
                GuardResult::Guard(_) if present.is_none() => (),
                GuardResult::Timeout => fail(STRAND | GUARD, &format!("a reservation of k{k} is left behind (pass {pass})")),
                _ => fail(LIN, &format!("k{k}: peek and get_value_or_guard disagree at the end")),
            }
            let mut f = Box::pin(c.get_value_or_guard_async(&k));
            match drive(f.as_mut(), Some(1), 0) {
                Some(Ok(v)) if Some(&v) == present.as_ref() => (),
                Some(Err(_)) if present.is_none() => (),
                None => fail(STRAND | GUARD, &format!("a reservation of k{k} is left behind (async, pass {pass})")),
                _ => fail(LIN, &format!("k{k}: peek and get_value_or_guard_async disagree at the end")),
            }
        }
    }
    let log = std::mem::take(&mut *sh.log.lock().unwrap());
    *out.lock().unwrap() = Some(Final { log });
}

pub fn run(prop: &str, src: &mut Src) -> bool {
    let p = Arc::new(plan(prop, src));
    if tracing() {
        tr!("capacity {} items {} shards {} hot_allocation {} keys {}", p.cap, p.items, p.shards, p.hot, p.keys);
        for v in &p.init {
            tr!("first: Insert({v:?})");
        }
        for (i, t) in p.threads.iter().enumerate() {
            tr!("thread {}: {t:?}", i + 1);
        }
    }
    let out = Arc::new(Mutex::new(None));
    let (p2, o2) = (p.clone(), out.clone());
    execute(src, move || body(&p2, &o2));
    let f = out.lock().unwrap().take();
    let Some(f) = f else {
        fail(STRAND | FLIGHT | TIMED, "the execution ended with blocked tasks");
    };
    check(&p, f.log)
}

// ---------------------------------------------------------------- oracle

fn overlap(a: &H, b: &H) -> bool {
    a.inv < b.resp && b.inv < a.resp
}

fn check(p: &Plan, mut log: Vec<H>) -> bool {
    log.sort_by_key(|h| h.inv);
    if tracing() {
        for h in &log {
            tr!("  [{}..{}] thread {} k{} {:?}", h.inv, h.resp, h.th, h.key, h.kind);
        }
    }
    let mut nontrivial = false;
    for k in 0..p.keys {
        let h: Vec<H> = log.iter().filter(|h| h.key == k).copied().collect();
        nontrivial |= check_key(p, k, &h);
    }
    nontrivial
}

fn check_key(p: &Plan, key: u32, h: &[H]) -> bool {
    let touched = h.iter().any(|x| {
        matches!(x.kind, Kind::Write(..) | Kind::ReplOk(_) | Kind::ReplErr | Kind::Rem(_) | Kind::Clear | Kind::Retain(_)) && x.th != 0
    });
    let flight = if touched { 0 } else { FLIGHT };
    // may displace / certainly displaces a reservation
    let may = |x: &H| matches!(x.kind, Kind::Write(..) | Kind::Rem(_) | Kind::Clear) && x.th != 0;
    let must = |x: &H| match x.kind {
        Kind::Write(_, w) => w as u64 <= p.hot_share && x.th != 0,
        Kind::Rem(_) | Kind::Clear => true,
        _ => false,
    };
    let mut acq: BTreeMap<u32, H> = BTreeMap::new();
    let mut end: BTreeMap<u32, H> = BTreeMap::new();
    for x in h {
        match x.kind {
            Kind::Acq(g) => {
                acq.insert(g, *x);
            }
            Kind::Ins(g, ..) | Kind::InsMaybe(g, _) | Kind::Drop(g) => {
                end.insert(g, *x);
            }
            _ => (),
        }
    }
    // the loading right may have been passed on to this call
    let passed = |a: &H| {
        h.iter().any(|x| match x.kind {
            Kind::Drop(g) => overlap(x, a) && !matches!(a.kind, Kind::Acq(b) if b == g),
            Kind::Cancel(_) => overlap(x, a),
            _ => false,
        })
    };
    // earliest time at which the reservation behind guard a can have been made
    let root = |a: &H| if passed(a) { 0 } else { a.inv };
    let displaceable = |a: &H, until: u64| h.iter().any(|d| may(d) && d.inv < until && d.resp > root(a));

    // at most one live guard, unless a reservation was displaced
    let gs: Vec<(&H, &H)> = acq.iter().map(|(g, a)| (a, &end[g])).collect();
    for (i, (a, ae)) in gs.iter().enumerate() {
        for (b, be) in &gs[i + 1..] {
            if a.resp < be.inv && b.resp < ae.inv {
                let until = a.resp.max(b.resp);
                if !displaceable(a, until) && !displaceable(b, until) {
                    soft(FLIGHT | GUARD, &format!("k{key}: threads {} and {} hold the loading right at the same time", a.th, b.th));
                }
            }
        }
    }
    let mut handoffs = 0;
    let mut waited = 0;
    // guard insertions and outcomes
    let mut ops: Vec<(u64, u64, LinOp)> = Vec::new();
    for x in h {
        let op = match x.kind {
            Kind::Read(r) => LinOp::Read(r.unwrap_or(0)),
            Kind::Has(b) => LinOp::Has(b),
            Kind::Write(v, _) => LinOp::Set(v),
            Kind::ReplOk(v) => LinOp::ReplOk(v),
            Kind::ReplErr => LinOp::Read(0),
            Kind::Rem(r) => LinOp::Take(r.unwrap_or(0)),
            Kind::Clear => LinOp::Set(0),
            Kind::Retain(keep) => LinOp::Filter(keep),
            Kind::Drop(_) | Kind::Cancel(_) => continue,
            Kind::Ins(g, v, ok) => {
                let a = &acq[&g];
                if ok {
                    if let Some(d) = h.iter().find(|d| must(d) && d.inv > a.resp && d.resp < x.inv) {
                        soft(
                            LIN | GUARD | flight,
                            &format!("k{key}: inserting v{v} through the guard succeeded although thread {} displaced it ({:?})", d.th, d.kind),
                        );
                    }
                    LinOp::Fill(v)
                } else {
                    if !displaceable(a, x.resp) {
                        soft(LIN | GUARD | flight, &format!("k{key}: inserting v{v} through the guard failed, but nothing displaced it"));
                    }
                    continue;
                }
            }
            Kind::InsMaybe(g, v) => {
                if displaceable(&acq[&g], x.resp) {
                    LinOp::MaybeFill(v)
                } else {
                    LinOp::Fill(v)
                }
            }
            Kind::Acq(_) => {
                if passed(x) {
                    handoffs += 1;
                    continue;
                }
                LinOp::Read(0)
            }
            Kind::Join(v) => {
                let from = h.iter().any(|y| {
                    overlap(x, y)
                        && match y.kind {
                            Kind::Ins(_, w, _) | Kind::InsMaybe(_, w) => w == v,
                            _ => false,
                        }
                });
                if from {
                    waited += 1;
                    continue;
                }
                LinOp::Read(v)
            }
            Kind::Timeout => {
                // somebody else must have been loading, or about to
                let busy = acq.iter().any(|(g, a)| a.inv < x.resp && end[g].resp > x.inv)
                    || h.iter().any(|y| matches!(y.kind, Kind::Cancel(c) if c < x.resp && y.resp > x.inv));
                if !busy {
                    soft(TIMED | STRAND, &format!("k{key}: Timeout in thread {} although nobody was loading the key", x.th));
                }
                label("timeouts");
                continue;
            }
        };
        ops.push((x.inv, x.resp, op));
    }
    if ops.len() > 60 {
        label("history too long to check");
    } else if !linearizable(&ops, p.tight) {
        soft(
            LIN | flight,
            &format!("k{key}: no sequential order explains the results: {:?}", h.iter().map(|x| (x.th, x.inv, x.resp, x.kind)).collect::<Vec<_>>()),
        );
    }
    label_n("handoffs", handoffs);
    label_n("values received while waiting", waited);
    let overlapping = ops.iter().enumerate().any(|(i, a)| ops[i + 1..].iter().any(|b| a.0 < b.1 && b.0 < a.1));
    handoffs + waited > 0 || overlapping
}

/// which values a retain keeps
fn kept(keep: u32, id: u32) -> bool {
    keep >> (id % 4) & 1 == 1
}

#[derive(Clone, Copy, Debug)]
enum LinOp {
    Filter(u32),
    Read(u32),
    Has(bool),
    Set(u32),
    ReplOk(u32),
    Take(u32),
    /// only if the key is absent
    Fill(u32),
    MaybeFill(u32),
}

/// Is there an order of the operations, consistent with real time, in which each has its effect
/// on a register at once? With `drops` the value may disappear at any time.
fn linearizable(ops: &[(u64, u64, LinOp)], drops: bool) -> bool {
    fn go(ops: &[(u64, u64, LinOp)], drops: bool, mask: u64, st: u32, seen: &mut HashSet<(u64, u32)>) -> bool {
        if mask == (1u64 << ops.len()) - 1 {
            return true;
        }
        if !seen.insert((mask, st)) {
            return false;
        }
        let first = ops.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 0).map(|(_, o)| o.1).min().unwrap();
        for (i, o) in ops.iter().enumerate() {
            if mask >> i & 1 == 1 || o.0 > first {
                continue;
            }
            let m = mask | 1 << i;
            let next: [Option<u32>; 2] = match o.2 {
                LinOp::Read(v) => [(st == v).then_some(st), None],
                LinOp::Has(b) => [((st != 0) == b).then_some(st), None],
                LinOp::Set(v) => [Some(v), None],
                LinOp::Filter(keep) => [Some(if kept(keep, st) { st } else { 0 }), None],
                LinOp::ReplOk(v) => [(st != 0).then_some(v), None],
                LinOp::Take(v) => [(st == v).then_some(0), None],
                LinOp::Fill(v) => [(st == 0).then_some(v), None],
                LinOp::MaybeFill(v) => [(st == 0).then_some(v), Some(st)],
            };
            for s in next.into_iter().flatten() {
                if go(ops, drops, m, s, seen) {
                    return true;
                }
            }
        }
        drops && st != 0 && go(ops, drops, mask, 0, seen)
    }
    go(ops, drops, 0, 0, &mut HashSet::new())
}
