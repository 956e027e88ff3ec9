//! C21: memory stays bounded over long histories. A counting allocator tells how much the cache
//! and its keys and values, which own memory, hold.
//! C26: reads never allocate and a steady workload stops allocating; its keys and values own none.

use std::alloc::{GlobalAlloc, Layout, System};
use std::future::Future;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use quick_cache::sync::GuardResult;
use quick_cache::{Options, OptionsBuilder, Weighter};

use crate::report::*;
use crate::tape::{mix, Rng, Src};
use crate::tr;
use crate::types::{Hb, Hk};

pub struct Counting;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}

#[derive(Clone)]
struct W;
impl Weighter<u32, u64> for W {
    fn weight(&self, _: &u32, v: &u64) -> u64 {
        *v
    }
}
type U = quick_cache::unsync::Cache<u32, u64, W, Hb, quick_cache::unsync::DefaultLifecycle<u32, u64>>;
type S = quick_cache::sync::Cache<u32, u64, W, Hb, quick_cache::sync::DefaultLifecycle<u32, u64>>;

/// keys and values with memory of their own
struct Bk {
    id: Qk,
    own: Box<u32>,
}
#[derive(PartialEq, Eq, Hash)]
struct Qk(u32);
fn bk(k: u32) -> Bk {
    Bk { id: Qk(k), own: Box::new(k) }
}
impl PartialEq for Bk {
    fn eq(&self, o: &Bk) -> bool {
        self.own == o.own
    }
}
impl Eq for Bk {}
impl std::hash::Hash for Bk {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}
impl std::borrow::Borrow<Qk> for Bk {
    fn borrow(&self) -> &Qk {
        &self.id
    }
}
impl std::borrow::ToOwned for Qk {
    type Owned = Bk;
    fn to_owned(&self) -> Bk {
        bk(self.0)
    }
}
#[derive(Clone)]
struct Bv(Box<u64>);
fn bv(v: u64) -> Bv {
    Bv(Box::new(v))
}
impl Weighter<Bk, Bv> for W {
    fn weight(&self, _: &Bk, v: &Bv) -> u64 {
        *v.0
    }
}
type Ub = quick_cache::unsync::Cache<Bk, Bv, W, Hb, quick_cache::unsync::DefaultLifecycle<Bk, Bv>>;
type Sb = quick_cache::sync::Cache<Bk, Bv, W, Hb, quick_cache::sync::DefaultLifecycle<Bk, Bv>>;

fn poll<F: Future>(f: std::pin::Pin<&mut F>) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(Waker::noop()))
}

/// the operations of a round, drawn once and repeated with changing keys
#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(u64),
    Get,
    Remove,
    GuardDrop,
    GuardInsert(u64),
    LoaderFails,
    Load(u64),
    Clear,
    Retain,
    Replace(u64),
    Mutate(u64),
    // sync only
    TimedOut,
    Cancelled(u32),
    Displaced,
    DropWaiters,
    Reserve,
}

pub fn run(src: &mut Src) -> bool {
    let sync = src.chance(2, 3);
    let mut cap = src.range(2, 20) as u64;
    let mut est = src.range(1, 24) as usize;
    // many shards: what is remembered of evicted keys is shared out among them
    let shards = if sync { [1usize, 8, 64][src.weighted(&[28, 3, 1])] } else { 1 };
    if shards > 1 {
        est = 32 * shards;
        cap = cap.max(shards as u64 * 2);
    }
    let hot = src.pick(&[0.97, 0.5, 0.8]);
    let ghost = src.pick(&[0.5, 1.0, 0.0]);
    let hk = match src.weighted(&[4, 1, 1]) {
        0 => Hk::Good(src.below(1000) as u64),
        1 => Hk::Const(0),
        _ => Hk::Few(3),
    };
    let fresh = src.below(3);
    let o = OptionsBuilder::new().estimated_items_capacity(est).weight_capacity(cap).hot_allocation(hot).ghost_allocation(ghost).shards(shards).build().unwrap();
    let plan = src.plan(1, 6);
    let mut ops: Vec<Op> = Vec::with_capacity(16);
    while src.more(ops.len() as u32, plan) {
        let w = src.range(0, 3) as u64;
        let s = sync as u32;
        ops.push(match src.weighted(&[4, 2, 3, 5, 3, 5, 3, 1, 1, 1, 2, 3 * s, 4 * s, 3 * s, 2 * s, 1]) {
            0 => Op::Insert(w),
            1 => Op::Get,
            2 => Op::Remove,
            3 => Op::GuardDrop,
            4 => Op::GuardInsert(w),
            5 => Op::LoaderFails,
            6 => Op::Load(w),
            7 => Op::Clear,
            8 => Op::Retain,
            9 => Op::Replace(w),
            10 => Op::Mutate(w),
            11 => Op::TimedOut,
            12 => Op::Cancelled(src.range(1, 3)),
            13 => Op::Displaced,
            14 => Op::DropWaiters,
            _ => Op::Reserve,
        });
    }
    let zeros = ops.iter().any(|o| matches!(o, Op::Insert(0) | Op::GuardInsert(0) | Op::Load(0) | Op::Replace(0) | Op::Mutate(0)));
    // keys: a small set, or fresh ones every time (zero weights would then grow the cache itself)
    let span: u32 = if fresh == 0 || zeros { 24 } else { u32::MAX };
    let total = if shards == 64 { 160_000 } else { src.pick(&[3000u32, 3000, 3000, 20_000]) };
    let rounds = total / ops.len().max(1) as u32;
    tr!("sync={sync} shards {shards} capacity {cap} estimated {est} hot {hot} ghost {ghost} {hk:?}, {rounds} rounds of {ops:?} over {} keys", if span == 24 { "24" } else { "fresh" });
    // entries (at most 24 of weight zero, the others by capacity), ghosts, guards
    let n = 24 + cap as i64 + est as i64 + 8;
    let bound = 16_384 + 512 * n + 1024 * shards as i64;
    let rng = mix(src.below(1 << 20) as u64, 5);
    // whatever is set up once per process does not count
    let left = match body(sync, o.clone(), hk, &ops, rounds, span, bound, n, rng) {
        0 => 0,
        _ => body(sync, o, hk, &ops, rounds, span, bound, n, rng),
    };
    if left != 0 {
        fail(RES, &format!("{left} bytes are left after dropping the cache"));
    }
    label("long history");
    label_n("long history: operations", (rounds * ops.len() as u32) as u64);
    !ops.is_empty()
}

#[allow(clippy::too_many_arguments)]
fn body(sync: bool, o: Options, hk: Hk, ops: &[Op], rounds: u32, span: u32, bound: i64, n: i64, rng: u64) -> i64 {
    let mut rng = Rng::new(rng);
    let base = LIVE.load(Relaxed);
    let mut ctr = 0u32;
    let mut key = move || {
        ctr = ctr.wrapping_add(1);
        if span == u32::MAX {
            ctr
        } else {
            (rng.next() % span as u64) as u32
        }
    };
    let check = |round: u32, ops: &[Op]| {
        let live = LIVE.load(Relaxed) - base;
        if live > bound {
            fail(RES, &format!("after {} rounds of {ops:?} the cache holds {live} bytes although at most {n} entries, remembered keys and guards ever existed", round + 1));
        }
    };
    if sync {
        let c = Sb::with_options(o, W, Hb(hk), Default::default());
        // one reservation stays in place for the whole history
        let held = Qk(u32::MAX - 1);
        let g0 = match c.get_value_or_guard(&held, None) {
            GuardResult::Guard(g) => g,
            _ => fail(GUARD | RES, "no guard for an absent key"),
        };
        let mut held_displaced = false;
        for r in 0..rounds {
            for op in ops {
                let k = Qk(key());
                match *op {
                    Op::Insert(w) => c.insert(bk(k.0), bv(w)),
                    Op::Get => drop(c.get(&k)),
                    Op::Remove => drop(c.remove(&k)),
                    Op::GuardDrop => drop(c.get_value_or_guard(&k, Some(Duration::ZERO))),
                    Op::GuardInsert(w) => {
                        if let GuardResult::Guard(g) = c.get_value_or_guard(&k, Some(Duration::ZERO)) {
                            let _ = g.insert(bv(w));
                        }
                    }
                    Op::LoaderFails => drop(c.get_or_insert_with(&k, || Err(()))),
                    Op::Load(w) => drop(c.get_or_insert_with(&k, || Ok::<_, ()>(bv(w)))),
                    Op::Clear => {
                        c.clear();
                        held_displaced = true;
                    }
                    Op::Retain => c.retain(|k, _| k.id.0 % 2 == 0),
                    Op::Replace(w) => drop(c.replace(bk(k.0), bv(w), false)),
                    Op::Mutate(w) => {
                        c.insert(bk(k.0), bv(w));
                        drop(c.remove(&k));
                    }
                    Op::TimedOut => {
                        if !held_displaced {
                            if let GuardResult::Timeout = c.get_value_or_guard(&held, Some(Duration::ZERO)) {
                            } else {
                                fail(GUARD | RES, "a key being loaded was handed out");
                            }
                        }
                    }
                    Op::Cancelled(m) => {
                        if !held_displaced {
                            let mut f1 = Box::pin(c.get_value_or_guard_async(&held));
                            let mut f2 = Box::pin(c.get_value_or_guard_async(&held));
                            let mut f3 = Box::pin(c.get_value_or_guard_async(&held));
                            for f in [&mut f1, &mut f2, &mut f3].into_iter().take(m as usize) {
                                if poll(f.as_mut()).is_ready() {
                                    fail(GUARD | RES, "a key being loaded was handed out");
                                }
                            }
                        }
                    }
                    Op::Displaced => {
                        if let GuardResult::Guard(g) = c.get_value_or_guard(&k, Some(Duration::ZERO)) {
                            c.remove(&k);
                            if let GuardResult::Guard(g2) = c.get_value_or_guard(&k, Some(Duration::ZERO)) {
                                drop(g);
                                drop(g2);
                            }
                        }
                    }
                    Op::DropWaiters => {
                        // the right travels through cancelled futures
                        let g = c.get_value_or_guard(&k, Some(Duration::ZERO));
                        let mut f1 = Box::pin(c.get_value_or_guard_async(&k));
                        let mut f2 = Box::pin(c.get_value_or_guard_async(&k));
                        let r1 = poll(f1.as_mut());
                        let r2 = poll(f2.as_mut());
                        drop(g);
                        drop(f1);
                        drop(f2);
                        drop(r1);
                        drop(r2);
                    }
                    Op::Reserve => c.reserve(3),
                }
            }
            if r % 16 == 0 || r + 1 == rounds {
                check(r, ops);
            }
        }
        drop(g0);
        drop(c);
    } else {
        let mut c = Ub::with_options(o, W, Hb(hk), Default::default());
        for r in 0..rounds {
            for op in ops {
                let k = Qk(key());
                match *op {
                    Op::Insert(w) => c.insert(bk(k.0), bv(w)),
                    Op::Get => {
                        c.get(&k);
                    }
                    Op::Remove => drop(c.remove(&k)),
                    Op::GuardDrop => {
                        let _ = c.get_ref_or_guard(&k).map(|_| ());
                    }
                    Op::GuardInsert(w) => {
                        if let Err(g) = c.get_ref_or_guard(&k) {
                            g.insert(bv(w))
                        }
                    }
                    Op::LoaderFails => drop(c.get_or_insert_with(&k, || Err(())).map(|_| ())),
                    Op::Load(w) => drop(c.get_or_insert_with(&k, || Ok::<_, ()>(bv(w))).map(|_| ())),
                    Op::Clear => c.clear(),
                    Op::Retain => c.retain(|k, _| k.id.0 % 2 == 0),
                    Op::Replace(w) => drop(c.replace(bk(k.0), bv(w), false)),
                    Op::Mutate(w) => {
                        if let Ok(Some(mut v)) = c.get_mut_or_insert_with(&k, || Ok::<_, ()>(bv(1))) {
                            *v.0 = w;
                        }
                    }
                    Op::Reserve => c.reserve(3),
                    Op::DropWaiters | Op::Displaced | Op::TimedOut | Op::Cancelled(_) => {
                        let _ = c.get_mut_or_insert_with(&k, || Err(())).map(|_| ());
                    }
                }
            }
            if r % 16 == 0 || r + 1 == rounds {
                check(r, ops);
            }
        }
        drop(c);
    }
    LIVE.load(Relaxed) - base
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Copy, Debug)]
enum St {
    Get,
    Peek,
    Has,
    Sizes,
    Insert(u64),
    Replace(u64, bool),
    Remove,
    Mutate(u64),
    /// loads and guards; they make no allocation in the non-concurrent cache
    Load(u64, bool),
    Guard(u64, bool),
    /// every 16th round only
    Clear,
    /// its own temporary allocation does not count
    Retain(u32),
}

/// Reads never allocate; everything else only while the tables grow to the size of the cache.
pub fn steady(src: &mut Src) -> bool {
    let sync = src.chance(1, 2);
    let shards = if sync { [1usize, 4][src.weighted(&[3, 1])] } else { 1 };
    let cap = src.range(2, 40) as u64 * shards as u64;
    let est = if shards > 1 { 32 * shards } else { src.range(1, 40) as usize };
    let hot = src.pick(&[0.97, 0.5, 0.8]);
    let ghost = src.pick(&[0.5, 1.0, 0.0]);
    let hk = match src.weighted(&[4, 1, 1]) {
        0 => Hk::Good(src.below(1000) as u64),
        1 => Hk::Const(0),
        _ => Hk::Few(3),
    };
    let span = src.pick(&[u32::MAX, 24, 80]);
    let zeros = span != u32::MAX && src.chance(1, 3);
    let o = OptionsBuilder::new().estimated_items_capacity(est).weight_capacity(cap).hot_allocation(hot).ghost_allocation(ghost).shards(shards).build().unwrap();
    let plan = src.plan(2, 8);
    let mut ops: Vec<St> = Vec::with_capacity(16);
    while src.more(ops.len() as u32, plan) {
        let w = src.range(!zeros as u32, 3) as u64;
        let u = !sync as u32;
        ops.push(match src.weighted(&[16, 6, 2, 2, 2, 4, 4, 4 * u, 4, 4, 1, 1]) {
            0 => St::Insert(w),
            1 => St::Get,
            2 => St::Peek,
            3 => St::Has,
            4 => St::Sizes,
            5 => St::Replace(w, src.chance(1, 2)),
            6 => St::Remove,
            7 => St::Mutate(w),
            8 => St::Load(w, src.chance(3, 4)),
            9 => St::Guard(w, src.chance(3, 4)),
            10 => St::Clear,
            _ => St::Retain(src.range(2, 5)),
        });
    }
    if ops.is_empty() {
        return false;
    }
    let rounds = src.pick(&[400u32, 400, 2000]);
    tr!("sync={sync} shards {shards} capacity {cap} estimated {est} hot {hot} ghost {ghost} {hk:?}, {rounds} rounds of {ops:?} over {span} keys");
    let mut rng = Rng::new(src.below(1 << 20) as u64);
    let mut ctr = 0u32;
    let mut key = move || {
        ctr = ctr.wrapping_add(1);
        if span == u32::MAX && rng.next() % 3 != 0 {
            ctr
        } else {
            (rng.next() % span.min(ctr).max(1) as u64) as u32
        }
    };
    // the tables double in size: with n entries, remembered keys and vacant places
    let n = (span.min(80) as u64 + cap + est as u64 + 8) as f64;
    let bound = 2 * shards as i64 * (n.log2().ceil() as i64 + 6);
    let mut total = 0i64;
    let mut writes = 0u64;
    let mut judge = |op: St, read: bool, before: i64| {
        let d = ALLOCS.load(Relaxed) - before;
        if read {
            if d != 0 {
                fail(ALLOC, &format!("{op:?} made {d} allocations"));
            }
        } else {
            writes += 1;
            total += d;
            if total > bound {
                fail(ALLOC, &format!("{op:?} made yet another allocation: {total} by {writes} operations, although the tables only had to grow to at most {n} places in each of {shards} shards"));
            }
        }
    };
    if sync {
        let c = S::with_options(o, W, Hb(hk), Default::default());
        for r in 0..rounds {
            for &op in &ops {
                let k = key();
                let a = ALLOCS.load(Relaxed);
                match op {
                    St::Get => drop(c.get(&k)),
                    St::Peek => drop(c.peek(&k)),
                    St::Has => drop(c.contains_key(&k)),
                    St::Sizes => drop((c.len(), c.weight(), c.is_empty(), c.capacity())),
                    St::Insert(w) => c.insert(k, w),
                    St::Replace(w, soft) => drop(c.replace(k, w, soft)),
                    St::Remove | St::Mutate(_) => drop(c.remove(&k)),
                    // a call that finds its value does not allocate
                    St::Load(w, ok) => {
                        let had = c.contains_key(&k);
                        let _ = c.get_or_insert_with(&k, || if ok { Ok(w) } else { Err(()) });
                        if had {
                            judge(op, true, a);
                        }
                        continue;
                    }
                    St::Guard(w, ins) => {
                        let had = c.contains_key(&k);
                        if let GuardResult::Guard(g) = c.get_value_or_guard(&k, Some(Duration::ZERO)) {
                            if ins {
                                let _ = g.insert(w);
                            }
                        }
                        if had {
                            judge(op, true, a);
                        }
                        continue;
                    }
                    St::Clear if r % 16 == 5 => c.clear(),
                    St::Retain(m) if r % 16 == 6 => {
                        c.retain(|k, _| k % m != 0);
                        continue;
                    }
                    St::Clear | St::Retain(_) => (),
                }
                judge(op, matches!(op, St::Get | St::Peek | St::Has | St::Sizes), a);
            }
        }
    } else {
        let mut c = U::with_options(o, W, Hb(hk), Default::default());
        for r in 0..rounds {
            for &op in &ops {
                let k = key();
                let a = ALLOCS.load(Relaxed);
                match op {
                    St::Get => drop(c.get(&k)),
                    St::Peek => drop(c.peek(&k)),
                    St::Has => drop(c.contains_key(&k)),
                    St::Sizes => drop((c.len(), c.weight(), c.is_empty(), c.capacity(), c.iter().count())),
                    St::Insert(w) => c.insert(k, w),
                    St::Replace(w, soft) => drop(c.replace(k, w, soft)),
                    St::Remove => drop(c.remove(&k)),
                    St::Mutate(w) => {
                        if let Some(mut v) = c.get_mut(&k) {
                            *v = w;
                        }
                        if let Some(v) = c.peek_mut(&k) {
                            let _ = *v;
                        }
                    }
                    St::Load(w, ok) => drop(c.get_or_insert_with(&k, || if ok { Ok(w) } else { Err(()) }).map(|_| ())),
                    St::Guard(w, ins) => {
                        if let Err(g) = c.get_ref_or_guard(&k) {
                            if ins {
                                g.insert(w);
                            }
                        }
                    }
                    St::Clear if r % 16 == 5 => c.clear(),
                    St::Clear if r % 16 == 13 => drop(c.drain().next()),
                    St::Retain(m) if r % 16 == 6 => {
                        c.retain(|k, _| k % m != 0);
                        continue;
                    }
                    St::Clear | St::Retain(_) => (),
                }
                judge(op, matches!(op, St::Get | St::Peek | St::Has | St::Sizes), a);
            }
        }
    }
    label("steady workload");
    label_n("steady workload: operations", (rounds * ops.len() as u32) as u64);
    label_n("steady workload: allocations", total as u64);
    ops.iter().any(|o| matches!(o, St::Insert(_) | St::Load(..) | St::Guard(..)))
}
