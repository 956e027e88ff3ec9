//! C25: no lock of the cache is held while loaders, `begin_request`, `end_request` run or while
//! displaced values are dropped, so all of them may use the cache. Built with the `shuttle`
//! feature, taking a lock twice is reported at once.

use std::cell::Cell;
use std::future::Future;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use quick_cache::sync::{Cache, DefaultLifecycle, GuardResult, PlaceholderGuard};
use quick_cache::{Lifecycle, OptionsBuilder, Weighter};

use crate::conc::execute;
use crate::report::*;
use crate::tape::Src;
use crate::tr;
use crate::types::{Hb, Hk};

static VALS: AtomicI64 = AtomicI64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(0);
/// calls made from within other calls
static INNER: AtomicU64 = AtomicU64::new(0);
static FROM_DROP: AtomicU64 = AtomicU64::new(0);

/// what a callback does with the cache
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Re {
    Nothing,
    Len,
    Get(u32),
    Has(u32),
    Insert(u32, u8),
    Replace(u32, u8),
    Remove(u32),
    /// a key that no other call reserves
    Guard(u32, bool),
    Load(u32, bool),
}

trait User {
    fn act(&self, r: Re);
}
thread_local! {
    static USER: Cell<Option<*const dyn User>> = const { Cell::new(None) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}
fn act(r: Re) -> bool {
    if r == Re::Nothing || DEPTH.get() >= 3 {
        return false;
    }
    let Some(u) = USER.get() else { return false };
    DEPTH.set(DEPTH.get() + 1);
    INNER.fetch_add(1, SeqCst);
    // Safety: set for the duration of the calls on the cache only
    unsafe { (*u).act(r) };
    DEPTH.set(DEPTH.get() - 1);
    true
}

struct V {
    key: u32,
    w: u8,
    re: Re,
}
fn mkv(key: u32, w: u8, re: Re) -> V {
    VALS.fetch_add(1, SeqCst);
    V { key, w, re }
}
impl Clone for V {
    fn clone(&self) -> V {
        // only the original uses the cache when it is dropped, or every read would do so
        mkv(self.key, self.w, if NEXT.fetch_add(1, SeqCst) % 3 == 0 { self.re } else { Re::Nothing })
    }
}
impl Drop for V {
    fn drop(&mut self) {
        VALS.fetch_sub(1, SeqCst);
        if act(self.re) {
            FROM_DROP.fetch_add(1, SeqCst);
        }
    }
}

#[derive(Clone)]
struct We;
impl Weighter<u32, V> for We {
    fn weight(&self, _: &u32, v: &V) -> u64 {
        v.w as u64
    }
}

/// keeps everything displaced until the request ends
#[derive(Clone)]
struct Keep {
    begin: Re,
    end: Re,
}
impl Lifecycle<u32, V> for Keep {
    type RequestState = Vec<(u32, V)>;
    fn begin_request(&self) -> Self::RequestState {
        act(self.begin);
        Vec::new()
    }
    fn on_evict(&self, s: &mut Self::RequestState, k: u32, v: V) {
        s.push((k, v));
    }
    fn end_request(&self, s: Self::RequestState) {
        act(self.end);
        drop(s);
    }
}

type C<L> = Cache<u32, V, We, Hb, L>;

struct Me<'a, L>(&'a C<L>);
impl<L: Lifecycle<u32, V> + Clone> User for Me<'_, L> {
    fn act(&self, r: Re) {
        let c = self.0;
        match r {
            Re::Nothing => (),
            Re::Len => {
                let _ = (c.len(), c.weight(), c.is_empty(), c.capacity());
            }
            Re::Get(k) => drop(c.get(&k)),
            Re::Has(k) => drop(c.contains_key(&k)),
            Re::Insert(k, w) => c.insert(k, mkv(k, w, Re::Len)),
            Re::Replace(k, w) => drop(c.replace(k, mkv(k, w, Re::Len), w % 2 == 0)),
            Re::Remove(k) => drop(c.remove(&k)),
            // hooks of this call come here again while it may still be loading the key: not the same key
            Re::Guard(k, ins) => {
                let k = k + 1_000_000 * DEPTH.get();
                if let GuardResult::Guard(g) = c.get_value_or_guard(&k, Some(Duration::ZERO)) {
                    if ins {
                        drop(g.insert(mkv(k, 1, Re::Len)));
                    }
                }
            }
            Re::Load(k, ok) => {
                let k = k + 1_000_000 * DEPTH.get();
                drop(c.get_or_insert_with(&k, || if ok { Ok(mkv(k, 1, Re::Len)) } else { Err(()) }))
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Insert(u32, u8, Re, bool),
    Replace(u32, u8, Re, bool, bool),
    Remove(u32),
    Get(u32),
    Load(u32, u8, Re, Re, bool),
    LoadAsync(u32, u8, Re, Re, bool),
    /// reserve, act, then insert or give up
    Guard(u32, u8, Re, Re, bool, bool),
    /// waiting futures get the value or the right; then they are dropped
    Waiters(u32, u8, Re, bool, bool),
}

#[derive(Clone)]
struct Plan {
    cap: u64,
    hot: f64,
    ghost: f64,
    items: usize,
    shards: usize,
    hk: Hk,
    keys: u32,
    /// the default lifecycle keeps one displaced item per request
    default_lc: bool,
    begin: Re,
    end: Re,
    ops: Vec<Op>,
}

struct Gen<'a> {
    s: &'a mut Src,
    keys: u32,
    maxw: u32,
    free: u32,
}
impl Gen<'_> {
    fn key(&mut self) -> u32 {
        self.s.below(self.keys)
    }
    fn w(&mut self) -> u8 {
        match self.maxw {
            1 => 1,
            m => self.s.below(m + 1) as u8,
        }
    }
    fn re(&mut self) -> Re {
        let k = self.s.below(self.keys);
        let w = self.w();
        // a fresh key each time: it cannot be reserved by a call that is still going on
        self.free += 1;
        let free = 1000 + self.free;
        match self.s.weighted(&[2, 3, 2, 1, 3, 2, 2, 1, 1]) {
            0 => Re::Nothing,
            1 => Re::Len,
            2 => Re::Get(k),
            3 => Re::Has(k),
            4 => Re::Insert(k, w),
            5 => Re::Replace(k, w),
            6 => Re::Remove(k),
            7 => Re::Guard(free, self.s.chance(1, 2)),
            _ => Re::Load(free, self.s.chance(1, 2)),
        }
    }
    fn op(&mut self) -> Op {
        let k = self.key();
        let w = self.w();
        let re = self.re();
        match self.s.weighted(&[10, 4, 3, 1, 4, 2, 4, 3]) {
            0 => Op::Insert(k, w, re, self.s.chance(1, 4)),
            1 => Op::Replace(k, w, re, self.s.chance(1, 2), self.s.chance(1, 4)),
            2 => Op::Remove(k),
            3 => Op::Get(k),
            4 => Op::Load(k, w, re, self.re(), self.s.chance(3, 4)),
            5 => Op::LoadAsync(k, w, re, self.re(), self.s.chance(3, 4)),
            6 => Op::Guard(k, w, re, self.re(), self.s.chance(3, 4), self.s.chance(1, 4)),
            _ => Op::Waiters(k, w, re, self.s.chance(3, 4), self.s.chance(1, 2)),
        }
    }
}

fn plan(src: &mut Src) -> Plan {
    let cap = src.range(2, 8) as u64;
    let default_lc = src.chance(1, 2);
    // the default lifecycle keeps one displaced item per request: with unit weights, and no part of
    // the capacity set aside, no request displaces more
    let hot = if default_lc { 1.0 } else { src.pick(&[0.97, 0.5, 0.8, 1.0]) };
    let ghost = src.pick(&[0.5, 1.0, 0.0]);
    let (shards, items) = if src.chance(1, 6) { (2, 64) } else { (1, src.range(1, 12) as usize) };
    let keys = src.range(2, cap as u32 + 4);
    let maxw = if default_lc { 1 } else { src.pick(&[1u32, 3, cap as u32 + 1]) };
    let hk = if src.chance(1, 5) { Hk::Const(7) } else { Hk::Good(src.below(64) as u64) };
    let mut g = Gen { s: src, keys, maxw, free: 0 };
    let (begin, end) = if default_lc { (Re::Nothing, Re::Nothing) } else { (g.re(), g.re()) };
    let n = g.s.plan(3, 24);
    let mut ops = vec![];
    while g.s.more(ops.len() as u32, n) {
        let op = g.op();
        ops.push(op);
    }
    Plan { cap, hot, ghost, items, shards, hk, keys, default_lc, begin, end, ops }
}

fn poll<F: Future>(f: std::pin::Pin<&mut F>) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(Waker::noop()))
}

fn fin<L: Lifecycle<u32, V>>(g: PlaceholderGuard<'_, u32, V, We, Hb, L>, v: Option<V>, wl: bool) {
    match v {
        None => drop(g),
        Some(v) if wl => drop(g.insert_with_lifecycle(v)),
        Some(v) => drop(g.insert(v)),
    }
}

fn exec<L: Lifecycle<u32, V> + Clone>(c: &C<L>, op: &Op) {
    match *op {
        Op::Insert(k, w, re, wl) => {
            if wl {
                drop(c.insert_with_lifecycle(k, mkv(k, w, re)));
            } else {
                c.insert(k, mkv(k, w, re));
            }
        }
        Op::Replace(k, w, re, soft, wl) => {
            if wl {
                drop(c.replace_with_lifecycle(k, mkv(k, w, re), soft));
            } else {
                drop(c.replace(k, mkv(k, w, re), soft));
            }
        }
        Op::Remove(k) => drop(c.remove(&k)),
        Op::Get(k) => drop(c.get(&k)),
        Op::Load(k, w, re, inner, ok) => drop(c.get_or_insert_with(&k, || {
            act(inner);
            if ok {
                Ok(mkv(k, w, re))
            } else {
                Err(())
            }
        })),
        Op::LoadAsync(k, w, re, inner, ok) => {
            let mut f = Box::pin(c.get_or_insert_async(&k, async {
                act(inner);
                if ok {
                    Ok(mkv(k, w, re))
                } else {
                    Err(())
                }
            }));
            if poll(f.as_mut()).is_pending() {
                fail(GUARD | LOCKS, "get_or_insert_async of a key that nobody is loading is pending");
            }
        }
        Op::Guard(k, w, re, inner, ins, wl) => {
            if let GuardResult::Guard(g) = c.get_value_or_guard(&k, Some(Duration::ZERO)) {
                act(inner);
                fin(g, ins.then(|| mkv(k, w, re)), wl);
            }
        }
        Op::Waiters(k, w, re, ins, take) => {
            let r = c.get_value_or_guard(&k, Some(Duration::ZERO));
            let mut f1 = Box::pin(c.get_value_or_guard_async(&k));
            let mut f2 = Box::pin(c.get_value_or_guard_async(&k));
            drop(poll(f1.as_mut()));
            drop(poll(f2.as_mut()));
            let GuardResult::Guard(g) = r else { return };
            fin(g, ins.then(|| mkv(k, w, re)), false);
            if take {
                drop(poll(f1.as_mut()));
            }
            drop(f1);
            drop(f2);
        }
    }
}

fn body<L: Lifecycle<u32, V> + Clone + 'static>(p: &Plan, lc: L) {
    VALS.store(0, SeqCst);
    NEXT.store(0, SeqCst);
    INNER.store(0, SeqCst);
    FROM_DROP.store(0, SeqCst);
    DEPTH.set(0);
    let o = OptionsBuilder::new()
        .estimated_items_capacity(p.items)
        .weight_capacity(p.cap)
        .shards(p.shards)
        .hot_allocation(p.hot)
        .ghost_allocation(p.ghost)
        .build()
        .unwrap();
    let c = Arc::new(C::<L>::with_options(o, We, Hb(p.hk), lc));
    let user: Box<dyn User> = Box::new(Me(unsafe { &*Arc::as_ptr(&c) }));
    USER.set(Some(&*user as *const dyn User));
    for op in &p.ops {
        tr!("{op:?}");
        exec(&c, op);
        let (n, live) = (c.len() as i64, VALS.load(SeqCst));
        if n != live {
            fail(RES | LOCKS, &format!("after {op:?}: {live} values are alive, but {n} entries are stored"));
        }
        if c.weight() > c.capacity() {
            fail(CAP | LOCKS, &format!("after {op:?}: weight() is {}, capacity() {}", c.weight(), c.capacity()));
        }
    }
    for k in 0..p.keys {
        if let Some(v) = c.get(&k) {
            if v.key != k {
                fail(LOOKUP | LOCKS, &format!("get(k{k}) returned a value of k{}", v.key));
            }
        }
    }
    USER.set(None);
    drop(user);
    drop(c);
    let live = VALS.load(SeqCst);
    if live != 0 {
        fail(RES, &format!("{live} values are alive after the cache was dropped"));
    }
}

pub fn run(src: &mut Src) -> bool {
    let p = plan(src);
    tr!(
        "capacity {} shards {} items {} hot {} ghost {} {:?} keys {} {}, begin_request: {:?}, end_request: {:?}",
        p.cap, p.shards, p.items, p.hot, p.ghost, p.hk, p.keys,
        if p.default_lc { "default lifecycle" } else { "lifecycle keeping displaced items" },
        p.begin, p.end
    );
    let done = Arc::new(Mutex::new(false));
    let d = done.clone();
    execute(src, move || {
        if p.default_lc {
            body(&p, DefaultLifecycle::default());
        } else {
            body(&p, Keep { begin: p.begin, end: p.end });
        }
        *d.lock().unwrap() = true;
    });
    if !*done.lock().unwrap() {
        fail(LOCKS | PANIC, "the execution ended with a blocked task");
    }
    let (inner, drops) = (INNER.load(SeqCst), FROM_DROP.load(SeqCst));
    label_n("calls from within calls", inner);
    label_n("calls from dropped values", drops);
    inner > 1 && drops > 0
}
