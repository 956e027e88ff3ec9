//! C18: waiting futures polled by hand. The model knows every reservation, who holds the right to
//! load, and which futures wait for it; wakers count how often they are woken.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;

use quick_cache::sync::GuardResult;

use crate::report::*;
use crate::seq::Cfg;
use crate::tape::Src;
use crate::tr;
use crate::types::*;

/// Wakers are distinguished by their data or only by their vtable.
#[derive(Default)]
struct Hub([AtomicU32; 3]);
#[derive(Clone)]
struct Wk(Arc<Hub>, usize);
struct Vt<const I: usize>;
impl<const I: usize> Vt<I> {
    const T: &'static RawWakerVTable = &RawWakerVTable::new(Self::clone, Self::wake, Self::wake_by_ref, Self::drop);
    // SAFETY of all of these: the data is a reference count of a Hub
    unsafe fn clone(p: *const ()) -> RawWaker {
        Arc::increment_strong_count(p as *const Hub);
        RawWaker::new(p, Self::T)
    }
    unsafe fn wake(p: *const ()) {
        Self::wake_by_ref(p);
        Self::drop(p);
    }
    unsafe fn wake_by_ref(p: *const ()) {
        (*(p as *const Hub)).0[I].fetch_add(1, Relaxed);
    }
    unsafe fn drop(p: *const ()) {
        drop(Arc::from_raw(p as *const Hub));
    }
}
impl Wk {
    fn count(&self) -> u32 {
        self.0 .0[self.1].load(Relaxed)
    }
    fn waker(&self) -> Waker {
        let t = [Vt::<0>::T, Vt::<1>::T, Vt::<2>::T][self.1];
        unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(self.0.clone()) as *const (), t)) }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Wake {
    Same,
    New,
    /// the same data, another vtable
    Sibling,
    /// the one another future uses, as if both were polled by one task
    Shared(u32),
}
impl Wake {
    fn gen(src: &mut Src) -> Wake {
        match src.weighted(&[4, 4, 1, 1]) {
            0 => Wake::Same,
            1 => Wake::New,
            2 => Wake::Sibling,
            _ => Wake::Shared(src.below(8)),
        }
    }
}

enum Out {
    Value(u32),
    Guard(SGuard),
    Failed,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Load {
    Pending,
    Ok(u32, u64),
    Err,
}
struct Loader {
    ctl: Rc<Cell<Load>>,
    polled: Rc<Cell<bool>>,
    key: u32,
}
impl Future for Loader {
    type Output = Result<V, u8>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        self.polled.set(true);
        match self.ctl.get() {
            Load::Pending => Poll::Pending,
            Load::Ok(vid, w) => Poll::Ready(Ok(V::new(self.key, vid, w, false, Be::Keep))),
            Load::Err => Poll::Ready(Err(7)),
        }
    }
}

struct F {
    id: u32,
    key: u32,
    goi: bool,
    fut: Pin<Box<dyn Future<Output = Out>>>,
    /// the reservation it waits for or (goi) holds
    res: Option<usize>,
    waker: Option<Wk>,
    seen: u32,
    ctl: Rc<Cell<Load>>,
    lpolled: Rc<Cell<bool>>,
}
impl F {
    fn woken(&self) -> bool {
        self.waker.as_ref().is_some_and(|w| w.count() > self.seen)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Hold {
    /// held by a guard in the hands of the harness, or by a future that is loading
    Held,
    Transit,
    Inserted(u32),
    Dead,
}
struct R {
    key: u32,
    hold: Hold,
    waiters: Vec<u32>,
}

struct M {
    c: &'static SCache,
    m: BTreeMap<u32, u32>,
    pending: BTreeMap<u32, usize>,
    res: Vec<R>,
    futs: Vec<F>,
    guards: Vec<(usize, SGuard)>,
    next: u32,
    keys: u32,
    handoffs: u32,
    cancels_woken: u32,
    delivered: u32,
    /// the request of the current operation: did it succeed?
    req: Option<bool>,
    told: Vec<Told>,
    hits: u64,
    misses: u64,
    lookups: u64,
}

fn bad(msg: String) -> ! {
    fail(ASYNC, &msg)
}

/// what the lifecycle has to be told during one operation
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Told {
    /// an overwritten entry: on_evict only
    Over(u32, u32),
    /// a refused item: before_evict, then on_evict
    Refused(u32, u32),
}

impl M {
    fn release(&mut self, r: usize) {
        if self.res[r].waiters.is_empty() {
            self.res[r].hold = Hold::Dead;
            if self.pending.get(&self.res[r].key) == Some(&r) {
                let k = self.res[r].key;
                self.pending.remove(&k);
            }
        } else {
            self.res[r].hold = Hold::Transit;
            self.handoffs += 1;
        }
    }
    /// the holder of r inserts; returns whether the reservation was in place
    fn filled(&mut self, r: usize, vid: u32, w: u64) -> bool {
        self.res[r].hold = Hold::Inserted(vid);
        let k = self.res[r].key;
        let ok = self.pending.get(&k) == Some(&r);
        if ok {
            self.pending.remove(&k);
            if w <= T {
                self.m.insert(k, vid);
            } else {
                self.told.push(Told::Refused(k, vid));
            }
        }
        self.req = Some(ok);
        ok
    }
    fn acquired(&mut self, key: u32) -> usize {
        self.res.push(R { key, hold: Hold::Held, waiters: vec![] });
        let r = self.res.len() - 1;
        self.pending.insert(key, r);
        r
    }
    fn poll(&mut self, i: usize, how: Wake) {
        let shared = match how {
            Wake::Shared(n) => self.futs[(i + 1 + n as usize) % self.futs.len()].waker.clone(),
            _ => None,
        };
        let (id, key, goi, res) = {
            let f = &mut self.futs[i];
            f.waker = Some(match (f.waker.take(), how, shared) {
                (_, _, Some(w)) => w,
                (Some(w), Wake::Same, _) => w,
                (Some(w), Wake::Sibling, _) => Wk(w.0, (w.1 + 1) % 3),
                _ => Wk(Arc::default(), 0),
            });
            f.seen = f.waker.as_ref().unwrap().count();
            f.lpolled.set(false);
            (f.id, f.key, f.goi, f.res)
        };
        let waker = self.futs[i].waker.as_ref().unwrap().waker();
        let r = self.futs[i].fut.as_mut().poll(&mut Context::from_waker(&waker));
        let ctl = self.futs[i].ctl.get();
        let lpolled = self.futs[i].lpolled.get();
        drop(waker);
        tr!(
            "    -> {}",
            match &r {
                Poll::Pending => "pending".to_string(),
                Poll::Ready(Out::Value(v)) => format!("value v{v}"),
                Poll::Ready(Out::Guard(_)) => "the loading right".into(),
                Poll::Ready(Out::Failed) => "the loader's error".into(),
            }
        );
        let name = format!("future #{id} for k{key}");
        // what the future was waiting for
        let mut may_acquire = false;
        let mut must_acquire = false;
        match res {
            None => {
                self.lookups += 1;
                if let Some(v) = self.m.get(&key) {
                    self.hits += 1;
                    match r {
                        Poll::Ready(Out::Value(x)) if x == *v && !lpolled => (),
                        Poll::Ready(Out::Value(x)) => fail(ASYNC | LOOKUP, &format!("{name}: the key holds v{v}, but the poll yields v{x}")),
                        _ => bad(format!("{name}: the key holds v{v}, but the poll did not yield it")),
                    }
                    self.futs.remove(i);
                    return;
                }
                match self.pending.get(&key).copied() {
                    Some(q) => match r {
                        Poll::Pending if !lpolled => {
                            self.res[q].waiters.push(id);
                            self.futs[i].res = Some(q);
                            return;
                        }
                        _ if self.res[q].hold == Hold::Transit => {
                            // overtaking the waiter that was woken is not forbidden
                            self.futs[i].res = Some(q);
                            may_acquire = true;
                        }
                        _ => bad(format!("{name}: the key is being loaded, but the poll did not wait")),
                    },
                    None => {
                        self.misses += 1;
                        must_acquire = true
                    }
                }
            }
            // loading itself
            Some(q) if goi && !self.res[q].waiters.contains(&id) => {
                if !lpolled {
                    bad(format!("{name}: the loader was not polled"));
                }
                return self.loading(i, q, r, ctl);
            }
            Some(q) => match self.res[q].hold {
                Hold::Inserted(v) => {
                    match r {
                        Poll::Ready(Out::Value(x)) if x == v && !lpolled => (),
                        Poll::Pending => fail(ASYNC | STRAND | FLIGHT, &format!("{name} is still pending although v{v} was inserted")),
                        Poll::Ready(Out::Value(x)) => fail(ASYNC | LOOKUP | FLIGHT, &format!("{name} yields v{x}, but v{v} was inserted by the loader it waited for")),
                        _ => fail(ASYNC | FLIGHT, &format!("{name} got the loading right although v{v} was inserted")),
                    }
                    self.delivered += 1;
                    self.res[q].waiters.retain(|w| *w != id);
                    self.futs.remove(i);
                    return;
                }
                Hold::Held => {
                    if r.is_ready() || lpolled {
                        fail(ASYNC | FLIGHT, &format!("{name} is not pending although the key is still being loaded"));
                    }
                    return;
                }
                Hold::Transit => may_acquire = true,
                Hold::Dead => unreachable!("a waiter of a dead reservation"),
            },
        }
        let acquired = match &r {
            Poll::Ready(Out::Guard(_)) => true,
            Poll::Ready(_) if !goi => bad(format!("{name} yields a value although none was inserted")),
            _ => lpolled,
        };
        if !acquired {
            if r.is_ready() {
                bad(format!("{name} is ready although it could neither load nor receive a value"));
            }
            if must_acquire {
                fail(ASYNC | STRAND | GUARD, &format!("{name} is pending although the key is absent and nobody is loading it"));
            }
            debug_assert!(may_acquire);
            return;
        }
        let q = match self.futs[i].res {
            Some(q) => {
                self.res[q].waiters.retain(|w| *w != id);
                self.res[q].hold = Hold::Held;
                q
            }
            None => {
                let q = self.acquired(key);
                self.futs[i].res = Some(q);
                q
            }
        };
        if goi {
            return self.loading(i, q, r, ctl);
        }
        if let Poll::Ready(Out::Guard(g)) = r {
            self.guards.push((q, g));
        }
        self.futs.remove(i);
    }
    /// a get_or_insert future that holds the right polled its loader
    fn loading(&mut self, i: usize, q: usize, r: Poll<Out>, ctl: Load) {
        match (ctl, r) {
            (Load::Pending, Poll::Pending) => (),
            (Load::Ok(vid, w), Poll::Ready(Out::Value(x))) if x == vid => {
                self.filled(q, vid, w);
                self.futs.remove(i);
            }
            (Load::Err, Poll::Ready(Out::Failed)) => {
                self.release(q);
                self.futs.remove(i);
            }
            _ => bad(format!("get_or_insert_async with a loader that is {ctl:?} gave another result")),
        }
    }
    fn cancel(&mut self, i: usize) {
        let f = self.futs.remove(i);
        if let Some(q) = f.res {
            if self.res[q].waiters.contains(&f.id) {
                if f.woken() {
                    self.cancels_woken += 1;
                }
                self.res[q].waiters.retain(|w| *w != f.id);
                if self.res[q].hold == Hold::Transit && self.res[q].waiters.is_empty() {
                    self.res[q].hold = Hold::Dead;
                    if self.pending.get(&f.key) == Some(&q) {
                        self.pending.remove(&f.key);
                    }
                }
                drop(f);
            } else {
                // it was loading
                drop(f);
                self.release(q);
            }
        } else {
            drop(f);
        }
    }
    /// the lifecycle's view of the last operation
    fn hooks(&mut self) {
        let log = take_log();
        let (req, mut told) = (self.req.take(), std::mem::take(&mut self.told));
        let mut cur = None;
        let mut ended = 0;
        let mut before: Vec<(u32, u32)> = vec![];
        for e in &log {
            match *e {
                Ev::Begin(r) => {
                    if cur.is_some() || req.is_none() {
                        fail(HOOK, &format!("begin_request was called once too often: {log:?}"));
                    }
                    cur = Some(r);
                }
                Ev::Before { req: r, key, vid, .. } => {
                    if cur != Some(r) || ended > 0 || !told.contains(&Told::Refused(key, vid)) {
                        fail(HOOK, &format!("unexpected before_evict of k{key} v{vid}: {log:?}"));
                    }
                    before.push((key, vid));
                }
                Ev::Evict { req: r, key, vid, .. } => {
                    if cur != Some(r) || ended > 0 {
                        fail(HOOK | NOTIFY, &format!("on_evict of k{key} v{vid} outside of its request: {log:?}"));
                    }
                    match told.iter().position(|t| *t == Told::Over(key, vid) || *t == Told::Refused(key, vid)) {
                        None => fail(NOTIFY, &format!("on_evict of k{key} v{vid}, which was not displaced (or was reported before): {log:?}")),
                        Some(i) => {
                            if matches!(told.swap_remove(i), Told::Refused(..)) && !before.contains(&(key, vid)) {
                                fail(HOOK, &format!("before_evict was not called for the refused k{key} v{vid}: {log:?}"));
                            }
                        }
                    }
                }
                Ev::End(r) => {
                    if cur != Some(r) || req != Some(true) {
                        fail(HOOK, &format!("unexpected end_request: {log:?}"));
                    }
                    ended += 1;
                }
                _ => (),
            }
        }
        if let Some(t) = told.first() {
            fail(NOTIFY, &format!("{t:?} was displaced but not reported: {log:?}"));
        }
        if req == Some(true) && (cur.is_none() || ended != 1) {
            fail(HOOK, &format!("a successful insertion called end_request {ended} times: {log:?}"));
        }
    }
    fn check(&mut self) {
        self.hooks();
        let waited = self.res.iter().filter(|q| matches!(q.hold, Hold::Inserted(_)) && !q.waiters.is_empty()).count();
        if live_vals() > (self.m.len() + waited) as i64 || live_keys() > (self.m.len() + self.pending.len()) as i64 {
            soft(
                RES,
                &format!(
                    "{} keys and {} values are alive, but {} entries are stored, {} keys are being loaded and {waited} values wait to be picked up",
                    live_keys(),
                    live_vals(),
                    self.m.len(),
                    self.pending.len()
                ),
            );
        }
        #[cfg(feature = "stats")]
        {
            let (h, mi) = (self.c.hits(), self.c.misses());
            if h + mi != self.lookups || h < self.hits || mi < self.misses {
                soft(
                    STATS,
                    &format!("hits {h} and misses {mi} after {} lookups of which {} found a value and {} nothing", self.lookups, self.hits, self.misses),
                );
            }
        }
        for (qi, q) in self.res.iter().enumerate() {
            let fut = |id: &u32| self.futs.iter().find(|f| f.id == *id).unwrap();
            match q.hold {
                Hold::Inserted(v) => {
                    for w in &q.waiters {
                        if !fut(w).woken() {
                            fail(ASYNC | STRAND | FLIGHT, &format!("v{v} was inserted for k{}, but future #{w} waiting for it was not woken through its latest waker", q.key));
                        }
                    }
                }
                Hold::Transit => {
                    if !q.waiters.iter().any(|w| fut(w).woken()) {
                        fail(ASYNC | STRAND | FLIGHT, &format!(
                            "the loader of k{} gave up, but none of the waiting futures {:?} was woken through its latest waker (reservation {qi})",
                            q.key, q.waiters
                        ));
                    }
                }
                _ => (),
            }
        }
        if self.c.len() != self.m.len() {
            bad(format!("len() is {}, expected {}", self.c.len(), self.m.len()));
        }
        for k in 0..self.keys {
            let got = self.c.peek(&KqB(k)).map(|v| v.vid);
            if got != self.m.get(&k).copied() {
                fail(ASYNC | if got.is_some() { LOOKUP } else { LOSS }, &format!("k{k} holds {got:?}, expected {:?}", self.m.get(&k)));
            }
        }
    }
}

/// weights above it are refused
const T: u64 = 100;

pub fn run(src: &mut Src) -> bool {
    reset_ctx();
    set_fuel(i64::MAX);
    let hk = match src.weighted(&[3, 1]) {
        0 => Hk::Good(src.below(1 << 10) as u64),
        _ => Hk::Const(0),
    };
    let cfg = Cfg {
        sync: true,
        cap: T,
        hot: 1.0,
        ghost: 0.5,
        est: 64,
        shards: src.pick(&[1, 2]),
        hk,
        unit: false,
        universe: 0,
        pins: false,
        zeros: false,
        be: false,
        sparse: false,
        probe: false,
    };
    // more than one shard: each has half the capacity, still enough for the few entries
    let cfg = Cfg { cap: T * cfg.shards as u64, ..cfg };
    let keys = src.weighted(&[4, 2, 1]) as u32 + 1;
    let max_futs = if src.chance(1, 400) { 300 } else { src.pick(&[8, 4, 8, 40]) };
    let c: &'static SCache = Box::leak(Box::new(cfg.sync()));
    let mut m = M {
        c,
        m: BTreeMap::new(),
        pending: BTreeMap::new(),
        res: vec![],
        futs: vec![],
        guards: vec![],
        next: 1,
        keys,
        handoffs: 0,
        cancels_woken: 0,
        delivered: 0,
        req: None,
        told: vec![],
        hits: 0,
        misses: 0,
        lookups: 0,
    };
    let plan = if max_futs == 300 { src.plan(200, 600) } else { src.plan(6, 70) };
    let mut done = 0;
    while src.more(done, plan) {
        done += 1;
        let nf = m.futs.len() as u32;
        let ng = m.guards.len() as u32;
        let has = |n: u32, w: u32| if n > 0 { w } else { 0 };
        match src.weighted(&[if max_futs > 8 { 24 } else { 6 }, has(nf, 14), has(nf, 5), has(ng, 3), has(ng, 5), 1, 2, 1, has(nf, 3), 2, 1]) {
            // a new future
            0 => {
                if nf >= max_futs {
                    continue;
                }
                let k = src.below(keys);
                let goi = src.chance(2, 5);
                let id = m.next;
                m.next += 1;
                let ctl = Rc::new(Cell::new(Load::Pending));
                if src.chance(1, 4) {
                    ctl.set(if src.chance(1, 2) { Load::Err } else { Load::Ok(new_vid(), 1) });
                }
                let lpolled = Rc::new(Cell::new(false));
                tr!("future #{id}: get_{}(k{k}) {:?}", if goi { "or_insert_async" } else { "value_or_guard_async" }, ctl.get());
                let fut: Pin<Box<dyn Future<Output = Out>>> = if goi {
                    let l = Loader { ctl: ctl.clone(), polled: lpolled.clone(), key: k };
                    Box::pin(async move {
                        match c.get_or_insert_async(&KqB(k), l).await {
                            Ok(v) => Out::Value(v.vid),
                            Err(_) => Out::Failed,
                        }
                    })
                } else {
                    Box::pin(async move {
                        match c.get_value_or_guard_async(&KqB(k)).await {
                            Ok(v) => Out::Value(v.vid),
                            Err(g) => Out::Guard(g),
                        }
                    })
                };
                m.futs.push(F { id, key: k, goi, fut, res: None, waker: None, seen: 0, ctl, lpolled });
                if src.chance(5, 6) {
                    let i = m.futs.len() - 1;
                    tr!("poll #{id}");
                    m.poll(i, Wake::gen(src));
                }
            }
            // poll: prefer the woken ones half of the time
            1 => {
                let woken: Vec<usize> = (0..m.futs.len()).filter(|i| m.futs[*i].woken()).collect();
                let i = if !woken.is_empty() && src.chance(1, 2) {
                    woken[src.below(woken.len() as u32) as usize]
                } else {
                    src.below(nf) as usize
                };
                let nw = Wake::gen(src);
                tr!("poll #{}, {nw:?} waker", m.futs[i].id);
                m.poll(i, nw);
            }
            2 => {
                let woken: Vec<usize> = (0..m.futs.len()).filter(|i| m.futs[*i].woken()).collect();
                let i = if !woken.is_empty() && src.chance(1, 2) {
                    woken[src.below(woken.len() as u32) as usize]
                } else {
                    src.below(nf) as usize
                };
                tr!("drop future #{}{}", m.futs[i].id, if m.futs[i].woken() { " (woken, not polled)" } else { "" });
                m.cancel(i);
            }
            3 => {
                let i = src.below(ng) as usize;
                let (r, g) = m.guards.swap_remove(i);
                let (vid, w) = (new_vid(), if src.chance(1, 6) { T + 1 } else { 1 });
                tr!("guard of k{} inserts v{vid} of weight {w}", m.res[r].key);
                let ok = g.insert(V::new(m.res[r].key, vid, w, false, Be::Keep)).is_ok();
                if m.filled(r, vid, w) != ok {
                    fail(ASYNC | GUARD, &format!("inserting through a guard of k{}: success is {ok}", m.res[r].key));
                }
            }
            4 => {
                let i = src.below(ng) as usize;
                let (r, g) = m.guards.swap_remove(i);
                tr!("guard of k{} is dropped", m.res[r].key);
                drop(g);
                m.release(r);
            }
            5 => {
                let k = src.below(keys);
                let (vid, w) = (new_vid(), if src.chance(1, 4) { T + 1 } else { 1 });
                tr!("insert k{k} v{vid} of weight {w}");
                c.insert(K::new(k), V::new(k, vid, w, false, Be::Keep));
                m.req = Some(true);
                if let Some(v) = m.m.get(&k) {
                    m.told.push(Told::Over(k, *v));
                }
                if w > T {
                    m.told.push(Told::Refused(k, vid));
                }
                if w <= T {
                    m.m.insert(k, vid);
                    m.pending.remove(&k);
                } else {
                    m.m.remove(&k);
                }
            }
            6 => {
                let k = src.below(keys);
                tr!("remove k{k}");
                let got = c.remove(&KqB(k)).map(|(_, v)| v.vid);
                if got != m.m.remove(&k) {
                    bad(format!("remove(k{k}) returned {got:?}"));
                }
                m.pending.remove(&k);
            }
            7 => {
                if src.chance(1, 2) {
                    tr!("clear");
                    c.clear();
                    m.m.clear();
                    m.pending.clear();
                } else {
                    tr!("retain nothing");
                    c.retain(|_, _| false);
                    m.m.clear();
                }
            }
            8 => {
                let i = src.below(nf) as usize;
                let l = if src.chance(1, 2) { Load::Ok(new_vid(), if src.chance(1, 8) { T + 1 } else { 1 }) } else { Load::Err };
                tr!("the loader of #{} becomes {l:?}", m.futs[i].id);
                m.futs[i].ctl.set(l);
            }
            9 => {
                let k = src.below(keys);
                tr!("get_value_or_guard(k{k}, timeout 0)");
                m.lookups += 1;
                match c.get_value_or_guard(&KqB(k), Some(Duration::ZERO)) {
                    GuardResult::Value(v) => {
                        m.hits += 1;
                        if m.m.get(&k) != Some(&v.vid) {
                            bad(format!("k{k} yields v{}", v.vid));
                        }
                    }
                    GuardResult::Guard(g) => {
                        if m.m.contains_key(&k) {
                            bad(format!("a guard for the stored key k{k}"));
                        }
                        match m.pending.get(&k).copied() {
                            Some(q) if m.res[q].hold == Hold::Transit => {
                                m.res[q].hold = Hold::Held;
                                m.guards.push((q, g));
                            }
                            Some(_) => fail(ASYNC | FLIGHT, &format!("a second guard for k{k}")),
                            None => {
                                m.misses += 1;
                                let q = m.acquired(k);
                                m.guards.push((q, g));
                            }
                        }
                    }
                    GuardResult::Timeout => {
                        if !m.pending.contains_key(&k) {
                            fail(ASYNC | GUARD | STRAND, &format!("Timeout although nobody is loading k{k}: a reservation was left behind"));
                        }
                    }
                }
            }
            _ => {
                let k = src.below(keys);
                tr!("replace k{k}");
                let vid = new_vid();
                let ok = c.replace(K::new(k), V::new(k, vid, 1, false, Be::Keep), src.chance(1, 2)).is_ok();
                if ok != m.m.contains_key(&k) {
                    fail(ASYNC | REPL, &format!("replace(k{k}): success is {ok}"));
                }
                m.req = Some(ok);
                if ok {
                    if let Some(v) = m.m.insert(k, vid) {
                        m.told.push(Told::Over(k, v));
                    }
                }
            }
        }
        m.check();
    }
    // bring everything to an end in one of two ways
    tr!("finish");
    if src.chance(1, 2) {
        // only woken futures are polled, as an executor would; loaders and guards resolve
        let mut fuel = 20_000;
        loop {
            fuel -= 1;
            if fuel == 0 {
                bad("the futures do not come to an end".into());
            }
            if let Some(i) = (0..m.futs.len()).find(|i| m.futs[*i].woken() || m.futs[*i].waker.is_none()) {
                tr!("poll #{}", m.futs[i].id);
                let nw = if src.chance(1, 4) { Wake::New } else { Wake::Same };
                m.poll(i, nw);
            } else if let Some((r, g)) = m.guards.pop() {
                if src.chance(1, 2) {
                    tr!("guard of k{} is dropped", m.res[r].key);
                    drop(g);
                    m.release(r);
                } else {
                    let vid = new_vid();
                    tr!("guard of k{} inserts v{vid}", m.res[r].key);
                    let ok = g.insert(V::new(m.res[r].key, vid, 1, false, Be::Keep)).is_ok();
                    if m.filled(r, vid, 1) != ok {
                        fail(ASYNC | GUARD, &format!("inserting through a guard of k{}: success is {ok}", m.res[r].key));
                    }
                }
            } else if let Some(i) = (0..m.futs.len()).find(|i| {
                let f = &m.futs[*i];
                f.goi && f.res.is_some_and(|q| !m.res[q].waiters.contains(&f.id))
            }) {
                if m.futs[i].ctl.get() == Load::Pending {
                    m.futs[i].ctl.set(if src.chance(1, 2) { Load::Err } else { Load::Ok(new_vid(), 1) });
                }
                tr!("poll #{} with its loader {:?}", m.futs[i].id, m.futs[i].ctl.get());
                m.poll(i, Wake::Same);
            } else {
                break;
            }
            m.check();
        }
        if let Some(f) = m.futs.first() {
            fail(ASYNC | STRAND | FLIGHT, &format!("future #{} is pending for ever: no guard is left and it was not woken", f.id));
        }
    } else {
        while !m.futs.is_empty() {
            let i = src.below(m.futs.len() as u32) as usize;
            tr!("drop future #{}", m.futs[i].id);
            m.cancel(i);
            m.check();
        }
        while let Some((r, g)) = m.guards.pop() {
            tr!("drop the guard of k{}", m.res[r].key);
            drop(g);
            m.release(r);
            m.check();
        }
    }
    for k in 0..keys {
        if m.m.contains_key(&k) {
            continue;
        }
        match c.get_value_or_guard(&KqB(k), Some(Duration::ZERO)) {
            GuardResult::Guard(_) => (),
            GuardResult::Value(v) => bad(format!("k{k} yields v{} at the end", v.vid)),
            GuardResult::Timeout => fail(ASYNC | GUARD | STRAND, &format!("everything ended, but k{k} is still reserved")),
        }
    }
    let n = m.m.len() as i64;
    if live_vals() != n || live_keys() != n {
        fail(ASYNC | RES, &format!("{} keys and {} values are alive at the end, but {n} entries are stored", live_keys(), live_vals()));
    }
    drop(m.res);
    // Safety: created by Box::leak; all guards and futures are gone
    drop(unsafe { Box::from_raw(c as *const SCache as *mut SCache) });
    if m.handoffs > 0 {
        label("with hand-offs");
    }
    if m.cancels_woken > 0 {
        label("with futures cancelled after being woken");
    }
    if m.delivered > 0 {
        label("with values delivered to waiters");
    }
    label_n("operations", done as u64);
    m.handoffs + m.delivered > 0
}
