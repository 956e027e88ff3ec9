//! C28: a panic raised by user code (loader, retain predicate, Clone of a value, comparison or
//! copying of a key, code that holds a mutable reference, guard or iterator) leaves the cache as
//! if the call had not been made, with all locks released and no reservation left.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use quick_cache::sync::{Cache, DefaultLifecycle, GuardResult, PlaceholderGuard};
use quick_cache::{unsync, Options, OptionsBuilder, Weighter};

use crate::report::*;
use crate::tape::Src;
use crate::tr;
use crate::types::{Hb, Hk};

static VALS: AtomicI64 = AtomicI64::new(0);
static KEYS: AtomicI64 = AtomicI64::new(0);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fault {
    None,
    /// the n-th copy of a value
    Clone(u8),
    /// the n-th comparison of keys
    Eq(u8),
    /// the n-th copy of a key
    Own(u8),
}
thread_local! {
    static ARMED: Cell<Fault> = const { Cell::new(Fault::None) };
}
fn boom() -> ! {
    std::panic::resume_unwind(Box::new(Injected))
}

struct K(u32);
fn mkk(k: u32) -> K {
    KEYS.fetch_add(1, SeqCst);
    K(k)
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        match ARMED.get() {
            Fault::Eq(0) => {
                ARMED.set(Fault::None);
                boom()
            }
            Fault::Eq(n) => ARMED.set(Fault::Eq(n - 1)),
            _ => (),
        }
        self.0 == o.0
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Clone for K {
    fn clone(&self) -> K {
        match ARMED.get() {
            Fault::Own(0) => {
                ARMED.set(Fault::None);
                boom()
            }
            Fault::Own(n) => ARMED.set(Fault::Own(n - 1)),
            _ => (),
        }
        mkk(self.0)
    }
}
impl Drop for K {
    fn drop(&mut self) {
        KEYS.fetch_sub(1, SeqCst);
    }
}

struct V {
    key: u32,
    id: u32,
    w: u8,
}
fn mkv(key: u32, id: u32, w: u8) -> V {
    VALS.fetch_add(1, SeqCst);
    V { key, id, w }
}
impl Clone for V {
    fn clone(&self) -> V {
        match ARMED.get() {
            Fault::Clone(0) => {
                ARMED.set(Fault::None);
                boom()
            }
            Fault::Clone(n) => ARMED.set(Fault::Clone(n - 1)),
            _ => (),
        }
        mkv(self.key, self.id, self.w)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        VALS.fetch_sub(1, SeqCst);
    }
}

#[derive(Clone)]
struct We;
impl Weighter<K, V> for We {
    fn weight(&self, _: &K, v: &V) -> u64 {
        v.w as u64
    }
}

/// with the fault armed; None if it unwound
fn faulty<R>(f: Fault, g: impl FnOnce() -> R) -> Option<R> {
    ARMED.set(f);
    let r = expecting_panic(g);
    ARMED.set(Fault::None);
    match r {
        Ok(r) => Some(r),
        Err(e) if e.is::<Injected>() => None,
        Err(_) => fail(FAULT | PANIC, "another panic replaced the one raised by the user's code"),
    }
}

/// key -> (value id, weight)
type Snap = BTreeMap<u32, (u32, u8)>;

struct Conf {
    cap: u64,
    keys: u32,
    maxw: u32,
    hk: Hk,
    opts: Options,
}

fn conf(src: &mut Src, roomy: bool) -> Conf {
    let cap = if !roomy && src.chance(1, 2) { src.range(2, 8) as u64 } else { 1000 };
    let keys = src.range(2, 8);
    let maxw = src.pick(&[1u32, 3]);
    let hk = if src.chance(1, 3) { Hk::Const(7) } else { Hk::Good(src.below(64) as u64) };
    let (shards, items) = if src.chance(1, 6) { (2, 64) } else { (1, src.range(1, 12) as usize) };
    let opts = OptionsBuilder::new()
        .estimated_items_capacity(items)
        .weight_capacity(cap)
        .shards(shards)
        .hot_allocation(src.pick(&[0.97, 0.5, 1.0]))
        .ghost_allocation(src.pick(&[0.5, 1.0, 0.0]))
        .build()
        .unwrap();
    tr!("capacity {cap}, shards {shards}, items {items}, {keys} keys, {hk:?}");
    Conf { cap, keys, maxw, hk, opts }
}

fn gen_fault(src: &mut Src) -> Fault {
    let n = src.pick(&[0u8, 0, 0, 1, 2]);
    match src.weighted(&[4, 3, 3, 2]) {
        0 => Fault::None,
        1 => Fault::Clone(n),
        2 => Fault::Eq(n),
        _ => Fault::Own(n),
    }
}

fn weight(src: &mut Src, maxw: u32) -> u8 {
    match maxw {
        1 => 1,
        m => src.below(m + 1) as u8,
    }
}

/// `after` may only differ from `before` by the loss of entries for space and by `new`
fn check_grown(what: &str, before: &Snap, after: &Snap, new: Option<(u32, u32, u8)>, roomy: bool) {
    for (k, v) in after {
        match new {
            Some((nk, id, w)) if nk == *k && *v == (id, w) => (),
            _ if before.get(k) == Some(v) => (),
            _ => fail(FAULT, &format!("{what}: k{k} now holds {v:?}, before {:?}", before.get(k))),
        }
    }
    if roomy {
        for k in before.keys() {
            if !after.contains_key(k) {
                fail(FAULT, &format!("{what}: k{k} is gone although everything fits"));
            }
        }
        if let Some((nk, id, w)) = new {
            if after.get(&nk) != Some(&(id, w)) {
                fail(FAULT, &format!("{what}: k{nk} holds {:?}, not the value just stored", after.get(&nk)));
            }
        }
    }
}

fn same(what: &str, before: &Snap, after: &Snap) {
    if before != after {
        fail(FAULT, &format!("{what} unwound, but changed the contents from {before:?} to {after:?}"));
    }
}

// ------------------------------------------------------------------------------------ sync

type C = Cache<K, V, We, Hb, DefaultLifecycle<K, V>>;
type G<'a> = PlaceholderGuard<'a, K, V, We, Hb, DefaultLifecycle<K, V>>;
type Fut<'a> = Pin<Box<dyn Future<Output = Result<V, G<'a>>> + 'a>>;

struct Waiting<'a> {
    key: u32,
    fut: Fut<'a>,
    /// the value it will get
    value: Option<u32>,
}

struct Sync<'a> {
    c: &'a C,
    conf: &'a Conf,
    keys: &'a [K],
    guards: BTreeMap<u32, G<'a>>,
    futs: Vec<Waiting<'a>>,
    unwound: u64,
}

fn poll<T: ?Sized + Future>(f: Pin<&mut T>) -> Poll<T::Output> {
    f.poll(&mut Context::from_waker(Waker::noop()))
}

impl<'a> Sync<'a> {
    fn snap(&self) -> Snap {
        let mut s = Snap::new();
        for k in self.keys {
            if let Some(v) = self.c.peek(k) {
                if v.key != k.0 {
                    fail(FAULT, &format!("peek(k{}) returned a value of k{}", k.0, v.key));
                }
                s.insert(k.0, (v.id, v.w));
            }
        }
        s
    }
    /// everything that must hold between calls
    fn settled(&self, what: &str, s: &Snap) {
        let w: u64 = s.values().map(|v| v.1 as u64).sum();
        if self.c.len() != s.len() || self.c.weight() != w || self.c.is_empty() != s.is_empty() {
            fail(FAULT, &format!("after {what}: len() {} weight() {}, but the entries are {s:?}", self.c.len(), self.c.weight()));
        }
        if w > self.c.capacity() {
            fail(FAULT, &format!("after {what}: weight {w} exceeds the capacity {}", self.c.capacity()));
        }
        // values on their way to waiting futures are shared, one copy per reservation
        let passing: std::collections::BTreeSet<u32> = self.futs.iter().filter_map(|f| f.value).collect();
        let (vals, keys) = (VALS.load(SeqCst), KEYS.load(SeqCst));
        let expect = (s.len() + passing.len()) as i64;
        if vals != expect {
            fail(FAULT, &format!("after {what}: {vals} values are alive, expected {expect}"));
        }
        let expect = (self.keys.len() + s.len() + self.guards.len()) as i64;
        if keys != expect {
            fail(FAULT, &format!("after {what}: {keys} keys are alive, expected {expect}"));
        }
    }
    /// the reservation of `k` was given up: one of the waiting futures gets it, or nobody has it
    fn given_up(&mut self, src: &mut Src, what: &str, k: u32) {
        let mut waiting = false;
        // one of them, possibly the one that was chosen, goes before it is polled again
        while src.chance(1, 3) {
            let of_k: Vec<usize> = (0..self.futs.len()).filter(|&i| self.futs[i].key == k && self.futs[i].value.is_none()).collect();
            if of_k.is_empty() {
                break;
            }
            let w = self.futs.remove(src.pick(&of_k));
            tr!("  a future waiting for k{k} is dropped by unwinding");
            faulty(Fault::None, || {
                let _w = w;
                boom()
            });
            self.unwound += 1;
        }
        for i in 0..self.futs.len() {
            if self.futs[i].key != k || self.futs[i].value.is_some() {
                continue;
            }
            waiting = true;
            match poll(self.futs[i].fut.as_mut()) {
                Poll::Pending => (),
                Poll::Ready(Ok(_)) => fail(FAULT, &format!("{what}: a future waiting for k{k} got a value that was never inserted")),
                Poll::Ready(Err(g)) => {
                    self.guards.insert(k, g);
                    drop(self.futs.remove(i));
                    label("loading rights passed on by a fault");
                    return;
                }
            }
        }
        if waiting {
            fail(FAULT, &format!("{what}: none of the futures waiting for k{k} got the loading right"));
        }
        self.probe(what, k);
    }
    fn probe(&mut self, what: &str, k: u32) {
        let stored = self.c.contains_key(&self.keys[k as usize]);
        let reserved = self.guards.contains_key(&k);
        let r = match self.c.get_value_or_guard(&self.keys[k as usize], Some(Duration::ZERO)) {
            GuardResult::Value(_) => "the value",
            GuardResult::Guard(_) => "a guard",
            GuardResult::Timeout => "a timeout",
        };
        let expect = if stored {
            "the value"
        } else if reserved {
            "a timeout"
        } else {
            "a guard"
        };
        if r != expect {
            fail(FAULT, &format!("after {what}: get_value_or_guard(k{k}) gave {r}, expected {expect}"));
        }
    }
    fn step(&mut self, src: &mut Src, id: u32) {
        let c = self.c;
        let keys = self.keys;
        let k = src.below(self.conf.keys);
        let key = &keys[k as usize];
        let w = weight(src, self.conf.maxw);
        let f = gen_fault(src);
        let roomy = self.conf.cap >= 1000;
        let reserved = self.guards.contains_key(&k);
        let before = self.snap();
        let op = src.weighted(&[10, 3, 3, 2, 2, 4, 3, 5, 6, 3, 4, 5, 4, 2, 1]);
        match op {
            // calls that displace a reservation are the business of C15
            0 | 1 | 5 if reserved => (),
            0 => {
                let what = format!("insert(k{k}, v{id}, weight {w}) with {f:?}");
                tr!("{what}");
                let r = faulty(f, || c.insert(mkk(k), mkv(k, id, w)));
                let s = self.snap();
                self.judge(&what, r.is_none(), &before, &s, Some((k, id, w)), roomy);
                self.settled(&what, &s);
            }
            1 => {
                let what = format!("replace(k{k}, v{id}, weight {w}) with {f:?}");
                tr!("{what}");
                let r = faulty(f, || c.replace(mkk(k), mkv(k, id, w), false).is_ok());
                let s = self.snap();
                let new = (r == Some(true)).then_some((k, id, w));
                self.judge(&what, r.is_none(), &before, &s, new, roomy);
                self.settled(&what, &s);
            }
            2..=4 => {
                let what = format!("{}(k{k}) with {f:?}", ["get", "peek", "contains_key"][op - 2]);
                tr!("{what}");
                let r = faulty(f, || match op {
                    2 => c.get(key).map(|v| v.id),
                    3 => c.peek(key).map(|v| v.id),
                    _ => c.contains_key(key).then(|| before.get(&k).map_or(0, |v| v.0)),
                });
                let s = self.snap();
                self.judge(&what, r.is_none(), &before, &s, None, true);
                if let Some(r) = r {
                    if r != before.get(&k).map(|v| v.0) {
                        fail(FAULT, &format!("{what} returned {r:?}, expected {:?}", before.get(&k)));
                    }
                }
                self.settled(&what, &s);
            }
            5 => {
                let what = format!("remove(k{k}) with {f:?}");
                tr!("{what}");
                let r = faulty(f, || c.remove(key).map(|(_, v)| v.id));
                let s = self.snap();
                match r {
                    None => {
                        self.unwound += 1;
                        same(&what, &before, &s);
                    }
                    Some(r) => {
                        let mut e = before.clone();
                        let x = e.remove(&k).map(|v| v.0);
                        if e != s || r != x {
                            fail(FAULT, &format!("{what} returned {r:?}; entries before {before:?}, after {s:?}"));
                        }
                    }
                }
                self.settled(&what, &s);
            }
            6 => {
                // the predicate panics at its n-th call
                let at = src.below(6);
                let bits = src.below(1 << self.conf.keys);
                let what = format!("retain({bits:b}), panicking at call {at}");
                tr!("{what}");
                let n = Cell::new(0);
                let r = faulty(Fault::None, || {
                    c.retain(|k, _| {
                        if n.get() == at {
                            boom()
                        }
                        n.set(n.get() + 1);
                        bits >> k.0 & 1 == 1
                    })
                });
                let s = self.snap();
                for (k, v) in &before {
                    let keep = bits >> k & 1 == 1;
                    let has = s.get(k) == Some(v);
                    if keep && !has || !keep && has && r.is_some() {
                        fail(FAULT, &format!("{what}: entries before {before:?}, after {s:?}"));
                    }
                }
                // entries rejected before the panic may be gone or not
                self.unwound += r.is_none() as u64;
                check_grown(&what, &before, &s, None, false);
                self.settled(&what, &s);
            }
            7 => {
                let what = format!("get_value_or_guard(k{k}) with {f:?}");
                tr!("{what}");
                let r = faulty(f, || c.get_value_or_guard(key, Some(Duration::ZERO)));
                let s = self.snap();
                self.judge(&what, r.is_none(), &before, &s, None, true);
                match r {
                    None => self.probe(&what, k),
                    Some(GuardResult::Value(v)) => {
                        if before.get(&k).map(|v| v.0) != Some(v.id) {
                            fail(FAULT, &format!("{what} returned v{}, expected {:?}", v.id, before.get(&k)));
                        }
                    }
                    Some(GuardResult::Guard(g)) => {
                        if reserved || before.contains_key(&k) {
                            fail(FAULT, &format!("{what} gave a guard, but the key is reserved or stored"));
                        }
                        self.guards.insert(k, g);
                    }
                    Some(GuardResult::Timeout) => {
                        if !reserved {
                            fail(FAULT, &format!("{what} timed out, but nobody is loading the key"));
                        }
                    }
                }
                let s = self.snap();
                self.settled(&what, &s);
            }
            8 => {
                let Some(k) = self.a_guard(src) else { return };
                let what = format!("inserting v{id}, weight {w}, through the guard of k{k} with {f:?}");
                tr!("{what}");
                let g = self.guards.remove(&k).unwrap();
                let r = faulty(f, || g.insert(mkv(k, id, w)).is_ok());
                let s = self.snap();
                match r {
                    None => {
                        self.unwound += 1;
                        same(&what, &before, &s);
                        self.given_up(src, &what, k);
                    }
                    Some(false) => fail(FAULT, &format!("{what} failed")),
                    Some(true) => {
                        check_grown(&what, &before, &s, Some((k, id, w)), roomy);
                        for f in &mut self.futs {
                            if f.key == k && f.value.is_none() {
                                f.value = Some(id);
                            }
                        }
                    }
                }
                let s = self.snap();
                self.settled(&what, &s);
            }
            9 => {
                let Some(k) = self.a_guard(src) else { return };
                let unwind = src.chance(1, 2);
                let what = format!("dropping the guard of k{k}{}", if unwind { " by unwinding" } else { "" });
                tr!("{what}");
                let g = self.guards.remove(&k).unwrap();
                faulty(Fault::None, || {
                    let _g = g;
                    if unwind {
                        boom()
                    }
                });
                self.unwound += unwind as u64;
                self.given_up(src, &what, k);
                let s = self.snap();
                same(&what, &before, &s);
                self.settled(&what, &s);
            }
            // would wait for ever
            10 if reserved => (),
            10 => {
                let how = src.below(4);
                let asy = src.chance(1, 3);
                let what = format!("get_or_insert{}(k{k}, {}) with {f:?}", if asy { "_async" } else { "_with" }, ["v", "v", "Err", "panic"][how as usize]);
                tr!("{what}");
                let load = || match how {
                    0 | 1 => Ok(mkv(k, id, w)),
                    2 => Err(()),
                    _ => boom(),
                };
                let r = faulty(f, || {
                    if asy {
                        let mut f = Box::pin(c.get_or_insert_async(key, async { load() }));
                        match poll(f.as_mut()) {
                            Poll::Ready(r) => r.map(|v| v.id),
                            Poll::Pending => fail(FAULT, &format!("{what} is pending although nobody is loading the key")),
                        }
                    } else {
                        c.get_or_insert_with(key, load).map(|v| v.id)
                    }
                });
                let s = self.snap();
                match r {
                    None => {
                        self.unwound += 1;
                        // the copy to return may be made after the value was stored
                        if !matches!(f, Fault::Clone(_)) {
                            same(&what, &before, &s);
                        }
                        check_grown(&what, &before, &s, Some((k, id, w)), false);
                    }
                    Some(r) => {
                        let e = match before.get(&k) {
                            Some(v) => Ok(v.0),
                            None if how < 2 => Ok(id),
                            None => Err(()),
                        };
                        if r != e {
                            fail(FAULT, &format!("{what} returned {r:?}, expected {e:?}"));
                        }
                        let new = (!before.contains_key(&k) && how < 2).then_some((k, id, w));
                        check_grown(&what, &before, &s, new, roomy);
                    }
                }
                self.probe(&what, k);
                let s = self.snap();
                self.settled(&what, &s);
            }
            11 if self.futs.len() < 4 => {
                let what = format!("the first poll of get_value_or_guard_async(k{k}) with {f:?}");
                tr!("{what}");
                let mut fut: Fut<'a> = Box::pin(c.get_value_or_guard_async(key));
                let r = faulty(f, || poll(fut.as_mut()));
                let s = self.snap();
                self.judge(&what, r.is_none(), &before, &s, None, true);
                match r {
                    None => {
                        drop(fut);
                        self.probe(&what, k)
                    }
                    Some(Poll::Pending) if reserved => self.futs.push(Waiting { key: k, fut, value: None }),
                    Some(Poll::Pending) => fail(FAULT, &format!("{what} is pending, but nobody is loading the key")),
                    Some(Poll::Ready(Ok(v))) => {
                        if before.get(&k).map(|v| v.0) != Some(v.id) {
                            fail(FAULT, &format!("{what} returned v{}, expected {:?}", v.id, before.get(&k)));
                        }
                    }
                    Some(Poll::Ready(Err(g))) => {
                        if reserved || before.contains_key(&k) {
                            fail(FAULT, &format!("{what} gave a guard, but the key is reserved or stored"));
                        }
                        self.guards.insert(k, g);
                    }
                }
                let s = self.snap();
                self.settled(&what, &s);
            }
            12 if !self.futs.is_empty() => {
                let i = src.below(self.futs.len() as u32) as usize;
                let k = self.futs[i].key;
                let f = if src.chance(1, 2) { Fault::Clone(0) } else { f };
                let what = format!("polling a future waiting for k{k} ({:?}) with {f:?}", self.futs[i].value);
                tr!("{what}");
                let mut w = self.futs.remove(i);
                let r = faulty(f, move || {
                    let r = poll(w.fut.as_mut());
                    (r, w)
                });
                let s = self.snap();
                same(&what, &before, &s);
                match r {
                    // the future is gone with the call that polled it
                    None => {
                        self.unwound += 1;
                        label("polls that unwound");
                    }
                    Some((Poll::Pending, w)) if w.value.is_none() => self.futs.push(w),
                    Some((Poll::Ready(Ok(v)), w)) if w.value == Some(v.id) => (),
                    Some((Poll::Ready(Ok(v)), _)) => fail(FAULT, &format!("{what} gave v{}", v.id)),
                    Some((Poll::Ready(Err(_)), _)) => fail(FAULT, &format!("{what} gave a guard")),
                    Some((Poll::Pending, _)) => fail(FAULT, &format!("{what} is pending")),
                }
                self.settled(&what, &s);
            }
            13 if !self.futs.is_empty() => {
                let i = src.below(self.futs.len() as u32) as usize;
                let what = format!("dropping a future waiting for k{} by unwinding", self.futs[i].key);
                tr!("{what}");
                let w = self.futs.remove(i);
                faulty(Fault::None, || {
                    let _w = w;
                    boom()
                });
                self.unwound += 1;
                let s = self.snap();
                same(&what, &before, &s);
                self.settled(&what, &s);
            }
            14 if self.guards.is_empty() => {
                tr!("clear");
                c.clear();
                let s = self.snap();
                if !s.is_empty() {
                    fail(FAULT, &format!("clear left {s:?}"));
                }
                self.settled("clear", &s);
            }
            _ => (),
        }
    }
    fn a_guard(&self, src: &mut Src) -> Option<u32> {
        if self.guards.is_empty() {
            return None;
        }
        let i = src.below(self.guards.len() as u32) as usize;
        self.guards.keys().nth(i).copied()
    }
    fn judge(&mut self, what: &str, unwound: bool, before: &Snap, after: &Snap, new: Option<(u32, u32, u8)>, roomy: bool) {
        if unwound {
            self.unwound += 1;
            same(what, before, after);
        } else {
            check_grown(what, before, after, new, roomy);
        }
    }
}

fn sync_case(src: &mut Src) -> bool {
    let conf = conf(src, false);
    let keys: Vec<K> = (0..conf.keys).map(mkk).collect();
    let c = C::with_options(conf.opts.clone(), We, Hb(conf.hk), DefaultLifecycle::default());
    let unwound = {
        let mut s = Sync { c: &c, conf: &conf, keys: &keys, guards: BTreeMap::new(), futs: vec![], unwound: 0 };
        let n = src.plan(4, 50);
        let mut i = 0;
        while src.more(i, n) {
            i += 1;
            s.step(src, i);
        }
        // everything is given up; nothing remains reserved
        s.futs.clear();
        s.guards.clear();
        for k in 0..conf.keys {
            s.probe("the end", k);
        }
        let snap = s.snap();
        s.settled("the end", &snap);
        s.unwound
    };
    label_n("calls that unwound", unwound);
    // and the cache still works
    let before = VALS.load(SeqCst);
    for k in 0..200 {
        c.insert(mkk(100 + k), mkv(100 + k, 1000 + k, 1));
        if c.weight() > c.capacity() {
            fail(FAULT, "the capacity is exceeded after faults");
        }
    }
    let n = (0..200).filter(|k| c.contains_key(&mkk(100 + k))).count();
    if conf.cap >= 1000 && (n != 200 || VALS.load(SeqCst) != before + 200) {
        fail(FAULT, &format!("after faults, {n} of 200 new entries are stored"));
    }
    drop(c);
    drop(keys);
    gone();
    unwound >= 2
}

fn gone() {
    let (v, k) = (VALS.load(SeqCst), KEYS.load(SeqCst));
    if v != 0 || k != 0 {
        fail(FAULT, &format!("{v} values and {k} keys are alive after everything was dropped"));
    }
}

/// waiting threads, some of which panic while copying the value, or while loading
#[cfg(not(feature = "shuttle"))]
fn threads(src: &mut Src) -> bool {
    use std::sync::Arc;
    let conf = conf(src, true);
    let c = Arc::new(C::with_options(conf.opts.clone(), We, Hb(conf.hk), DefaultLifecycle::default()));
    let n = src.range(2, 4);
    let how: Vec<u32> = (0..n).map(|_| src.below(4)).collect();
    let give_up = src.below(3);
    let delay = src.pick(&[0u64, 30, 200]);
    tr!("threads {how:?} (0 reads, 1 panics while copying, 2 panics while loading, 3 times out), the first loader {}", ["inserts", "drops the guard", "panics while inserting"][give_up as usize]);
    let key = mkk(0);
    let GuardResult::Guard(g) = c.get_value_or_guard(&key, None) else { fail(FAULT, "no guard in an empty cache") };
    let hs: Vec<_> = how
        .iter()
        .enumerate()
        .map(|(i, &h)| {
            let c = c.clone();
            std::thread::spawn(move || {
                let key = mkk(0);
                let id = 10 + i as u32;
                match h {
                    0 => faulty(Fault::None, || c.get_or_insert_with(&key, || Ok::<_, ()>(mkv(0, id, 1))).ok().map(|v| v.id)),
                    1 => faulty(Fault::Clone(0), || c.get_or_insert_with(&key, || Ok::<_, ()>(mkv(0, id, 1))).ok().map(|v| v.id)),
                    2 => faulty(Fault::None, || c.get_or_insert_with(&key, || -> Result<V, ()> { boom() }).ok().map(|v| v.id)),
                    _ => faulty(Fault::None, || match c.get_value_or_guard(&key, Some(Duration::from_micros(50))) {
                        GuardResult::Value(v) => Some(v.id),
                        _ => None,
                    }),
                }
            })
        })
        .collect();
    std::thread::sleep(Duration::from_micros(delay));
    let first = match give_up {
        0 => faulty(Fault::None, || g.insert(mkv(0, 1, 1)).is_ok()) == Some(true),
        1 => {
            drop(g);
            false
        }
        _ => faulty(Fault::Clone(0), || g.insert(mkv(0, 1, 1)).is_ok()) == Some(true),
    };
    let rs: Vec<Option<Option<u32>>> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail(FAULT | PANIC, "a waiting thread died"))).collect();
    let stored = c.peek(&key).map(|v| v.id);
    tr!("{rs:?}, stored {stored:?}");
    for (i, r) in rs.iter().enumerate() {
        if let Some(Some(id)) = r {
            if stored != Some(*id) {
                fail(FAULT, &format!("thread {i} got v{id}, but v{stored:?} is stored"));
            }
        }
        if how[i] == 0 && !matches!(r, Some(Some(_))) {
            fail(FAULT, &format!("thread {i} got {r:?}"));
        }
    }
    if first && stored != Some(1) {
        fail(FAULT, &format!("v1 was inserted, but {stored:?} is stored"));
    }
    if stored.is_none() {
        match c.get_value_or_guard(&key, Some(Duration::ZERO)) {
            GuardResult::Guard(_) => (),
            GuardResult::Value(_) => fail(FAULT, "a value appeared"),
            GuardResult::Timeout => fail(FAULT, "the key is still reserved after all calls have ended"),
        }
    }
    let (v, k) = (VALS.load(SeqCst), KEYS.load(SeqCst));
    if v != c.len() as i64 || k != 1 + c.len() as i64 {
        fail(FAULT, &format!("{v} values and {k} keys are alive, but {} entries are stored", c.len()));
    }
    drop(c);
    drop(key);
    gone();
    label("cases with threads");
    rs.iter().any(|r| r.is_none())
}

// ---------------------------------------------------------------------------------- unsync

type U = unsync::Cache<K, V, We, Hb, unsync::DefaultLifecycle<K, V>>;

fn usnap(c: &U) -> Snap {
    let mut s = Snap::new();
    for (k, v) in c.iter() {
        if k.0 != v.key || s.insert(k.0, (v.id, v.w)).is_some() {
            fail(FAULT, &format!("iter() yields k{} with a value of k{} or twice", k.0, v.key));
        }
    }
    s
}

fn usettled(what: &str, c: &U, keys: &[K], s: &Snap, over: bool) {
    let w: u64 = s.values().map(|v| v.1 as u64).sum();
    if c.len() != s.len() || c.weight() != w || !over && w > c.capacity() {
        fail(FAULT, &format!("after {what}: len() {} weight() {} capacity() {}, but the entries are {s:?}", c.len(), c.weight(), c.capacity()));
    }
    for k in keys {
        let p = c.peek(k).map(|v| (v.id, v.w));
        if p.as_ref() != s.get(&k.0) {
            fail(FAULT, &format!("after {what}: peek(k{}) is {p:?}, but iteration gave {:?}", k.0, s.get(&k.0)));
        }
    }
    let (vals, ks) = (VALS.load(SeqCst), KEYS.load(SeqCst) - keys.len() as i64);
    if vals != s.len() as i64 || ks != s.len() as i64 {
        fail(FAULT, &format!("after {what}: {vals} values and {ks} keys are alive, but {} entries are stored", s.len()));
    }
}

fn unsync_case(src: &mut Src) -> bool {
    let conf = conf(src, false);
    let keys: Vec<K> = (0..conf.keys).map(mkk).collect();
    let mut c = U::with_options(conf.opts.clone(), We, Hb(conf.hk), Default::default());
    let roomy = conf.cap >= 1000;
    let n = src.plan(4, 50);
    let mut id = 0;
    let mut unwound = 0u64;
    // an in-place change may have taken the weight above the capacity
    let mut over = false;
    while src.more(id, n) {
        id += 1;
        let k = src.below(conf.keys);
        let key = &keys[k as usize];
        let w = weight(src, conf.maxw);
        let f = gen_fault(src);
        let before = usnap(&c);
        let op = src.weighted(&[10, 3, 3, 2, 4, 3, 5, 5, 4, 2, 1, 3]);
        let name = ["insert", "replace", "get", "peek", "remove", "retain", "get_or_insert_with", "get_mut_or_insert_with", "get_mut", "clone", "drain", "get_ref_or_guard"][op];
        let how = src.below(4);
        let what = format!("{name}(k{k}, v{id}, weight {w}, {how}) with {f:?}");
        tr!("{what}");
        // Some(new) if the call ended normally
        let mut may_store = false;
        let mut new = None;
        let mut removed = vec![];
        let ended = match op {
            0 => {
                new = Some((k, id, w));
                faulty(f, || c.insert(mkk(k), mkv(k, id, w))).is_some()
            }
            1 => {
                let r = faulty(f, || c.replace(mkk(k), mkv(k, id, w), how == 0).is_ok());
                if r == Some(true) {
                    new = Some((k, id, w));
                }
                r.is_some()
            }
            2 => faulty(f, || c.get(key).map(|v| v.id)).map(|r| uresult(&what, r, &before, k)).is_some(),
            3 => faulty(f, || c.peek(key).map(|v| v.id)).map(|r| uresult(&what, r, &before, k)).is_some(),
            4 => {
                removed.push(k);
                faulty(f, || c.remove(key).map(|(_, v)| v.id)).map(|r| uresult(&what, r, &before, k)).is_some()
            }
            5 => {
                let n = Cell::new(0);
                let bits = id.wrapping_mul(0x9E37_79B9) >> 16;
                removed.extend((0..conf.keys).filter(|k| bits >> k & 1 == 0));
                let bits = bits;
                faulty(Fault::None, || {
                    c.retain(|k, _| {
                        if n.get() == how + 1 {
                            boom()
                        }
                        n.set(n.get() + 1);
                        bits >> k.0 & 1 == 1
                    })
                })
                .is_some()
            }
            6 | 7 => {
                let load = || match how {
                    0 | 1 => Ok(mkv(k, id, w)),
                    2 => Err(()),
                    _ => boom(),
                };
                may_store = true;
                let r = if op == 6 {
                    faulty(f, || c.get_or_insert_with(key, load).map(|v| v.map(|v| v.id)))
                } else {
                    faulty(f, || c.get_mut_or_insert_with(key, load).map(|v| v.map(|v| v.id)))
                };
                if r.is_some() && how < 2 && !before.contains_key(&k) {
                    new = Some((k, id, w));
                }
                r.is_some()
            }
            8 => {
                // the code holding the reference panics after changing the value: the change stands
                let change = (id, w);
                let peek = how % 2 == 0;
                let r = faulty(f, || {
                    let m = if peek { c.peek_mut(key) } else { c.get_mut(key) };
                    if let Some(mut m) = m {
                        (m.id, m.w) = change;
                        if how > 1 {
                            boom()
                        }
                    }
                });
                let s = usnap(&c);
                if before.contains_key(&k) && s.get(&k) == Some(&change) {
                    over |= w > before[&k].1;
                    let mut e = before.clone();
                    e.insert(k, change);
                    same(&what, &e, &s);
                } else if before.contains_key(&k) && (r.is_some() || !matches!(f, Fault::Eq(_))) {
                    fail(FAULT, &format!("{what}: entries before {before:?}, after {s:?}"));
                } else {
                    same(&what, &before, &s);
                }
                unwound += r.is_none() as u64;
                usettled(&what, &c, &keys, &s, over);
                continue;
            }
            9 => {
                // copying the cache
                let r = faulty(f, || {
                    let d = c.clone();
                    if usnap(&d) != before {
                        fail(FAULT, "the clone differs");
                    }
                });
                r.is_some()
            }
            10 => {
                // the iterator is dropped half-way by a panic: the cache is empty all the same
                let r = faulty(Fault::None, || {
                    let mut d = c.drain();
                    for _ in 0..how {
                        d.next();
                    }
                    if f != Fault::None {
                        boom()
                    }
                });
                unwound += r.is_none() as u64;
                let s = usnap(&c);
                if !s.is_empty() {
                    fail(FAULT, &format!("{what} left {s:?}"));
                }
                usettled(&what, &c, &keys, &s, false);
                over = false;
                continue;
            }
            _ => {
                let r = faulty(f, || match c.get_ref_or_guard(key) {
                    Ok(v) => Ok(v.id),
                    Err(g) => {
                        match how {
                            0 => drop(g),
                            1 => {
                                let _g = g;
                                boom()
                            }
                            _ => g.insert(mkv(k, id, w)),
                        }
                        Err(())
                    }
                });
                if r.is_some() && how > 1 && !before.contains_key(&k) {
                    new = Some((k, id, w));
                }
                r.is_some()
            }
        };
        let s = usnap(&c);
        if !ended {
            unwound += 1;
            // get_or_insert_with compares keys again to find what it has just stored
            if may_store && matches!(f, Fault::Eq(_)) && how < 2 {
                check_grown(&what, &before, &s, Some((k, id, w)), roomy && s.contains_key(&k) && !before.contains_key(&k));
            } else if op == 5 {
                // entries rejected before the panic may be gone or not
                let kept = |s: &Snap| s.iter().filter(|e| !removed.contains(e.0)).map(|(k, v)| (*k, *v)).collect::<Snap>();
                same(&what, &kept(&before), &kept(&s));
                check_grown(&what, &before, &s, None, false);
            } else {
                same(&what, &before, &s);
            }
        } else if !removed.is_empty() {
            let mut e = before.clone();
            e.retain(|k, _| !removed.contains(k));
            if e != s {
                fail(FAULT, &format!("{what}: entries before {before:?}, after {s:?}"));
            }
        } else {
            check_grown(&what, &before, &s, new, roomy);
        }
        if c.weight() <= c.capacity() {
            over = false;
        }
        usettled(&what, &c, &keys, &s, over);
    }
    label_n("calls that unwound", unwound);
    for k in 0..200 {
        c.insert(mkk(100 + k), mkv(100 + k, 1000 + k, 1));
        if c.weight() > c.capacity() {
            fail(FAULT, "the capacity is exceeded after faults");
        }
    }
    let n = (0..200).filter(|k| c.contains_key(&mkk(100 + k))).count();
    if roomy && n != 200 {
        fail(FAULT, &format!("after faults, {n} of 200 new entries are stored"));
    }
    drop(c);
    drop(keys);
    gone();
    unwound >= 2
}

fn uresult(what: &str, r: Option<u32>, before: &Snap, k: u32) {
    if r != before.get(&k).map(|v| v.0) {
        fail(FAULT, &format!("{what} returned {r:?}, expected {:?}", before.get(&k)));
    }
}

pub fn run(src: &mut Src) -> bool {
    ARMED.set(Fault::None);
    match src.weighted(&[60, 30, 1]) {
        0 => sync_case(src),
        1 => unsync_case(src),
        #[cfg(not(feature = "shuttle"))]
        _ => threads(src),
        #[cfg(feature = "shuttle")]
        _ => sync_case(src),
    }
}
