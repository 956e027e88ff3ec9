//! Large numbers: many entries, many lookups of one entry, many waiters of one key.

use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use quick_cache::sync::{Cache, DefaultLifecycle, GuardResult};
use quick_cache::{unsync, Lifecycle, OptionsBuilder, UnitWeighter, Weighter};

use crate::report::*;
use crate::tape::{Rng, Src};
use crate::tr;
use crate::types::{Hb, Hk, Hs};

#[derive(Clone)]
struct H32(Hk);
impl std::hash::BuildHasher for H32 {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hb(self.0).build_hasher()
    }
}

fn val(k: u32) -> u32 {
    k ^ 0x5555
}

/// more entries than fit in 16 bits
pub fn entries(src: &mut Src) -> bool {
    let cap = 66_000 + src.below(70_000) as u64;
    let sync = src.chance(1, 2);
    let shards = src.pick(&[1usize, 4]);
    let ghost = src.pick(&[0.5, 1.0]);
    let o = OptionsBuilder::new()
        .estimated_items_capacity(cap as usize)
        .weight_capacity(cap)
        .shards(shards)
        .ghost_allocation(ghost)
        .build()
        .unwrap();
    let hk = H32(Hk::Good(src.below(1000) as u64));
    // all of them fit, even if the shards do not get equal shares
    let n = (cap - cap / 16) as u32;
    let modulus = src.range(2, 5);
    let by_guard = src.chance(1, 2);
    tr!("large cache: sync={sync} shards={shards} capacity={cap} ghosts={ghost}: {n} keys, by_guard={by_guard}, retain 1/{modulus}");
    if sync {
        let c: Cache<u32, u32, UnitWeighter, H32> = Cache::with_options(o, UnitWeighter, hk, Default::default());
        for k in 0..n {
            if by_guard {
                let _ = c.get_or_insert_with(&k, || Ok::<_, ()>(val(k)));
            } else {
                c.insert(k, val(k));
            }
        }
        if c.len() != n as usize || c.weight() != n as u64 {
            fail(LOSS | ACCT | FUEL, &format!("{n} keys fit, but len() is {} and weight() {}", c.len(), c.weight()));
        }
        for k in 0..n {
            if c.peek(&k) != Some(val(k)) {
                fail(LOOKUP | LOSS | FUEL, &format!("k{k} of {n} is {:?}", c.peek(&k)));
            }
        }
        c.retain(|k, _| k % modulus == 0);
        for k in 0..n {
            if c.contains_key(&k) != (k % modulus == 0) {
                fail(REMOVE | LOSS | FUEL, &format!("k{k} after retaining the multiples of {modulus}: stored is {}", c.contains_key(&k)));
            }
        }
        let m = n.div_ceil(modulus) as usize;
        if c.len() != m || c.weight() != m as u64 {
            fail(REMOVE | ACCT | FUEL, &format!("{m} keys were retained, but len() is {}", c.len()));
        }
        c.clear();
        if c.len() != 0 || c.weight() != 0 || (0..n).any(|k| c.contains_key(&k)) {
            fail(REMOVE | ACCT | FUEL, "clear left entries");
        }
    } else {
        let mut c: unsync::Cache<u32, u32, UnitWeighter, H32> = unsync::Cache::with_options(o, UnitWeighter, hk, Default::default());
        // fill it, then evict some of the cold entries, which are remembered
        let hot = (cap as f64 * 0.97) as u32;
        let full = cap as u32;
        // a little less than what can be remembered
        let ghosts = (cap as f64 * ghost * 0.98) as u32;
        for k in 0..full {
            if by_guard {
                let _ = c.get_or_insert_with(&k, || Ok::<_, ()>(val(k)));
            } else {
                c.insert(k, val(k));
            }
        }
        if c.len() as u64 != cap || c.weight() != cap || c.iter().count() as u64 != cap {
            fail(LOSS | ACCT | CONFIG | FUEL, &format!("{cap} keys fit, but len() is {}, weight() {}", c.len(), c.weight()));
        }
        for k in 0..full {
            if c.peek(&k) != Some(&val(k)) {
                fail(LOOKUP | LOSS | FUEL, &format!("k{k} of {full} is {:?}", c.peek(&k)));
            }
        }
        if !by_guard {
            // keys hot.. are cold and evicted in order
            for k in full..full + ghosts {
                c.insert(k, val(k));
            }
            let oldest = hot;
            if c.contains_key(&oldest) || c.len() as u64 != cap {
                fail(POLICY | CONFIG | ACCT, &format!("{ghosts} insertions into a full cache did not evict its oldest cold entry (len() {})", c.len()));
            }
            for k in 0..hot {
                if !c.contains_key(&k) {
                    fail(POLICY | CONFIG, &format!("k{k} of the {hot} hot entries did not survive a scan of {ghosts} keys"));
                }
            }
            // it is still remembered
            c.insert(oldest, 1);
            for k in 10_000_000..10_000_000 + (full - hot) + 100 {
                c.insert(k, val(k));
            }
            if c.peek(&oldest) != Some(&1) {
                fail(POLICY | CONFIG, &format!("a key that came back after {ghosts} evictions was not remembered (capacity {cap})"));
            }
            c.remove(&oldest);
        }
        let before = c.len();
        let keep = c.iter().filter(|(k, _)| *k % modulus == 0).count();
        c.retain(|k, _| k % modulus == 0);
        if c.len() != keep || c.weight() != keep as u64 || c.iter().any(|(k, _)| k % modulus != 0) {
            fail(REMOVE | ACCT | FUEL, &format!("retain should have left {keep} of {before} keys, but len() is {}", c.len()));
        }
        let d = c.drain().count();
        if d != keep || c.len() != 0 || c.weight() != 0 || c.iter().count() != 0 {
            fail(REMOVE | ACCT | FUEL, &format!("drain yielded {d} of {keep} entries and left {}", c.len()));
        }
    }
    label("large cache");
    true
}

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
#[derive(Clone, Default)]
struct Count;
impl Lifecycle<u32, u32> for Count {
    type RequestState = ();
    fn begin_request(&self) {}
    fn on_evict(&self, _: &mut (), _: u32, _: u32) {}
    fn is_pinned(&self, _: &u32, _: &u32) -> bool {
        CALLS.set(CALLS.get() + 1);
        if CALLS.get() > 100_000 {
            fail(FUEL | PIN | PANIC, "an insertion into a cache of 20 entries called is_pinned 100000 times");
        }
        false
    }
}

/// one entry is looked up very often: the counts are right, and it counts as used
pub fn lookups(src: &mut Src) -> bool {
    let n: u64 = src.pick(&[65_536, 65_535, 65_537, 131_072, 256, 1000]);
    let sync = src.chance(1, 2);
    let how = src.below(if sync { 3 } else { 5 });
    let hot = src.chance(1, 2);
    let absent = src.chance(1, 2);
    tr!("{n} lookups of one entry: sync={sync}, way {how}, a {} entry", if hot { "hot" } else { "cold" });
    let o = OptionsBuilder::new()
        .estimated_items_capacity(20)
        .weight_capacity(20)
        .shards(1)
        .hot_allocation(0.5)
        .build()
        .unwrap();
    let it = if hot { 3 } else { 12 };
    // (hits, misses) added, survived
    let (hits, misses, alive);
    #[cfg(feature = "stats")]
    macro_rules! stats {
        ($c:expr) => {
            ($c.hits(), $c.misses())
        };
    }
    #[cfg(not(feature = "stats"))]
    macro_rules! stats {
        ($c:expr) => {
            (0u64, 0u64)
        };
    }
    macro_rules! drive {
        ($c:ident, $get:expr) => {{
            for k in 0..15 {
                $c.insert(k, val(k));
            }
            let s = stats!($c);
            for _ in 0..n {
                if $get != Some(val(it)) {
                    fail(LOOKUP | LOSS | FUEL, "a lookup of a stored entry failed");
                }
            }
            let e = stats!($c);
            if absent {
                for k in 0..n as u32 {
                    let _ = $c.get(&(2000 + k));
                }
                let m = stats!($c);
                if cfg!(feature = "stats") && (m.0.wrapping_sub(e.0), m.1.wrapping_sub(e.1)) != (0, n) {
                    fail(STATS, &format!("{n} lookups of absent keys changed hits and misses from {e:?} to {m:?}"));
                }
            }
            (hits, misses) = (e.0.wrapping_sub(s.0), e.1.wrapping_sub(s.1));
            if hot {
                // promotions push out unused hot entries
                for k in 20..25 {
                    $c.insert(k, val(k));
                    let _ = $c.get(&k);
                }
            }
            for k in 1000..1100 {
                CALLS.set(0);
                $c.insert(k, val(k));
            }
            alive = $c.contains_key(&it);
        }};
    }
    if sync {
        let c: Cache<u32, u32, UnitWeighter, H32, Count> = Cache::with_options(o, UnitWeighter, H32(Hk::Good(1)), Count);
        drive!(
            c,
            match how {
                0 => c.get(&it),
                1 => c.get_or_insert_with(&it, || Err(())).ok(),
                _ => match c.get_value_or_guard(&it, Some(Duration::ZERO)) {
                    GuardResult::Value(v) => Some(v),
                    _ => None,
                },
            }
        );
    } else {
        let mut c: unsync::Cache<u32, u32, UnitWeighter, H32, Count> = unsync::Cache::with_options(o, UnitWeighter, H32(Hk::Good(1)), Count);
        drive!(
            c,
            match how {
                0 => c.get(&it).copied(),
                1 => c.get_mut(&it).map(|v| *v),
                2 => c.get_or_insert_with(&it, || Err(())).ok().flatten().copied(),
                3 => c.get_ref_or_guard(&it).ok().copied(),
                _ => c.get_mut_or_guard(&it).ok().flatten().map(|v| *v),
            }
        );
    }
    if cfg!(feature = "stats") && (hits, misses) != (n, 0) {
        fail(STATS, &format!("{n} lookups of a stored entry added {hits} hits and {misses} misses"));
    }
    if !alive {
        fail(POLICY, &format!("an entry looked up {n} times did not outlast entries that were never used"));
    }
    label("many lookups");
    true
}

struct Woken(AtomicU64);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

/// very many futures wait for one key
pub fn waiters(src: &mut Src) -> bool {
    let n = src.pick(&[300usize, 17, 33, 65, 129, 257, 1030]);
    let give_ups = src.below(4) as usize;
    let cancel = src.below(4) as usize;
    tr!("{n} futures wait for one key; {give_ups} loaders give up, {cancel} futures are dropped");
    let c: Cache<u32, u32, UnitWeighter, H32, DefaultLifecycle<u32, u32>> = Cache::with(10, 10, UnitWeighter, H32(Hk::Good(1)), Default::default());
    const CL: u32 = ASYNC | STRAND | FLIGHT;
    let GuardResult::Guard(mut g) = c.get_value_or_guard(&1, Some(Duration::ZERO)) else { fail(CL, "no guard in an empty cache") };
    type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
    let mut fs: Vec<(Fut<'_, _>, Arc<Woken>)> = (0..n)
        .map(|_| (Box::pin(c.get_value_or_guard_async(&1)) as Fut<'_, _>, Arc::new(Woken(AtomicU64::new(0)))))
        .collect();
    let poll = |f: &mut (Fut<'_, _>, Arc<Woken>)| f.0.as_mut().poll(&mut Context::from_waker(&Waker::from(f.1.clone())));
    for f in &mut fs {
        if poll(f).is_ready() {
            fail(CL, "a key that is being loaded was available");
        }
    }
    for _ in 0..cancel {
        let i = src.below(fs.len() as u32) as usize;
        drop(fs.swap_remove(i));
    }
    for _ in 0..give_ups {
        drop(g);
        let woken: Vec<usize> = (0..fs.len()).filter(|&i| fs[i].1 .0.load(SeqCst) != 0).collect();
        let mut right = None;
        for &i in &woken {
            match poll(&mut fs[i]) {
                Poll::Ready(Err(x)) if right.is_none() => right = Some((x, i)),
                Poll::Ready(_) => fail(CL, "after a loader gave up, a future got a value or there were two loading rights"),
                Poll::Pending => (),
            }
        }
        let Some((x, i)) = right else {
            fail(CL, &format!("a loader gave up, {} of {} futures were woken, none got the loading right", woken.len(), fs.len()))
        };
        g = x;
        drop(fs.swap_remove(i));
        for f in &fs {
            f.1 .0.store(0, SeqCst);
        }
        // the others still wait
        let j = src.below(fs.len() as u32) as usize;
        if poll(&mut fs[j]).is_ready() {
            fail(CL, "a future got an outcome although the key is being loaded");
        }
    }
    if g.insert(7).is_err() {
        fail(CL, "inserting through the guard failed");
    }
    let all = fs.len();
    for (i, f) in fs.iter_mut().enumerate() {
        if f.1 .0.load(SeqCst) == 0 {
            fail(CL, &format!("future {i} of {all} was not woken when the value was inserted"));
        }
        match poll(f) {
            Poll::Ready(Ok(7u32)) => (),
            Poll::Pending => fail(CL, &format!("future {i} of {all} is pending although the value was inserted")),
            _ => fail(CL, &format!("future {i} of {all} did not get the value")),
        }
    }
    label("hundreds of waiters");
    true
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Hv {
    id: u32,
    w: u64,
    pinned: bool,
}
#[derive(Clone)]
struct Hw;
impl Weighter<u32, Hv> for Hw {
    fn weight(&self, _: &u32, v: &Hv) -> u64 {
        v.w
    }
}
#[derive(Clone)]
struct Hl;
impl Lifecycle<u32, Hv> for Hl {
    type RequestState = Vec<(u32, Hv)>;
    fn begin_request(&self) -> Self::RequestState {
        vec![]
    }
    fn is_pinned(&self, _: &u32, v: &Hv) -> bool {
        v.pinned
    }
    fn on_evict(&self, s: &mut Self::RequestState, k: u32, v: Hv) {
        s.push((k, v));
    }
}

/// thousands of light entries and a few heavy ones that displace most of them at once
pub fn heavy(src: &mut Src) -> bool {
    const ALL: u32 = CAP | ACCT | NOTIFY | PIN | LOSS | LOOKUP;
    let cap = src.range(200, 6000) as u64;
    let sync = src.chance(1, 2);
    let hot = src.pick(&[0.97, 1.0, 0.5, 0.9]);
    let target = (cap as f64 * hot) as u64;
    let o = OptionsBuilder::new()
        .estimated_items_capacity(cap as usize)
        .weight_capacity(cap)
        .hot_allocation(hot)
        .ghost_allocation(src.pick(&[0.5, 0.0, 1.0]))
        .shards(1)
        .build()
        .unwrap();
    let hk = H32(Hk::Good(src.below(1000) as u64));
    let (special, reads) = (src.chance(1, 3), src.chance(1, 2));
    enum C {
        S(Cache<u32, Hv, Hw, H32, Hl>),
        U(unsync::Cache<u32, Hv, Hw, H32, Hl>),
    }
    let mut c = if sync { C::S(Cache::with_options(o, Hw, hk, Hl)) } else { C::U(unsync::Cache::with_options(o, Hw, hk, Hl)) };
    tr!("sync={sync} capacity={cap} hot={hot} special={special} reads={reads}");
    let mut rng = Rng::new(src.below(1 << 20) as u64);
    let mut model: std::collections::HashMap<u32, Hv> = Default::default();
    let mut total = 0u64;
    let (mut next, mut id) = (0u32, 0u32);
    let rounds = src.range(1, 4);
    let mut most = 0;
    for _ in 0..rounds {
        // fill with light entries, then one heavy operation, then a light one
        let fill = src.range(0, 6000).min(cap as u32 * 2);
        let how = src.below(6);
        let w = src.range(1, cap as u32 + 10) as u64;
        let pin = special && src.chance(1, 8);
        tr!("{fill} light entries, then way {how} with weight {w} pinned {pin}");
        for i in 0..fill + 2 {
            id += 1;
            let last = i >= fill;
            let (k, v, way) = if i == fill {
                let k = if src.chance(1, 2) || next == 0 { next += 1; next } else { 1 + src.below(next) };
                (k, Hv { id, w, pinned: pin }, how)
            } else {
                next += 1;
                let w = if special && rng.next() % 16 == 0 { 0 } else { 1 };
                (next, Hv { id, w, pinned: special && rng.next() % 32 == 0 }, 0)
            };
            if reads && next > 1 && rng.next() % 4 == 0 {
                let r = 1 + (rng.next() % (next as u64 - 1).max(1)) as u32;
                match &c {
                    C::S(c) => drop(c.get(&r)),
                    C::U(c) => drop(c.get(&r)),
                }
            }
            // 0 insert, 1 replace, 2 soft replace, 3 and 4 guards, 5 in place
            let mut grown = false;
            let out: Option<Vec<(u32, Hv)>> = match (&mut c, way) {
                (C::S(c), 0 | 5) => Some(c.insert_with_lifecycle(k, v)),
                (C::U(c), 0) => Some(c.insert_with_lifecycle(k, v)),
                (C::S(c), 1 | 2) => c.replace_with_lifecycle(k, v, way == 2).ok(),
                (C::U(c), 1 | 2) => c.replace_with_lifecycle(k, v, way == 2).ok(),
                (C::S(c), _) => match c.get_value_or_guard(&k, Some(Duration::ZERO)) {
                    GuardResult::Guard(g) => g.insert_with_lifecycle(v).ok(),
                    _ => None,
                },
                (C::U(c), 5) => {
                    if let Some(mut m) = c.get_mut(&k) {
                        m.w = v.w;
                        grown = true;
                    }
                    None
                }
                (C::U(c), _) => match c.get_ref_or_guard(&k) {
                    Err(g) => Some(g.insert_with_lifecycle(v)),
                    _ => None,
                },
            };
            if grown {
                let m = model.get_mut(&k).unwrap_or_else(|| fail(LOOKUP | MUT, &format!("k{k} was accessible although it is gone")));
                total = total - m.w + v.w;
                m.w = v.w;
                continue;
            }
            let over = total > cap;
            match out {
                Some(ev) => {
                    most = most.max(ev.len());
                    let old = model.insert(k, v);
                    total = total - old.map_or(0, |o| o.w) + v.w;
                    let mut overwritten = old;
                    for (ek, e) in ev {
                        if ek == k && overwritten == Some(e) {
                            overwritten = None;
                            continue;
                        }
                        if model.get(&ek) != Some(&e) {
                            fail(NOTIFY | ALL & !PIN, &format!("on_evict got k{ek} {e:?}, which is not stored"));
                        }
                        if e.pinned || e.w == 0 {
                            fail(PIN, &format!("k{ek} {e:?} was evicted"));
                        }
                        model.remove(&ek);
                        total -= e.w;
                    }
                    if overwritten.is_some() {
                        fail(NOTIFY, &format!("the overwritten value of k{k} was not reported"));
                    }
                    let refused = v.w > target && !v.pinned;
                    if refused && model.contains_key(&k) {
                        fail(NOTIFY | CAP, &format!("k{k} of weight {w} was admitted, the hot share is {target}"));
                    }
                    let kept = v.w == 0 || refused;
                    if total > cap && !(kept && over) && model.iter().any(|(x, e)| *x != k && e.w != 0 && !e.pinned) {
                        fail(CAP | PIN, &format!("the weight is {total} after an insertion of weight {} (way {way}), the capacity {cap}", v.w));
                    }
                }
                // a failed replacement removes a present key only if the value is refused
                None if way == 1 || way == 2 => {
                    if v.w > target && !v.pinned {
                        if let Some(o) = model.remove(&k) {
                            total -= o.w;
                        }
                    } else if model.contains_key(&k) {
                        fail(REPL | LOSS, &format!("replacing k{k} failed although it is stored"));
                    }
                }
                None => (),
            }
            if last || rng.next() % 64 == 0 {
                let (len, weight) = match &c {
                    C::S(c) => (c.len(), c.weight()),
                    C::U(c) => (c.len(), c.weight()),
                };
                if len != model.len() || weight != total {
                    fail(ALL & !PIN & !LOOKUP, &format!("len() is {len} and weight() {weight}, expected {} and {total}", model.len()));
                }
            }
        }
    }
    for k in 1..=next {
        let got = match &c {
            C::S(c) => c.peek(&k),
            C::U(c) => c.peek(&k).copied(),
        };
        if got != model.get(&k).copied() {
            fail(LOOKUP | LOSS | NOTIFY, &format!("k{k} yields {got:?}, expected {:?}", model.get(&k)));
        }
    }
    if most > 1000 {
        label("one insertion evicted over 1000 entries");
    }
    most > 50
}
