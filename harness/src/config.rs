//! C22: options are honoured.

use quick_cache::{DefaultHashBuilder, OptionsBuilder, UnitWeighter, Weighter};

use crate::report::*;
use crate::tape::Src;
use crate::tr;
use crate::types::{Hb, Hk, KqB};

#[derive(Clone)]
struct Two;
impl Weighter<u32, u32> for Two {
    fn weight(&self, _: &u32, _: &u32) -> u64 {
        2
    }
}

type Su<B> = quick_cache::sync::Cache<u32, u32, UnitWeighter, B, quick_cache::sync::DefaultLifecycle<u32, u32>>;
type Uu<B> = quick_cache::unsync::Cache<u32, u32, UnitWeighter, B, quick_cache::unsync::DefaultLifecycle<u32, u32>>;

#[derive(Clone)]
struct H32(Hk);
impl std::hash::BuildHasher for H32 {
    type Hasher = crate::types::Hs;
    fn build_hasher(&self) -> Self::Hasher {
        Hb(self.0).build_hasher()
    }
}

fn bad(msg: String) -> ! {
    fail(CONFIG, &msg)
}

fn rejects(f: impl FnOnce()) -> bool {
    ANY_PANIC.store(true, std::sync::atomic::Ordering::Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ANY_PANIC.store(false, std::sync::atomic::Ordering::Relaxed);
    r.is_err()
}

fn gen_cap(src: &mut Src) -> u64 {
    match src.weighted(&[3, 4, 3, 2, 1]) {
        0 => src.range(0, 8) as u64,
        1 => src.range(9, 300) as u64,
        2 => src.range(301, 3000) as u64,
        3 => 1u64 << src.range(1, 60),
        _ => (1u64 << src.range(10, 60)) + src.range(0, 5) as u64 - 2,
    }
}

/// the shard count, capacity per shard and total that the options ask for
fn want(shards: u64, est: u64, cap: u64) -> (u64, u64, u64) {
    let mut n = 1u64;
    while n < shards {
        n *= 2;
    }
    let ceil = |x: u64, n: u64| x / n + (x % n != 0) as u64;
    while n > 1 && ceil(est, n) < 32 {
        n /= 2;
    }
    (n, ceil(cap, n), ceil(cap, n) * n)
}

pub fn run(src: &mut Src) -> bool {
    let what = src.weighted(&[10, 3, 1, 2, 3]);
    match what {
        4 => allocations(src),
        0 => shards(src),
        1 => constructors(src),
        2 => rejected(src),
        _ => unsync_cap(src),
    }
}

fn shards(src: &mut Src) -> bool {
    let cap = gen_cap(src);
    let est = match src.weighted(&[24, 16, 24, 16, 1]) {
        4 => 32usize << src.range(8, 10),
        0 => cap.min(1 << 40) as usize,
        1 => src.range(0, 40) as usize,
        2 => src.range(41, 3000) as usize,
        _ => (32usize << src.range(0, 7)) + src.range(0, 2) as usize - 1,
    };
    let shards = match src.weighted(&[4, 3, 1]) {
        0 => src.range(1, 9) as usize,
        1 => src.range(10, 140) as usize,
        _ => src.range(141, 1100) as usize,
    };
    let hot = src.chance(1, 3).then(|| src.range(1, 100) as f64 / 100.0);
    let ghost = src.chance(1, 3).then(|| src.range(0, 100) as f64 / 100.0);
    tr!("shards={shards} estimated={est} capacity={cap} hot={hot:?} ghost={ghost:?}");
    let mut b = OptionsBuilder::new();
    // the order does not matter, and the last one of several calls counts
    if src.chance(1, 4) {
        let x = src.below(200);
        tr!("other options first, derived from {x}");
        b.shards(x as usize + 1).weight_capacity(x as u64).estimated_items_capacity(x as usize);
        if hot.is_some() {
            b.hot_allocation(x as f64 / 200.0);
        }
        if ghost.is_some() {
            b.ghost_allocation(x as f64 / 200.0);
        }
        if src.chance(1, 2) {
            let _ = b.build();
        }
        if src.chance(1, 2) {
            b = b.clone();
        }
    }
    let first = src.below(5);
    for i in 0..5 {
        match (first + i) % 5 {
            0 => drop(b.estimated_items_capacity(est)),
            1 => drop(b.weight_capacity(cap)),
            2 => drop(b.shards(shards)),
            3 => drop(hot.map(|h| b.hot_allocation(h).clone())),
            _ => drop(ghost.map(|g| b.ghost_allocation(g).clone())),
        }
    }
    let o = b.build().unwrap_or_else(|e| bad(format!("valid options were rejected: {e}")));
    let (wn, ws, wc) = want(shards as u64, est as u64, cap);
    let mode = src.weighted(&[3, 2, 1]);
    let small = wc <= 3000 && wn <= 1024;
    let check = |n: usize, sc: u64, c: u64| {
        if n as u64 != wn || sc != ws || c != wc {
            bad(format!(
                "{shards} shards, {est} estimated items, capacity {cap}: got {n} shards of capacity {sc}, total {c}; expected {wn} of {ws}, total {wc}"
            ));
        }
    };
    let seed = src.below(1 << 16) as u64;
    // how the cache is filled: with each way the whole capacity has to be used
    let guard = src.chance(1, 4);
    match mode {
        // fill it up with well hashed keys
        0 | 2 => {
            let t = (ws as f64 * hot.unwrap_or(0.97)) as u64;
            let c: Su<H32> = Su::with_options(o, UnitWeighter, H32(Hk::Good(seed)), Default::default());
            check(c.num_shards(), c.shard_capacity(), c.capacity());
            if !small || t == 0 || mode == 2 {
                return wn > 1;
            }
            let limit = 60 * wc + 3000;
            let mut i = 0u64;
            while (i % (1 + wn / 8) != 0 || (c.len() as u64) < wc) && i < limit {
                if guard {
                    let _ = c.get_or_insert_with(&(i as u32), || Ok::<_, ()>(0));
                } else {
                    c.insert(i as u32, 0);
                }
                i += 1;
                if i % (1 + wn / 8) == 0 && c.weight() > c.capacity() {
                    fail(CONFIG | CAP, &format!("weight() {} exceeds capacity() {}", c.weight(), c.capacity()));
                }
            }
            if c.len() as u64 != wc || c.weight() != wc {
                bad(format!("after inserting {i} distinct keys len() is {} and weight() {}, but capacity() is {wc} ({wn} shards)", c.len(), c.weight()));
            }
            for k in 0..50 {
                c.insert(1_000_000 + k, 0);
            }
            if c.len() as u64 != wc {
                bad(format!("a full cache of capacity {wc} has {} entries after more insertions", c.len()));
            }
            label("filled up");
            wn > 1
        }
        // colliding keys stay within one shard
        _ => {
            let cst = src.pick(&[0u64, u64::MAX, 0x0123_4567_89ab_cdef, 1 << 63, 0xffff]);
            let c: Su<H32> = Su::with_options(o, UnitWeighter, H32(Hk::Const(cst)), Default::default());
            check(c.num_shards(), c.shard_capacity(), c.capacity());
            let n = if ws <= 200 { ws + src.range(1, 60) as u64 } else { 30 };
            for i in 0..n {
                c.insert(i as u32, 0);
                if c.weight() > c.shard_capacity() {
                    bad(format!("colliding keys weigh {} in a cache with a shard capacity of {}", c.weight(), c.shard_capacity()));
                }
            }
            let t = (ws as f64 * hot.unwrap_or(0.97)) as u64;
            if t > 0 && c.len() as u64 != n.min(ws) {
                bad(format!("{n} colliding keys: len() is {}, but the shard capacity is {ws}", c.len()));
            }
            label("colliding keys");
            wn > 1
        }
    }
}

fn constructors(src: &mut Src) -> bool {
    let cap = gen_cap(src);
    let est = src.range(0, 500) as usize;
    tr!("default constructors, capacity {cap}, estimated {est}");
    let sync = |n: usize, sc: u64, c: u64, est: u64, cap: u64, what: &str| {
        let n = n as u64;
        let ceil = cap / n + (cap % n != 0) as u64;
        let small = |n: u64| est / n + ((est % n != 0) as u64) < 32;
        if !n.is_power_of_two() || n > 1 && small(n) || sc != ceil || c != ceil * n {
            bad(format!("{what} ({est} items, capacity {cap}): {n} shards of capacity {sc}, total {c}"));
        }
    };
    match src.below(6) {
        0 => {
            let n = cap.min(1 << 40);
            let c = quick_cache::sync::Cache::<u32, u32>::new(n as usize);
            sync(c.num_shards(), c.shard_capacity(), c.capacity(), n, n, "sync::Cache::new");
        }
        1 => {
            let c = quick_cache::sync::Cache::<u32, u32, Two>::with_weighter(est, cap, Two);
            sync(c.num_shards(), c.shard_capacity(), c.capacity(), est as u64, cap, "sync::Cache::with_weighter");
            let n = src.range(1, 40) as u64;
            if cap > 1000 * n {
                for i in 0..n {
                    c.insert(i as u32, 0);
                }
                if c.weight() != 2 * n || c.len() as u64 != n {
                    bad(format!("{n} items of weight 2 in a large cache: weight() is {}, len() {}", c.weight(), c.len()));
                }
            }
        }
        2 => {
            let c: Su<DefaultHashBuilder> = Su::with(est, cap, UnitWeighter, Default::default(), Default::default());
            sync(c.num_shards(), c.shard_capacity(), c.capacity(), est as u64, cap, "sync::Cache::with");
            // the default hasher spreads the keys well enough to use the whole capacity
            if cap <= 600 && (c.shard_capacity() as f64 * 0.97) as u64 > 0 {
                let mut i = 0;
                while (c.len() as u64) < c.capacity() && i < 60 * c.capacity() + 3000 {
                    c.insert(i as u32, 0);
                    i += 1;
                }
                if c.len() as u64 != c.capacity() {
                    bad(format!("after inserting {i} keys len() is {}, but capacity() is {}", c.len(), c.capacity()));
                }
            }
        }
        3 => {
            let n = cap.min(1 << 40);
            let c = quick_cache::unsync::Cache::<u32, u32>::new(n as usize);
            if c.capacity() != n {
                bad(format!("unsync::Cache::new({n}) has capacity {}", c.capacity()));
            }
        }
        4 => {
            let c = quick_cache::unsync::Cache::<u32, u32, Two>::with_weighter(est, cap, Two);
            if c.capacity() != cap {
                bad(format!("unsync with_weighter: capacity {} instead of {cap}", c.capacity()));
            }
        }
        _ => {
            let c: Uu<DefaultHashBuilder> = Uu::with(est, cap, UnitWeighter, Default::default(), Default::default());
            if c.capacity() != cap {
                bad(format!("unsync with: capacity {} instead of {cap}", c.capacity()));
            }
        }
    }
    label("constructors");
    true
}

fn unsync_cap(src: &mut Src) -> bool {
    let cap = gen_cap(src);
    let est = src.range(0, 3000) as usize;
    let shards = src.range(1, 200) as usize;
    let hot = src.range(1, 100) as f64 / 100.0;
    tr!("unsync capacity {cap} estimated {est} hot {hot} shards {shards}");
    let o = OptionsBuilder::new().estimated_items_capacity(est).weight_capacity(cap).hot_allocation(hot).shards(shards).build().unwrap();
    let mut c: Uu<H32> = Uu::with_options(o, UnitWeighter, H32(Hk::Good(1)), Default::default());
    if c.capacity() != cap {
        bad(format!("an unsync cache with a requested capacity of {cap} has {}", c.capacity()));
    }
    if (cap as f64 * hot) as u64 > 0 {
        let n = cap.min(1500) + src.range(0, 50) as u64;
        for i in 0..n {
            c.insert(i as u32, 0);
        }
        if c.len() as u64 != n.min(cap) {
            bad(format!("after inserting {n} keys len() is {}, but capacity() is {cap}", c.len()));
        }
    }
    let _ = KqB(0);
    label("unsync");
    true
}

/// the value is the weight
#[derive(Clone, Default)]
struct Own;
impl Weighter<u32, u64> for Own {
    fn weight(&self, _: &u32, v: &u64) -> u64 {
        *v
    }
}

/// hot_allocation and ghost_allocation, set or left out, in caches made in every way
fn allocations(src: &mut Src) -> bool {
    use quick_cache::{sync, unsync};
    let how = src.below(8);
    // few enough items for one shard
    let est = src.range(8, 60) as usize;
    let cap = src.range(40, 400) as u64;
    let set = how < 2;
    let hot = (set && src.chance(1, 2)).then(|| src.range(10, 98) as f64 / 100.0);
    let ghost = (set && src.chance(1, 2)).then(|| src.range(10, 100) as f64 / 100.0);
    let mut b = OptionsBuilder::new();
    b.estimated_items_capacity(est).weight_capacity(cap).shards(1);
    hot.map(|x| b.hot_allocation(x).clone());
    ghost.map(|x| b.ghost_allocation(x).clone());
    let o = b.build().unwrap_or_else(|e| bad(format!("valid options were rejected: {e}")));
    // of unit weight if so
    type U<B> = unsync::Cache<u32, u64, Own, B>;
    type S<B> = sync::Cache<u32, u64, Own, B>;
    type D = DefaultHashBuilder;
    enum A {
        U(U<D>),
        S(S<D>),
        Un(unsync::Cache<u32, u64>),
        Sn(sync::Cache<u32, u64>),
    }
    let mut c = match how {
        0 => A::U(U::with_options(o, Own, D::default(), Default::default())),
        1 => A::S(S::with_options(o, Own, D::default(), Default::default())),
        2 => A::U(U::with_weighter(est, cap, Own)),
        3 => A::S(S::with_weighter(est, cap, Own)),
        4 => A::U(U::with(est, cap, Own, D::default(), Default::default())),
        5 => A::S(S::with(est, cap, Own, D::default(), Default::default())),
        6 => A::Un(unsync::Cache::new(est)),
        _ => A::Sn(sync::Cache::new(est)),
    };
    let unit = how >= 6;
    let cap = if unit { est as u64 } else { cap };
    let (h, g) = (hot.unwrap_or(0.97), ghost.unwrap_or(0.5));
    let way = ["unsync with_options", "sync with_options", "unsync with_weighter", "sync with_weighter", "unsync with", "sync with", "unsync new", "sync new"][how as usize];
    tr!("{way}: estimated {est} capacity {cap} hot {hot:?} ghost {ghost:?}");
    let mut ins = |k: u32, w: u64| match &mut c {
        A::U(c) => {
            c.insert(k, w);
            c.contains_key(&k)
        }
        A::S(c) => {
            c.insert(k, w);
            c.contains_key(&k)
        }
        A::Un(c) => {
            c.insert(k, w);
            c.contains_key(&k)
        }
        A::Sn(c) => {
            c.insert(k, w);
            c.contains_key(&k)
        }
    };
    // tolerant of rounding
    let (lo, hi) = ((cap as f64 * h - 1e-6).floor() as u64, (cap as f64 * h + 1e-6).floor() as u64);
    if !unit && src.chance(1, 2) {
        if !ins(1, lo) {
            bad(format!("{way}: an item of weight {lo} was refused by a cache of capacity {cap} with a hot allocation of {h}"));
        }
        if ins(2, hi + 1) {
            bad(format!("{way}: an item of weight {} was admitted by a cache of capacity {cap} with a hot allocation of {h}", hi + 1));
        }
        label("heaviest item");
        return true;
    }
    let remembered = (est as f64 * g - 1e-6).floor() as u64;
    if lo != hi || cap < lo + 2 || remembered == 0 || lo == 0 {
        return false;
    }
    // the hot share, then so many that the oldest cold one is the last to be remembered
    for k in 0..(cap + remembered) as u32 {
        ins(k, 1);
    }
    let k = lo as u32;
    ins(k, 1);
    for i in 0..(2 * cap + 10) as u32 {
        ins(10_000 + i, 1);
    }
    let has = |k: u32| match &c {
        A::U(c) => c.contains_key(&k),
        A::S(c) => c.contains_key(&k),
        A::Un(c) => c.contains_key(&k),
        A::Sn(c) => c.contains_key(&k),
    };
    if !has(k) {
        bad(format!("{way}: a key that came back after {remembered} evictions was not remembered (estimated {est} items, ghost allocation {g})"));
    }
    if let Some(k) = (1..lo as u32).find(|k| !has(*k)) {
        bad(format!("{way}: k{k} of a working set within the hot share {lo} did not survive (capacity {cap}, hot allocation {h})"));
    }
    label("remembered keys");
    true
}

fn rejected(src: &mut Src) -> bool {
    let cap = gen_cap(src);
    let est = src.range(0, 500) as usize;
    match src.below(6) {
        0 => {
            if OptionsBuilder::new().estimated_items_capacity(est).build().is_ok() {
                bad("options without weight_capacity were accepted".into());
            }
        }
        1 => {
            if OptionsBuilder::new().weight_capacity(cap).build().is_ok() {
                bad("options without estimated_items_capacity were accepted".into());
            }
        }
        2 => {
            if OptionsBuilder::new().shards(4).hot_allocation(0.5).build().is_ok() {
                bad("options without any capacity were accepted".into());
            }
        }
        3 | 4 => {
            let x = match src.below(6) {
                0 => -0.01,
                1 => 1.01,
                2 => f64::NAN,
                3 => f64::INFINITY,
                4 => f64::NEG_INFINITY,
                _ => 1.0 + src.range(1, 1000) as f64 / 10.0,
            };
            let hot = src.chance(1, 2);
            tr!("{} allocation {x}", if hot { "hot" } else { "ghost" });
            let ok = !rejects(|| {
                let mut b = OptionsBuilder::new();
                b.estimated_items_capacity(est).weight_capacity(cap);
                if hot {
                    b.hot_allocation(x);
                } else {
                    b.ghost_allocation(x);
                }
                if b.build().is_err() {
                    std::panic::panic_any(Injected);
                }
            });
            if ok {
                bad(format!("an out of range {} allocation of {x} was accepted", if hot { "hot" } else { "ghost" }));
            }
        }
        _ => {
            // the boundaries are accepted
            let x = src.pick(&[0.0, 1.0]);
            let y = src.pick(&[0.0, 1.0]);
            tr!("boundary allocations {x} {y}");
            if rejects(|| {
                let o = OptionsBuilder::new().estimated_items_capacity(est).weight_capacity(cap).hot_allocation(x).ghost_allocation(y).build();
                if o.is_err() {
                    std::panic::panic_any(Injected);
                }
            }) {
                bad(format!("allocations of {x} and {y} were rejected"));
            }
        }
    }
    label("rejections");
    true
}
