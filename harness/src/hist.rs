//! Differential and metamorphic testing: the same generated history is run on several caches and
//! what can be observed (results, evictions and their order, contents, weight) has to be equal.
//!
//! C11: with and without neutral operations in between
//! C13: unsync cache, sync cache with one shard, other (not colliding) hash functions
//! C14: a cache and its clones

use std::future::Future;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use quick_cache::sync::GuardResult;

use crate::report::*;
use crate::seq::{gen_ghost, gen_hot, hot_target, Cfg};
use crate::tape::Src;
use crate::tr;
use crate::types::*;

#[derive(Clone, Debug)]
pub struct Val {
    vid: u32,
    w: u64,
    pinned: bool,
    be: Be,
}
impl Val {
    fn mk(&self, k: u32) -> V {
        V::new(k, self.vid, self.w, self.pinned, self.be)
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Get(u32),
    Peek(u32),
    Contains(u32),
    Insert(u32, Val, bool),
    Replace(u32, Val, bool, bool),
    Remove(u32),
    /// modulus, offset, by value
    Retain(u32, u32, bool),
    Clear,
    /// 0 ok, 1 error; async in the sync variant
    Goi(u32, Val, u8, bool),
    /// 0 insert, 1 insert_with_lifecycle, 2 drop; async in the sync variant
    Guard(u32, Val, u8, bool),
    Pin(u32),
    // not available in the sync variant
    GetMut(u32, Option<Val>),
    PeekMut(u32, Option<Val>),
    Gmoi(u32, Val, u8, Option<Val>),
    MutGuard(u32, Val, u8),
    Drain(u32),
    Reserve(u32),
    // neutral additions
    NSoft(u32),
    NPeekMut(u32),
    NQuery,
    NClone,
}

/// what an operation lets the caller see
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    res: Res,
    evs: Vec<(bool, u32, u32, u64)>,
    len: usize,
    weight: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Unit,
    Bool(bool),
    Val(Option<(u32, u64)>),
    Back(Option<(u32, u32)>),
    Goi(Option<u32>, bool),
    Many(Vec<(u32, u32)>),
}

pub enum C<'a> {
    U(&'a mut UCache),
    S(&'a SCache),
}

fn evs() -> Vec<(bool, u32, u32, u64)> {
    take_log()
        .into_iter()
        .filter_map(|e| match e {
            Ev::Before { key, vid, w, .. } => Some((false, key, vid, w)),
            Ev::Evict { key, vid, w, .. } => Some((true, key, vid, w)),
            _ => None,
        })
        .collect()
}

fn poll_once<F: Future>(f: std::pin::Pin<&mut F>) -> Option<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    match f.poll(&mut cx) {
        Poll::Ready(r) => Some(r),
        Poll::Pending => None,
    }
}

fn ov(v: Option<&V>) -> Res {
    Res::Val(v.map(|v| (v.vid, weight_of(v))))
}

impl C<'_> {
    fn len(&self) -> usize {
        match self {
            C::U(c) => c.len(),
            C::S(c) => c.len(),
        }
    }
    fn weight(&self) -> u64 {
        match self {
            C::U(c) => c.weight(),
            C::S(c) => c.weight(),
        }
    }
    fn peek(&self, k: u32) -> Option<V> {
        match self {
            C::U(c) => c.peek(&KqB(k)).cloned(),
            C::S(c) => c.peek(&KqB(k)),
        }
    }
    fn contents(&self, n: u32) -> Vec<(u32, u32, u64)> {
        (0..n).filter_map(|k| self.peek(k).map(|v| (k, v.vid, weight_of(&v)))).collect()
    }

    /// runs one operation; class: what a failure to answer at all violates
    pub fn exec(&mut self, op: &Op, class: u32, lim: (u64, u64)) -> Rec {
        take_log();
        let res = self.exec_(op, class, lim);
        Rec { res, evs: evs(), len: self.len(), weight: self.weight() }
    }

    fn exec_(&mut self, op: &Op, class: u32, lim: (u64, u64)) -> Res {
        match (self, op) {
            (C::U(c), Op::Get(k)) => ov(c.get(&KqB(*k))),
            (C::S(c), Op::Get(k)) => ov(c.get(&KqB(*k)).as_ref()),
            (C::U(c), Op::Peek(k)) => ov(c.peek(&KqB(*k))),
            (C::S(c), Op::Peek(k)) => ov(c.peek(&KqB(*k)).as_ref()),
            (C::U(c), Op::Contains(k)) => Res::Bool(c.contains_key(&KqB(*k))),
            (C::S(c), Op::Contains(k)) => Res::Bool(c.contains_key(&KqB(*k))),
            (C::U(c), Op::Insert(k, v, wl)) => {
                if *wl {
                    drop(c.insert_with_lifecycle(K::new(*k), v.mk(*k)))
                } else {
                    c.insert(K::new(*k), v.mk(*k))
                }
                Res::Unit
            }
            (C::S(c), Op::Insert(k, v, wl)) => {
                if *wl {
                    drop(c.insert_with_lifecycle(K::new(*k), v.mk(*k)))
                } else {
                    c.insert(K::new(*k), v.mk(*k))
                }
                Res::Unit
            }
            (C::U(c), Op::Replace(k, v, soft, wl)) => {
                let (key, v) = (K::new(*k), v.mk(*k));
                let r = if *wl { c.replace_with_lifecycle(key, v, *soft).map(drop) } else { c.replace(key, v, *soft) };
                Res::Back(r.err().map(|(k, v)| (k.id(), v.vid)))
            }
            (C::S(c), Op::Replace(k, v, soft, wl)) => {
                let (key, v) = (K::new(*k), v.mk(*k));
                let r = if *wl { c.replace_with_lifecycle(key, v, *soft).map(drop) } else { c.replace(key, v, *soft) };
                Res::Back(r.err().map(|(k, v)| (k.id(), v.vid)))
            }
            (C::U(c), Op::Remove(k)) => Res::Back(c.remove(&KqB(*k)).map(|(k, v)| (k.id(), v.vid))),
            (C::S(c), Op::Remove(k)) => Res::Back(c.remove(&KqB(*k)).map(|(k, v)| (k.id(), v.vid))),
            (c, Op::Retain(a, b, by_val)) => {
                let (a, b, by_val) = (*a, *b, *by_val);
                let f = move |k: &K, v: &V| {
                    let x = if by_val { v.vid & !BE_BIT } else { k.id() };
                    (x.wrapping_mul(7) + b) % (a + 1) != 0
                };
                match c {
                    C::U(c) => c.retain(f),
                    C::S(c) => c.retain(f),
                }
                Res::Unit
            }
            (C::U(c), Op::Clear) => {
                c.clear();
                Res::Unit
            }
            (C::S(c), Op::Clear) => {
                c.clear();
                Res::Unit
            }
            // the sync variant returns the loaded value even if it was refused, so the result of a
            // load is compared through the contents; a hit, the error and the call are compared
            (C::U(c), Op::Goi(k, v, how, mutable)) => {
                let mut called = false;
                let with = || {
                    called = true;
                    if *how == 0 {
                        Ok(v.mk(*k))
                    } else {
                        Err(7u8)
                    }
                };
                let r = if *mutable {
                    c.get_mut_or_insert_with(&KqB(*k), with).map(|o| o.map(|v| v.vid))
                } else {
                    c.get_or_insert_with(&KqB(*k), with).map(|o| o.map(|v| v.vid))
                };
                Res::Goi(if called { None } else { r.ok().flatten() }, called)
            }
            (C::S(c), Op::Goi(k, v, how, is_async)) => {
                let called = std::cell::Cell::new(false);
                let with = || {
                    called.set(true);
                    if *how == 0 {
                        Ok(v.mk(*k))
                    } else {
                        Err(7u8)
                    }
                };
                let q = KqB(*k);
                let r = if *is_async {
                    let f = c.get_or_insert_async(&q, async { with() });
                    match poll_once(std::pin::pin!(f)) {
                        Some(r) => r,
                        None => fail(class, "get_or_insert_async is pending although nobody is loading the key"),
                    }
                } else {
                    c.get_or_insert_with(&KqB(*k), with)
                };
                let r = r.map(|v| Some(v.vid));
                Res::Goi(if called.get() { None } else { r.ok().flatten() }, called.get())
            }
            (C::U(c), Op::Guard(k, v, how, mutable)) => {
                let r = if *mutable {
                    c.get_mut_or_guard(&KqB(*k)).map(|o| o.map_or(Res::Val(None), |v| ov(Some(&v))))
                } else {
                    c.get_ref_or_guard(&KqB(*k)).map(|v| ov(Some(v)))
                };
                let g = match r {
                    Ok(r) => return r,
                    Err(g) => g,
                };
                {
                    match how {
                        0 => g.insert(v.mk(*k)),
                        1 => drop(g.insert_with_lifecycle(v.mk(*k))),
                        _ => drop(g),
                    }
                    Res::Val(None)
                }
            }
            (C::S(c), Op::Guard(k, v, how, is_async)) => {
                let q = KqB(*k);
                let r = if *is_async {
                    let f = c.get_value_or_guard_async(&q);
                    match poll_once(std::pin::pin!(f)) {
                        Some(Ok(v)) => GuardResult::Value(v),
                        Some(Err(g)) => GuardResult::Guard(g),
                        None => GuardResult::Timeout,
                    }
                } else {
                    c.get_value_or_guard(&q, Some(Duration::ZERO))
                };
                match r {
                    GuardResult::Value(v) => ov(Some(&v)),
                    GuardResult::Guard(g) => {
                        match how {
                            0 => {
                                let _ = g.insert(v.mk(*k));
                            }
                            1 => drop(g.insert_with_lifecycle(v.mk(*k))),
                            _ => drop(g),
                        }
                        Res::Val(None)
                    }
                    GuardResult::Timeout => fail(class, "Timeout although nobody is loading the key"),
                }
            }
            (_, Op::Pin(k)) => {
                CTX.with(|c| {
                    let mut p = c.ext_pins.borrow_mut();
                    if !p.remove(k) {
                        p.insert(*k);
                    }
                });
                Res::Unit
            }
            (C::U(c), Op::GetMut(k, nv) | Op::PeekMut(k, nv)) => {
                let r = if matches!(op, Op::GetMut(..)) { c.get_mut(&KqB(*k)) } else { c.peek_mut(&KqB(*k)) };
                match r {
                    Some(mut r) => {
                        let g = (r.vid, weight_of(&r));
                        if let Some(n) = nv {
                            r.vid = n.vid;
                            r.w = n.w;
                        }
                        Res::Val(Some(g))
                    }
                    None => Res::Val(None),
                }
            }
            (C::U(c), Op::Gmoi(k, v, how, nv)) => {
                let mut called = false;
                let r = c.get_mut_or_insert_with(&KqB(*k), || {
                    called = true;
                    if *how == 0 {
                        Ok(v.mk(*k))
                    } else {
                        Err(7u8)
                    }
                });
                let r = r.map(|o| {
                    o.map(|mut r| {
                        let g = r.vid;
                        if let Some(n) = nv {
                            r.vid = n.vid;
                            r.w = n.w;
                        }
                        g
                    })
                });
                Res::Goi(r.ok().flatten(), called)
            }
            (C::U(c), Op::MutGuard(k, v, how)) => match c.get_mut_or_guard(&KqB(*k)) {
                Ok(o) => Res::Val(o.map(|v| (v.vid, weight_of(&v)))),
                Err(g) => {
                    match how {
                        0 => g.insert(v.mk(*k)),
                        1 => drop(g.insert_with_lifecycle(v.mk(*k))),
                        _ => drop(g),
                    }
                    Res::Val(None)
                }
            },
            (C::U(c), Op::Drain(n)) => {
                let mut got: Vec<_> = if *n == 0 {
                    c.drain().map(|(k, v)| (k.id(), v.vid)).collect()
                } else {
                    drop(c.drain());
                    vec![]
                };
                got.sort();
                Res::Many(got)
            }
            (C::U(c), Op::Reserve(n)) => {
                c.reserve(*n as usize);
                Res::Unit
            }
            (C::S(c), Op::Reserve(n)) => {
                c.reserve(*n as usize);
                Res::Unit
            }
            // ---- neutral ----
            (c, Op::NSoft(k)) => {
                // a value of equal weight (and pin) that can be admitted, while the cache is within its
                // capacity
                if c.weight() <= lim.0 {
                    if let Some(v) = c.peek(*k).filter(|v| weight_of(v) <= lim.1 || is_pinned(*k, v)) {
                        let r = match c {
                            C::U(c) => c.replace(K::new(*k), v, true),
                            C::S(c) => c.replace(K::new(*k), v, true),
                        };
                        if r.is_err() {
                            fail(class | REPL, &format!("soft replace of the stored key k{k} by a value of equal weight failed"));
                        }
                    }
                }
                Res::Unit
            }
            (C::U(c), Op::NPeekMut(k)) => {
                if let Some(mut r) = c.peek_mut(&KqB(*k)) {
                    let vid = r.vid;
                    r.vid = vid;
                }
                Res::Unit
            }
            (c, Op::NQuery) => {
                match c {
                    C::U(c) => {
                        let _ = (c.len(), c.weight(), c.capacity(), c.is_empty(), c.iter().count());
                        let _ = format!("{c:?}");
                    }
                    C::S(c) => {
                        let _ = (c.len(), c.weight(), c.capacity(), c.is_empty(), c.shard_capacity(), c.num_shards());
                        let _ = format!("{c:?}");
                    }
                }
                Res::Unit
            }
            (C::U(c), Op::NClone) => {
                drop(UCache::clone(c));
                Res::Unit
            }
            // not available
            _ => Res::Unit,
        }
    }
}

pub struct Gen {
    pub t: u64,
    pub universe: u32,
    pub unit: bool,
    pub pins: bool,
    pub zeros: bool,
    pub be: bool,
    pub unsync_only: bool,
    /// may mutations make the cache overweight
    pub growth: bool,
    recent: Vec<u32>,
    used: std::collections::BTreeSet<u32>,
    top: u32,
}

impl Gen {
    fn key(&mut self, src: &mut Src) -> u32 {
        let k = if !self.recent.is_empty() && src.chance(5, 10) {
            let n = self.recent.len();
            self.recent[n - 1 - src.below(n.min(8) as u32) as usize]
        } else {
            src.below(self.universe)
        };
        if self.recent.len() >= 32 {
            self.recent.remove(0);
        }
        self.recent.push(k);
        self.used.insert(k);
        k
    }
    fn val(&mut self, src: &mut Src) -> Val {
        let w = if self.unit {
            1
        } else {
            match src.weighted(&[8, 4, 3, if self.zeros { 3 } else { 0 }, 2]) {
                0 => 1,
                1 => 1 + src.below(3) as u64,
                2 => 1 + src.below(self.t.clamp(1, 1 << 20) as u32) as u64,
                3 => 0,
                _ => (self.t + src.below(3) as u64).saturating_sub(1),
            }
        };
        let pinned = self.pins && src.chance(1, 5);
        let be = if self.be && !self.unit {
            match src.weighted(&[4, 2]) {
                0 => Be::Keep,
                _ => Be::Zero,
            }
        } else {
            Be::Keep
        };
        Val { vid: new_vid(), w, pinned, be }
    }
    fn mval(&mut self, src: &mut Src) -> Option<Val> {
        if self.growth && src.chance(2, 3) {
            Some(self.val(src))
        } else {
            None
        }
    }
    pub fn op(&mut self, src: &mut Src) -> Op {
        let u = if self.unsync_only { 1 } else { 0 };
        match src.weighted(&[
            14,
            2,
            1,
            26,
            6,
            4,
            1,
            1,
            6,
            5,
            if self.pins { 1 } else { 0 },
            4 * u,
            2 * u,
            2 * u,
            2 * u,
            u,
            1,
            4,
        ]) {
            0 => Op::Get(self.key(src)),
            1 => Op::Peek(self.key(src)),
            2 => Op::Contains(self.key(src)),
            3 => Op::Insert(self.key(src), self.val(src), src.chance(1, 6)),
            4 => Op::Replace(self.key(src), self.val(src), src.chance(1, 2), src.chance(1, 6)),
            5 => Op::Remove(self.key(src)),
            6 => Op::Retain(src.range(2, 7), src.below(4), src.chance(1, 2)),
            7 => {
                if src.chance(1, 2) {
                    Op::Clear
                } else {
                    Op::Get(self.key(src))
                }
            }
            8 => Op::Goi(self.key(src), self.val(src), src.chance(1, 4) as u8, src.chance(1, 3)),
            9 => Op::Guard(self.key(src), self.val(src), src.below(3) as u8, src.chance(1, 3)),
            10 => Op::Pin(self.key(src)),
            11 => Op::GetMut(self.key(src), self.mval(src)),
            12 => Op::PeekMut(self.key(src), self.mval(src)),
            13 => Op::Gmoi(self.key(src), self.val(src), src.chance(1, 4) as u8, self.mval(src)),
            14 => Op::MutGuard(self.key(src), self.val(src), src.below(3) as u8),
            15 => Op::Drain(src.below(2)),
            16 => Op::Reserve(src.pick(&[0u32, 1, 9, 100, 1, 9, 100, 3000])),
            _ => {
                // a fresh key: a step of a scan
                self.top += 1;
                Op::Insert(self.top - 1, self.val(src), false)
            }
        }
    }
    fn neutral(&mut self, src: &mut Src, sync: bool) -> Op {
        let u = !sync as u32;
        match src.weighted(&[4, 2, 2, 1, 4, 3 * u, u]) {
            0 => Op::Peek(self.key(src)),
            1 => Op::Contains(self.key(src)),
            2 => Op::NQuery,
            3 => Op::Reserve(src.pick(&[0u32, 1, 9, 100, 1, 9, 100, 3000])),
            4 => Op::NSoft(self.key(src)),
            5 => Op::NPeekMut(self.key(src)),
            _ => Op::NClone,
        }
    }
}

fn gen_setup(src: &mut Src) -> (Cfg, Gen) {
    let cap = match src.weighted(&[6, 4, 1]) {
        0 => src.range(2, 12) as u64,
        1 => src.range(13, 40) as u64,
        _ => src.range(41, 150) as u64,
    };
    let hot = gen_hot(src);
    let ghost = gen_ghost(src);
    let est = match src.weighted(&[4, 2, 1]) {
        0 => cap as usize,
        1 => src.range(1, 20) as usize,
        _ => src.range(20, 80) as usize,
    };
    let hk = good(src);
    let unit = src.chance(1, 2);
    let universe = (cap as u32 + cap as u32 / 2 + 2).min(160);
    let t = hot_target(cap, hot);
    let cfg = Cfg {
        sync: false,
        cap,
        hot,
        ghost,
        est,
        shards: 1,
        hk,
        unit,
        universe,
        pins: false,
        zeros: false,
        be: false,
        sparse: false,
        probe: false,
    };
    CTX.with(|c| c.unit.set(unit));
    let g = Gen {
        t,
        universe,
        unit,
        pins: src.chance(1, 5),
        zeros: src.chance(1, 4),
        be: src.chance(1, 6),
        unsync_only: false,
        growth: false,
        recent: vec![], used: Default::default(),
        top: 100_000,
    };
    (cfg, g)
}

fn good(src: &mut Src) -> Hk {
    match src.weighted(&[5, 1, 1]) {
        0 => Hk::Good(src.below(1 << 16) as u64),
        1 => Hk::Identity,
        _ => Hk::Shifted,
    }
}

fn plan(src: &mut Src) -> u32 {
    match src.plan(0, 5) {
        0 => src.plan(5, 25),
        5 => src.plan(100, 300),
        _ => src.plan(25, 100),
    }
}

fn fuel() {
    set_fuel(4_000_000);
}

fn diff(a: &Rec, b: &Rec) -> Option<String> {
    if a == b {
        return None;
    }
    let mut s = String::new();
    if a.res != b.res {
        s += &format!("result {:?} vs {:?}; ", a.res, b.res);
    }
    if a.evs != b.evs {
        s += &format!("evictions {:?} vs {:?}; ", a.evs, b.evs);
    }
    if a.len != b.len {
        s += &format!("len {} vs {}; ", a.len, b.len);
    }
    if a.weight != b.weight {
        s += &format!("weight {} vs {}; ", a.weight, b.weight);
    }
    Some(s)
}

struct PinState(std::collections::BTreeSet<u32>);
impl PinState {
    fn save() -> Self {
        PinState(CTX.with(|c| c.ext_pins.borrow().clone()))
    }
    fn restore(&self) {
        CTX.with(|c| *c.ext_pins.borrow_mut() = self.0.clone());
    }
}

/// C11: two caches in lockstep, one of which gets neutral operations in between
pub fn neutral(src: &mut Src) -> bool {
    reset_ctx();
    fuel();
    let (cfg, mut g) = gen_setup(src);
    let sync = src.chance(1, 3);
    g.unsync_only = !sync && src.chance(1, 2);
    // a before_evict hook that changes weights may be called for a refused soft replace only
    let lim = (cfg.cap, g.t);
    tr!("config {cfg:?} sync={sync}");
    let mut ua = cfg.unsync();
    let mut ub = cfg.unsync();
    let sa = cfg.sync();
    let sb = cfg.sync();
    let plan = plan(src);
    let mut done = 0;
    let (mut neutrals, mut evictions) = (0u32, 0usize);
    while src.more(done, plan) {
        done += 1;
        let mut a = if sync { C::S(&sa) } else { C::U(&mut ua) };
        let mut b = if sync { C::S(&sb) } else { C::U(&mut ub) };
        for _ in 0..src.weighted(&[4, 3, 1, 1]) {
            let n = g.neutral(src, sync);
            tr!("  (neutral) {n:?}");
            fuel();
            b.exec(&n, NEUTRAL, lim);
            if a.len() != b.len() || a.weight() != b.weight() {
                fail(NEUTRAL | ACCT, &format!("{n:?} changed len() or weight()"));
            }
            neutrals += 1;
        }
        let op = g.op(src);
        tr!("{op:?}");
        fuel();
        let pins = PinState::save();
        let ra = a.exec(&op, NEUTRAL, lim);
        pins.restore();
        let rb = b.exec(&op, NEUTRAL, lim);
        evictions += ra.evs.iter().filter(|e| e.0).count();
        tr!("    -> {:?} {:?}", ra.res, ra.evs);
        if let Some(d) = diff(&ra, &rb) {
            fail(NEUTRAL, &format!("neutral operations changed the outcome of {op:?}: {d}[without vs with]"));
        }
    }
    let a = if sync { C::S(&sa) } else { C::U(&mut ua) };
    let b = if sync { C::S(&sb) } else { C::U(&mut ub) };
    if a.contents(g.universe) != b.contents(g.universe) {
        fail(NEUTRAL, "neutral operations changed the contents");
    }
    label(if sync { "cache:sync" } else { "cache:unsync" });
    label_n("evictions", evictions as u64);
    label_n("neutral operations", neutrals as u64);
    neutrals > 0 && evictions > 0
}

/// C13: the same history on both variants and under several hash functions
pub fn same(src: &mut Src) -> bool {
    reset_ctx();
    fuel();
    let (cfg, mut g) = gen_setup(src);
    let mut cfg_s = cfg.clone();
    if src.chance(1, 2) {
        // more shards than the estimated items justify: still a single shard
        cfg_s.shards = src.pick(&[1usize, 2, 8]);
        if cfg_s.est >= 32 {
            cfg_s.shards = 1;
        }
    }
    let mut cfg_h = cfg.clone();
    cfg_h.hk = good(src);
    let mut cfg_g = cfg_s.clone();
    cfg_g.hk = good(src);
    // the unsync cache alone, under different hash functions
    g.unsync_only = src.chance(1, 3);
    g.growth = g.unsync_only && src.chance(1, 2);
    let lim = (cfg.cap, g.t);
    tr!("config {cfg:?}, shards {}, other hashers {:?} {:?}", cfg_s.shards, cfg_h.hk, cfg_g.hk);
    let mut u = cfg.unsync();
    let mut uh = cfg_h.unsync();
    let s = cfg_s.sync();
    let sh = cfg_g.sync();
    if s.num_shards() != 1 {
        return false;
    }
    let plan = plan(src);
    let mut done = 0;
    let mut evictions = 0usize;
    while src.more(done, plan) {
        done += 1;
        let op = g.op(src);
        tr!("{op:?}");
        fuel();
        let pins = PinState::save();
        let ru = C::U(&mut u).exec(&op, SAME, lim);
        evictions += ru.evs.iter().filter(|e| e.0).count();
        tr!("    -> {:?} {:?}", ru.res, ru.evs);
        let mut others: Vec<(&str, Rec)> = vec![];
        pins.restore();
        others.push(("another hasher", C::U(&mut uh).exec(&op, SAME, lim)));
        if !g.unsync_only {
            pins.restore();
            others.push(("the sync cache", C::S(&s).exec(&op, SAME, lim)));
            pins.restore();
            others.push(("the sync cache with another hasher", C::S(&sh).exec(&op, SAME, lim)));
        }
        for (name, r) in others {
            if let Some(d) = diff(&ru, &r) {
                fail(SAME, &format!("the unsync cache and {name} differ at {op:?}: {d}"));
            }
        }
    }
    let cu = C::U(&mut u).contents(g.universe);
    if cu != C::U(&mut uh).contents(g.universe)
        || !g.unsync_only && (cu != C::S(&s).contents(g.universe) || cu != C::S(&sh).contents(g.universe))
    {
        fail(SAME, "the contents differ");
    }
    label_n("evictions", evictions as u64);
    label(if g.unsync_only { "hashers only" } else { "both variants" });
    evictions > 0
}

/// C14: clones
pub fn clones(src: &mut Src) -> bool {
    reset_ctx();
    fuel();
    let (mut cfg, mut g) = gen_setup(src);
    // colliding hash functions are fine here
    if src.chance(1, 4) {
        cfg.hk = src.pick(&[Hk::Const(0), Hk::Const(u64::MAX), Hk::Few(2), Hk::Few(4)]);
    }
    g.unsync_only = true;
    g.growth = src.chance(1, 2);
    let lim = (cfg.cap, g.t);
    tr!("config {cfg:?}");
    let mut a = cfg.unsync();
    let mut cap = 0;
    let mut evictions = 0usize;
    let mut rounds = 0;
    let plan0 = plan(src);
    let rounds_plan = src.plan(1, 3);
    let mut done = 0;
    let mut left = plan0;
    while src.more(done, plan0) {
        done += 1;
        left = left.saturating_sub(1);
        // 0: an operation on the original; 1: a clone experiment
        let exp = rounds < rounds_plan && src.chance(1, 1 + plan0.min(60) / 3);
        if !exp {
            let op = g.op(src);
            tr!("{op:?}");
            fuel();
            let r = C::U(&mut a).exec(&op, CLONE, lim);
            evictions += r.evs.iter().filter(|e| e.0).count();
            continue;
        }
        rounds += 1;
        let (k0, v0) = (live_keys(), live_vals());
        let mut b = a.clone();
        tr!("  b = clone of a: len {}, weight {}", b.len(), b.weight());
        let mut uses_c = None;
        if src.chance(1, 2) {
            uses_c = Some(b.clone());
            tr!("  c = clone of b");
        }
        if !take_log().iter().all(|e| matches!(e, Ev::Drop(_))) {
            fail(CLONE, "cloning called lifecycle hooks");
        }
        let same = |x: &mut UCache, y: &mut UCache, what: &str, n: u32| {
            if x.len() != y.len() || x.weight() != y.weight() || x.capacity() != y.capacity() || x.is_empty() != y.is_empty() {
                fail(CLONE, &format!("{what} differ in len, weight or capacity: {} {} {} vs {} {} {}", x.len(), x.weight(), x.capacity(), y.len(), y.weight(), y.capacity()));
            }
            #[cfg(feature = "stats")]
            if x.hits() != y.hits() || x.misses() != y.misses() {
                fail(CLONE, &format!("{what} differ in their statistics"));
            }
            let (cx, cy) = (C::U(x).contents(n), C::U(y).contents(n));
            if cx != cy {
                fail(CLONE, &format!("{what} differ in contents: {cx:?} vs {cy:?}"));
            }
            let it = |c: &UCache| {
                let mut v: Vec<_> = c.iter().map(|(k, v)| (k.id(), v.vid)).collect();
                v.sort();
                v
            };
            if it(x) != it(y) {
                fail(CLONE, &format!("{what} differ in iteration"));
            }
        };
        same(&mut a, &mut b, "a cache and its clone", g.universe);
        // independence: operations on b (and c) must not affect a
        let diverge = src.chance(1, 2);
        if diverge {
            // keep an untouched clone as a witness of what a should do
            let mut w = a.clone();
            let pins = PinState::save();
            for _ in 0..src.range(1, 15) {
                let op = g.op(src);
                tr!("  b: {op:?}");
                fuel();
                C::U(&mut b).exec(&op, CLONE, lim);
            }
            pins.restore();
            same(&mut a, &mut w, "after operations on another clone, a cache and its clone", g.universe);
            drop(b);
            b = w;
        }
        for _ in 0..src.range(3, 40) {
            let op = g.op(src);
            tr!("  a and b: {op:?}");
            fuel();
            let pins = PinState::save();
            let ra = C::U(&mut a).exec(&op, CLONE, lim);
            pins.restore();
            let rb = C::U(&mut b).exec(&op, CLONE, lim);
            evictions += ra.evs.iter().filter(|e| e.0).count();
            cap += ra.evs.len();
            if let Some(d) = diff(&ra, &rb) {
                fail(CLONE, &format!("a cache and its clone differ at {op:?}: {d}"));
            }
            if let Some(c) = uses_c.as_mut() {
                pins.restore();
                let rc = C::U(c).exec(&op, CLONE, lim);
                if let Some(d) = diff(&ra, &rc) {
                    fail(CLONE, &format!("a cache and a clone of its clone differ at {op:?}: {d}"));
                }
            }
        }
        same(&mut a, &mut b, "after the same operations, a cache and its clone", g.universe);
        let n = a.len() as i64;
        if src.chance(1, 3) {
            // the clone survives the original
            std::mem::swap(&mut a, &mut b);
        }
        drop(b);
        drop(uses_c);
        if a.len() as i64 != n {
            fail(CLONE, "dropping a clone changed the other cache");
        }
        let _ = (k0, v0);
        if live_keys() != n || live_vals() != n {
            fail(CLONE | RES, &format!("{} keys and {} values are alive after dropping the clones of a cache with {n} entries", live_keys(), live_vals()));
        }
        take_log();
    }
    drop(a);
    if live_keys() != 0 || live_vals() != 0 {
        fail(CLONE | RES, "keys or values are left after dropping all caches");
    }
    label_n("evictions", evictions as u64);
    label_n("clone experiments", rounds as u64);
    rounds > 0 && cap > 0
}

/// C09: a cache that was cleared or drained goes on like a new one
pub fn cleared(src: &mut Src) -> bool {
    reset_ctx();
    fuel();
    let (mut cfg, mut g) = gen_setup(src);
    let sync = src.chance(1, 2);
    if sync && src.chance(1, 3) {
        cfg.shards = src.pick(&[2usize, 4]);
        cfg.est = cfg.est.max(32 * cfg.shards);
    }
    g.unsync_only = !sync;
    g.growth = !sync && src.chance(1, 3);
    let lim = (cfg.cap, g.t);
    tr!("config {cfg:?} sync={sync}");
    let mut ua = cfg.unsync();
    let mut ub = cfg.unsync();
    let (sa, sb) = (cfg.sync(), cfg.sync());
    let n0 = plan(src);
    let mut held = vec![];
    let (mut before, mut after) = (0usize, 0usize);
    let mut done = 0;
    while src.more(done, n0) {
        done += 1;
        let op = g.op(src);
        tr!("a: {op:?}");
        fuel();
        let mut a = if sync { C::S(&sa) } else { C::U(&mut ua) };
        let r = a.exec(&op, REMOVE, lim);
        before += r.evs.iter().filter(|e| e.0).count();
        if sync && held.len() < 3 && src.chance(1, 24) {
            // a reservation that is still there when the cache is cleared
            let k = 300_000 + held.len() as u32;
            if let GuardResult::Guard(guard) = sa.get_value_or_guard(&KqB(k), Some(Duration::ZERO)) {
                held.push((k, guard));
                tr!("a: reserve k{k}");
            }
        }
    }
    let how = src.below(4);
    let stored = if sync { sa.len() } else { ua.len() };
    if sync {
        tr!("a: clear()");
        sa.clear();
    } else {
        tr!("a: {}", ["clear()", "drain(), dropped at once", "drain(), one taken", "drain(), all taken"][how as usize]);
        match how {
            0 => ua.clear(),
            1 => drop(ua.drain()),
            2 => drop(ua.drain().next()),
            _ => drop(ua.drain().count()),
        }
    }
    take_log();
    // what is in use now: only the keys reserved
    if live_vals() != 0 || live_keys() > held.len() as i64 {
        fail(REMOVE | RES, &format!("{} keys and {} values are alive in a cleared cache", live_keys(), live_vals()));
    }
    let plan = plan(src);
    let mut done = 0;
    while src.more(done, plan) {
        done += 1;
        if !held.is_empty() && src.chance(1, 6) {
            let (k, guard) = held.swap_remove(0);
            tr!("a: the displaced reservation of k{k} is given up");
            if src.chance(1, 2) {
                let v = V::new(k, new_vid(), 1, false, Be::Keep);
                if guard.insert(v).is_ok() {
                    fail(REMOVE | GUARD, "inserting through a guard from before clear() succeeded");
                }
            } else {
                drop(guard);
            }
        }
        let op = g.op(src);
        tr!("{op:?}");
        fuel();
        let mut a = if sync { C::S(&sa) } else { C::U(&mut ua) };
        let mut b = if sync { C::S(&sb) } else { C::U(&mut ub) };
        let pins = PinState::save();
        let ra = a.exec(&op, REMOVE, lim);
        pins.restore();
        let rb = b.exec(&op, REMOVE, lim);
        after += ra.evs.iter().filter(|e| e.0).count();
        tr!("    -> {:?} {:?}", ra.res, ra.evs);
        if let Some(d) = diff(&ra, &rb) {
            fail(REMOVE, &format!("a cleared cache and a new one differ at {op:?}: {d}"));
        }
    }
    drop(held);
    let a = if sync { C::S(&sa) } else { C::U(&mut ua) };
    let b = if sync { C::S(&sb) } else { C::U(&mut ub) };
    if a.contents(g.universe) != b.contents(g.universe) {
        fail(REMOVE, "a cleared cache and a new one differ in contents after the same operations");
    }
    label("a cleared cache against a new one");
    label_n("evictions", after as u64);
    stored > 0 && before + after > 0
}

/// C09, C10, C15: operations that promise to leave everything as it was, on keys that were never
/// seen before, are added to a history on one of two caches
pub fn noop(prop: &str, src: &mut Src) -> bool {
    let class = match prop {
        "C09" => REMOVE,
        "C10" => REPL,
        _ => GUARD,
    };
    reset_ctx();
    fuel();
    let (cfg, mut g) = gen_setup(src);
    let sync = src.chance(1, 2);
    g.unsync_only = !sync;
    g.growth = !sync && src.chance(1, 4);
    let lim = (cfg.cap, g.t);
    tr!("config {cfg:?} sync={sync}");
    let mut ua = cfg.unsync();
    let mut ub = cfg.unsync();
    let (sa, sb) = (cfg.sync(), cfg.sync());
    let plan = plan(src);
    let (mut done, mut extra, mut evictions) = (0, 0u64, 0usize);
    let mut next = 200_000;
    let mut held = vec![];
    while src.more(done, plan) {
        done += 1;
        for _ in 0..src.weighted(&[4, 3, 1, 1]) {
            fuel();
            extra += 1;
            // a key that is not used otherwise, or not yet
            let mut k = next;
            next += 1;
            if src.chance(1, 3) {
                let x = src.below(g.universe);
                if !g.used.contains(&x) {
                    k = x;
                }
            }
            let v = g.val(src);
            let q = KqB(k);
            let mk = || v.mk(k);
            match class {
                REMOVE => match src.weighted(&[2, 2, 4]) {
                    0 => {
                        tr!("  b: remove(k{k}), never stored");
                        if C::exec(&mut if sync { C::S(&sb) } else { C::U(&mut ub) }, &Op::Remove(k), class, lim).res != Res::Back(None) {
                            fail(class, "remove of a key that was never stored returned something");
                        }
                    }
                    1 => {
                        tr!("  b: retain everything");
                        if sync {
                            sb.retain(|_, _| true)
                        } else {
                            ub.retain(|_, _| true)
                        }
                    }
                    _ => {
                        let mut b = if sync { C::S(&sb) } else { C::U(&mut ub) };
                        if b.weight().saturating_add(weight_of(&mk())) <= cfg.cap && v.be == Be::Keep {
                            tr!("  b: insert(k{k}, {v:?}), which fits, and removal");
                            b.exec(&Op::Insert(k, v.clone(), false), class, lim);
                            if src.chance(2, 3) {
                                b.exec(&Op::Remove(k), class, lim);
                            } else {
                                match b {
                                    C::U(c) => c.retain(|x, _| x.id() != k),
                                    C::S(c) => c.retain(|x, _| x.id() != k),
                                }
                            }
                        }
                    }
                },
                REPL => {
                    tr!("  b: replace(k{k}, {v:?}), never stored");
                    let (key, soft) = (K::new(k), src.chance(1, 2));
                    let tag = key.inst_id();
                    let r = if sync { sb.replace(key, mk(), soft) } else { ub.replace(key, mk(), soft) };
                    match r {
                        Err((k2, v2)) if k2.inst_id() == tag && v2.vid & !BE_BIT == v.vid => (),
                        Err(_) => fail(class, "replace of an absent key returned another key or value"),
                        Ok(()) => fail(class, "replace of a key that was never stored succeeded"),
                    }
                }
                _ if sync => {
                    let mut how = src.below(6);
                    if how == 4 && k < 200_000 {
                        how = 0;
                    }
                    tr!(
                        "  b: k{k}: {}",
                        [
                            "guard dropped",
                            "future's guard dropped",
                            "failing loader",
                            "guard displaced by remove",
                            "guard held for a while",
                            "panicking loader",
                        ][how as usize]
                    );
                    match how {
                        1 => {
                            let f = sb.get_value_or_guard_async(&q);
                            drop(poll_once(std::pin::pin!(f)));
                        }
                        2 => drop(sb.get_or_insert_with(&q, || Err(1u8))),
                        5 => {
                            let r = expecting_panic(|| {
                                let _ = sb.get_or_insert_with(&q, || -> Result<V, u8> { std::panic::panic_any(Injected) });
                            });
                            if r.is_ok() {
                                fail(class, "a loader's panic was swallowed");
                            }
                        }
                        _ => match sb.get_value_or_guard(&q, Some(Duration::ZERO)) {
                            GuardResult::Guard(guard) => match how {
                                3 => {
                                    sb.remove(&q);
                                    match guard.insert(mk()) {
                                        Err(v2) if v2.vid == v.vid => (),
                                        _ => fail(class, "inserting through a displaced guard did not return the value"),
                                    }
                                }
                                4 => held.push((k, guard)),
                                _ => drop(guard),
                            },
                            _ => fail(class, "no guard for a key that was never seen"),
                        },
                    }
                }
                _ => {
                    let how = src.below(4);
                    tr!("  b: k{k}: {}", ["ref guard dropped", "mut guard dropped", "failing loader", "failing loader (mut)"][how as usize]);
                    match how {
                        0 => drop(ub.get_ref_or_guard(&q)),
                        1 => drop(ub.get_mut_or_guard(&q)),
                        2 => drop(ub.get_or_insert_with(&q, || Err(1u8))),
                        _ => drop(ub.get_mut_or_insert_with(&q, || Err(1u8))),
                    }
                }
            }
            let mut b = if sync { C::S(&sb) } else { C::U(&mut ub) };
            if b.peek(k).is_some() || b.exec(&Op::Contains(k), class, lim).res != Res::Bool(false) {
                fail(class, &format!("k{k} is present although it was never (or no longer) stored"));
            }
        }
        if !held.is_empty() && src.chance(1, 4) {
            let (k, guard) = held.swap_remove(0);
            tr!("  b: the guard of k{k} is dropped");
            drop(guard);
        }
        let op = g.op(src);
        tr!("{op:?}");
        fuel();
        let mut a = if sync { C::S(&sa) } else { C::U(&mut ua) };
        let mut b = if sync { C::S(&sb) } else { C::U(&mut ub) };
        let pins = PinState::save();
        let ra = a.exec(&op, class, lim);
        pins.restore();
        let rb = b.exec(&op, class, lim);
        evictions += ra.evs.iter().filter(|e| e.0).count();
        tr!("    -> {:?} {:?}", ra.res, ra.evs);
        if let Some(d) = diff(&ra, &rb) {
            fail(class, &format!("operations that should leave everything as it was changed the outcome of {op:?}: {d}[without vs with]"));
        }
    }
    drop(held);
    let a = if sync { C::S(&sa) } else { C::U(&mut ua) };
    let b = if sync { C::S(&sb) } else { C::U(&mut ub) };
    if a.contents(g.universe) != b.contents(g.universe) {
        fail(class, "operations that should leave everything as it was changed the contents");
    }
    label("with additional operations that change nothing");
    label_n("evictions", evictions as u64);
    extra > 0 && evictions > 0
}
