//! Model-based testing of sequential histories, against both cache variants.
//!
//! The model is a plain map plus the set of reservations (guards). The cache decides what to
//! evict; the model learns it from the lifecycle callbacks and judges whether it was legitimate,
//! and after the operation the cache has to agree with the model.

use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use quick_cache::sync::GuardResult;
use quick_cache::OptionsBuilder;

use crate::report::*;
use crate::tape::Src;
use crate::tr;
use crate::types::*;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub sync: bool,
    pub cap: u64,
    pub hot: f64,
    pub ghost: f64,
    pub est: usize,
    pub shards: usize,
    pub hk: Hk,
    pub unit: bool,
    pub universe: u32,
    pub pins: bool,
    pub zeros: bool,
    pub be: bool,
    pub sparse: bool,
    pub probe: bool,
}

impl Cfg {
    pub fn options(&self) -> quick_cache::Options {
        let mut b = OptionsBuilder::new();
        b.estimated_items_capacity(self.est).weight_capacity(self.cap).shards(self.shards);
        // the documented defaults need not be set
        if self.hot != 0.97 || self.est % 2 == 0 {
            b.hot_allocation(self.hot);
        }
        if self.ghost != 0.5 || self.est % 3 == 0 {
            b.ghost_allocation(self.ghost);
        }
        b.build().unwrap()
    }
    pub fn unsync(&self) -> UCache {
        UCache::with_options(self.options(), We, Hb(self.hk), Lc)
    }
    pub fn sync(&self) -> SCache {
        SCache::with_options(self.options(), We, Hb(self.hk), Lc)
    }
}

pub fn gen_hk(src: &mut Src) -> Hk {
    match src.weighted(&[8, 2, 3, 2, 1, 1]) {
        0 => Hk::Good(src.below(1 << 16) as u64),
        1 => Hk::Identity,
        2 => Hk::Const(src.pick(&[0u64, u64::MAX, 0x1234_5678_9abc_def0])),
        3 => Hk::Few(src.range(2, 5) as u64),
        4 => Hk::Tags,
        _ => Hk::Shifted,
    }
}

pub fn gen_hot(src: &mut Src) -> f64 {
    match src.weighted(&[6, 3, 2, 1, 1, 3]) {
        0 => 0.97,
        1 => 0.5,
        2 => 0.8,
        3 => 1.0,
        4 => 0.0,
        _ => src.range(1, 99) as f64 / 100.0,
    }
}

pub fn gen_ghost(src: &mut Src) -> f64 {
    match src.weighted(&[5, 2, 2, 2]) {
        0 => 0.5,
        1 => 1.0,
        2 => 0.0,
        _ => src.range(1, 99) as f64 / 100.0,
    }
}

#[derive(Clone, Debug)]
pub struct Ent {
    pub vid: u32,
    pub w: u64,
    pub pinned: bool,
    pub be: Be,
    pub mutated: bool,
}

pub enum Any {
    U(Box<UCache>),
    S(&'static SCache),
}

struct G {
    uid: u32,
    key: u32,
    g: SGuard,
}

/// weights of the operations
#[derive(Clone)]
pub struct Prof {
    pub w: [u32; NOPS],
    pub sync_pct: u32,
    pub extremes: u32,
    pub max_ops: u32,
}
pub const NOPS: usize = 26;
pub const O_GET: usize = 0;
pub const O_PEEK: usize = 1;
pub const O_CONTAINS: usize = 2;
pub const O_INSERT: usize = 3;
pub const O_INSERT_WL: usize = 4;
pub const O_REPLACE: usize = 5;
pub const O_REPLACE_WL: usize = 6;
pub const O_GETMUT: usize = 7;
pub const O_PEEKMUT: usize = 8;
pub const O_REMOVE: usize = 9;
pub const O_RETAIN: usize = 10;
pub const O_CLEAR: usize = 11;
pub const O_DRAIN: usize = 12;
pub const O_ITER: usize = 13;
pub const O_GOI: usize = 14;
pub const O_GMOI: usize = 15;
pub const O_REFGUARD: usize = 16;
pub const O_MUTGUARD: usize = 17;
pub const O_RESERVE: usize = 18;
pub const O_CLONE: usize = 19;
pub const O_GINSERT: usize = 20;
pub const O_GDROP: usize = 21;
pub const O_ASYNC: usize = 22;
pub const O_PIN: usize = 23;
pub const O_BURST: usize = 24;
pub const O_GOI_ASYNC: usize = 25;

pub fn base_prof() -> Prof {
    let mut w = [0; NOPS];
    w[O_GET] = 10;
    w[O_PEEK] = 3;
    w[O_CONTAINS] = 2;
    w[O_INSERT] = 24;
    w[O_INSERT_WL] = 3;
    w[O_REPLACE] = 5;
    w[O_REPLACE_WL] = 2;
    w[O_GETMUT] = 5;
    w[O_PEEKMUT] = 4;
    w[O_REMOVE] = 6;
    w[O_RETAIN] = 2;
    w[O_CLEAR] = 1;
    w[O_DRAIN] = 1;
    w[O_ITER] = 1;
    w[O_GOI] = 5;
    w[O_GMOI] = 3;
    w[O_REFGUARD] = 6;
    w[O_MUTGUARD] = 3;
    w[O_RESERVE] = 1;
    w[O_CLONE] = 1;
    w[O_GINSERT] = 4;
    w[O_GDROP] = 2;
    w[O_ASYNC] = 2;
    w[O_PIN] = 1;
    w[O_BURST] = 3;
    w[O_GOI_ASYNC] = 2;
    Prof { w, sync_pct: 50, extremes: 8, max_ops: 90 }
}

pub struct S {
    pub cfg: Cfg,
    pub c: Any,
    pub m: BTreeMap<u32, Ent>,
    total: u64,
    pending: BTreeMap<u32, u32>,
    guards: Vec<G>,
    next_uid: u32,
    pub t: u64,
    shard_cap: u64,
    /// all keys live in one shard, so that its weight is known
    exact: bool,
    maxkey: u32,
    recent: Vec<u32>,
    // expected statistics
    sum: u64,
    hits_lo: u64,
    hits_hi: u64,
    h_mut: bool,
    h_rem: bool,
    h_guard: bool,
    op_name: String,
    /// the model may disagree with the cache
    dirty: std::cell::Cell<bool>,
    pub evictions: u64,
    pub refused: u64,
    pub removed: u64,
    pub mutations: u64,
    pub guard_ops: u64,
    pub zeroed: u64,
    pub hits: u64,
    pub replaced: u64,
    pub pin_pressure: u64,
    pub stale: u64,
    pub drops: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Insert,
    Replace,
    Guard,
    Stale,
}

pub fn gen_cfg(src: &mut Src, p: &Prof) -> Cfg {
    let sync = src.chance(p.sync_pct, 100);
    let hot = gen_hot(src);
    let ghost = gen_ghost(src);
    let hk = gen_hk(src);
    let mut shards = 1;
    let size = src.weighted(&[20, 6, 2, 1, if p.extremes > 0 { p.extremes.min(8) } else { 0 }]);
    let cap: u64 = match size {
        0 => src.range(2, 14) as u64,
        1 => src.range(15, 60) as u64,
        2 => src.range(61, 300) as u64,
        3 => src.range(301, 1200) as u64,
        _ => match src.below(5) {
            0 => 0,
            1 => 1,
            2 => (1 << 53) + src.range(1, 9) as u64,
            3 => (1 << 61) + src.range(0, 9) as u64,
            _ => (1 << 40) + src.range(0, 9) as u64,
        },
    };
    let mut est = match src.weighted(&[6, 2, 1, 1, 2]) {
        0 => cap.min(2000) as usize,
        1 => src.range(1, 8) as usize,
        2 => 0,
        3 => src.range(1, 3) as usize,
        _ => src.range(9, 200) as usize,
    };
    if sync && src.chance(1, 4) {
        shards = if src.chance(1, 5) { src.pick(&[16usize, 32, 64, 128]) } else { src.pick(&[2usize, 4, 8, 3]) };
        if src.chance(3, 4) {
            est = est.max(32 * shards.next_power_of_two());
        }
    }
    let unit = src.chance(1, 4);
    let pins = !unit && src.chance(1, 3) || unit && src.chance(1, 6);
    let zeros = !unit && src.chance(1, 3);
    let be = src.chance(1, 4);
    let items = cap.min(1200).max(4) as u32;
    let universe = match src.weighted(&[4, 4, 1]) {
        0 => (items + items / 2 + 2).min(24),
        1 => (items * 2 + 2).min(64),
        _ => (items * 3).min(3600),
    };
    let sparse = size == 2 || size == 3 || src.chance(1, 5);
    let probe = src.chance(1, 2);
    Cfg { sync, cap, hot, ghost, est, shards, hk, unit, universe, pins, zeros, be, sparse, probe }
}

pub fn hot_target(cap: u64, hot: f64) -> u64 {
    ((cap as f64 * hot) as u64).min(cap)
}

fn poll_once<F: Future>(f: std::pin::Pin<&mut F>) -> Poll<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    f.poll(&mut cx)
}

impl S {
    pub fn new(cfg: Cfg) -> Self {
        CTX.with(|c| c.unit.set(cfg.unit));
        let (c, shard_cap, nshards) = if cfg.sync {
            let c: &'static SCache = Box::leak(Box::new(cfg.sync()));
            let (sc, n) = (c.shard_capacity(), c.num_shards());
            (Any::S(c), sc, n)
        } else {
            (Any::U(Box::new(cfg.unsync())), cfg.cap, 1)
        };
        let exact = nshards == 1 || matches!(cfg.hk, Hk::Const(_));
        label(if cfg.sync { "cache:sync" } else { "cache:unsync" });
        if nshards > 1 {
            label("cache:multi-shard");
        }
        if cfg.hk.collides() {
            label("hasher:colliding");
        }
        S {
            t: hot_target(shard_cap, cfg.hot),
            shard_cap,
            exact,
            maxkey: cfg.universe,
            cfg,
            c,
            m: BTreeMap::new(),
            total: 0,
            pending: BTreeMap::new(),
            guards: Vec::new(),
            next_uid: 1,
            recent: Vec::new(),
            sum: 0,
            hits_lo: 0,
            hits_hi: 0,
            h_mut: false,
            h_rem: false,
            h_guard: false,
            op_name: String::new(),
            dirty: std::cell::Cell::new(false),
            evictions: 0,
            refused: 0,
            removed: 0,
            mutations: 0,
            guard_ops: 0,
            zeroed: 0,
            hits: 0,
            replaced: 0,
            pin_pressure: 0,
            stale: 0,
            drops: 0,
        }
    }

    /// a violation; if only of other properties, the case goes on and the model follows the cache
    fn bad(&self, mut cls: u32, msg: &str) {
        if self.h_mut && cls & (CAP | ACCT | PIN | LOSS | LOOKUP) != 0 {
            cls |= MUT;
        }
        if self.h_rem && cls & (CAP | ACCT | LOSS | LOOKUP | RES) != 0 {
            cls |= REMOVE;
        }
        if self.h_guard && cls & (ACCT | LOSS | LOOKUP | RES) != 0 {
            cls |= GUARD;
        }
        self.dirty.set(true);
        if own(cls) {
            fail(cls, &format!("{} [after {}; config {:?}]", msg, self.op_name, self.cfg))
        }
        soft(cls, msg);
    }

    pub fn len(&self) -> usize {
        match &self.c {
            Any::U(c) => c.len(),
            Any::S(c) => c.len(),
        }
    }
    pub fn weight(&self) -> u64 {
        match &self.c {
            Any::U(c) => c.weight(),
            Any::S(c) => c.weight(),
        }
    }
    fn is_empty(&self) -> bool {
        match &self.c {
            Any::U(c) => c.is_empty(),
            Any::S(c) => c.is_empty(),
        }
    }
    pub fn capacity(&self) -> u64 {
        match &self.c {
            Any::U(c) => c.capacity(),
            Any::S(c) => c.capacity(),
        }
    }
    pub fn peek(&self, k: u32) -> Option<(u32, u64, u32)> {
        match &self.c {
            Any::U(c) => c.peek(&KqB(k)).map(|v| (v.vid, weight_of(v), v.key)),
            Any::S(c) => c.peek(&KqB(k)).map(|v| (v.vid, weight_of(&v), v.key)),
        }
    }
    fn ent_pinned(&self, k: u32, e: &Ent) -> bool {
        e.pinned || CTX.with(|c| c.ext_pins.borrow().contains(&k))
    }
    fn m_insert(&mut self, k: u32, e: Ent) {
        self.total += e.w;
        if let Some(o) = self.m.insert(k, e) {
            self.total -= o.w;
        }
    }
    fn m_remove(&mut self, k: u32) -> Option<Ent> {
        let o = self.m.remove(&k)?;
        self.total -= o.w;
        Some(o)
    }

    // ---- generators ----

    fn gen_key(&mut self, src: &mut Src) -> u32 {
        let u = self.cfg.universe.max(1);
        let k = match src.weighted(&[6, if self.recent.is_empty() { 0 } else { 5 }, if self.m.is_empty() { 0 } else { 3 }]) {
            0 => src.below(u),
            1 => {
                let n = self.recent.len();
                self.recent[n - 1 - src.below(n.min(8) as u32) as usize]
            }
            _ => {
                let n = self.m.len() as u32;
                let i = src.below(n.min(4096)) as usize;
                *self.m.keys().nth(i).unwrap()
            }
        };
        if self.recent.len() >= 32 {
            self.recent.remove(0);
        }
        self.recent.push(k);
        k
    }

    fn gen_w(&mut self, src: &mut Src) -> u64 {
        if self.cfg.unit {
            return 1;
        }
        let (t, cap) = (self.t, self.shard_cap);
        let w = match src.weighted(&[8, 4, 3, if self.cfg.zeros { 3 } else { 0 }, 3, 2, 1]) {
            0 => 1,
            1 => 1 + src.below(3) as u64,
            2 => {
                let lim = t.clamp(1, 1 << 20) as u32;
                1 + src.below(lim) as u64
            }
            3 => 0,
            // how hot_allocation x capacity is rounded is only relied upon for sane capacities
            4 if cap > 1 << 50 => [t.saturating_sub(cap >> 40), t + (cap >> 40)][src.below(2) as usize],
            5 if cap > 1 << 50 => cap + 1 + src.below(3) as u64,
            4 => (t + src.below(3) as u64).saturating_sub(1),
            5 => (cap + src.below(3) as u64).saturating_sub(1),
            _ => (cap / 2 + src.below(3) as u64).saturating_sub(1),
        };
        // the sum of all weights must not overflow
        if self.total.saturating_add(w) > 1 << 62 {
            1
        } else {
            w
        }
    }

    fn gen_ent(&mut self, src: &mut Src) -> Ent {
        let w = self.gen_w(src);
        let pinned = self.cfg.pins && src.chance(1, 4);
        let be = if self.cfg.be {
            match src.weighted(&[4, 3, 2]) {
                0 => Be::Keep,
                1 if !self.cfg.unit => Be::Zero,
                2 if !self.cfg.unit => Be::To(self.gen_w(src)),
                _ => Be::Keep,
            }
        } else {
            Be::Keep
        };
        Ent { vid: new_vid(), w, pinned, be, mutated: false }
    }

    fn mkv(&self, k: u32, e: &Ent) -> V {
        V::new(k, e.vid, if self.cfg.unit { 1 } else { e.w }, e.pinned, e.be)
    }

    fn hit(&mut self) {
        self.hits += 1;
        self.sum += 1;
        self.hits_lo += 1;
        self.hits_hi += 1;
    }
    fn miss(&mut self) {
        self.sum += 1;
    }
    fn either(&mut self) {
        self.sum += 1;
        self.hits_hi += 1;
    }

    fn refuel(&self) {
        let n = (self.m.len() + self.guards.len() + 4) as i64;
        set_fuel(20_000 + 64 * n * n);
    }

    // ---- oracle for insertions ----

    #[allow(clippy::too_many_arguments)]
    fn absorb(&mut self, kind: Kind, k: u32, mut new: Ent, ok: bool, back: Option<(u32, u32, u64)>, wl: Option<u32>, is_wl: bool) {
        let evs = take_log();
        let ctx = match kind {
            Kind::Insert => 0,
            Kind::Replace => REPL,
            Kind::Guard | Kind::Stale => GUARD,
        };
        if tracing() {
            tr!("    -> ok={ok} back={back:?} events={evs:?}");
        }
        // hook protocol
        let mut req = None;
        let mut ends = 0;
        let mut drops = 0;
        let mut body: Vec<&Ev> = Vec::new();
        for (i, e) in evs.iter().enumerate() {
            match e {
                Ev::Begin(r) => {
                    if req.is_some() || i != 0 {
                        self.bad(HOOK | ctx, "begin_request is not called exactly once, before any other hook");
                    }
                    req = Some(*r);
                }
                Ev::End(r) => {
                    ends += 1;
                    if Some(*r) != req {
                        self.bad(HOOK | ctx, "end_request got the state of another request");
                    }
                }
                Ev::Drop(r) => {
                    drops += 1;
                    if Some(*r) != req {
                        self.bad(HOOK | ctx, "the state of another request was dropped");
                    }
                }
                Ev::Before { req: r, .. } | Ev::Evict { req: r, .. } => {
                    if Some(*r) != req {
                        self.bad(HOOK | ctx, "a hook was called with a state that is not this request's");
                    }
                    if ends > 0 {
                        self.bad(HOOK | ctx, "a hook was called after end_request");
                    }
                    body.push(e);
                }
            }
        }
        match req {
            None if kind != Kind::Stale => self.bad(HOOK | ctx, "begin_request was not called"),
            Some(_) if drops != 1 => self.bad(HOOK | RES | ctx, "the request state was not released exactly once"),
            _ => (),
        }
        if is_wl && ok && wl != req {
            self.bad(HOOK | ctx, "the _with_lifecycle method returned another request's state");
        }
        let want_end = (ok && !is_wl) as u32;
        if ends != want_end {
            self.bad(HOOK | ctx, &format!("end_request was called {ends} times, expected {want_end} (ok={ok}, with_lifecycle={is_wl})"));
        }

        if kind == Kind::Stale {
            self.stale += 1;
            if ok {
                self.bad(GUARD, "inserting through a displaced guard reported success");
            }
            if !body.is_empty() {
                self.bad(GUARD | NOTIFY | HOOK, "inserting through a displaced guard called eviction hooks");
            }
            if back.map(|b| b.1) != Some(new.vid) {
                self.bad(GUARD, "a displaced guard did not hand back the value");
            }
            return;
        }

        let mut it = body.into_iter().peekable();
        let pinned = self.ent_pinned(k, &new);
        let resident = self.m.contains_key(&k);
        // too heavy to be admitted: before_evict is asked first
        let heavy = new.w > self.t && !pinned;
        let mut refused = false;
        if heavy {
            match it.next() {
                Some(Ev::Before { key, vid, w, w_after, vid_after, .. }) if *key == k && *vid == new.vid => {
                    if *w != new.w {
                        self.bad(HOOK | ctx, "before_evict got a wrong value");
                    }
                    new.w = *w_after;
                    new.vid = *vid_after;
                    refused = new.w > self.t;
                }
                e => {
                    self.bad(
                        HOOK | CAP | ctx,
                        &format!("item of weight {} exceeds the hot share {} but before_evict was not called for it first: {e:?}", new.w, self.t),
                    );
                    return;
                }
            }
        } else if let Some(Ev::Before { key, vid, .. }) = it.peek() {
            if *key == k && *vid == new.vid && kind == Kind::Insert && !resident && self.total + new.w <= self.shard_cap {
                let c = LOSS | HOOK | if pinned || new.w == 0 { PIN } else { 0 };
                self.bad(c, "an item that fits was about to be refused or evicted");
            }
        }

        if refused {
            self.refused += 1;
            if pinned {
                self.bad(PIN | ctx, "a pinned item was refused");
            }
            let old = self.m_remove(k);
            let mut old_seen = false;
            let mut new_seen = false;
            for e in it {
                match e {
                    Ev::Evict { key, vid, .. } if *key == k && Some(*vid) == old.as_ref().map(|o| o.vid) && !old_seen => old_seen = true,
                    Ev::Evict { key, vid, w, .. } if *key == k && *vid == new.vid && !new_seen && kind != Kind::Replace => {
                        if *w != new.w {
                            self.bad(NOTIFY | ctx, "on_evict got a wrong value");
                        }
                        new_seen = true
                    }
                    e => self.bad(NOTIFY | LOSS | HOOK | ctx, &format!("unexpected hook call while refusing an item: {e:?}")),
                }
            }
            if old.is_some() && !old_seen {
                self.bad(NOTIFY | ctx, "the entry displaced by a refused insertion did not reach on_evict");
            }
            match kind {
                Kind::Replace => {
                    if ok {
                        self.bad(REPL, "replace with a value that is too heavy reported success");
                    }
                    if back != Some((k, new.vid, new.w)) {
                        self.bad(REPL, "replace did not hand back the key and value");
                    }
                }
                _ => {
                    if !ok {
                        self.bad(ctx | NOTIFY, "a refused insertion must be reported through on_evict, not as an error");
                    }
                    if !new_seen {
                        self.bad(NOTIFY | ctx, "a refused item did not reach on_evict");
                    }
                    if kind == Kind::Guard {
                        self.pending.remove(&k);
                    }
                }
            }
            return;
        }

        if kind == Kind::Replace && !resident {
            if ok {
                self.bad(REPL, "replace of an absent key reported success");
            }
            if back != Some((k, new.vid, new.w)) {
                self.bad(REPL, "replace did not hand back the key and value");
            }
            if let Some(e) = it.next() {
                self.bad(REPL | NOTIFY | LOSS, &format!("replace of an absent key called {e:?}"));
            }
            return;
        }
        if !ok {
            self.bad(ctx | LOSS, "the insertion failed although the key is there and the item fits");
        }

        let old = self.m_remove(k);
        if old.is_some() {
            self.replaced += 1;
        }
        let over = self.total + new.w > self.shard_cap;
        let over_before = self.total;
        let admitted_w = new.w;
        if kind != Kind::Replace {
            self.pending.remove(&k);
        }
        self.m_insert(k, new.clone());
        let mut old_seen = old.is_none();
        // victims announced by before_evict: (key, vid after)
        let mut announced: Vec<(u32, u32)> = Vec::new();
        for e in it {
            match e {
                Ev::Before { key, vid, w, w_after, vid_after, .. } => {
                    let Some(ent) = self.m.get(key).cloned() else {
                        self.bad(HOOK | NOTIFY | ctx, &format!("before_evict for k{key}, which is not in the cache"));
                        continue;
                    };
                    if ent.vid != *vid || ent.w != *w {
                        self.bad(HOOK | LOOKUP | NOTIFY | ctx, &format!("before_evict for k{key} got a value that is not the stored one"));
                    }
                    if announced.iter().any(|a| a.0 == *key) {
                        self.bad(HOOK | ctx, &format!("before_evict called twice for k{key}"));
                    }
                    let mc = if ent.mutated { MUT } else { 0 };
                    if self.ent_pinned(*key, &ent) {
                        self.bad(PIN | LOSS | mc | ctx, &format!("pinned entry k{key} is being evicted"));
                    }
                    if ent.w == 0 {
                        self.bad(PIN | LOSS | mc | ctx, &format!("zero-weight entry k{key} is being evicted"));
                    }
                    if !over {
                        self.bad(
                            LOSS | ctx,
                            &format!("k{key} is being evicted although the item of weight {admitted_w} fits ({over_before} of {})", self.shard_cap),
                        );
                    }
                    if *w_after == 0 {
                        self.zeroed += 1;
                        self.total -= ent.w;
                        let e = self.m.get_mut(key).unwrap();
                        e.w = 0;
                        e.vid = *vid_after;
                    } else {
                        announced.push((*key, *vid_after));
                    }
                }
                Ev::Evict { key, vid, .. } => {
                    if let Some(i) = announced.iter().position(|a| a.0 == *key && a.1 == *vid) {
                        announced.remove(i);
                        self.m_remove(*key);
                        self.evictions += 1;
                    } else if !old_seen && *key == k && *vid == old.as_ref().unwrap().vid {
                        old_seen = true;
                    } else {
                        let mut c = NOTIFY | HOOK | ctx;
                        if let Some(ent) = self.m.get(key) {
                            if ent.vid == *vid && (ent.w == 0 || self.ent_pinned(*key, ent)) {
                                c |= PIN;
                            }
                            c |= LOSS;
                        }
                        self.bad(c, &format!("on_evict for k{key} v{vid}, which was not announced by before_evict and is not the overwritten value"));
                    }
                }
                _ => unreachable!(),
            }
        }
        if !old_seen {
            self.bad(NOTIFY | ctx, "the overwritten value did not reach on_evict");
        }
        if let Some(a) = announced.first() {
            self.bad(NOTIFY | HOOK | ctx, &format!("before_evict was called for k{} but it was not handed to on_evict", a.0));
        }
        if over && self.m.iter().any(|(k, e)| e.w > 0 && self.ent_pinned(*k, e)) {
            self.pin_pressure += 1;
        }
        // capacity
        if admitted_w > 0 {
            self.check_cap(k, ctx);
        }
    }

    fn check_cap(&self, k: u32, ctx: u32) {
        if self.total <= self.shard_cap {
            return;
        }
        if self.exact {
            let other = self.m.iter().find(|(x, e)| **x != k && e.w > 0 && !self.ent_pinned(**x, e));
            if let Some((x, _)) = other {
                self.bad(
                    CAP | PIN | ctx,
                    &format!("total weight {} exceeds the capacity {} although k{x} could be evicted", self.total, self.shard_cap),
                );
            }
        } else if !self.h_mut && !self.cfg.pins && self.total > self.capacity() {
            self.bad(CAP | ctx, &format!("total weight {} exceeds the capacity {}", self.total, self.capacity()));
        }
    }

    /// events of an operation that is not an insertion
    fn no_events(&self, ctx: u32) {
        let evs = take_log();
        for e in &evs {
            if matches!(e, Ev::Before { .. } | Ev::Evict { .. }) {
                self.bad(NOTIFY | HOOK | ctx, &format!("unexpected hook call {e:?}"));
            }
        }
    }

    /// after a violation of another property: continue with what the cache really holds
    fn resync(&mut self) {
        let old = std::mem::take(&mut self.m);
        self.total = 0;
        for k in 0..self.maxkey {
            let got = match &self.c {
                Any::U(c) => c.peek(&KqB(k)).map(|v| (v.vid, weight_of(v), v.pinned, v.be)),
                Any::S(c) => c.peek(&KqB(k)).map(|v| (v.vid, weight_of(&v), v.pinned, v.be)),
            };
            if let Some((vid, w, pinned, be)) = got {
                let mutated = old.get(&k).is_some_and(|o| o.mutated);
                self.m_insert(k, Ent { vid, w, pinned, be, mutated });
                self.pending.remove(&k);
            }
        }
        take_log();
    }

    // ---- state comparison ----

    pub fn check_state(&mut self, ctx: u32, insert_like: bool, full: bool) {
        let mut cls = 0;
        let mut msg = String::new();
        let (len, weight) = (self.len(), self.weight());
        let live_ok = || {
            let n = self.m.len() as i64;
            let (k, v) = (live_keys(), live_vals());
            k >= n && k <= n + self.guards.len() as i64 && v == n
        };
        if !live_ok() {
            cls |= RES | ctx;
            msg += &format!(
                "; {} keys and {} values are alive, but {} entries are stored and {} guards outstanding",
                live_keys(),
                live_vals(),
                self.m.len(),
                self.guards.len()
            );
        }
        if live_reqs() != 0 {
            cls |= RES | HOOK;
            msg += "; a request state was leaked or dropped twice";
        }
        if len != self.m.len() {
            cls |= ACCT | ctx;
            msg += &format!("; len() is {len}, expected {}", self.m.len());
        }
        if weight != self.total {
            cls |= ACCT | ctx;
            msg += &format!("; weight() is {weight}, expected {}", self.total);
        }
        if weight > self.capacity() && self.total <= self.capacity() {
            cls |= CAP;
            msg += &format!("; weight() is {weight}, above the capacity {}", self.capacity());
        }
        if self.is_empty() != (len == 0) {
            cls |= ACCT | ctx;
            msg += "; is_empty() disagrees with len()";
        }
        if full {
            let (mut n, mut tw) = (0usize, 0u64);
            for k in 0..self.maxkey {
                let got = self.peek(k);
                if let Some(g) = got {
                    n += 1;
                    tw = tw.wrapping_add(g.1);
                }
                match (got, self.m.get(&k)) {
                    (None, None) => (),
                    (Some(g), Some(e)) => {
                        if g.2 != k {
                            cls |= LOOKUP | ctx;
                            msg += &format!("; k{k} yields the value of k{}", g.2);
                        } else if g.0 != e.vid || g.1 != e.w {
                            cls |= LOOKUP | ctx;
                            msg += &format!("; k{k} yields v{} (weight {}), expected v{} (weight {})", g.0, g.1, e.vid, e.w);
                        }
                    }
                    (None, Some(e)) => {
                        cls |= LOSS | ctx;
                        if insert_like {
                            cls |= NOTIFY;
                        }
                        if e.w == 0 || self.ent_pinned(k, e) {
                            cls |= PIN;
                        }
                        if e.mutated {
                            cls |= MUT;
                        }
                        msg += &format!("; k{k} disappeared without being reported");
                    }
                    (Some(g), None) => {
                        cls |= LOOKUP | ctx;
                        if insert_like {
                            cls |= NOTIFY;
                        }
                        msg += &format!("; k{k} yields v{} although it is gone", g.0);
                    }
                }
            }
            if n != len {
                cls |= ACCT;
                msg += &format!("; {n} keys are retrievable but len() is {len}");
            }
            if tw > self.capacity() && self.total <= self.capacity() {
                cls |= CAP;
                msg += &format!("; the retrievable entries weigh {tw}, above the capacity {}", self.capacity());
            }
            if tw != weight {
                cls |= ACCT;
                msg += &format!("; the retrievable entries weigh {tw} but weight() is {weight}");
            }
            if let Any::U(c) = &self.c {
                let mut seen = BTreeSet::new();
                for (k, v) in c.iter() {
                    if !seen.insert(k.id()) {
                        cls |= ACCT | ctx;
                        msg += &format!("; iteration yields k{} twice", k.id());
                    }
                    match self.m.get(&k.id()) {
                        Some(e) if e.vid == v.vid => (),
                        Some(_) => {
                            cls |= LOOKUP | ACCT | ctx;
                            msg += &format!("; iteration yields a stale value for k{}", k.id());
                        }
                        None => {
                            cls |= LOOKUP | ACCT | ctx;
                            msg += &format!("; iteration yields k{}, which is gone", k.id());
                        }
                    }
                }
                if seen.len() != self.m.len() {
                    cls |= ACCT | ctx;
                    msg += &format!("; iteration yields {} entries, expected {}", seen.len(), self.m.len());
                }
            }
            for k in [0, self.maxkey / 2, self.maxkey.saturating_sub(1)] {
                let c = match &self.c {
                    Any::U(c) => c.contains_key(&KqB(k)),
                    Any::S(c) => c.contains_key(&KqB(k)),
                };
                if c != self.m.contains_key(&k) {
                    cls |= if c { LOOKUP } else { LOSS } | ctx;
                    msg += &format!("; contains_key(k{k}) is {c}");
                }
            }
        }
        #[cfg(feature = "stats")]
        {
            let (h, mi) = match &self.c {
                Any::U(c) => (c.hits(), c.misses()),
                Any::S(c) => (c.hits(), c.misses()),
            };
            if h + mi != self.sum || h < self.hits_lo || h > self.hits_hi {
                cls |= STATS;
                msg += &format!(
                    "; statistics: {h} hits and {mi} misses, expected {} lookups of which {}..={} hits",
                    self.sum, self.hits_lo, self.hits_hi
                );
            }
        }
        if cls != 0 {
            self.bad(cls, msg.trim_start_matches("; "));
        }
        if self.dirty.replace(false) {
            self.resync();
        }
        // looking must not call hooks or count as lookups
        self.no_events(0);
    }

    // ---- operations ----

    fn want(&self, ctx: u32, k: u32, got: Option<(u32, u64, u32)>, what: &str) {
        match (got, self.m.get(&k)) {
            (None, None) => (),
            (Some(g), Some(e)) if g.0 == e.vid && g.2 == k => (),
            (None, Some(_)) => self.bad(LOSS | ctx, &format!("{what}(k{k}) found nothing, but v{} is stored", self.m[&k].vid)),
            (Some(g), None) => self.bad(LOOKUP | ctx, &format!("{what}(k{k}) yields v{} although the key is gone", g.0)),
            (Some(g), Some(e)) => {
                self.bad(LOOKUP | ctx, &format!("{what}(k{k}) yields v{} of k{}, expected v{}", g.0, g.2, e.vid))
            }
        }
    }

    fn do_insert(&mut self, k: u32, e: Ent, wl: bool) {
        self.refuel();
        let mut v = self.mkv(k, &e);
        let key = K::new(k);
        v.ktag = key.tag;
        let mut r = None;
        if wl {
            let req = match &mut self.c {
                Any::U(c) => c.insert_with_lifecycle(key, v),
                Any::S(c) => c.insert_with_lifecycle(key, v),
            };
            r = Some(req.0);
        } else {
            match &mut self.c {
                Any::U(c) => c.insert(key, v),
                Any::S(c) => c.insert(key, v),
            }
        }
        self.absorb(Kind::Insert, k, e, true, None, r, wl);
    }

    fn mutate(&mut self, src: &mut Src, k: u32) -> Option<Ent> {
        // what to do through the mutable reference: nothing, change the value, the weight, the pin
        let cur = self.m.get(&k).cloned();
        let how = src.weighted(&[2, 3, 4, if self.cfg.pins { 2 } else { 0 }]);
        let w = self.gen_w(src);
        let mut e = cur?;
        match how {
            0 => (),
            1 => e.vid = new_vid(),
            2 => {
                e.vid = new_vid();
                if !self.cfg.unit {
                    e.w = w;
                }
            }
            _ => {
                e.vid = new_vid();
                e.pinned = !e.pinned;
            }
        }
        if how >= 1 {
            self.mutations += 1;
        }
        if how >= 2 {
            e.mutated = true;
            self.h_mut = true;
        }
        Some(e)
    }

    fn apply(v: &mut V, e: &Ent) {
        v.vid = e.vid;
        v.w = e.w;
        v.pinned = e.pinned;
    }

    /// returns (context class, insert like)
    pub fn step(&mut self, src: &mut Src, op: usize) -> (u32, bool) {
        self.refuel();
        let sync = matches!(self.c, Any::S(_));
        match op {
            O_GET | O_PEEK | O_CONTAINS => {
                let k = self.gen_key(src);
                let form = src.below(3);
                let name = ["get", "peek", "contains_key"][op];
                self.set_op(|| format!("{name}(k{k}) form {form}"));
                if op == O_CONTAINS {
                    let got = match (&self.c, form) {
                        (Any::U(c), 0) => c.contains_key(&KqB(k)),
                        (Any::U(c), 1) => c.contains_key(&K::new(k)),
                        (Any::U(c), _) => c.contains_key(&Kalt::new(k)),
                        (Any::S(c), 0) => c.contains_key(&KqB(k)),
                        (Any::S(c), 1) => c.contains_key(&K::new(k)),
                        (Any::S(c), _) => c.contains_key(&Kalt::new(k)),
                    };
                    if got != self.m.contains_key(&k) {
                        self.bad(if got { LOOKUP } else { LOSS }, &format!("contains_key(k{k}) is {got}"));
                    }
                } else {
                    let f = |v: &V| (v.vid, weight_of(v), v.key);
                    let got = match (&self.c, form, op) {
                        (Any::U(c), 0, O_GET) => c.get(&KqB(k)).map(f),
                        (Any::U(c), 1, O_GET) => c.get(&K::new(k)).map(f),
                        (Any::U(c), _, O_GET) => c.get(&Kalt::new(k)).map(f),
                        (Any::S(c), 0, O_GET) => c.get(&KqB(k)).as_ref().map(f),
                        (Any::S(c), 1, O_GET) => c.get(&K::new(k)).as_ref().map(f),
                        (Any::S(c), _, O_GET) => c.get(&Kalt::new(k)).as_ref().map(f),
                        (Any::U(c), 0, _) => c.peek(&KqB(k)).map(f),
                        (Any::U(c), 1, _) => c.peek(&K::new(k)).map(f),
                        (Any::U(c), _, _) => c.peek(&Kalt::new(k)).map(f),
                        (Any::S(c), 0, _) => c.peek(&KqB(k)).as_ref().map(f),
                        (Any::S(c), 1, _) => c.peek(&K::new(k)).as_ref().map(f),
                        (Any::S(c), _, _) => c.peek(&Kalt::new(k)).as_ref().map(f),
                    };
                    if op == O_GET {
                        if self.m.contains_key(&k) {
                            self.hit()
                        } else {
                            self.miss()
                        }
                    }
                    self.want(0, k, got, name);
                }
                self.no_events(0);
                (0, false)
            }
            O_INSERT | O_INSERT_WL => {
                let k = self.gen_key(src);
                let e = self.gen_ent(src);
                self.set_op(|| format!("insert(k{k}, {e:?})"));
                self.do_insert(k, e, op == O_INSERT_WL);
                (0, true)
            }
            O_REPLACE | O_REPLACE_WL => {
                let k = self.gen_key(src);
                let e = self.gen_ent(src);
                let soft = src.chance(1, 2);
                self.set_op(|| format!("replace(k{k}, {e:?}, soft={soft})"));
                let mut v = self.mkv(k, &e);
                let key = K::new(k);
                v.ktag = key.tag;
                let mut r = None;
                let res = if op == O_REPLACE_WL {
                    match &mut self.c {
                        Any::U(c) => c.replace_with_lifecycle(key, v, soft),
                        Any::S(c) => c.replace_with_lifecycle(key, v, soft),
                    }
                    .map(|q| r = Some(q.0))
                } else {
                    match &mut self.c {
                        Any::U(c) => c.replace(key, v, soft),
                        Any::S(c) => c.replace(key, v, soft),
                    }
                };
                let back = res.as_ref().err().map(|(k, v)| (k.id(), v.vid, weight_of(v)));
                let ok = res.is_ok();
                if res.as_ref().is_err_and(|(k, v)| !v.own_key(k)) {
                    self.bad(REPL, "replace handed back an equal key, not the one that was passed in");
                }
                drop(res);
                self.absorb(Kind::Replace, k, e, ok, back, r, op == O_REPLACE_WL);
                (REPL, true)
            }
            O_GETMUT | O_PEEKMUT if !sync => {
                let k = self.gen_key(src);
                let e = self.mutate(src, k);
                let form = src.below(3);
                self.set_op(|| format!("{}(k{k}) := {e:?}", if op == O_GETMUT { "get_mut" } else { "peek_mut" }));
                let got = {
                let Any::U(c) = &mut self.c else { unreachable!() };
                let r = match (op, form) {
                    (O_GETMUT, 0) => c.get_mut(&KqB(k)),
                    (O_GETMUT, 1) => c.get_mut(&K::new(k)),
                    (O_GETMUT, _) => c.get_mut(&Kalt::new(k)),
                    (_, 0) => c.peek_mut(&KqB(k)),
                    (_, 1) => c.peek_mut(&K::new(k)),
                    (_, _) => c.peek_mut(&Kalt::new(k)),
                };
                match r {
                    Some(mut r) => {
                        let g = (r.vid, weight_of(&r), r.key);
                        if let Some(e) = &e {
                            if e.vid != r.vid || e.w != r.w || e.pinned != r.pinned {
                                Self::apply(&mut r, e);
                            }
                        }
                        Some(g)
                    }
                    None => None,
                }
                };
                if op == O_GETMUT {
                    if e.is_some() {
                        self.hit()
                    } else {
                        self.miss()
                    }
                }
                self.want(MUT, k, got, "get_mut/peek_mut");
                if let Some(e) = e {
                    self.m_insert(k, e);
                }
                self.no_events(MUT);
                (MUT, false)
            }
            O_REMOVE => {
                let k = self.gen_key(src);
                let form = src.below(3);
                self.set_op(|| format!("remove(k{k})"));
                let r = match (&mut self.c, form) {
                    (Any::U(c), 0) => c.remove(&KqB(k)),
                    (Any::U(c), 1) => c.remove(&K::new(k)),
                    (Any::U(c), _) => c.remove(&Kalt::new(k)),
                    (Any::S(c), 0) => c.remove(&KqB(k)),
                    (Any::S(c), 1) => c.remove(&K::new(k)),
                    (Any::S(c), _) => c.remove(&Kalt::new(k)),
                };
                let got = r.as_ref().map(|(kk, v)| (kk.id(), v.vid, v.key));
                if r.as_ref().is_some_and(|(kk, v)| !v.own_key(kk)) {
                    self.bad(REMOVE, "remove returned an equal key, not the stored one");
                }
                drop(r);
                let old = self.m_remove(k);
                if got != old.as_ref().map(|o| (k, o.vid, k)) {
                    self.bad(
                        REMOVE | if got.is_none() { LOSS } else { LOOKUP },
                        &format!("remove(k{k}) returned {got:?}, stored was {old:?}"),
                    );
                }
                if old.is_some() {
                    self.removed += 1;
                }
                self.h_rem = true;
                self.pending.remove(&k);
                self.no_events(REMOVE);
                (REMOVE, false)
            }
            O_RETAIN => {
                let (a, b) = (src.range(1, 4), src.below(4));
                let by_val = src.chance(1, 3);
                let keep = move |k: u32, vid: u32| {
                    let x = if by_val { vid & !BE_BIT } else { k };
                    (x.wrapping_mul(7) + b) % (a + 1) != 0
                };
                self.set_op(|| format!("retain({} mod {})", if by_val { "value" } else { "key" }, a + 1));
                let visited = std::cell::Cell::new(0u32);
                let f = |k: &K, v: &V| {
                    visited.set(visited.get() + 1);
                    pair_check_pub(k, v);
                    keep(k.id(), v.vid)
                };
                match &mut self.c {
                    Any::U(c) => c.retain(f),
                    Any::S(c) => c.retain(f),
                }
                let gone: Vec<u32> = self.m.iter().filter(|(k, e)| !keep(**k, e.vid)).map(|(k, _)| *k).collect();
                self.removed += gone.len() as u64;
                for k in gone {
                    self.m_remove(k);
                }
                self.h_rem = true;
                self.no_events(REMOVE);
                (REMOVE, false)
            }
            O_CLEAR => {
                self.set_op(|| "clear()".into());
                match &mut self.c {
                    Any::U(c) => c.clear(),
                    Any::S(c) => c.clear(),
                }
                self.removed += self.m.len() as u64;
                self.m.clear();
                self.total = 0;
                self.pending.clear();
                self.h_rem = true;
                self.no_events(REMOVE);
                (REMOVE, false)
            }
            O_DRAIN if !sync => {
                let n = src.weighted(&[3, 1, 1, 1]) as u32;
                self.set_op(|| format!("drain() taking {}", if n == 0 { "all".into() } else { (n - 1).to_string() }));
                let mut seen = BTreeSet::new();
                let mut bad = None;
                let mut yielded = 0;
                {
                    let Any::U(c) = &mut self.c else { unreachable!() };
                    let mut d = c.drain();
                    let mut i = 0;
                    while n == 0 || i < n - 1 {
                        let Some((k, v)) = d.next() else { break };
                        i += 1;
                        yielded += 1;
                        if !seen.insert(k.id()) || self.m.get(&k.id()).map(|e| e.vid) != Some(v.vid) || v.key != k.id() || !v.own_key(&k) {
                            bad = Some((k.id(), v.vid));
                        }
                    }
                }
                if let Some((k, v)) = bad {
                    self.bad(REMOVE | ACCT | LOOKUP, &format!("drain yields k{k} v{v}, which is not stored or was yielded already"));
                }
                let want = if n == 0 { self.m.len() } else { self.m.len().min(n as usize - 1) };
                if yielded != want {
                    self.bad(REMOVE | ACCT, &format!("drain yields {yielded} entries, expected {want}"));
                }
                self.removed += self.m.len() as u64;
                self.m.clear();
                self.total = 0;
                self.h_rem = true;
                self.no_events(REMOVE);
                (REMOVE, false)
            }
            O_ITER => {
                self.set_op(|| "full comparison".into());
                self.check_state(0, false, true);
                (0, false)
            }
            O_RESERVE => {
                let n = src.pick(&[0u32, 1, 5, 50, 400]) as usize;
                self.set_op(|| format!("reserve({n})"));
                match &mut self.c {
                    Any::U(c) => c.reserve(n),
                    Any::S(c) => c.reserve(n),
                }
                self.no_events(0);
                (0, false)
            }
            O_CLONE if !sync => {
                self.set_op(|| "continue with a clone".into());
                let Any::U(c) = &mut self.c else { unreachable!() };
                let c2 = c.clone();
                self.c = Any::U(c2);
                self.no_events(CLONE);
                (CLONE, false)
            }
            O_PIN => {
                if !self.cfg.pins {
                    return (0, false);
                }
                let k = self.gen_key(src);
                self.set_op(|| format!("toggle external pin of k{k}"));
                CTX.with(|c| {
                    let mut p = c.ext_pins.borrow_mut();
                    if !p.remove(&k) {
                        p.insert(k);
                    }
                });
                // unpinning is like a mutation: the bound is restored by the next insertion
                self.h_mut = true;
                (0, false)
            }
            O_BURST => {
                let n = src.range(1, 2 * self.cfg.cap.min(30) as u32 + 4);
                let fresh = src.chance(1, 2) && self.maxkey < 400;
                let w = src.weighted(&[4, 1]) as u64 + 1;
                self.set_op(|| format!("burst of {n} inserts of {} keys, weight {w}", if fresh { "fresh" } else { "old" }));
                for i in 0..n {
                    let k = if fresh {
                        self.maxkey += 1;
                        self.maxkey - 1
                    } else {
                        (i * 7 + n) % self.cfg.universe.max(1)
                    };
                    let w = if self.cfg.unit { 1 } else { w };
                    let e = Ent { vid: new_vid(), w, pinned: false, be: Be::Keep, mutated: false };
                    self.do_insert(k, e, false);
                    if !self.cfg.sparse {
                        self.check_state(0, true, false);
                    }
                }
                (0, true)
            }
            // ---- get or insert ----
            O_GOI | O_GMOI if !sync => {
                let k = self.gen_key(src);
                let e = self.gen_ent(src);
                let how = src.weighted(&[6, 2, 1]);
                self.h_guard = true;
                self.guard_ops += 1;
                self.set_op(|| {
                    format!("get_{}or_insert_with(k{k}, {})", if op == O_GMOI { "mut_" } else { "" }, ["Ok", "Err", "panic"][how])
                });
                let resident = self.m.contains_key(&k);
                let called = std::cell::Cell::new(false);
                let v = self.mkv(k, &e);
                let with = || {
                    called.set(true);
                    match how {
                        0 => Ok(v),
                        1 => Err(7u8),
                        _ => std::panic::panic_any(Injected),
                    }
                };
                let changed = match op {
                    O_GMOI if resident => self.mutate(src, k),
                    // change the freshly inserted value through the returned reference
                    O_GMOI if how == 0 && src.chance(1, 2) => {
                        let w = self.gen_w(src);
                        Some(Ent { vid: new_vid(), w, pinned: e.pinned, be: e.be, mutated: true })
                    }
                    _ => None,
                };
                let Any::U(c) = &mut self.c else { unreachable!() };
                type R = Result<Option<(u32, u64, u32)>, u8>;
                let res: Result<R, _> = expecting_panic(|| {
                    if op == O_GOI {
                        c.get_or_insert_with(&KqB(k), with).map(|o| o.map(|v| (v.vid, weight_of(v), v.key)))
                    } else {
                        c.get_mut_or_insert_with(&KqB(k), with).map(|o| {
                            o.map(|mut v| {
                                let g = (v.vid, weight_of(&v), v.key);
                                if let Some(e) = &changed {
                                    Self::apply(&mut v, e);
                                }
                                g
                            })
                        })
                    }
                });
                self.finish_goi(k, e, how, resident, called.get(), res.ok(), changed, op == O_GMOI);
                (GUARD | if op == O_GMOI { MUT } else { 0 }, true)
            }
            O_REFGUARD | O_MUTGUARD if !sync => {
                let k = self.gen_key(src);
                let e = self.gen_ent(src);
                let how = src.weighted(&[5, 3, 3]);
                self.h_guard = true;
                self.guard_ops += 1;
                let mutg = op == O_MUTGUARD;
                self.set_op(|| {
                    format!("get_{}_or_guard(k{k}) then {}", if mutg { "mut" } else { "ref" }, ["insert", "insert_with_lifecycle", "drop"][how])
                });
                let changed = if mutg { self.mutate(src, k) } else { None };
                let mut v = Some(self.mkv(k, &e));
                let Any::U(c) = &mut self.c else { unreachable!() };
                let mut wl = None;
                let mut got = None;
                let mut guarded = false;
                let mut use_guard = |g: quick_cache::unsync::Guard<'_, K, V, We, Hb, Lc>| {
                    guarded = true;
                    let v = v.take().unwrap();
                    match how {
                        0 => g.insert(v),
                        1 => wl = Some(g.insert_with_lifecycle(v).0),
                        _ => {
                            drop(v);
                            drop(g)
                        }
                    }
                };
                if mutg {
                    match c.get_mut_or_guard(&KqB(k)) {
                        Ok(r) => {
                            if let Some(mut r) = r {
                                got = Some((r.vid, weight_of(&r), r.key));
                                if let Some(e) = &changed {
                                    Self::apply(&mut r, e);
                                }
                            }
                        }
                        Err(g) => use_guard(g),
                    }
                } else {
                    match c.get_ref_or_guard(&KqB(k)) {
                        Ok(r) => {
                            got = Some((r.vid, weight_of(r), r.key));
                        }
                        Err(g) => use_guard(g),
                    }
                }
                drop(v);
                let ctx = GUARD | if mutg { MUT } else { 0 };
                if guarded {
                    self.miss();
                    if self.m.contains_key(&k) {
                        self.bad(GUARD | LOSS, "a guard was handed out although the key is stored");
                    }
                    if how == 2 {
                        self.drops += 1;
                        self.no_events(GUARD);
                    } else {
                        self.absorb(Kind::Guard, k, e, true, None, wl, how == 1);
                    }
                    (ctx, how != 2)
                } else {
                    self.hit();
                    self.want(ctx, k, got, "get_or_guard");
                    if got.is_none() {
                        self.bad(GUARD, "get_or_guard gave neither a value nor a guard");
                    }
                    if let Some(e) = changed {
                        self.m_insert(k, e);
                    }
                    self.no_events(GUARD);
                    (ctx, false)
                }
            }
            O_GOI | O_GMOI | O_GOI_ASYNC if sync => {
                let k = self.gen_key(src);
                if self.pending.contains_key(&k) {
                    return self.acquire(src, k);
                }
                let Any::S(c) = self.c else { unreachable!() };
                if self.cfg.probe && !self.m.contains_key(&k) {
                    // a left over reservation would block the call below for ever
                    self.set_op(|| format!("get_value_or_guard(k{k}, 0) and drop"));
                    self.miss();
                    match c.get_value_or_guard(&KqB(k), Some(Duration::ZERO)) {
                        GuardResult::Guard(g) => drop(g),
                        GuardResult::Value(v) => {
                            self.bad(LOOKUP | GUARD, &format!("k{k} yields v{} although it is gone", v.vid));
                            return (GUARD, true);
                        }
                        GuardResult::Timeout => {
                            self.bad(GUARD, "Timeout for a key that nobody is loading: a reservation was left behind");
                            return (GUARD, true);
                        }
                    }
                }
                let e = self.gen_ent(src);
                let how = src.weighted(&[6, 2, 1]);
                let is_async = op == O_GOI_ASYNC;
                // what the loader does to the cache meanwhile
                let inner = src.weighted(&[8, 1, 1, 1, 1]);
                let e2 = self.gen_ent(src);
                let resident = self.m.contains_key(&k);
                self.h_guard = true;
                self.guard_ops += 1;
                self.set_op(|| {
                    format!(
                        "get_or_insert_{}(k{k}, {} {e:?}) with inner {}",
                        if is_async { "async" } else { "with" },
                        ["Ok", "Err", "panic"][how],
                        ["-", "remove", "insert", "clear", "other insert"][inner]
                    )
                });
                let v = self.mkv(k, &e);
                let uid = self.next_uid;
                self.next_uid += 1;
                let mut called = false;
                let this: *mut S = self;
                let with = || {
                    called = true;
                    // Safety: the cache is shared, and nothing else touches the harness state
                    // while the loader runs
                    let this = unsafe { &mut *this };
                    if !resident {
                        this.pending.insert(k, uid);
                    }
                    this.loader_inner(inner, k, e2);
                    match how {
                        0 => Ok(v),
                        1 => Err(7u8),
                        _ => std::panic::panic_any(Injected),
                    }
                };
                let q = KqB(k);
                let res = expecting_panic(|| {
                    if is_async {
                        let f = c.get_or_insert_async(&q, std::future::ready(()).then_with(with));
                        let f = std::pin::pin!(f);
                        match poll_once(f) {
                            Poll::Ready(r) => Some(r),
                            Poll::Pending => None,
                        }
                    } else {
                        Some(c.get_or_insert_with(&KqB(k), with))
                    }
                });
                let res = match res {
                    Ok(None) => {
                        self.bad(GUARD, "get_or_insert_async is pending although nobody is loading the key");
                        return (GUARD, true);
                    }
                    Ok(Some(r)) => Some(r.map(|v| Some((v.vid, weight_of(&v), v.key)))),
                    Err(_) => None,
                };
                let displaced = called && self.pending.get(&k) != Some(&uid);
                if displaced {
                    // sync only: the outcome of the load is returned but not stored
                    self.miss();
                    match (&res, how) {
                        (Some(Ok(Some(g))), 0) if g.0 == e.vid => {
                            // the guard's own insertion failed silently; hooks as for a stale guard
                            let evs = take_log();
                            for ev in &evs {
                                if matches!(ev, Ev::Before { .. } | Ev::Evict { .. } | Ev::End(_)) {
                                    self.bad(GUARD | HOOK | NOTIFY, &format!("a displaced load called {ev:?}"));
                                }
                            }
                            self.stale += 1;
                        }
                        (Some(Err(7)), 1) | (None, 2) => self.no_events(GUARD),
                        r => self.bad(GUARD, &format!("unexpected result of a displaced load: {r:?}")),
                    }
                    return (GUARD, false);
                }
                if how != 0 {
                    self.pending.remove(&k);
                }
                self.finish_goi(k, e, how, resident, called, res, None, false);
                (GUARD, true)
            }
            O_REFGUARD | O_MUTGUARD | O_ASYNC if sync => {
                let k = self.gen_key(src);
                self.acquire_with(src, k, op == O_ASYNC)
            }
            O_GINSERT if sync => {
                if self.guards.is_empty() {
                    let k = self.gen_key(src);
                    return self.acquire(src, k);
                }
                let i = src.below(self.guards.len() as u32) as usize;
                let g = self.guards.swap_remove(i);
                let e = self.gen_ent(src);
                let wl = src.chance(1, 3);
                let live = self.pending.get(&g.key) == Some(&g.uid);
                self.set_op(|| format!("guard#{}(k{}).insert({e:?}), {}", g.uid, g.key, if live { "in place" } else { "displaced" }));
                self.guard_ops += 1;
                let v = self.mkv(g.key, &e);
                let mut r = None;
                let res = if wl {
                    g.g.insert_with_lifecycle(v).map(|q| r = Some(q.0))
                } else {
                    g.g.insert(v)
                };
                let ok = res.is_ok();
                let back = res.err().map(|v| (v.key, v.vid, weight_of(&v)));
                if live {
                    self.absorb(Kind::Guard, g.key, e, ok, back, r, wl);
                } else {
                    self.absorb(Kind::Stale, g.key, e, ok, back, r, wl);
                }
                (GUARD, true)
            }
            O_GDROP if sync => {
                if self.guards.is_empty() {
                    return (0, false);
                }
                let i = src.below(self.guards.len() as u32) as usize;
                let g = self.guards.swap_remove(i);
                let live = self.pending.get(&g.key) == Some(&g.uid);
                self.set_op(|| format!("drop guard#{}(k{}), {}", g.uid, g.key, if live { "in place" } else { "displaced" }));
                self.drops += 1;
                self.guard_ops += 1;
                if live {
                    self.pending.remove(&g.key);
                } else {
                    self.stale += 1;
                }
                drop(g.g);
                self.no_events(GUARD);
                (GUARD, false)
            }
            // not available in this cache variant
            _ => {
                let alt = if op % 2 == 0 { O_GET } else { O_INSERT };
                self.step(src, alt)
            }
        }
    }

    fn loader_inner(&mut self, inner: usize, k: u32, e2: Ent) {
        let Any::S(c) = self.c else { return };
        match inner {
            1 => {
                let r = c.remove(&KqB(k));
                if let Some((_, v)) = r {
                    self.bad(LOOKUP | GUARD, &format!("remove of a key being loaded returned v{}", v.vid));
                }
                self.pending.remove(&k);
                self.h_rem = true;
                self.no_events(REMOVE | GUARD);
            }
            2 => self.do_insert(k, e2, false),
            3 => {
                c.clear();
                self.m.clear();
                self.total = 0;
                self.pending.clear();
                self.h_rem = true;
                self.no_events(REMOVE | GUARD);
            }
            4 => self.do_insert((k + 1) % self.cfg.universe.max(1), e2, false),
            _ => (),
        }
        if inner != 0 {
            // keys and values held by the loader do not matter here: only look at the contents
            let n = self.len();
            if n != self.m.len() {
                self.bad(GUARD | ACCT, &format!("len() is {n} inside a loader, expected {}", self.m.len()));
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn finish_goi(
        &mut self,
        k: u32,
        e: Ent,
        how: usize,
        resident: bool,
        called: bool,
        res: Option<Result<Option<(u32, u64, u32)>, u8>>,
        changed: Option<Ent>,
        mutable: bool,
    ) {
        let ctx = GUARD | if mutable { MUT } else { 0 };
        if resident {
            self.hit();
            if called {
                self.bad(GUARD | LOSS, "the loader was called although the key is stored");
            }
            match res {
                Some(Ok(g)) => self.want(ctx, k, g, "get_or_insert"),
                r => self.bad(ctx, &format!("get_or_insert of a stored key returned {r:?}")),
            }
            if let Some(e) = changed {
                self.m_insert(k, e);
            }
            self.no_events(GUARD);
            return;
        }
        self.miss();
        if !called {
            self.bad(GUARD | LOOKUP, "the loader was not called although the key is absent");
        }
        match how {
            1 => {
                if !matches!(res, Some(Err(7))) {
                    self.bad(GUARD, &format!("a failing loader's error was not returned: {res:?}"));
                }
                self.drops += 1;
                self.no_events(GUARD);
            }
            2 => {
                if res.is_some() {
                    self.bad(GUARD, "a loader's panic was swallowed");
                }
                self.drops += 1;
                self.no_events(GUARD);
            }
            _ => {
                self.absorb(Kind::Guard, k, e.clone(), true, None, None, false);
                match res {
                    Some(Ok(g)) => {
                        if matches!(self.c, Any::S(_)) {
                            // the sync variant returns the loaded value whether admitted or not
                            if g.map(|g| g.0) != Some(e.vid) {
                                self.bad(GUARD | LOOKUP, &format!("get_or_insert returned {g:?}, loaded was v{}", e.vid));
                            }
                        } else {
                            self.want(ctx, k, g, "get_or_insert");
                            if let (Some(_), Some(e)) = (g, changed) {
                                self.h_mut = true;
                                self.mutations += 1;
                                self.m_insert(k, e);
                            }
                        }
                    }
                    r => self.bad(ctx, &format!("get_or_insert returned {r:?}")),
                }
            }
        }
    }

    fn acquire(&mut self, src: &mut Src, k: u32) -> (u32, bool) {
        self.acquire_with(src, k, false)
    }

    /// sync: get_value_or_guard without blocking, or its async form polled once
    fn acquire_with(&mut self, src: &mut Src, k: u32, is_async: bool) -> (u32, bool) {
        let Any::S(c) = self.c else { return (0, false) };
        self.h_guard = true;
        self.guard_ops += 1;
        let pending = self.pending.contains_key(&k);
        let resident = self.m.contains_key(&k);
        // without a pending load the call must not wait, whatever the timeout
        let timeout = if pending || self.cfg.probe {
            Some(Duration::ZERO)
        } else {
            src.pick(&[Some(Duration::ZERO), None, Some(Duration::from_secs(3600))])
        };
        self.set_op(|| format!("get_value_or_guard{}(k{k}, {timeout:?})", if is_async { "_async" } else { "" }));
        let q = KqB(k);
        let r: GuardResult<'static, K, V, We, Hb, Lc> = if is_async {
            let f = c.get_value_or_guard_async(&q);
            let f = std::pin::pin!(f);
            match poll_once(f) {
                Poll::Ready(Ok(v)) => GuardResult::Value(v),
                Poll::Ready(Err(g)) => GuardResult::Guard(g),
                Poll::Pending => GuardResult::Timeout,
            }
        } else {
            c.get_value_or_guard(&q, timeout)
        };
        match r {
            GuardResult::Value(v) => {
                let g = Some((v.vid, weight_of(&v), v.key));
                drop(v);
                self.hit();
                self.want(GUARD, k, g, "get_value_or_guard");
            }
            GuardResult::Guard(g) => {
                self.miss();
                if resident {
                    self.bad(GUARD | LOSS, "a guard was handed out although the key is stored");
                }
                if pending {
                    self.bad(GUARD | FLIGHT, "a second guard was handed out for a key that is being loaded");
                }
                let uid = self.next_uid;
                self.next_uid += 1;
                self.pending.insert(k, uid);
                self.guards.push(G { uid, key: k, g });
                tr!("    -> guard#{uid}");
            }
            GuardResult::Timeout => {
                self.either();
                if !pending {
                    self.bad(GUARD | LOSS, "Timeout (or pending) for a key that nobody is loading");
                }
            }
        }
        self.no_events(GUARD);
        (GUARD, false)
    }

    /// reads a key so often that a counter of the reads would overflow
    fn hammer(&mut self, src: &mut Src) {
        let k = self.gen_key(src);
        let (n, how) = (65_530 + src.below(12), src.below(4));
        self.set_op(|| format!("{n} reads of k{k} by way {how}"));
        if !self.m.contains_key(&k) {
            return;
        }
        let mut found = 0;
        for _ in 0..n {
            let q = KqB(k);
            self.refuel();
            self.hit();
            found += match (&mut self.c, how) {
                (Any::U(c), 0) => c.get(&q).is_some(),
                (Any::U(c), 1) => c.get_mut(&q).is_some(),
                (Any::U(c), 2) => c.get_ref_or_guard(&q).is_ok(),
                (Any::U(c), _) => matches!(c.get_mut_or_guard(&q), Ok(Some(_))),
                (Any::S(c), 0 | 1) => c.get(&q).is_some(),
                (Any::S(c), 2) => matches!(c.get_value_or_guard(&q, Some(Duration::ZERO)), GuardResult::Value(_)),
                (Any::S(c), _) => matches!(c.get_or_insert_with(&q, || Err(1u8)), Ok(_)),
            } as u32;
        }
        if found != n {
            self.bad(LOSS, &format!("only {found} of {n} reads of k{k} found it"));
        }
        self.no_events(0);
    }

    fn set_op(&mut self, f: impl FnOnce() -> String) {
        if tracing() {
            let s = f();
            tr!("{s}");
            self.op_name = s;
        }
    }

    /// releases everything and checks that nothing is left
    pub fn finish(mut self) {
        self.op_name = "dropping the guards and the cache".into();
        while let Some(g) = self.guards.pop() {
            if self.pending.get(&g.key) == Some(&g.uid) {
                self.pending.remove(&g.key);
            }
            drop(g.g);
        }
        self.check_state(GUARD, false, true);
        let c = std::mem::replace(&mut self.c, Any::U(Box::new(Cfg { sync: false, cap: 0, ..self.cfg.clone() }.unsync())));
        match c {
            Any::U(c) => drop(c),
            // Safety: created by Box::leak, and no guard or reference is left
            Any::S(c) => drop(unsafe { Box::from_raw(c as *const SCache as *mut SCache) }),
        }
        if live_keys() != 0 || live_vals() != 0 {
            self.bad(RES, &format!("{} keys and {} values are still alive after dropping the cache", live_keys(), live_vals()));
        }
    }
}

pub fn pair_check_pub(k: &K, v: &V) {
    if k.id() != v.key {
        fail(LOOKUP | REMOVE, &format!("retain got key k{} with a value stored for k{}", k.id(), v.key));
    }
}

/// `future::ready(()).then_with(f)`: a future that runs `f` when polled
trait ThenWith: Sized {
    fn then_with<F: FnOnce() -> R, R>(self, f: F) -> Lazy<F>;
}
impl ThenWith for std::future::Ready<()> {
    fn then_with<F: FnOnce() -> R, R>(self, f: F) -> Lazy<F> {
        Lazy(Some(f))
    }
}
pub struct Lazy<F>(pub Option<F>);
impl<F> Unpin for Lazy<F> {}
impl<R, F: FnOnce() -> R> Future for Lazy<F> {
    type Output = R;
    fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut Context<'_>) -> Poll<R> {
        let f = self.0.take().unwrap();
        Poll::Ready(f())
    }
}

pub fn run(prop: &str, src: &mut Src) -> bool {
    reset_ctx();
    let p = profile(prop);
    let mut cfg = gen_cfg(src, &p);
    tune(prop, &mut cfg, src);
    tr!("config {cfg:?}");
    let sparse = cfg.sparse;
    let mut s = S::new(cfg);
    let plan = match src.plan(0, 9) {
        0..=2 => src.plan(3, 20),
        9 => src.plan(60, p.max_ops * 4),
        _ => src.plan(15, p.max_ops),
    };
    let mut done = 0;
    // where in the history a key is read very often
    let hammer = if prop == "C24" && src.chance(1, 64) { src.range(1, plan.max(1)) } else { 0 };
    while src.more(done, plan) {
        done += 1;
        if done == hammer {
            s.hammer(src);
        }
        let op = src.weighted(&p.w);
        let (ctx, ins) = s.step(src, op);
        let full = !sparse || done % 16 == 0;
        s.check_state(ctx, ins, full);
    }
    s.op_name = "the last operation".into();
    s.check_state(0, false, true);
    let nt = nontrivial(prop, &s);
    if s.evictions > 0 {
        label("with evictions");
    }
    if s.refused > 0 {
        label("with refusals");
    }
    if s.pin_pressure > 0 {
        label("with pinned entries under pressure");
    }
    if s.zeroed > 0 {
        label("with victims kept at weight zero");
    }
    if s.stale > 0 {
        label("with displaced guards");
    }
    if s.mutations > 0 {
        label("with in-place mutations");
    }
    if s.removed > 0 {
        label("with removals");
    }
    if s.drops > 0 {
        label("with abandoned loads");
    }
    label_n("operations", done as u64);
    label_n("evictions", s.evictions);
    s.finish();
    nt
}

fn tune(prop: &str, cfg: &mut Cfg, src: &mut Src) {
    match prop {
        "C06" => {
            if !cfg.unit {
                cfg.pins |= src.chance(3, 4);
                cfg.zeros |= src.chance(1, 2);
            } else {
                cfg.pins |= src.chance(1, 2);
            }
        }
        "C07" => cfg.be |= src.chance(1, 2),
        "C04" => cfg.sparse = false,
        _ => (),
    }
}

fn profile(prop: &str) -> Prof {
    let mut p = base_prof();
    let w = &mut p.w;
    match prop {
        "C01" => {
            w[O_GET] = 16;
            w[O_PEEK] = 6;
        }
        "C02" | "C03" => {
            w[O_INSERT] = 34;
            w[O_CLEAR] = 1;
        }
        "C05" => {
            w[O_INSERT] = 34;
            w[O_BURST] = 6;
        }
        "C06" => {
            w[O_PIN] = 3;
            w[O_BURST] = 8;
            w[O_CLEAR] = 1;
        }
        "C07" => {
            w[O_INSERT_WL] = 8;
            w[O_REPLACE_WL] = 5;
            w[O_GINSERT] = 6;
        }
        "C08" => {
            w[O_GETMUT] = 16;
            w[O_PEEKMUT] = 14;
            w[O_GMOI] = 8;
            w[O_MUTGUARD] = 8;
            w[O_BURST] = 6;
            p.sync_pct = 0;
        }
        "C09" => {
            w[O_REMOVE] = 16;
            w[O_RETAIN] = 8;
            w[O_CLEAR] = 3;
            w[O_DRAIN] = 5;
            p.sync_pct = 40;
        }
        "C10" => {
            w[O_REPLACE] = 18;
            w[O_REPLACE_WL] = 8;
        }
        "C15" => {
            w[O_GOI] = 10;
            w[O_REFGUARD] = 16;
            w[O_MUTGUARD] = 6;
            w[O_GINSERT] = 10;
            w[O_GDROP] = 8;
            w[O_ASYNC] = 6;
            w[O_GOI_ASYNC] = 5;
            w[O_REMOVE] = 9;
            w[O_CLEAR] = 2;
            p.sync_pct = 75;
        }
        "C21" => {
            w[O_GOI] = 10;
            w[O_REFGUARD] = 10;
            w[O_GDROP] = 6;
        }
        "C23" => {
            w[O_GET] = 16;
            w[O_GOI] = 9;
            w[O_GMOI] = 6;
            w[O_REFGUARD] = 10;
            w[O_MUTGUARD] = 6;
            w[O_ASYNC] = 5;
            w[O_GOI_ASYNC] = 5;
            w[O_GETMUT] = 8;
        }
        "C24" => {
            p.extremes = 8;
        }
        _ => (),
    }
    p
}

fn nontrivial(prop: &str, s: &S) -> bool {
    match prop {
        "C01" => s.hits > 0 && s.evictions + s.replaced + s.removed > 0,
        "C02" => s.evictions + s.refused > 0,
        "C03" => s.evictions > 0,
        "C04" => s.evictions > 0 && s.evictions + s.mutations + s.removed > 1,
        "C05" => s.evictions + s.refused > 0 && s.replaced > 0,
        "C06" => s.pin_pressure > 0 || s.evictions > 0 && s.m.values().any(|e| e.w == 0),
        "C07" => s.evictions + s.refused > 0,
        "C08" => s.mutations > 0 && s.evictions > 0,
        "C09" => s.removed > 0,
        "C10" => s.replaced > 0,
        "C15" => s.guard_ops > 1 && s.drops + s.stale > 0,
        "C21" => s.evictions + s.removed + s.drops > 0,
        "C23" => s.hits > 0 && s.sum > s.hits,
        _ => s.evictions + s.refused + s.removed + s.mutations > 0,
    }
}
