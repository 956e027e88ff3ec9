//! Several threads on a cache under space pressure, with a recording lifecycle: every value that
//! was offered has to end up in exactly one place, whatever the schedule.

use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use quick_cache::sync::{Cache, GuardResult, PlaceholderGuard};
use quick_cache::{Lifecycle, OptionsBuilder, Weighter};

use crate::conc::{drive, execute, pause, run_threads, SHUTTLE};
use crate::report::*;
use crate::tape::{mix, Src};
use crate::tr;

static KEYS: AtomicI64 = AtomicI64::new(0);
static VALS: AtomicI64 = AtomicI64::new(0);
static REQS: AtomicI64 = AtomicI64::new(0);

struct Tok(&'static AtomicI64);
impl Tok {
    fn new(c: &'static AtomicI64) -> Self {
        c.fetch_add(1, SeqCst);
        Tok(c)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}

#[derive(PartialEq, Eq, Hash, Debug)]
#[repr(transparent)]
struct Q(u32);
struct K(Q, #[allow(dead_code)] Tok);
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.0 == o.0
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Borrow<Q> for K {
    fn borrow(&self) -> &Q {
        &self.0
    }
}
impl ToOwned for Q {
    type Owned = K;
    fn to_owned(&self) -> K {
        key(self.0)
    }
}
fn key(k: u32) -> K {
    K(Q(k), Tok::new(&KEYS))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Spec {
    key: u32,
    id: u32,
    w: u8,
    pinned: bool,
}
struct V(Spec, #[allow(dead_code)] Tok);
impl Clone for V {
    fn clone(&self) -> V {
        mkv(self.0)
    }
}
fn mkv(s: Spec) -> V {
    V(s, Tok::new(&VALS))
}

#[derive(Clone)]
struct We;
impl Weighter<K, V> for We {
    fn weight(&self, k: &K, v: &V) -> u64 {
        pair(k, v);
        v.0.w as u64
    }
}
fn pair(k: &K, v: &V) {
    if k.0 .0 != v.0.key {
        fail(LOOKUP | LIN, &format!("a callback got key k{} with a value stored for k{}", k.0 .0, v.0.key));
    }
}
#[derive(Clone)]
struct Hb(u64);
struct Hs(u64, u64);
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        mix(self.0, self.1)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.1 = self.1 * 257 + x as u64;
        }
    }
}
impl BuildHasher for Hb {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(self.0, 0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fate {
    Evicted,
    /// handed back by a failing replace or guard insertion
    Back,
    Removed,
    /// rejected by the predicate of a retain
    Retained,
    Stored,
}

struct Rec {
    clock: AtomicU64,
    /// where each value went, and when at the latest
    fates: Mutex<BTreeMap<u32, Vec<(Fate, u64)>>>,
    begun: AtomicI64,
    ended: AtomicI64,
    /// what was read: value, start of the call
    reads: Mutex<Vec<(u32, u64)>>,
}
impl Rec {
    fn now(&self) -> u64 {
        self.clock.fetch_add(1, SeqCst)
    }
    fn fate(&self, id: u32, f: Fate) {
        let t = self.now();
        self.fates.lock().unwrap().entry(id).or_default().push((f, t));
    }
}

impl Rec {
    fn rejected(&self, id: u32) {
        let t = self.now();
        let mut f = self.fates.lock().unwrap();
        let f = f.entry(id).or_default();
        if !f.iter().any(|f| f.0 == Fate::Retained) {
            f.push((Fate::Retained, t));
        }
    }
}

struct Req(u64, #[allow(dead_code)] Tok);
#[derive(Clone)]
struct Lc(Arc<Rec>);
fn me() -> u64 {
    thread_local!(static ME: u8 = const { 0 });
    // shuttle runs its tasks on one thread: their own identity is used there
    if SHUTTLE {
        crate::conc::task_id()
    } else {
        ME.with(|m| m as *const u8 as u64)
    }
}
impl Lc {
    fn same(&self, r: &Req) {
        if r.0 != me() {
            fail(HOOK, "a lifecycle hook got the request state of another thread's request");
        }
    }
}
impl Lifecycle<K, V> for Lc {
    type RequestState = Req;
    fn is_pinned(&self, k: &K, v: &V) -> bool {
        pair(k, v);
        v.0.pinned
    }
    fn begin_request(&self) -> Req {
        self.0.begun.fetch_add(1, SeqCst);
        Req(me(), Tok::new(&REQS))
    }
    fn before_evict(&self, r: &mut Req, k: &K, v: &mut V) {
        self.same(r);
        pair(k, v);
    }
    fn on_evict(&self, r: &mut Req, k: K, v: V) {
        self.same(r);
        pair(&k, &v);
        self.0.fate(v.0.id, Fate::Evicted);
    }
    fn end_request(&self, r: Req) {
        self.same(&r);
        self.0.ended.fetch_add(1, SeqCst);
    }
}

type C = Cache<K, V, We, Hb, Lc>;
type G<'a> = PlaceholderGuard<'a, K, V, We, Hb, Lc>;

#[derive(Clone, Debug)]
enum Op {
    Get(u32),
    Peek(u32),
    Insert(Spec, bool),
    Replace(Spec, bool, bool),
    Remove(u32),
    Clear,
    Retain(u32),
    Observe,
    Goi(Spec, bool, u8),
    /// value or nothing, yields, with lifecycle, async (polls before it is cancelled), zero timeout
    Guard(Spec, bool, u8, bool, Option<Option<u8>>, bool),
    Pause(u8),
}

struct Plan {
    cap: u64,
    shards: usize,
    hot: f64,
    ghost: f64,
    items: usize,
    seed: u64,
    keys: u32,
    pins: bool,
    /// with clear and retain
    lossy: bool,
    init: Vec<Spec>,
    threads: Vec<Vec<Op>>,
}

struct Gen<'a> {
    s: &'a mut Src,
    next: u32,
    keys: u32,
    maxw: u32,
    pins: bool,
    lossy: bool,
}
impl Gen<'_> {
    fn spec(&mut self) -> Spec {
        let key = self.s.below(self.keys);
        self.next += 1;
        let w = match self.maxw {
            1 => 1,
            m => self.s.below(m + 1) as u8,
        };
        Spec { key, id: self.next, w, pinned: self.pins && self.s.chance(1, 3) }
    }
    fn op(&mut self) -> Op {
        let l = self.lossy as u32;
        match self.s.weighted(&[16, 4, 4, 5, 2, l, l, 5, 5, 5, 1]) {
            0 => Op::Insert(self.spec(), self.s.chance(1, 4)),
            1 => Op::Replace(self.spec(), self.s.chance(1, 2), self.s.chance(1, 4)),
            2 => Op::Remove(self.s.below(self.keys)),
            3 => Op::Get(self.s.below(self.keys)),
            4 => Op::Peek(self.s.below(self.keys)),
            5 => Op::Clear,
            6 => Op::Retain(self.s.below(1 << 16)),
            7 => Op::Observe,
            8 => {
                let s = self.spec();
                let ok = self.s.chance(3, 4);
                Op::Goi(s, ok, self.s.below(3) as u8)
            }
            9 => {
                let s = self.spec();
                let ins = self.s.chance(2, 3);
                let y = self.s.below(3) as u8;
                let wl = self.s.chance(1, 4);
                let a = match self.s.below(3) {
                    0 => None,
                    1 => Some(None),
                    _ => Some(Some(1 + self.s.below(2) as u8)),
                };
                Op::Guard(s, ins, y, wl, a, self.s.chance(1, 3))
            }
            _ => Op::Pause(1 + self.s.below(3) as u8),
        }
    }
}

fn plan(src: &mut Src) -> Plan {
    let cap = src.range(2, 8) as u64;
    let hot = src.pick(&[0.97, 0.5, 0.8]);
    let ghost = src.pick(&[0.5, 1.0, 0.0]);
    let (shards, items) = if src.chance(1, 6) { (2, 64) } else { (1, src.range(1, 12) as usize) };
    let keys = src.range(2, cap as u32 + 4);
    let maxw = src.pick(&[1u32, 1, 2, 3]);
    let pins = src.chance(1, 5);
    let lossy = src.chance(1, 4);
    let seed = src.below(64) as u64;
    let mut g = Gen { s: src, next: 0, keys, maxw, pins, lossy };
    let mut init = vec![];
    let n = g.s.plan(0, cap as u32 + 2);
    while g.s.more(init.len() as u32, n) {
        let s = g.spec();
        init.push(s);
    }
    let nt = 2 + g.s.weighted(&[5, 3]);
    let mut threads = vec![];
    for _ in 0..nt {
        let mut ops = vec![];
        let n = g.s.plan(1, 6);
        while g.s.more(ops.len() as u32, n) {
            let op = g.op();
            ops.push(op);
        }
        threads.push(ops);
    }
    Plan { cap, shards, hot, ghost, items, seed, keys, pins, lossy, init, threads }
}

struct Sh {
    c: C,
    r: Arc<Rec>,
    p: Arc<Plan>,
}

impl Sh {
    fn read(&self, k: u32, v: Option<V>, inv: u64) {
        if let Some(v) = v {
            if v.0.key != k {
                fail(LOOKUP | LIN, &format!("a lookup of k{k} returned v{} of k{}", v.0.id, v.0.key));
            }
            self.r.reads.lock().unwrap().push((v.0.id, inv));
        }
    }
    fn observe(&self) {
        let w = self.c.weight();
        if !self.p.pins && w > self.c.capacity() {
            fail(CAP | LIN, &format!("weight() is {w} while other calls are running, above the capacity {}", self.c.capacity()));
        }
        let n = self.c.len();
        if n > self.p.keys as usize {
            fail(ACCT | LIN, &format!("len() is {n} with only {} keys in use", self.p.keys));
        }
    }
    fn with_guard(&self, g: G<'_>, s: Spec, ins: bool, y: u8, wl: bool) {
        pause(y);
        if !ins {
            drop(g);
            return;
        }
        let r = if wl {
            g.insert_with_lifecycle(mkv(s)).map(|q| {
                self.c_same(&q);
                self.r.ended.fetch_add(1, SeqCst);
            })
        } else {
            g.insert(mkv(s))
        };
        if let Err(v) = r {
            if v.0 != s {
                fail(GUARD | LIN, "a failing guard insertion returned another value");
            }
            self.r.fate(s.id, Fate::Back);
            // the state of a failed request is dropped without end_request
        }
    }
    fn c_same(&self, q: &Req) {
        if q.0 != me() {
            fail(HOOK, "an operation returned the request state of another thread's request");
        }
    }
    fn exec(&self, op: &Op) {
        let c = &self.c;
        let inv = self.r.now();
        match *op {
            Op::Get(k) => self.read(k, c.get(&Q(k)), inv),
            Op::Peek(k) => self.read(k, c.peek(&Q(k)), inv),
            Op::Insert(s, wl) => {
                if wl {
                    let q = c.insert_with_lifecycle(key(s.key), mkv(s));
                    self.c_same(&q);
                    self.r.ended.fetch_add(1, SeqCst);
                } else {
                    c.insert(key(s.key), mkv(s));
                }
            }
            Op::Replace(s, soft, wl) => {
                let r = if wl {
                    c.replace_with_lifecycle(key(s.key), mkv(s), soft).map(|q| {
                        self.c_same(&q);
                        self.r.ended.fetch_add(1, SeqCst);
                    })
                } else {
                    c.replace(key(s.key), mkv(s), soft)
                };
                if let Err((k, v)) = r {
                    if k.0 .0 != s.key || v.0 != s {
                        fail(REPL | LIN, "a failing replace returned another pair");
                    }
                    self.r.fate(s.id, Fate::Back);
                }
            }
            Op::Remove(k) => {
                if let Some((rk, v)) = c.remove(&Q(k)) {
                    if rk.0 .0 != k || v.0.key != k {
                        fail(REMOVE | LIN, &format!("remove(k{k}) returned k{} with a value of k{}", rk.0 .0, v.0.key));
                    }
                    self.r.fate(v.0.id, Fate::Removed);
                }
            }
            Op::Clear => c.clear(),
            Op::Retain(m) => c.retain(|k, v| {
                pair(k, v);
                let keep = m >> ((k.0 .0 + v.0.id) % 16) & 1 == 1;
                if !keep {
                    self.r.rejected(v.0.id);
                }
                keep
            }),
            Op::Observe => self.observe(),
            Op::Pause(n) => pause(n),
            Op::Goi(s, ok, y) => {
                let r = c.get_or_insert_with(&Q(s.key), || {
                    pause(y);
                    if ok {
                        Ok(mkv(s))
                    } else {
                        Err(())
                    }
                });
                match r {
                    Ok(v) if v.0.id == s.id => (),
                    Ok(v) => {
                        if v.0.key != s.key {
                            fail(LOOKUP | LIN, "get_or_insert returned the value of another key");
                        }
                    }
                    Err(()) if !ok => (),
                    Err(()) => fail(GUARD | LIN, "get_or_insert failed although its loader did not"),
                }
            }
            Op::Guard(s, ins, y, wl, is_async, zero) => match is_async {
                None => match c.get_value_or_guard(&Q(s.key), if zero { Some(Duration::ZERO) } else { None }) {
                    GuardResult::Value(v) => {
                        if v.0.key != s.key {
                            fail(LOOKUP | LIN, "get_value_or_guard returned the value of another key");
                        }
                    }
                    GuardResult::Guard(g) => self.with_guard(g, s, ins, y, wl),
                    GuardResult::Timeout if zero => (),
                    GuardResult::Timeout => fail(TIMED, "Timeout without a timeout"),
                },
                Some(cancel) => {
                    let q = Q(s.key);
                    let mut f = Box::pin(c.get_value_or_guard_async(&q));
                    match drive(f.as_mut(), cancel, 0) {
                        Some(Ok(v)) => {
                            if v.0.key != s.key {
                                fail(LOOKUP | LIN, "get_value_or_guard_async returned the value of another key");
                            }
                        }
                        Some(Err(g)) => self.with_guard(g, s, ins, y, wl),
                        None => {
                            pause(y);
                            drop(f)
                        }
                    }
                }
            },
        }
    }
}

fn body(p: &Arc<Plan>, out: &Arc<Mutex<Option<(u64, u64)>>>) {
    KEYS.store(0, SeqCst);
    VALS.store(0, SeqCst);
    REQS.store(0, SeqCst);
    let r = Arc::new(Rec {
        clock: AtomicU64::new(1),
        fates: Mutex::new(BTreeMap::new()),
        begun: AtomicI64::new(0),
        ended: AtomicI64::new(0),
        reads: Mutex::new(vec![]),
    });
    let o = OptionsBuilder::new()
        .estimated_items_capacity(p.items)
        .weight_capacity(p.cap)
        .shards(p.shards)
        .hot_allocation(p.hot)
        .ghost_allocation(p.ghost)
        .build()
        .unwrap();
    let c = C::with_options(o, We, Hb(p.seed), Lc(r.clone()));
    let sh = Arc::new(Sh { c, r, p: p.clone() });
    for s in &p.init {
        sh.exec(&Op::Insert(*s, false));
    }
    let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..p.threads.len())
        .map(|i| {
            let sh = sh.clone();
            Box::new(move || {
                for op in &sh.p.threads[i] {
                    sh.exec(op);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    run_threads(tasks);
    let c = &sh.c;
    // all calls are done
    sh.observe();
    let (mut n, mut w) = (0usize, 0u64);
    for k in 0..p.keys {
        if let Some(v) = c.peek(&Q(k)) {
            n += 1;
            w += v.0.w as u64;
            sh.r.fate(v.0.id, Fate::Stored);
            sh.read(k, Some(v), sh.r.now());
        }
    }
    if c.len() != n || c.weight() != w || c.is_empty() != (n == 0) {
        fail(ACCT | LIN, &format!("after all calls returned len() is {} and weight() {}, but {n} entries of weight {w} are retrievable", c.len(), c.weight()));
    }
    if w > c.capacity() && !p.pins {
        fail(CAP | LIN, &format!("after all calls returned the weight is {w}, above the capacity {}", c.capacity()));
    }
    let (keys, vals, reqs) = (KEYS.load(SeqCst), VALS.load(SeqCst), REQS.load(SeqCst));
    if keys != n as i64 || vals != n as i64 || reqs != 0 {
        fail(RES, &format!("{keys} keys, {vals} values and {reqs} request states are alive after all calls returned, but {n} entries are stored"));
    }
    // where every value went
    let offered = offered(p);
    let fates = sh.r.fates.lock().unwrap().clone();
    let clears = p.threads.iter().flatten().any(|o| matches!(o, Op::Clear));
    let mut evicted = 0;
    for (s, when) in &offered {
        let f = fates.get(&s.id).map(|f| f.as_slice()).unwrap_or(&[]);
        evicted += f.iter().filter(|f| f.0 == Fate::Evicted).count() as u64;
        if f.len() > 1 {
            let cls = if f.iter().all(|f| f.0 == Fate::Removed) || f.iter().any(|f| f.0 == Fate::Retained) { REMOVE } else { NOTIFY };
            fail(cls | LIN, &format!("v{} of k{} ended up in more than one place: {f:?}", s.id, s.key));
        }
        if f.is_empty() && *when == When::Always && !clears {
            fail(NOTIFY | LOSS | LIN | if p.lossy { REMOVE } else { 0 }, &format!("v{} of k{} was stored or offered, but it is neither retrievable nor was it handed to on_evict or back", s.id, s.key));
        }
        if s.pinned && f.iter().any(|f| f.0 == Fate::Evicted) {
            // legitimate if it was overwritten
            let overwritten = offered.iter().any(|(o, _)| o.key == s.key && o.id != s.id);
            if !overwritten {
                fail(PIN | LOSS, &format!("pinned v{} of k{} was evicted", s.id, s.key));
            }
        }
        if s.w == 0 && f.iter().any(|f| f.0 == Fate::Evicted) && !offered.iter().any(|(o, _)| o.key == s.key && o.id != s.id) {
            fail(PIN | LOSS, &format!("zero-weight v{} of k{} was evicted", s.id, s.key));
        }
        if let Some((fate, t)) = f.first() {
            if matches!(fate, Fate::Evicted | Fate::Removed | Fate::Retained) {
                if let Some(x) = sh.r.reads.lock().unwrap().iter().find(|x| x.0 == s.id && x.1 > *t) {
                    fail(LOOKUP | LIN, &format!("v{} of k{} was read by a call that started ({}) after it had left the cache ({t}, {fate:?})", s.id, s.key, x.1));
                }
            }
        }
    }
    for id in fates.keys() {
        if !offered.iter().any(|(s, _)| s.id == *id) {
            fail(NOTIFY | LIN, &format!("v{id}, which nobody offered, was reported"));
        }
    }
    #[cfg(feature = "stats")]
    {
        let lookups = p.threads.iter().flatten().filter(|o| matches!(o, Op::Get(_) | Op::Goi(..) | Op::Guard(..))).count() as u64;
        let (h, m) = (c.hits(), c.misses());
        if h + m != lookups {
            fail(STATS | LIN, &format!("{lookups} lookups by several threads, but hits() is {h} and misses() {m}"));
        }
    }
    // request states: each begun request ended (failing ones drop their state)
    let (b, e) = (sh.r.begun.load(SeqCst), sh.r.ended.load(SeqCst));
    let failing = fates.values().flatten().filter(|f| f.0 == Fate::Back).count() as i64;
    // a get_or_insert call whose guard was displaced begins a request that fails, too
    let silent = offered.iter().filter(|(_, w)| *w == When::Loader).count() as i64;
    if e > b || e + failing + silent < b {
        fail(HOOK, &format!("{b} requests were begun, but only {e} ended and {failing} failed"));
    }
    let Ok(sh) = Arc::try_unwrap(sh) else {
        fail(PANIC, "a thread still uses the cache");
    };
    drop(sh);
    let (keys, vals) = (KEYS.load(SeqCst), VALS.load(SeqCst));
    if keys != 0 || vals != 0 {
        fail(RES, &format!("{keys} keys and {vals} values are alive after the cache was dropped"));
    }
    *out.lock().unwrap() = Some((evicted, fates.len() as u64));
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum When {
    Always,
    /// if the call got the guard
    Maybe,
    /// if the call ran its loader, and then perhaps not at all
    Loader,
}
fn offered(p: &Plan) -> Vec<(Spec, When)> {
    let mut v: Vec<(Spec, When)> = p.init.iter().map(|s| (*s, When::Always)).collect();
    for t in &p.threads {
        for op in t {
            match op {
                Op::Insert(s, _) | Op::Replace(s, ..) => v.push((*s, When::Always)),
                Op::Guard(s, true, ..) => v.push((*s, When::Maybe)),
                Op::Goi(s, true, _) => v.push((*s, When::Loader)),
                _ => (),
            }
        }
    }
    v
}

pub fn run(src: &mut Src) -> bool {
    let p = Arc::new(plan(src));
    if tracing() {
        tr!(
            "capacity {} shards {} items {} hot {} ghost {} keys {} hash seed {}",
            p.cap, p.shards, p.items, p.hot, p.ghost, p.keys, p.seed
        );
        for s in &p.init {
            tr!("first: insert {s:?}");
        }
        for (i, t) in p.threads.iter().enumerate() {
            tr!("thread {}: {t:?}", i + 1);
        }
    }
    let out = Arc::new(Mutex::new(None));
    let (p2, o2) = (p.clone(), out.clone());
    execute(src, move || body(&p2, &o2));
    let f = out.lock().unwrap().take();
    let Some((evicted, n)) = f else {
        fail(STRAND | FLIGHT | TIMED | PANIC, "the execution ended with blocked tasks");
    };
    label("concurrent case under space pressure");
    label_n("concurrent evictions", evicted);
    evicted > 0 && n > 1 && p.threads.iter().filter(|t| !t.is_empty()).count() > 1
}
