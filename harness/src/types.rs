//! Keys, values, weighter, lifecycle and hashers of the harness. All of them report what the
//! cache does with them into a thread local context.

use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::hash::{BuildHasher, Hash, Hasher};

use quick_cache::{Equivalent, Lifecycle, Weighter};

use crate::report::{fail, FUEL, HOOK, LOOKUP, NOTIFY, PANIC, RES};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Begin(u32),
    /// request, key, (vid, weight) before, (vid, weight) after, pinned
    Before { req: u32, key: u32, vid: u32, w: u64, w_after: u64, vid_after: u32, pinned: bool },
    /// request, key, vid, weight
    Evict { req: u32, key: u32, vid: u32, w: u64, pinned: bool },
    End(u32),
    Drop(u32),
}

pub struct Ctx {
    pub log: RefCell<Vec<Ev>>,
    pub fuel: Cell<i64>,
    pub next_req: Cell<u32>,
    pub ext_pins: RefCell<BTreeSet<u32>>,
    /// unit weights regardless of the values
    pub unit: Cell<bool>,
    pub next_inst: Cell<u32>,
    pub live: RefCell<Vec<bool>>,
    pub live_k: Cell<i64>,
    pub live_v: Cell<i64>,
    pub live_r: Cell<i64>,
    pub next_vid: Cell<u32>,
    /// log events?
    pub logging: Cell<bool>,
}

thread_local! {
    pub static CTX: Ctx = const { Ctx {
        log: RefCell::new(Vec::new()),
        fuel: Cell::new(i64::MAX),
        next_req: Cell::new(1),
        ext_pins: RefCell::new(BTreeSet::new()),
        unit: Cell::new(false),
        next_inst: Cell::new(0),
        live: RefCell::new(Vec::new()),
        live_k: Cell::new(0),
        live_v: Cell::new(0),
        live_r: Cell::new(0),
        next_vid: Cell::new(1),
        logging: Cell::new(true),
    } };
}

pub fn reset_ctx() {
    CTX.with(|c| {
        c.log.borrow_mut().clear();
        c.fuel.set(i64::MAX);
        c.next_req.set(1);
        c.ext_pins.borrow_mut().clear();
        c.unit.set(false);
        c.next_inst.set(0);
        c.live.borrow_mut().clear();
        c.live_k.set(0);
        c.live_v.set(0);
        c.live_r.set(0);
        c.next_vid.set(1);
        c.logging.set(true);
    })
}

pub fn take_log() -> Vec<Ev> {
    CTX.with(|c| std::mem::take(&mut *c.log.borrow_mut()))
}
pub fn push(e: Ev) {
    CTX.with(|c| {
        if c.logging.get() {
            c.log.borrow_mut().push(e)
        }
    })
}
pub fn new_vid() -> u32 {
    CTX.with(|c| {
        let v = c.next_vid.get();
        c.next_vid.set(v + 1);
        v
    })
}
pub fn live_keys() -> i64 {
    CTX.with(|c| c.live_k.get())
}
pub fn live_vals() -> i64 {
    CTX.with(|c| c.live_v.get())
}
pub fn live_reqs() -> i64 {
    CTX.with(|c| c.live_r.get())
}
pub fn set_fuel(n: i64) {
    CTX.with(|c| c.fuel.set(n))
}

fn burn() {
    CTX.with(|c| {
        let f = c.fuel.get();
        if f <= 0 {
            fail(FUEL | PANIC, "the operation does not terminate: callback budget exhausted");
        }
        c.fuel.set(f - 1);
    })
}

/// Tracks the life of one key or value.
pub struct Inst {
    id: u32,
    key: bool,
}
impl Inst {
    fn new(key: bool) -> Self {
        CTX.with(|c| {
            let id = c.next_inst.get();
            c.next_inst.set(id + 1);
            c.live.borrow_mut().push(true);
            if key {
                c.live_k.set(c.live_k.get() + 1)
            } else {
                c.live_v.set(c.live_v.get() + 1)
            }
            Inst { id, key }
        })
    }
    pub fn check(&self) {
        CTX.with(|c| {
            if !c.live.borrow().get(self.id as usize).copied().unwrap_or(false) {
                fail(PANIC | RES | LOOKUP, "a dropped key or value is still in use");
            }
        })
    }
}
impl Drop for Inst {
    fn drop(&mut self) {
        let _ = CTX.try_with(|c| {
            let mut live = c.live.borrow_mut();
            match live.get_mut(self.id as usize) {
                Some(l) if *l => *l = false,
                _ => fail(PANIC | RES, "a key or value was dropped twice"),
            }
            if self.key {
                c.live_k.set(c.live_k.get() - 1)
            } else {
                c.live_v.set(c.live_v.get() - 1)
            }
        });
    }
}

impl std::borrow::ToOwned for KqB {
    type Owned = K;
    fn to_owned(&self) -> K {
        K::new(self.0)
    }
}

/// The borrowed form of a key (not Clone, so that its Owned form can be K).
#[derive(PartialEq, Eq, Debug)]
#[repr(transparent)]
pub struct KqB(pub u32);
impl Hash for KqB {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write_u32(self.0)
    }
}

/// An equivalent form that does not go through Borrow.
pub struct Kalt {
    pub hi: u16,
    pub lo: u16,
}
impl Kalt {
    pub fn new(k: u32) -> Self {
        Kalt { hi: (k >> 16) as u16, lo: k as u16 }
    }
}
impl Hash for Kalt {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write_u32(((self.hi as u32) << 16) | self.lo as u32)
    }
}
impl Equivalent<K> for Kalt {
    fn equivalent(&self, key: &K) -> bool {
        key.inst.check();
        key.id.0 == (((self.hi as u32) << 16) | self.lo as u32)
    }
}

pub struct K {
    pub id: KqB,
    pub inst: Inst,
    /// identifies this key among equal ones; clones share it
    pub tag: u32,
}
impl K {
    pub fn new(id: u32) -> Self {
        let inst = Inst::new(true);
        K { id: KqB(id), tag: inst.id + 1, inst }
    }
    pub fn inst_id(&self) -> u32 {
        self.inst.check();
        self.inst.id
    }
    pub fn id(&self) -> u32 {
        self.inst.check();
        self.id.0
    }
}
impl Clone for K {
    fn clone(&self) -> Self {
        K { tag: self.tag, ..K::new(self.id()) }
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.inst.check();
        o.inst.check();
        self.id == o.id
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.inst.check();
        self.id.hash(state)
    }
}
impl std::borrow::Borrow<KqB> for K {
    fn borrow(&self) -> &KqB {
        self.inst.check();
        &self.id
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Be {
    Keep,
    Zero,
    To(u64),
}

pub struct V {
    /// identifies what was written; unique per write
    pub vid: u32,
    /// the key it was written for
    pub key: u32,
    pub w: u64,
    pub pinned: bool,
    /// what before_evict does to it
    pub be: Be,
    pub inst: Inst,
    /// the tag of the very key it was stored with, if known
    pub ktag: u32,
}
impl V {
    pub fn new(key: u32, vid: u32, w: u64, pinned: bool, be: Be) -> Self {
        V { vid, key, w, pinned, be, inst: Inst::new(false), ktag: 0 }
    }
    /// came with the key it was stored with (not just an equal one)
    pub fn own_key(&self, k: &K) -> bool {
        self.ktag == 0 || self.ktag == k.tag
    }
}
impl Clone for V {
    fn clone(&self) -> Self {
        self.inst.check();
        V { vid: self.vid, key: self.key, w: self.w, pinned: self.pinned, be: self.be, inst: Inst::new(false), ktag: self.ktag }
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.vid)
    }
}
impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.id.0)
    }
}

pub const BE_BIT: u32 = 1 << 30;

fn pair_check(k: &K, v: &V) {
    k.inst.check();
    v.inst.check();
    if k.id.0 != v.key {
        fail(LOOKUP | HOOK, &format!("a callback got key k{} with a value stored for k{}", k.id.0, v.key));
    }
}

#[derive(Clone)]
pub struct We;
impl Weighter<K, V> for We {
    fn weight(&self, k: &K, v: &V) -> u64 {
        burn();
        pair_check(k, v);
        if CTX.with(|c| c.unit.get()) {
            1
        } else {
            v.w
        }
    }
}

pub struct Req(pub u32);
impl Drop for Req {
    fn drop(&mut self) {
        let _ = CTX.try_with(|c| c.live_r.set(c.live_r.get() - 1));
        push(Ev::Drop(self.0));
    }
}

#[derive(Clone)]
pub struct Lc;
impl Lifecycle<K, V> for Lc {
    type RequestState = Req;
    fn is_pinned(&self, k: &K, v: &V) -> bool {
        burn();
        pair_check(k, v);
        is_pinned(k.id.0, v)
    }
    fn begin_request(&self) -> Req {
        CTX.with(|c| {
            let r = c.next_req.get();
            c.next_req.set(r + 1);
            c.live_r.set(c.live_r.get() + 1);
            push(Ev::Begin(r));
            Req(r)
        })
    }
    fn before_evict(&self, st: &mut Req, k: &K, v: &mut V) {
        burn();
        pair_check(k, v);
        let (vid, w, pinned) = (v.vid, weight_of(v), is_pinned(k.id.0, v));
        match v.be {
            Be::Keep => (),
            Be::Zero => {
                v.w = 0;
                v.vid |= BE_BIT;
            }
            Be::To(nw) => {
                v.w = nw;
                v.vid |= BE_BIT;
            }
        }
        push(Ev::Before { req: st.0, key: k.id.0, vid, w, w_after: weight_of(v), vid_after: v.vid, pinned });
    }
    fn on_evict(&self, st: &mut Req, k: K, v: V) {
        burn();
        pair_check(&k, &v);
        if !v.own_key(&k) {
            fail(NOTIFY, &format!("on_evict got v{} with a key equal to, but not the one it was stored with", v.vid));
        }
        push(Ev::Evict { req: st.0, key: k.id.0, vid: v.vid, w: weight_of(&v), pinned: is_pinned(k.id.0, &v) });
    }
    fn end_request(&self, st: Req) {
        push(Ev::End(st.0));
    }
}
pub fn is_pinned(k: u32, v: &V) -> bool {
    v.pinned || CTX.with(|c| c.ext_pins.borrow().contains(&k))
}
pub fn weight_of(v: &V) -> u64 {
    if CTX.with(|c| c.unit.get()) {
        1
    } else {
        v.w
    }
}

/// Hash functions: good ones (by seed) and bad ones.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hk {
    Good(u64),
    Identity,
    /// all keys collide
    Const(u64),
    /// only n distinct hashes
    Few(u64),
    /// only the high 7 bits and the middle bits vary
    Tags,
    /// a multiple of 2^32
    Shifted,
}
impl Hk {
    pub fn hash(&self, k: u32) -> u64 {
        let x = k as u64;
        match *self {
            Hk::Good(s) => crate::tape::mix(s, x),
            Hk::Identity => x,
            Hk::Const(c) => c,
            Hk::Few(n) => crate::tape::mix(n, x % n),
            Hk::Tags => (x << 57) | ((x & 3) << 32),
            Hk::Shifted => x << 32,
        }
    }
    pub fn collides(&self) -> bool {
        matches!(self, Hk::Const(_) | Hk::Few(_) | Hk::Tags)
    }
}
#[derive(Clone)]
pub struct Hb(pub Hk);
pub struct Hs(Hk, u32);
impl BuildHasher for Hb {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(self.0, 0)
    }
}
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        self.0.hash(self.1)
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.1 = self.1.wrapping_mul(257).wrapping_add(b as u32);
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.1 = i;
    }
}

pub type UCache = quick_cache::unsync::Cache<K, V, We, Hb, Lc>;
pub type SCache = quick_cache::sync::Cache<K, V, We, Hb, Lc>;
pub type SGuard = quick_cache::sync::PlaceholderGuard<'static, K, V, We, Hb, Lc>;
