//! C29: what a call costs does not grow with the size of the cache. The work is counted in calls of
//! the user's code (hashing and comparing keys, weights, pin queries, hooks), which is exact; a few
//! cases with very many entries measure processor time, for work that calls none of it.

use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::time::Duration;

use quick_cache::sync::GuardResult;
use quick_cache::{Lifecycle, OptionsBuilder, Weighter};

use crate::report::*;
use crate::tape::{Rng, Src};
use crate::tr;
use crate::types::{Hb, Hk, Hs};

thread_local! {
    static WORK: Cell<u64> = const { Cell::new(0) };
}
fn work() {
    WORK.set(WORK.get() + 1);
}

#[derive(Clone, Debug)]
struct Wk(u32);
impl PartialEq for Wk {
    fn eq(&self, o: &Wk) -> bool {
        work();
        self.0 == o.0
    }
}
impl Eq for Wk {}
impl Hash for Wk {
    fn hash<H: Hasher>(&self, h: &mut H) {
        work();
        self.0.hash(h)
    }
}
#[derive(Clone)]
struct We;
impl Weighter<Wk, u64> for We {
    fn weight(&self, _: &Wk, v: &u64) -> u64 {
        work();
        *v
    }
}
#[derive(Clone)]
struct Lc;
impl Lifecycle<Wk, u64> for Lc {
    type RequestState = ();
    fn begin_request(&self) {
        work();
    }
    fn is_pinned(&self, _: &Wk, _: &u64) -> bool {
        work();
        false
    }
    fn before_evict(&self, _: &mut (), _: &Wk, _: &mut u64) {
        work();
    }
    fn on_evict(&self, _: &mut (), _: Wk, _: u64) {
        work();
    }
}
#[derive(Clone)]
struct Bh(Hk);
impl std::hash::BuildHasher for Bh {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hb(self.0).build_hasher()
    }
}
type U = quick_cache::unsync::Cache<Wk, u64, We, Bh, Lc>;
type S = quick_cache::sync::Cache<Wk, u64, We, Bh, Lc>;

#[derive(Clone, Copy, Debug)]
enum Op {
    Get,
    Peek,
    Has,
    Sizes,
    Miss,
    InsertNew,
    Overwrite,
    Replace(bool),
    ReplaceAbsent,
    RemoveInsert,
    RemoveAbsent,
    Load,
    LoadFails,
    Guard,
    GuardDrop,
    Mutate,
    PeekMut,
}
impl Op {
    fn read(self) -> bool {
        matches!(self, Op::Get | Op::Peek | Op::Has | Op::Sizes | Op::Miss)
    }
}

trait Cache {
    fn op(&mut self, op: Op, k: u32, new: u32, w: u64);
}
impl Cache for U {
    fn op(&mut self, op: Op, k: u32, new: u32, w: u64) {
        let k = Wk(k);
        match op {
            Op::Get => drop(self.get(&k)),
            Op::Peek => drop(self.peek(&k)),
            Op::Has => drop(self.contains_key(&k)),
            Op::Sizes => drop((self.len(), self.weight(), self.is_empty(), self.capacity())),
            Op::Miss => drop((self.get(&Wk(new)), self.peek(&Wk(new)), self.contains_key(&Wk(new)))),
            Op::InsertNew => self.insert(Wk(new), w),
            Op::Overwrite => self.insert(k, w),
            Op::Replace(soft) => drop(self.replace(k, w, soft)),
            Op::ReplaceAbsent => drop(self.replace(Wk(new), w, false)),
            Op::RemoveInsert => {
                self.remove(&k);
                self.insert(k, w);
            }
            Op::RemoveAbsent => drop(self.remove(&Wk(new))),
            Op::Load => drop(self.get_or_insert_with(&Wk(new), || Ok::<_, ()>(w)).is_ok()),
            Op::LoadFails => drop(self.get_or_insert_with(&Wk(new), || Err(())).is_ok()),
            Op::Guard => {
                if let Err(g) = self.get_ref_or_guard(&Wk(new)) {
                    g.insert(w);
                }
            }
            Op::GuardDrop => drop(self.get_ref_or_guard(&Wk(new)).is_ok()),
            Op::Mutate => {
                if let Some(mut v) = self.get_mut(&k) {
                    *v = w;
                }
            }
            Op::PeekMut => {
                if let Some(v) = self.peek_mut(&k) {
                    let _ = *v;
                }
            }
        }
    }
}
impl Cache for S {
    fn op(&mut self, op: Op, k: u32, new: u32, w: u64) {
        let k = Wk(k);
        match op {
            Op::Get => drop(self.get(&k)),
            Op::Peek => drop(self.peek(&k)),
            Op::Has => drop(self.contains_key(&k)),
            Op::Sizes => drop((self.len(), self.weight(), self.is_empty(), self.capacity(), self.num_shards(), self.shard_capacity())),
            Op::Miss => drop((self.get(&Wk(new)), self.peek(&Wk(new)), self.contains_key(&Wk(new)))),
            Op::InsertNew => self.insert(Wk(new), w),
            Op::Overwrite => self.insert(k, w),
            Op::Replace(soft) => drop(self.replace(k, w, soft)),
            Op::ReplaceAbsent => drop(self.replace(Wk(new), w, false)),
            Op::RemoveInsert => {
                self.remove(&k);
                self.insert(k, w);
            }
            Op::RemoveAbsent => drop(self.remove(&Wk(new))),
            Op::Load | Op::Mutate => drop(self.get_or_insert_with(&Wk(new), || Ok::<_, ()>(w))),
            Op::LoadFails | Op::PeekMut => drop(self.get_or_insert_with(&Wk(new), || Err(()))),
            Op::Guard => {
                if let GuardResult::Guard(g) = self.get_value_or_guard(&Wk(new), Some(Duration::ZERO)) {
                    let _ = g.insert(w);
                }
            }
            Op::GuardDrop => drop(self.get_value_or_guard(&Wk(new), Some(Duration::ZERO))),
        }
    }
}

fn cpu() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

pub fn run(src: &mut Src) -> bool {
    let huge = src.chance(1, 400);
    let sync = src.chance(1, 2);
    let shards = if sync { src.pick(&[1usize, 4, 16]) } else { 1 };
    let n = if huge { 131_072 } else { src.range(600, 3000) };
    let unit = src.chance(1, 2);
    let hot = src.pick(&[0.97, 0.5, 0.9]);
    let ghost = src.pick(&[0.5, 1.0, 0.0]);
    let o = OptionsBuilder::new()
        .estimated_items_capacity(n as usize)
        .weight_capacity(n as u64 * if unit { 1 } else { 2 })
        .hot_allocation(hot)
        .ghost_allocation(ghost)
        .shards(shards)
        .build()
        .unwrap();
    let plan = src.plan(1, 4);
    let mut ops: Vec<Op> = vec![];
    while src.more(ops.len() as u32, plan) {
        ops.push(match src.below(18) {
            0 => Op::InsertNew,
            1 => Op::Get,
            2 => Op::Peek,
            3 => Op::Has,
            4 => Op::Sizes,
            5 => Op::Miss,
            6 => Op::Overwrite,
            7 => Op::Replace(false),
            8 => Op::Replace(true),
            9 => Op::ReplaceAbsent,
            10 => Op::RemoveInsert,
            11 => Op::RemoveAbsent,
            12 => Op::Load,
            13 => Op::LoadFails,
            14 => Op::Guard,
            15 => Op::GuardDrop,
            16 => Op::Mutate,
            _ => Op::PeekMut,
        });
    }
    if ops.is_empty() {
        return false;
    }
    // over the capacity (so entries are evicted and remembered), or not
    let fill = src.pick(&[n * 2, n, n / 2]);
    let recent = src.chance(1, 2);
    let h = Bh(Hk::Good(src.below(1 << 16) as u64));
    tr!("sync={sync} shards={shards} entries={n} fill={fill} unit={unit} hot={hot} ghost={ghost} recent={recent}: {ops:?}");
    let mut rng = Rng::new(src.below(1 << 20) as u64);
    let mut c: Box<dyn Cache> = if sync { Box::new(S::with_options(o, We, h, Lc)) } else { Box::new(U::with_options(o, We, h, Lc)) };
    let mut next = 0u32;
    for _ in 0..fill {
        next += 1;
        c.op(Op::InsertNew, 0, next, if unit { 1 } else { 1 + rng.next() % 3 });
    }
    let mut one = |c: &mut Box<dyn Cache>, op: Op| {
        next += 1;
        let span = if recent { 50.min(fill) } else { fill };
        let k = next.wrapping_sub(1 + (rng.next() % span as u64) as u32);
        let w = if unit { 1 } else { 1 + rng.next() % 3 };
        c.op(op, k, next, w);
    };
    if huge {
        for &op in &ops {
            let mut best = Duration::MAX;
            const N: u32 = 1000;
            // the cheapest of several batches, far below what looking at every entry costs
            let limit = Duration::from_micros(25) * N;
            for _ in 0..8 {
                let t = cpu();
                for _ in 0..N {
                    one(&mut c, op);
                }
                best = best.min(cpu() - t);
                if best < limit {
                    break;
                }
            }
            if best >= limit {
                fail(COST, &format!("with {} entries, {N} times {op:?} took {best:?} of processor time or more", fill.min(n)));
            }
        }
        label("processor time, 131072 entries");
        return true;
    }
    let rounds = n;
    let start = WORK.get();
    let mut most = 0;
    for _ in 0..rounds {
        for &op in &ops {
            let before = WORK.get();
            one(&mut c, op);
            let d = WORK.get() - before;
            if op.read() {
                most = most.max(d);
                if d > 150 {
                    fail(COST, &format!("{op:?} with {} entries made {d} calls of the user's code", fill.min(n)));
                }
            }
        }
    }
    let total = WORK.get() - start;
    let calls = rounds as u64 * ops.len() as u64;
    let bound = 60 * calls + 20 * n as u64;
    if total > bound {
        fail(COST, &format!("{calls} calls with {} entries made {total} calls of the user's code, {} each", fill.min(n), total / calls));
    }
    label_n("calls", calls);
    label_n("calls of the user's code", total);
    if most > 30 {
        label("a read with over 30 comparisons");
    }
    ops.iter().any(|o| !matches!(o, Op::Sizes))
}
