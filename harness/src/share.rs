//! C27: operations that have nothing to do with each other do not wait for each other. Some
//! threads stop inside a read (in the value's `clone` or the key's comparison) or inside a loader
//! until another thread has completed its calls. If those have to wait, nobody goes on.

use std::future::Future;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

#[cfg(feature = "shuttle")]
use shuttle::{
    sync::{Condvar, Mutex},
    thread,
};
#[cfg(not(feature = "shuttle"))]
use std::{
    sync::{Condvar, Mutex},
    thread,
};

use quick_cache::sync::{Cache, DefaultLifecycle, GuardResult};
use quick_cache::{OptionsBuilder, Weighter};

use crate::conc::{drive, execute, run_threads, SHUTTLE};
use crate::report::*;
use crate::tape::Src;
use crate::tr;
use crate::types::{Hb, Hk};

/// where the holders are
struct Gate {
    st: Mutex<(u32, bool)>,
    cv: Condvar,
    /// the threads that stop, and whether in a comparison
    armed: std::sync::Mutex<Vec<(thread::ThreadId, bool)>>,
}
impl Gate {
    fn arm(&self, eq: bool) {
        self.armed.lock().unwrap().push((thread::current().id(), eq));
    }
    fn disarm(&self) {
        let me = thread::current().id();
        self.armed.lock().unwrap().retain(|a| a.0 != me);
    }
    fn stop(&self, eq: bool) {
        let me = thread::current().id();
        {
            let mut a = self.armed.lock().unwrap();
            let Some(i) = a.iter().position(|a| *a == (me, eq)) else { return };
            a.remove(i);
        }
        self.inside();
    }
    fn inside(&self) {
        let mut g = self.st.lock().unwrap();
        g.0 += 1;
        self.cv.notify_all();
        while !g.1 {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn await_inside(&self, n: u32) {
        let mut g = self.st.lock().unwrap();
        while g.0 < n {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn open(&self) {
        self.st.lock().unwrap().1 = true;
        self.cv.notify_all();
    }
}

#[derive(Clone)]
struct K(u32, Arc<Gate>);
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(self.0)
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.1.stop(true);
        self.0 == o.0
    }
}
impl Eq for K {}

struct V(u32, Arc<Gate>);
impl Clone for V {
    fn clone(&self) -> V {
        self.1.stop(false);
        V(self.0, self.1.clone())
    }
}
#[derive(Clone)]
struct We;
impl Weighter<K, V> for We {
    fn weight(&self, _: &K, _: &V) -> u64 {
        1
    }
}
type Lc = DefaultLifecycle<K, V>;
type C = Cache<K, V, We, Hb, Lc>;

#[derive(Clone, Copy, Debug)]
enum Read {
    Get,
    Peek,
    Has,
    Goi,
    Guard,
    GuardAsync,
    GoiAsync,
    Len,
    Weight,
    Empty,
    Cap,
    Stats,
    Fmt,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Read(Read, u32),
    Insert(u32),
    Replace(u32, bool),
    Remove(u32),
    /// get-or-guard without waiting, and whether a guard is inserted
    Try(u32, bool),
    Goi(u32, bool),
    Clear,
    Retain(u32),
    Reserve(u32),
}

fn gen_read(src: &mut Src, hits: bool) -> Read {
    use Read::*;
    let list = [Get, Peek, Has, Goi, Guard, GuardAsync, GoiAsync, Len, Weight, Empty, Cap, Stats, Fmt];
    list[src.below(if hits { 7 } else { 13 }) as usize]
}

fn read(c: &C, g: &Arc<Gate>, r: Read, k: u32, stored: bool) {
    let key = K(k, g.clone());
    let got = match r {
        Read::Get => c.get(&key).map(|v| v.0),
        Read::Peek => c.peek(&key).map(|v| v.0),
        Read::Has => c.contains_key(&key).then_some(k),
        Read::Goi => c.get_or_insert_with(&key, || Err(())).ok().map(|v| v.0),
        Read::Guard => match c.get_value_or_guard(&key, None) {
            GuardResult::Value(v) => Some(v.0),
            _ => None,
        },
        Read::GuardAsync => match drive(Box::pin(c.get_value_or_guard_async(&key)).as_mut(), None, 0) {
            Some(Ok(v)) => Some(v.0),
            _ => None,
        },
        Read::GoiAsync => match drive(Box::pin(c.get_or_insert_async(&key, async { Err(()) })).as_mut(), None, 0) {
            Some(Ok(v)) => Some(v.0),
            _ => None,
        },
        Read::Len => {
            let _ = c.len();
            return;
        }
        Read::Weight => {
            let _ = c.weight();
            return;
        }
        Read::Empty => {
            let _ = c.is_empty();
            return;
        }
        Read::Cap => {
            let _ = c.capacity() + c.shard_capacity();
            return;
        }
        Read::Stats => {
            #[cfg(feature = "stats")]
            let _ = c.hits() + c.misses();
            return;
        }
        Read::Fmt => return drop(format!("{c:?}")),
    };
    if stored && got != Some(k) {
        fail(LOOKUP | SHARE, &format!("{r:?} of k{k}, which is stored, returned {got:?}"));
    }
}

fn exec(c: &C, g: &Arc<Gate>, op: Op) {
    let key = |k: u32| K(k, g.clone());
    let val = |k: u32| V(k, g.clone());
    match op {
        Op::Read(r, k) => read(c, g, r, k, false),
        Op::Insert(k) => c.insert(key(k), val(k)),
        Op::Replace(k, soft) => drop(c.replace(key(k), val(k), soft)),
        Op::Remove(k) => drop(c.remove(&key(k))),
        // the scheduler does not let timeouts pass
        Op::Try(k, ins) if SHUTTLE => {
            let kk = key(k);
            let mut f = Box::pin(c.get_value_or_guard_async(&kk));
            let r = drive(f.as_mut(), Some(1), 0);
            drop(f);
            if let Some(Err(g)) = r {
                if ins {
                    let _ = g.insert(val(k));
                }
            }
        }
        Op::Try(k, ins) => {
            if let GuardResult::Guard(g) = c.get_value_or_guard(&key(k), Some(Duration::ZERO)) {
                if ins {
                    let _ = g.insert(val(k));
                }
            }
        }
        Op::Goi(k, ok) => drop(c.get_or_insert_with(&key(k), || if ok { Ok(val(k)) } else { Err(()) })),
        Op::Clear => c.clear(),
        Op::Retain(m) => c.retain(|k, _| k.0 % m != 0),
        Op::Reserve(n) => c.reserve(n as usize),
    }
}

#[derive(Clone, Debug)]
enum Plan {
    /// readers that stop inside a read, in a comparison or not; reads by another thread
    Reads(Vec<(Read, u32, bool)>, Vec<(Read, u32)>),
    /// a load of k0 (by a loader, a guard, or an async guard) which ends in a value or not, with
    /// blocked and pending waiters; calls by another thread
    Load { how: u32, ok: bool, waiters: u32, pending: u32, ops: Vec<Op> },
    /// a call on a stored key stops in a comparison; calls on many other keys, perhaps while one
    /// on the whole cache waits for the first
    Shards(Op, u32, u32, Option<Op>),
}

fn body(plan: &Plan, shards: usize, hk: Hk, keys: u32) {
    let gate = Arc::new(Gate { st: Mutex::new((0, false)), cv: Condvar::new(), armed: Default::default() });
    let o = OptionsBuilder::new().estimated_items_capacity(1000).weight_capacity(8000).shards(shards).build().unwrap();
    let c = Arc::new(C::with_options(o, We, Hb(hk), Lc::default()));
    for k in 1..=keys {
        c.insert(K(k, gate.clone()), V(k, gate.clone()));
    }
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
    match plan.clone() {
        Plan::Reads(holders, ops) => {
            let n = holders.len() as u32;
            for (r, k, eq) in holders {
                let (c, gate) = (c.clone(), gate.clone());
                tasks.push(Box::new(move || {
                    gate.arm(eq || matches!(r, Read::Has));
                    read(&c, &gate, r, k, true);
                    gate.disarm();
                }));
            }
            let (c, gate) = (c.clone(), gate.clone());
            tasks.push(Box::new(move || {
                gate.await_inside(n);
                for (r, k) in ops {
                    read(&c, &gate, r, k, true);
                }
                gate.open();
            }));
        }
        Plan::Load { how, ok, waiters, pending, ops } => {
            let (c1, g1) = (c.clone(), gate.clone());
            tasks.push(Box::new(move || {
                let key = K(0, g1.clone());
                let wait = || g1.inside();
                let val = V(0, g1.clone());
                match how {
                    0 => {
                        let _ = c1.get_or_insert_with(&key, || {
                            wait();
                            if ok { Ok(val) } else { Err(()) }
                        });
                    }
                    1 => {
                        let GuardResult::Guard(g) = c1.get_value_or_guard(&key, None) else {
                            fail(GUARD | SHARE, "no guard for an absent key")
                        };
                        wait();
                        if ok {
                            let _ = g.insert(val);
                        }
                    }
                    _ => {
                        let f = c1.get_or_insert_async(&key, async {
                            wait();
                            if ok { Ok(val) } else { Err(()) }
                        });
                        drive(Box::pin(f).as_mut(), None, 0);
                    }
                }
            }));
            for _ in 0..waiters {
                let (c, gate) = (c.clone(), gate.clone());
                tasks.push(Box::new(move || {
                    gate.await_inside(1);
                    let key = K(0, gate.clone());
                    let _ = c.get_or_insert_with(&key, || Ok::<_, ()>(V(0, gate.clone())));
                }));
            }
            let (c, gate) = (c.clone(), gate.clone());
            tasks.push(Box::new(move || {
                gate.await_inside(1);
                let key = K(0, gate.clone());
                let mut fs: Vec<_> = (0..pending).map(|_| Box::pin(c.get_value_or_guard_async(&key))).collect();
                for f in &mut fs {
                    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                        Poll::Pending => (),
                        Poll::Ready(_) => fail(FLIGHT | SHARE, "a second call obtained an outcome while the key was being loaded"),
                    }
                }
                for op in ops {
                    exec(&c, &gate, op);
                }
                gate.open();
                drop(fs);
            }));
        }
        Plan::Shards(hold, by, n, whole) => {
            let (c1, g1) = (c.clone(), gate.clone());
            tasks.push(Box::new(move || {
                g1.arm(true);
                exec(&c1, &g1, hold);
                g1.disarm();
            }));
            if let Some(op) = whole {
                let (c, gate) = (c.clone(), gate.clone());
                tasks.push(Box::new(move || {
                    gate.await_inside(1);
                    exec(&c, &gate, op);
                }));
            }
            for k in 2..2 + n {
                let (c, gate) = (c.clone(), gate.clone());
                tasks.push(Box::new(move || {
                    gate.await_inside(1);
                    // let the other one begin
                    if whole.is_some() && SHUTTLE {
                        (0..6).for_each(|_| thread::yield_now());
                    } else if whole.is_some() {
                        thread::sleep(Duration::from_millis(3));
                    }
                    let op = match by {
                        0 => Op::Insert(k),
                        1 => Op::Remove(k),
                        2 => Op::Try(k, true),
                        3 => Op::Goi(k + 1000, true),
                        _ => Op::Insert(k + 1000),
                    };
                    exec(&c, &gate, op);
                    gate.open();
                }));
            }
        }
    }
    run_threads(tasks);
}

pub fn run(src: &mut Src) -> bool {
    let kind = src.weighted(&[40, 40, 1]);
    let shards = if kind == 2 { src.range(2, 8) } else { src.range(1, 4) } as usize;
    let mut hk = if src.chance(1, 4) { Hk::Const(src.pick(&[0u64, u64::MAX])) } else { Hk::Good(src.below(1 << 16) as u64) };
    let mut keys = src.range(1, 5);
    let plan = match kind {
        0 => {
            let holders = (0..src.range(1, 3)).map(|_| (gen_read(src, true), src.range(1, keys), src.chance(1, 3))).collect();
            let ops = (0..src.range(1, 5)).map(|_| (gen_read(src, false), src.range(1, keys))).collect();
            Plan::Reads(holders, ops)
        }
        1 => {
            let how = src.below(3);
            let (waiters, pending) = (src.below(3), src.below(3));
            let ops = (0..src.range(1, 6))
                .map(|_| {
                    let any = src.range(0, keys + 2);
                    let other = src.range(1, keys + 2);
                    match src.weighted(&[4, 4, 2, 3, 3, 3, 1, 1, 1]) {
                        0 => {
                            let r = gen_read(src, false);
                            let waits = matches!(r, Read::Goi | Read::Guard | Read::GuardAsync | Read::GoiAsync);
                            Op::Read(r, if waits { other } else { any })
                        }
                        1 => Op::Insert(any),
                        2 => Op::Replace(any, src.chance(1, 2)),
                        3 => Op::Remove(any),
                        4 => Op::Try(any, src.chance(1, 2)),
                        5 => Op::Goi(other, src.chance(2, 3)),
                        6 => Op::Clear,
                        7 => Op::Retain(src.range(1, 4)),
                        _ => Op::Reserve(src.below(100)),
                    }
                })
                .collect();
            Plan::Load { how, ok: src.chance(1, 2), waiters, pending, ops }
        }
        _ => {
            hk = Hk::Good(src.below(1 << 16) as u64);
            keys = 48;
            let hold = match src.below(5) {
                0 => Op::Read(Read::Get, 1),
                1 => Op::Insert(1),
                2 => Op::Remove(1),
                3 => Op::Replace(1, src.chance(1, 2)),
                _ => Op::Try(1, true),
            };
            let whole = src.chance(1, 2).then(|| match src.below(7) {
                0 => Op::Clear,
                1 => Op::Retain(src.range(1, 4)),
                2 => Op::Reserve(src.below(100)),
                3 => Op::Read(Read::Len, 0),
                4 => Op::Read(Read::Weight, 0),
                5 => Op::Read(Read::Empty, 0),
                _ => Op::Read(Read::Stats, 0),
            });
            Plan::Shards(hold, src.below(5), 40, whole)
        }
    };
    tr!("shards {shards}, {hk:?}, keys 1..={keys} stored, {plan:?}");
    label(["readers inside", "load in progress", "other shards"][kind as usize]);
    let nt = match &plan {
        Plan::Reads(_, ops) => ops.iter().any(|o| (o.0 as u32) < 7),
        Plan::Load { ops, .. } => ops.iter().any(|o| !matches!(o, Op::Read(..))),
        Plan::Shards(..) => true,
    };
    let done = Arc::new(AtomicU64::new(0));
    let d = done.clone();
    execute(src, move || {
        body(&plan, shards, hk, keys);
        d.store(1, SeqCst);
    });
    if done.load(SeqCst) != 1 {
        fail(SHARE | PANIC, "the execution ended with a blocked task");
    }
    nt
}
