//! C12: scenarios with a known outcome, randomly instantiated, for the eviction policy.

use std::collections::BTreeSet;
use std::time::Duration;

use quick_cache::sync::GuardResult;

use crate::report::*;
use crate::seq::{gen_ghost, gen_hot, hot_target, Cfg};
use crate::tape::Src;
use crate::tr;
use crate::types::*;

enum C {
    U(Box<UCache>),
    S(Box<SCache>),
}

struct P {
    c: C,
    cfg: Cfg,
    /// evicted keys, oldest first
    evicted: Vec<u32>,
    class: u32,
}

impl P {
    fn mk(&self, k: u32) -> V {
        V::new(k, new_vid(), 1, false, Be::Keep)
    }
    fn note(&mut self) {
        for e in take_log() {
            if let Ev::Evict { key, .. } = e {
                self.evicted.push(key);
            }
        }
    }
    fn has(&self, k: u32) -> bool {
        match &self.c {
            C::U(c) => c.contains_key(&KqB(k)),
            C::S(c) => c.contains_key(&KqB(k)),
        }
    }
    fn len(&self) -> usize {
        match &self.c {
            C::U(c) => c.len(),
            C::S(c) => c.len(),
        }
    }
    fn insert(&mut self, k: u32) {
        let v = self.mk(k);
        match &mut self.c {
            C::U(c) => c.insert(K::new(k), v),
            C::S(c) => c.insert(K::new(k), v),
        }
        // overwriting is not an eviction
        self.note();
    }
    fn goi(&mut self, k: u32) {
        let v = self.mk(k);
        match &mut self.c {
            C::U(c) => {
                let _ = c.get_or_insert_with(&KqB(k), || Ok::<_, u8>(v));
            }
            C::S(c) => {
                let _ = c.get_or_insert_with(&KqB(k), || Ok::<_, u8>(v));
            }
        }
        self.note();
    }
    fn guard(&mut self, k: u32, insert: bool) {
        let v = self.mk(k);
        match &mut self.c {
            C::U(c) => {
                if let Err(g) = c.get_ref_or_guard(&KqB(k)) {
                    if insert {
                        g.insert(v)
                    }
                }
            }
            C::S(c) => {
                if let GuardResult::Guard(g) = c.get_value_or_guard(&KqB(k), Some(Duration::ZERO)) {
                    if insert {
                        let _ = g.insert(v);
                    }
                }
            }
        }
        self.note();
    }
    /// admits an absent key by one of the ways
    fn admit(&mut self, k: u32, how: u32) {
        match how {
            0 => self.insert(k),
            1 => self.goi(k),
            _ => self.guard(k, true),
        }
    }
    /// uses a present key: reads it by one of the ways, or gives it a new value
    fn read(&mut self, k: u32, how: u32) {
        let v = (how > 5).then(|| self.mk(k));
        let hit = match (&mut self.c, how) {
            (C::U(c), 0) => c.get(&KqB(k)).is_some(),
            (C::S(c), 0) => c.get(&KqB(k)).is_some(),
            (C::U(c), 1) => c.get_ref_or_guard(&KqB(k)).is_ok(),
            (C::S(c), 1) => matches!(c.get_value_or_guard(&KqB(k), None), GuardResult::Value(_)),
            (C::U(c), 2) => c.get_mut(&KqB(k)).is_some(),
            (C::U(c), 3) => matches!(c.get_or_insert_with(&KqB(k), || Err(1u8)), Ok(Some(_))),
            (C::S(c), 3) => c.get_or_insert_with(&KqB(k), || Err(1u8)).is_ok(),
            (C::U(c), 6) => c.replace(K::new(k), v.unwrap(), false).is_ok(),
            (C::S(c), 6) => c.replace(K::new(k), v.unwrap(), false).is_ok(),
            (C::U(c), 7) => {
                c.insert(K::new(k), v.unwrap());
                true
            }
            (C::S(c), 7) => {
                c.insert(K::new(k), v.unwrap());
                true
            }
            (C::U(c), 4) => matches!(c.get_mut_or_insert_with(&KqB(k), || Err(1u8)), Ok(Some(_))),
            (C::U(c), _) => matches!(c.get_mut_or_guard(&KqB(k)), Ok(Some(_))),
            (C::S(c), _) => c.get(&KqB(k)).is_some(),
        };
        if !hit {
            fail(POLICY | LOSS, &format!("k{k}, which is stored, could not be read or replaced"));
        }
        if how > 5 {
            // the old value is not evicted
            take_log();
        }
        self.note();
    }
    /// so many reads that a counter of them would overflow
    fn hammer(&mut self, src: &mut Src, k: u32) {
        let (n, how) = (65_530 + src.below(12), src.below(8));
        tr!("  k{k} read {n} times by way {how}");
        for _ in 0..n {
            self.read(k, how);
        }
    }
    /// a look that must not count
    fn look(&mut self, k: u32, how: u32) {
        let v = (how == 3).then(|| self.mk(k));
        match (&mut self.c, how) {
            (C::U(c), 0) => drop(c.peek(&KqB(k))),
            (C::S(c), 0) => drop(c.peek(&KqB(k))),
            (C::U(c), 1) => drop(c.peek_mut(&KqB(k))),
            // a soft replacement does not count either
            (C::U(c), 3) => {
                drop(c.replace(K::new(k), v.unwrap(), true));
                take_log();
            }
            (C::S(c), 3) => {
                drop(c.replace(K::new(k), v.unwrap(), true));
                take_log();
            }
            _ => {
                self.has(k);
            }
        }
    }
    fn bad(&self, msg: &str) -> ! {
        fail(self.class, &format!("{msg} [{:?}]", self.cfg))
    }
}

/// one pass over never-seen keys; `looks`: a miss is noticed by a lookup before each insertion
fn scan(p: &mut P, src: &mut Src, next: &mut u32, n: u32, mut each: impl FnMut(&mut P, u32)) {
    let looks = src.below(4);
    tr!("scan of {n} never-seen keys, each inserted after {}", ["nothing", "get", "contains_key", "an abandoned guard"][looks as usize]);
    for i in 0..n {
        let k = *next;
        *next += 1;
        match looks {
            1 => match &mut p.c {
                C::U(c) => drop(c.get(&KqB(k))),
                C::S(c) => drop(c.get(&KqB(k))),
            },
            2 => {
                p.has(k);
            }
            3 => p.guard(k, false),
            _ => (),
        }
        p.insert(k);
        each(p, i);
    }
}

pub fn run(prop: &str, src: &mut Src) -> bool {
    // C09: what was removed must not have a say any more
    let removals = prop == "C09";
    reset_ctx();
    CTX.with(|c| c.unit.set(true));
    set_fuel(i64::MAX);
    let sync = src.chance(1, 2);
    let scenario = if removals { src.weighted(&[1, 2]) } else { src.weighted(&[4, 4, 4, 4, 2, 3]) };
    let cap = match src.weighted(&[5, 4, 2]) {
        0 => src.range(2, 12) as u64,
        1 => src.range(13, 60) as u64,
        _ => src.range(61, 220) as u64,
    };
    let hot = gen_hot(src);
    let ghost = gen_ghost(src);
    let est = match src.weighted(&[4, 2, 2]) {
        0 => cap as usize,
        1 => src.range(1, 8) as usize,
        _ => src.range(9, 300) as usize,
    };
    let hk = Hk::Good(src.below(1 << 16) as u64);
    let cfg = Cfg {
        sync,
        cap,
        hot,
        ghost,
        est,
        shards: 1,
        hk,
        unit: true,
        universe: 0,
        pins: false,
        zeros: false,
        be: false,
        sparse: false,
        probe: false,
    };
    let t = hot_target(cap, hot) as u32;
    let cold = cap as u32 - t;
    tr!("config {cfg:?}: hot share {t}, scenario {scenario}");
    let c = if sync { C::S(Box::new(cfg.sync())) } else { C::U(Box::new(cfg.unsync())) };
    let mut p = P { c, cfg, evicted: vec![], class: POLICY | if removals { REMOVE } else { 0 } };
    let mut next = 1u32;
    let fresh = |next: &mut u32| {
        *next += 1;
        *next - 1
    };
    let max_scan = (cap as u32 * 6 + 20).min(900);
    match scenario {
        // a working set within the hot share survives a scan
        0 => {
            if t == 0 || cold == 0 {
                return false;
            }
            let n = if src.chance(1, 2) { t } else { src.range(1, t) };
            let mut w = vec![];
            for _ in 0..n {
                let k = fresh(&mut next);
                p.admit(k, src.weighted(&[3, 1, 1]) as u32);
                w.push(k);
            }
            tr!("working set of {n} keys inserted");
            if src.chance(1, 3) {
                for &k in &w {
                    if src.chance(1, 3) {
                        match src.below(3) {
                            0 => p.read(k, src.below(8)),
                            1 => p.insert(k),
                            _ => p.look(k, src.below(4)),
                        }
                    }
                }
            }
            // other entries come and go before
            if n < cap as u32 && (removals || src.chance(1, 4)) {
                let x = src.range(1, cap as u32 - n);
                let first = next;
                for _ in 0..x {
                    let k = fresh(&mut next);
                    p.admit(k, src.weighted(&[3, 1, 1]) as u32);
                    if src.chance(1, 3) {
                        p.read(k, 0);
                    }
                }
                let how = src.below(2);
                tr!("{x} other keys inserted and removed by {}", ["remove", "retain"][how as usize]);
                match (&mut p.c, how) {
                    (C::U(c), 0) => (first..first + x).for_each(|k| drop(c.remove(&KqB(k)))),
                    (C::S(c), 0) => (first..first + x).for_each(|k| drop(c.remove(&KqB(k)))),
                    (C::U(c), _) => c.retain(|k, _| k.id() < first),
                    (C::S(c), _) => c.retain(|k, _| k.id() < first),
                }
            }
            let m = src.range(1, max_scan);
            let touch = src.below(3);
            let probe = w[src.below(n) as usize];
            scan(&mut p, src, &mut next, m, |p, i| {
                if touch == 1 && i % 7 == 3 {
                    p.read(probe, 0);
                }
                if touch == 2 && i % 5 == 3 {
                    p.look(probe, 0);
                }
                if !p.has(probe) {
                    p.bad(&format!("k{probe} of a working set of {n} within the hot share {t} did not survive a scan (after {} keys)", i + 1));
                }
            });
            for k in w {
                if !p.has(k) {
                    p.bad(&format!("k{k} of a working set of {n} within the hot share {t} did not survive a scan of {m} keys"));
                }
            }
            label("scenario: scan resistance");
            m as u64 + n as u64 > cap
        }
        // re-inserted while remembered: hot
        1 => {
            let g = (est as f64 * ghost - 1e-6).floor().max(0.0) as usize;
            if t == 0 || cold < 2 || g == 0 {
                return false;
            }
            let mut hots = vec![];
            for _ in 0..t {
                let k = fresh(&mut next);
                p.insert(k);
                hots.push(k);
            }
            let n = cold + src.range(1, 3 * cap as u32);
            tr!("hot share filled, then {n} more keys");
            scan(&mut p, src, &mut next, n, |_, _| ());
            // some other evicted keys are removed or reserved, which makes the cache forget them
            let mut forgotten = BTreeSet::new();
            if removals || src.chance(1, 2) {
                for _ in 0..src.range(1, 6) {
                    let Some(i) = p.evicted.len().checked_sub(1) else { break };
                    let k = p.evicted[i - src.below(i.min(2 * g) as u32 + 1) as usize];
                    if forgotten.insert(k) {
                        let how = if removals { 0 } else { src.below(3) };
                        tr!("evicted k{k} is {}", ["removed", "reserved and abandoned", "loaded in vain"][how as usize]);
                        match (&mut p.c, how) {
                            (C::U(c), 0) => drop(c.remove(&KqB(k))),
                            (C::S(c), 0) => drop(c.remove(&KqB(k))),
                            (C::U(c), 2) => drop(c.get_or_insert_with(&KqB(k), || Err(1u8))),
                            (C::S(c), 2) => drop(c.get_or_insert_with(&KqB(k), || Err(1u8))),
                            _ => p.guard(k, false),
                        }
                    }
                }
                if src.chance(2, 3) {
                    let m = src.range(1, 2 * g.min(100) as u32 + 2);
                    scan(&mut p, src, &mut next, m, |_, _| ());
                }
            }
            let mut back: Vec<u32> = vec![];
            let times = src.range(1, (cold - 1).min(4));
            for _ in 0..times {
                let avail = p.evicted.len().min(g);
                if avail == 0 {
                    break;
                }
                // the oldest remembered one is the most interesting
                let i = match src.weighted(&[1, 1, 1]) {
                    0 => avail - 1,
                    1 => 0,
                    _ => src.below(avail as u32) as usize,
                };
                let at = p.evicted.len() - 1 - i;
                let k = p.evicted[at];
                if back.contains(&k) || forgotten.contains(&k) {
                    continue;
                }
                let how = src.weighted(&[2, 1, 1]) as u32;
                tr!("k{k}, evicted {i} evictions ago (of {g} remembered), is admitted again by way {how}");
                p.admit(k, how);
                if !p.has(k) {
                    p.bad(&format!("k{k} was not admitted on its return"));
                }
                p.evicted.retain(|x| *x != k);
                back.push(k);
                if src.chance(1, 3) {
                    let m = src.range(1, 5);
                    scan(&mut p, src, &mut next, m, |_, _| ());
                }
            }
            let m = src.range(cap as u32, max_scan.max(cap as u32 + 1));
            scan(&mut p, src, &mut next, m, |_, _| ());
            for k in &back {
                if !p.has(*k) {
                    p.bad(&format!("k{k} was re-inserted while among the {g} most recently evicted keys, but did not survive a scan of {m} keys"));
                }
            }
            for k in hots {
                if !p.has(k) {
                    p.bad(&format!("hot k{k} was evicted by a scan"));
                }
            }
            label("scenario: remembered keys");
            !back.is_empty()
        }
        // cold entries that were read are promoted
        2 => {
            if t == 0 || cold == 0 {
                return false;
            }
            for _ in 0..t {
                let k = fresh(&mut next);
                p.admit(k, src.weighted(&[3, 1, 1]) as u32);
            }
            let mut r: BTreeSet<u32> = BTreeSet::new();
            let n = src.range(1, 3 * cold + 5);
            tr!("hot share filled, then {n} more keys, some of which are read");
            let (num, style) = (src.range(1, 4), src.below(8));
            let many = src.chance(1, 4);
            let hammer = src.chance(1, 96);
            let mut fifo: Vec<u32> = vec![];
            for _ in 0..n {
                let k = fresh(&mut next);
                p.insert(k);
                fifo.push(k);
                if src.chance(num, 6) && (r.len() as u32) < t {
                    // not necessarily the newest
                    let j = fifo.len() - 1 - src.below((fifo.len() as u32).min(4)) as usize;
                    let k = fifo[j];
                    if p.has(k) {
                        for _ in 0..(1 + many as u32 * 2) {
                            p.read(k, style);
                        }
                        if hammer && r.is_empty() {
                            p.hammer(src, k);
                        }
                        r.insert(k);
                        tr!("  k{k} read");
                    }
                }
            }
            let m = src.range(cap as u32, max_scan.max(cap as u32 + 1));
            scan(&mut p, src, &mut next, m, |_, _| ());
            for k in &r {
                if !p.has(*k) {
                    p.bad(&format!("k{k} was read before its turn for eviction, with unread hot entries, but did not survive a scan of {m} keys"));
                }
            }
            label("scenario: promotion");
            !r.is_empty()
        }
        // hot entries that were read outlast the unread ones
        3 => {
            if t < 2 || cold == 0 {
                return false;
            }
            let mut a = vec![];
            let mut u = vec![];
            let mut all = vec![];
            for _ in 0..t {
                let k = fresh(&mut next);
                p.admit(k, src.weighted(&[3, 1, 1]) as u32);
                all.push(k);
            }
            let share = src.range(1, 5);
            let hammer = src.chance(1, 96);
            for &k in &all {
                if src.chance(share, 6) {
                    for _ in 0..src.range(1, 3) {
                        p.read(k, src.below(8));
                    }
                    if hammer && a.is_empty() {
                        p.hammer(src, k);
                    }
                    a.push(k);
                } else {
                    if src.chance(1, 3) {
                        p.look(k, src.below(4));
                    }
                    u.push(k);
                }
            }
            if a.is_empty() || u.is_empty() {
                return false;
            }
            // promote as many cold entries as there are unread hot ones
            let n = src.range(1, u.len() as u32);
            tr!("read hot entries {a:?}, unread {u:?}, {n} promotions");
            for _ in 0..n {
                let k = fresh(&mut next);
                p.insert(k);
                p.read(k, src.below(8));
            }
            let m = src.range(cap as u32, max_scan.max(cap as u32 + 1));
            scan(&mut p, src, &mut next, m, |_, _| ());
            for k in &a {
                if !p.has(*k) {
                    let left = u.iter().filter(|x| p.has(**x)).count();
                    p.bad(&format!("hot k{k} was read but did not outlast the unread hot entries ({left} of {} are left after {n} promotions)", u.len()));
                }
            }
            label("scenario: hot order");
            true
        }
        // a fill-up is stored completely
        4 => {
            let n = cap as u32 + src.range(0, 2 * cap as u32);
            let how = src.below(4);
            tr!("fill-up of {n} keys");
            for i in 0..n {
                let k = fresh(&mut next);
                p.admit(k, if how == 3 { src.below(3) } else { how });
                // with a hot share of zero nothing can be admitted
                let want = if t == 0 { 0 } else { (i as usize + 1).min(cap as usize) };
                if p.len() != want {
                    p.bad(&format!("after inserting {} distinct keys of unit weight len() is {}, expected {want}", i + 1, p.len()));
                }
            }
            label("scenario: fill-up");
            true
        }
        // once full it stays above the hot share
        _ => {
            if t == 0 {
                return false;
            }
            let by = src.below(3);
            for _ in 0..cap {
                let k = fresh(&mut next);
                p.admit(k, by);
            }
            let plan = src.plan(10, 250);
            let mut done = 0;
            let span = cap as u32 * 2;
            let mut low = p.len();
            while src.more(done, plan) {
                done += 1;
                let k = next.saturating_sub(src.below(span)).max(1);
                match src.weighted(&[6, 4, 3, 2, 2, 3]) {
                    0 => {
                        if p.has(k) {
                            p.read(k, src.below(8))
                        }
                    }
                    1 => {
                        let k = fresh(&mut next);
                        p.insert(k)
                    }
                    2 => p.insert(k),
                    3 => p.goi(k),
                    4 => p.guard(k, src.chance(1, 2)),
                    _ => {
                        let k = fresh(&mut next);
                        p.admit(k, 1)
                    }
                }
                low = low.min(p.len());
                if p.len() < t as usize {
                    p.bad(&format!("the cache was full, nothing was removed, but len() is {} while the hot share is {t}", p.len()));
                }
            }
            label("scenario: stays full");
            low < cap as usize || done > 20
        }
    }
}
