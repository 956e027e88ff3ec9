//! Failure reporting. A failure ends the process at once (no unwinding through a cache that may
//! be in a bad state): exit 77 if it violates the property being checked, 78 if it only violates
//! another property.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, Ordering::Relaxed};

use crate::tape::Src;

pub const LOOKUP: u32 = 1 << 0;
pub const LOSS: u32 = 1 << 1;
pub const CAP: u32 = 1 << 2;
pub const ACCT: u32 = 1 << 3;
pub const NOTIFY: u32 = 1 << 4;
pub const PIN: u32 = 1 << 5;
pub const HOOK: u32 = 1 << 6;
pub const MUT: u32 = 1 << 7;
pub const REMOVE: u32 = 1 << 8;
pub const REPL: u32 = 1 << 9;
pub const GUARD: u32 = 1 << 10;
pub const RES: u32 = 1 << 11;
pub const STATS: u32 = 1 << 12;
pub const FUEL: u32 = 1 << 13;
pub const NEUTRAL: u32 = 1 << 14;
pub const POLICY: u32 = 1 << 15;
pub const SAME: u32 = 1 << 16;
pub const CLONE: u32 = 1 << 17;
pub const FLIGHT: u32 = 1 << 18;
pub const STRAND: u32 = 1 << 19;
pub const ASYNC: u32 = 1 << 20;
pub const LIN: u32 = 1 << 21;
pub const TIMED: u32 = 1 << 22;
pub const CONFIG: u32 = 1 << 23;
pub const LOCKS: u32 = 1 << 24;
pub const ALLOC: u32 = 1 << 25;
pub const SHARE: u32 = 1 << 26;
pub const FAULT: u32 = 1 << 27;
pub const COST: u32 = 1 << 28;
/// a panic, memory error or endless loop inside the cache: no property survives it
pub const PANIC: u32 = 1 << 31;

pub fn class_names(c: u32) -> String {
    let names = [
        "LOOKUP", "LOSS", "CAP", "ACCT", "NOTIFY", "PIN", "HOOK", "MUT", "REMOVE", "REPL", "GUARD", "RES",
        "STATS", "FUEL", "NEUTRAL", "POLICY", "SAME", "CLONE", "FLIGHT", "STRAND", "ASYNC", "LIN", "TIMED",
        "CONFIG", "LOCKS", "ALLOC", "SHARE", "FAULT", "COST",
    ];
    let mut v: Vec<&str> = names.iter().enumerate().filter(|(i, _)| c >> i & 1 == 1).map(|(_, n)| *n).collect();
    if c & PANIC != 0 {
        v.push("PANIC");
    }
    v.join("+")
}

pub static MASK: AtomicU32 = AtomicU32::new(!0);
pub static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
pub static SRC: AtomicPtr<Src> = AtomicPtr::new(std::ptr::null_mut());
/// any panic is an expected rejection
pub static ANY_PANIC: AtomicBool = AtomicBool::new(false);
pub static TRACING: AtomicBool = AtomicBool::new(false);

thread_local! {
    pub static LABELS: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
}
pub static TRACE: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static FAIL_PATH: Mutex<Option<String>> = Mutex::new(None);

pub fn tracing() -> bool {
    TRACING.load(Relaxed)
}
#[macro_export]
macro_rules! tr {
    ($($a:tt)*) => { if $crate::report::tracing() { $crate::report::trace_push(format!($($a)*)) } };
}
pub fn trace_push(s: String) {
    if let Ok(mut t) = TRACE.try_lock() {
        t.push(s)
    }
}
pub fn label(l: &'static str) {
    LABELS.with(|m| *m.borrow_mut().entry(l).or_insert(0) += 1)
}
pub fn label_n(l: &'static str, n: u64) {
    LABELS.with(|m| *m.borrow_mut().entry(l).or_insert(0) += n)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn list<T: std::fmt::Display>(xs: &[T]) -> String {
    let mut o = String::from("[");
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{x}");
    }
    o.push(']');
    o
}

pub static FAILING: AtomicBool = AtomicBool::new(false);

pub fn fail(classes: u32, msg: &str) -> ! {
    unsafe {
        if FAILING.swap(true, Relaxed) {
            libc::_exit(79);
        }
        let own = classes & MASK.load(Relaxed) != 0;
        let src = SRC.load(Relaxed);
        let (tape, marks) = if src.is_null() {
            (String::from("[]"), String::from("[]"))
        } else {
            (list((*src).used()), list(&(&(*src).marks)[..]))
        };
        let trace = TRACE.try_lock().map(|t| t.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")).unwrap_or_default();
        let text = format!(
            "{{\"result\":\"{}\",\"idx\":{},\"classes\":{},\"msg\":{},\"tape\":{},\"marks\":{},\"trace\":[{}]}}\n",
            if own { "fail" } else { "foreign" },
            CASE.load(Relaxed) as i64,
            json_str(&class_names(classes)),
            json_str(msg),
            tape,
            marks,
            trace
        );
        let path = FAIL_PATH.try_lock().ok().and_then(|p| p.clone());
        let path = path.or_else(|| std::env::var("QCHECK_FAIL").ok());
        match path {
            Some(p) => {
                let _ = std::fs::write(&p, text.as_bytes());
            }
            None => {
                use std::io::Write;
                let _ = std::io::stdout().write_all(text.as_bytes());
                let _ = std::io::stdout().flush();
            }
        }
        libc::_exit(if own { 77 } else { 78 })
    }
}

/// Is this a violation of the property being checked?
pub fn own(classes: u32) -> bool {
    classes & MASK.load(Relaxed) != 0
}

/// Fails if the property being checked is violated; a violation of other properties is only
/// counted, and the case goes on.
pub fn soft(classes: u32, msg: &str) {
    if own(classes) {
        fail(classes, msg);
    }
    label("violations of other properties");
    tr!("  (violates another property: {msg})");
}

/// Runs `f`, in which a panic raised by the harness itself (a panicking loader) is expected.
pub fn expecting_panic<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}

pub struct Injected;

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() || ANY_PANIC.load(Relaxed) {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("QCHECK_BACKTRACE").is_some() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        // the harness' own bugs must not look like violations
        if loc.contains("harness/src") || loc.starts_with("src/") {
            eprintln!("harness error: {msg} at {loc}");
            unsafe { libc::_exit(2) }
        }
        // raised by the scheduler of the concurrency engine, not by the cache
        if msg.starts_with("deadlock!") {
            fail(STRAND | FLIGHT | TIMED | ASYNC | LOCKS | SHARE, &format!("every task is blocked for ever ({msg})"));
        }
        if msg.starts_with("exceeded max_steps") {
            fail(STRAND | FLIGHT | TIMED | ASYNC | LOCKS | SHARE, &format!("the calls do not end ({msg})"));
        }
        fail(PANIC, &format!("panic inside the cache: {msg} at {loc}"));
    }));
}
