//! Per-case monitoring context: guards every call into the code under test,
//! records what was observed, and collects verdicts.
use crate::rng::{hash_bytes, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// The case cannot go on (a violation or a deliberate skip has been recorded).
#[derive(Debug)]
pub struct Stop;
pub type Case = Result<(), Stop>;

// ---- progress page: survives the death of the worker -----------------------
// layout: [0..8) case index, [8..16) op sequence, [16] in-call flag, [24..88) op name, [256..) input
pub const PAGE: usize = 8192;
static PROGRESS: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
pub static OP_SEQ: AtomicU64 = AtomicU64::new(0);
pub static IN_SUT: AtomicBool = AtomicBool::new(false);

pub fn set_progress_page(p: *mut u8) {
    PROGRESS.store(p, Ordering::SeqCst);
}

pub fn progress_case(idx: u64) {
    let p = PROGRESS.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe { std::ptr::write_volatile(p as *mut u64, idx) }
    }
}

fn progress_enter(op: &str, input: &str) {
    let seq = OP_SEQ.fetch_add(1, Ordering::Relaxed) + 1;
    IN_SUT.store(true, Ordering::SeqCst);
    let p = PROGRESS.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe {
            std::ptr::write_volatile((p as *mut u64).add(1), seq);
            let name = op.as_bytes();
            let n = name.len().min(63);
            std::ptr::copy_nonoverlapping(name.as_ptr(), p.add(24), n);
            std::ptr::write_volatile(p.add(24 + n), 0);
            let n = input.len().min(PAGE - 257);
            std::ptr::copy_nonoverlapping(input.as_ptr(), p.add(256), n);
            std::ptr::write_volatile(p.add(256 + n), 0);
            std::ptr::write_volatile(p.add(16), 1);
        }
    }
}

fn progress_leave() {
    IN_SUT.store(false, Ordering::SeqCst);
    let p = PROGRESS.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe { std::ptr::write_volatile(p.add(16), 0) }
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

#[derive(Clone)]
pub struct Fail {
    pub class: String,
    pub msg: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub prop: &'static str,
    pub seed: u64,
    pub idx: u64,
    pub tier: Tier,
    pub name: String,
    pub input: String,
    pub is_nontrivial: bool,
    pub fails: Vec<Fail>,
    pub ops: BTreeMap<String, u64>,
    pub obs: BTreeMap<String, u64>,
    pub margins: BTreeMap<String, f64>,
    pub verbose: bool,
}

impl Ctx {
    pub fn new(prop: &'static str, seed: u64, tier: Tier) -> Ctx {
        Ctx {
            rng: Rng::new(0),
            prop,
            seed,
            idx: 0,
            tier,
            name: String::new(),
            input: String::new(),
            is_nontrivial: false,
            fails: Vec::new(),
            ops: BTreeMap::new(),
            obs: BTreeMap::new(),
            margins: BTreeMap::new(),
            verbose: false,
        }
    }

    pub fn begin(&mut self, idx: u64) {
        self.idx = idx;
        self.rng = Rng::new(hash_bytes(format!("{}/{}/{}", self.prop, self.seed, idx).as_bytes()));
        self.name.clear();
        self.input.clear();
        self.is_nontrivial = false;
        self.fails.clear();
        progress_case(idx);
    }

    /// Call into the code under test. A panic inside is a verdict about that
    /// code, a panic outside is an error of the monitor.
    pub fn sut<T>(&mut self, op: &str, f: impl FnOnce() -> T) -> Result<T, Stop> {
        match self.sut_quiet(op, f) {
            Ok(v) => Ok(v),
            Err(msg) => {
                self.fail(&format!("panic:{}", op), format!("{} panicked: {}", op, msg));
                Err(Stop)
            }
        }
    }

    /// As `sut`, the caller decides what a panic means.
    pub fn sut_quiet<T>(&mut self, op: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        match self.ops.get_mut(op) {
            Some(n) => *n += 1,
            None => {
                self.ops.insert(op.to_string(), 1);
            }
        }
        progress_enter(op, &self.input);
        let r = catch_unwind(AssertUnwindSafe(f));
        progress_leave();
        r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
    }

    pub fn fail(&mut self, class: &str, msg: String) {
        if self.fails.len() < 6 {
            self.fails.push(Fail { class: class.to_string(), msg });
        }
    }

    pub fn check(&mut self, ok: bool, class: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            let m = msg();
            self.fail(class, m);
        }
        ok
    }

    /// error <= tol, NaN fails; remembers the worst ratio seen.
    pub fn within(&mut self, err: f64, tol: f64, class: &str, msg: impl FnOnce() -> String) -> bool {
        let ratio = if tol > 0.0 { err / tol } else if err == 0.0 { 0.0 } else { f64::INFINITY };
        let ok = ratio <= 1.0;
        if ok {
            let m = self.margins.entry(class.to_string()).or_insert(0.0);
            if ratio > *m {
                *m = ratio;
            }
        } else {
            let m = msg();
            self.fail(class, format!("{} (error {:e}, allowed {:e})", m, err, tol));
        }
        ok
    }

    pub fn seen(&mut self, what: &str) {
        self.seen_n(what, 1)
    }
    pub fn seen_n(&mut self, what: &str, n: u64) {
        match self.obs.get_mut(what) {
            Some(c) => *c += n,
            None => {
                self.obs.insert(what.to_string(), n);
            }
        }
    }
    pub fn nontrivial(&mut self) {
        self.is_nontrivial = true;
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}
