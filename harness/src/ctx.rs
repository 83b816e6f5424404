//! Per-case context: random choices, history trace, oracle results.
use crate::mem;
use crate::rng::{mix, Rng};
use std::collections::HashMap;
use std::sync::Mutex;

/// What an oracle found. Each property accepts some of these (engine::accepts).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    /// contents, order, length or a returned value differ from the model
    Func,
    /// capacity rule / reallocation / pointer stability
    Cap,
    /// bounded storage
    Store,
    /// bucket geometry
    Geo,
    /// iterator protocol
    Iter,
    /// string terminator
    Nul,
    /// invalid UTF-8
    Utf8,
    /// list links
    Link,
    /// inline storage
    Inline,
    /// value destroyed twice / never / garbage destroyed
    Drop,
    /// allocator contract
    Alloc,
    /// dead, uninitialised or foreign value used
    Mem,
    /// a read changed memory
    Pure,
    /// wrong default hash
    Hash,
    /// raw image differs from the layout
    Image,
    /// step bound exceeded
    Steps,
    /// copies / conversions / formatting
    Copy,
    /// a rejected operation had an effect
    Reject,
    /// relocation
    Move,
    /// compatibility iterators
    Compat,
    /// red-black tree reading
    Tree,
    /// the default allocator
    DefAlloc,
    /// concurrent readers disagree
    Conc,
    /// unexpected panic
    Panic,
    /// no progress
    Hang,
}

pub static PENDING: Mutex<Vec<(Kind, String)>> = Mutex::new(Vec::new());

/// Report from a monitor that runs inside the code under test.
pub fn pending(kind: Kind, msg: String) {
    let mut p = PENDING.lock().unwrap_or_else(|e| e.into_inner());
    if p.len() < 200 {
        p.push((kind, msg));
    }
}

/// Panic payload: the case is over because an oracle failed.
pub struct CaseAbort;
/// Panic payload: the fault injector fired.
pub struct FusePanic;

pub struct Ctx {
    pub rng: Rng,
    pub prop: &'static str,
    pub thorough: bool,
    pub index: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub hist: u64,
    pub ops: u64,
    looks: u64,
    pub effects: u64,
    pub counts: HashMap<&'static str, u64>,
    /// what failed, and at which operation
    pub viol: Vec<(Kind, String, u64)>,
    pub leak_ok: bool,
    pub soft: u32,
    /// relocate containers on the way (the C28 check compares with a run that does not)
    pub moves: bool,
    pub on_viol: Option<fn(&Ctx, Kind, &str)>,
    pub rig: &'static str,
}

impl Ctx {
    pub fn new(rig: &'static str, prop: &'static str, thorough: bool, seed: u64, index: u64) -> Self {
        Ctx {
            rng: Rng::new(seed),
            prop,
            thorough,
            index,
            tracing: false,
            trace: Vec::new(),
            hist: 0,
            ops: 0,
            looks: 0,
            effects: 0,
            counts: HashMap::new(),
            viol: Vec::new(),
            leak_ok: false,
            soft: 0,
            moves: true,
            on_viol: None,
            rig,
        }
    }
    /// Note an operation of the history.
    pub fn op(&mut self, tag: &'static str, a: u64, b: u64) {
        self.ops += 1;
        self.hist = mix(self.hist, mix(crate::rng::hash_str(tag) ^ a.rotate_left(7), b));
        if self.tracing && self.trace.len() < 4000 {
            self.trace.push(format!("{tag}({a},{b})"));
            if let Some(f) = unsafe { TRACE_HOOK } {
                f(self.trace.last().unwrap());
            }
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing && self.trace.len() < 4000 {
            let s = f();
            self.trace.push(s);
            if let Some(f) = unsafe { TRACE_HOOK } {
                f(self.trace.last().unwrap());
            }
        }
    }
    /// An operation that changed the container.
    pub fn eff(&mut self) {
        self.effects += 1;
    }
    pub fn count(&mut self, name: &'static str) {
        *self.counts.entry(name).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, name: &'static str, n: u64) {
        *self.counts.entry(name).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &'static str, n: u64) {
        let e = self.counts.entry(name).or_insert(0);
        if *e < n {
            *e = n
        }
    }
    /// Record a violation without ending the case.
    pub fn report(&mut self, kind: Kind, msg: String) {
        if self.viol.len() < 50 {
            if let Some(f) = self.on_viol {
                f(self, kind, &msg);
            }
            self.viol.push((kind, msg, self.ops));
        }
    }
    /// Record a violation and end the case.
    pub fn fail(&mut self, kind: Kind, msg: String) -> ! {
        self.sync();
        self.report(kind, msg);
        std::panic::resume_unwind(Box::new(CaseAbort));
    }
    /// An oracle failed. The case ends, unless what failed leaves model and container in step and is
    /// another property's business (or, in the check about moving, may not depend on moving).
    pub fn miss(&mut self, kind: Kind, msg: String) {
        use Kind::*;
        let aside = matches!(kind, Cap | Store | Geo | Image | Steps | Alloc | Nul | Pure | Copy | Reject);
        if aside && self.soft < 25 && (self.prop == "C28" || !crate::engine::accepts(self.prop, kind)) {
            self.soft += 1;
            self.sync();
            self.report(kind, msg);
        } else {
            self.fail(kind, msg)
        }
    }
    /// Whether to compare everything now: always, except under Miri, which is there for the code
    /// under test and not for the oracles.
    pub fn look(&mut self) -> bool {
        self.looks += 1;
        !cfg!(miri) || self.looks % 6 == 1
    }
    /// Collect what the in-code monitors (allocator, tokens) reported.
    pub fn sync(&mut self) {
        let p = std::mem::take(&mut *PENDING.lock().unwrap_or_else(|e| e.into_inner()));
        for (k, m) in p {
            let at = self.ops;
            self.report(k, format!("{m} [by op #{at}]"));
        }
    }
    pub fn case_end(&mut self) {
        mem::case_end(self.leak_ok);
        crate::tok::case_end(self.leak_ok);
        self.sync();
    }
}

pub static mut TRACE_HOOK: Option<fn(&str)> = None;

/// Check an oracle: `ensure!(ctx, Kind::Func, cond, "fmt", args)`.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $kind:expr, $cond:expr, $($arg:tt)*) => {
        if !($cond) {
            $c.miss($kind, format!($($arg)*));
        }
    };
}

/// Equality oracle.
#[macro_export]
macro_rules! ensure_eq {
    ($c:expr, $kind:expr, $l:expr, $r:expr, $($arg:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if !(l == r) {
            let m = format!($($arg)*);
            $c.miss($kind, format!("{}: got {:?}, expected {:?}", m, l, r));
        }
    }};
}
