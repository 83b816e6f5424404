//! Tracked values: every construction, clone, use and destruction is recorded, and the fault
//! injector ("fuse") can make any callback panic.
use crate::ctx::{pending, FusePanic, Kind};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed};

pub const MAX: usize = if cfg!(miri) { 1 << 14 } else { 1 << 20 };
#[allow(clippy::declare_interior_mutable_const)]
const Z8: AtomicU8 = AtomicU8::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const Z32: AtomicU32 = AtomicU32::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const Z64: AtomicU64 = AtomicU64::new(0);
static STATE: [AtomicU8; MAX] = [Z8; MAX]; // 0 unused, 1 live, 2 destroyed
static VAL: [AtomicU64; MAX] = [Z64; MAX];
static ORIGIN: [AtomicU32; MAX] = [Z32; MAX];
static CLONES: [AtomicU32; MAX] = [Z32; MAX];
static NEXT: AtomicU32 = AtomicU32::new(1);
static EPOCH: AtomicU32 = AtomicU32::new(1);
pub static N_TOK: AtomicU64 = AtomicU64::new(0);
pub static N_DROP: AtomicU64 = AtomicU64::new(0);
pub static N_CLONE: AtomicU64 = AtomicU64::new(0);

/// -1: disarmed. Otherwise the number of callbacks that still return normally.
pub static FUSE: AtomicI64 = AtomicI64::new(-1);
/// callbacks seen since `fuse_reset`
pub static CALLS: AtomicI64 = AtomicI64::new(0);
pub static FUSE_KIND: AtomicU32 = AtomicU32::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Cb {
    Clone = 1,
    Drop = 2,
    Eq = 3,
    Hash = 4,
    Cmp = 5,
    Closure = 6,
    Iter = 7,
    Fmt = 8,
    /// an allocation asked of the container's allocator
    Alloc = 9,
}

/// how keys are hashed in this case (see `hash_by`)
pub static HASH_MODE: AtomicU32 = AtomicU32::new(0);
/// A hash function per mode, from harmless to hopeless.
pub fn hash_by(mode: u32, v: u64) -> usize {
    (match mode {
        0 => v,
        1 => 0,
        2 => v & 3,
        3 => crate::rng::mix(v, 7),
        4 => v << 48,
        5 => !v,
        6 => v.wrapping_mul(5),
        7 => v % 11 * 0x1_0000_0001,
        8 => v / 7,
        _ => u64::MAX,
    }) as usize
}
pub fn hash_now(v: u64) -> usize {
    hash_by(HASH_MODE.load(Relaxed), v)
}

/// Equality calls, when somebody asked for them.
pub static EQ_LOG_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static EQ_LOG: std::sync::Mutex<Vec<(u64, u64)>> = std::sync::Mutex::new(Vec::new());
pub fn eq_note(a: u64, b: u64) {
    if EQ_LOG_ON.load(Relaxed) {
        EQ_LOG.lock().unwrap_or_else(|e| e.into_inner()).push((a, b));
    }
}
pub fn eq_take() -> Vec<(u64, u64)> {
    std::mem::take(&mut *EQ_LOG.lock().unwrap_or_else(|e| e.into_inner()))
}

/// When not 0, equality, order and hash of tracked values are whatever comes to mind: this is the
/// state of the generator, and `LIE_DEN` how often (one answer in that many) it is asked.
pub static LIES: AtomicU64 = AtomicU64::new(0);
pub static LIE_DEN: AtomicU32 = AtomicU32::new(1);
pub static N_LIES: AtomicU64 = AtomicU64::new(0);
fn lie() -> Option<u64> {
    let s = LIES.load(Relaxed);
    if s == 0 || std::thread::panicking() {
        return None;
    }
    let x = crate::rng::mix(s, 0x11e);
    LIES.store(x | 1, Relaxed);
    if (x >> 40) % LIE_DEN.load(Relaxed).max(1) as u64 != 0 {
        return None;
    }
    N_LIES.fetch_add(1, Relaxed);
    Some(x >> 8)
}

static CB_COUNT: [AtomicU64; 10] = [Z64; 10];

pub fn cb_count(cb: Cb) -> u64 {
    CB_COUNT[cb as usize].load(Relaxed)
}
pub fn cb_reset() {
    for c in &CB_COUNT {
        c.store(0, Relaxed)
    }
}

/// Called at every user callback: panics when the fuse burns out.
pub fn callback(cb: Cb) {
    CB_COUNT[cb as usize].fetch_add(1, Relaxed);
    CALLS.fetch_add(1, Relaxed);
    if FUSE.load(Relaxed) >= 0 && !std::thread::panicking() && FUSE.fetch_sub(1, Relaxed) == 0 {
        FUSE.store(-1, Relaxed);
        FUSE_KIND.store(cb as u32, Relaxed);
        std::panic::resume_unwind(Box::new(FusePanic));
    }
}
pub fn fuse_arm(n: i64) {
    CALLS.store(0, Relaxed);
    FUSE_KIND.store(0, Relaxed);
    FUSE.store(n, Relaxed);
}
pub fn fuse_off() {
    FUSE.store(-1, Relaxed);
}

fn chk(id: u32) -> u32 {
    (id.wrapping_mul(0x9E37_79B1) ^ EPOCH.load(Relaxed).wrapping_mul(0x85EB_CA6B)) >> 20
}

fn encode(id: u32) -> u32 {
    (id << 12) | (chk(id) & 0xfff)
}

fn decode(code: u32) -> Option<u32> {
    let id = code >> 12;
    (id != 0 && (id as usize) < MAX && encode(id) == code).then_some(id)
}

fn new_id(val: u64, origin: u32) -> u32 {
    let id = NEXT.fetch_add(1, Relaxed);
    if id as usize >= MAX {
        NEXT.store(MAX as u32, Relaxed);
        panic!("harness: too many tracked values in one case");
    }
    STATE[id as usize].store(1, Relaxed);
    VAL[id as usize].store(val, Relaxed);
    ORIGIN[id as usize].store(origin, Relaxed);
    CLONES[id as usize].store(0, Relaxed);
    N_TOK.fetch_add(1, Relaxed);
    encode(id)
}

/// live identity behind a code, or a report
fn look(code: u32, what: &str) -> Option<u32> {
    match decode(code) {
        None => {
            pending(Kind::Mem, format!("{what} of storage that holds no value ({code:#x})"));
            None
        }
        Some(id) if STATE[id as usize].load(Relaxed) != 1 => {
            pending(
                Kind::Mem,
                format!("{what} of value #{id} (={}) after it was destroyed", VAL[id as usize].load(Relaxed)),
            );
            None
        }
        Some(id) => Some(id),
    }
}

fn tok_drop(code: u32) {
    match decode(code) {
        None => pending(Kind::Drop, format!("destruction of storage that holds no value ({code:#x})")),
        Some(id) => {
            if STATE[id as usize].load(Relaxed) != 1 {
                pending(
                    Kind::Drop,
                    format!("value #{id} (={}) destroyed twice", VAL[id as usize].load(Relaxed)),
                );
                return;
            }
            STATE[id as usize].store(2, Relaxed);
            N_DROP.fetch_add(1, Relaxed);
            callback(Cb::Drop);
        }
    }
}

pub fn live() -> usize {
    let n = (NEXT.load(Relaxed) as usize).min(MAX);
    (1..n).filter(|&i| STATE[i].load(Relaxed) == 1).count()
}
/// number of values made in this case so far
pub fn made() -> usize {
    NEXT.load(Relaxed) as usize - 1
}
pub fn is_live(id: u32) -> bool {
    STATE[id as usize].load(Relaxed) == 1
}
pub fn clones_of(id: u32) -> u32 {
    CLONES[id as usize].load(Relaxed)
}
pub fn origin_of(id: u32) -> u32 {
    ORIGIN[id as usize].load(Relaxed)
}

pub fn case_end(leak_ok: bool) {
    let n = (NEXT.load(Relaxed) as usize).min(MAX);
    let mut leaked = Vec::new();
    let mut count = 0;
    for i in 1..n {
        if STATE[i].load(Relaxed) == 1 {
            count += 1;
            if leaked.len() < 5 {
                leaked.push((i, VAL[i].load(Relaxed)));
            }
        }
        STATE[i].store(0, Relaxed);
    }
    if count > 0 && !leak_ok {
        pending(Kind::Drop, format!("{count} value(s) never destroyed, e.g. (id, value) {leaked:?}"));
    }
    NEXT.store(1, Relaxed);
    EPOCH.fetch_add(1, Relaxed);
    fuse_off();
    LIES.store(0, Relaxed);
    EQ_LOG_ON.store(false, Relaxed);
    eq_take();
}

/// A tracked value; the variants differ in size and alignment only.
pub trait Tracked: Sized + Clone + PartialEq + PartialOrd + std::fmt::Debug + 'static {
    const TNAME: &'static str;
    fn new(val: u64) -> Self;
    fn val(&self) -> u64;
    fn id(&self) -> u32;
}

macro_rules! tok {
    ($name:ident, $words:expr, $(#[$m:meta])*) => {
        $(#[$m])*
        #[repr(C)]
        pub struct $name {
            w: [u32; $words],
        }
        impl $name {
            fn from_code(code: u32) -> Self {
                let mut w = [0u32; $words];
                for (i, x) in w.iter_mut().enumerate() {
                    *x = code ^ (i as u32).wrapping_mul(0x9E37_79B9);
                }
                Self { w }
            }
            fn check(&self, what: &str) {
                for i in 1..$words {
                    if self.w[i] != self.w[0] ^ (i as u32).wrapping_mul(0x9E37_79B9) {
                        pending(Kind::Mem, format!("{what} of a torn value (word {i} of {})", $words));
                        return;
                    }
                }
            }
        }
        impl Tracked for $name {
            const TNAME: &'static str = stringify!($name);
            fn new(val: u64) -> Self {
                Self::from_code(new_id(val, 0))
            }
            fn val(&self) -> u64 {
                if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 {
                    pending(Kind::Mem, "misaligned value".to_string());
                }
                self.check("use");
                match look(self.w[0], "use") {
                    Some(id) => VAL[id as usize].load(Relaxed),
                    None => u64::MAX,
                }
            }
            fn id(&self) -> u32 {
                look(self.w[0], "use").unwrap_or(0)
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                self.check("clone");
                let id = look(self.w[0], "clone");
                callback(Cb::Clone);
                N_CLONE.fetch_add(1, Relaxed);
                match id {
                    Some(id) => {
                        CLONES[id as usize].fetch_add(1, Relaxed);
                        Self::from_code(new_id(VAL[id as usize].load(Relaxed), id))
                    }
                    None => Self::from_code(new_id(u64::MAX, 0)),
                }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                self.check("destruction");
                tok_drop(self.w[0]);
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                callback(Cb::Eq);
                let (a, b) = (self.val(), o.val());
                eq_note(a, b);
                lie().map_or(a == b, |x| x & 1 != 0)
            }
        }
        impl Eq for $name {}
        impl eastl_rs::Hash<$name> for eastl_rs::hash::DefaultHash<$name> {
            fn hash(v: &$name) -> usize {
                callback(Cb::Hash);
                let h = hash_now(v.val());
                lie().map_or(h, |x| hash_by((x & 7) as u32, x >> 3))
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                callback(Cb::Cmp);
                let r = self.val().cmp(&o.val());
                lie().map_or(Some(r), |x| match x % 7 {
                    0 | 1 => Some(std::cmp::Ordering::Less),
                    2 | 3 => Some(std::cmp::Ordering::Equal),
                    4 | 5 => Some(std::cmp::Ordering::Greater),
                    _ => None,
                })
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                self.partial_cmp(o).unwrap_or(std::cmp::Ordering::Equal)
            }
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                callback(Cb::Fmt);
                write!(f, "{}", self.val())
            }
        }
    };
}

tok!(Tok4, 1,);
tok!(Tok8, 2,);
tok!(Tok12, 3,);
tok!(Tok24, 6,);
tok!(Tok40, 10,);
tok!(TokA16, 4, #[repr(align(16))]);
tok!(TokA64, 16, #[repr(align(64))]);
