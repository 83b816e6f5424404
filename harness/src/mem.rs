//! Monitoring allocators.
//!
//! `MonAlloc` is handed to the containers. Every block it gives out is recorded with its size,
//! alignment and owner, surrounded by red zones, filled with a pattern, aligned to exactly what was
//! asked, and kept in quarantine (filled with another pattern) after it is returned.
//! `GlobalMon` checks the same size/alignment contract for the traffic of `DefaultAllocator`.
use crate::ctx::{pending, Kind};
use eastl_rs::Allocator;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

const RZ: usize = 32;
const PAT_NEW: u8 = 0xA5;
const PAT_FREE: u8 = 0xDE;
const PAT_RZ: u8 = 0xBD;
pub const PLAIN: bool = cfg!(feature = "plain");
/// a single block this large is never legitimate in these workloads
const HUGE: usize = 1 << 33;

#[derive(Clone, Copy, Debug)]
pub struct Rec {
    base: usize,
    total: usize,
    base_align: usize,
    pub size: usize,
    pub align: usize,
    pub arena: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ev {
    pub alloc: bool,
    pub ptr: usize,
    pub size: usize,
    pub align: usize,
    pub arena: u32,
}

pub struct Reg {
    pub live: BTreeMap<usize, Rec>,
    quarantine: Vec<(usize, Rec)>,
    freed: BTreeMap<usize, usize>,
    q_bytes: usize,
    pub events: Vec<Ev>,
    pub live_bytes: usize,
    pub peak_bytes: usize,
    pub allocs: u64,
    pub frees: u64,
}

pub static REG: Mutex<Reg> = Mutex::new(Reg {
    live: BTreeMap::new(),
    quarantine: Vec::new(),
    freed: BTreeMap::new(),
    q_bytes: 0,
    events: Vec::new(),
    live_bytes: 0,
    peak_bytes: 0,
    allocs: 0,
    frees: 0,
});
/// totals over the whole run, for the evidence
pub static TOTAL_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static TOTAL_FREES: AtomicU64 = AtomicU64::new(0);

pub fn reg() -> std::sync::MutexGuard<'static, Reg> {
    REG.lock().unwrap_or_else(|e| e.into_inner())
}

const ARENA_TAG: u32 = 0x5A00_0000;

thread_local! {
    static CUR: Cell<u32> = const { Cell::new(ARENA_TAG | 1) };
}
static NEXT_ARENA: AtomicUsize = AtomicUsize::new(2);

/// The allocator under which the containers run.
#[repr(C)]
#[derive(Debug)]
pub struct MonAlloc {
    id: u32,
}

impl MonAlloc {
    /// An allocator distinct from every other one.
    pub fn fresh() -> Self {
        MonAlloc {
            id: ARENA_TAG | (NEXT_ARENA.fetch_add(1, Relaxed) as u32 & 0xff_ffff),
        }
    }
    pub fn arena(&self) -> u32 {
        self.id
    }
    pub fn from_id(id: u32) -> Self {
        MonAlloc { id }
    }
    /// The allocator that `Default` hands out on this thread.
    pub fn current() -> Self {
        MonAlloc { id: CUR.with(|c| c.get()) }
    }
}
impl Default for MonAlloc {
    fn default() -> Self {
        Self::current()
    }
}
impl Clone for MonAlloc {
    fn clone(&self) -> Self {
        MonAlloc { id: self.id }
    }
}

unsafe impl Allocator for MonAlloc {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        mon_alloc(self.id, n, align)
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        mon_free(self.id, p, n, align)
    }
}

fn layout_of(n: usize, align: usize) -> (Layout, usize) {
    if PLAIN {
        (Layout::from_size_align(n.max(1), align).unwrap(), 0)
    } else {
        // exactly aligned: a multiple of `align`, never of `2 * align`
        let mut k = RZ.div_ceil(align);
        if k % 2 == 0 {
            k += 1;
        }
        let off = k * align;
        (
            Layout::from_size_align(off + n + RZ, (2 * align).max(16)).unwrap(),
            off,
        )
    }
}

pub fn mon_alloc(id: u32, n: usize, align: usize) -> *mut () {
    if id & 0xff00_0000 != ARENA_TAG {
        pending(Kind::Alloc, format!("allocation of {n} bytes from something that is not the container's allocator (id {id:#x})"));
    }
    if n == 0 {
        pending(Kind::Alloc, "allocation of zero bytes requested".into());
    }
    let align = if align == 0 || !align.is_power_of_two() {
        pending(Kind::Alloc, format!("allocation with alignment {align}"));
        16
    } else {
        align
    };
    if n >= HUGE {
        // like the default allocator when a size is absurd
        std::panic::panic_any(HugeAlloc(n));
    }
    // an allocator may refuse by panicking, like any other user code
    crate::tok::callback(crate::tok::Cb::Alloc);
    let (l, off) = layout_of(n, align);
    unsafe {
        let base = System.alloc(l);
        if base.is_null() {
            std::alloc::handle_alloc_error(l);
        }
        if !PLAIN {
            std::ptr::write_bytes(base, PAT_RZ, off);
            std::ptr::write_bytes(base.add(off), PAT_NEW, n);
            std::ptr::write_bytes(base.add(off + n), PAT_RZ, RZ);
        }
        let p = base.add(off) as usize;
        let mut r = reg();
        r.live.insert(
            p,
            Rec {
                base: base as usize,
                total: l.size(),
                base_align: l.align(),
                size: n,
                align,
                arena: id,
            },
        );
        r.freed.remove(&p);
        r.live_bytes += n;
        if r.live_bytes > r.peak_bytes {
            r.peak_bytes = r.live_bytes;
        }
        r.allocs += 1;
        TOTAL_ALLOCS.fetch_add(1, Relaxed);
        if r.events.len() < 1 << 16 {
            r.events.push(Ev { alloc: true, ptr: p, size: n, align, arena: id });
        }
        #[cfg(not(miri))]
        return p as *mut ();
        #[cfg(miri)]
        return base.add(off) as *mut ();
    }
}

/// Panic payload of an absurd request.
pub struct HugeAlloc(pub usize);

unsafe fn check_rz(p: usize, rec: &Rec, when: &str) {
    if PLAIN {
        return;
    }
    let off = p - rec.base;
    let head = std::slice::from_raw_parts(rec.base as *const u8, off);
    if let Some(i) = head.iter().rposition(|&b| b != PAT_RZ) {
        pending(
            Kind::Alloc,
            format!("write {} bytes before a block of {} bytes ({when})", off - i, rec.size),
        );
    }
    let tail = std::slice::from_raw_parts((p + rec.size) as *const u8, RZ);
    if let Some(i) = tail.iter().position(|&b| b != PAT_RZ) {
        pending(
            Kind::Alloc,
            format!("write {i} bytes past the end of a block of {} bytes ({when})", rec.size),
        );
    }
}

unsafe fn release(p: usize, rec: &Rec, check: bool) {
    if !PLAIN {
        if check {
            let body = std::slice::from_raw_parts(p as *const u8, rec.size);
            // compare in words where possible
            if let Some(i) = body.iter().position(|&b| b != PAT_FREE) {
                pending(
                    Kind::Alloc,
                    format!("write into a returned block of {} bytes at offset {i}", rec.size),
                );
            }
            check_rz(p, rec, "after it was returned");
        }
        System.dealloc(
            rec.base as *mut u8,
            Layout::from_size_align_unchecked(rec.total, rec.base_align),
        );
    }
}

pub fn mon_free(id: u32, p: *mut (), n: usize, align: usize) {
    let a = p as usize;
    let mut msgs: Vec<String> = Vec::new();
    let mut r = reg();
    if r.events.len() < 1 << 16 {
        r.events.push(Ev { alloc: false, ptr: a, size: n, align, arena: id });
    }
    match r.live.remove(&a) {
        None => {
            let m = if r.freed.contains_key(&a) {
                format!("block of {n} bytes returned twice")
            } else if let Some((b, rec)) = r.live.range(..a).next_back().filter(|(b, rec)| a < **b + rec.size) {
                format!("pointer {} bytes into a block of {} bytes returned", a - b, rec.size)
            } else {
                format!("a pointer that was never allocated was returned (size {n}, align {align})")
            };
            drop(r);
            pending(Kind::Alloc, m);
            return;
        }
        Some(rec) => {
            r.frees += 1;
            TOTAL_FREES.fetch_add(1, Relaxed);
            r.live_bytes -= rec.size;
            if rec.size != n {
                msgs.push(format!("block of {} bytes returned with size {n}", rec.size));
            }
            if rec.align != align {
                msgs.push(format!("block of {} bytes aligned to {} returned with alignment {align}", rec.size, rec.align));
            }
            if rec.arena != id {
                msgs.push(format!("block of allocator {:#x} returned to allocator {id:#x}", rec.arena));
            }
            unsafe {
                if PLAIN {
                    r.freed.insert(a, rec.size);
                    drop(r);
                    System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(rec.total, rec.base_align));
                } else {
                    check_rz(a, &rec, "found when it was returned");
                    std::ptr::write_bytes(a as *mut u8, PAT_FREE, rec.size);
                    r.freed.insert(a, rec.size);
                    r.q_bytes += rec.size;
                    r.quarantine.push((a, rec));
                    if r.q_bytes > 64 << 20 {
                        let q = std::mem::take(&mut r.quarantine);
                        r.q_bytes = 0;
                        r.freed.clear();
                        for (p, rec) in q {
                            release(p, &rec, true);
                        }
                    }
                    drop(r);
                }
            }
        }
    }
    for m in msgs {
        pending(Kind::Alloc, m);
    }
}

/// Start of an operation: forget earlier events.
pub fn ev_clear() {
    reg().events.clear();
}
pub fn ev_take() -> Vec<Ev> {
    std::mem::take(&mut reg().events)
}
/// (allocations, frees) since the last clear
pub fn ev_counts() -> (usize, usize) {
    let r = reg();
    let a = r.events.iter().filter(|e| e.alloc).count();
    (a, r.events.len() - a)
}
/// The live block that starts exactly at `p`.
pub fn block_at(p: usize) -> Option<Rec> {
    reg().live.get(&p).copied()
}
/// The live block that contains `p..p+len` (or `p` one past its end when len is 0).
pub fn block_containing(p: usize, len: usize) -> Option<(usize, Rec)> {
    let r = reg();
    let (b, rec) = r.live.range(..=p).next_back()?;
    (p + len <= b + rec.size).then_some((*b, *rec))
}
pub fn live_blocks() -> Vec<(usize, Rec)> {
    reg().live.iter().map(|(k, v)| (*k, *v)).collect()
}
pub fn live_count() -> usize {
    reg().live.len()
}
pub fn live_bytes() -> usize {
    reg().live_bytes
}
/// Check the red zones of every live block.
pub fn check_all() {
    let r = reg();
    for (p, rec) in r.live.iter() {
        unsafe { check_rz(*p, rec, "while it is live") };
    }
}

pub fn case_end(leak_ok: bool) {
    let mut r = reg();
    if !leak_ok && !r.live.is_empty() {
        let n = r.live.len();
        let sizes: Vec<usize> = r.live.values().take(5).map(|x| x.size).collect();
        pending(Kind::Alloc, format!("{n} block(s) never returned, sizes {sizes:?}"));
    }
    let live = std::mem::take(&mut r.live);
    let q = std::mem::take(&mut r.quarantine);
    r.q_bytes = 0;
    r.live_bytes = 0;
    r.peak_bytes = 0;
    r.freed.clear();
    r.events.clear();
    r.allocs = 0;
    r.frees = 0;
    drop(r);
    unsafe {
        for (p, rec) in live {
            check_rz(p, &rec, "at the end");
            if !PLAIN {
                release(p, &rec, false);
            } else if leak_ok {
                System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(rec.total, rec.base_align));
            }
        }
        for (p, rec) in q {
            release(p, &rec, true);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the global allocator: `DefaultAllocator` ends here

pub struct GlobalMon;

thread_local! {
    static G_MINE: Cell<isize> = const { Cell::new(0) };
}
fn g_mine(d: isize) {
    let _ = G_MINE.try_with(|m| m.set(m.get() + d));
}
pub static G_ALLOCS: AtomicU64 = AtomicU64::new(0);
/// mismatches: (what, expected, got)
static G_BAD: Mutex<Option<(u8, usize, usize)>> = Mutex::new(None);
pub static G_FILL: AtomicBool = AtomicBool::new(false);
/// the last request: size and alignment
pub static G_LAST: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
/// the last release: size and alignment
pub static G_LAST_FREE: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
/// requests left before memory is exhausted (negative: never)
pub static G_FAIL: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(-1);
/// only requests at least this large are refused
pub static G_FAIL_MIN: AtomicUsize = AtomicUsize::new(0);
pub static G_REFUSED: AtomicU64 = AtomicU64::new(0);

fn refuse(l: &Layout) -> bool {
    if G_FAIL.load(Relaxed) >= 0 && l.size() >= G_FAIL_MIN.load(Relaxed) {
        if G_FAIL.fetch_sub(1, Relaxed) <= 0 {
            G_FAIL.store(0, Relaxed);
            G_REFUSED.fetch_add(1, Relaxed);
            return true;
        }
    }
    false
}
const G_MAGIC: usize = 0x6d6f_6e47_4c4f_4221;
const G_DEAD: usize = 0x6465_6164_4445_4144;

fn g_prefix(l: &Layout) -> usize {
    l.align().max(32)
}

unsafe impl GlobalAlloc for GlobalMon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        G_LAST[0].store(l.size(), Relaxed);
        G_LAST[1].store(l.align(), Relaxed);
        if refuse(&l) {
            return std::ptr::null_mut();
        }
        if PLAIN {
            return System.alloc(l);
        }
        let pre = g_prefix(&l);
        let Some(total) = l.size().checked_add(pre + 16) else {
            return std::ptr::null_mut();
        };
        let Ok(tl) = Layout::from_size_align(total, l.align().max(16)) else {
            return std::ptr::null_mut();
        };
        let b = System.alloc(tl);
        if b.is_null() {
            return b;
        }
        let p = b.add(pre);
        let h = p.sub(32) as *mut usize;
        h.write(G_MAGIC);
        h.add(1).write(l.size());
        h.add(2).write(l.align());
        h.add(3).write(G_MAGIC);
        std::ptr::write_bytes(p.add(l.size()), PAT_RZ, 16);
        if G_FILL.load(Relaxed) {
            std::ptr::write_bytes(p, PAT_NEW, l.size());
        }
        g_mine(1);
        G_ALLOCS.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        G_LAST_FREE[0].store(l.size(), Relaxed);
        G_LAST_FREE[1].store(l.align(), Relaxed);
        if PLAIN {
            return System.dealloc(p, l);
        }
        let h = p.sub(32) as *mut usize;
        let (m, size, align, m2) = (h.read(), h.add(1).read(), h.add(2).read(), h.add(3).read());
        let bad = |w: u8, e: usize, g: usize| {
            if let Ok(mut b) = G_BAD.try_lock() {
                if b.is_none() {
                    *b = Some((w, e, g));
                }
            }
        };
        if m != G_MAGIC || m2 != G_MAGIC {
            bad(if m == G_DEAD { 1 } else { 2 }, 0, m);
            return;
        }
        if size != l.size() {
            bad(3, size, l.size());
        }
        if align != l.align() {
            bad(4, align, l.align());
        }
        for i in 0..16 {
            if p.add(size + i).read() != PAT_RZ {
                bad(5, size, i);
                break;
            }
        }
        h.write(G_DEAD);
        if G_FILL.load(Relaxed) {
            std::ptr::write_bytes(p, PAT_FREE, size);
        }
        g_mine(-1);
        let rl = Layout::from_size_align_unchecked(size, align);
        System.dealloc(
            p.sub(g_prefix(&rl)),
            Layout::from_size_align_unchecked(size + g_prefix(&rl) + 16, align.max(16)),
        )
    }
}

/// Report what the global allocator saw go wrong.
pub fn g_sync() {
    let b = G_BAD.lock().unwrap_or_else(|e| e.into_inner()).take();
    if let Some((w, e, g)) = b {
        let m = match w {
            1 => "block returned twice to the system allocator".to_string(),
            2 => "foreign pointer returned to the system allocator".to_string(),
            3 => format!("default allocator: block of {e} bytes returned with size {g}"),
            4 => format!("default allocator: block aligned to {e} returned with alignment {g}"),
            _ => format!("default allocator: write {g} bytes past a block of {e} bytes"),
        };
        pending(Kind::Alloc, m);
    }
}
/// Number of blocks this thread has taken from the system allocator, less those it returned.
pub fn g_live() -> isize {
    G_MINE.with(|m| m.get())
}
