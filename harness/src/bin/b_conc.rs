//! Concurrent readers, purity of reads, containers handed between threads.
//!
//! The container and all of its memory lie in pages that are made read-only while it is read, so
//! that any write by a read operation, however it is hidden, kills the process; the same readers
//! run in the ThreadSanitizer build. Threads are bare pthreads and the start barrier is our own
//! atomics, so that the sanitizer sees every synchronisation there is.
use eastl_rs::compare::{Greater, Less};
use eastl_rs::deque::Deque;
use eastl_rs::fixed_list::FixedList;
use eastl_rs::fixed_map::{FixedMap, FixedMapWithOverflow};
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::list::List;
use eastl_rs::map::Map;
use eastl_rs::queue::Queue;
use eastl_rs::set::Set;
use eastl_rs::string::String as EaString;
use eastl_rs::vector::Vector;
use eastl_rs::vector_map::{Entry, VectorMap};
use eastl_rs::Allocator;
use mon::engine::{fixed, rnd};
use mon::rng::{hash_str, mix, Rng};
use mon::tree::{node, plant, random_shape, NodeSource, Pool};
use mon::*;
use moveit::New;
use std::mem::{align_of, size_of, MaybeUninit};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

// ---------------------------------------------------------------- pages

const REGION: usize = if cfg!(miri) { 1 << 16 } else { 8 << 20 };
static BASE: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
static OFF: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
static FROZEN: AtomicBool = AtomicBool::new(false);

fn regions() {
    if BASE[0].load(Relaxed) == 0 {
        for b in &BASE {
            let p = if cfg!(miri) {
                Box::leak(vec![0u64; REGION / 8].into_boxed_slice()).as_mut_ptr() as usize
            } else {
                let p = unsafe { libc::mmap(std::ptr::null_mut(), REGION, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
                assert!(p != libc::MAP_FAILED, "harness: mmap");
                p as usize
            };
            b.store(p, Relaxed);
        }
        #[cfg(not(miri))]
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_segv as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO;
            libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        }
    }
    for o in &OFF {
        o.store(0, Relaxed);
    }
}
#[cfg(not(miri))]
extern "C" fn on_segv(_: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let at = unsafe { (*info).si_addr() } as usize;
    let b = BASE[0].load(Relaxed);
    if at >= b && at < b + REGION {
        let m = b"WRITE to a container (or its memory) that is only being read\n";
        unsafe { libc::write(2, m.as_ptr() as *const _, m.len()) };
    }
    unsafe { libc::signal(libc::SIGSEGV, libc::SIG_DFL) };
}
fn freeze(on: bool) {
    FROZEN.store(on, SeqCst);
    #[cfg(not(miri))]
    unsafe {
        let used = (OFF[0].load(Relaxed) + 4095) & !4095;
        if used > 0 {
            let r = libc::mprotect(BASE[0].load(Relaxed) as *mut _, used, if on { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE });
            assert!(r == 0, "harness: mprotect");
        }
    }
}
fn pg(n: usize, align: usize) -> usize {
    let r = FROZEN.load(Relaxed) as usize;
    let o = OFF[r].fetch_add(n + align, Relaxed);
    assert!(o + n + align <= REGION, "harness: region full");
    (BASE[r].load(Relaxed) + o + align - 1) / align * align
}

/// An allocator over the pages; blocks are never reused.
#[derive(Default, Clone)]
#[repr(C)]
struct PgAlloc {
    pad: u32,
}
unsafe impl Allocator for PgAlloc {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        pg(n, align) as *mut ()
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, _align: usize) {
        if !FROZEN.load(Relaxed) {
            std::ptr::write_bytes(p as *mut u8, 0xDD, n);
        }
    }
}

// ---------------------------------------------------------------- threads

struct Job {
    f: Option<Box<dyn FnOnce()>>,
    panicked: Option<String>,
}
extern "C" fn start(p: *mut libc::c_void) -> *mut libc::c_void {
    let job = unsafe { &mut *(p as *mut Job) };
    let f = job.f.take().unwrap();
    if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
        job.panicked = Some(match e.downcast_ref::<String>() {
            Some(s) => s.clone(),
            None => e.downcast_ref::<&str>().unwrap_or(&"?").to_string(),
        });
    }
    std::ptr::null_mut()
}
/// Run the closures on threads of their own; gives the message of one that panicked.
fn threads<'a>(fs: Vec<Box<dyn FnOnce() + 'a>>) -> Option<String> {
    let mut jobs: Vec<Box<Job>> = fs
        .into_iter()
        .map(|f| {
            // the threads are joined before anything they borrow goes away
            let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
            Box::new(Job { f: Some(f), panicked: None })
        })
        .collect();
    let ts: Vec<libc::pthread_t> = jobs
        .iter_mut()
        .map(|j| unsafe {
            let mut t: libc::pthread_t = std::mem::zeroed();
            let r = libc::pthread_create(&mut t, std::ptr::null(), start, &mut **j as *mut Job as *mut _);
            assert!(r == 0, "harness: pthread_create");
            t
        })
        .collect();
    for t in ts {
        unsafe { libc::pthread_join(t, std::ptr::null_mut()) };
    }
    jobs.into_iter().find_map(|j| j.panicked)
}
struct Gate(AtomicUsize, usize);
impl Gate {
    fn wait(&self) {
        self.0.fetch_add(1, AcqRel);
        while self.0.load(Acquire) < self.1 {
            unsafe { libc::sched_yield() };
        }
    }
}

// ---------------------------------------------------------------- what is read

/// A container that can be asked and changed; both depend on nothing but the arguments.
trait Rd: Sized + 'static {
    const NAME: &'static str;
    /// construct in place
    unsafe fn make(at: *mut Self, rng: &mut Rng);
    fn ask(&self, rng: &mut Rng) -> u64;
    fn change(&mut self, rng: &mut Rng) -> u64;
}

fn elems<'a, T: Elem>(it: impl Iterator<Item = &'a T>) -> u64 {
    it.fold(1, |h, e| mix(h, e.get()))
}
fn two<'a, K: Elem, V: Elem>(it: impl Iterator<Item = (&'a K, &'a V)>) -> u64 {
    it.fold(1, |h, (k, v)| mix(mix(h, k.get()), v.get()))
}
fn opt<T: Elem>(o: Option<&T>) -> u64 {
    o.map_or(u64::MAX - 1, |e| e.get())
}
fn val<T: Elem>(rng: &mut Rng) -> T {
    T::mk(rng.next() & 0xffff)
}
fn key<T: Elem>(rng: &mut Rng) -> T {
    T::mk(rng.below(40) as u64)
}
fn text(rng: &mut Rng) -> String {
    (0..rng.below(12)).map(|_| *rng.pick(&['a', 'b', 'é', '日', '🦀'])).collect()
}

fn vec_ask<T: Elem, A: Allocator>(v: &Vector<T, A>, rng: &mut Rng) -> u64 {
    match rng.below(9) {
        0 => v.len() as u64,
        1 => v.capacity() as u64,
        2 => elems(v.iter()),
        3 => hash_str(&format!("{v:?}")),
        4 => opt(v.first()) ^ opt(v.last()).rotate_left(9),
        5 => {
            let i = rng.below(v.len() + 2);
            opt(v.get(i))
        }
        6 => (v.is_empty() as u64) | (v.is_full() as u64) << 1,
        7 => v.contains(&key(rng)) as u64,
        _ => (v.as_slice() == v.as_ref()) as u64 + elems(v.iter().rev()),
    }
}
fn vec_change<T: Elem, A: Allocator>(v: &mut Vector<T, A>, rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 | 1 => v.push(val(rng)),
        2 => return opt(v.pop().as_ref()),
        3 => {
            let i = rng.below(v.len() + 1);
            v.insert(i, val(rng))
        }
        4 => {
            let i = rng.below(v.len() + 1);
            return opt(v.remove(i).as_ref());
        }
        _ => {
            if rng.chance(1, 8) {
                v.clear()
            }
        }
    }
    v.len() as u64
}

impl<T: Elem> Rd for Vector<T, PgAlloc> {
    const NAME: &'static str = "Vector";
    unsafe fn make(at: *mut Self, rng: &mut Rng) {
        at.write(Vector::new());
        for _ in 0..rng.below(60) {
            (*at).change(rng);
        }
    }
    fn ask(&self, rng: &mut Rng) -> u64 {
        match rng.below(5) {
            0 => {
                let c = self.clone();
                elems(c.iter()) ^ c.len() as u64
            }
            _ => vec_ask(self, rng),
        }
    }
    fn change(&mut self, rng: &mut Rng) -> u64 {
        vec_change(self, rng)
    }
}
impl<T: Elem, const N: usize> Rd for FixedVector<T, N, PgAlloc> {
    const NAME: &'static str = "FixedVector";
    unsafe fn make(at: *mut Self, rng: &mut Rng) {
        FixedVector::<T, N, PgAlloc>::new().new(Pin::new_unchecked(&mut *(at as *mut MaybeUninit<Self>)));
        for _ in 0..rng.below(4 * N) {
            (*at).change(rng);
        }
    }
    fn ask(&self, rng: &mut Rng) -> u64 {
        match rng.below(6) {
            0 => self.max_size() as u64 * 2 + self.has_overflowed() as u64,
            1 => hash_str(&format!("{self:?}")),
            2 => elems(AsRef::<[T]>::as_ref(self).iter()),
            _ => vec_ask(self, rng),
        }
    }
    fn change(&mut self, rng: &mut Rng) -> u64 {
        if rng.chance(1, 12) {
            self.clear();
        }
        match rng.below(4) {
            0 => opt(self.pop().as_ref()),
            1 => {
                let i = rng.below(self.len() + 1);
                opt(self.remove(i).as_ref())
            }
            _ => {
                self.push(val(rng));
                self.len() as u64
            }
        }
    }
}

impl<T: Elem> Rd for Deque<'static, T, PgAlloc> {
    const NAME: &'static str = "Deque";
    unsafe fn make(at: *mut Self, rng: &mut Rng) {
        at.write(Deque::new());
        for _ in 0..rng.below(90) {
            (*at).change(rng);
        }
    }
    fn ask(&self, rng: &mut Rng) -> u64 {
        match rng.below(8) {
            0 => self.len() as u64,
            1 => self.is_empty() as u64,
            2 => opt(self.front()),
            3 => opt(self.back()),
            4 => elems(self.iter()),
            5 => elems(self.iter().rev()),
            6 => hash_str(&format!("{self:?}")),
            _ => {
                let mut it = self.iter();
                let mut h = 0;
                for _ in 0..rng.below(self.len() + 1) {
                    h = mix(h, opt(if rng.chance(1, 2) { it.next() } else { it.next_back() }));
                }
                h ^ it.size_hint().0 as u64
            }
        }
    }
    fn change(&mut self, rng: &mut Rng) -> u64 {
        match rng.below(9) {
            0..=2 => self.push_back(val(rng)),
            3..=5 => self.push_front(val(rng)),
            6 => return opt(self.pop_back().as_ref()),
            7 => return opt(self.pop_front().as_ref()),
            _ => {
                let i = rng.below(self.len() + 1);
                return opt(self.remove(i).as_ref());
            }
        }
        self.len() as u64
    }
}
impl<T: Elem> Rd for Queue<'static, T, PgAlloc> {
    const NAME: &'static str = "Queue";
    unsafe fn make(at: *mut Self, rng: &mut Rng) {
        at.write(Queue::new_in(PgAlloc::default()));
        for _ in 0..rng.below(90) {
            (*at).change(rng);
        }
    }
    fn ask(&self, rng: &mut Rng) -> u64 {
        match rng.below(4) {
            0 => self.len() as u64 * 2 + self.is_empty() as u64,
            1 => opt(self.top()),
            2 => elems(self.iter()),
            _ => hash_str(&format!("{self:?}")),
        }
    }
    fn change(&mut self, rng: &mut Rng) -> u64 {
        if rng.chance(3, 5) {
            self.push(val(rng));
            self.len() as u64
        } else {
            opt(self.pop().as_ref())
        }
    }
}

impl<K: Elem, V: Elem> Rd for HashMap<K, V, PgAlloc>
where
    DefaultHash<K>: Hash<K>,
{
    const NAME: &'static str = "HashMap";
    unsafe fn make(at: *mut Self, rng: &mut Rng) {
        at.write(HashMap::new());
        for _ in 0..rng.below(70) {
            (*at).change(rng);
        }
    }
    fn ask(&self, rng: &mut Rng) -> u64 {
        match rng.below(8) {
            0 => self.len() as u64 * 2 + self.is_empty() as u64,
            1 => two(self.iter()),
            2 => hash_str(&format!("{self:?}")),
            3 => self.contains_key(&key(rng)) as u64,
            4 => {
                // as C++ code would walk it
                let n = rng.below(self.len() + 1);
                let mut it = self.iter();
                for _ in 0..n {
                    it.next();
                }
                let (b, e) = it.into_compat();
                two(unsafe { eastl_rs::hash_map::iter::Iter::from_compat(b, e) })
            }
            _ => opt(self.get(&key(rng))),
        }
    }
    fn change(&mut self, rng: &mut Rng) -> u64 {
        match rng.below(10) {
            0..=3 => opt(self.insert(key(rng), val(rng)).as_ref()),
            4 => opt(self.remove(&key(rng)).as_ref()),
            5 => self.remove_entry(&key(rng)).map_or(3, |(k, v)| mix(k.get(), v.get())),
            6 => self.entry(key(rng)).or_insert_with(|| V::mk(9)).get(),
            7 => {
                let k = key(rng);
                let v = V::mk(rng.below(100) as u64);
                match self.get_mut(&k) {
                    Some(x) => {
                        *x = v;
                        1
                    }
                    None => 0,
                }
            }
            8 => {
                if rng.chance(1, 10) {
                    self.clear();
                }
                self.len() as u64
            }
            _ => opt(self.get(&key(rng))),
        }
    }
}
impl<K: Elem> Rd for HashSet<K, PgAlloc>
where
    DefaultHash<K>: Hash<K>,
{
    const NAME: &'static str = "HashSet";
    unsafe fn make(at: *mut Self, rng: &mut Rng) {
        at.write(HashSet::new());
        for _ in 0..rng.below(70) {
            (*at).change(rng);
        }
    }
    fn ask(&self, rng: &mut Rng) -> u64 {
        match rng.below(6) {
            0 => self.len() as u64 * 2 + self.is_empty() as u64,
            1 => elems(self.iter()),
            2 => hash_str(&format!("{self:?}")),
            3 => self.contains_key(&key(rng)) as u64,
            _ => opt(self.get(&key(rng))),
        }
    }
    fn change(&mut self, rng: &mut Rng) -> u64 {
        match rng.below(4) {
            0 | 1 => self.insert(key(rng)) as u64,
            2 => opt(self.remove(&key(rng)).as_ref()),
            _ => {
                if rng.chance(1, 10) {
                    self.clear();
                }
                self.len() as u64
            }
        }
    }
}
/// strings as keys
struct StrMap(HashMap<EaString<PgAlloc>, u32, PgAlloc>);
impl Rd for StrMap {
    const NAME: &'static str = "HashMap of strings";
    unsafe fn make(at: *mut Self, rng: &mut Rng) {
        at.write(StrMap(HashMap::new()));
        for _ in 0..rng.below(70) {
            (*at).change(rng);
        }
    }
    fn ask(&self, rng: &mut Rng) -> u64 {
        let k = EaString::from(&*small_text(rng));
        match rng.below(4) {
            0 => self.0.iter().fold(self.0.len() as u64, |h, (k, v)| mix(mix(h, hash_str(k)), *v as u64)),
            1 => hash_str(&format!("{:?}", self.0)),
            2 => self.0.contains_key(&k) as u64,
            _ => self.0.get(&k).map_or(7, |v| *v as u64),
        }
    }
    fn change(&mut self, rng: &mut Rng) -> u64 {
        let k = EaString::from(&*small_text(rng));
        match rng.below(3) {
            0 => self.0.remove(&k).map_or(7, |v| v as u64),
            _ => self.0.insert(k, rng.below(1000) as u32).map_or(7, |v| v as u64),
        }
    }
}
fn small_text(rng: &mut Rng) -> String {
    (0..rng.below(3)).map(|_| *rng.pick(&['a', 'é', '🦀'])).collect()
}

impl<K: Elem, V: Elem> Rd for VectorMap<K, V, PgAlloc> {
    const NAME: &'static str = "VectorMap";
    unsafe fn make(at: *mut Self, rng: &mut Rng) {
        at.write(VectorMap::new());
        for _ in 0..rng.below(50) {
            (*at).change(rng);
        }
    }
    fn ask(&self, rng: &mut Rng) -> u64 {
        match rng.below(7) {
            0 => self.len() as u64 * 2 + self.is_empty() as u64,
            1 => two(self.iter().map(|(k, v)| (k, v))),
            2 => hash_str(&format!("{self:?}")),
            3 => self.contains_key(&key(rng)) as u64,
            4 => self.capacity() as u64,
            _ => opt(self.get(&key(rng))),
        }
    }
    fn change(&mut self, rng: &mut Rng) -> u64 {
        match rng.below(7) {
            0..=2 => opt(self.insert(key(rng), val(rng)).as_ref()),
            3 => opt(self.remove(&key(rng)).as_ref()),
            4 => match self.entry(key(rng)) {
                Entry::Occupied(e) => e.get().get(),
                Entry::Vacant(e) => e.insert(V::mk(4)).get(),
            },
            5 => {
                if rng.chance(1, 10) {
                    self.clear();
                }
                self.len() as u64
            }
            _ => opt(self.get(&key(rng))),
        }
    }
}

impl Rd for EaString<PgAlloc> {
    const NAME: &'static str = "String";
    unsafe fn make(at: *mut Self, rng: &mut Rng) {
        at.write(EaString::new());
        for _ in 0..rng.below(30) {
            (*at).change(rng);
        }
    }
    fn ask(&self, rng: &mut Rng) -> u64 {
        match rng.below(9) {
            0 => self.len() as u64,
            1 => self.capacity() as u64 * 4 + self.is_full() as u64 * 2 + self.is_empty() as u64,
            2 => hash_str(self.as_str()),
            3 => hash_str(&format!("{self}|{self:?}")),
            4 => hash_str(&self.clone()),
            5 => DefaultHash::<Self>::hash(self) as u64,
            6 => (*self == EaString::from(&*text(rng))) as u64,
            7 => self.as_bytes().iter().fold(0, |h, b| mix(h, *b as u64)),
            _ => self.chars().rev().fold(0, |h, c| mix(h, c as u64)),
        }
    }
    fn change(&mut self, rng: &mut Rng) -> u64 {
        match rng.below(8) {
            0..=2 => self.push(*rng.pick(&['a', 'é', '日', '🦀'])),
            3 => return self.pop().map_or(1, |c| c as u64),
            4 => {
                let at: Vec<usize> = self.char_indices().map(|x| x.0).chain([self.len()]).collect();
                self.insert(*rng.pick(&at), '語');
            }
            5 => {
                let at: Vec<usize> = self.char_indices().map(|x| x.0).collect();
                if !at.is_empty() {
                    return self.remove(*rng.pick(&at)).map_or(1, |c| c as u64);
                }
            }
            6 => self.assign(text(rng)),
            _ => self.reserve(rng.below(9)),
        }
        hash_str(self)
    }
}

macro_rules! list_rd {
    ([$($g:tt)*] $t:ty, $e:ty, $name:expr, $new:expr, $max:expr) => {
        impl<$($g)*> Rd for $t {
            const NAME: &'static str = $name;
            unsafe fn make(at: *mut Self, rng: &mut Rng) {
                $new.new(Pin::new_unchecked(&mut *(at as *mut MaybeUninit<Self>)));
                for _ in 0..rng.below($max) {
                    (*at).change(rng);
                }
            }
            fn ask(&self, rng: &mut Rng) -> u64 {
                match rng.below(6) {
                    0 => self.len() as u64 * 2 + self.is_empty() as u64,
                    1 => self.size() as u64,
                    2 => opt(self.front()),
                    3 => opt(self.back()),
                    4 => elems(self.iter()),
                    _ => hash_str(&format!("{self:?}")),
                }
            }
            fn change(&mut self, rng: &mut Rng) -> u64 {
                match rng.below(8) {
                    0..=2 => self.push_back(val(rng)),
                    3 | 4 => self.push_front(val(rng)),
                    5 => return opt(self.pop_back().as_ref()),
                    6 => return opt(self.pop_front().as_ref()),
                    _ => {
                        if rng.chance(1, 8) {
                            self.clear()
                        }
                    }
                }
                self.len() as u64
            }
        }
    };
}
list_rd!([T: Elem] List<T, PgAlloc>, T, "List", List::<T, PgAlloc>::new(), 50);
list_rd!([T: Elem, const N: usize] FixedList<T, N, PgAlloc>, T, "FixedList", FixedList::<T, N, PgAlloc>::new_with_default_overflow_allocator(), 4 * N);

struct Pages;
impl NodeSource for Pages {
    fn take(&mut self, size: usize, align: usize) -> usize {
        pg(size, align)
    }
}
fn sorted<K: Elem, V: Elem>(rng: &mut Rng, n: usize, desc: bool) -> Vec<(K, V)> {
    let set: std::collections::BTreeSet<u64> = (0..n).map(|_| rng.below(40) as u64).collect();
    let mut v: Vec<_> = set.into_iter().map(|k| (K::mk(k), V::mk(rng.next() & 0xffff))).collect();
    if desc {
        v.reverse();
    }
    v
}
fn replant<K: Elem, V: Elem>(base: usize, rng: &mut Rng, max: usize, desc: bool, src: &mut dyn NodeSource) {
    let n = rng.below(max + 1);
    let ps = sorted::<K, V>(rng, n, desc);
    let shape = random_shape(rng, ps.len());
    plant(base, &shape, ps, src, rng.chance(1, 2));
}
fn map_ask<K: Elem, V: Elem, A: Allocator, C: eastl_rs::compare::Compare<K>>(m: &Map<K, V, A, C>, rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 => m.len() as u64 * 2 + m.is_empty() as u64,
        1 => two(unsafe { m.iter() }),
        2 => hash_str(&format!("{m:?}")),
        3 => m.contains_key(&key(rng)) as u64,
        _ => opt(m.get(&key(rng))),
    }
}
macro_rules! map_rd {
    ($t:ty, $name:expr, $desc:expr, $new:expr, $max:expr, $src:expr) => {
        impl<K: Elem, V: Elem> Rd for $t {
            const NAME: &'static str = $name;
            unsafe fn make(at: *mut Self, rng: &mut Rng) {
                $new.new(Pin::new_unchecked(&mut *(at as *mut MaybeUninit<Self>)));
                replant::<K, V>(at as usize, rng, $max, $desc, &mut $src(at as usize, node::<K, V>().2))
            }
            fn ask(&self, rng: &mut Rng) -> u64 {
                map_ask(self, rng)
            }
            fn change(&mut self, rng: &mut Rng) -> u64 {
                match rng.below(4) {
                    0 => {
                        let k = key(rng);
                        let v = V::mk(rng.below(100) as u64);
                        self.get_mut(&k).map(|x| *x = v).is_some() as u64
                    }
                    1 => unsafe { self.iter_mut() }.fold(0, |h, (k, v)| {
                        *v = V::mk(k.get() ^ 1);
                        mix(h, v.get())
                    }),
                    2 => map_ask(self, rng),
                    _ => {
                        if rng.chance(1, 3) {
                            self.clear();
                            let at = self as *mut Self as usize;
                            replant::<K, V>(at, rng, $max, $desc, &mut $src(at, node::<K, V>().2));
                        }
                        self.len() as u64
                    }
                }
            }
        }
    };
}
/// `New` for a plain value
struct ByMove<T>(T);
impl<T> ByMove<T> {
    unsafe fn new(self, p: Pin<&mut MaybeUninit<T>>) {
        p.get_unchecked_mut().write(self.0);
    }
}
map_rd!(Map<K, V, PgAlloc, Less<K>>, "Map", false, ByMove(Map::<K, V, PgAlloc, Less<K>>::with_allocator(PgAlloc::default())), 40, |_, _| Pages);
map_rd!(Map<K, V, PgAlloc, Greater<K>>, "Map, descending", true, ByMove(Map::<K, V, PgAlloc, Greater<K>>::with_allocator(PgAlloc::default())), 40, |_, _| Pages);
const CAP: usize = 12;
/// the pool, or pages once it is empty
struct PoolPages(Pool);
impl NodeSource for PoolPages {
    fn take(&mut self, size: usize, align: usize) -> usize {
        let left = unsafe { raw::word(self.0.at, 0) != 0 || raw::word(self.0.at, 8) != raw::word(self.0.at, 16) };
        if left {
            self.0.take(size, align)
        } else {
            pg(size, align)
        }
    }
}
map_rd!(FixedMap<K, V, CAP>, "FixedMap", false, FixedMap::<K, V, CAP>::new(), CAP, |at, n| Pool { at: at + 40, over: None, given: vec![], node: n });
map_rd!(FixedMapWithOverflow<K, V, CAP, PgAlloc>, "FixedMapWithOverflow", false, FixedMapWithOverflow::<K, V, CAP, PgAlloc>::new(), 2 * CAP, |at, n| PoolPages(Pool { at: at + 40, over: None, given: vec![], node: n }));
impl<K: Elem> Rd for Set<K, PgAlloc, Less<K>> {
    const NAME: &'static str = "Set";
    unsafe fn make(at: *mut Self, rng: &mut Rng) {
        at.write(Set::with_allocator(PgAlloc::default()));
        replant::<K, Unit>(at as usize, rng, 40, false, &mut Pages)
    }
    fn ask(&self, rng: &mut Rng) -> u64 {
        match rng.below(4) {
            0 => self.len() as u64 * 2 + self.is_empty() as u64,
            1 => elems(unsafe { self.iter() }),
            _ => self.contains_key(&key(rng)) as u64,
        }
    }
    fn change(&mut self, rng: &mut Rng) -> u64 {
        if rng.chance(1, 6) {
            self.clear();
            replant::<K, Unit>(self as *mut Self as usize, rng, 40, false, &mut Pages);
        }
        self.ask(rng)
    }
}

// ---------------------------------------------------------------- rigs

/// construct in the pages
fn build<T: Rd>(rng: &mut Rng) -> *mut T {
    let p = pg(size_of::<T>(), align_of::<T>()) as *mut T;
    unsafe { T::make(p, rng) };
    p
}
struct Shared<T>(*const T);
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Shared<T> {}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        unsafe { &*self.0 }
    }
}
fn image(c: &mut Ctx) -> Vec<u8> {
    if cfg!(miri) {
        // padding bytes are not there to be compared
        return vec![];
    }
    let n = OFF[0].load(Relaxed);
    c.count_n("bytes of container memory watched", n as u64);
    unsafe { std::slice::from_raw_parts(BASE[0].load(Relaxed) as *const u8, n).to_vec() }
}
fn set_mode(c: &mut Ctx) {
    let m = if c.rng.chance(1, 2) { 0 } else { c.rng.below(10) as u32 };
    tok::HASH_MODE.store(m, Relaxed);
}

const ASKS: usize = if cfg!(miri) { 12 } else { 48 };

fn readers<T: Rd>(c: &mut Ctx) {
    regions();
    set_mode(c);
    let mut rng = Rng::new(c.rng.next());
    let p = build::<T>(&mut rng);
    c.op(T::NAME, c.index, c.prop.len() as u64);
    c.sync();
    let qs: Vec<u64> = (0..ASKS).map(|_| rng.next()).collect();
    freeze(true);
    let before = image(c);
    let obj = Shared(p as *const T);
    // alone
    let alone: Vec<u64> = qs.iter().map(|&q| obj.get().ask(&mut Rng::new(q))).collect();
    let again: Vec<u64> = qs.iter().map(|&q| obj.get().ask(&mut Rng::new(q))).collect();
    ensure!(c, Kind::Conc, alone == again, "{}: the same read gives another answer the second time", T::NAME);
    ensure!(c, Kind::Pure, image(c) == before, "{}: reading changed the container's memory", T::NAME);
    OFF[1].store(0, Relaxed);
    // together
    let n = if cfg!(miri) { 2 } else { [2, 3, 4, 8][rng.below(4)] };
    let rounds = if c.thorough { 4 } else { 2 };
    let gate = Gate(AtomicUsize::new(0), n);
    let mut wrong: Vec<Vec<(usize, u64)>> = (0..n).map(|_| Vec::new()).collect();
    let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
    let (qs_r, alone_r, gate_r) = (&qs, &alone, &gate);
    let fs: Vec<Box<dyn FnOnce()>> = wrong
        .iter_mut()
        .zip(seeds)
        .map(|(w, seed)| {
            Box::new(move || {
                let mut r = Rng::new(seed);
                gate_r.wait();
                for _ in 0..rounds * ASKS {
                    let i = r.below(ASKS);
                    let a = obj.get().ask(&mut Rng::new(qs_r[i]));
                    if a != alone_r[i] && w.len() < 3 {
                        w.push((i, a));
                    }
                    if r.chance(1, 16) {
                        unsafe { libc::sched_yield() };
                    }
                }
            }) as Box<dyn FnOnce()>
        })
        .collect();
    let bad = threads(fs);
    let after = image(c);
    freeze(false);
    if let Some(m) = bad {
        c.fail(Kind::Panic, format!("{}: a reader panicked: {m}", T::NAME));
    }
    c.count_n("reads made alone", 2 * ASKS as u64);
    c.count_n("reads made concurrently", (n * rounds * ASKS) as u64);
    c.count_n("reader threads", n as u64);
    for (t, w) in wrong.iter().enumerate() {
        if let Some(&(i, a)) = w.first() {
            let e = alone[i];
            c.fail(Kind::Conc, format!("{}: reader {t} of {n} got {a:#x} where a lone reader gets {e:#x}", T::NAME));
        }
    }
    ensure!(c, Kind::Pure, after == before, "{}: concurrent reading changed the container's memory", T::NAME);
    c.eff();
    // still a working container, on another thread too
    let o = unsafe { &mut *p };
    for _ in 0..10 {
        o.change(&mut rng);
    }
    let q = p as usize;
    if let Some(m) = threads(vec![Box::new(move || unsafe { std::ptr::drop_in_place(q as *mut T) })]) {
        c.fail(Kind::Panic, format!("{}: dropping panicked: {m}", T::NAME));
    }
    c.eff();
}

/// the same history on one thread, and with every step on another thread
fn hand_over<T: Rd>(c: &mut Ctx) {
    regions();
    set_mode(c);
    let seed = c.rng.next();
    c.op(T::NAME, seed, 1);
    let steps = if cfg!(miri) { 10 } else { 40 };
    let run = |own: bool, c: &mut Ctx| {
        let mut rng = Rng::new(seed);
        let mut out = Vec::new();
        let mut at = 0usize;
        let mut step = |c: &mut Ctx, f: &mut dyn FnMut()| {
            if own {
                c.count("steps on a thread of their own");
                if let Some(m) = threads(vec![Box::new(f)]) {
                    c.fail(Kind::Panic, format!("{}: a step on another thread panicked: {m}", T::NAME));
                }
            } else {
                f()
            }
        };
        step(c, &mut || at = build::<T>(&mut rng) as usize);
        for i in 0..steps {
            step(c, &mut || {
                let o = unsafe { &mut *(at as *mut T) };
                let a = if i % 3 == 2 { o.ask(&mut rng) } else { o.change(&mut rng) };
                out.push(a);
            });
        }
        step(c, &mut || unsafe { std::ptr::drop_in_place(at as *mut T) });
        out
    };
    let alone = run(false, c);
    c.sync();
    regions();
    let moved = run(true, c);
    c.eff();
    c.eff();
    ensure_eq!(c, Kind::Conc, moved, alone, "{}: answers of a container handed from thread to thread", T::NAME);
}

/// histories of separate containers on threads that run at once
fn apart<T: Rd>(c: &mut Ctx) {
    regions();
    set_mode(c);
    let n = if cfg!(miri) { 2 } else { 4 };
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.next()).collect();
    c.op(T::NAME, seeds[0], 2);
    let steps = if cfg!(miri) { 10 } else { 60 };
    let one = |seed: u64| {
        let mut rng = Rng::new(seed);
        let p = build::<T>(&mut rng);
        let o = unsafe { &mut *p };
        let mut out = Vec::new();
        for i in 0..steps {
            out.push(if i % 3 == 2 { o.ask(&mut rng) } else { o.change(&mut rng) });
        }
        unsafe { std::ptr::drop_in_place(p) };
        out
    };
    let alone: Vec<Vec<u64>> = seeds.iter().map(|&s| one(s)).collect();
    c.sync();
    regions();
    let mut got: Vec<Vec<u64>> = (0..n).map(|_| Vec::new()).collect();
    let gate = Gate(AtomicUsize::new(0), n);
    let (gate_r, one_r) = (&gate, &one);
    let fs: Vec<Box<dyn FnOnce()>> = got
        .iter_mut()
        .zip(&seeds)
        .map(|(g, &s)| {
            Box::new(move || {
                gate_r.wait();
                *g = one_r(s);
            }) as Box<dyn FnOnce()>
        })
        .collect();
    if let Some(m) = threads(fs) {
        c.fail(Kind::Panic, format!("{}: a thread with its own container panicked: {m}", T::NAME));
    }
    c.count_n("histories run side by side", n as u64);
    c.eff();
    c.eff();
    ensure!(c, Kind::Conc, got == alone, "{}: separate containers used by {n} threads at once answer differently than alone", T::NAME);
}

type Hm<K, V> = HashMap<K, V, PgAlloc>;
type Vm<K, V> = VectorMap<K, V, PgAlloc>;
const RDS: usize = 30;
macro_rules! pick {
    ($c:ident, $f:ident) => {
        match $c.index as usize % RDS {
            0 => $f::<Vector<u32, PgAlloc>>($c),
            1 => $f::<Vector<Tok24, PgAlloc>>($c),
            2 => $f::<Vector<String, PgAlloc>>($c),
            3 => $f::<FixedVector<u64, 6, PgAlloc>>($c),
            4 => $f::<FixedVector<Tok8, 4, PgAlloc>>($c),
            5 => $f::<Deque<'static, u32, PgAlloc>>($c),
            6 => $f::<Deque<'static, Tok24, PgAlloc>>($c),
            7 => $f::<Deque<'static, Tok40, PgAlloc>>($c),
            8 => $f::<Queue<'static, u64, PgAlloc>>($c),
            9 => $f::<Queue<'static, Tok24, PgAlloc>>($c),
            10 => $f::<Hm<u32, u64>>($c),
            11 => $f::<Hm<Tok8, Tok24>>($c),
            12 => $f::<Hm<u64, String>>($c),
            13 => $f::<Hm<u8, u8>>($c),
            14 => $f::<StrMap>($c),
            15 => $f::<HashSet<u32, PgAlloc>>($c),
            16 => $f::<HashSet<Tok8, PgAlloc>>($c),
            17 => $f::<Vm<u32, u64>>($c),
            18 => $f::<Vm<Tok8, String>>($c),
            19 => $f::<EaString<PgAlloc>>($c),
            20 => $f::<EaString<PgAlloc>>($c),
            21 => $f::<List<u32, PgAlloc>>($c),
            22 => $f::<List<Tok24, PgAlloc>>($c),
            23 => $f::<FixedList<u64, 5, PgAlloc>>($c),
            24 => $f::<FixedList<Tok8, 3, PgAlloc>>($c),
            25 => $f::<Map<u32, u64, PgAlloc, Less<u32>>>($c),
            26 => $f::<Map<Tok8, Tok24, PgAlloc, Greater<Tok8>>>($c),
            27 => $f::<FixedMap<u32, Tok8, CAP>>($c),
            28 => $f::<FixedMapWithOverflow<Tok8, u32, CAP, PgAlloc>>($c),
            _ => $f::<Set<Tok8, PgAlloc, Less<Tok8>>>($c),
        }
    };
}
fn r_readers(c: &mut Ctx) {
    pick!(c, readers)
}
fn r_hand_over(c: &mut Ctx) {
    pick!(c, hand_over)
}
fn r_apart(c: &mut Ctx) {
    pick!(c, apart)
}

// which containers may cross threads at all, as the compiler sees it (an inherent method, where it applies, wins over the trait)
struct PSend<T>(std::marker::PhantomData<T>);
struct PSync<T>(std::marker::PhantomData<T>);
trait NoSend {
    fn is(&self) -> bool {
        false
    }
}
trait NoSync {
    fn is(&self) -> bool {
        false
    }
}
impl<T> NoSend for PSend<T> {}
impl<T> NoSync for PSync<T> {}
impl<T: Send> PSend<T> {
    fn is(&self) -> bool {
        true
    }
}
impl<T: Sync> PSync<T> {
    fn is(&self) -> bool {
        true
    }
}
macro_rules! sends {
    ($t:ty) => {
        (PSend::<$t>(std::marker::PhantomData).is(), PSync::<$t>(std::marker::PhantomData).is())
    };
}
type Rc = std::rc::Rc<u32>;
type Ce = std::cell::Cell<u32>;
/// an allocator that must stay on its thread
#[derive(Default, Clone)]
struct Local(std::marker::PhantomData<*const ()>);
unsafe impl Allocator for Local {
    fn allocate_raw_aligned(&mut self, _: usize, _: usize) -> *mut () {
        std::ptr::null_mut()
    }
    unsafe fn deallocate_raw_aligned(&mut self, _: *mut (), _: usize, _: usize) {}
}
struct AnyHash;
impl<T> Hash<T> for AnyHash {
    fn hash(_: &T) -> usize {
        0
    }
}
impl<T> eastl_rs::equals::Equals<T> for AnyHash {
    fn equals(_: &T, _: &T) -> bool {
        true
    }
}
type Neither = std::marker::PhantomData<*const ()>;
type SendOnly = std::marker::PhantomData<std::cell::Cell<u32>>;
type SyncOnly = std::marker::PhantomData<std::sync::MutexGuard<'static, u32>>;
type Both = u32;
/// (may be sent, may be shared) of something whose name mentions one of the four kinds above
fn may_of(name: &str) -> (bool, bool) {
    (name.contains("SendOnly") || name.contains("Both"), name.contains("SyncOnly") || name.contains("Both"))
}
/// an element, an allocator, an order that is as mobile as its parameter
struct Mk<P>(std::marker::PhantomData<P>);
impl<P> PartialEq for Mk<P> {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl<P> PartialOrd for Mk<P> {
    fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> {
        None
    }
}
struct Al<P>(std::marker::PhantomData<P>);
unsafe impl<P> Allocator for Al<P> {
    fn allocate_raw_aligned(&mut self, _: usize, _: usize) -> *mut () {
        std::ptr::null_mut()
    }
    unsafe fn deallocate_raw_aligned(&mut self, _: *mut (), _: usize, _: usize) {}
}
struct Cp<P>(std::marker::PhantomData<P>);
impl<P, T> eastl_rs::compare::Compare<T> for Cp<P> {
    fn compare(_: &T, _: &T) -> bool {
        false
    }
}
struct AnyOrd;
impl<T> eastl_rs::compare::Compare<T> for AnyOrd {
    fn compare(_: &T, _: &T) -> bool {
        false
    }
}
fn r_bounds(c: &mut Ctx) {
    // (what, (send, sync), must be, may be)
    macro_rules! rows {
        ($($t:ty : $must:expr, $may:expr;)*) => { vec![$((stringify!($t), sends!($t), $must, $may)),*] };
    }
    const A: (bool, bool) = (true, true);
    const N: (bool, bool) = (false, false);
    const S: (bool, bool) = (true, false);
    let rows = rows! {
        u32: A, A;
        Rc: N, N;
        Ce: S, S;
        Vector<u32, PgAlloc>: A, A;
        Vector<Rc, PgAlloc>: N, N;
        Vector<Ce, PgAlloc>: S, S;
        Vector<u32, Local>: N, N;
        Deque<'static, u32, PgAlloc>: A, A;
        Deque<'static, Rc, PgAlloc>: N, N;
        Deque<'static, Ce, PgAlloc>: S, S;
        Deque<'static, u32, Local>: N, N;
        Queue<'static, u32, PgAlloc>: A, A;
        Queue<'static, Rc, PgAlloc>: N, N;
        Queue<'static, Ce, PgAlloc>: S, S;
        HashMap<u32, u32, PgAlloc>: A, A;
        HashMap<Rc, u32, PgAlloc, AnyHash, AnyHash>: N, N;
        HashMap<u32, Rc, PgAlloc>: N, N;
        HashMap<u32, Ce, PgAlloc>: S, S;
        HashMap<Ce, u32, PgAlloc, AnyHash, AnyHash>: S, S;
        HashMap<u32, u32, Local>: N, N;
        HashSet<u32, PgAlloc>: A, A;
        HashSet<Rc, PgAlloc, AnyHash, AnyHash>: N, N;
        HashSet<Ce, PgAlloc, AnyHash, AnyHash>: S, S;
        VectorMap<u32, u32, PgAlloc>: A, A;
        VectorMap<Rc, u32, PgAlloc>: N, N;
        VectorMap<u32, Rc, PgAlloc>: N, N;
        VectorMap<u32, Ce, PgAlloc>: S, S;
        EaString<PgAlloc>: A, A;
        EaString<Local>: N, N;
        Map<u32, u32, PgAlloc, Less<u32>>: A, A;
        Map<Rc, u32, PgAlloc, Less<Rc>>: N, N;
        Map<u32, Ce, PgAlloc, Less<u32>>: S, S;
        Set<Rc, PgAlloc, Less<Rc>>: N, N;
        Set<Ce, PgAlloc, Less<Ce>>: N, S;
        List<Rc, PgAlloc>: N, N;
        List<Ce, PgAlloc>: N, S;
        List<u32, Local>: N, N;
        FixedList<Rc, 3, PgAlloc>: N, N;
        FixedList<Ce, 3, PgAlloc>: N, S;
        FixedVector<Rc, 3, PgAlloc>: N, N;
        FixedVector<Ce, 3, PgAlloc>: N, S;
        FixedVector<u32, 3, Local>: N, N;
        <Vector<Rc, PgAlloc> as IntoIterator>::IntoIter: N, N;
        <Deque<'static, Rc, PgAlloc> as IntoIterator>::IntoIter: N, N;
        eastl_rs::deque::iter::Iter<'static, Ce>: N, N;
        eastl_rs::hash_map::iter::Iter<'static, u32, Ce>: N, N;
        eastl_rs::hash_map::iter::IterMut<'static, u32, Rc>: N, N;
    };
    let mut rows = rows;
    // every parameter of every container in turn carries something that may be sent but not shared (S),
    // shared but not sent (Y), or neither (N)
    macro_rules! whole {
        ($($t:ty),* $(,)?) => { $( rows.push((stringify!($t), sends!($t), may_of(stringify!($t)), may_of(stringify!($t)))); )* };
    }
    macro_rules! at_most {
        ($($t:ty),* $(,)?) => { $( rows.push((stringify!($t), sends!($t), N, may_of(stringify!($t)))); )* };
    }
    macro_rules! each {
        ($($p:ty),*) => { $(
            whole! {
                Vector<Mk<$p>, PgAlloc>, Vector<u32, Al<$p>>,
                Deque<'static, Mk<$p>, PgAlloc>, Deque<'static, u32, Al<$p>>,
                Queue<'static, Mk<$p>, PgAlloc>, Queue<'static, u32, Al<$p>>,
                HashMap<Mk<$p>, u32, PgAlloc, AnyHash, AnyHash>, HashMap<u32, Mk<$p>, PgAlloc>, HashMap<u32, u32, Al<$p>>,
                HashSet<Mk<$p>, PgAlloc, AnyHash, AnyHash>, HashSet<u32, Al<$p>>,
                VectorMap<Mk<$p>, u32, PgAlloc, AnyOrd>, VectorMap<u32, Mk<$p>, PgAlloc, AnyOrd>, VectorMap<u32, u32, Al<$p>, AnyOrd>,
                EaString<Al<$p>>,
                Map<Mk<$p>, u32, PgAlloc, AnyOrd>, Map<u32, Mk<$p>, PgAlloc, AnyOrd>, Map<u32, u32, Al<$p>, AnyOrd>,
            }
            at_most! {
                VectorMap<u32, u32, PgAlloc, Cp<$p>>, Map<u32, u32, PgAlloc, Cp<$p>>,
                Set<Mk<$p>, PgAlloc, AnyOrd>, Set<u32, Al<$p>, AnyOrd>, Set<u32, PgAlloc, Cp<$p>>,
                List<Mk<$p>, PgAlloc>, List<u32, Al<$p>>,
                FixedList<Mk<$p>, 3, PgAlloc>, FixedList<u32, 3, Al<$p>>,
                FixedVector<Mk<$p>, 3, PgAlloc>, FixedVector<u32, 3, Al<$p>>,
                <Vector<Mk<$p>, PgAlloc> as IntoIterator>::IntoIter, <Vector<u32, Al<$p>> as IntoIterator>::IntoIter,
                <Deque<'static, Mk<$p>, PgAlloc> as IntoIterator>::IntoIter, <Deque<'static, u32, Al<$p>> as IntoIterator>::IntoIter,
                eastl_rs::deque::iter::IterMut<'static, Mk<$p>>,
                eastl_rs::hash_map::iter::IterMut<'static, u32, Mk<$p>>,
                eastl_rs::hash_map::entry::Entry<'static, u32, u32, Al<$p>, AnyHash, AnyHash>,
                eastl_rs::hash_map::entry::Entry<'static, u32, Mk<$p>, PgAlloc, AnyHash, AnyHash>,
                eastl_rs::vector_map::Entry<'static, u32, Mk<$p>, PgAlloc, AnyOrd>,
                eastl_rs::vector_map::Entry<'static, u32, u32, Al<$p>, AnyOrd>,
            }
        )* };
    }
    // one invocation for each kind; `may_of` reads the kind off the type's name
    each!(Neither, SendOnly, SyncOnly, Both);
    for (what, got, must, may) in rows {
        c.op("bounds", hash_str(what), 0);
        c.count("thread-crossing bounds looked at");
        ensure!(c, Kind::Conc, (got.0 || !must.0) && (got.1 || !must.1), "{what}: (Send, Sync) is {got:?}, its contents allow {must:?}");
        ensure!(c, Kind::Conc, (!got.0 || may.0) && (!got.1 || may.1), "{what}: (Send, Sync) is {got:?} although its contents allow only {may:?}");
    }
    c.eff();
    c.eff();
}

const P: &[&str] = &["C21"];
static RIGS: &[Rig] = &[
    Rig { name: "readers", props: P, scale: rnd(RDS as u64 * 12, RDS as u64 * 400), f: r_readers },
    Rig { name: "hand_over", props: P, scale: rnd(RDS as u64 * 2, RDS as u64 * 60), f: r_hand_over },
    Rig { name: "side_by_side", props: P, scale: rnd(RDS as u64 * 4, RDS as u64 * 200), f: r_apart },
    Rig { name: "bounds", props: P, scale: fixed(1), f: r_bounds },
];

fn main() {
    mon::engine::main(RIGS);
}
