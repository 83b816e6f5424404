//! Panics injected into every user callback of every container operation.
//!
//! One operation on one container state is run again and again, each time with another callback
//! invocation (an element's drop or clone, a key's hash, equality or comparison, a closure, a
//! source iterator, a formatter) panicking, until it runs through without reaching the panic.
//! After each panic the container is read, used further (with more panics) and dropped, while the
//! value and allocator monitors watch for values destroyed twice, dead values used, blocks
//! returned twice. Leaks are allowed.
#![cfg_attr(feature = "conformant", feature(generic_const_exprs), allow(incomplete_features))]
use eastl_rs::compare::{Greater, Less};
use eastl_rs::deque::Deque;
use eastl_rs::fixed_list::FixedList;
use eastl_rs::fixed_map::{FixedMap, FixedMapWithOverflow};
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::list::List;
use eastl_rs::map::Map;
use eastl_rs::queue::Queue;
use eastl_rs::set::Set;
use eastl_rs::string::String as EaString;
use eastl_rs::vector::Vector;
use eastl_rs::vector_map::{Entry, VectorMap};
use mon::engine::rnd;
use mon::rng::{self, Rng};
use mon::tree::{node, plant, random_shape, Heap, Home, Pool};
use mon::*;
use moveit::drop_flag::QuietFlag;
use moveit::{MoveNew, MoveRef, New};
use std::mem::{align_of, size_of, ManuallyDrop};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

/// Destroyed by the harness itself: not a place to panic at.
struct Q<T>(ManuallyDrop<T>);
impl<T> Q<T> {
    fn new(t: T) -> Self {
        Q(ManuallyDrop::new(t))
    }
}
impl<T> Drop for Q<T> {
    fn drop(&mut self) {
        let (f, n) = (FUSE.swap(-1, Relaxed), CALLS.load(Relaxed));
        unsafe { ManuallyDrop::drop(&mut self.0) };
        FUSE.store(f, Relaxed);
        CALLS.store(n, Relaxed);
    }
}
fn quiet<T>(t: T) {
    drop(Q::new(t))
}

fn mks<T: Elem>(rng: &mut Rng, n: usize) -> Vec<T> {
    (0..n).map(|_| T::mk(rng.next() & 0xffff)).collect()
}
fn key<K: Elem>(rng: &mut Rng) -> K {
    K::mk(rng.below(24) as u64)
}
fn keys<K: Elem>(rng: &mut Rng, n: usize) -> Vec<K> {
    (0..n).map(|_| key(rng)).collect()
}
fn kvs<K: Elem, V: Elem>(rng: &mut Rng, n: usize) -> Vec<(K, V)> {
    (0..n).map(|_| (key(rng), V::mk(rng.next() & 0xffff))).collect()
}

/// A container under test.
trait Sut: Sized + 'static {
    const NAME: &'static str;
    const OPS: usize;
    fn make(rng: &mut Rng) -> Self;
    /// operation `op`; may use the container up
    fn step(s: &mut Option<Self>, op: usize, rng: &mut Rng);
    /// look at everything
    fn read(&self) -> u64;
}

fn see<'a, T: Elem>(it: impl Iterator<Item = &'a T>) -> u64 {
    let mut h = 0u64;
    for (i, e) in it.enumerate() {
        h = h.rotate_left(5) ^ e.get();
        if i > 100_000 {
            panic!("iteration does not end");
        }
    }
    h
}
fn see2<'a, K: Elem, V: Elem>(it: impl Iterator<Item = (&'a K, &'a V)>) -> u64 {
    let mut h = 0u64;
    for (i, (k, v)) in it.enumerate() {
        h = h.rotate_left(5) ^ k.get() ^ v.get().rotate_left(20);
        if i > 100_000 {
            panic!("iteration does not end");
        }
    }
    h
}

// ---------------------------------------------------------------- vectors

/// operations of a `Vector`, whatever holds it
fn vec_step<T: Elem, A: eastl_rs::Allocator>(v: &mut Vector<T, A>, op: usize, rng: &mut Rng) {
    match op {
        0 => v.push(T::mk(1)),
        1 => quiet(v.pop()),
        2 => {
            let i = rng.below(v.len() + 1);
            v.insert(i, T::mk(2))
        }
        3 => {
            let i = rng.below(v.len() + 1);
            quiet(v.remove(i))
        }
        4 => v.clear(),
        5 | 6 => {
            let n = [0, 1, v.len(), v.capacity() + 1, rng.below(20)][rng.below(5)].min(40);
            let src = Q::new(mks::<T>(rng, n));
            if op == 5 {
                v.assign(&src.0)
            } else {
                v.append(&src.0)
            }
        }
        7 => {
            if v.len() > 0 {
                let i = rng.below(v.len());
                v[i] = T::mk(3);
            }
        }
        8 => quiet(format!("{v:?}")),
        9 => v.reserve(rng.below(9)),
        10 => {
            let n = v.len();
            let o = Q::new(mks::<T>(rng, n));
            std::hint::black_box(v.as_slice() == &**o.0);
        }
        11 => v.as_slice_mut().sort_by(|a, b| a.partial_cmp(b).unwrap()),
        12 => v.iter_mut().for_each(|x| *x = T::mk(4)),
        _ => v.as_slice_mut().iter_mut().rev().step_by(2).for_each(|x| *x = x.clone()),
    }
}

impl<T: Elem> Sut for Vector<T, MonAlloc> {
    const NAME: &'static str = "Vector";
    const OPS: usize = 24;
    fn make(rng: &mut Rng) -> Self {
        let mut v = Vector::new_in(MonAlloc::fresh());
        v.reserve(rng.below(4));
        for _ in 0..rng.below(14) {
            v.push(T::mk(rng.next() & 0xffff));
        }
        v
    }
    fn step(s: &mut Option<Self>, op: usize, rng: &mut Rng) {
        match op {
            14 => {
                let c = s.as_ref().unwrap().clone();
                *s = Some(c);
            }
            15 => drop(s.as_ref().unwrap().clone()),
            16 => {
                let n = rng.below(12);
                let mut src = Q::new(mks::<T>(rng, n));
                let v = if rng.chance(1, 2) { Vector::from(&src.0[..]) } else { Vector::from(&mut src.0[..]) };
                *s = Some(v);
            }
            17 => *s = Some(Vector::from([T::mk(1), T::mk(2), T::mk(3), T::mk(4), T::mk(5)])),
            18 => {
                let n = rng.below(14);
                let v = mks::<T>(rng, n);
                *s = Some(src(rng, v).collect());
            }
            19 => {
                let mut it = s.take().unwrap().into_iter();
                for _ in 0..rng.below(it.len() + 1) {
                    quiet(if rng.chance(1, 2) { it.next() } else { it.next_back() });
                }
                drop(it);
            }
            20 => {
                let it = s.take().unwrap().into_iter();
                let v: Vec<T> = it
                    .map(|x| {
                        let x = Q::new(x);
                        callback(Cb::Closure);
                        (*x.0).clone()
                    })
                    .collect();
                quiet(v);
            }
            21 => {
                // in place of the old container
                let v = s.take().unwrap();
                *s = Some(v.into_iter().rev().collect());
            }
            22 => {
                let mut w = Self::make(rng);
                let v = s.as_mut().unwrap();
                std::mem::swap(v, &mut w);
                v.append(&w);
            }
            23 => drop(s.take()),
            _ => vec_step(s.as_mut().unwrap(), op, rng),
        }
    }
    fn read(&self) -> u64 {
        assert!(self.len() <= self.capacity());
        see(self.iter())
    }
}

/// FixedVector, in a block of its own
struct Fv<T: Elem, const N: usize>(Home<FixedVector<T, N, MonAlloc>>);
impl<T: Elem, const N: usize> Sut for Fv<T, N> {
    const NAME: &'static str = "FixedVector";
    const OPS: usize = 18;
    fn make(rng: &mut Rng) -> Self {
        let mut h: Home<FixedVector<T, N, MonAlloc>> = Home::raw();
        unsafe { FixedVector::<T, N, MonAlloc>::new_in(MonAlloc::fresh()).new(h.slot()) };
        for _ in 0..rng.below(N * 2 + 2) {
            h.push(T::mk(rng.next() & 0xffff));
        }
        Fv(h)
    }
    fn step(s: &mut Option<Self>, op: usize, rng: &mut Rng) {
        let v = &mut *s.as_mut().unwrap().0;
        match op {
            14 => v.clear(),
            15 => {
                let mut from = std::mem::ManuallyDrop::new(s.take().unwrap());
                let mut to: Home<FixedVector<T, N, MonAlloc>> = Home::raw();
                unsafe {
                    let flag = QuietFlag::new();
                    flag.flag().inc();
                    let src = MoveRef::into_pin(MoveRef::new_unchecked(&mut *from.0.p, flag.flag()));
                    FixedVector::<T, N, MonAlloc>::move_new(src, to.slot());
                    drop(flag);
                    mem::mon_free(from.0.home, from.0.p as *mut (), size_of::<FixedVector<T, N, MonAlloc>>(), align_of::<FixedVector<T, N, MonAlloc>>());
                }
                *s = Some(Fv(to));
            }
            16 => {
                // a plain vector in EASTL's sense: it owns copies
                let w = Q::new((**v).clone_plain());
                v.clear();
                v.assign(&w.0);
            }
            17 => drop(s.take()),
            _ => vec_step(v, op, rng),
        }
    }
    fn read(&self) -> u64 {
        see(self.0.iter())
    }
}
trait ClonePlain<T> {
    fn clone_plain(&self) -> Vec<T>;
}
impl<T: Clone, A: eastl_rs::Allocator> ClonePlain<T> for Vector<T, A> {
    fn clone_plain(&self) -> Vec<T> {
        self.to_vec()
    }
}

// ---------------------------------------------------------------- deques

impl<T: Elem> Sut for Deque<'static, T, MonAlloc> {
    const NAME: &'static str = "Deque";
    const OPS: usize = 14;
    fn make(rng: &mut Rng) -> Self {
        let mut d = unsafe { Deque::new_in(MonAlloc::fresh()) };
        for _ in 0..rng.below(40) {
            match rng.below(5) {
                0 | 1 => d.push_back(T::mk(rng.next() & 0xffff)),
                2 | 3 => d.push_front(T::mk(rng.next() & 0xffff)),
                _ => drop(d.pop_back()),
            }
        }
        d
    }
    fn step(s: &mut Option<Self>, op: usize, rng: &mut Rng) {
        let d = s.as_mut().unwrap();
        match op {
            0 => d.push_back(T::mk(1)),
            1 => d.push_front(T::mk(2)),
            2 => quiet(d.pop_back()),
            3 => quiet(d.pop_front()),
            4 => {
                let i = rng.below(d.len() + 1);
                quiet(d.remove(i))
            }
            5 => quiet(format!("{d:?}")),
            6 => d.iter_mut().for_each(|x| *x = T::mk(4)),
            7 => {
                let n = rng.below(40);
                let v = mks::<T>(rng, n);
                *s = Some(src(rng, v).collect());
            }
            8 => {
                let n = d.len();
                let mut it = s.take().unwrap().into_iter();
                for _ in 0..rng.below(n + 1) {
                    quiet(if rng.chance(1, 2) { it.next() } else { it.next_back() });
                }
                drop(it);
            }
            9 => {
                let v: Vec<T> = s
                    .take()
                    .unwrap()
                    .into_iter()
                    .map(|x| {
                        let x = Q::new(x);
                        callback(Cb::Closure);
                        (*x.0).clone()
                    })
                    .collect();
                quiet(v);
            }
            10 => {
                if let Some(x) = d.front_mut() {
                    *x = T::mk(5);
                }
            }
            11 => {
                if let Some(x) = d.back_mut() {
                    *x = x.clone();
                }
            }
            12 => {
                let v = s.take().unwrap();
                *s = Some(v.into_iter().rev().collect());
            }
            _ => drop(s.take()),
        }
    }
    fn read(&self) -> u64 {
        see(self.iter()) ^ self.front().map_or(0, |x| x.get()) ^ self.back().map_or(0, |x| x.get())
    }
}

impl<T: Elem> Sut for Queue<'static, T, MonAlloc> {
    const NAME: &'static str = "Queue";
    const OPS: usize = 8;
    fn make(rng: &mut Rng) -> Self {
        let mut q = unsafe { Queue::new_in(MonAlloc::fresh()) };
        for _ in 0..rng.below(40) {
            if rng.chance(3, 4) {
                q.push(T::mk(rng.next() & 0xffff));
            } else {
                drop(q.pop());
            }
        }
        q
    }
    fn step(s: &mut Option<Self>, op: usize, rng: &mut Rng) {
        let q = s.as_mut().unwrap();
        match op {
            0 => q.push(T::mk(1)),
            1 => quiet(q.pop()),
            2 => quiet(format!("{q:?}")),
            3 => q.iter_mut().for_each(|x| *x = T::mk(4)),
            4 => {
                let n = rng.below(40);
                let v = mks::<T>(rng, n);
                *s = Some(src(rng, v).collect());
            }
            5 => {
                let mut it = s.take().unwrap().into_iter();
                for _ in 0..rng.below(20) {
                    quiet(it.next());
                }
                drop(it);
            }
            6 => drop(s.take().unwrap().into_inner()),
            _ => drop(s.take()),
        }
    }
    fn read(&self) -> u64 {
        see(self.iter()) ^ self.top().map_or(0, |x| x.get())
    }
}

// ---------------------------------------------------------------- hash containers

impl<K: Elem, V: Elem> Sut for HashMap<K, V, MonAlloc>
where
    DefaultHash<K>: Hash<K>,
{
    const NAME: &'static str = "HashMap";
    const OPS: usize = 18;
    fn make(rng: &mut Rng) -> Self {
        let mut m = unsafe { HashMap::new_in(MonAlloc::fresh()) };
        let n = [0, 1, 5, 11, 12, 23, 30][rng.below(7)];
        for i in 0..n {
            m.insert(if n > 12 { K::mk(i) } else { key(rng) }, V::mk(rng.next() & 0xffff));
        }
        m
    }
    fn step(s: &mut Option<Self>, op: usize, rng: &mut Rng) {
        let m = s.as_mut().unwrap();
        let k = Q::new(key::<K>(rng));
        match op {
            0 => quiet(m.insert(key(rng), V::mk(1))),
            1 => quiet(m.remove(&k.0)),
            2 => quiet(m.remove_entry(&k.0)),
            3 => {
                m.get(&k.0).map(|v| v.get());
            }
            4 => {
                m.get_mut(&k.0).map(|v| *v = V::mk(2));
            }
            5 => {
                m.contains_key(&k.0);
            }
            6 => {
                m.entry(key(rng)).or_insert(V::mk(3));
            }
            7 => {
                m.entry(key(rng)).or_insert_with(|| {
                    callback(Cb::Closure);
                    V::mk(4)
                });
            }
            8 => {
                m.entry(key(rng))
                    .and_modify(|v| {
                        callback(Cb::Closure);
                        *v = V::mk(5);
                        callback(Cb::Closure);
                    })
                    .or_insert(V::mk(6));
            }
            9 => m.clear(),
            10 => {
                let n = rng.below(40);
                let v = kvs::<K, V>(rng, n);
                *s = Some(src(rng, v).collect());
            }
            11 => quiet(format!("{m:?}")),
            12 => m.iter_mut().for_each(|(_, v)| *v = V::mk(7)),
            13 => {
                // past the next rehash
                for i in 0..26 {
                    quiet(m.insert(K::mk(100 + i), V::mk(i)));
                }
            }
            14 => drop(m.entry(key(rng))),
            15 => {
                // every key away again
                let n = rng.below(24) as u64;
                for i in 0..n {
                    let k = Q::new(K::mk(i));
                    m.remove(&k.0);
                }
            }
            16 => {
                let mut w = Self::make(rng);
                std::mem::swap(m, &mut w);
            }
            _ => drop(s.take()),
        }
    }
    fn read(&self) -> u64 {
        let h = see2(self.iter());
        for i in 0..30 {
            let k = K::mk(i);
            if let Some(v) = self.get(&k) {
                v.get();
            }
        }
        h ^ self.len() as u64
    }
}

impl<K: Elem> Sut for HashSet<K, MonAlloc>
where
    DefaultHash<K>: Hash<K>,
{
    const NAME: &'static str = "HashSet";
    const OPS: usize = 10;
    fn make(rng: &mut Rng) -> Self {
        let mut m = unsafe { HashSet::new_in(MonAlloc::fresh()) };
        let n = [0, 1, 5, 11, 12, 23, 30][rng.below(7)];
        for i in 0..n {
            m.insert(if n > 12 { K::mk(i) } else { key(rng) });
        }
        m
    }
    fn step(s: &mut Option<Self>, op: usize, rng: &mut Rng) {
        let m = s.as_mut().unwrap();
        let k = Q::new(key::<K>(rng));
        match op {
            0 => {
                m.insert(key(rng));
            }
            1 => quiet(m.remove(&k.0)),
            2 => {
                m.get(&k.0).map(|v| v.get());
            }
            3 => {
                m.contains_key(&k.0);
            }
            4 => m.clear(),
            5 => {
                let n = rng.below(40);
                let v = keys::<K>(rng, n);
                *s = Some(src(rng, v).collect());
            }
            6 => quiet(format!("{m:?}")),
            7 => {
                for i in 0..26 {
                    m.insert(K::mk(100 + i));
                }
            }
            8 => {
                let mut w = Self::make(rng);
                std::mem::swap(m, &mut w);
            }
            _ => drop(s.take()),
        }
    }
    fn read(&self) -> u64 {
        let h = see(self.iter());
        for i in 0..30 {
            let k = K::mk(i);
            if let Some(v) = self.get(&k) {
                v.get();
            }
        }
        h ^ self.len() as u64
    }
}

// ---------------------------------------------------------------- vector maps

impl<K: Elem, V: Elem> Sut for VectorMap<K, V, MonAlloc> {
    const NAME: &'static str = "VectorMap";
    const OPS: usize = 17;
    fn make(rng: &mut Rng) -> Self {
        let mut m = match rng.below(2) {
            0 => VectorMap::new(),
            _ => VectorMap::with_capacity(rng.below(6)),
        };
        for _ in 0..rng.below(20) {
            drop(m.insert(key(rng), V::mk(rng.next() & 0xffff)));
        }
        m
    }
    fn step(s: &mut Option<Self>, op: usize, rng: &mut Rng) {
        let m = s.as_mut().unwrap();
        let k = Q::new(key::<K>(rng));
        match op {
            0 => quiet(m.insert(key(rng), V::mk(1))),
            1 => quiet(m.remove(&k.0)),
            2 => quiet(m.remove_entry(&k.0)),
            3 => {
                m.get(&k.0).map(|v| v.get());
            }
            4 => {
                m.get_mut(&k.0).map(|v| *v = V::mk(2));
            }
            5 => {
                m.contains_key(&k.0);
            }
            6 => match m.entry(key(rng)) {
                Entry::Occupied(mut e) => *e.get_mut() = V::mk(3),
                Entry::Vacant(e) => {
                    e.insert(V::mk(4));
                }
            },
            7 => match m.entry(key(rng)) {
                Entry::Occupied(_) => {}
                Entry::Vacant(e) => drop(e.into_key()),
            },
            8 => m.clear(),
            9 => {
                let n = rng.below(20);
                let v = kvs::<K, V>(rng, n);
                *s = Some(src(rng, v).collect());
            }
            10 => quiet(format!("{m:?}")),
            11 => {
                let n = rng.below(20);
                let mut v = Q::new(kvs::<K, V>(rng, n));
                *s = Some(if rng.chance(1, 2) { VectorMap::from(&v.0[..]) } else { VectorMap::from(&mut v.0[..]) });
            }
            12 => *s = Some(VectorMap::from([(key::<K>(rng), V::mk(1)), (key(rng), V::mk(2)), (key(rng), V::mk(3)), (key(rng), V::mk(4))])),
            13 => {
                let v = Q::new([(key::<K>(rng), V::mk(1)), (key(rng), V::mk(2)), (key(rng), V::mk(3))]);
                *s = Some(VectorMap::from(&*v.0));
            }
            14 => drop(m.entry(key(rng))),
            15 => {
                let mut w = Self::make(rng);
                std::mem::swap(m, &mut w);
            }
            _ => drop(s.take()),
        }
    }
    fn read(&self) -> u64 {
        see2(self.as_ref().iter().map(|(k, v)| (k, v)))
    }
}

// ---------------------------------------------------------------- lists

macro_rules! list_sut {
    ([$($g:tt)*] $t:ty, $el:ty, $name:expr, $inner:ty, $new:expr, $max:expr, ($x:ident, $it:ident) $ext:expr) => {
        impl<$($g)*> Sut for $t {
            const NAME: &'static str = $name;
            const OPS: usize = 10;
            fn make(rng: &mut Rng) -> Self {
                let mut h: Home<$inner> = Home::raw();
                unsafe { $new.new(h.slot()) };
                for _ in 0..rng.below($max) {
                    match rng.below(5) {
                        0 | 1 => h.push_back(<$el>::mk(rng.next() & 0xffff)),
                        2 | 3 => h.push_front(<$el>::mk(rng.next() & 0xffff)),
                        _ => drop(h.pop_front()),
                    }
                }
                h.into()
            }
            fn step(s: &mut Option<Self>, op: usize, rng: &mut Rng) {
                let $x = &mut *s.as_mut().unwrap().0;
                match op {
                    0 => $x.push_back(<$el>::mk(1)),
                    1 => $x.push_front(<$el>::mk(2)),
                    2 => quiet($x.pop_back()),
                    3 => quiet($x.pop_front()),
                    4 => $x.clear(),
                    5 => {
                        let n = rng.below(12);
                        let v = mks::<$el>(rng, n);
                        let $it = src(rng, v);
                        $ext
                    }
                    6 => quiet(format!("{:?}", $x)),
                    7 => $x.iter_mut().for_each(|e| *e = <$el>::mk(4)),
                    8 => {
                        if let Some(e) = $x.front_mut() {
                            *e = <$el>::mk(5);
                        }
                        if let Some(e) = $x.back_mut() {
                            *e = e.clone();
                        }
                    }
                    _ => drop(s.take()),
                }
            }
            fn read(&self) -> u64 {
                see(self.0.iter()) ^ self.0.len() as u64
            }
        }
    };
}
struct Ls<T: Elem>(Home<List<T, MonAlloc>>);
impl<T: Elem> From<Home<List<T, MonAlloc>>> for Ls<T> {
    fn from(h: Home<List<T, MonAlloc>>) -> Self {
        Ls(h)
    }
}
list_sut!([T: Elem] Ls<T>, T, "List", List<T, MonAlloc>, List::<T, MonAlloc>::new_in(MonAlloc::fresh()), 20, (x, it) x.extend(it));
struct Fl<T: Elem, const N: usize>(Home<FixedList<T, N, MonAlloc>>);
impl<T: Elem, const N: usize> From<Home<FixedList<T, N, MonAlloc>>> for Fl<T, N> {
    fn from(h: Home<FixedList<T, N, MonAlloc>>) -> Self {
        Fl(h)
    }
}
list_sut!([T: Elem, const N: usize] Fl<T, N>, T, "FixedList", FixedList<T, N, MonAlloc>, FixedList::<T, N, MonAlloc>::new_in(MonAlloc::fresh()), 3 * N, (x, it) x.extend(it));
#[cfg(feature = "conformant")]
mod conf {
    use super::*;
    use eastl_rs::fixed_list::conformant::FixedList as C;
    macro_rules! conf {
        ($name:ident, $t:ty, $n:expr) => {
            pub struct $name(pub Home<C<$t, $n, MonAlloc>>);
            impl From<Home<C<$t, $n, MonAlloc>>> for $name {
                fn from(h: Home<C<$t, $n, MonAlloc>>) -> Self {
                    $name(h)
                }
            }
            list_sut!([] $name, $t, "conformant FixedList", C<$t, $n, MonAlloc>, C::<$t, $n, MonAlloc>::new_in(MonAlloc::fresh()), 3 * $n, (x, it) it.for_each(|e| x.push_back(e)));
        };
    }
    conf!(C8, Tok8, 3);
    conf!(C24, Tok24, 5);
    conf!(C12, Tok12, 2);
}

// ---------------------------------------------------------------- trees

/// a map over a planted tree
trait TreeSut<K: Elem, V: Elem>: 'static {
    const NAME: &'static str;
    fn fresh() -> Self
    where
        Self: Sized;
    fn plant(&mut self, rng: &mut Rng, n: usize);
    fn go(&mut self, op: usize, rng: &mut Rng);
    fn look(&self) -> u64;
    fn empty(&self) -> bool;
}
struct Tr<K, V, M>(M, std::marker::PhantomData<(K, V)>);
impl<K: Elem, V: Elem, M: TreeSut<K, V>> Sut for Tr<K, V, M> {
    const NAME: &'static str = M::NAME;
    const OPS: usize = 10;
    fn make(rng: &mut Rng) -> Self {
        let mut m = M::fresh();
        let n = rng.below(20);
        m.plant(rng, n);
        Tr(m, std::marker::PhantomData)
    }
    fn step(s: &mut Option<Self>, op: usize, rng: &mut Rng) {
        let m = &mut s.as_mut().unwrap().0;
        match op {
            8 => {
                m.go(7, rng);
                if m.empty() {
                    let (f, calls) = (FUSE.swap(-1, Relaxed), CALLS.load(Relaxed));
                    let n = rng.below(14);
                    m.plant(rng, n);
                    FUSE.store(f, Relaxed);
                    CALLS.store(calls, Relaxed);
                }
            }
            9 => drop(s.take()),
            _ => m.go(op, rng),
        }
    }
    fn read(&self) -> u64 {
        self.0.look()
    }
}
fn map_go<K: Elem, V: Elem, A: eastl_rs::Allocator, C: eastl_rs::compare::Compare<K>>(m: &mut Map<K, V, A, C>, op: usize, rng: &mut Rng) {
    let k = Q::new(key::<K>(rng));
    match op {
        0 => {
            m.get(&k.0).map(|v| v.get());
        }
        1 => {
            m.get_mut(&k.0).map(|v| *v = V::mk(1));
        }
        2 => {
            m.contains_key(&k.0);
        }
        3 => unsafe { m.iter_mut() }.for_each(|(_, v)| *v = V::mk(2)),
        4 => quiet(format!("{m:?}")),
        5 => unsafe { m.iter() }.for_each(|(k, v)| {
            k.clone();
            v.clone();
        }),
        6 => {
            for i in 0..24 {
                let k = Q::new(K::mk(i));
                if let Some(v) = m.get_mut(&k.0) {
                    *v = v.clone();
                }
            }
        }
        _ => m.clear(),
    }
}
fn sorted<K: Elem, V: Elem>(rng: &mut Rng, n: usize, desc: bool) -> Vec<(K, V)> {
    let set: std::collections::BTreeSet<u64> = (0..n).map(|_| rng.below(24) as u64).collect();
    let mut v: Vec<_> = set.into_iter().map(|k| (K::mk(k), V::mk(rng.next() & 0xffff))).collect();
    if desc {
        v.reverse();
    }
    v
}
/// where the first allocator word of a tree is
fn arena_at(base: usize) -> u32 {
    unsafe { raw::u32_at(base, 36) }
}
fn plant_heap<K: Elem, V: Elem>(rng: &mut Rng, base: usize, n: usize, desc: bool) {
    let ps = sorted::<K, V>(rng, n, desc);
    let shape = random_shape(rng, ps.len());
    plant(base, &shape, ps, &mut Heap(arena_at(base)), rng.chance(1, 2));
}
fn plant_pool<K: Elem, V: Elem>(rng: &mut Rng, base: usize, n: usize, over: Option<u32>, cap: usize) {
    let mut ps = sorted::<K, V>(rng, n, false);
    if over.is_none() {
        // what a panicking clear lost stays lost: count what is left
        let left = unsafe {
            let (mut h, mut left) = (raw::word(base + 40, 0), 0);
            while h != 0 {
                left += 1;
                h = raw::word(h, 0);
            }
            left + (raw::word(base + 40, 16) - raw::word(base + 40, 8)) / node::<K, V>().2
        };
        assert!(left <= cap, "harness: {left} free nodes in a pool of {cap}");
        ps.truncate(left);
    }
    let shape = random_shape(rng, ps.len());
    let mut p = Pool { at: base + 40, over, given: vec![], node: node::<K, V>().2 };
    plant(base, &shape, ps, &mut p, rng.chance(1, 2));
}
macro_rules! map_common {
    ($k:ty, $v:ty) => {
        fn go(&mut self, op: usize, rng: &mut Rng) {
            map_go::<$k, $v, _, _>(self, op, rng)
        }
        fn look(&self) -> u64 {
            see2(unsafe { self.iter() }) ^ self.len() as u64
        }
        fn empty(&self) -> bool {
            self.is_empty()
        }
    };
}
impl<K: Elem, V: Elem> TreeSut<K, V> for Home<Map<K, V, MonAlloc, Less<K>>> {
    const NAME: &'static str = "Map";
    fn fresh() -> Self {
        Home::new(Map::with_allocator(MonAlloc::fresh()))
    }
    fn plant(&mut self, rng: &mut Rng, n: usize) {
        plant_heap::<K, V>(rng, self.base(), n, false)
    }
    map_common!(K, V);
}
impl<K: Elem, V: Elem> TreeSut<K, V> for Home<Map<K, V, MonAlloc, Greater<K>>> {
    const NAME: &'static str = "Map, descending";
    fn fresh() -> Self {
        Home::new(Map::with_allocator(MonAlloc::fresh()))
    }
    fn plant(&mut self, rng: &mut Rng, n: usize) {
        plant_heap::<K, V>(rng, self.base(), n, true)
    }
    map_common!(K, V);
}
const CAP: usize = 9;
impl<K: Elem, V: Elem> TreeSut<K, V> for Home<FixedMap<K, V, CAP>> {
    const NAME: &'static str = "FixedMap";
    fn fresh() -> Self {
        let mut h: Self = Home::raw();
        unsafe { FixedMap::<K, V, CAP>::new().new(h.slot()) };
        h
    }
    fn plant(&mut self, rng: &mut Rng, n: usize) {
        plant_pool::<K, V>(rng, self.base(), n, None, CAP)
    }
    map_common!(K, V);
}
struct Over<K: Elem, V: Elem>(Home<FixedMapWithOverflow<K, V, CAP, MonAlloc>>, u32);
impl<K: Elem, V: Elem> std::ops::Deref for Over<K, V> {
    type Target = FixedMapWithOverflow<K, V, CAP, MonAlloc>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K: Elem, V: Elem> std::ops::DerefMut for Over<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K: Elem, V: Elem> TreeSut<K, V> for Over<K, V> {
    const NAME: &'static str = "FixedMap with overflow";
    fn fresh() -> Self {
        let mut h: Home<FixedMapWithOverflow<K, V, CAP, MonAlloc>> = Home::raw();
        unsafe { FixedMapWithOverflow::<K, V, CAP, MonAlloc>::new().new(h.slot()) };
        let arena = MonAlloc::current().arena();
        Over(h, arena)
    }
    fn plant(&mut self, rng: &mut Rng, n: usize) {
        plant_pool::<K, V>(rng, self.0.base(), n, Some(self.1), CAP)
    }
    map_common!(K, V);
}
impl<K: Elem> TreeSut<K, Unit> for Home<Set<K, MonAlloc, Less<K>>> {
    const NAME: &'static str = "Set";
    fn fresh() -> Self {
        Home::new(Set::with_allocator(MonAlloc::fresh()))
    }
    fn plant(&mut self, rng: &mut Rng, n: usize) {
        plant_heap::<K, Unit>(rng, self.base(), n, false)
    }
    fn go(&mut self, op: usize, rng: &mut Rng) {
        let k = Q::new(key::<K>(rng));
        match op {
            0..=2 => {
                self.contains_key(&k.0);
            }
            3..=6 => unsafe { self.iter() }.for_each(|k| drop(k.clone())),
            _ => self.clear(),
        }
    }
    fn look(&self) -> u64 {
        see(unsafe { self.iter() }) ^ self.len() as u64
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
}

// ---------------------------------------------------------------- strings

struct Text<'a>(&'a str);
impl AsRef<str> for Text<'_> {
    fn as_ref(&self) -> &str {
        callback(Cb::Closure);
        self.0
    }
}
struct Out(usize);
impl std::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        callback(Cb::Fmt);
        self.0 += s.len();
        Ok(())
    }
}
impl Sut for EaString<MonAlloc> {
    const NAME: &'static str = "String";
    const OPS: usize = 12;
    fn make(rng: &mut Rng) -> Self {
        let t: String = (0..rng.below(20)).map(|_| *rng.pick(&['a', 'é', '日', '🦀'])).collect();
        EaString::from_in(&t, MonAlloc::fresh())
    }
    fn step(s: &mut Option<Self>, op: usize, rng: &mut Rng) {
        use std::fmt::Write;
        let t: String = (0..rng.below(20)).map(|_| *rng.pick(&['a', 'é', '日', '🦀'])).collect();
        let x = s.as_mut().unwrap();
        match op {
            0 | 1 => x.assign(Text(&t)),
            2 => *x = EaString::from_in(Text(&t), MonAlloc::fresh()),
            3 => write!(Out(0), "{x} {x:?} {x:>40}").unwrap(),
            4 => {
                for _ in 0..3 {
                    x.push('é');
                }
                x.assign(Text(&t));
            }
            5 => *x = x.clone(),
            6 => {
                x.pop();
                x.insert(0, '🦀');
                x.remove(0);
            }
            7 => x.reserve(rng.below(9)),
            8 => {
                let at = x.char_indices().map(|(i, _)| i).nth(rng.below(8)).unwrap_or(x.len());
                x.insert(at, '🦀');
            }
            9 => *s = Some(EaString::with_capacity(rng.below(9))),
            10 => {
                // from nothing, byte by byte
                let mut y = EaString::new_in(MonAlloc::fresh());
                y.push('日');
                y.push('🦀');
                *s = Some(y);
            }
            _ => drop(s.take()),
        }
    }
    fn read(&self) -> u64 {
        let b = self.as_bytes();
        assert!(std::str::from_utf8(b).is_ok());
        // C++ may look at it now
        assert!(self.capacity() == 0 || unsafe { *b.as_ptr().add(b.len()) } == 0, "text without terminator");
        rng::hash_str(self)
    }
}

// ---------------------------------------------------------------- the injector

/// Run `f`; true when the injected panic came out of it.
fn guarded(c: &mut Ctx, what: &str, f: impl FnOnce()) -> bool {
    let r = catch_unwind(AssertUnwindSafe(f));
    tok::fuse_off();
    match r {
        Ok(()) => false,
        Err(p) if p.is::<ctx::FusePanic>() => true,
        Err(p) => {
            c.note(|| format!("{what}: another panic"));
            resume_unwind(p)
        }
    }
}
fn fired_kind(c: &mut Ctx) {
    c.count("panics injected");
    c.count(match tok::FUSE_KIND.load(Relaxed) {
        1 => "panics in clone",
        2 => "panics in drop",
        3 => "panics in equality",
        4 => "panics in hash",
        5 => "panics in comparison",
        6 => "panics in closure",
        7 => "panics in source iterator",
        8 => "panics in formatting",
        _ => "panics in the allocator",
    });
}
fn look<S: Sut>(c: &mut Ctx, s: &Option<S>, what: &str) {
    if let Some(x) = s {
        std::hint::black_box(x.read());
    }
    c.sync();
    if let Some((k, ..)) = c.viol.iter().find(|(k, ..)| engine::accepts("C20", *k)) {
        let k = *k;
        c.note(|| format!("{k:?} after {what}"));
        c.leak_ok = true;
        resume_unwind(Box::new(ctx::CaseAbort));
    }
}

/// The operation, once: the panic after `k` callbacks. Gives the number of callbacks seen.
fn once<S: Sut>(c: &mut Ctx, seed: u64, mode: u32, op: usize, k: i64) -> (i64, bool) {
    let mut r = Rng::new(seed);
    tok::HASH_MODE.store(mode, Relaxed);
    let mut s = Some(S::make(&mut r));
    c.sync();
    tok::fuse_arm(k);
    let fired = guarded(c, S::NAME, || S::step(&mut s, op, &mut r));
    let calls = tok::CALLS.load(Relaxed);
    let dry = k == i64::MAX;
    if fired {
        c.eff();
        fired_kind(c);
    }
    look(c, &s, S::NAME);
    if !dry {
        // go on with it
        for _ in 0..r.below(5) {
            if s.is_none() {
                s = Some(S::make(&mut r));
            }
            let op = r.below(S::OPS);
            let k = if r.chance(1, 2) { r.below(10) as i64 } else { i64::MAX };
            c.note(|| format!("then op {op} with a panic after {k} callbacks"));
            tok::fuse_arm(k);
            if guarded(c, S::NAME, || S::step(&mut s, op, &mut r)) {
                fired_kind(c);
            }
            c.count("operations after a panic");
            look(c, &s, S::NAME);
        }
        if r.chance(1, 2) {
            tok::fuse_arm(r.below(6) as i64);
            if guarded(c, "drop", || drop(s.take())) {
                fired_kind(c);
            }
        }
    }
    guarded(c, "drop", || drop(s.take()));
    c.sync();
    mem::g_sync();
    mem::case_end(!dry);
    tok::case_end(!dry);
    look::<S>(c, &None, "the end");
    (calls, fired)
}

fn enumerate<S: Sut>(c: &mut Ctx) {
    let op = (c.index as usize / SUTS) % S::OPS;
    let seed = c.rng.next();
    let mode = if c.rng.chance(1, 2) { 0 } else { c.rng.below(10) as u32 };
    c.op(S::NAME, op as u64, seed);
    c.note(|| format!("{} op {op}", S::NAME));
    let (n, _) = once::<S>(c, seed, mode, op, i64::MAX);
    c.count("dry runs");
    if n > 0 {
        c.count("operations with callbacks");
    }
    c.count_n("callback invocations (possible panic points)", n as u64);
    c.max("max callbacks in one operation", n as u64);
    let all: Vec<i64> = if n <= 96 {
        (0..n).collect()
    } else {
        c.count("operations with more panic points than are tried");
        (0..40).chain(n - 16..n).chain((0..40).map(|_| 40 + c.rng.below(n as usize - 56) as i64)).collect()
    };
    for k in all {
        c.op("panic at callback", k as u64, 0);
        let (_, fired) = once::<S>(c, seed, mode, op, k);
        if !fired {
            // a panic inside a destructor that the language swallows, or a shorter run
            c.count("panic points not reached");
        }
    }
    c.eff();
}

/// long histories in which any operation may panic
fn chaos<S: Sut>(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.next());
    tok::HASH_MODE.store(if r.chance(1, 2) { 0 } else { r.below(10) as u32 }, Relaxed);
    c.leak_ok = true;
    let mut s = Some(S::make(&mut r));
    let den = [1, 2, 4, 8][r.below(4)];
    for _ in 0..if c.thorough { 120 } else { 60 } {
        if s.is_none() {
            s = Some(S::make(&mut r));
        }
        let op = r.below(S::OPS);
        let k = if r.chance(1, den) { r.below(20) as i64 } else { i64::MAX };
        c.op(S::NAME, op as u64, k as u64);
        tok::fuse_arm(k);
        if guarded(c, S::NAME, || S::step(&mut s, op, &mut r)) {
            fired_kind(c);
            c.eff();
        }
        look(c, &s, S::NAME);
    }
    tok::fuse_arm(r.below(20) as i64);
    if guarded(c, "drop", || drop(s.take())) {
        fired_kind(c);
    }
    c.eff();
}

/// Histories of a container whose elements lie: equality is not an equivalence, order not an order,
/// hashes change, size hints are wrong. What it does is then anybody's guess, but it may not touch
/// what is not there, destroy anything twice or lose anything.
fn lawless<S: Sut>(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.next());
    tok::HASH_MODE.store(r.below(10) as u32, Relaxed);
    tok::LIE_DEN.store([1, 1, 2, 5, 20][r.below(5)], Relaxed);
    // half the time what is there to begin with was put in honestly
    let mut s = None;
    if r.chance(1, 2) {
        s = Some(S::make(&mut r));
    }
    tok::LIES.store(r.next() | 1, Relaxed);
    let lies = tok::N_LIES.load(Relaxed);
    for _ in 0..if cfg!(miri) { 12 } else { 60 } {
        let op = r.below(S::OPS);
        c.op(S::NAME, op as u64, 0);
        let s = &mut s;
        let r = &mut r;
        let done = catch_unwind(AssertUnwindSafe(|| {
            if s.is_none() {
                *s = Some(S::make(r));
            }
            S::step(s, op, r);
            s.as_ref().map(|x| std::hint::black_box(x.read()));
        }));
        match done {
            Ok(()) => c.eff(),
            Err(p) if p.is::<ctx::CaseAbort>() => resume_unwind(p),
            Err(_) => {
                // an index that is not there, a lookup that must succeed
                c.count("operations that panicked");
                c.leak_ok = true;
            }
        }
        judge(c);
    }
    c.count_n("false answers given", tok::N_LIES.load(Relaxed) - lies);
    if catch_unwind(AssertUnwindSafe(|| drop(s))).is_err() {
        c.leak_ok = true;
    }
    judge(c);
}
fn judge(c: &mut Ctx) {
    c.sync();
    let p = c.prop;
    if c.viol.iter().any(|(k, ..)| engine::accepts(p, *k)) {
        c.leak_ok = true;
        resume_unwind(Box::new(ctx::CaseAbort));
    }
}

type Hm<K, V> = HashMap<K, V, MonAlloc>;
type Hs<K> = HashSet<K, MonAlloc>;
type Vm<K, V> = VectorMap<K, V, MonAlloc>;
type Dq<T> = Deque<'static, T, MonAlloc>;
type Qu<T> = Queue<'static, T, MonAlloc>;
type Mp<K, V> = Home<Map<K, V, MonAlloc, Less<K>>>;
type Mg<K, V> = Home<Map<K, V, MonAlloc, Greater<K>>>;
type Fm<K, V> = Home<FixedMap<K, V, CAP>>;
type Se<K> = Home<Set<K, MonAlloc, Less<K>>>;

const SUTS: usize = 28;
macro_rules! pick {
    ($c:ident, $f:ident) => {
        match $c.index as usize % SUTS {
            0 => $f::<Vector<Tok8, MonAlloc>>($c),
            1 => $f::<Vector<Tok40, MonAlloc>>($c),
            2 => $f::<Vector<TokA64, MonAlloc>>($c),
            3 => $f::<Fv<Tok4, 4>>($c),
            4 => $f::<Fv<Tok24, 7>>($c),
            5 => $f::<Dq<Tok40>>($c),
            6 => $f::<Dq<Tok24>>($c),
            7 => $f::<Dq<TokA64>>($c),
            8 => $f::<Qu<Tok24>>($c),
            9 => $f::<Qu<Tok40>>($c),
            10 => $f::<Hm<Tok8, Tok24>>($c),
            11 => $f::<Hm<Tok40, Tok4>>($c),
            12 => $f::<Hm<TokA16, Tok8>>($c),
            13 => $f::<Hs<Tok8>>($c),
            14 => $f::<Hs<Tok24>>($c),
            15 => $f::<Vm<Tok8, Tok24>>($c),
            16 => $f::<Vm<TokA16, Tok4>>($c),
            17 => $f::<Ls<Tok8>>($c),
            18 => $f::<Ls<TokA16>>($c),
            19 => $f::<Fl<Tok8, 3>>($c),
            20 => $f::<Fl<Tok24, 6>>($c),
            #[cfg(feature = "conformant")]
            21 => $f::<conf::C8>($c),
            #[cfg(feature = "conformant")]
            22 => $f::<conf::C24>($c),
            #[cfg(not(feature = "conformant"))]
            21 | 22 => $f::<Fl<Tok12, 2>>($c),
            23 => $f::<Tr<Tok8, Tok24, Mp<Tok8, Tok24>>>($c),
            24 => $f::<Tr<TokA16, Tok4, Mg<TokA16, Tok4>>>($c),
            25 => {
                if $c.rng.chance(1, 2) {
                    $f::<Tr<Tok8, Tok12, Fm<Tok8, Tok12>>>($c)
                } else {
                    $f::<Tr<Tok4, Tok40, Over<Tok4, Tok40>>>($c)
                }
            }
            26 => $f::<Tr<Tok24, Unit, Se<Tok24>>>($c),
            _ => $f::<EaString<MonAlloc>>($c),
        }
    };
}
fn r_enum(c: &mut Ctx) {
    pick!(c, enumerate)
}
fn r_chaos(c: &mut Ctx) {
    pick!(c, chaos)
}

fn r_lawless(c: &mut Ctx) {
    pick!(c, lawless)
}

const P: &[&str] = &["C20"];
const L: &[&str] = &["C17", "C18", "C19"];
static RIGS: &[Rig] = &[
    // every operation of every container, several states each
    Rig { name: "panic_points", props: P, scale: rnd((SUTS * 24 * 3) as u64, (SUTS * 24 * 60) as u64), f: r_enum },
    Rig { name: "lawless_elements", props: L, scale: rnd(SUTS as u64 * 40, SUTS as u64 * 4000), f: r_lawless },
    Rig { name: "panic_histories", props: P, scale: rnd(SUTS as u64 * 20, SUTS as u64 * 1500), f: r_chaos },
];

fn main() {
    mon::engine::main(RIGS);
}
