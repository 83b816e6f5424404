//! Red-black trees laid out by hand, as C++ would leave them.
use crate::rng::{self, Rng};
use crate::raw::WriteWord;
use crate::{mem, raw, Elem, MonAlloc};
use std::mem::{align_of, size_of};

pub fn up(x: usize, a: usize) -> usize {
    x.div_ceil(a) * a
}
/// rbtree_node<pair<const K, V>>: {right, left, parent | color} then the pair: (key, value, size, align)
pub fn node<K, V>() -> (usize, usize, usize, usize) {
    let a = align_of::<K>().max(align_of::<V>());
    let k = up(24, a);
    let v = k + up(size_of::<K>(), align_of::<V>());
    let end = up(v + size_of::<V>() - k, a) + k;
    let al = a.max(8);
    (k, v, up(end, al), al)
}

/// A red-black shape.
#[derive(Clone, Debug)]
pub struct S {
    pub l: Option<Box<S>>,
    pub r: Option<Box<S>>,
    pub red: bool,
}
pub fn lim(k: u32) -> (usize, usize) {
    // nodes of a child of a black node whose subtree has black height k
    ((1usize << k) - 1, 2 * 4usize.pow(k) - 1)
}
pub fn black_range(k: u32) -> (usize, usize) {
    ((1usize << k) - 1, 4usize.pow(k) - 1)
}
/// a random subtree of n nodes and black height k; `red_ok`: its root may be red
pub fn gen(rng: &mut Rng, n: usize, k: u32, red_ok: bool) -> Option<Box<S>> {
    if n == 0 {
        return None;
    }
    let (blo, bhi) = black_range(k);
    let black_fits = k > 0 && n >= blo && n <= bhi;
    let (rlo, rhi) = (2 * blo + 1, 2 * bhi + 1);
    let red_fits = red_ok && n >= rlo && n <= rhi && n % 1 == 0;
    let red = if black_fits && red_fits { rng.chance(1, 2) } else { red_fits };
    assert!(black_fits || red_fits, "harness: shape n={n} k={k}");
    let (lo, hi, kk) = if red {
        (blo, bhi, k)
    } else {
        let (a, b) = lim(k - 1);
        (a, b, k - 1)
    };
    let m = n - 1;
    let (from, to) = (lo.max(m.saturating_sub(hi)), hi.min(m - lo));
    let l = match rng.below(4) {
        0 => from,
        1 => to,
        _ => rng.range(from, to),
    };
    Some(Box::new(S { l: gen(rng, l, kk, !red), r: gen(rng, m - l, kk, !red), red }))
}
pub fn random_shape(rng: &mut Rng, n: usize) -> Option<Box<S>> {
    let fits: Vec<u32> = (0..20).filter(|&k| n >= black_range(k).0 && n <= black_range(k).1).collect();
    let k = *rng.pick(&fits);
    gen(rng, n, k, false)
}
/// every subtree of n nodes and black height k
pub fn all(n: usize, k: u32, red_ok: bool) -> Vec<Option<Box<S>>> {
    if n == 0 {
        return if k == 0 { vec![None] } else { vec![] };
    }
    let mut out = Vec::new();
    for red in [false, true] {
        if red && !red_ok || !red && k == 0 {
            continue;
        }
        let kk = if red { k } else { k - 1 };
        for l in 0..n {
            let ls = all(l, kk, !red);
            if ls.is_empty() {
                continue;
            }
            for r in all(n - 1 - l, kk, !red) {
                for l in &ls {
                    out.push(Some(Box::new(S { l: l.clone(), r: r.clone(), red })));
                }
            }
        }
    }
    out
}
pub fn all_shapes(n: usize) -> Vec<Option<Box<S>>> {
    (0..6).flat_map(|k| all(n, k, false)).collect()
}
pub fn nth_shape(mut i: usize) -> Option<Option<Box<S>>> {
    static ALL: std::sync::OnceLock<Vec<Vec<Option<Box<S>>>>> = std::sync::OnceLock::new();
    for s in ALL.get_or_init(|| (0..=ALL_UP_TO).map(all_shapes).collect()) {
        if i < s.len() {
            return Some(s[i].clone());
        }
        i -= s.len();
    }
    None
}
pub fn height(s: &Option<Box<S>>) -> u64 {
    s.as_ref().map_or(0, |s| 1 + height(&s.l).max(height(&s.r)))
}

/// Where nodes come from.
pub trait NodeSource {
    fn take(&mut self, size: usize, align: usize) -> usize;
}
pub struct Heap(pub u32);
impl NodeSource for Heap {
    fn take(&mut self, size: usize, align: usize) -> usize {
        mem::mon_alloc(self.0, size, align) as usize
    }
}
/// eastl::fixed_pool {mpHead, mpNext, mpCapacity} at `at`, then maybe an overflow allocator
pub struct Pool {
    pub at: usize,
    pub over: Option<u32>,
    pub given: Vec<usize>,
    pub node: usize,
}
impl NodeSource for Pool {
    fn take(&mut self, size: usize, align: usize) -> usize {
        unsafe {
            let head = raw::word(self.at, 0);
            if head != 0 {
                (self.at as *mut raw::Word).write_word(raw::word(head, 0));
                return head;
            }
            let (next, cap) = (raw::word(self.at, 8), raw::word(self.at, 16));
            if next != cap {
                ((self.at + 8) as *mut raw::Word).write_word(next + self.node);
                self.given.push(next);
                return next;
            }
        }
        mem::mon_alloc(self.over.expect("harness: pool exhausted"), size, align) as usize
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct N {
    pub k: u64,
    pub kid: u32,
    pub v: u64,
    pub vid: u32,
    pub at: usize,
}

/// Write the tree below `base` ({.., begin 8, end 16, parent 24, size 32}); gives the nodes in order.
pub fn plant<K: Elem, V: Elem>(base: usize, shape: &Option<Box<S>>, pairs: Vec<(K, V)>, src: &mut dyn NodeSource, empty_at_anchor: bool) -> Vec<N> {
    let (ko, vo, size, align) = node::<K, V>();
    let n = pairs.len();
    let mut pairs = pairs.into_iter();
    let mut out = Vec::new();
    fn rec<K: Elem, V: Elem>(s: &S, parent: usize, pairs: &mut dyn Iterator<Item = (K, V)>, src: &mut dyn NodeSource, lay: (usize, usize, usize, usize), out: &mut Vec<N>) -> usize {
        let (ko, vo, size, align) = lay;
        let p = src.take(size, align);
        let l = s.l.as_ref().map_or(0, |l| rec(l, p, pairs, src, lay, out));
        let (k, v) = pairs.next().expect("harness: shape larger than its pairs");
        out.push(N { k: k.get(), kid: k.ident(), v: v.get(), vid: v.ident(), at: p });
        let r = s.r.as_ref().map_or(0, |r| rec(r, p, pairs, src, lay, out));
        unsafe {
            (p as *mut raw::Word).write_word(r);
            ((p + 8) as *mut raw::Word).write_word(l);
            ((p + 16) as *mut raw::Word).write_word(parent | !s.red as usize);
            ((p + ko) as *mut K).write(k);
            ((p + vo) as *mut V).write(v);
        }
        p
    }
    let anchor = base + 8;
    // an empty tree's begin and end: nothing, or (as C++ leaves them) the anchor itself
    let none = if n == 0 && empty_at_anchor { anchor } else { 0 };
    let root = shape.as_ref().map_or(0, |s| rec(s, anchor, &mut pairs, src, (ko, vo, size, align), &mut out));
    unsafe {
        ((base + 8) as *mut raw::Word).write_word(out.first().map_or(none, |n| n.at));
        ((base + 16) as *mut raw::Word).write_word(out.last().map_or(none, |n| n.at));
        ((base + 24) as *mut raw::Word).write_word(root);
        ((base + 32) as *mut u32).write(n as u32);
    }
    assert_eq!(out.len(), n, "harness: shape and pairs disagree");
    out
}

pub const ALL_UP_TO: usize = 11;
pub fn count(s: &Option<Box<S>>) -> usize {
    s.as_ref().map_or(0, |s| 1 + count(&s.l) + count(&s.r))
}
pub fn hash_shape(s: &Option<Box<S>>) -> u64 {
    s.as_ref().map_or(1, |s| rng::mix(hash_shape(&s.l).rotate_left(9) ^ s.red as u64, hash_shape(&s.r)))
}

/// An object in a block of its own.
pub struct Home<T> {
    pub p: *mut T,
    pub home: u32,
}
impl<T> Home<T> {
    pub fn raw() -> Self {
        let home = MonAlloc::fresh().arena();
        Home { p: mem::mon_alloc(home, size_of::<T>(), align_of::<T>()) as *mut T, home }
    }
    pub fn new(t: T) -> Self {
        let h = Self::raw();
        unsafe { h.p.write(t) };
        h
    }
    /// where `New` constructs
    pub fn slot(&mut self) -> std::pin::Pin<&mut std::mem::MaybeUninit<T>> {
        unsafe { std::pin::Pin::new_unchecked(&mut *(self.p as *mut std::mem::MaybeUninit<T>)) }
    }
    pub fn base(&self) -> usize {
        self.p as usize
    }
}
impl<T> Drop for Home<T> {
    fn drop(&mut self) {
        unsafe {
            std::ptr::drop_in_place(self.p);
            mem::mon_free(self.home, self.p as *mut (), size_of::<T>(), align_of::<T>());
        }
    }
}
impl<T> std::ops::Deref for Home<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.p }
    }
}
impl<T> std::ops::DerefMut for Home<T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.p }
    }
}

