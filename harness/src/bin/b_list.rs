//! List, FixedList and the conformant FixedList.
#![cfg_attr(feature = "conformant", feature(generic_const_exprs), allow(incomplete_features))]
use eastl_rs::fixed_list::FixedList;
use eastl_rs::list::List;
use mon::engine::{fixed, rnd};
use mon::*;
use moveit::New;
use std::collections::VecDeque;
use std::mem::MaybeUninit;
use std::pin::Pin;

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

#[cfg(feature = "conformant")]
type Cfl<T, const N: usize> = eastl_rs::fixed_list::conformant::FixedList<T, N, MonAlloc>;
type Fl<T, const N: usize> = FixedList<T, N, MonAlloc>;

/// One interface over the three lists.
trait Lst<T: Elem>: Sized {
    /// inline nodes
    const N: usize;
    const WHAT: &'static str;
    /// None: with the default allocator
    unsafe fn create(place: Pin<&mut MaybeUninit<Self>>, a: Option<MonAlloc>);
    fn push_back(&mut self, x: T);
    fn push_front(&mut self, x: T);
    fn pop_back(&mut self) -> Option<T>;
    fn pop_front(&mut self) -> Option<T>;
    fn front(&self) -> Option<&T>;
    fn back(&self) -> Option<&T>;
    fn front_mut(&mut self) -> Option<&mut T>;
    fn back_mut(&mut self) -> Option<&mut T>;
    fn clear(&mut self);
    fn lens(&self) -> (usize, usize, bool, bool);
    fn iter(&self) -> Box<dyn Iterator<Item = &T> + '_>;
    fn iter_mut(&mut self) -> Box<dyn Iterator<Item = &mut T> + '_>;
    fn extend(&mut self, v: impl Iterator<Item = T>);
    fn debug(&self) -> String;
}
macro_rules! common {
    ($t:ty, $me:ident, $l:expr, $lm:expr) => {
        fn push_back(&mut self, x: $t) {
            let $me = self;
            $lm.push_back(x)
        }
        fn push_front(&mut self, x: $t) {
            let $me = self;
            $lm.push_front(x)
        }
        fn pop_back(&mut self) -> Option<$t> {
            let $me = self;
            $lm.pop_back()
        }
        fn pop_front(&mut self) -> Option<$t> {
            let $me = self;
            $lm.pop_front()
        }
        fn front(&self) -> Option<&$t> {
            let $me = self;
            $l.front()
        }
        fn back(&self) -> Option<&$t> {
            let $me = self;
            $l.back()
        }
        fn front_mut(&mut self) -> Option<&mut $t> {
            let $me = self;
            $lm.front_mut()
        }
        fn back_mut(&mut self) -> Option<&mut $t> {
            let $me = self;
            $lm.back_mut()
        }
        fn clear(&mut self) {
            let $me = self;
            $lm.clear()
        }
        fn iter(&self) -> Box<dyn Iterator<Item = &$t> + '_> {
            let $me = self;
            Box::new($l.iter())
        }
        fn iter_mut(&mut self) -> Box<dyn Iterator<Item = &mut $t> + '_> {
            let $me = self;
            Box::new($lm.iter_mut())
        }
        fn debug(&self) -> String {
            format!("{self:?}")
        }
    };
}
impl<T: Elem> Lst<T> for List<T, MonAlloc> {
    const N: usize = 0;
    const WHAT: &'static str = "list";
    unsafe fn create(place: Pin<&mut MaybeUninit<Self>>, a: Option<MonAlloc>) {
        match a {
            Some(a) => List::new_in(a).new(place),
            None => List::new().new(place),
        }
    }
    common!(T, me, me, me);
    fn lens(&self) -> (usize, usize, bool, bool) {
        (self.len() as usize, self.size(), self.is_empty(), self.empty())
    }
    fn extend(&mut self, v: impl Iterator<Item = T>) {
        Extend::extend(self, v)
    }
}
impl<T: Elem, const K: usize> Lst<T> for Fl<T, K> {
    const N: usize = K;
    const WHAT: &'static str = "fixed list";
    unsafe fn create(place: Pin<&mut MaybeUninit<Self>>, a: Option<MonAlloc>) {
        match a {
            Some(a) => FixedList::new_in(a).new(place),
            None => FixedList::new_with_default_overflow_allocator().new(place),
        }
    }
    common!(T, me, **me, **me);
    fn lens(&self) -> (usize, usize, bool, bool) {
        let l = &**self;
        (l.len() as usize, l.size(), l.is_empty(), l.empty())
    }
    fn extend(&mut self, v: impl Iterator<Item = T>) {
        for x in v {
            (**self).push_back(x)
        }
    }
}
#[cfg(feature = "conformant")]
macro_rules! conformant {
    ($($t:ty, $n:expr;)*) => {$(
        impl Lst<$t> for Cfl<$t, $n> {
            const N: usize = $n;
            const WHAT: &'static str = "conformant fixed list";
            unsafe fn create(place: Pin<&mut MaybeUninit<Self>>, a: Option<MonAlloc>) {
                match a {
                    Some(a) => Cfl::<$t, $n>::new_in(a).new(place),
                    None => Cfl::<$t, $n>::new_with_default_overflow_allocator().new(place),
                }
            }
            common!($t, me, me, me);
            fn lens(&self) -> (usize, usize, bool, bool) {
                (self.len(), self.size(), self.is_empty(), self.is_empty())
            }
            fn extend(&mut self, v: impl Iterator<Item = $t>) {
                for x in v {
                    self.push_back(x)
                }
            }
        }
    )*};
}
#[cfg(feature = "conformant")]
conformant! { Tok8, 1; Tok8, 3; Tok4, 2; Tok24, 5; u8, 4; u64, 16; Tok12, 7; Blob<5>, 3; }

/// node size and alignment, and where the value lies
fn node<T>() -> (usize, usize, usize) {
    let a = std::mem::align_of::<T>();
    let off = 16usize.div_ceil(a) * a;
    let al = a.max(8);
    ((off + std::mem::size_of::<T>()).div_ceil(al) * al, al, off)
}

/// A list in a block of its own, with red zones around it and no more alignment than it needs.
struct Obj<L> {
    p: *mut L,
    home: u32,
    arena: u32,
}
impl<L> Obj<L> {
    fn raw() -> Self {
        let home = MonAlloc::fresh().arena();
        let p = mem::mon_alloc(home, std::mem::size_of::<L>(), std::mem::align_of::<L>()) as *mut L;
        Obj { p, home, arena: 0 }
    }
    fn new<T: Elem>(c: &mut Ctx) -> Self
    where
        L: Lst<T>,
    {
        let mut o = Self::raw();
        let a = c.rng.chance(1, 2).then(MonAlloc::fresh);
        o.arena = a.as_ref().map_or(MonAlloc::current().arena(), |a| a.arena());
        unsafe { L::create(Pin::new_unchecked(&mut *(o.p as *mut MaybeUninit<L>)), a) }
        o
    }
    fn range(&self) -> (usize, usize) {
        (self.p as usize, self.p as usize + std::mem::size_of::<L>())
    }
}
impl<L> Drop for Obj<L> {
    fn drop(&mut self) {
        unsafe {
            std::ptr::drop_in_place(self.p);
            mem::mon_free(self.home, self.p as *mut (), std::mem::size_of::<L>(), std::mem::align_of::<L>());
        }
    }
}
impl<L> std::ops::Deref for Obj<L> {
    type Target = L;
    fn deref(&self) -> &L {
        unsafe { &*self.p }
    }
}
impl<L> std::ops::DerefMut for Obj<L> {
    fn deref_mut(&mut self) -> &mut L {
        unsafe { &mut *self.p }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct It {
    v: u64,
    id: u32,
    at: usize,
}
struct St {
    m: VecDeque<It>,
    arena: u32,
    lo: usize,
    hi: usize,
    inside: usize,
    no: u64,
}

impl St {
    fn new<T: Elem, L: Lst<T>>(o: &Obj<L>) -> Self {
        let (lo, hi) = o.range();
        St { m: VecDeque::new(), arena: o.arena, lo, hi, inside: 0, no: 0 }
    }
    fn is_inside(&self, at: usize) -> bool {
        at >= self.lo && at < self.hi
    }
    /// a push put its element at `at`; `ev` are the allocator events it caused
    fn placed<T: Elem, L: Lst<T>>(&mut self, c: &mut Ctx, at: usize, what: &str) {
        let (size, align, off) = node::<T>();
        let ev = mem::ev_take();
        ensure!(c, Kind::Steps, ev.len() <= 1, "{what} made {} allocator calls", ev.len());
        let n = at.wrapping_sub(off);
        ensure!(c, Kind::Inline, n % align == 0, "node of alignment {align} placed at {n:#x}");
        if L::N > 0 && self.inside < L::N {
            ensure!(c, Kind::Inline, self.is_inside(n), "{} of {} inline nodes are used, yet {what} stored its element outside", self.inside, L::N);
            ensure!(c, Kind::Inline, n + size <= self.hi && n >= self.lo + 16, "inline node at offset {} crosses the end of the object", n - self.lo);
            ensure!(c, Kind::Inline, ev.is_empty(), "{what} asked the overflow allocator although an inline node is free");
            self.inside += 1;
        } else {
            ensure!(c, Kind::Inline, !self.is_inside(n), "all {} inline nodes are used, yet {what} stored its element inside the object", L::N);
            ensure_eq!(c, Kind::Alloc, ev.len(), 1, "allocator calls of {what}");
            let e = ev[0];
            ensure!(c, Kind::Alloc, e.alloc && e.size >= size && e.ptr == n && e.align == align, "{what} allocated {e:?} for a node of {size} bytes at {n:#x}");
            ensure_eq!(c, Kind::Alloc, e.arena, self.arena, "allocator asked by {what}");
        }
        for x in &self.m {
            let m = x.at - off;
            if m < n + size && n < m + size {
                c.fail(Kind::Inline, format!("{what} gave its element storage that overlaps another live element's"));
            }
        }
    }
    /// a pop took the element away
    fn taken<T: Elem, L: Lst<T>>(&mut self, c: &mut Ctx, it: It, what: &str) {
        let (_, _, off) = node::<T>();
        let ev = mem::ev_take();
        ensure!(c, Kind::Steps, ev.len() <= 1, "{what} made {} allocator calls", ev.len());
        if self.is_inside(it.at) {
            ensure!(c, Kind::Inline, ev.is_empty(), "{what} of an inline element called the overflow allocator: {:?}", ev[0]);
            self.inside -= 1;
        } else {
            ensure!(c, Kind::Alloc, ev.len() == 1 && !ev[0].alloc && ev[0].ptr == it.at - off, "{what} of an element at {:#x}: allocator calls {ev:?}", it.at);
        }
    }
    fn quick<T: Elem, L: Lst<T>>(&mut self, c: &mut Ctx, l: &Obj<L>, kind: Kind, what: &str) {
        let n = self.m.len();
        ensure_eq!(c, kind, l.lens(), (n, n, n == 0, n == 0), "len, size, is_empty, empty after {what}");
        ensure_eq!(c, kind, l.front().map(|e| e.get()), self.m.front().map(|k| k.v), "front after {what}");
        ensure_eq!(c, kind, l.back().map(|e| e.get()), self.m.back().map(|k| k.v), "back after {what}");
    }
    fn check<T: Elem, L: Lst<T>>(&mut self, c: &mut Ctx, l: &Obj<L>, kind: Kind, what: &str) {
        c.sync();
        self.quick(c, l, kind, what);
        self.no += 1;
        let n = self.m.len();
        if n > 60 && self.no % 23 != 0 || !c.look() {
            return;
        }
        self.full(c, l, kind, what)
    }
    fn full<T: Elem, L: Lst<T>>(&mut self, c: &mut Ctx, l: &Obj<L>, kind: Kind, what: &str) {
        let n = self.m.len();
        let (size, _, off) = node::<T>();
        let (lo, hi) = (self.lo, self.hi);
        let r = raw::list(&**l);
        ensure_eq!(c, Kind::Link, r.size as usize, n, "stored size after {what}");
        let ok = |p: usize| {
            if p >= lo && p + size <= hi {
                return Ok(());
            }
            match mem::block_at(p) {
                Some(b) if b.size >= size => Ok(()),
                _ => Err("a link points to something that is not a node".to_string()),
            }
        };
        match r.walk(&ok) {
            Err(e) => {
                c.report(Kind::Image, format!("{e} after {what}"));
                c.fail(Kind::Link, format!("{e} after {what}"));
            }
            Ok(nodes) => {
                for (i, p) in nodes.iter().enumerate() {
                    let e = unsafe { &*((p + off) as *const T) };
                    let x = self.m[i];
                    if e.get() != x.v {
                        c.report(Kind::Image, format!("element {i} of {n} behind the links is {}, expected {} after {what}", e.get(), x.v));
                        c.report(Kind::Link, format!("element {i} of {n} behind the links is {}, expected {} after {what}", e.get(), x.v));
                        c.fail(kind, format!("element {i} of {n} is {}, expected {} after {what}", e.get(), x.v));
                    }
                    if p + off != x.at {
                        c.fail(Kind::Link, format!("element {i} of {n} moved after {what}"));
                    }
                    if e.ident() != x.id {
                        c.fail(Kind::Copy, format!("element {i} is a copy of the value pushed after {what}"));
                    }
                }
            }
        }
        let mut i = 0;
        for e in l.iter() {
            ensure!(c, kind, i < n, "iteration goes past the last of {n} elements after {what}");
            ensure!(c, kind, e.get() == self.m[i].v, "iteration shows {} at {i} of {n}, expected {} after {what}", e.get(), self.m[i].v);
            i += 1;
        }
        ensure_eq!(c, kind, i, n, "elements iterated after {what}");
        c.count_n("elements compared", n as u64);
        c.sync();
    }
}

fn mk<T: Elem>(c: &mut Ctx) -> (T, u64, u32) {
    let e = T::mk(c.rng.next());
    let (g, i) = (e.get(), e.ident());
    (e, g, i)
}

fn push<T: Elem, L: Lst<T>>(c: &mut Ctx, l: &mut Obj<L>, st: &mut St, back: bool) {
    let (x, v, id) = mk::<T>(c);
    mem::ev_clear();
    let at = if back {
        l.push_back(x);
        l.back().map_or(0, |r| r as *const T as usize)
    } else {
        l.push_front(x);
        l.front().map_or(0, |r| r as *const T as usize)
    };
    let what = if back { "push_back" } else { "push_front" };
    st.placed::<T, L>(c, at, what);
    let it = It { v, id, at };
    if back {
        st.m.push_back(it)
    } else {
        st.m.push_front(it)
    }
    c.eff();
}
fn pop<T: Elem, L: Lst<T>>(c: &mut Ctx, l: &mut Obj<L>, st: &mut St, back: bool) {
    mem::ev_clear();
    let before = raw::list(&**l);
    let (got, exp, what) = if back { (l.pop_back(), st.m.pop_back(), "pop_back") } else { (l.pop_front(), st.m.pop_front(), "pop_front") };
    ensure_eq!(c, Kind::Func, got.as_ref().map(|e| (e.get(), e.ident())), exp.map(|x| (x.v, x.id)), "{what}");
    match exp {
        Some(x) => {
            st.taken::<T, L>(c, x, what);
            c.eff();
        }
        None => {
            ensure!(c, Kind::Reject, mem::ev_take().is_empty() && raw::list(&**l) == before, "{what} of an empty list changed it");
        }
    }
}

fn history<T: Elem, L: Lst<T>>(c: &mut Ctx, steps: usize) {
    let mut l: Obj<L> = Obj::new(c);
    let mut st = St::new::<T, L>(&l);
    st.check::<T, L>(c, &l, Kind::Func, "construction");
    let cap = if L::N == 0 { 40 } else { L::N * 2 + 4 };
    // where the length hovers
    let mut aim = c.rng.below(cap);
    for _ in 0..steps {
        let n = st.m.len();
        if c.rng.chance(1, 12) {
            aim = c.rng.below(cap);
        }
        let w: [u32; 12] = if n <= aim { [24, 20, 8, 8, 1, 3, 3, 3, 2, 2, 2, 1] } else { [8, 8, 24, 20, 1, 3, 3, 3, 2, 2, 2, 1] };
        match c.rng.weighted(&w) {
            0 => {
                c.op("push_back", n as u64, 0);
                push::<T, L>(c, &mut l, &mut st, true)
            }
            1 => {
                c.op("push_front", n as u64, 0);
                push::<T, L>(c, &mut l, &mut st, false)
            }
            2 => {
                c.op("pop_back", n as u64, 0);
                pop::<T, L>(c, &mut l, &mut st, true)
            }
            3 => {
                c.op("pop_front", n as u64, 0);
                pop::<T, L>(c, &mut l, &mut st, false)
            }
            4 => {
                c.op("clear", n as u64, 0);
                mem::ev_clear();
                l.clear();
                let ev = mem::ev_take();
                let outside = st.m.len() - st.inside;
                ensure!(c, Kind::Alloc, ev.len() == outside && ev.iter().all(|e| !e.alloc), "clear of {n} elements, {outside} outside: {} allocator calls", ev.len());
                st.m.clear();
                st.inside = 0;
                c.eff();
            }
            5 => {
                c.op("front_mut", n as u64, 0);
                let (x, v, id) = mk::<T>(c);
                let r = l.front_mut();
                ensure_eq!(c, Kind::Func, r.as_ref().map(|e| e.get()), st.m.front().map(|k| k.v), "front_mut");
                if let Some(r) = r {
                    *r = x;
                    let f = st.m.front_mut().unwrap();
                    (f.v, f.id) = (v, id);
                    c.eff();
                }
            }
            6 => {
                c.op("back_mut", n as u64, 0);
                let (x, v, id) = mk::<T>(c);
                let r = l.back_mut();
                ensure_eq!(c, Kind::Func, r.as_ref().map(|e| e.get()), st.m.back().map(|k| k.v), "back_mut");
                if let Some(r) = r {
                    *r = x;
                    let f = st.m.back_mut().unwrap();
                    (f.v, f.id) = (v, id);
                    c.eff();
                }
            }
            7 => {
                c.op("iter", n as u64, 0);
                let exp: Vec<u64> = st.m.iter().map(|x| x.v).collect();
                let stop = c.rng.chance(1, 3);
                drive_fw(c, l.iter().map(|e| e.get()), &exp, Hint::Exact, stop, "iter");
            }
            8 => {
                c.op("iter_mut", n as u64, 0);
                let exp: Vec<u64> = st.m.iter().map(|x| x.v).collect();
                let stop = c.rng.chance(1, 3);
                drive_fw(c, l.iter_mut().map(|e| e.get()), &exp, Hint::Exact, stop, "iter_mut");
                for (e, x) in l.iter_mut().zip(st.m.iter_mut()) {
                    if c.rng.chance(1, 2) {
                        let (y, v, id) = mk::<T>(c);
                        *e = y;
                        (x.v, x.id) = (v, id);
                    }
                }
                st.full(c, &l, Kind::Iter, "writes through iter_mut");
                c.eff();
            }
            9 => {
                let k = c.rng.below(6);
                c.op("extend", n as u64, k as u64);
                let mut v = Vec::new();
                let mut exp = Vec::new();
                for _ in 0..k {
                    let (x, g, id) = mk::<T>(c);
                    v.push(x);
                    exp.push((g, id));
                }
                let s = src(&mut c.rng, v);
                mem::ev_clear();
                l.extend(s);
                let nodes: Vec<usize> = l.iter().skip(n).map(|r| r as *const T as usize).collect();
                ensure_eq!(c, Kind::Func, nodes.len(), k, "elements added by extend");
                let ev = mem::ev_take();
                for ((v, id), at) in exp.into_iter().zip(nodes) {
                    st.m.push_back(It { v, id, at });
                    if st.is_inside(at) {
                        st.inside += 1;
                    }
                }
                let outside = st.m.iter().skip(n).filter(|x| !(x.at >= st.lo && x.at < st.hi)).count();
                ensure_eq!(c, Kind::Steps, ev.len(), outside, "allocator calls of extend by {k}");
                if T::TRACKED {
                    for x in st.m.iter().skip(n) {
                        ensure_eq!(c, Kind::Copy, clones_of(x.id), 0, "clones made by extend");
                    }
                }
                c.eff();
            }
            10 => {
                c.op("format", n as u64, 0);
                let d = l.debug();
                let e = format!("{:?}", l.iter().collect::<Vec<_>>());
                ensure_eq!(c, Kind::Copy, d, e, "Debug output");
            }
            _ => {
                c.op("run down", n as u64, 0);
                while !st.m.is_empty() {
                    let back = c.rng.chance(1, 2);
                    pop::<T, L>(c, &mut l, &mut st, back);
                    st.quick(c, &l, Kind::Func, "popping");
                }
                pop::<T, L>(c, &mut l, &mut st, true);
                pop::<T, L>(c, &mut l, &mut st, false);
            }
        }
        st.check(c, &l, Kind::Func, "an operation");
    }
    st.full(c, &l, Kind::Func, "the history");
    c.max("max elements", st.m.len() as u64);
    c.max("max inline nodes used", st.inside as u64);
    let outside = st.m.len() - st.inside;
    mem::ev_clear();
    drop(l);
    let frees = mem::ev_take().iter().filter(|e| e.arena == st.arena).count();
    ensure_eq!(c, Kind::Alloc, frees, outside, "blocks returned when the list was dropped");
    mem::check_all();
}

fn r_list(c: &mut Ctx) {
    let s = if cfg!(miri) { 30 } else { 150 };
    match c.index % 8 {
        0 => history::<Tok8, List<Tok8, MonAlloc>>(c, s),
        1 => history::<u8, List<u8, MonAlloc>>(c, s),
        2 => history::<Tok24, List<Tok24, MonAlloc>>(c, s),
        3 => history::<TokA16, List<TokA16, MonAlloc>>(c, s),
        4 => history::<std::string::String, List<std::string::String, MonAlloc>>(c, s),
        5 => history::<TokA64, List<TokA64, MonAlloc>>(c, s),
        6 => history::<u64, List<u64, MonAlloc>>(c, s),
        _ => history::<Blob<5>, List<Blob<5>, MonAlloc>>(c, s),
    }
}
fn r_fixed(c: &mut Ctx) {
    let s = if cfg!(miri) { 30 } else { 150 };
    match c.index % 12 {
        0 => history::<Tok8, Fl<Tok8, 1>>(c, s),
        1 => history::<Tok8, Fl<Tok8, 3>>(c, s),
        2 => history::<u8, Fl<u8, 4>>(c, s),
        3 => history::<Tok24, Fl<Tok24, 2>>(c, s),
        4 => history::<TokA16, Fl<TokA16, 3>>(c, s),
        5 => history::<TokA64, Fl<TokA64, 2>>(c, s),
        6 => history::<std::string::String, Fl<std::string::String, 5>>(c, s),
        7 => history::<u64, Fl<u64, 16>>(c, s),
        8 => history::<Blob<5>, Fl<Blob<5>, 7>>(c, s),
        9 => history::<Tok12, Fl<Tok12, 6>>(c, s),
        10 => history::<Al32, Fl<Al32, 3>>(c, s),
        _ => history::<Tok40, Fl<Tok40, 9>>(c, s),
    }
}
#[cfg(feature = "conformant")]
fn r_conf(c: &mut Ctx) {
    let s = if cfg!(miri) { 30 } else { 150 };
    match c.index % 8 {
        0 => history::<Tok8, Cfl<Tok8, 1>>(c, s),
        1 => history::<Tok8, Cfl<Tok8, 3>>(c, s),
        2 => history::<Tok4, Cfl<Tok4, 2>>(c, s),
        3 => history::<Tok24, Cfl<Tok24, 5>>(c, s),
        4 => history::<u8, Cfl<u8, 4>>(c, s),
        5 => history::<u64, Cfl<u64, 16>>(c, s),
        6 => history::<Tok12, Cfl<Tok12, 7>>(c, s),
        _ => history::<Blob<5>, Cfl<Blob<5>, 3>>(c, s),
    }
}
#[cfg(not(feature = "conformant"))]
fn r_conf(c: &mut Ctx) {
    c.count("built without the conformant list");
}

/// Every short history: all sequences of push/pop at either end up to length 9 from every fill level.
fn r_exhaustive(c: &mut Ctx) {
    fn go<T: Elem, L: Lst<T>>(c: &mut Ctx, fill: usize, code: u64) {
        let mut l: Obj<L> = Obj::new(c);
        let mut st = St::new::<T, L>(&l);
        for i in 0..fill {
            push::<T, L>(c, &mut l, &mut st, i % 2 == 0);
        }
        let mut x = code;
        for _ in 0..6 {
            c.op("op", x & 3, fill as u64);
            match x & 3 {
                0 => push::<T, L>(c, &mut l, &mut st, true),
                1 => push::<T, L>(c, &mut l, &mut st, false),
                2 => pop::<T, L>(c, &mut l, &mut st, true),
                _ => pop::<T, L>(c, &mut l, &mut st, false),
            }
            st.check(c, &l, Kind::Func, "an operation");
            x >>= 2;
        }
        drop(l);
    }
    for b in 0..64u64 {
        let code = c.index * 64 + b;
        for fill in 0..5 {
            match b % 3 {
                0 => go::<Tok8, Fl<Tok8, 2>>(c, fill, code),
                1 => go::<Tok24, List<Tok24, MonAlloc>>(c, fill, code),
                _ => go::<Tok4, Fl<Tok4, 3>>(c, fill, code),
            }
        }
    }
    c.eff();
    c.eff();
}

/// extend from borrowed elements
fn r_extend_ref(c: &mut Ctx) {
    let mut l: Obj<List<u64, MonAlloc>> = Obj::new(c);
    let mut st = St::new::<u64, List<u64, MonAlloc>>(&l);
    for _ in 0..6 {
        let k = c.rng.below(9);
        let v: Vec<u64> = (0..k).map(|_| c.rng.next()).collect();
        let n = st.m.len();
        c.op("extend from references", n as u64, k as u64);
        if c.rng.chance(1, 2) {
            Extend::<&u64>::extend(&mut *l, v.iter());
        } else {
            Extend::<&u64>::extend(&mut *l, &v[..]);
        }
        let at: Vec<usize> = l.iter().skip(n).map(|x| x as *const u64 as usize).collect();
        ensure_eq!(c, Kind::Func, at.len(), k, "elements added by extend");
        for (v, at) in v.into_iter().zip(at) {
            st.m.push_back(It { v, id: 0, at });
        }
        st.full(c, &l, Kind::Func, "extend");
        c.eff();
    }
}

/// lists laid out by hand, as C++ would have left them
fn r_image(c: &mut Ctx) {
    fn plain<T: Elem>(c: &mut Ctx) {
        let mut l: Obj<List<T, MonAlloc>> = Obj::raw();
        assert_eq!(std::mem::size_of::<List<T, MonAlloc>>(), 24, "harness: size of a list");
        l.arena = MonAlloc::fresh().arena();
        let mut st = St::new::<T, List<T, MonAlloc>>(&l);
        let n = c.rng.below(12);
        c.op("image", n as u64, 0);
        let head = l.p as usize;
        unsafe {
            let w = |a: usize, off: usize, v: usize| ((a + off) as *mut *mut u8).write(v as *mut u8);
            let (size, align, off) = node::<T>();
            let mut prev = head;
            for _ in 0..n {
                let p = mem::mon_alloc(l.arena, size, align) as usize;
                let (x, v, id) = mk::<T>(c);
                ((p + off) as *mut T).write(x);
                w(p, 8, prev);
                w(prev, 0, p);
                prev = p;
                st.m.push_back(It { v, id, at: p + off });
            }
            w(prev, 0, head);
            w(head, 8, prev);
            ((head + 16) as *mut u32).write(n as u32);
            ((head + 20) as *mut u32).write(l.arena);
        }
        st.full(c, &l, Kind::Image, "laying it out by hand");
        ops::<T, List<T, MonAlloc>>(c, &mut l, &mut st);
    }
    fn ops<T: Elem, L: Lst<T>>(c: &mut Ctx, l: &mut Obj<L>, st: &mut St) {
        for _ in 0..30 {
            match c.rng.below(5) {
                0 => push::<T, L>(c, l, st, true),
                1 => push::<T, L>(c, l, st, false),
                2 => pop::<T, L>(c, l, st, true),
                3 => pop::<T, L>(c, l, st, false),
                _ => {
                    if let Some(r) = l.front_mut() {
                        let (x, v, id) = mk::<T>(c);
                        *r = x;
                        let f = st.m.front_mut().unwrap();
                        (f.v, f.id) = (v, id);
                    }
                }
            }
            st.check(c, l, Kind::Image, "modifying an image");
        }
        c.eff();
    }
    fn pooled<T: Elem, const K: usize>(c: &mut Ctx) {
        // {next, prev, size}, {mpHead, mpNext, mpCapacity}, overflow allocator, mpPoolBegin, buffer
        let mut l: Obj<Fl<T, K>> = Obj::raw();
        l.arena = MonAlloc::fresh().arena();
        let mut st = St::new::<T, Fl<T, K>>(&l);
        let (size, align, off) = node::<T>();
        let head = l.p as usize;
        let buf = head + 64usize.div_ceil(align) * align;
        // slots below `used` were handed out at some time, of those some are free again
        let used = c.rng.below(K + 1);
        let mut slots: Vec<usize> = (0..used).collect();
        for i in 0..used {
            let j = c.rng.range(i, used - 1);
            slots.swap(i, j);
        }
        let live = c.rng.below(used + 1);
        let extra = if live == K { c.rng.below(4) } else { 0 };
        c.op("image of a fixed list", live as u64, (used - live) as u64);
        unsafe {
            let w = |a: usize, off: usize, v: usize| ((a + off) as *mut *mut u8).write(v as *mut u8);
            let mut prev = head;
            let mut place: Vec<usize> = slots[..live].iter().map(|s| buf + s * size).collect();
            for _ in 0..extra {
                place.insert(c.rng.below(place.len() + 1), mem::mon_alloc(l.arena, size, align) as usize);
            }
            for p in place.iter().copied() {
                let (x, v, id) = mk::<T>(c);
                ((p + off) as *mut T).write(x);
                w(p, 8, prev);
                w(prev, 0, p);
                prev = p;
                st.m.push_back(It { v, id, at: p + off });
            }
            w(prev, 0, head);
            w(head, 8, prev);
            ((head + 16) as *mut u32).write(place.len() as u32);
            let mut free = 0;
            for s in &slots[live..] {
                w(buf + s * size, 0, free);
                free = buf + s * size;
            }
            w(head, 24, free);
            w(head, 32, buf + used * size);
            w(head, 40, buf + K * size);
            ((head + 48) as *mut u32).write(l.arena);
            w(head, 56, buf);
        }
        st.inside = live;
        st.full(c, &l, Kind::Image, "laying it out by hand");
        ops::<T, Fl<T, K>>(c, &mut l, &mut st);
    }
    match c.index % 6 {
        0 => plain::<Tok8>(c),
        1 => plain::<TokA16>(c),
        2 => plain::<u8>(c),
        3 => pooled::<Tok8, 4>(c),
        4 => pooled::<u8, 7>(c),
        _ => pooled::<TokA16, 3>(c),
    }
    c.eff();
}

const LP: &[&str] = &["C13", "C17", "C18", "C19", "C24", "C25", "C26", "C27"];
const FP: &[&str] = &["C14", "C13", "C17", "C18", "C19", "C24", "C25", "C26", "C27"];
static RIGS: &[Rig] = &[
    Rig { name: "list_history", props: LP, scale: rnd(800, 40_000), f: r_list },
    Rig { name: "fixed_list_history", props: FP, scale: rnd(1200, 60_000), f: r_fixed },
    Rig { name: "conformant_history", props: &["C14", "C17", "C18"], scale: rnd(800, 40_000), f: r_conf },
    Rig { name: "list_exhaustive", props: &["C13", "C14", "C17", "C18", "C25"], scale: fixed(64), f: r_exhaustive },
    Rig { name: "list_extend_ref", props: &["C13", "C26"], scale: rnd(50, 2000), f: r_extend_ref },
    Rig { name: "list_image", props: &["C24", "C13", "C14", "C18"], scale: rnd(300, 20_000), f: r_image },
    Rig { name: "list_iter", props: &["C09"], scale: rnd(160, 10_000), f: r_list },
    Rig { name: "fixed_list_iter", props: &["C09"], scale: rnd(120, 10_000), f: r_fixed },
];

fn main() {
    mon::engine::main(RIGS);
}
