//! Helpers shared by the workloads.
use crate::ctx::*;
use crate::mem;
use crate::rng::Rng;
use crate::{ensure, ensure_eq};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Run something that must panic; gives the panic away unless it is one of ours.
pub fn panics<R>(f: impl FnOnce() -> R) -> Option<Box<dyn std::any::Any + Send>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(_) => None,
        Err(p) => {
            if p.is::<CaseAbort>() {
                resume_unwind(p)
            }
            Some(p)
        }
    }
}

/// An index no sequence of `n` elements and capacity `cap` has: just past it, at the end of its
/// storage, and ones that wrap around when truncated, doubled or added to.
pub fn beyond(rng: &mut Rng, n: usize, cap: usize) -> usize {
    let k = rng.below(4);
    match rng.below(8) {
        0 => cap.max(n) + k,
        1 => usize::MAX - k,
        2 => (1 << 32) + k,
        3 => (1 << 63) + k,
        4 => (usize::MAX / 2) - k,
        _ => n + k,
    }
}

/// Move a value somewhere else and back, when the case moves things at all.
pub fn relocate<T: 'static>(c: &mut Ctx, x: T) -> T {
    let how = c.rng.below(6);
    if !c.moves {
        return x;
    }
    c.count("relocations");
    move_by(how, x)
}

/// Where a container lives: on relocation it comes to stand at another address, and what is left at
/// the old one is overwritten but stays allocated for a while, so that whatever still points there
/// finds a ruin.
pub struct Lodge<T: 'static> {
    at: *mut T,
    ruins: std::collections::VecDeque<*mut T>,
}
impl<T: 'static> Lodge<T> {
    pub fn new(x: T) -> Self {
        Lodge { at: Box::into_raw(Box::new(x)), ruins: Default::default() }
    }
    pub fn relocate(&mut self, c: &mut Ctx) {
        let how = c.rng.below(6);
        if !c.moves {
            return;
        }
        c.count("relocations");
        let new = Box::into_raw(Box::new(std::mem::MaybeUninit::<T>::uninit())) as *mut T;
        unsafe {
            let x = std::ptr::read(self.at);
            std::ptr::write_bytes(self.at as *mut u8, 0xEE, std::mem::size_of::<T>());
            new.write(move_by(how, x));
        }
        self.ruins.push_back(self.at);
        self.at = new;
        if self.ruins.len() > 8 {
            Self::raze(self.ruins.pop_front().unwrap());
        }
    }
    /// Now and then, in the check that is about moving.
    pub fn stir(&mut self, c: &mut Ctx) {
        if c.prop == "C28" && c.rng.chance(1, 4) {
            self.relocate(c);
        }
    }
    pub fn take(mut self) -> T {
        let x = unsafe { std::ptr::read(self.at) };
        self.raze_all();
        std::mem::forget(self);
        x
    }
    fn raze(p: *mut T) {
        drop(unsafe { Box::from_raw(p as *mut std::mem::MaybeUninit<T>) })
    }
    fn raze_all(&mut self) {
        Self::raze(self.at);
        for p in std::mem::take(&mut self.ruins) {
            Self::raze(p);
        }
    }
}
impl<T: 'static> std::ops::Deref for Lodge<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.at }
    }
}
impl<T: 'static> std::ops::DerefMut for Lodge<T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.at }
    }
}
impl<T: 'static + std::fmt::Debug> std::fmt::Debug for Lodge<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: 'static + std::fmt::Display> std::fmt::Display for Lodge<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: 'static> Drop for Lodge<T> {
    fn drop(&mut self) {
        struct Guard<'a, T: 'static>(&'a mut Lodge<T>);
        impl<T: 'static> Drop for Guard<'_, T> {
            fn drop(&mut self) {
                self.0.raze_all();
            }
        }
        let g = Guard(self);
        unsafe { std::ptr::drop_in_place(g.0.at) };
    }
}

#[inline(never)]
fn through<T>(x: T) -> T {
    let y = std::hint::black_box([x]);
    let [z] = y;
    z
}

pub fn move_by<T: 'static>(how: usize, x: T) -> T {
    match how {
        0 => *std::hint::black_box(Box::new(x)),
        1 => {
            let mut v = Vec::with_capacity(1);
            v.push(x);
            v.reserve_exact(64);
            let y = v.pop().unwrap();
            scribble(&mut v);
            y
        }
        2 => through(through(x)),
        3 => {
            let mut o = Some(x);
            let mut p = None;
            std::mem::swap(&mut o, &mut p);
            std::hint::black_box(&o);
            p.take().unwrap()
        }
        4 => {
            // leave a ruin at the old place
            let mut b = Box::new(std::mem::MaybeUninit::new(x));
            let y = unsafe { b.assume_init_read() };
            unsafe { std::ptr::write_bytes(b.as_mut_ptr() as *mut u8, 0xEE, std::mem::size_of::<T>()) };
            std::hint::black_box(&b);
            y
        }
        _ => {
            // thread crossing; the types are Send where it matters, the harness does not need the bound
            struct S<T>(T);
            unsafe impl<T> Send for S<T> {}
            let s = S(x);
            if cfg!(miri) {
                return s.0;
            }
            std::thread::spawn(move || {
                let s = s;
                s
            })
            .join()
            .ok()
            .map(|s| s.0)
            .expect("harness: mover thread")
        }
    }
}
fn scribble<T>(v: &mut Vec<T>) {
    let n = v.capacity() * std::mem::size_of::<T>();
    unsafe { std::ptr::write_bytes(v.as_mut_ptr() as *mut u8, 0xEE, n) };
}

/// What an iterator's size hint promises.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Hint {
    Any,
    Exact,
}

fn check_hint(c: &mut Ctx, h: (usize, Option<usize>), left: usize, hint: Hint, what: &str) {
    ensure!(c, Kind::Iter, h.0 <= left && h.1.map_or(true, |u| u >= left), "{what}: size hint {h:?} with {left} left");
    if hint == Hint::Exact {
        ensure_eq!(c, Kind::Iter, h, (left, Some(left)), "{what}: size hint");
    }
}

/// Drive a double-ended iterator through a random interleaving; `stop` may leave it unfinished.
pub fn drive_de<I, X>(c: &mut Ctx, mut it: I, exp: &[X], hint: Hint, stop: bool, what: &str) -> Vec<usize>
where
    I: DoubleEndedIterator,
    I::Item: PartialEq<X> + std::fmt::Debug,
    X: std::fmt::Debug,
{
    let (mut lo, mut hi) = (0, exp.len());
    let mode = c.rng.below(4);
    let quit = if stop { c.rng.below(exp.len() + 1) } else { usize::MAX };
    let mut taken = Vec::new();
    loop {
        check_hint(c, it.size_hint(), hi - lo, hint, what);
        if taken.len() >= quit {
            return taken;
        }
        let front = match mode {
            0 => true,
            1 => false,
            _ => c.rng.chance(1, 2),
        };
        let got = if front { it.next() } else { it.next_back() };
        if lo == hi {
            ensure!(c, Kind::Iter, got.is_none(), "{what}: yields {got:?} after its last element");
            break;
        }
        let i = if front { lo } else { hi - 1 };
        match got {
            None => c.fail(Kind::Iter, format!("{what}: ends {} element(s) early ({} of {} seen)", hi - lo, taken.len(), exp.len())),
            Some(x) => ensure!(
                c,
                Kind::Iter,
                x == exp[i],
                "{what}: {} yields {x:?} instead of {:?} (element {i} of {})",
                if front { "next" } else { "next_back" },
                exp[i],
                exp.len()
            ),
        }
        taken.push(i);
        if front {
            lo += 1
        } else {
            hi -= 1
        }
    }
    for k in 0..4 {
        let got = if k % 2 == 0 { it.next() } else { it.next_back() };
        ensure!(c, Kind::Iter, got.is_none(), "{what}: yields {got:?} after None");
        check_hint(c, it.size_hint(), 0, hint, what);
    }
    c.count("iterations driven to the end");
    taken
}

/// Drive a forward iterator.
pub fn drive_fw<I, X>(c: &mut Ctx, mut it: I, exp: &[X], hint: Hint, stop: bool, what: &str) -> usize
where
    I: Iterator,
    I::Item: PartialEq<X> + std::fmt::Debug,
    X: std::fmt::Debug,
{
    let quit = if stop { c.rng.below(exp.len() + 1) } else { usize::MAX };
    let mut i = 0;
    loop {
        check_hint(c, it.size_hint(), exp.len() - i, hint, what);
        if i >= quit {
            return i;
        }
        let got = it.next();
        if i == exp.len() {
            ensure!(c, Kind::Iter, got.is_none(), "{what}: yields {got:?} after its last element");
            break;
        }
        match got {
            None => c.fail(Kind::Iter, format!("{what}: ends {} element(s) early", exp.len() - i)),
            Some(x) => ensure!(c, Kind::Iter, x == exp[i], "{what}: yields {x:?} instead of {:?} (element {i} of {})", exp[i], exp.len()),
        }
        i += 1;
    }
    for _ in 0..3 {
        let got = it.next();
        ensure!(c, Kind::Iter, got.is_none(), "{what}: yields {got:?} after None");
        check_hint(c, it.size_hint(), 0, hint, what);
    }
    c.count("iterations driven to the end");
    i
}

/// An iterator with a chosen size hint, whose `next` is a user callback.
pub struct Src<I> {
    pub it: I,
    pub hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Src<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        crate::tok::callback(crate::tok::Cb::Iter);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
pub fn src<T>(rng: &mut Rng, v: Vec<T>) -> Src<std::vec::IntoIter<T>> {
    let n = v.len();
    if crate::tok::LIES.load(std::sync::atomic::Ordering::Relaxed) != 0 {
        // a hint is a hint: nothing may rely on it for more than speed
        let hint = match rng.below(6) {
            0 => (n + 1 + rng.below(64), Some(n + 100)),
            1 => (n + 1, Some(n / 2)),
            2 => (0, Some(0)),
            3 => (n / 2, Some(n / 2)),
            4 => (n.saturating_sub(1), Some(n.saturating_sub(1))),
            _ => (n + rng.below(3), None),
        };
        return Src { it: v.into_iter(), hint };
    }
    // true bounds all of them, some of little use
    let hint = match rng.below(7) {
        4 => (0, Some(usize::MAX)),
        5 => (n / 3, Some(isize::MAX as usize + rng.below(2))),
        6 => (n, Some(n * 100 + 1000)),
        0 => (0, None),
        1 => (n, Some(n)),
        2 => (n / 2, Some(n + 7)),
        _ => (n.min(1), None),
    };
    Src { it: v.into_iter(), hint }
}

/// Hex of some bytes of an object, to compare before and after.
pub fn bytes_of<T>(x: &T) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()).to_vec() }
}

/// A vector as C++ would leave it in memory: `cap` slots from the allocator's arena, the values in
/// the first of them. `slots` is what is asked of the allocator (a string keeps one more than its
/// capacity).
pub fn vec_image<C, E>(c: &mut Ctx, arena: u32, vals: Vec<E>, cap: usize, slots: usize) -> C {
    let (s, al) = (std::mem::size_of::<E>(), std::mem::align_of::<E>());
    // a comparator may follow
    ensure!(c, Kind::Image, matches!(std::mem::size_of::<C>(), 32 | 40), "a vector of {} bytes", std::mem::size_of::<C>());
    let n = vals.len();
    let b = if slots == 0 { 0 } else { mem::mon_alloc(arena, slots * s, al) as usize };
    for (i, v) in vals.into_iter().enumerate() {
        unsafe { std::ptr::write((b + i * s) as *mut E, v) };
    }
    c.count("images laid out by hand");
    let w = [b, b + n * s, b + cap * s, arena as usize, 0].map(|x| x as *mut u8);
    unsafe { std::ptr::read(w.as_ptr() as *const C) }
}
