//! FixedVector.
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::vector::Vector;
use mon::engine::{fixed, rnd};
use mon::*;
use moveit::drop_flag::QuietFlag;
use moveit::{MoveNew, MoveRef, New};
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

type Fv<T, const N: usize> = FixedVector<T, N, MonAlloc>;
type Model = Vec<(u64, u32)>;

/// The object in a block of its own, with red zones around it.
struct Obj<T: Elem, const N: usize> {
    p: *mut Fv<T, N>,
    home: u32,
    arena: u32,
}
impl<T: Elem, const N: usize> Obj<T, N> {
    fn place() -> (*mut Fv<T, N>, u32) {
        let home = MonAlloc::fresh().arena();
        (mem::mon_alloc(home, size_of::<Fv<T, N>>(), align_of::<Fv<T, N>>()) as *mut Fv<T, N>, home)
    }
    fn new(c: &mut Ctx) -> Self {
        let (p, home) = Self::place();
        let a = c.rng.chance(1, 2).then(MonAlloc::fresh);
        let arena = a.as_ref().map_or(MonAlloc::current().arena(), |a| a.arena());
        unsafe {
            let slot = Pin::new_unchecked(&mut *(p as *mut MaybeUninit<Fv<T, N>>));
            match a {
                Some(a) => Fv::<T, N>::new_in(a).new(slot),
                None => Fv::<T, N>::new().new(slot),
            }
        }
        Obj { p, home, arena }
    }
    /// EASTL's move constructor
    fn moved(self) -> Self {
        let (p, home) = Self::place();
        let (from, from_home, arena) = (self.p, self.home, self.arena);
        std::mem::forget(self);
        unsafe {
            let flag = QuietFlag::new();
            flag.flag().inc();
            let src = MoveRef::into_pin(MoveRef::new_unchecked(&mut *from, flag.flag()));
            Fv::<T, N>::move_new(src, Pin::new_unchecked(&mut *(p as *mut MaybeUninit<Fv<T, N>>)));
            drop(flag);
            // the old place is gone and reads as garbage from now on
            mem::mon_free(from_home, from as *mut (), size_of::<Fv<T, N>>(), align_of::<Fv<T, N>>());
        }
        Obj { p, home, arena }
    }
    fn range(&self) -> (usize, usize) {
        (self.p as usize, self.p as usize + size_of::<Fv<T, N>>())
    }
}
impl<T: Elem, const N: usize> Drop for Obj<T, N> {
    fn drop(&mut self) {
        unsafe {
            std::ptr::drop_in_place(self.p);
            mem::mon_free(self.home, self.p as *mut (), size_of::<Fv<T, N>>(), align_of::<Fv<T, N>>());
        }
    }
}
impl<T: Elem, const N: usize> std::ops::Deref for Obj<T, N> {
    type Target = Fv<T, N>;
    fn deref(&self) -> &Fv<T, N> {
        unsafe { &*self.p }
    }
}
impl<T: Elem, const N: usize> std::ops::DerefMut for Obj<T, N> {
    fn deref_mut(&mut self) -> &mut Fv<T, N> {
        unsafe { &mut *self.p }
    }
}

struct St {
    m: Model,
    cap: usize,
    /// elements live in an overflow block
    over: bool,
    arena: u32,
}

fn mk<E: Elem>(c: &mut Ctx) -> (E, (u64, u32)) {
    let e = E::mk(c.rng.next());
    let k = (e.get(), e.ident());
    (e, k)
}
fn mks<E: Elem>(c: &mut Ctx, n: usize) -> (Vec<E>, Model) {
    (0..n).map(|_| mk::<E>(c)).unzip()
}
fn same<E: Elem>(c: &mut Ctx, got: &[E], m: &Model, kind: Kind, what: &str) {
    ensure_eq!(c, kind, got.len(), m.len(), "{what}: length");
    for (i, (e, x)) in got.iter().zip(m).enumerate() {
        ensure_eq!(c, kind, e.get(), x.0, "{what}: element {i} of {}", m.len());
        if E::TRACKED && e.ident() != x.1 {
            c.fail(Kind::Copy, format!("{what}: element {i} is not the value that was put there"));
        }
    }
    c.count_n("elements compared", m.len() as u64);
}

fn buffer_off<T>() -> usize {
    40usize.div_ceil(align_of::<T>()) * align_of::<T>()
}

fn check<T: Elem, const N: usize>(c: &mut Ctx, v: &Obj<T, N>, st: &St, what: &str) {
    c.sync();
    let s = size_of::<T>();
    let n = st.m.len();
    if !c.look() {
        return;
    }
    same(c, v.as_slice(), &st.m, Kind::Func, what);
    ensure_eq!(c, Kind::Func, (v.len(), v.is_empty(), v.is_full()), (n, n == 0, n == st.cap), "len, is_empty, is_full after {what} (capacity {})", st.cap);
    ensure_eq!(c, Kind::Inline, v.has_overflowed(), st.over, "has_overflowed after {what} (length {n}, capacity {}, N {N})", st.cap);
    ensure_eq!(c, Kind::Func, v.max_size(), N, "max_size after {what}");
    ensure_eq!(c, Kind::Func, v.capacity(), st.cap, "capacity after {what}");
    let r: &[T] = v.as_ref();
    ensure!(c, Kind::Func, r.len() == n && r.as_ptr() == v.as_slice().as_ptr(), "as_ref after {what}");
    // eastl::fixed_vector: vector { begin, end, capacity, { overflow allocator, mpPoolBegin } }, buffer
    let (lo, hi) = v.range();
    let w = raw::vec(&**v);
    let buf = lo + buffer_off::<T>();
    ensure_eq!(c, Kind::Image, (w.end - w.begin, w.cap - w.begin), (n * s, st.cap * s), "begin/end/capacity words after {what}");
    ensure_eq!(c, Kind::Image, w.alloc_id, st.arena, "overflow allocator word after {what}");
    ensure_eq!(c, Kind::Image, unsafe { raw::word(lo, 32) }, buf, "pool-begin word after {what}");
    ensure_eq!(c, Kind::Image, hi - lo, (buf - lo + N * s).div_ceil(align_of::<T>().max(8)) * align_of::<T>().max(8), "object size");
    if st.over {
        match mem::block_at(w.begin) {
            None => c.fail(Kind::Inline, format!("overflowed, but the elements are not in a block of the overflow allocator after {what}")),
            Some(b) => {
                ensure_eq!(c, Kind::Alloc, (b.size, b.align, b.arena), (st.cap * s, align_of::<T>(), st.arena), "overflow block (size, alignment, allocator) after {what}");
            }
        }
        c.count("checks while overflowed");
    } else {
        ensure!(c, Kind::Inline, w.begin == buf && w.end <= hi, "not overflowed, but the elements are not in the fixed buffer after {what} ({:#x}, buffer at {buf:#x})", w.begin);
        c.count("checks while inline");
    }
    c.sync();
}

/// What growing to `cap` does.
fn grown<T: Elem, const N: usize>(c: &mut Ctx, st: &mut St, cap: usize, what: &str) {
    let was = (st.cap, st.over);
    let moved = cap != st.cap;
    if moved {
        st.cap = cap;
        st.over = true;
    }
    let ev = mem::ev_take();
    let (a, f) = (ev.iter().filter(|e| e.alloc).count(), ev.iter().filter(|e| !e.alloc).count());
    let exp = (moved as usize, (moved && was.1) as usize);
    ensure_eq!(c, Kind::Inline, (a, f), exp, "(allocations, frees) at the overflow allocator during {what}: capacity {} -> {cap}, overflowed {}", was.0, was.1);
    for e in ev {
        ensure_eq!(c, Kind::Alloc, e.arena, st.arena, "allocator used during {what}");
    }
    if moved && !was.1 {
        c.count("overflows out of the fixed buffer");
    }
    let _ = N;
}

fn history<T: Elem, const N: usize>(c: &mut Ctx, steps: usize) {
    mem::ev_clear();
    let mut v: Obj<T, N> = Obj::new(c);
    let mut st = St { m: vec![], cap: N, over: false, arena: v.arena };
    c.op("new", N as u64, size_of::<T>() as u64);
    check(c, &v, &st, "construction");
    let wild = c.rng.chance(1, 3);
    let lim = if wild { 4 * N + 12 } else { N + 2 };
    for _ in 0..steps {
        mem::ev_clear();
        let n = st.m.len();
        let dbl = |st: &St| if st.m.len() == st.cap { (st.cap * 2).max(1) } else { st.cap };
        let w: [u32; 17] = if n >= lim {
            [2, 20, 2, 20, 0, 4, 1, 8, 1, 3, 2, 2, 2, 4, 1, 2, 4]
        } else if wild {
            [18, 8, 14, 10, 6, 4, 5, 3, 2, 4, 2, 2, 2, 7, 1, 2, 2]
        } else {
            [22, 14, 14, 14, 4, 5, 1, 5, 2, 4, 2, 2, 2, 8, 1, 2, 2]
        };
        let what = match c.rng.weighted(&w) {
            0 => {
                let (e, k) = mk::<T>(c);
                c.op("push", n as u64, st.cap as u64);
                let cap = dbl(&st);
                v.push(e);
                st.m.push(k);
                grown::<T, N>(c, &mut st, cap, "push");
                c.eff();
                "push"
            }
            1 => {
                c.op("pop", n as u64, 0);
                let got = v.pop();
                let exp = st.m.pop();
                ensure_eq!(c, Kind::Func, got.as_ref().map(|e| (e.get(), e.ident())), exp, "pop");
                ensure_eq!(c, Kind::Reject, mem::ev_counts(), (0, 0), "allocator traffic of pop");
                c.eff();
                "pop"
            }
            2 => {
                let (e, k) = mk::<T>(c);
                let i = if c.rng.chance(1, 4) { n } else { c.rng.index(n + 1) };
                c.op("insert", n as u64, i as u64);
                let cap = dbl(&st);
                v.insert(i, e);
                st.m.insert(i, k);
                grown::<T, N>(c, &mut st, cap, "insert");
                c.eff();
                "insert"
            }
            3 => {
                let i = if c.rng.chance(1, 8) { beyond(&mut c.rng, n, st.cap) } else { c.rng.index(n + 2) };
                c.op("remove", n as u64, i as u64);
                let got = v.remove(i);
                let exp = (i < n).then(|| st.m.remove(i));
                ensure_eq!(c, Kind::Func, got.as_ref().map(|e| (e.get(), e.ident())), exp, "remove({i}) of {n}");
                let cap = st.cap;
                grown::<T, N>(c, &mut st, cap, "remove");
                c.eff();
                "remove"
            }
            4 => {
                let k = c.rng.below(if wild { N + 4 } else { 3 });
                let (s, sm) = mks::<T>(c, k);
                c.op("append", n as u64, k as u64);
                v.append(&s);
                for (i, x) in sm.iter().enumerate() {
                    let got = v.as_slice().get(n + i).map(|e| (e.get(), e.ident()));
                    let Some(g) = got else { c.fail(Kind::Func, format!("append of {k} left {} elements", v.len())) };
                    ensure_eq!(c, Kind::Func, g.0, x.0, "appended element {i}");
                    if T::TRACKED {
                        ensure_eq!(c, Kind::Copy, (origin_of(g.1), clones_of(x.1)), (x.1, 1), "source and times cloned of appended element {i}");
                    }
                    st.m.push(g);
                }
                let cap = st.m.len().max(st.cap);
                grown::<T, N>(c, &mut st, cap, "append");
                c.eff();
                "append"
            }
            5 => {
                let k = c.rng.below(lim.min(n + 4));
                let (s, sm) = mks::<T>(c, k);
                c.op("assign", n as u64, k as u64);
                v.assign(&s);
                st.m.clear();
                for (i, x) in sm.iter().enumerate() {
                    let got = v.as_slice().get(i).map(|e| (e.get(), e.ident()));
                    let Some(g) = got else { c.fail(Kind::Func, format!("assign of {k} left {} elements", v.len())) };
                    ensure_eq!(c, Kind::Func, g.0, x.0, "assigned element {i}");
                    if T::TRACKED {
                        ensure_eq!(c, Kind::Copy, (origin_of(g.1), clones_of(x.1)), (x.1, 1), "source and times cloned of assigned element {i}");
                    }
                    st.m.push(g);
                }
                let cap = k.max(st.cap);
                grown::<T, N>(c, &mut st, cap, "assign");
                c.eff();
                "assign"
            }
            6 => {
                let k = c.rng.below(5);
                c.op("reserve", n as u64, k as u64);
                v.reserve(k);
                let cap = st.cap + k;
                grown::<T, N>(c, &mut st, cap, "reserve");
                c.eff();
                "reserve"
            }
            7 => {
                c.op("clear", n as u64, st.over as u64);
                v.clear();
                let ids: Vec<u32> = st.m.drain(..).map(|k| k.1).collect();
                if T::TRACKED {
                    for i in ids {
                        ensure!(c, Kind::Drop, !is_live(i), "clear did not destroy an element");
                    }
                }
                ensure_eq!(c, Kind::Inline, mem::ev_counts(), (0, st.over as usize), "(allocations, frees) of clear, overflowed {}", st.over);
                if st.over {
                    c.count("returns to the fixed buffer");
                }
                st.over = false;
                st.cap = N;
                c.eff();
                "clear"
            }
            8 => {
                let i = beyond(&mut c.rng, n + 1, st.cap + 1);
                let (e, _) = mk::<T>(c);
                c.op("insert past the end", n as u64, i as u64);
                let p = panics(|| v.insert(i, e));
                ensure!(c, Kind::Reject, p.is_some(), "insert({i}) into length {n} was accepted");
                ensure!(c, Kind::Reject, v.len() == n && v.capacity() == st.cap && v.has_overflowed() == st.over, "rejected insert({i}) changed the vector");
                "a rejected insert"
            }
            9 => {
                c.op("write", n as u64, 0);
                if n > 0 {
                    let (i, j) = (c.rng.index(n), c.rng.index(n));
                    if c.rng.chance(1, 2) {
                        v.as_slice_mut().swap(i, j);
                        st.m.swap(i, j);
                    } else {
                        let (e, k) = mk::<T>(c);
                        v[i] = e;
                        st.m[i] = k;
                    }
                    c.eff();
                }
                "a write through the slice"
            }
            10 => {
                c.op("read", n as u64, 0);
                let exp: Vec<u64> = st.m.iter().map(|k| k.0).collect();
                drive_de(c, v.iter().map(|e| e.get()), &exp, Hint::Exact, true, "iter");
                ensure_eq!(c, Kind::Func, (v.first().map(|e| e.get()), v.last().map(|e| e.get())), (exp.first().copied(), exp.last().copied()), "first and last");
                "reads"
            }
            11 => {
                c.op("format", n as u64, 0);
                if T::NAME != "string" {
                    let d = format!("{:?}", &**v);
                    ensure_eq!(c, Kind::Copy, d, format!("{:?}", v.as_slice()), "Debug output");
                }
                "formatting"
            }
            12 => {
                c.op("clone", n as u64, st.over as u64);
                let was: Vec<u32> = v.iter().map(|e| clones_of(e.ident())).collect();
                let cl: Vector<T, _> = Vector::clone(&v);
                ensure_eq!(c, Kind::Copy, cl.len(), n, "length of the clone");
                for i in 0..n {
                    ensure_eq!(c, Kind::Copy, cl[i].get(), st.m[i].0, "clone's element {i}");
                    if T::TRACKED {
                        ensure_eq!(c, Kind::Copy, (origin_of(cl[i].ident()), clones_of(st.m[i].1) - was[i]), (st.m[i].1, 1), "source and times cloned of the clone's element {i}");
                    }
                }
                if n > 0 {
                    let b = mem::block_at(raw::vec(&cl).begin);
                    ensure!(c, Kind::Copy, b.is_some_and(|b| b.arena == st.arena), "the clone has no block of its own");
                }
                let mut cl = cl;
                let (e, _) = mk::<T>(c);
                cl.push(e);
                check(c, &v, &st, "a change to its clone");
                drop(cl);
                "dropping its clone"
            }
            13 => {
                c.op("move_new", n as u64, st.over as u64);
                let at = raw::vec(&*v).begin;
                v = v.moved();
                ensure_eq!(c, Kind::Inline, mem::ev_take().iter().filter(|e| e.arena == st.arena).count(), 0, "traffic at the overflow allocator during move_new");
                if st.over {
                    ensure_eq!(c, Kind::Inline, raw::vec(&*v).begin, at, "overflow block after move_new");
                    c.count("moves while overflowed");
                } else {
                    c.count("moves while inline");
                }
                c.eff();
                "move_new"
            }
            14 => {
                let s = size_of::<T>();
                let k = *c.rng.pick(&[usize::MAX, usize::MAX - st.cap, usize::MAX - st.cap.saturating_sub(1), usize::MAX / 2, isize::MAX as usize / s + 1]);
                if st.cap.checked_add(k).and_then(|x| x.checked_mul(s)).is_none_or(|x| x > isize::MAX as usize) {
                    c.op("reserve overflow", n as u64, k as u64);
                    let p = panics(|| v.reserve(k));
                    ensure!(c, Kind::Reject, p.is_some(), "reserve({k}) of {s}-byte elements was accepted");
                    ensure!(c, Kind::Reject, v.len() == n && v.capacity() == st.cap && v.has_overflowed() == st.over, "rejected reserve({k}) changed the vector");
                }
                "a rejected reserve"
            }
            15 => {
                c.op("iter_mut", n as u64, 0);
                for (e, k) in v.iter_mut().zip(st.m.iter_mut()) {
                    if c.rng.chance(1, 3) {
                        let x = T::mk(c.rng.next());
                        *k = (x.get(), x.ident());
                        *e = x;
                    }
                }
                "iter_mut"
            }
            _ => {
                // to the brim and over, then empty by popping: stays where it is
                c.op("fill", n as u64, st.cap as u64);
                for _ in 0..(st.cap - n).min(60) {
                    let (e, k) = mk::<T>(c);
                    v.push(e);
                    st.m.push(k);
                }
                ensure_eq!(c, Kind::Inline, mem::ev_counts(), (0, 0), "(allocations, frees) while filling spare capacity of {}", st.cap);
                c.eff();
                "filling"
            }
        };
        check(c, &v, &st, what);
    }
    mem::ev_clear();
    let (arena, over) = (st.arena, st.over);
    drop(v);
    let fr = mem::ev_take().iter().filter(|e| e.arena == arena).count();
    ensure_eq!(c, Kind::Alloc, fr, over as usize, "blocks returned to the overflow allocator on drop (overflowed {over})");
    for k in &st.m {
        ensure!(c, Kind::Drop, !T::TRACKED || !is_live(k.1), "an element outlived the vector");
    }
    mem::check_all();
    c.sync();
}

macro_rules! types {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 16 {
            0 => $f::<u8, 5>($($a),*),
            1 => $f::<u32, 8>($($a),*),
            2 => $f::<u64, 1>($($a),*),
            3 => $f::<Tok8, 4>($($a),*),
            4 => $f::<Tok24, 3>($($a),*),
            5 => $f::<TokA64, 2>($($a),*),
            6 => $f::<Tok4, 7>($($a),*),
            7 => $f::<Blob<7>, 16>($($a),*),
            8 => $f::<Box<u64>, 2>($($a),*),
            9 => $f::<Al32, 3>($($a),*),
            10 => $f::<TokA16, 5>($($a),*),
            11 => $f::<u128, 4>($($a),*),
            12 => $f::<std::string::String, 3>($($a),*),
            13 => $f::<Tok8, 1>($($a),*),
            14 => $f::<Tok12, 33>($($a),*),
            _ => $f::<u16, 64>($($a),*),
        }
    };
}

fn r_history(c: &mut Ctx) {
    let k = c.index;
    let steps = if cfg!(miri) { 30 } else { 110 };
    types!(k, history(c, steps));
}

/// every state (length, overflowed or not) moved, then every operation on the target
fn sweep<T: Elem, const N: usize>(c: &mut Ctx) {
    for len in 0..=2 * N + 1 {
        for over in [false, true] {
            if !over && len > N {
                continue;
            }
            for hops in 0..3 {
                for op in 0..7 {
                    mem::ev_clear();
                    let mut v: Obj<T, N> = Obj::new(c);
                    let mut st = St { m: vec![], cap: N, over: false, arena: v.arena };
                    c.op("sweep", (len * 4 + hops) as u64, (over as u64) * 8 + op);
                    if over && len <= N {
                        mem::ev_clear();
                        v.reserve(1);
                        grown::<T, N>(c, &mut st, N + 1, "reserve");
                    }
                    for _ in 0..len {
                        mem::ev_clear();
                        let cap = if st.m.len() == st.cap { st.cap * 2 } else { st.cap };
                        let (e, k) = mk::<T>(c);
                        v.push(e);
                        st.m.push(k);
                        grown::<T, N>(c, &mut st, cap, "push");
                    }
                    check(c, &v, &st, "filling");
                    for _ in 0..hops {
                        v = v.moved();
                        check(c, &v, &st, "move_new");
                    }
                    mem::ev_clear();
                    match op {
                        0 => {}
                        1 => {
                            let cap = if st.m.len() == st.cap { st.cap * 2 } else { st.cap };
                            let (e, k) = mk::<T>(c);
                            v.push(e);
                            st.m.push(k);
                            grown::<T, N>(c, &mut st, cap, "push");
                        }
                        2 => {
                            ensure_eq!(c, Kind::Func, v.pop().map(|e| e.get()), st.m.pop().map(|k| k.0), "pop");
                        }
                        3 => {
                            v.clear();
                            st.m.clear();
                            st.cap = N;
                            st.over = false;
                            check(c, &v, &st, "clear");
                            mem::ev_clear();
                            for _ in 0..N {
                                let (e, k) = mk::<T>(c);
                                v.push(e);
                                st.m.push(k);
                            }
                            grown::<T, N>(c, &mut st, N, "refilling");
                        }
                        4 => {
                            let cap = if st.m.len() == st.cap { st.cap * 2 } else { st.cap };
                            let (e, k) = mk::<T>(c);
                            v.insert(len / 2, e);
                            st.m.insert(len / 2, k);
                            grown::<T, N>(c, &mut st, cap, "insert");
                        }
                        5 => {
                            let (s, _) = mks::<T>(c, N + 1);
                            v.append(&s);
                            let new: Model = v.as_slice()[len..].iter().map(|e| (e.get(), e.ident())).collect();
                            st.m.extend(s.iter().zip(&new).map(|(a, b)| (a.get(), b.1)));
                            let cap = st.cap.max(len + N + 1);
                            grown::<T, N>(c, &mut st, cap, "append");
                        }
                        _ => {
                            let (s, _) = mks::<T>(c, N);
                            v.assign(&s);
                            st.m = s.iter().zip(v.as_slice()).map(|(a, b)| (a.get(), b.ident())).collect();
                            let cap = st.cap.max(N);
                            grown::<T, N>(c, &mut st, cap, "assign");
                        }
                    }
                    check(c, &v, &st, "an operation after moving");
                    v = v.moved();
                    check(c, &v, &st, "a last move");
                    c.eff();
                    c.eff();
                }
            }
        }
    }
}
fn r_sweep(c: &mut Ctx) {
    let k = c.index;
    types!(k, sweep(c));
}

/// An image laid out by hand, as C++ would leave it.
fn image<T: Elem, const N: usize>(c: &mut Ctx) {
    let (p, home) = Obj::<T, N>::place();
    let a = MonAlloc::fresh();
    let arena = a.arena();
    let s = size_of::<T>();
    let lo = p as usize;
    let over = c.rng.chance(1, 2);
    let cap = if over { N + 1 + c.rng.below(9) } else { N };
    let n = c.rng.below(cap + 1);
    c.op("image", n as u64, cap as u64);
    let (vals, m) = mks::<T>(c, n);
    let begin = if over { mem::mon_alloc(arena, cap * s, align_of::<T>()) as usize } else { lo + buffer_off::<T>() };
    unsafe {
        let w = p as *mut u8;
        (w.add(0) as *mut mon::raw::Word).write_word(begin);
        (w.add(8) as *mut mon::raw::Word).write_word(begin + n * s);
        (w.add(16) as *mut mon::raw::Word).write_word(begin + cap * s);
        (w.add(24) as *mut u32).write(arena);
        (w.add(32) as *mut mon::raw::Word).write_word(lo + buffer_off::<T>());
        for (i, x) in vals.into_iter().enumerate() {
            ((begin + i * s) as *mut T).write(x);
        }
    }
    let mut v: Obj<T, N> = Obj { p, home, arena };
    let mut st = St { m, cap, over, arena };
    check(c, &v, &st, "reading a hand-built image");
    for _ in 0..12 {
        mem::ev_clear();
        let what = c.rng.below(5);
        c.op("image op", what as u64, st.m.len() as u64);
        match what {
            0 | 1 => {
                let (e, k) = mk::<T>(c);
                let cap = if st.m.len() == st.cap { st.cap * 2 } else { st.cap };
                v.push(e);
                st.m.push(k);
                grown::<T, N>(c, &mut st, cap, "push");
            }
            2 => {
                ensure_eq!(c, Kind::Func, v.pop().map(|e| e.get()), st.m.pop().map(|k| k.0), "pop");
            }
            3 => v = v.moved(),
            _ => {
                if !st.m.is_empty() {
                    let i = c.rng.index(st.m.len());
                    ensure_eq!(c, Kind::Func, v.remove(i).map(|e| e.get()), Some(st.m.remove(i).0), "remove");
                }
            }
        }
        check(c, &v, &st, "an operation on a hand-built image");
        c.eff();
    }
}
fn r_image(c: &mut Ctx) {
    let k = c.index;
    types!(k, image(c));
}

fn iters<T: Elem, const N: usize>(c: &mut Ctx) {
    let mut v: Obj<T, N> = Obj::new(c);
    let n = c.rng.below(2 * N + 3);
    c.op("iters", n as u64, N as u64);
    for _ in 0..n {
        let (e, _) = mk::<T>(c);
        v.push(e);
    }
    let exp: Vec<u64> = v.as_slice().iter().map(|e| e.get()).collect();
    ensure_eq!(c, Kind::Iter, exp.len(), n, "length");
    drive_de(c, v.iter().map(|e| e.get()), &exp, Hint::Exact, false, "iter");
    let want: Vec<u64> = exp.iter().map(|x| T::norm(x ^ 0x5a)).collect();
    if T::NAME != "blob" && T::NAME != "string" {
        for (i, e) in v.iter_mut().enumerate() {
            ensure_eq!(c, Kind::Iter, e.get(), exp[i], "iter_mut element {i}");
            *e = T::mk(exp[i] ^ 0x5a);
        }
        drive_de(c, v.iter_mut().map(|e| e.get()), &want, Hint::Exact, true, "iter_mut");
        let got: Vec<u64> = v.iter().map(|e| e.get()).collect();
        ensure_eq!(c, Kind::Iter, got, want, "contents after iter_mut");
    }
    c.eff();
    c.eff();
}
fn r_iters(c: &mut Ctx) {
    let k = c.rng.next();
    types!(k, iters(c));
}

static RIGS: &[Rig] = &[
    Rig { name: "fixv_history", props: &["C15", "C17", "C18", "C19", "C24", "C26", "C27"], scale: rnd(1600, 60_000), f: r_history },
    Rig { name: "fixv_sweep", props: &["C15", "C17", "C18", "C19"], scale: fixed(16), f: r_sweep },
    Rig { name: "fixv_image", props: &["C24", "C15", "C18"], scale: rnd(1600, 40_000), f: r_image },
    Rig { name: "fixv_iter", props: &["C09"], scale: rnd(320, 20_000), f: r_iters },
];

fn main() {
    mon::engine::main(RIGS);
}
