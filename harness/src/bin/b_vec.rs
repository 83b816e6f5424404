//! Vector.
use eastl_rs::vector::Vector;
use mon::engine::{fixed, rnd};
use mon::*;

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

type V<E> = Vector<E, MonAlloc>;

/// What an ideal growable array holds: value and identity.
type Model = Vec<(u64, u32)>;

#[derive(Clone, Copy, PartialEq)]
struct Shape {
    len: usize,
    cap: usize,
    ptr: usize,
}
fn shape<E: Elem>(v: &V<E>) -> Shape {
    Shape { len: v.len(), cap: v.capacity(), ptr: v.as_slice().as_ptr() as usize }
}

enum CapRule {
    /// exactly this capacity, storage moved or not
    Exact(usize),
    /// nothing reallocated
    Same,
    /// storage released
    Released,
}

struct M<E: Elem> {
    m: Model,
    arena: u32,
    _p: std::marker::PhantomData<E>,
}

fn mk<E: Elem>(c: &mut Ctx) -> (E, (u64, u32)) {
    let e = E::mk(c.rng.next());
    let k = (e.get(), e.ident());
    (e, k)
}
fn mks<E: Elem>(c: &mut Ctx, n: usize) -> (Vec<E>, Model) {
    let mut v = Vec::with_capacity(n);
    let mut m = Vec::with_capacity(n);
    for _ in 0..n {
        let (e, k) = mk::<E>(c);
        v.push(e);
        m.push(k);
    }
    (v, m)
}

/// contents against the model
fn same<E: Elem>(c: &mut Ctx, got: &[E], m: &Model, kind: Kind, what: &str) {
    ensure_eq!(c, kind, got.len(), m.len(), "{what}: length");
    for (i, (e, x)) in got.iter().zip(m).enumerate() {
        let g = e.get();
        if g != x.0 {
            c.fail(kind, format!("{what}: element {i} of {} is {g}, expected {}", m.len(), x.0));
        }
        if E::TRACKED && e.ident() != x.1 {
            c.miss(Kind::Copy, format!("{what}: element {i} is a copy of the value that was moved in"));
        }
    }
    c.count_n("elements compared", m.len() as u64);
}

impl<E: Elem> M<E> {
    fn check(&mut self, c: &mut Ctx, v: &V<E>, kind: Kind, what: &str) {
        c.sync();
        let n = self.m.len();
        ensure_eq!(c, kind, v.len(), n, "len after {what}");
        ensure_eq!(c, kind, v.is_empty(), n == 0, "is_empty after {what}");
        ensure!(c, Kind::Cap, v.len() <= v.capacity(), "length {} exceeds capacity {} after {what}", v.len(), v.capacity());
        ensure_eq!(c, kind, v.is_full(), v.len() == v.capacity(), "is_full after {what}");
        let r = raw::vec(v);
        let s = std::mem::size_of::<E>();
        ensure_eq!(c, Kind::Image, (r.end - r.begin, r.cap - r.begin), (n * s, v.capacity() * s), "begin/end/capacity words after {what}");
        ensure_eq!(c, Kind::Image, r.alloc_id, self.arena, "allocator word after {what}");
        if r.begin == 0 {
            ensure_eq!(c, Kind::Cap, v.capacity(), 0, "capacity without storage after {what}");
        } else {
            match mem::block_at(r.begin) {
                None => c.miss(Kind::Cap, format!("storage is not a live block of the allocator after {what}")),
                Some(b) => {
                    ensure_eq!(c, Kind::Cap, b.size, v.capacity() * s, "bytes really allocated for capacity {} after {what}", v.capacity());
                    ensure!(c, Kind::Alloc, b.align >= std::mem::align_of::<E>(), "block aligned to {} only after {what}", b.align);
                }
            }
            ensure_eq!(c, Kind::Image, v.as_slice().as_ptr() as usize, r.begin, "slice start after {what}");
        }
        let full = c.look() && (n <= 70 || c.rng.chance(1, 12));
        if full {
            same(c, v.as_slice(), &self.m, kind, what);
        } else if n > 0 {
            for i in [0, n / 2, n - 1, c.rng.below(n)] {
                let g = v[i].get();
                ensure_eq!(c, kind, g, self.m[i].0, "element {i} of {n} after {what}");
            }
        }
        c.sync();
    }
    fn cap(&mut self, c: &mut Ctx, v: &V<E>, before: Shape, rule: CapRule, what: &str) {
        match rule {
            CapRule::Exact(n) => {
                ensure_eq!(c, Kind::Cap, v.capacity(), n, "capacity after {what} (length {} capacity {} before)", before.len, before.cap);
                if n == before.cap {
                    self.cap(c, v, before, CapRule::Same, what)
                } else {
                    c.count("reallocations checked against the rule");
                }
            }
            CapRule::Same => {
                let now = shape(v);
                ensure_eq!(c, Kind::Cap, now.cap, before.cap, "capacity after {what} (length {} before)", before.len);
                let (a, f) = mem::ev_counts();
                ensure_eq!(c, Kind::Cap, (a, f), (0, 0), "(allocations, frees) during {what} with length {} capacity {}", before.len, before.cap);
                if before.cap != 0 {
                    ensure_eq!(c, Kind::Cap, now.ptr, before.ptr, "element addresses after {what}");
                }
                c.count("operations checked not to reallocate");
            }
            CapRule::Released => {
                ensure_eq!(c, Kind::Cap, (v.capacity(), raw::vec(v).begin), (0, 0), "capacity and storage after {what}");
                ensure_eq!(c, Kind::Cap, mem::ev_counts(), (0, (before.cap > 0) as usize), "(allocations, frees) during {what}");
            }
        }
    }
}

/// copies of `from` now stand at `got`: each cloned exactly once
fn cloned<E: Elem>(c: &mut Ctx, got: &[E], from: &[E], what: &str) -> Model {
    let mut m = Vec::new();
    ensure_eq!(c, Kind::Copy, got.len(), from.len(), "{what}: number of copies");
    for (i, (g, f)) in got.iter().zip(from).enumerate() {
        ensure_eq!(c, Kind::Copy, g.get(), f.get(), "{what}: copy {i}");
        if E::TRACKED {
            ensure_eq!(c, Kind::Copy, origin_of(g.ident()), f.ident(), "{what}: copy {i} made from another value");
            ensure_eq!(c, Kind::Copy, clones_of(f.ident()), 1, "{what}: times element {i} was cloned");
        }
        m.push((f.get(), g.ident()));
    }
    c.sync();
    m
}

fn build<E: Elem>(c: &mut Ctx) -> (V<E>, M<E>) {
    mem::ev_clear();
    let big = c.rng.chance(1, 6);
    let n = if big { c.rng.below(200) } else { c.rng.below(9) };
    let cur = MonAlloc::current().arena();
    let (v, m, arena): (V<E>, Model, u32);
    let pick = if c.prop == "C24" && c.rng.chance(1, 2) { 10 } else { c.rng.below(10) };
    match pick {
        10 => {
            arena = MonAlloc::fresh().arena();
            let (s, k) = mks::<E>(c, n);
            let spare = *c.rng.pick(&[0, 0, 1, 7]);
            c.op("image", n as u64, spare as u64);
            v = vec_image(c, arena, s, n + spare, n + spare);
            m = k;
        }
        0 | 1 => {
            let a = MonAlloc::fresh();
            arena = a.arena();
            v = Vector::new_in(a);
            m = vec![];
            c.op("new_in", 0, 0);
            ensure_eq!(c, Kind::Cap, (v.capacity(), mem::ev_counts()), (0, (0, 0)), "capacity and allocator traffic of new_in");
        }
        2 => {
            v = Vector::new();
            m = vec![];
            arena = cur;
            c.op("new", 0, 0);
        }
        3 => {
            v = Vector::with_capacity(n);
            m = vec![];
            arena = cur;
            c.op("with_capacity", n as u64, 0);
            ensure_eq!(c, Kind::Cap, v.capacity(), n, "with_capacity");
        }
        4 => {
            let (s, _) = mks::<E>(c, n);
            v = Vector::from(s.as_slice());
            c.op("from slice", n as u64, 0);
            m = cloned(c, &v, &s, "from slice");
            arena = cur;
        }
        5 => {
            let (mut s, _) = mks::<E>(c, n);
            if c.rng.chance(1, 2) {
                v = Vector::from(s.as_mut_slice());
            } else if s.len() >= 3 {
                let a: &[E; 3] = s[..3].try_into().unwrap();
                v = Vector::from(a);
                s.truncate(3);
            } else {
                v = Vector::from(s.as_mut_slice());
            }
            c.op("from &mut slice / &array", n as u64, 0);
            m = cloned(c, &v, &s, "from slice");
            arena = cur;
        }
        6 => {
            let (s, k) = mks::<E>(c, 5);
            if c.rng.chance(1, 3) {
                v = Vector::from(<[E; 0]>::try_from(Vec::new()).unwrap());
                m = vec![];
            } else {
                let a: [E; 5] = s.try_into().unwrap();
                v = Vector::from(a);
                m = k;
            }
            c.op("from array", 5, 0);
            arena = cur;
        }
        7 => {
            let a = MonAlloc::fresh();
            arena = a.arena();
            let (s, _) = mks::<E>(c, n);
            v = unsafe { Vector::from_in(&s, a) };
            c.op("from_in", n as u64, 0);
            m = cloned(c, &v, &s, "from_in");
        }
        8 => {
            v = Vector::default();
            m = vec![];
            arena = cur;
            c.op("default", 0, 0);
        }
        _ => {
            let (s, k) = mks::<E>(c, n);
            v = src(&mut c.rng, s).collect();
            c.op("from_iter", n as u64, 0);
            m = k;
            arena = cur;
        }
    }
    let mut st = M { m, arena, _p: std::marker::PhantomData };
    let kind = if st.m.is_empty() { Kind::Func } else { Kind::Copy };
    st.check(c, &v, Kind::Func, "construction");
    same(c, &v, &st.m, kind, "construction");
    (v, st)
}

fn history<E: Elem>(c: &mut Ctx, steps: usize, grow: bool) {
    let (v, mut st) = build::<E>(c);
    let mut v = Lodge::new(v);
    let cap_len = if grow { 3000 } else { *c.rng.pick(&[6usize, 20, 90]) };
    for _ in 0..steps {
        v.stir(c);
        mem::ev_clear();
        let b = shape(&*v);
        let n = st.m.len();
        let w: [u32; 20] = if grow {
            [30, 3, 10, 3, 12, 1, 2, 0, 0, 0, 3, 1, 0, 1, 1, 1, 1, 1, 0, 1]
        } else if n >= cap_len {
            [2, 20, 2, 20, 0, 2, 2, 2, 2, 1, 4, 2, 2, 2, 1, 2, 1, 2, 2, 2]
        } else {
            [18, 8, 14, 10, 6, 4, 6, 2, 2, 1, 5, 2, 3, 3, 2, 2, 2, 2, 2, 3]
        };
        match c.rng.weighted(&w) {
            0 => {
                let (e, k) = mk::<E>(c);
                c.op("push", n as u64, b.cap as u64);
                v.push(e);
                st.m.push(k);
                st.cap(c, &*v, b, CapRule::Exact(if b.len == b.cap { (b.cap * 2).max(1) } else { b.cap }), "push");
                c.eff();
            }
            1 => {
                c.op("pop", n as u64, 0);
                let got = v.pop();
                let exp = st.m.pop();
                ensure_eq!(c, Kind::Func, got.as_ref().map(|e| e.get()), exp.map(|k| k.0), "pop");
                ensure_eq!(c, Kind::Copy, got.as_ref().map(|e| e.ident()), exp.map(|k| k.1), "identity of the popped value");
                st.cap(c, &*v, b, CapRule::Same, "pop");
                if exp.is_none() {
                    ensure!(c, Kind::Reject, shape(&*v) == b, "pop of an empty vector changed it");
                }
                c.eff();
            }
            2 => {
                let (e, k) = mk::<E>(c);
                let i = if c.rng.chance(1, 4) { n } else { c.rng.index(n + 1) };
                c.op("insert", n as u64, i as u64);
                v.insert(i, e);
                st.m.insert(i, k);
                st.cap(c, &*v, b, CapRule::Exact(if b.len == b.cap { (b.cap * 2).max(1) } else { b.cap }), "insert");
                c.eff();
            }
            3 => {
                let i = if c.rng.chance(1, 8) { beyond(&mut c.rng, n, b.cap) } else { c.rng.index(n + 1).min(n + 3) };
                c.op("remove", n as u64, i as u64);
                let got = v.remove(i);
                let exp = (i < n).then(|| st.m.remove(i));
                ensure_eq!(c, Kind::Func, got.as_ref().map(|e| e.get()), exp.map(|k| k.0), "remove({i}) with length {n}");
                ensure_eq!(c, Kind::Copy, got.as_ref().map(|e| e.ident()), exp.map(|k| k.1), "identity of the removed value");
                st.cap(c, &*v, b, CapRule::Same, "remove");
                if exp.is_none() {
                    ensure!(c, Kind::Reject, shape(&*v) == b, "remove({i}) past the end changed the vector");
                    same(c, &*v, &st.m, Kind::Reject, "remove past the end");
                }
                c.eff();
            }
            4 => {
                let k = if grow { c.rng.below(200) } else { c.rng.below(6) };
                let (s, _) = mks::<E>(c, k);
                c.op("append", n as u64, k as u64);
                v.append(&s);
                let lo = n.min(v.len());
                let new = cloned(c, &v.as_slice()[lo..], &s, "append");
                st.m.extend(new);
                st.cap(c, &*v, b, CapRule::Exact((n + k).max(b.cap)), "append");
                c.eff();
            }
            5 => {
                let k = if c.rng.chance(1, 5) { 0 } else { c.rng.below(n + 4) };
                let (s, _) = mks::<E>(c, k);
                c.op("assign", n as u64, k as u64);
                v.assign(&s);
                st.m = cloned(c, &*v, &s, "assign");
                st.cap(c, &*v, b, CapRule::Exact(k.max(b.cap)), "assign");
                c.eff();
            }
            6 => {
                let k = match c.rng.below(4) {
                    0 => 0,
                    1 => 1,
                    _ => c.rng.below(12),
                };
                c.op("reserve", n as u64, k as u64);
                v.reserve(k);
                st.cap(c, &*v, b, CapRule::Exact(b.cap + k), "reserve");
                c.eff();
            }
            7 => {
                c.op("clear", n as u64, b.cap as u64);
                v.clear();
                st.m.clear();
                st.cap(c, &*v, b, CapRule::Released, "clear");
                c.eff();
            }
            8 => {
                // an insertion past the end is rejected
                let i = beyond(&mut c.rng, n + 1, b.cap + 1);
                let (e, _) = mk::<E>(c);
                c.op("insert past the end", n as u64, i as u64);
                let p = panics(|| v.insert(i, e));
                ensure!(c, Kind::Reject, p.is_some(), "insert({i}) into length {n} was accepted");
                ensure!(c, Kind::Reject, shape(&*v) == b, "rejected insert({i}) changed length {n} -> {} or capacity {} -> {}", v.len(), b.cap, v.capacity());
                same(c, &*v, &st.m, Kind::Reject, "rejected insert");
            }
            9 => {
                // a reservation whose size overflows is rejected
                let s = std::mem::size_of::<E>();
                let k = *c.rng.pick(&[usize::MAX, usize::MAX - b.cap, usize::MAX - b.cap.saturating_sub(1), usize::MAX / s - b.cap + (s > 1) as usize, usize::MAX / 2, isize::MAX as usize / s + 1]);
                if b.cap.checked_add(k).and_then(|x| x.checked_mul(s)).is_none_or(|x| x > isize::MAX as usize) {
                    c.op("reserve overflow", n as u64, k as u64);
                    let p = panics(|| v.reserve(k));
                    ensure!(c, Kind::Reject, p.is_some(), "reserve({k}) of {s}-byte elements was accepted");
                    ensure!(c, Kind::Reject, shape(&*v) == b, "rejected reserve({k}) changed the vector");
                    same(c, &*v, &st.m, Kind::Reject, "rejected reserve");
                }
            }
            10 => {
                // writes through the slice
                c.op("slice write", n as u64, 0);
                if n > 0 {
                    let i = c.rng.index(n);
                    let (e, k) = mk::<E>(c);
                    match c.rng.below(4) {
                        0 => {
                            v[i] = e;
                            st.m[i] = k;
                        }
                        1 => {
                            let j = c.rng.index(n);
                            v.as_slice_mut().swap(i, j);
                            st.m.swap(i, j);
                        }
                        2 => {
                            v.reverse();
                            st.m.reverse();
                        }
                        _ => {
                            *v.iter_mut().nth(i).unwrap() = e;
                            st.m[i] = k;
                        }
                    }
                    c.eff();
                }
                st.cap(c, &*v, b, CapRule::Same, "slice write");
            }
            11 => {
                c.op("read", n as u64, 0);
                let got = (v.first().map(|e| e.get()), v.last().map(|e| e.get()), v.get(n).is_none());
                ensure_eq!(c, Kind::Func, got, (st.m.first().map(|k| k.0), st.m.last().map(|k| k.0), true), "first, last, get(len)");
                let vals: Vec<u64> = v.iter().map(|e| e.get()).collect();
                let exp: Vec<u64> = st.m.iter().map(|k| k.0).collect();
                ensure!(c, Kind::Func, vals == exp, "iteration yields {vals:?} instead of {exp:?}");
                let r: &[E] = v.as_ref();
                ensure_eq!(c, Kind::Func, r.len(), n, "as_ref length");
                st.cap(c, &*v, b, CapRule::Same, "reads");
            }
            12 => {
                c.op("format", n as u64, 0);
                if n < 200 {
                    let d = format!("{v:?}");
                    let e = format!("{:?}", v.as_slice().iter().map(|e| e.get()).collect::<Vec<_>>());
                    if !matches!(E::NAME, "string" | "box") || E::NAME == "box" {
                        ensure_eq!(c, Kind::Copy, d, e, "Debug output");
                    }
                }
                st.cap(c, &*v, b, CapRule::Same, "formatting");
            }
            13 => {
                c.op("clone", n as u64, 0);
                let cl = if E::TRACKED {
                    for e in v.iter() {
                        // fresh clone counts: replace by counting relative to now
                        let _ = e;
                    }
                    let was: Vec<u32> = v.iter().map(|e| clones_of(e.ident())).collect();
                    let cl = v.clone();
                    for (i, e) in v.iter().enumerate() {
                        ensure_eq!(c, Kind::Copy, clones_of(e.ident()) - was[i], 1, "times element {i} was cloned by clone");
                        if i < cl.len() {
                            ensure_eq!(c, Kind::Copy, origin_of(cl[i].ident()), e.ident(), "clone's element {i} made from another value");
                        }
                    }
                    cl
                } else {
                    v.clone()
                };
                let m2: Model = cl.iter().zip(&st.m).map(|(e, k)| (k.0, e.ident())).collect();
                ensure_eq!(c, Kind::Copy, cl.len(), n, "length of the clone");
                same(c, &cl, &m2, Kind::Copy, "clone");
                ensure!(c, Kind::Copy, cl.capacity() >= n && (n == 0 || raw::vec(&cl).begin != raw::vec(&*v).begin), "clone shares storage");
                ensure_eq!(c, Kind::Alloc, raw::vec(&cl).alloc_id, st.arena, "allocator of the clone");
                // one of the two is modified, the other must not notice
                let mut st2 = M::<E> { m: m2, arena: st.arena, _p: Default::default() };
                let mut cl = cl;
                if c.rng.chance(1, 2) {
                    std::mem::swap(&mut *v, &mut cl);
                    std::mem::swap(&mut st, &mut st2);
                }
                let (e, k) = mk::<E>(c);
                match c.rng.below(4) {
                    0 => {
                        cl.push(e);
                        st2.m.push(k);
                    }
                    1 if n > 0 => {
                        cl[n / 2] = e;
                        st2.m[n / 2] = k;
                    }
                    2 => {
                        cl.clear();
                        st2.m.clear();
                    }
                    _ => {
                        cl.pop();
                        st2.m.pop();
                    }
                }
                same(c, &*v, &st.m, Kind::Copy, "original after its copy changed");
                same(c, &cl, &st2.m, Kind::Copy, "changed copy");
                drop(cl);
                same(c, &*v, &st.m, Kind::Copy, "original after its copy was dropped");
                c.eff();
            }
            14 => {
                c.op("into_iter", n as u64, 0);
                consume(c, v.take(), &st);
                let (v2, st2) = build::<E>(c);
                (v, st) = (Lodge::new(v2), st2);
                c.eff();
            }
            15 => {
                c.op("move", n as u64, 0);
                let p = shape(&*v);
                v.relocate(c);
                ensure!(c, Kind::Move, shape(&*v) == p, "moving the vector changed its length, capacity or storage");
                st.check(c, &*v, Kind::Move, "move");
                // the rejected and the moved vector still take elements
                c.eff();
            }
            16 => {
                c.op("push many", n as u64, 0);
                for _ in 0..c.rng.below(20) {
                    let (e, k) = mk::<E>(c);
                    let b = shape(&*v);
                    mem::ev_clear();
                    v.push(e);
                    st.m.push(k);
                    st.cap(c, &*v, b, CapRule::Exact(if b.len == b.cap { (b.cap * 2).max(1) } else { b.cap }), "push");
                }
                c.eff();
            }
            17 => {
                // fill the spare capacity to the brim: nothing may be reallocated
                c.op("fill", n as u64, b.cap as u64);
                for _ in 0..(b.cap - b.len).min(200) {
                    let (e, k) = mk::<E>(c);
                    let i = c.rng.index(st.m.len() + 1);
                    v.insert(i, e);
                    st.m.insert(i, k);
                }
                st.cap(c, &*v, b, CapRule::Same, "filling spare capacity");
                c.eff();
            }
            18 => {
                c.op("drain", n as u64, 0);
                while let Some(e) = v.pop() {
                    let k = st.m.pop();
                    ensure_eq!(c, Kind::Func, Some(e.get()), k.map(|k| k.0), "pop while draining");
                }
                ensure!(c, Kind::Func, st.m.is_empty(), "pop gave None with {} elements left", st.m.len());
                st.cap(c, &*v, b, CapRule::Same, "draining");
                c.eff();
            }
            _ => {
                // swap with another vector of another allocator
                c.op("swap", n as u64, 0);
                let (mut v2, mut st2) = build::<E>(c);
                std::mem::swap(&mut *v, &mut v2);
                std::mem::swap(&mut st, &mut st2);
                st.check(c, &*v, Kind::Func, "swap");
                st2.check(c, &v2, Kind::Func, "swap");
                c.eff();
            }
        }
        st.check(c, &*v, Kind::Func, "an operation");
    }
    same(c, &*v, &st.m, Kind::Func, "at the end");
    if c.rng.chance(1, 3) {
        consume(c, v.take(), &st);
    } else {
        let cap = v.capacity();
        mem::ev_clear();
        drop(v);
        let f = mem::ev_counts();
        ensure_eq!(c, Kind::Alloc, f, (0, (cap > 0) as usize), "(allocations, frees) of drop");
    }
    mem::check_all();
    c.sync();
}

/// into_iter, to the end or dropped part-way, moved on the way
fn consume<E: Elem>(c: &mut Ctx, v: V<E>, st: &M<E>) {
    let n = st.m.len();
    let ptr = raw::vec(&v).begin;
    let mut it = Lodge::new(v.into_iter());
    let (mut lo, mut hi) = (0, n);
    let quit = if c.rng.chance(1, 2) { c.rng.below(n + 1) } else { n + 3 };
    let mode = c.rng.below(3);
    for k in 0..n + 3 {
        if k == quit {
            break;
        }
        if c.rng.chance(1, 8) {
            it.relocate(c);
        }
        let h = it.size_hint();
        ensure!(c, Kind::Iter, h.0 <= hi - lo && h.1.is_none_or(|u| u >= hi - lo), "into_iter size hint {h:?} with {} left", hi - lo);
        ensure_eq!(c, Kind::Iter, (it.len(), it.is_empty()), (hi - lo, lo == hi), "len/is_empty of into_iter");
        if c.rng.chance(1, 3) || hi - lo < 8 {
            let s: Vec<u64> = it.as_slice().iter().map(|e| e.get()).collect();
            let e: Vec<u64> = st.m[lo..hi].iter().map(|k| k.0).collect();
            ensure!(c, Kind::Iter, s == e, "as_slice of into_iter is {s:?}, expected {e:?}");
            if lo < hi {
                ensure_eq!(c, Kind::Iter, it.as_slice_mut()[hi - lo - 1].get(), e[hi - lo - 1], "as_slice_mut of into_iter");
            }
        }
        let front = match mode {
            0 => true,
            1 => false,
            _ => c.rng.chance(1, 2),
        };
        let got = if front { it.next() } else { it.next_back() };
        let exp = if lo == hi {
            None
        } else if front {
            lo += 1;
            Some(st.m[lo - 1])
        } else {
            hi -= 1;
            Some(st.m[hi])
        };
        ensure_eq!(c, Kind::Iter, got.as_ref().map(|e| e.get()), exp.map(|k| k.0), "into_iter ({} left)", hi - lo);
        ensure_eq!(c, Kind::Copy, got.as_ref().map(|e| e.ident()), exp.map(|k| k.1), "identity of a consumed value");
    }
    if E::TRACKED {
        // the rest is alive until the iterator is dropped, and destroyed by it
        for e in it.as_slice() {
            let _ = e.get();
        }
        c.sync();
        let rest: Vec<u32> = st.m[lo..hi].iter().map(|k| k.1).collect();
        drop(it);
        for id in rest {
            ensure!(c, Kind::Drop, !is_live(id), "a value left in a dropped into_iter was not destroyed");
        }
    } else {
        drop(it);
    }
    ensure!(c, Kind::Alloc, ptr == 0 || mem::block_at(ptr).is_none(), "dropped into_iter kept its block");
    c.sync();
}

macro_rules! types {
    ($c:expr, $k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 14 {
            0 => $f::<u8>($($a),*),
            1 => $f::<u16>($($a),*),
            2 => $f::<u32>($($a),*),
            3 => $f::<u64>($($a),*),
            4 => $f::<Tok8>($($a),*),
            5 => $f::<Tok24>($($a),*),
            6 => $f::<TokA64>($($a),*),
            7 => $f::<Tok4>($($a),*),
            8 => $f::<Blob<7>>($($a),*),
            9 => $f::<Box<u64>>($($a),*),
            10 => $f::<Al32>($($a),*),
            11 => $f::<TokA16>($($a),*),
            12 => $f::<u128>($($a),*),
            _ => $f::<std::string::String>($($a),*),
        }
    };
}

fn r_history(c: &mut Ctx) {
    let steps = if cfg!(miri) { 30 } else if c.thorough { 160 } else { 110 };
    let k = c.index;
    types!(c, k, history(c, steps, false));
}
fn r_grow(c: &mut Ctx) {
    let k = c.index;
    let steps = if cfg!(miri) { 12 } else { 120 };
    types!(c, k, history(c, steps, true));
}

/// every index of insert and remove at every small length and capacity
fn sweep<E: Elem>(c: &mut Ctx, len: usize) {
    for spare in [0usize, 1, 5] {
        for i in 0..=len {
            for op in 0..4 {
                mem::ev_clear();
                let a = MonAlloc::fresh();
                let mut st = M::<E> { m: vec![], arena: a.arena(), _p: Default::default() };
                let mut v: V<E> = Vector::new_in(a);
                if len + spare > 0 {
                    v.reserve(len + spare);
                }
                for _ in 0..len {
                    let (e, k) = mk::<E>(c);
                    v.push(e);
                    st.m.push(k);
                }
                mem::ev_clear();
                let b = shape(&v);
                c.op("sweep", (len * 64 + i) as u64, (spare * 8 + op) as u64);
                match op {
                    0 => {
                        let (e, k) = mk::<E>(c);
                        v.insert(i, e);
                        st.m.insert(i, k);
                        st.cap(c, &v, b, CapRule::Exact(if b.len == b.cap { (b.cap * 2).max(1) } else { b.cap }), "insert");
                    }
                    1 => {
                        let got = v.remove(i);
                        let exp = (i < len).then(|| st.m.remove(i));
                        ensure_eq!(c, Kind::Func, got.map(|e| e.get()), exp.map(|k| k.0), "remove({i}) of {len}");
                        st.cap(c, &v, b, CapRule::Same, "remove");
                    }
                    2 => {
                        let (s, _) = mks::<E>(c, i);
                        v.append(&s);
                        let new = cloned(c, &v.as_slice()[len.min(v.len())..], &s, "append");
                        st.m.extend(new);
                        st.cap(c, &v, b, CapRule::Exact((len + i).max(b.cap)), "append");
                    }
                    _ => {
                        let (s, _) = mks::<E>(c, i);
                        v.assign(&s);
                        st.m = cloned(c, &v, &s, "assign");
                        st.cap(c, &v, b, CapRule::Exact(i.max(b.cap)), "assign");
                    }
                }
                c.eff();
                c.eff();
                st.check(c, &v, Kind::Func, "a swept operation");
                consume(c, v, &st);
            }
        }
    }
}
const SWEEP: [usize; 26] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 31, 32, 33, 63, 64];
fn r_sweep(c: &mut Ctx) {
    let len = SWEEP[c.index as usize % SWEEP.len()];
    match c.index as usize / SWEEP.len() {
        0 => sweep::<Tok8>(c, len),
        1 => sweep::<u8>(c, len),
        _ => sweep::<Tok24>(c, len),
    }
}

/// growth into the millions: capacities, contents and step counts
fn huge<E: Elem>(c: &mut Ctx, n: usize) {
    let a = MonAlloc::fresh();
    let arena = a.arena();
    let mut v: V<E> = Vector::new_in(a);
    let mut reallocs = 0;
    let key = c.rng.next();
    let val = |i: usize| E::norm((i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ key);
    c.op("huge", n as u64, std::mem::size_of::<E>() as u64);
    for i in 0..n {
        let cap = v.capacity();
        v.push(E::mk(val(i)));
        if v.capacity() != cap {
            reallocs += 1;
            ensure_eq!(c, Kind::Cap, v.capacity(), (cap * 2).max(1), "capacity after push at length {i}");
            ensure!(c, Kind::Cap, i == cap, "push at length {i} below capacity {cap} reallocated");
            // everything survived the move
            if i < 1 << 16 || i + 1 == v.capacity() / 2 + 1 {
                for j in 0..=i {
                    if v[j].get() != val(j) {
                        c.fail(Kind::Func, format!("element {j} of {} damaged by growth", i + 1));
                    }
                }
            }
        }
    }
    ensure!(c, Kind::Steps, reallocs <= 64 - (n as u64).leading_zeros() as usize + 1, "{n} pushes made {reallocs} allocations");
    let r = raw::vec(&v);
    ensure_eq!(c, Kind::Cap, mem::block_at(r.begin).map(|b| b.size), Some(v.capacity() * std::mem::size_of::<E>()), "bytes allocated");
    ensure_eq!(c, Kind::Image, r.alloc_id, arena, "allocator word");
    // in the middle of a large vector
    let mut m: Vec<u64> = (0..n).map(val).collect();
    for _ in 0..12 {
        let i = c.rng.index(m.len());
        let x = c.rng.next();
        v.insert(i, E::mk(x));
        m.insert(i, E::norm(x));
        let i = c.rng.index(m.len());
        ensure_eq!(c, Kind::Func, v.remove(i).map(|e| e.get()), Some(m.remove(i)), "remove({i}) of {n}");
    }
    let (s, sm) = mks::<E>(c, 70_000.min(n));
    v.append(&s);
    m.extend(sm.iter().map(|k| k.0));
    for (i, x) in m.iter().enumerate() {
        if v[i].get() != *x {
            c.fail(Kind::Func, format!("element {i} of {} is {}, expected {x}", m.len(), v[i].get()));
        }
    }
    ensure_eq!(c, Kind::Func, v.len(), m.len(), "length");
    let cl = v.clone();
    ensure!(c, Kind::Copy, cl.len() == v.len() && cl.iter().zip(v.iter()).all(|(a, b)| a.get() == b.get()), "clone of {} elements differs", v.len());
    drop(cl);
    let cap = v.capacity();
    for i in (0..m.len()).rev() {
        let g = v.pop();
        if g.as_ref().map(|e| e.get()) != Some(m[i]) {
            c.fail(Kind::Func, format!("pop at length {} gives {:?}", i + 1, g));
        }
    }
    ensure_eq!(c, Kind::Cap, v.capacity(), cap, "capacity after popping everything");
    c.eff();
    c.eff();
    c.max("max vector length", m.len() as u64);
}
fn r_huge(c: &mut Ctx) {
    match c.index % 8 {
        0 => huge::<u8>(c, 2_200_000),
        1 => huge::<u32>(c, 1_100_000),
        2 => huge::<u64>(c, 300_000),
        3 => huge::<Blob<7>>(c, 140_000),
        4 => huge::<Tok8>(c, 70_000),
        5 => huge::<u16>(c, 600_000),
        6 => huge::<Box<u64>>(c, 70_000),
        _ => huge::<u128>(c, 140_000),
    }
}

/// shared and mutable iteration
fn iters<E: Elem>(c: &mut Ctx) {
    let n = if c.rng.chance(1, 10) { c.rng.below(300) } else { c.rng.below(20) };
    let (s, m) = mks::<E>(c, n);
    let mut v: V<E> = s.into_iter().collect();
    c.op("iters", n as u64, 0);
    let exp: Vec<u64> = m.iter().map(|k| k.0).collect();
    drive_de(c, v.iter().map(|e| e.get()), &exp, Hint::Exact, false, "iter");
    let mut want = exp.clone();
    let (fresh, fm) = mks::<E>(c, n);
    let mut it = v.iter_mut();
    let mut fresh = fresh.into_iter().enumerate();
    let (mut lo, mut hi) = (0, n);
    while lo < hi {
        let front = c.rng.chance(1, 2);
        let x = if front { it.next() } else { it.next_back() };
        let Some(x) = x else { c.fail(Kind::Iter, "iter_mut ends early".into()) };
        let i = if front { lo } else { hi - 1 };
        ensure_eq!(c, Kind::Iter, x.get(), exp[i], "iter_mut");
        if c.rng.chance(1, 2) {
            let (k, e) = fresh.next().unwrap();
            *x = e;
            want[i] = fm[k].0;
        }
        if front {
            lo += 1
        } else {
            hi -= 1
        }
    }
    ensure!(c, Kind::Iter, it.next().is_none() && it.next_back().is_none(), "iter_mut goes on after its end");
    let got: Vec<u64> = v.iter().map(|e| e.get()).collect();
    ensure_eq!(c, Kind::Iter, got, want, "contents after writes through iter_mut");
    drop(fresh);
    let st = M::<E> { m: v.iter().map(|e| (e.get(), e.ident())).collect(), arena: 0, _p: Default::default() };
    consume(c, v, &st);
    c.eff();
    c.eff();
}
fn r_iters(c: &mut Ctx) {
    for _ in 0..6 {
        let k = c.rng.next();
        types!(c, k, iters(c));
    }
}

static RIGS: &[Rig] = &[
    Rig { name: "vec_history", props: &["C01", "C02", "C17", "C18", "C19", "C24", "C26", "C27", "C28"], scale: rnd(1400, 60_000), f: r_history },
    Rig { name: "vec_grow", props: &["C01", "C02", "C17", "C18", "C24", "C26"], scale: rnd(56, 2000), f: r_grow },
    Rig { name: "vec_sweep", props: &["C01", "C02", "C17", "C18", "C19", "C27"], scale: fixed(SWEEP.len() as u64 * 3), f: r_sweep },
    Rig { name: "vec_huge", props: &["C01", "C02", "C25"], scale: fixed(8), f: r_huge },
    Rig { name: "vec_iter", props: &["C09", "C01"], scale: rnd(300, 20_000), f: r_iters },
];

fn main() {
    mon::engine::main(RIGS);
}
