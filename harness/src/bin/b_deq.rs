//! Deque and Queue.
use eastl_rs::deque::iter::{CompatIter, CompatIterMut, Iter, IterMut};
use eastl_rs::deque::Deque;
use eastl_rs::queue::Queue;
use mon::engine::{fixed, rnd};
use mon::raw::RawDqIt;
use mon::*;
use std::collections::VecDeque;

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

type D<E> = Deque<'static, E, MonAlloc>;
type Q<E> = Queue<'static, E, MonAlloc>;
type Model = VecDeque<(u64, u32)>;

fn mk<E: Elem>(c: &mut Ctx) -> (E, (u64, u32)) {
    let e = E::mk(c.rng.next());
    let k = (e.get(), e.ident());
    (e, k)
}

struct M {
    m: Model,
    arena: u32,
    /// most blocks the contents ever spanned
    peak: usize,
    index_allocs: usize,
    check_no: u64,
}

fn blk<E>() -> usize {
    raw::deque_block(std::mem::size_of::<E>())
}

impl M {
    fn new(arena: u32) -> Self {
        M { m: Model::new(), arena, peak: 1, index_allocs: 0, check_no: 0 }
    }
    /// cheap: after every operation
    fn quick<E: Elem>(&mut self, c: &mut Ctx, d: &D<E>, kind: Kind, what: &str) {
        let n = self.m.len();
        ensure_eq!(c, kind, d.len(), n, "len after {what}");
        ensure_eq!(c, kind, d.is_empty(), n == 0, "is_empty after {what}");
        ensure_eq!(c, kind, d.front().map(|e| e.get()), self.m.front().map(|k| k.0), "front after {what} (length {n})");
        ensure_eq!(c, kind, d.back().map(|e| e.get()), self.m.back().map(|k| k.0), "back after {what} (length {n})");
    }
    fn check<E: Elem>(&mut self, c: &mut Ctx, d: &D<E>, kind: Kind, what: &str) {
        self.quick(c, d, kind, what);
        self.storage(c, d, what);
        self.check_no += 1;
        let n = self.m.len();
        if n > 150 && self.check_no % 31 != 0 || !c.look() {
            return;
        }
        self.full(c, d, kind, what);
    }
    fn full<E: Elem>(&mut self, c: &mut Ctx, d: &D<E>, kind: Kind, what: &str) {
        c.sync();
        let n = self.m.len();
        let mut i = 0;
        for e in d.iter() {
            if i >= n {
                c.fail(kind, format!("iteration goes past the last of {n} elements after {what}"));
            }
            let g = e.get();
            if g != self.m[i].0 {
                c.fail(kind, format!("element {i} of {n} is {g}, expected {} after {what}", self.m[i].0));
            }
            if E::TRACKED && e.ident() != self.m[i].1 {
                c.miss(Kind::Copy, format!("element {i} is a copy of the value pushed after {what}"));
            }
            i += 1;
        }
        ensure_eq!(c, kind, i, n, "elements iterated after {what}");
        c.count_n("elements compared", n as u64);
        let r = raw::deque(d);
        match r.walk(std::mem::size_of::<E>()) {
            Err(m) => c.miss(Kind::Image, format!("{m} after {what}")),
            Ok(p) => {
                ensure_eq!(c, Kind::Image, p.len(), n, "elements the layout shows after {what}");
                for (i, a) in p.iter().enumerate() {
                    let g = unsafe { (*(*a as *const E)).get() };
                    if g != self.m[i].0 {
                        c.miss(Kind::Image, format!("element {i} of {n} in the layout is {g}, expected {} after {what}", self.m[i].0));
                    }
                }
                ensure_eq!(c, Kind::Image, unsafe { raw::u32_at(d as *const _ as usize, 80) }, self.arena, "allocator word");
            }
        }
        c.sync();
    }
    /// blocks and index against what the contents need
    fn storage<E: Elem>(&mut self, c: &mut Ctx, d: &D<E>, what: &str) {
        let r = raw::deque(d);
        let n = self.m.len();
        let b = blk::<E>();
        let s = std::mem::size_of::<E>();
        // blocks the elements span, from where the first one stands
        let off = (r.begin.cur.wrapping_sub(r.begin.begin)) / s;
        let span = if n == 0 { 0 } else { (off % b + n).div_ceil(b) };
        self.peak = self.peak.max(span);
        let (live, bytes, index) = {
            let reg = mem::reg();
            let mut live = 0;
            let mut bytes = 0;
            let mut index = 0;
            if reg.live.len() < 64 || self.check_no % 17 == 0 {
                for (p, rec) in reg.live.iter() {
                    if rec.arena == self.arena {
                        bytes += rec.size;
                        if *p == r.ptr_array {
                            index = rec.size / 8;
                        } else {
                            live += 1;
                        }
                    }
                }
            } else {
                index = reg.live.get(&r.ptr_array).map_or(0, |x| x.size / 8);
            }
            (live, bytes, index)
        };
        ensure!(c, Kind::Store, live <= span + 1, "{live} blocks held for {n} elements spanning {span} after {what}");
        ensure!(
            c,
            Kind::Store,
            index <= 4 * self.peak + 16,
            "block index of {index} entries although at most {} blocks were ever needed, after {what}",
            self.peak
        );
        ensure!(c, Kind::Store, bytes <= (span + 1) * b * s + (4 * self.peak + 16) * 8, "{bytes} bytes held for {n} elements after {what}");
        c.max("max blocks", span as u64);
        c.max("max index entries", index as u64);
    }
    /// steps of one push or pop
    fn steps<E: Elem>(&mut self, c: &mut Ctx, what: &str) {
        let ev = mem::ev_take();
        let bs = blk::<E>() * std::mem::size_of::<E>();
        let (mut blocks, mut idx) = (0, 0);
        for e in &ev {
            // an index can have the size of a block: an index is replaced, so it comes as a pair
            if e.size == bs && !(e.align == 8 && ev.len() > 1 && std::mem::align_of::<E>() != 8) {
                blocks += 1;
            } else if e.alloc {
                idx += 1;
            }
        }
        if idx == 0 && blocks > 1 && ev.len() == 3 {
            blocks = 1;
            idx = 1;
        }
        ensure!(c, Kind::Steps, blocks <= 1 && idx <= 1 && ev.len() <= 3, "{what} made allocator calls {ev:?}");
        self.index_allocs += idx;
        if !ev.is_empty() {
            c.count("block boundaries crossed");
        }
    }
}

fn put<E: Elem>(c: &mut Ctx, d: &mut D<E>, st: &mut M, back: bool) {
    let (e, k) = mk::<E>(c);
    mem::ev_clear();
    if back {
        d.push_back(e);
        st.m.push_back(k);
    } else {
        d.push_front(e);
        st.m.push_front(k);
    }
    st.steps::<E>(c, if back { "push_back" } else { "push_front" });
}
fn take<E: Elem>(c: &mut Ctx, d: &mut D<E>, st: &mut M, back: bool) {
    mem::ev_clear();
    let before = raw::deque(d);
    let got = if back { d.pop_back() } else { d.pop_front() };
    let exp = if back { st.m.pop_back() } else { st.m.pop_front() };
    let what = if back { "pop_back" } else { "pop_front" };
    ensure_eq!(c, Kind::Func, got.as_ref().map(|e| e.get()), exp.map(|k| k.0), "{what} at length {}", st.m.len() + exp.is_some() as usize);
    ensure_eq!(c, Kind::Copy, got.as_ref().map(|e| e.ident()), exp.map(|k| k.1), "identity of the value from {what}");
    if exp.is_none() {
        ensure!(c, Kind::Reject, raw::deque(d) == before, "{what} of an empty deque changed it");
    }
    st.steps::<E>(c, what);
}

/// a deque as C++ would leave it in memory: blocks and index from the arena, index slots out of use
/// hold anything
fn image<E: Elem>(c: &mut Ctx) -> (D<E>, M) {
    let id = MonAlloc::fresh().arena();
    let mut st = M::new(id);
    let (b, s, al) = (blk::<E>(), std::mem::size_of::<E>(), std::mem::align_of::<E>());
    let n = *c.rng.pick(&[0, 1, b - 1, b, b + 1, 5 * b + 2]);
    let n = if c.rng.chance(1, 2) { c.rng.below(n + 1) } else { n };
    let off = *c.rng.pick(&[0, 0, 1, b / 2, b - 1]);
    // the end iterator always stands on a slot of an allocated block
    let used = (off + n) / b + 1;
    let (front, back) = (*c.rng.pick(&[0, 0, 1, 3, 9]), *c.rng.pick(&[0, 0, 1, 4, 8]));
    let len = (used + front + back).max(8);
    c.op("image", (n << 8 | off) as u64, (front << 8 | len) as u64);
    let ix = mem::mon_alloc(id, len * 8, 8) as usize;
    for i in 0..len {
        let w = if i >= front && i < front + used { mem::mon_alloc(id, b * s, al) as usize } else { *c.rng.pick(&[0usize, 0xEEEE_EEEE_EEEE_EEEE]) };
        unsafe { ((ix + 8 * i) as *mut mon::raw::Word).write_word(w) };
    }
    let slot = |i: usize| unsafe { raw::word(ix, 8 * (front + i / b)) + i % b * s };
    for i in 0..n {
        let (e, k) = mk::<E>(c);
        st.m.push_back(k);
        unsafe { std::ptr::write(slot(off + i) as *mut E, e) };
    }
    let it = |i: usize| {
        let a = ix + 8 * (front + i / b);
        let at = unsafe { raw::word(a, 0) };
        [slot(i), at, at + b * s, a]
    };
    st.peak = used.max(len.div_ceil(4));
    let (f, l) = (it(off), it(off + n));
    let w = [ix, len, f[0], f[1], f[2], f[3], l[0], l[1], l[2], l[3], id as usize].map(|x| x as *mut u8);
    ensure_eq!(c, Kind::Image, std::mem::size_of::<D<E>>(), 88, "size of a deque");
    c.count("images laid out by hand");
    (unsafe { std::ptr::read(w.as_ptr() as *const D<E>) }, st)
}

fn build<E: Elem>(c: &mut Ctx) -> (D<E>, M) {
    let pick = if c.prop == "C24" && c.rng.chance(1, 2) { 5 } else { c.rng.below(5) };
    match pick {
        5 => image(c),
        0 => {
            c.op("new", 0, 0);
            (D::new(), M::new(MonAlloc::current().arena()))
        }
        1 => {
            let n = c.rng.below(3 * blk::<E>());
            c.op("from_iter", n as u64, 0);
            let mut st = M::new(MonAlloc::current().arena());
            let v: Vec<E> = (0..n)
                .map(|_| {
                    let (e, k) = mk::<E>(c);
                    st.m.push_back(k);
                    e
                })
                .collect();
            let d: D<E> = src(&mut c.rng, v).collect();
            let got: Vec<u64> = d.iter().map(|e| e.get()).collect();
            let exp: Vec<u64> = st.m.iter().map(|k| k.0).collect();
            ensure_eq!(c, Kind::Copy, got, exp, "from_iter");
            (d, st)
        }
        2 => {
            c.op("default", 0, 0);
            (D::default(), M::new(MonAlloc::current().arena()))
        }
        _ => {
            let a = MonAlloc::fresh();
            let id = a.arena();
            c.op("new_in", 0, 0);
            (unsafe { D::new_in(a) }, M::new(id))
        }
    }
}

fn history<E: Elem>(c: &mut Ctx, phases: usize) {
    let (d, mut st) = build::<E>(c);
    let mut d = Lodge::new(d);
    st.check(c, &*d, Kind::Func, "construction");
    let b = blk::<E>();
    let limit = b * *c.rng.pick(&[2usize, 6, 20, 60]);
    for _ in 0..phases {
        // a phase leans one way for a while
        let steps = match c.rng.below(4) {
            0 => c.rng.below(6),
            1 => c.rng.below(2 * b),
            2 => b,
            _ => c.rng.below(6 * b + 1),
        };
        let lean = c.rng.below(12);
        c.op("phase", lean as u64, steps as u64);
        for _ in 0..steps {
            d.stir(c);
            let n = st.m.len();
            let o = match lean {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => 3,
                // queue forwards and backwards, stacks
                4 => [0, 3][c.rng.below(2)],
                5 => [1, 2][c.rng.below(2)],
                6 => [0, 2][c.rng.below(2)],
                7 => [1, 3][c.rng.below(2)],
                8 => [0, 1][c.rng.below(2)],
                9 => [2, 3][c.rng.below(2)],
                _ => c.rng.below(4),
            };
            let o = if n > limit && o < 2 { o + 2 } else { o };
            match o {
                0 => put(c, &mut *d, &mut st, true),
                1 => put(c, &mut *d, &mut st, false),
                2 => take(c, &mut *d, &mut st, true),
                _ => take(c, &mut *d, &mut st, false),
            }
            c.op("step", o as u64, n as u64);
            c.eff();
            st.check(c, &*d, Kind::Func, "a push or pop");
        }
        let n = st.m.len();
        match c.rng.below(10) {
            0 | 1 => {
                for _ in 0..c.rng.below(6) {
                    let n = st.m.len();
                    let i = if c.rng.chance(1, 6) { beyond(&mut c.rng, n, n + 2) } else { c.rng.index(n) };
                    c.op("remove", n as u64, i as u64);
                    let before = raw::deque(&*d);
                    let at = places(&*d);
                    mem::ev_clear();
                    let got = d.remove(i);
                    let exp = st.m.remove(i);
                    nearer(c, &*d, &at, i);
                    ensure_eq!(c, Kind::Func, got.as_ref().map(|e| e.get()), exp.map(|k| k.0), "remove({i}) at length {n}");
                    ensure_eq!(c, Kind::Copy, got.as_ref().map(|e| e.ident()), exp.map(|k| k.1), "identity of the removed value");
                    if exp.is_none() {
                        ensure!(c, Kind::Reject, raw::deque(&*d) == before, "remove({i}) past the end changed the deque");
                    }
                    st.steps::<E>(c, "remove");
                    st.check(c, &*d, Kind::Func, "remove");
                }
            }
            2 => {
                c.op("write", n as u64, 0);
                let (e, k) = mk::<E>(c);
                let (e2, k2) = mk::<E>(c);
                let (e3, k3) = mk::<E>(c);
                let f = d.front_mut();
                ensure_eq!(c, Kind::Func, f.is_some(), n > 0, "front_mut");
                if let Some(f) = f {
                    *f = e;
                    st.m[0] = k;
                    let bk = d.back_mut().unwrap();
                    ensure_eq!(c, Kind::Func, bk.get(), st.m[n - 1].0, "back_mut");
                    *bk = e2;
                    st.m[n - 1] = k2;
                    let i = c.rng.index(n);
                    if let Some(x) = d.iter_mut().nth(i) {
                        *x = e3;
                        st.m[i] = k3;
                    }
                }
                st.full(c, &*d, Kind::Func, "writes");
                c.eff();
            }
            3 => {
                c.op("move", n as u64, 0);
                let p = raw::deque(&*d);
                d.relocate(c);
                ensure!(c, Kind::Move, raw::deque(&*d) == p, "moving the deque changed its words");
                st.full(c, &*d, Kind::Move, "move");
            }
            4 => {
                c.op("format", n as u64, 0);
                if n < 150 && E::NAME != "string" {
                    let e = format!("[ {} ]", st.m.iter().map(|k| k.0.to_string()).collect::<Vec<_>>().join(", "));
                    ensure_eq!(c, Kind::Copy, format!("{d:?}"), e, "Debug output");
                }
            }
            5 => {
                c.op("drain", n as u64, 0);
                let back = c.rng.chance(1, 2);
                for _ in 0..n + 2 {
                    take(c, &mut *d, &mut st, back);
                    st.quick(c, &*d, Kind::Func, "draining");
                    st.storage(c, &*d, "draining");
                }
                c.eff();
            }
            6 => {
                c.op("into_iter", n as u64, 0);
                consume(c, d.take(), &st.m);
                let (d2, st2) = build::<E>(c);
                (d, st) = (Lodge::new(d2), st2);
                c.eff();
            }
            7 => compat(c, &mut *d, &mut st),
            _ => iters(c, &mut *d, &mut st),
        }
        st.check(c, &*d, Kind::Func, "a phase");
    }
    st.full(c, &*d, Kind::Func, "the history");
    if c.rng.chance(1, 2) {
        consume(c, d.take(), &st.m);
    } else {
        drop(d);
    }
    mem::check_all();
}

fn consume<E: Elem>(c: &mut Ctx, d: D<E>, m: &Model) {
    let mut it = Lodge::new(d.into_iter());
    let n = m.len();
    let (mut lo, mut hi) = (0, n);
    let quit = if c.rng.chance(1, 2) { c.rng.below(n + 1) } else { n + 3 };
    let mode = c.rng.below(3);
    for k in 0..n + 3 {
        if k == quit {
            break;
        }
        if c.rng.chance(1, 40) {
            it.relocate(c);
        }
        let h = it.size_hint();
        ensure!(c, Kind::Iter, h.0 <= hi - lo && h.1.is_none_or(|u| u >= hi - lo), "into_iter size hint {h:?} with {} left", hi - lo);
        let front = match mode {
            0 => true,
            1 => false,
            _ => c.rng.chance(1, 2),
        };
        let got = if front { it.next() } else { it.next_back() };
        let exp = if lo == hi {
            None
        } else if front {
            lo += 1;
            Some(m[lo - 1])
        } else {
            hi -= 1;
            Some(m[hi])
        };
        ensure_eq!(c, Kind::Iter, got.as_ref().map(|e| e.get()), exp.map(|k| k.0), "into_iter of {n} ({} left)", hi - lo);
        ensure_eq!(c, Kind::Copy, got.as_ref().map(|e| e.ident()), exp.map(|k| k.1), "identity of a consumed value");
    }
    drop(it);
    if E::TRACKED {
        for k in m.range(lo..hi) {
            ensure!(c, Kind::Drop, !is_live(k.1), "a value left in a dropped into_iter was not destroyed");
        }
    }
    c.sync();
}

fn iters<E: Elem>(c: &mut Ctx, d: &mut D<E>, st: &mut M) {
    let n = st.m.len();
    c.op("iterate", n as u64, 0);
    let exp: Vec<u64> = st.m.iter().map(|k| k.0).collect();
    drive_de(c, d.iter().map(|e| e.get()), &exp, Hint::Any, false, "deque iter");
    drive_de(c, d.iter_mut().map(|e| e.get()), &exp, Hint::Any, true, "deque iter_mut");
    // writes through a mutable iterator reach exactly what it yielded
    let (mut lo, mut hi) = (0, n);
    let mut it = d.iter_mut();
    while lo < hi {
        let front = c.rng.chance(1, 2);
        let i = if front { lo } else { hi - 1 };
        let Some(x) = (if front { it.next() } else { it.next_back() }) else {
            c.fail(Kind::Iter, format!("iter_mut ends with {} left", hi - lo))
        };
        ensure_eq!(c, Kind::Iter, x.get(), exp[i], "iter_mut element {i}");
        if c.rng.chance(1, 3) {
            let (e, k) = mk::<E>(c);
            *x = e;
            st.m[i] = k;
        }
        if front {
            lo += 1
        } else {
            hi -= 1
        }
    }
    ensure!(c, Kind::Iter, it.next().is_none() && it.next_back().is_none(), "iter_mut goes on after its end");
    let got: Vec<u64> = d.iter().map(|e| e.get()).collect();
    let exp: Vec<u64> = st.m.iter().map(|k| k.0).collect();
    ensure!(c, Kind::Iter, got == exp, "contents after writes through iter_mut: {got:?}, expected {exp:?}");
}

/// EASTL's stepping rule
fn eastl_walk<E: Elem>(c: &mut Ctx, mut f: RawDqIt, l: RawDqIt, max: usize) -> Vec<usize> {
    let s = std::mem::size_of::<E>();
    let n = blk::<E>();
    for (w, it) in [("begin", &f), ("end", &l)] {
        ensure!(
            c,
            Kind::Compat,
            unsafe { raw::word(it.arr, 0) } == it.begin && it.end == it.begin + n * s && it.cur >= it.begin && it.cur < it.end,
            "{w} of the pair is not a position in its block: {it:?}"
        );
    }
    let mut out = vec![];
    while f.cur != l.cur {
        out.push(f.cur);
        if out.len() > max {
            c.fail(Kind::Compat, format!("EASTL's stepping passes the end after {max} elements"));
        }
        f.cur += s;
        if f.cur == f.end {
            f.arr += 8;
            f.begin = unsafe { raw::word(f.arr, 0) };
            f.end = f.begin + n * s;
            f.cur = f.begin;
        }
    }
    out
}
fn words<X>(x: &X) -> RawDqIt {
    assert_eq!(std::mem::size_of::<X>(), 32, "harness: compat iterator size");
    unsafe { raw::dq_it(x as *const X as usize) }
}
/// position of element i (i == len: the end) in the layout
fn at<E: Elem>(d: &D<E>, i: usize) -> RawDqIt {
    let r = raw::deque(d);
    let s = std::mem::size_of::<E>();
    let b = blk::<E>();
    let off = (r.begin.cur - r.begin.begin) / s + i;
    let arr = r.begin.arr + off / b * 8;
    let begin = unsafe { raw::word(arr, 0) };
    RawDqIt { cur: begin + off % b * s, begin, end: begin + b * s, arr }
}

fn compat<E: Elem>(c: &mut Ctx, d: &mut D<E>, st: &mut M) {
    let n = st.m.len();
    let before = raw::deque(d);
    for round in 0..4 {
        let (mut lo, mut hi) = (0, n);
        let k = match round {
            0 => 0,
            1 => n,
            _ => c.rng.below(n + 1),
        };
        let mode = c.rng.below(3);
        let mut fronts = vec![];
        for _ in 0..k {
            let f = match mode {
                0 => true,
                1 => false,
                _ => c.rng.chance(1, 2),
            };
            fronts.push(f);
            if f {
                lo += 1
            } else {
                hi -= 1
            }
        }
        c.op("compat", lo as u64, hi as u64);
        let exp: Vec<u64> = st.m.range(lo..hi).map(|k| k.0).collect();
        let ends = (at(d, lo).cur, at(d, hi).cur);
        macro_rules! advance {
            ($it:ident) => {
                for &f in &fronts {
                    let x = if f { $it.next().is_some() } else { $it.next_back().is_some() };
                    ensure!(c, Kind::Iter, x, "iterator ended early");
                }
            };
        }
        macro_rules! verify {
            ($f:expr, $l:expr, $what:expr) => {{
                let got: Vec<u64> = eastl_walk::<E>(c, $f, $l, n).into_iter().map(|a| unsafe { (*(a as *const E)).get() }).collect();
                ensure!(c, Kind::Compat, got == exp, "{} after {} of {n} steps denotes {} elements {:?}.., expected {} {:?}..", $what, k, got.len(), got.first(), exp.len(), exp.first());
                ensure!(c, Kind::Compat, $f.cur == ends.0 && $l.cur == ends.1, "{}: ends of the pair are misplaced", $what);
            }};
        }
        {
            let mut it = d.iter();
            advance!(it);
            let (f, l) = it.into_compat();
            let (wf, wl) = (words(&f), words(&l));
            verify!(wf, wl, "Iter::into_compat");
            let it = unsafe { Iter::from_compat(f, l) };
            drive_compat(c, it.map(|e| e.get()), &exp, "Iter::from_compat(into_compat)");
        }
        {
            let mut it = d.iter_mut();
            advance!(it);
            let (f, l) = it.into_compat();
            let (wf, wl) = (words(&f), words(&l));
            verify!(wf, wl, "IterMut::into_compat");
        }
        {
            let mut it = d.iter_mut();
            advance!(it);
            let (f, l) = it.into_compat_mut();
            let (wf, wl) = (words(&f), words(&l));
            verify!(wf, wl, "IterMut::into_compat_mut");
            let (f2, l2): (CompatIter<E>, CompatIter<E>) = ((&f).into(), CompatIter::from(&l));
            ensure!(c, Kind::Compat, words(&f2) == wf && words(&l2) == wl, "CompatIter from a CompatIterMut differs");
            let it = unsafe { IterMut::from_compat(f, l) };
            drive_compat(c, it.map(|e| e.get()), &exp, "IterMut::from_compat(into_compat_mut)");
        }
        // pairs built by the rule
        {
            let (f, l) = (at(d, lo), at(d, hi));
            let mk = |w: RawDqIt| [w.cur, w.begin, w.end, w.arr];
            let (cf, cl): (CompatIter<'static, E>, CompatIter<'static, E>) =
                unsafe { (std::mem::transmute_copy(&mk(f)), std::mem::transmute_copy(&mk(l))) };
            let it = unsafe { Iter::from_compat(cf, cl) };
            drive_compat(c, it.map(|e| e.get()), &exp, "Iter::from_compat of a hand-made pair");
            let (cf, cl): (CompatIterMut<'static, E>, CompatIterMut<'static, E>) =
                unsafe { (std::mem::transmute_copy(&mk(f)), std::mem::transmute_copy(&mk(l))) };
            let ro: CompatIter<E> = cf.into();
            ensure!(c, Kind::Compat, words(&ro) == f, "CompatIter from a CompatIterMut differs");
            let cf: CompatIterMut<'static, E> = unsafe { std::mem::transmute_copy(&mk(f)) };
            let mut it = unsafe { IterMut::from_compat(cf, cl) };
            if lo < hi {
                let x = it.next().unwrap();
                let (e, k) = mk_::<E>(c);
                *x = e;
                st.m[lo] = k;
            }
        }
    }
    ensure!(c, Kind::Compat, raw::deque(d) == before, "converting iterators changed the deque");
    st.full(c, d, Kind::Compat, "iterator conversions");
    c.eff();
}
fn mk_<E: Elem>(c: &mut Ctx) -> (E, (u64, u32)) {
    mk::<E>(c)
}
fn drive_compat<I: DoubleEndedIterator<Item = u64>>(c: &mut Ctx, mut it: I, exp: &[u64], what: &str) {
    let (mut lo, mut hi) = (0, exp.len());
    while lo < hi {
        let front = c.rng.chance(1, 2);
        let g = if front { it.next() } else { it.next_back() };
        let e = if front { exp[lo] } else { exp[hi - 1] };
        ensure_eq!(c, Kind::Compat, g, Some(e), "{what}, {} left", hi - lo);
        if front {
            lo += 1
        } else {
            hi -= 1
        }
    }
    ensure!(c, Kind::Compat, it.next().is_none() && it.next_back().is_none(), "{what} goes on after its end");
    c.count("compat pairs driven");
}

macro_rules! types {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 13 {
            0 => $f::<Tok8>($($a),*),
            1 => $f::<Tok4>($($a),*),
            2 => $f::<Tok12>($($a),*),
            3 => $f::<Tok24>($($a),*),
            4 => $f::<Tok40>($($a),*),
            5 => $f::<u8>($($a),*),
            6 => $f::<u64>($($a),*),
            7 => $f::<TokA64>($($a),*),
            8 => $f::<u16>($($a),*),
            9 => $f::<Blob<5>>($($a),*),
            10 => $f::<Blob<9>>($($a),*),
            11 => $f::<Blob<17>>($($a),*),
            _ => $f::<Blob<33>>($($a),*),
        }
    };
}
fn r_history(c: &mut Ctx) {
    let k = c.index;
    let n = if cfg!(miri) { 3 } else { 26 };
    types!(k, history(c, n));
}

/// every length, every offset of the first element in its block, every removal index
fn sweep<E: Elem>(c: &mut Ctx, off: usize, all: bool) {
    let b = blk::<E>();
    let lens: Vec<usize> = if all { (0..=3 * b + 2).collect() } else { vec![0, 1, 2, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b] };
    for n in lens {
        let idx: Vec<usize> = if all || n < 4 {
            (0..=n).collect()
        } else {
            let mut v = vec![0, 1, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n];
            v.extend((0..n).filter(|i| (off + i) % b < 2 || (off + i) % b == b - 1));
            v.retain(|i| *i <= n);
            v
        };
        for i in idx {
            let mut d: D<E> = unsafe { D::new_in(MonAlloc::fresh()) };
            let mut st = M::new(unsafe { raw::u32_at(&d as *const _ as usize, 80) });
            for _ in 0..off {
                put(c, &mut d, &mut st, true);
            }
            // from the back or from the front: both directions of the ring of blocks
            let front = (n + i) % 2 == 1 && off > 0;
            for _ in 0..n {
                put(c, &mut d, &mut st, true);
            }
            if front {
                for _ in 0..off {
                    take(c, &mut d, &mut st, false);
                    put(c, &mut d, &mut st, false);
                }
            }
            for _ in 0..off {
                take(c, &mut d, &mut st, false);
            }
            st.full(c, &d, Kind::Func, "filling");
            c.op("sweep", (off << 16 | n) as u64, i as u64);
            let len = d.len();
            let at = places(&d);
            let got = d.remove(i);
            let exp = st.m.remove(i);
            nearer(c, &d, &at, i);
            ensure_eq!(c, Kind::Func, got.map(|e| e.get()), exp.map(|k| k.0), "remove({i}) of {n} at offset {off}");
            ensure_eq!(c, Kind::Func, d.len(), len - exp.is_some() as usize, "len after remove({i})");
            st.full(c, &d, Kind::Func, "remove");
            st.storage(c, &d, "remove");
            let cross = c.rng.chance(1, 2);
            put(c, &mut d, &mut st, cross);
            st.full(c, &d, Kind::Func, "push after remove");
        }
    }
    c.eff();
    c.eff();
}
/// where each element lies
fn places<E: Elem>(d: &D<E>) -> Vec<usize> {
    d.iter().map(|e| e as *const E as usize).collect()
}
/// a removal at `i` moved no element but those between it and the nearer end
fn nearer<E: Elem>(c: &mut Ctx, d: &D<E>, before: &[usize], i: usize) {
    let n = before.len();
    if std::mem::size_of::<E>() == 0 || i >= n {
        return;
    }
    let after = places(d);
    // the element that was at position k is now at k or k - 1
    let moved = (0..n).filter(|&k| k != i && after.get(if k < i { k } else { k - 1 }) != Some(&before[k])).count();
    ensure!(c, Kind::Steps, moved <= i.min(n - 1 - i), "removing position {i} of {n} moved {moved} elements");
    c.max("elements moved by a Deque removal", moved as u64);
    c.count("Deque removals whose moved elements were counted");
}
fn r_sweep(c: &mut Ctx) {
    let k = c.index as usize;
    match k {
        0..=3 => sweep::<Tok40>(c, k, true),
        4..=11 => sweep::<Tok24>(c, k - 4, true),
        12..=17 => sweep::<Tok12>(c, [0, 1, 7, 8, 14, 15][k - 12], k % 2 == 0),
        18..=23 => sweep::<Tok8>(c, [0, 1, 15, 16, 30, 31][k - 18], false),
        24..=29 => sweep::<u8>(c, [0, 1, 31, 32, 62, 63][k - 24], false),
        30..=33 => sweep::<Blob<33>>(c, k - 30, true),
        34..=41 => sweep::<Blob<17>>(c, k - 34, false),
        _ => sweep::<Blob<5>>(c, [0, 1, 2, 16, 29, 30, 31][k % 7], false),
    }
}

/// long monotone and oscillating workloads through many regrowths of the index
fn long<E: Elem>(c: &mut Ctx, how: usize, n: usize) {
    let mut d: D<E> = unsafe { D::new_in(MonAlloc::fresh()) };
    let mut st = M::new(unsafe { raw::u32_at(&d as *const _ as usize, 80) });
    c.op("long", how as u64, n as u64);
    let b = blk::<E>();
    let occ = b * c.rng.range(1, 6) + c.rng.below(b);
    let peak0 = c.rng.range(3, 40) * b;
    let mut pushes = 0u64;
    for i in 0..n {
        let len = st.m.len();
        let (push, back) = match how {
            0 => (true, true),
            1 => (true, false),
            2 => (true, i % 2 == 0),
            // queues at bounded occupancy, both ways
            3 => (len < occ || i % 2 == 0, len < occ || i % 2 == 0),
            4 => {
                let p = len < occ || i % 2 == 0;
                (p, !p)
            }
            // grow, shrink to nothing, grow at the other end
            5 => {
                let ph = i / peak0;
                (ph % 2 == 0, ph % 4 < 2)
            }
            6 => {
                let ph = i / peak0;
                (ph % 2 == 0, (ph / 2) % 2 == ph % 2)
            }
            // a slowly walking window
            7 => (i % 2 == 0, (i / 2) % 3 != 0),
            8 => (c.rng.chance(51, 100), c.rng.chance(1, 2)),
            _ => (i / 997 % 2 == 0 || len < 3, (i / 1999) % 2 == 0),
        };
        if push {
            put(c, &mut d, &mut st, back);
            pushes += 1;
        } else {
            take(c, &mut d, &mut st, back);
        }
        st.check_no += 1;
        if mem::live_count() < 64 || i % 64 == 0 {
            st.storage(c, &d, "a step of a long run");
        }
        if i % 1024 == 0 || i < 200 {
            st.full(c, &d, Kind::Func, "a long run");
        } else {
            st.quick(c, &d, Kind::Func, "a long run");
        }
    }
    st.full(c, &d, Kind::Func, "a long run");
    let bound = 2 * (64 - pushes.leading_zeros() as usize) + 4;
    ensure!(c, Kind::Steps, st.index_allocs <= bound, "{} index allocations over {pushes} pushes", st.index_allocs);
    c.max("max index allocations of one run", st.index_allocs as u64);
    c.max("max deque length", st.m.len() as u64);
    let back = c.rng.chance(1, 2);
    if how < 3 {
        // and take everything out again
        while !st.m.is_empty() {
            take(c, &mut d, &mut st, back);
            if st.m.len() % 512 < 3 {
                st.check_no = 0;
                st.storage(c, &d, "draining");
            }
        }
        ensure!(c, Kind::Func, d.is_empty() && d.pop_back().is_none() && d.pop_front().is_none(), "drained deque is not empty");
    }
    c.eff();
    c.eff();
}
fn r_long(c: &mut Ctx) {
    let how = (c.index % 10) as usize;
    match c.index / 10 % 5 {
        0 => long::<u64>(c, how, 30_000),
        1 => long::<Blob<33>>(c, how, 12_000),
        2 => long::<Tok24>(c, how, 12_000),
        3 => long::<u8>(c, how, 60_000),
        _ => long::<Tok12>(c, how, 20_000),
    }
}

/// Queue
fn queue<E: Elem>(c: &mut Ctx, steps: usize) {
    let (q, mut st): (Q<E>, M) = match c.rng.below(3) {
        0 => (Q::default(), M::new(MonAlloc::current().arena())),
        1 => {
            let n = c.rng.below(3 * blk::<E>());
            let mut st = M::new(MonAlloc::current().arena());
            let v: Vec<E> = (0..n)
                .map(|_| {
                    let (e, k) = mk::<E>(c);
                    st.m.push_back(k);
                    e
                })
                .collect();
            c.op("from_iter", n as u64, 0);
            (src(&mut c.rng, v).collect(), st)
        }
        _ => {
            let a = MonAlloc::fresh();
            let id = a.arena();
            (unsafe { Q::new_in(a) }, M::new(id))
        }
    };
    let mut q = Lodge::new(q);
    let check = |c: &mut Ctx, q: &Q<E>, st: &mut M, kind: Kind, what: &str| {
        let n = st.m.len();
        ensure_eq!(c, kind, (q.len(), q.is_empty()), (n, n == 0), "len, is_empty after {what}");
        ensure_eq!(c, kind, q.top().map(|e| e.get()), st.m.front().map(|k| k.0), "top after {what}");
        let d: &D<E> = unsafe { &*(q as *const Q<E> as *const D<E>) };
        st.storage(c, d, what);
        st.check_no += 1;
        if n < 60 || st.check_no % 20 == 0 {
            let got: Vec<u64> = q.iter().map(|e| e.get()).collect();
            let exp: Vec<u64> = st.m.iter().map(|k| k.0).collect();
            ensure!(c, kind, got == exp, "queue holds {got:?}, expected {exp:?} after {what}");
            c.count_n("elements compared", n as u64);
        }
        c.sync();
    };
    check(c, &*q, &mut st, Kind::Func, "construction");
    let occ = blk::<E>() * *c.rng.pick(&[0usize, 1, 2, 5]) + c.rng.below(5);
    for _ in 0..steps {
        q.stir(c);
        let n = st.m.len();
        let grow = if n < occ { 7 } else if n > occ + 20 { 1 } else { 4 };
        match c.rng.weighted(&[grow * 10, (8 - grow) * 10, 2, 2, 1, 1, 1]) {
            0 => {
                let (e, k) = mk::<E>(c);
                c.op("push", n as u64, 0);
                q.push(e);
                st.m.push_back(k);
                c.eff();
            }
            1 => {
                c.op("pop", n as u64, 0);
                let got = q.pop();
                let exp = st.m.pop_front();
                ensure_eq!(c, Kind::Func, got.as_ref().map(|e| (e.get(), e.ident())), exp, "pop at length {n}");
                c.eff();
            }
            2 => {
                c.op("iterate", n as u64, 0);
                let exp: Vec<u64> = st.m.iter().map(|k| k.0).collect();
                drive_de(c, q.iter().map(|e| e.get()), &exp, Hint::Any, false, "queue iter");
            }
            3 => {
                c.op("iter_mut", n as u64, 0);
                if n > 0 {
                    let i = c.rng.index(n);
                    let (e, k) = mk::<E>(c);
                    let mut it = q.iter_mut();
                    for _ in 0..i {
                        it.next();
                    }
                    match it.next() {
                        Some(x) => *x = e,
                        None => c.fail(Kind::Iter, "iter_mut ends early".into()),
                    }
                    st.m[i] = k;
                }
            }
            4 => {
                c.op("move", n as u64, 0);
                q.relocate(c);
                check(c, &*q, &mut st, Kind::Move, "move");
            }
            5 => {
                c.op("format", n as u64, 0);
                if n < 100 && E::NAME != "string" {
                    let e = format!("[ {} ]", st.m.iter().map(|k| k.0.to_string()).collect::<Vec<_>>().join(", "));
                    ensure_eq!(c, Kind::Copy, format!("{q:?}"), e, "Debug output");
                }
            }
            _ => {
                c.op("burst", n as u64, 0);
                let k = c.rng.below(3 * blk::<E>());
                for _ in 0..k {
                    let (e, k) = mk::<E>(c);
                    q.push(e);
                    st.m.push_back(k);
                }
                check(c, &*q, &mut st, Kind::Func, "burst");
                let k = c.rng.below(k + 2);
                for _ in 0..k {
                    let got = q.pop();
                    ensure_eq!(c, Kind::Func, got.as_ref().map(|e| (e.get(), e.ident())), st.m.pop_front(), "pop in a burst");
                }
                c.eff();
            }
        }
        check(c, &*q, &mut st, Kind::Func, "an operation");
    }
    match c.rng.below(4) {
        0 => {
            c.op("into_inner", 0, 0);
            let mut d = q.take().into_inner();
            st.full(c, &d, Kind::Func, "into_inner");
            put(c, &mut d, &mut st, false);
            take(c, &mut d, &mut st, true);
            st.full(c, &d, Kind::Func, "use of the inner deque");
            consume(c, d, &st.m);
        }
        1 => {
            c.op("into_iter", 0, 0);
            let exp: Vec<(u64, u32)> = st.m.iter().copied().collect();
            let stop = c.rng.chance(1, 2);
            drive_de(c, q.take().into_iter().map(|e| (e.get(), e.ident())), &exp, Hint::Any, stop, "queue into_iter");
        }
        2 => {
            while let Some(e) = q.pop() {
                ensure_eq!(c, Kind::Func, Some((e.get(), e.ident())), st.m.pop_front(), "drain");
            }
            ensure!(c, Kind::Func, st.m.is_empty(), "pop gave None with {} left", st.m.len());
        }
        _ => drop(q),
    }
    mem::check_all();
}
fn r_queue(c: &mut Ctx) {
    let k = c.index;
    let n = if cfg!(miri) { 40 } else { 400 };
    types!(k, queue(c, n));
}
/// a queue through millions of elements
fn r_stream(c: &mut Ctx) {
    let mut q: Q<u64> = Q::default();
    let key = c.rng.next();
    let (mut i, mut o) = (0u64, 0u64);
    let f = |x: u64| x.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ key;
    let total = if c.thorough { 5_000_000 } else { 400_000 };
    let mut target = 100;
    c.op("stream", total, c.index);
    while o < total {
        if o % 5003 == 0 {
            target = [0, 1, 31, 32, 33, 100, 1000, 5000][c.rng.below(8)];
        }
        if i - o <= target && i < total {
            q.push(f(i));
            i += 1;
        } else {
            let g = q.pop();
            if g != Some(f(o)) {
                c.fail(Kind::Func, format!("pop #{o} of a stream gives {g:?}, expected {}", f(o)));
            }
            o += 1;
        }
        if q.len() as u64 != i - o {
            c.fail(Kind::Func, format!("len {} with {i} pushed and {o} popped", q.len()));
        }
    }
    ensure!(c, Kind::Func, q.pop().is_none() && q.is_empty(), "stream left something behind");
    c.count_n("streamed elements", total);
    c.eff();
    c.eff();
}

/// compat conversions on their own
fn r_compat(c: &mut Ctx) {
    fn go<E: Elem>(c: &mut Ctx) {
        for _ in 0..6 {
            let (mut d, mut st) = build::<E>(c);
            let b = blk::<E>();
            let big = c.index % 60 == 13 && !cfg!(miri);
            let k = if big { *c.rng.pick(&[300, 1100, 5000, 70_000]) + c.rng.below(2 * b) } else { c.rng.below(4 * b) };
            let back = c.rng.chance(1, 2);
            for _ in 0..k {
                put(c, &mut d, &mut st, back);
            }
            c.max("max elements iterated", st.m.len() as u64);
            for _ in 0..c.rng.below(st.m.len() / (1 + 8 * big as usize) + 1) {
                let b = c.rng.chance(1, 2);
                take(c, &mut d, &mut st, b);
            }
            // exactly at block borders too
            if c.rng.chance(1, 2) {
                while !st.m.is_empty() && raw::deque(&d).end.cur != raw::deque(&d).end.begin {
                    take(c, &mut d, &mut st, true);
                }
            }
            if c.rng.chance(1, 2) {
                while !st.m.is_empty() && raw::deque(&d).begin.cur != raw::deque(&d).begin.begin {
                    take(c, &mut d, &mut st, false);
                }
            }
            compat(c, &mut d, &mut st);
        }
        c.eff();
    }
    let k = c.index;
    types!(k, go(c));
}
fn r_iter(c: &mut Ctx) {
    fn go<E: Elem>(c: &mut Ctx) {
        for _ in 0..6 {
            let (mut d, mut st) = build::<E>(c);
            let b = blk::<E>();
            for _ in 0..c.rng.below(4 * b) {
                let back = c.rng.chance(1, 2);
                put(c, &mut d, &mut st, back);
            }
            iters(c, &mut d, &mut st);
            consume(c, d, &st.m);
        }
        c.eff();
        c.eff();
    }
    let k = c.index;
    types!(k, go(c));
}

/// every element size: the number of elements to a block is a function of it alone
fn sizes<E: Elem>(c: &mut Ctx) {
    let b = blk::<E>();
    let s = std::mem::size_of::<E>();
    c.op("size", s as u64, b as u64);
    let mut d: D<E> = unsafe { D::new_in(MonAlloc::fresh()) };
    let mut st = M::new(unsafe { raw::u32_at(&d as *const _ as usize, 80) });
    let r = raw::deque(&d);
    ensure_eq!(c, Kind::Image, r.begin.end.wrapping_sub(r.begin.begin), b * s, "bytes to a block for elements of {s} bytes");
    st.full(c, &d, Kind::Func, "creation");
    let n = 2 * b + c.rng.below(b + 2);
    let front = c.rng.below(4);
    for _ in 0..n {
        let back = c.rng.below(3) >= front;
        put(c, &mut d, &mut st, back);
    }
    st.full(c, &d, Kind::Func, "filling");
    st.storage(c, &d, "filling");
    for _ in 0..c.rng.below(n) {
        let back = c.rng.chance(1, 2);
        take(c, &mut d, &mut st, back);
    }
    st.full(c, &d, Kind::Func, "popping");
    let i = c.rng.index(st.m.len() + 1);
    let got = d.remove(i).map(|e| e.get());
    ensure_eq!(c, Kind::Func, got, st.m.remove(i).map(|k| k.0), "remove({i})");
    st.full(c, &d, Kind::Func, "remove");
    compat(c, &mut d, &mut st);
    if c.prop == "C24" {
        let (mut d, mut st) = image::<E>(c);
        st.full(c, &d, Kind::Image, "laying out an image");
        while !st.m.is_empty() {
            let back = c.rng.chance(1, 2);
            take(c, &mut d, &mut st, back);
            if c.rng.chance(1, 3) {
                put(c, &mut d, &mut st, !back);
                take(c, &mut d, &mut st, !back);
            }
        }
        st.full(c, &d, Kind::Image, "emptying an image");
    }
    c.eff();
    c.eff();
}
fn r_sizes(c: &mut Ctx) {
    macro_rules! each {
        ($($n:literal)*) => {
            match [$($n),*][c.index as usize % [$($n),*].len()] {
                $($n => sizes::<Blob<$n>>(c),)*
                _ => unreachable!(),
            }
        };
    }
    each!(4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 40 47 48 49 63 64 65 96 127 128 129 200 255 256 257 512 1024)
}

static RIGS: &[Rig] = &[
    Rig { name: "deq_history", props: &["C03", "C04", "C17", "C18", "C19", "C24", "C25", "C26", "C27", "C28"], scale: rnd(260, 12_000), f: r_history },
    Rig { name: "deq_sweep", props: &["C03", "C04", "C17", "C18", "C25"], scale: fixed(49), f: r_sweep },
    Rig { name: "deq_sizes", props: &["C03", "C24", "C29"], scale: rnd(200, 4000), f: r_sizes },
    Rig { name: "deq_long", props: &["C03", "C04", "C25", "C18"], scale: rnd(50, 1000), f: r_long },
    Rig { name: "queue_history", props: &["C05", "C04", "C17", "C18", "C19", "C28"], scale: rnd(520, 20_000), f: r_queue },
    Rig { name: "queue_stream", props: &["C05"], scale: rnd(8, 40), f: r_stream },
    Rig { name: "deq_compat", props: &["C29"], scale: rnd(390, 20_000), f: r_compat },
    Rig { name: "deq_iter", props: &["C09"], scale: rnd(260, 13_000), f: r_iter },
];

fn main() {
    mon::engine::main(RIGS);
}
