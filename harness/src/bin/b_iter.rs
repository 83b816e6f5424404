//! Every method of the containers' own iterators, not only `next` and `next_back`: whatever an iterator
//! overrides (`nth`, `count`, `last`, `fold`, ...) has to agree with stepping.
use eastl_rs::deque::Deque;
use eastl_rs::fixed_list::FixedList;
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::list::List;
use eastl_rs::map::Map;
use eastl_rs::queue::Queue;
use eastl_rs::set::Set;
use eastl_rs::vector::Vector;
use mon::engine::rnd;
use mon::tree::*;
use mon::*;
use moveit::New;
use std::collections::VecDeque;

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

type Id = (u64, u32);
fn mk<E: Elem>(c: &mut Ctx) -> (E, Id) {
    let e = E::mk(c.rng.next());
    let k = (e.get(), e.ident());
    (e, k)
}
fn id<E: Elem>(e: &E) -> Id {
    (e.get(), e.ident())
}
fn size(c: &mut Ctx) -> usize {
    let n = match c.rng.below(10) {
        0 => c.rng.below(3),
        1..=4 => c.rng.below(20),
        5..=7 => c.rng.below(80),
        _ => c.rng.below(300),
    };
    if cfg!(miri) {
        n.min(40)
    } else {
        n
    }
}

/// What only some iterators can do.
struct Also<I: Iterator> {
    next_back: Option<fn(&mut I) -> Option<I::Item>>,
    nth_back: Option<fn(&mut I, usize) -> Option<I::Item>>,
    rfind: Option<fn(&mut I, &mut dyn FnMut(&I::Item) -> bool) -> Option<I::Item>>,
    rfold: Option<fn(I, &mut dyn FnMut(I::Item))>,
    rev: Option<fn(I, &mut dyn FnMut(I::Item))>,
    /// through a compatibility pair and back
    rebuild: Option<fn(I) -> I>,
    clone: Option<fn(&I) -> I>,
    exact: bool,
}
impl<I: Iterator> Also<I> {
    fn forward() -> Self {
        Also { next_back: None, nth_back: None, rfind: None, rfold: None, rev: None, rebuild: None, clone: None, exact: false }
    }
    fn both() -> Self
    where
        I: DoubleEndedIterator,
    {
        Also {
            next_back: Some(|i| i.next_back()),
            nth_back: Some(|i, n| i.nth_back(n)),
            rfind: Some(|i, f| i.rfind(|x| f(x))),
            rfold: Some(|i, f| i.rfold((), |_, x| f(x))),
            rev: Some(|i, f| {
                for x in i.rev() {
                    f(x)
                }
            }),
            ..Self::forward()
        }
    }
    fn exact(mut self) -> Self {
        self.exact = true;
        self
    }
}

/// Take an iterator of `n` elements through a random script. `see` is told which element each one has
/// to be; elements skipped are passed to nobody.
fn script<I: Iterator>(c: &mut Ctx, mut it: I, n: usize, also: Also<I>, see: &mut dyn FnMut(&mut Ctx, usize, I::Item, &str), what: &str) {
    let (mut lo, mut hi) = (0usize, n);
    let compat = matches!(c.prop, "C29" | "C19");
    let kind = if c.prop == "C29" { Kind::Compat } else { Kind::Iter };
    let lazy = c.rng.chance(1, 2);
    let steps = if lazy { c.rng.below(12) } else { c.rng.below(n + 8) };
    macro_rules! expect {
        ($got:expr, $i:expr, $how:expr) => {{
            let (got, how): (Option<I::Item>, &str) = ($got, $how);
            let i: Option<usize> = $i;
            match (got, i) {
                (None, None) => {}
                (Some(x), Some(i)) => see(c, i, x, &format!("{what}: {how} of {n} elements ({lo}..{hi} left)")),
                (None, Some(i)) => c.fail(kind, format!("{what}: {how} ends with {lo}..{hi} of {n} left, not at element {i}")),
                (Some(_), None) => c.fail(kind, format!("{what}: {how} goes on past the end of {n} elements")),
            }
        }};
    }
    for _ in 0..steps {
        let left = hi - lo;
        let h = it.size_hint();
        ensure!(c, kind, h.0 <= left && h.1.map_or(true, |u| u >= left), "{what}: size hint {h:?} with {left} left");
        if also.exact {
            ensure_eq!(c, kind, h, (left, Some(left)), "{what}: size hint");
        }
        // short jumps, jumps over most of it, jumps to the very end and past it
        let k = match c.rng.below(8) {
            0..=3 => c.rng.below(4),
            4 => c.rng.below(left + 1),
            5 => left,
            6 => left.saturating_sub(1),
            _ => c.rng.below(70),
        };
        match c.rng.below(12) {
            0 | 1 => {
                c.op("next", lo as u64, hi as u64);
                let i = (lo < hi).then_some(lo);
                let x = it.next();
                expect!(x, i, "next");
                lo += i.is_some() as usize;
            }
            2 | 3 => {
                c.op("nth", k as u64, left as u64);
                let i = (k < left).then_some(lo + k);
                let x = it.nth(k);
                expect!(x, i, &format!("nth({k})"));
                lo = i.map_or(hi, |i| i + 1);
            }
            4 if also.next_back.is_some() => {
                c.op("next_back", lo as u64, hi as u64);
                let i = (lo < hi).then(|| hi - 1);
                let x = also.next_back.unwrap()(&mut it);
                expect!(x, i, "next_back");
                hi -= i.is_some() as usize;
            }
            5 if also.nth_back.is_some() => {
                c.op("nth_back", k as u64, left as u64);
                let i = (k < left).then(|| hi - 1 - k);
                let x = also.nth_back.unwrap()(&mut it, k);
                expect!(x, i, &format!("nth_back({k})"));
                hi = i.unwrap_or(lo);
            }
            6 => {
                // stops at the k-th from here
                c.op("find", k as u64, left as u64);
                let (mut j, i) = (0, (k < left).then_some(lo + k));
                let x = it.find(|_| {
                    j += 1;
                    j > k
                });
                expect!(x, i, &format!("find of the next but {k}"));
                lo = i.map_or(hi, |i| i + 1);
            }
            7 if also.rfind.is_some() => {
                c.op("rfind", k as u64, left as u64);
                let (mut j, i) = (0, (k < left).then(|| hi - 1 - k));
                let x = also.rfind.unwrap()(&mut it, &mut |_| {
                    j += 1;
                    j > k
                });
                expect!(x, i, &format!("rfind of the last but {k}"));
                hi = i.unwrap_or(lo);
            }
            8 => {
                c.op("by_ref take", k as u64, left as u64);
                let mut seen = 0;
                for x in it.by_ref().take(k) {
                    ensure!(c, kind, lo < hi, "{what}: take({k}) goes on past the end of {n} elements");
                    see(c, lo, x, &format!("{what}: take({k})"));
                    lo += 1;
                    seen += 1;
                }
                ensure_eq!(c, kind, seen, k.min(left), "{what}: elements of take({k}) with {left} left");
            }
            9 => {
                c.op("any/all/position", k as u64, left as u64);
                let mut j = 0;
                let mut f = |_: I::Item| {
                    j += 1;
                    j > k
                };
                let (got, exp) = match c.rng.below(4) {
                    0 => (it.any(f) as usize, (k < left) as usize),
                    1 => (it.all(|x| !f(x)) as usize, (k >= left) as usize),
                    2 => (it.position(f).map_or(usize::MAX, |i| i), if k < left { k } else { usize::MAX }),
                    _ => (it.try_fold(0usize, |a, x| if f(x) { Err(a) } else { Ok(a + 1) }).unwrap_or_else(|a| a), k.min(left)),
                };
                ensure_eq!(c, kind, got, exp, "{what}: any, all, position or try_fold up to the next but {k} with {left} left");
                lo = if k < left { lo + k + 1 } else { hi };
            }
            10 if also.clone.is_some() => {
                c.op("clone", lo as u64, hi as u64);
                let twin = also.clone.unwrap()(&it);
                let mut i = lo;
                for x in twin {
                    ensure!(c, kind, i < hi, "{what}: a cloned iterator goes on past the end of {n} elements");
                    see(c, i, x, &format!("{what}: a cloned iterator"));
                    i += 1;
                }
                ensure_eq!(c, kind, i, hi, "{what}: where a cloned iterator ends");
            }
            _ if also.rebuild.is_some() && compat => {
                c.op("compat and back", lo as u64, hi as u64);
                it = also.rebuild.unwrap()(it);
            }
            _ => {}
        }
    }
    c.eff();
    c.eff();
    // one way or another to the end, or not at all
    let left = hi - lo;
    let how = c.rng.below(16);
    c.op("finish", how as u64, left as u64);
    c.count("scripts finished");
    c.max("max elements", n as u64);
    let mut i = lo;
    macro_rules! each {
        ($c:expr, $x:expr, $what:expr) => {{
            let w: &str = $what;
            if i >= hi {
                $c.fail(kind, format!("{w} goes on past the end of {n} elements"));
            }
            see($c, i, $x, w);
            i += 1;
        }};
    }
    match how {
        0 => drop(it),
        1 => ensure_eq!(c, kind, it.count(), left, "{what}: count"),
        2 => expect!(it.last(), (lo < hi).then(|| hi - 1), "last"),
        3 => {
            let w = format!("{what}: fold");
            it.fold((), |_, x| each!(c, x, &w));
            ensure_eq!(c, kind, i, hi, "{what}: where fold ends");
        }
        4 => {
            let w = format!("{what}: for_each");
            it.for_each(|x| each!(c, x, &w));
            ensure_eq!(c, kind, i, hi, "{what}: where for_each ends");
        }
        5 => {
            let all: std::vec::Vec<I::Item> = it.collect();
            ensure_eq!(c, kind, all.len(), left, "{what}: elements collected");
            for x in all {
                each!(c, x, &format!("{what}: collect"));
            }
        }
        6 | 7 => {
            let most = if c.rng.chance(1, 2) { 5 } else { 70 };
            let by = 1 + c.rng.below(most);
            let mut j = lo;
            for x in it.step_by(by) {
                ensure!(c, kind, j < hi, "{what}: step_by({by}) goes on past the end of {n} elements");
                see(c, j, x, &format!("{what}: step_by({by})"));
                j += by;
            }
            ensure!(c, kind, j >= hi, "{what}: step_by({by}) ends at {j} of {hi}");
        }
        8 | 9 => {
            let by = c.rng.below(left + 3);
            let mut j = lo + by.min(left);
            for x in it.skip(by) {
                ensure!(c, kind, j < hi, "{what}: skip({by}) goes on past the end of {n} elements");
                see(c, j, x, &format!("{what}: skip({by})"));
                j += 1;
            }
            ensure_eq!(c, kind, j, hi, "{what}: where skip({by}) ends");
        }
        10 if also.rfold.is_some() => {
            let mut j = hi;
            also.rfold.unwrap()(it, &mut |x| {
                if j == lo {
                    c.fail(kind, format!("{what}: rfold goes on past the start of {n} elements"));
                }
                j -= 1;
                see(c, j, x, &format!("{what}: rfold"));
            });
            ensure_eq!(c, kind, j, lo, "{what}: where rfold ends");
        }
        11 if also.rev.is_some() => {
            let mut j = hi;
            also.rev.unwrap()(it, &mut |x| {
                if j == lo {
                    c.fail(kind, format!("{what}: rev goes on past the start of {n} elements"));
                }
                j -= 1;
                see(c, j, x, &format!("{what}: rev"));
            });
            ensure_eq!(c, kind, j, lo, "{what}: where rev ends");
        }
        12 => {
            let mut p = it.peekable();
            let some = p.peek().is_some();
            ensure_eq!(c, kind, some, left > 0, "{what}: peek sees something");
            for x in p {
                each!(c, x, &format!("{what}: peekable"));
            }
            ensure_eq!(c, kind, i, hi, "{what}: where peekable ends");
        }
        13 => {
            // no more than all of it, and then nothing
            while let Some(x) = it.next() {
                each!(c, x, &format!("{what}: next to the end"));
            }
            ensure_eq!(c, kind, i, hi, "{what}: where next ends");
            for k in 0..5 {
                let x = match c.rng.below(3) {
                    0 => it.nth(k),
                    1 if also.nth_back.is_some() => also.nth_back.unwrap()(&mut it, k),
                    _ => it.next(),
                };
                ensure!(c, kind, x.is_none(), "{what}: goes on after None");
            }
            let h = it.size_hint();
            ensure!(c, kind, h.0 == 0, "{what}: size hint {h:?} at the end");
        }
        14 => {
            let (a, b): (std::vec::Vec<(usize, I::Item)>, std::vec::Vec<(usize, I::Item)>) = it.enumerate().partition(|(i, _)| i % 2 == 0);
            ensure_eq!(c, kind, (a.len(), b.len()), ((left + 1) / 2, left / 2), "{what}: sizes of a partition");
            for (i, x) in a.into_iter().chain(b) {
                see(c, lo + i, x, &format!("{what}: partition"));
            }
        }
        _ => {
            let mut other = 0..usize::MAX;
            for (k, x) in other.by_ref().zip(it) {
                ensure!(c, kind, lo + k < hi, "{what}: zip goes on past the end of {n} elements");
                see(c, lo + k, x, &format!("{what}: zip"));
            }
        }
    }
}

fn reads<'a, E: Elem>(kind: Kind, exp: &'a [Id]) -> impl FnMut(&mut Ctx, usize, &E, &str) + 'a {
    move |c, i, x, what| ensure!(c, kind, id(x) == exp[i], "{what}: gives {:?}, element {i} is {:?}", id(x), exp[i])
}
fn kind(c: &Ctx) -> Kind {
    if c.prop == "C29" {
        Kind::Compat
    } else {
        Kind::Iter
    }
}
/// through a shared iterator
macro_rules! shared {
    ($c:expr, $it:expr, $m:expr, $also:expr, $what:expr) => {{
        let mut r = reads(kind($c), $m);
        script($c, $it, $m.len(), $also, &mut |c, i, x, w| r(c, i, x, w), $what)
    }};
}
/// through a mutable one, writing some of what is seen
macro_rules! mutable {
    ($c:expr, $it:expr, $m:expr, $also:expr, $what:expr) => {{
        let k = kind($c);
        let n = $m.len();
        let m = &mut *$m;
        script(
            $c,
            $it,
            n,
            $also,
            &mut |c, i, x, w| {
                ensure!(c, k, id(x) == m[i], "{w}: gives {:?}, element {i} is {:?}", id(x), m[i]);
                if c.rng.chance(1, 2) {
                    let (e, kk) = mk(c);
                    *x = e;
                    m[i] = kk;
                }
            },
            $what,
        )
    }};
}
/// consuming: what comes out is gone, and so is the rest at the end
macro_rules! owned {
    ($c:expr, $it:expr, $m:expr, $also:expr, $what:expr) => {{
        let k = kind($c);
        let m: &[Id] = $m;
        script($c, $it, m.len(), $also, &mut |c, i, x, w| ensure!(c, k, id(&x) == m[i], "{w}: gives {:?}, element {i} is {:?}", id(&x), m[i]), $what)
    }};
}
fn settled(c: &mut Ctx, base: usize, what: &str) {
    c.sync();
    ensure_eq!(c, Kind::Drop, tok::live(), 0, "{what}: values alive");
    ensure_eq!(c, Kind::Alloc, mem::live_count(), base, "{what}: blocks outstanding");
}

fn vector<E: Elem>(c: &mut Ctx) {
    let n = size(c);
    let mut x = Vector::<E, MonAlloc>::new_in(MonAlloc::fresh());
    if c.rng.chance(1, 3) {
        x.reserve(n + c.rng.below(5));
    }
    let mut m = Vec::new();
    for _ in 0..n {
        let (e, k) = mk::<E>(c);
        x.push(e);
        m.push(k);
    }
    shared!(c, x.iter(), &m, Also::both().exact(), "vector iter");
    mutable!(c, x.iter_mut(), &mut m, Also::both().exact(), "vector iter_mut");
    let mut it = x.into_iter();
    ensure!(c, kind(c), it.as_slice().iter().map(id).eq(m.iter().copied()), "slice of vector into_iter");
    ensure!(c, kind(c), it.as_slice_mut().iter().map(|x| id(x)).eq(m.iter().copied()), "mutable slice of vector into_iter");
    ensure_eq!(c, Kind::Func, (it.len(), it.is_empty()), (m.len(), m.is_empty()), "length of into_iter");
    owned!(c, it, &m, Also::both(), "vector into_iter");
    settled(c, 0, "vector into_iter");
}

fn fill<E: Elem>(c: &mut Ctx, d: &mut Deque<E, MonAlloc>) -> VecDeque<Id> {
    // start anywhere in a block, and in the index
    let mut m = VecDeque::new();
    for _ in 0..c.rng.below(90) {
        d.push_back(E::mk(0));
        if c.rng.chance(4, 5) {
            d.pop_front();
        }
    }
    while d.pop_front().is_some() {}
    let lean = c.rng.below(5);
    for _ in 0..size(c) {
        let (e, k) = mk::<E>(c);
        if c.rng.below(4) < lean {
            d.push_back(e);
            m.push_back(k);
        } else {
            d.push_front(e);
            m.push_front(k);
        }
    }
    // as many as fill blocks exactly, now and then
    let per = match std::mem::size_of::<E>() {
        0..=4 => 64,
        5..=8 => 32,
        9..=16 => 16,
        17..=32 => 8,
        _ => 4,
    };
    if c.rng.chance(1, 2) {
        while m.len() % per != 0 {
            d.pop_back();
            m.pop_back();
        }
    }
    m
}
type DI<'a, E> = eastl_rs::deque::iter::Iter<'a, E>;
type DM<'a, E> = eastl_rs::deque::iter::IterMut<'a, E>;
fn deque<E: Elem>(c: &mut Ctx) {
    let mut d: Deque<E, MonAlloc> = unsafe { Deque::new_in(MonAlloc::fresh()) };
    let mut m: Vec<Id> = fill(c, &mut d).into();
    ensure_eq!(c, Kind::Func, d.len(), m.len(), "deque length");
    {
        fn re<E: Elem>(i: DI<'_, E>) -> DI<'_, E> {
            let (b, e) = i.into_compat();
            unsafe { DI::from_compat(b, e) }
        }
        let also = Also { rebuild: Some(re::<E>), ..Also::both() };
        shared!(c, d.iter(), &m, also, "deque iter");
    }
    {
        fn re<E: Elem>(i: DM<'_, E>) -> DM<'_, E> {
            let (b, e) = i.into_compat_mut();
            unsafe { DM::from_compat(b, e) }
        }
        let also = Also { rebuild: Some(re::<E>), ..Also::both() };
        mutable!(c, d.iter_mut(), &mut m, also, "deque iter_mut");
    }
    shared!(c, d.iter(), &m, Also::both(), "deque iter");
    owned!(c, d.into_iter(), &m, Also::both(), "deque into_iter");
    settled(c, 0, "deque into_iter");
}
fn queue<E: Elem>(c: &mut Ctx) {
    let mut q: Queue<E, MonAlloc> = unsafe { Queue::new_in(MonAlloc::fresh()) };
    let mut m: VecDeque<Id> = VecDeque::new();
    for _ in 0..size(c) {
        let (e, k) = mk::<E>(c);
        q.push(e);
        m.push_back(k);
        if c.rng.chance(1, 4) {
            q.pop();
            m.pop_front();
        }
    }
    let mut m: Vec<Id> = m.into();
    shared!(c, q.iter(), &m, Also::both(), "queue iter");
    mutable!(c, q.iter_mut(), &mut m, Also::both(), "queue iter_mut");
    owned!(c, q.into_iter(), &m, Also::both(), "queue into_iter");
    settled(c, 0, "queue into_iter");
}

fn walk_list<E: Elem, A: eastl_rs::Allocator>(c: &mut Ctx, l: &mut List<E, A>, what: &str) {
    let mut m = Vec::new();
    for _ in 0..size(c) {
        let (e, k) = mk::<E>(c);
        if c.rng.chance(3, 4) {
            l.push_back(e);
            m.push(k);
        } else {
            l.push_front(e);
            m.insert(0, k);
        }
        if c.rng.chance(1, 6) {
            l.pop_front();
            m.remove(0);
        }
    }
    shared!(c, l.iter(), &m, Also::forward().exact(), what);
    mutable!(c, l.iter_mut(), &mut m, Also::forward().exact(), what);
    shared!(c, l.iter(), &m, Also::forward().exact(), what);
}
fn list<E: Elem>(c: &mut Ctx) {
    {
        let mut l: Home<List<E, MonAlloc>> = Home::raw();
        unsafe { List::new_in(MonAlloc::fresh()).new(l.slot()) };
        walk_list(c, &mut *l, "list iterator");
    }
    {
        let mut l: Home<FixedList<E, 8, MonAlloc>> = Home::raw();
        unsafe { FixedList::new_in(MonAlloc::fresh()).new(l.slot()) };
        walk_list(c, &mut **l, "fixed list iterator");
    }
    settled(c, 0, "lists");
}

type HI<'a, K, V> = eastl_rs::hash_map::iter::Iter<'a, K, V>;
type HM<'a, K, V> = eastl_rs::hash_map::iter::IterMut<'a, K, V>;
type HS<'a, K> = eastl_rs::hash_set::iter::Iter<'a, K>;
fn hash<K: Elem, V: Elem>(c: &mut Ctx)
where
    eastl_rs::hash::DefaultHash<K>: eastl_rs::Hash<K>,
{
    tok::HASH_MODE.store(c.rng.below(7) as u32, std::sync::atomic::Ordering::Relaxed);
    let mut x: HashMap<K, V, MonAlloc> = unsafe { HashMap::new_in(MonAlloc::fresh()) };
    let mut s: HashSet<K, MonAlloc> = unsafe { HashSet::new_in(MonAlloc::fresh()) };
    let n = size(c).min(120);
    for _ in 0..n {
        let v = c.rng.below(2 * n) as u64;
        if c.rng.chance(1, 5) {
            x.remove(&K::mk(v));
            s.remove(&K::mk(v));
        } else {
            x.insert(K::mk(v), V::mk(c.rng.next()));
            s.insert(K::mk(v));
        }
    }
    // the order is the table's own: that of a plain walk, whose elements the histories compare
    let ks: Vec<Id> = x.iter().map(|(k, _)| id(k)).collect();
    let mut vs: Vec<Id> = x.iter().map(|(_, v)| id(v)).collect();
    let ss: Vec<Id> = s.iter().map(id).collect();
    ensure_eq!(c, Kind::Iter, (ks.len(), ss.len()), (x.len(), s.len()), "pairs and keys yielded");
    let k = kind(c);
    {
        fn re<'a, K: Elem, V: Elem>(i: HI<'a, K, V>) -> HI<'a, K, V> {
            let (b, e) = i.into_compat();
            unsafe { HI::from_compat(b, e) }
        }
        let also = Also { rebuild: Some(re::<K, V>), clone: Some(|i: &HI<K, V>| i.clone()), ..Also::forward() };
        script(c, x.iter(), ks.len(), also, &mut |c, i, (a, b), w| ensure!(c, k, (id(a), id(b)) == (ks[i], vs[i]), "{w}: gives {:?} {:?}, pair {i} is {:?} {:?}", id(a), id(b), ks[i], vs[i]), "hash map iter");
    }
    {
        fn re<'a, K: Elem, V: Elem>(i: HM<'a, K, V>) -> HM<'a, K, V> {
            let (b, e) = i.into_compat();
            unsafe { HM::from_compat(b, e) }
        }
        let also = Also { rebuild: Some(re::<K, V>), ..Also::forward() };
        let vs = &mut vs;
        script(
            c,
            x.iter_mut(),
            ks.len(),
            also,
            &mut |c, i, (a, b), w| {
                ensure!(c, k, (id(a), id(b)) == (ks[i], vs[i]), "{w}: gives {:?} {:?}, pair {i} is {:?} {:?}", id(a), id(b), ks[i], vs[i]);
                if c.rng.chance(1, 2) {
                    let (e, kk) = mk(c);
                    *b = e;
                    vs[i] = kk;
                }
            },
            "hash map iter_mut",
        );
    }
    ensure!(c, Kind::Iter, x.iter().map(|(_, v)| id(v)).eq(vs.iter().copied()), "values after writing through iter_mut");
    {
        fn re<K: Elem>(i: HS<'_, K>) -> HS<'_, K> {
            let (b, e) = i.into_compat();
            unsafe { HS::from_compat(b, e) }
        }
        let also = Also { rebuild: Some(re::<K>), ..Also::forward() };
        shared!(c, s.iter(), &ss, also, "hash set iter");
    }
    drop(x);
    drop(s);
    settled(c, 0, "hash containers");
}

fn tree<K: Elem, V: Elem>(c: &mut Ctx) {
    use eastl_rs::compare::Less;
    let n = size(c);
    let ks: Vec<u64> = (0..n as u64).map(|i| i * 2 + 1).collect();
    let shape = random_shape(&mut c.rng, n);
    let k = kind(c);
    macro_rules! map {
        ($t:expr, $m:expr, $what:expr) => {{
            let (t, m): (_, &[N]) = ($t, $m);
            let mut vs: Vec<Id> = m.iter().map(|n| (n.v, n.vid)).collect();
            let kid: Vec<Id> = m.iter().map(|n| (n.k, n.kid)).collect();
            for round in 0..2 {
                let see: &mut dyn FnMut(&mut Ctx, usize, (&K, &V), &str) =
                    &mut |c, i, (a, b), w| ensure!(c, k, (id(a), id(b)) == (kid[i], vs[i]), "{w}: gives {:?} {:?}, pair {i} is {:?} {:?}", id(a), id(b), kid[i], vs[i]);
                script(c, unsafe { t.iter() }, n, Also::forward(), see, $what);
                if round == 0 {
                    let vs = &mut vs;
                    script(
                        c,
                        unsafe { t.iter_mut() },
                        n,
                        Also::forward(),
                        &mut |c, i, (a, b): (&K, &mut V), w| {
                            ensure!(c, k, (id(a), id(b)) == (kid[i], vs[i]), "{w}: gives {:?} {:?}, pair {i} is {:?} {:?}", id(a), id(b), kid[i], vs[i]);
                            if c.rng.chance(1, 2) {
                                let (e, kk) = mk(c);
                                *b = e;
                                vs[i] = kk;
                            }
                        },
                        $what,
                    );
                }
            }
        }};
    }
    let pairs = |c: &mut Ctx| ks.iter().map(|&v| (K::mk(v), V::mk(c.rng.next()))).collect::<Vec<_>>();
    {
        let a = MonAlloc::fresh();
        let arena = a.arena();
        let mut t: Home<Map<K, V, MonAlloc, Less<K>>> = Home::new(Map::with_allocator(a));
        let p = pairs(c);
        let m = plant(t.base(), &shape, p, &mut Heap(arena), c.rng.chance(1, 2));
        map!(&mut *t, &m, "map iterator");
    }
    {
        let a = MonAlloc::fresh();
        let arena = a.arena();
        let t: Home<Set<K, MonAlloc, Less<K>>> = Home::new(Set::with_allocator(a));
        let p: Vec<(K, Unit)> = ks.iter().map(|&v| (K::mk(v), Unit)).collect();
        let m: Vec<Id> = plant(t.base(), &shape, p, &mut Heap(arena), c.rng.chance(1, 2)).iter().map(|n| (n.k, n.kid)).collect();
        shared!(c, unsafe { t.iter() }, &m, Also::forward(), "set iterator");
    }
    settled(c, 0, "trees");
}

macro_rules! rig {
    ($f:ident, $g:ident: $($t:ty),*) => {
        fn $f(c: &mut Ctx) {
            let f = [$($g::<$t>),*];
            f[c.index as usize % f.len()](c)
        }
    };
}
rig!(r_vector, vector: Tok8, u8, u64, Tok24, TokA16, Tok40, u16);
rig!(r_deque, deque: Tok8, u64, u8, Tok24, u32, Tok40, Tok12, u16);
rig!(r_queue, queue: Tok8, u64, u8, Tok24, u32, Tok40, Tok12, u16);
rig!(r_list, list: Tok8, u64, u8, Tok24, TokA16, Tok40);
fn r_hash(c: &mut Ctx) {
    let f = [hash::<Tok8, Tok8>, hash::<u64, Tok24>, hash::<Tok24, u8>, hash::<u32, u64>, hash::<Tok40, TokA16>];
    f[c.index as usize % f.len()](c)
}
fn r_tree(c: &mut Ctx) {
    let f = [tree::<Tok8, Tok8>, tree::<u64, Tok24>, tree::<Tok24, u8>, tree::<u32, u64>, tree::<Tok40, TokA16>];
    f[c.index as usize % f.len()](c)
}

static RIGS: &[Rig] = &[
    Rig { name: "iter_vector", props: &["C01", "C09", "C17", "C19"], scale: rnd(600, 30_000), f: r_vector },
    Rig { name: "iter_deque", props: &["C03", "C09", "C17", "C19", "C29"], scale: rnd(600, 30_000), f: r_deque },
    Rig { name: "iter_queue", props: &["C05", "C09", "C17", "C19"], scale: rnd(400, 20_000), f: r_queue },
    Rig { name: "iter_list", props: &["C09", "C13", "C14", "C19"], scale: rnd(400, 20_000), f: r_list },
    Rig { name: "iter_hash", props: &["C09", "C19", "C29"], scale: rnd(500, 20_000), f: r_hash },
    Rig { name: "iter_tree", props: &["C09", "C16", "C19"], scale: rnd(400, 20_000), f: r_tree },
];

fn main() {
    mon::engine::main(RIGS);
}
