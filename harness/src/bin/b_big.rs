//! Every container with many elements: what the histories of the other workloads, whose containers stay
//! small so that everything can be compared after every step, do not reach (counts past 2^8 and 2^16,
//! large inline storage, long walks).
#![cfg_attr(feature = "conformant", feature(generic_const_exprs), allow(incomplete_features))]
use eastl_rs::deque::Deque;
use eastl_rs::DefaultAllocator;
use eastl_rs::fixed_list::FixedList;
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::list::List;
use eastl_rs::queue::Queue;
use eastl_rs::vector::Vector;
use eastl_rs::vector_map::VectorMap;
use mon::engine::fixed;
use mon::tree::Home;
use mon::util::*;
use mon::*;
use moveit::New;
use std::collections::{BTreeMap, VecDeque};

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

type Id = (u64, u32);
fn mk<E: Elem>(c: &mut Ctx) -> (E, Id) {
    let e = E::mk(c.rng.next());
    let k = (e.get(), e.ident());
    (e, k)
}
fn id<E: Elem>(e: &E) -> Id {
    (e.get(), e.ident())
}
fn mks<E: Elem>(c: &mut Ctx, n: usize) -> (Vec<E>, Vec<Id>) {
    (0..n).map(|_| mk::<E>(c)).unzip()
}

const SIZES: &[usize] = &[130, 256, 300, 700, 1025, 4097, 33_000, 66_000];
fn size(c: &mut Ctx, kinds: usize) -> usize {
    let i = c.index as usize / kinds;
    let n = SIZES[i % SIZES.len()] + if i >= SIZES.len() { c.rng.below(SIZES[i % SIZES.len()] / 2) } else { 0 };
    c.max("max elements", n as u64);
    c.eff();
    c.eff();
    if cfg!(miri) {
        n.min(300)
    } else {
        n
    }
}

/// the same elements in the same order
fn same<'a, E: Elem>(c: &mut Ctx, kind: Kind, it: impl Iterator<Item = &'a E>, exp: impl ExactSizeIterator<Item = Id>, what: &str) {
    let n = exp.len();
    let mut exp = exp.enumerate();
    for e in it {
        match exp.next() {
            None => c.fail(kind, format!("{what}: more than {n} elements")),
            Some((i, x)) => ensure!(c, kind, id(e) == x, "{what}: element {i} of {n} is {:?}, expected {x:?}", id(e)),
        }
    }
    if let Some((i, _)) = exp.next() {
        c.fail(kind, format!("{what}: ends at {i} of {n}"));
    }
}
/// a copy of those, each cloned once (more than before) and itself new
fn copies<'a, E: Elem>(c: &mut Ctx, it: impl Iterator<Item = &'a E>, of: &[Id], times: u32, what: &str) {
    let mut n = 0;
    for e in it {
        if n >= of.len() {
            c.fail(Kind::Copy, format!("{what}: more than {} elements", of.len()));
        }
        ensure!(c, Kind::Copy, e.get() == of[n].0, "{what}: element {n} is {}, expected {}", e.get(), of[n].0);
        if E::TRACKED {
            ensure!(c, Kind::Copy, tok::origin_of(e.ident()) == of[n].1, "{what}: element {n} is not a clone of element {n}");
            ensure!(c, Kind::Copy, tok::clones_of(of[n].1) == times, "{what}: element {n} was cloned {} times, not {times}", tok::clones_of(of[n].1));
        }
        n += 1;
    }
    ensure_eq!(c, Kind::Copy, n, of.len(), "{what}: elements");
}
fn eat<E: Elem, I: Iterator<Item = E> + DoubleEndedIterator>(c: &mut Ctx, mut it: I, exp: &[Id], what: &str) {
    let stop = if c.rng.chance(1, 2) { c.rng.below(exp.len() + 1) } else { exp.len() + 1 };
    let (mut lo, mut hi) = (0, exp.len());
    for _ in 0..stop {
        let h = it.size_hint();
        ensure!(c, Kind::Iter, h.0 <= hi - lo && h.1.map_or(true, |u| u >= hi - lo), "{what}: size hint {h:?} with {} left", hi - lo);
        let front = c.rng.chance(1, 2);
        let x = if front { it.next() } else { it.next_back() };
        if lo == hi {
            ensure!(c, Kind::Iter, x.is_none(), "{what}: goes on after its end");
            break;
        }
        let want = exp[if front { lo } else { hi - 1 }];
        match x {
            None => c.fail(Kind::Iter, format!("{what}: ends {} early", hi - lo)),
            Some(x) => ensure!(c, Kind::Iter, id(&x) == want, "{what}: yields {:?}, expected {want:?}", id(&x)),
        }
        if front {
            lo += 1
        } else {
            hi -= 1
        }
    }
}
/// alive: exactly these
fn alive(c: &mut Ctx, n: usize, tracked: bool, what: &str) {
    if tracked {
        ensure_eq!(c, Kind::Drop, tok::live(), n, "{what}: values alive");
    }
}
fn settled(c: &mut Ctx, what: &str) {
    c.sync();
    ensure_eq!(c, Kind::Drop, tok::live(), 0, "{what}: values alive");
    ensure_eq!(c, Kind::Alloc, mem::live_count(), 0, "{what}: blocks outstanding");
}

// ---------------------------------------------------------------- vector

fn vector<E: Elem>(c: &mut Ctx) {
    let n = size(c, 3);
    c.op("vector", n as u64, 0);
    let (v, mut m) = mks::<E>(c, n);
    let x: Vector<E, MonAlloc> = if c.index % 2 == 0 {
        v.into_iter().collect()
    } else {
        let mut x = Vector::new_in(MonAlloc::fresh());
        v.into_iter().for_each(|e| x.push(e));
        x
    };
    let mut x = relocate(c, x);
    same(c, Kind::Func, x.iter(), m.iter().copied(), "vector after pushes");
    for _ in 0..30 {
        let i = c.rng.below(m.len() + 1);
        let (e, k) = mk::<E>(c);
        x.insert(i, e);
        m.insert(i, k);
        let i = c.rng.below(m.len());
        let got = x.remove(i).map(|e| id(&e));
        ensure_eq!(c, Kind::Func, got, Some(m.remove(i)), "remove({i}) of {}", m.len() + 1);
    }
    same(c, Kind::Func, x.iter(), m.iter().copied(), "vector after insertions and removals");
    alive(c, m.len(), E::TRACKED, "vector");
    let vals: Vec<u64> = m.iter().map(|k| k.0).collect();
    drive_de(c, x.iter().map(|e| e.get()), &vals, Hint::Exact, false, "vector iter");
    let y = x.clone();
    copies(c, y.iter(), &m, 1, "clone of a vector");
    ensure!(c, Kind::Copy, x.as_slice() == y.as_slice(), "clone differs");
    let k = c.rng.range(1, m.len() + 1);
    let mut z = Vector::<E, MonAlloc>::new_in(MonAlloc::fresh());
    z.append(&y[..k]);
    copies(c, z.iter(), &y[..k].iter().map(id).collect::<Vec<_>>(), 1, "append");
    z.assign(&y[k / 2..]);
    same(c, Kind::Func, x[k / 2..].iter(), m[k / 2..].iter().copied(), "source of an assign");
    let got: Vec<u64> = z.iter().map(|e| e.get()).collect();
    ensure!(c, Kind::Func, got == vals[k / 2..], "assign of {} elements", m.len() - k / 2);
    alive(c, 2 * m.len() + z.len(), E::TRACKED, "three vectors");
    drop(y);
    same(c, Kind::Copy, x.iter(), m.iter().copied(), "vector after its clone's end");
    let mut z = relocate(c, z);
    z.clear();
    let mut z = relocate(c, z);
    ensure!(c, Kind::Func, z.is_empty() && z.pop().is_none(), "cleared vector is not empty");
    drop(z);
    let mut x = relocate(c, x);
    if c.rng.chance(1, 2) {
        for _ in 0..m.len() / 2 {
            ensure_eq!(c, Kind::Func, x.pop().map(|e| id(&e)), m.pop(), "pop");
        }
        alive(c, m.len(), E::TRACKED, "vector after pops");
    }
    let it = relocate(c, x.into_iter());
    eat(c, it, &m, "vector into_iter");
    settled(c, "vector");
}

// ---------------------------------------------------------------- deque, queue

fn deque<E: Elem>(c: &mut Ctx) {
    let n = size(c, 3);
    c.op("deque", n as u64, 0);
    let mut m: VecDeque<Id> = VecDeque::new();
    let mut d: Deque<E, MonAlloc> = unsafe { Deque::new_in(MonAlloc::fresh()) };
    let lean = c.rng.below(5);
    for _ in 0..n {
        let (e, k) = mk::<E>(c);
        if c.rng.below(4) < lean {
            d.push_back(e);
            m.push_back(k);
        } else {
            d.push_front(e);
            m.push_front(k);
        }
    }
    let mut d = relocate(c, d);
    ensure_eq!(c, Kind::Func, d.len(), m.len(), "deque length");
    same(c, Kind::Func, d.iter(), m.iter().copied(), "deque after pushes");
    for _ in 0..10 {
        let i = c.rng.below(m.len());
        ensure_eq!(c, Kind::Func, d.remove(i).map(|e| id(&e)), m.remove(i), "remove({i}) of {}", m.len() + 1);
    }
    same(c, Kind::Func, d.iter(), m.iter().copied(), "deque after removals");
    let vals: Vec<u64> = m.iter().map(|k| k.0).collect();
    drive_de(c, d.iter().map(|e| e.get()), &vals, Hint::Any, false, "deque iter");
    drive_de(c, d.iter_mut().map(|e| e.get()), &vals, Hint::Any, false, "deque iter_mut");
    alive(c, m.len(), E::TRACKED, "deque");
    for _ in 0..m.len() / 3 {
        if c.rng.chance(1, 2) {
            ensure_eq!(c, Kind::Func, d.pop_back().map(|e| id(&e)), m.pop_back(), "pop_back");
        } else {
            ensure_eq!(c, Kind::Func, d.pop_front().map(|e| id(&e)), m.pop_front(), "pop_front");
        }
    }
    let d = relocate(c, d);
    ensure_eq!(c, Kind::Func, (d.front().map(id), d.back().map(id)), (m.front().copied(), m.back().copied()), "ends of the deque");
    let all: Vec<Id> = m.into_iter().collect();
    if c.rng.chance(1, 2) {
        let d2: Deque<E, MonAlloc> = d.into_iter().collect();
        same(c, Kind::Copy, d2.iter(), all.iter().copied(), "collected deque");
        alive(c, all.len(), E::TRACKED, "collected deque");
    } else {
        let it = relocate(c, d.into_iter());
        eat(c, it, &all, "deque into_iter");
    }
    settled(c, "deque");
}
fn queue<E: Elem>(c: &mut Ctx) {
    let n = size(c, 2);
    c.op("queue", n as u64, 0);
    let mut m: VecDeque<Id> = VecDeque::new();
    let mut q: Queue<E, MonAlloc> = unsafe { Queue::new_in(MonAlloc::fresh()) };
    for round in 0..3 {
        for _ in 0..n / 2 {
            let (e, k) = mk::<E>(c);
            q.push(e);
            m.push_back(k);
        }
        q = relocate(c, q);
        ensure_eq!(c, Kind::Func, q.len(), m.len(), "queue length");
        same(c, Kind::Func, q.iter(), m.iter().copied(), "queue after pushes");
        for _ in 0..n / (2 + round) {
            ensure_eq!(c, Kind::Func, q.top().map(id), m.front().copied(), "top");
            ensure_eq!(c, Kind::Func, q.pop().map(|e| id(&e)), m.pop_front(), "pop");
        }
    }
    alive(c, m.len(), E::TRACKED, "queue");
    let all: Vec<Id> = m.into_iter().collect();
    if c.rng.chance(1, 2) {
        same(c, Kind::Func, q.into_inner().iter(), all.iter().copied(), "into_inner");
    } else {
        let it = relocate(c, q.into_iter());
        eat(c, it, &all, "queue into_iter");
    }
    settled(c, "queue");
}

// ---------------------------------------------------------------- hash

fn hash_map<K: Elem, V: Elem>(c: &mut Ctx)
where
    eastl_rs::hash::DefaultHash<K>: eastl_rs::Hash<K>,
{
    let n = size(c, 2);
    tok::HASH_MODE.store([0, 3, 6, 5][c.rng.below(4)], std::sync::atomic::Ordering::Relaxed);
    c.op("hash_map", n as u64, 0);
    let mut m: BTreeMap<u64, (Id, Id)> = BTreeMap::new();
    let mut x: HashMap<K, V, MonAlloc> = HashMap::new();
    for i in 0..n as u64 {
        let k = K::mk(i * 3);
        let (v, vi) = mk::<V>(c);
        let ki = id(&k);
        let old = x.insert(k, v).map(|v| id(&v));
        let was = m.get(&ki.0).map(|o| o.1);
        ensure_eq!(c, Kind::Func, old, was, "insert of key {}", ki.0);
        m.entry(ki.0).and_modify(|o| o.1 = vi).or_insert((ki, vi));
    }
    let mut x = relocate(c, x);
    walk(c, &x, &m, "hash map after insertions");
    for _ in 0..400 {
        let i = c.rng.below(n + 5) as u64 * 3;
        let k = K::mk(i);
        let g = k.get();
        ensure_eq!(c, Kind::Func, x.get(&k).map(id), m.get(&g).map(|o| o.1), "get({g}) among {}", m.len());
        ensure!(c, Kind::Func, x.contains_key(&k) == m.contains_key(&g), "contains_key({g})");
        if let Some(v) = x.get_mut(&k) {
            let (e, vi) = mk::<V>(c);
            *v = e;
            m.get_mut(&g).unwrap().1 = vi;
        }
    }
    for (k, v) in x.iter_mut() {
        if c.rng.chance(1, 3) {
            let (e, vi) = mk::<V>(c);
            *v = e;
            if let Some(o) = m.get_mut(&k.get()) {
                o.1 = vi;
            }
        }
    }
    walk(c, &x, &m, "hash map after writes");
    let gone: Vec<u64> = m.keys().copied().filter(|_| c.rng.chance(1, 2)).collect();
    for g in gone {
        let o = m.remove(&g);
        if c.rng.chance(1, 2) {
            ensure_eq!(c, Kind::Func, x.remove(&K::mk(g)).map(|v| id(&v)), o.map(|o| o.1), "remove({g})");
        } else {
            ensure_eq!(c, Kind::Func, x.remove_entry(&K::mk(g)).map(|(k, v)| (id(&k), id(&v))), o, "remove_entry({g})");
        }
    }
    let mut x = relocate(c, x);
    walk(c, &x, &m, "hash map after removals");
    alive(c, m.len() * (K::TRACKED as usize + V::TRACKED as usize), K::TRACKED || V::TRACKED, "hash map");
    if c.rng.chance(1, 2) {
        x.clear();
        ensure!(c, Kind::Func, x.is_empty() && x.iter().next().is_none(), "cleared map is not empty");
        alive(c, 0, true, "cleared map");
        x.insert(K::mk(1), mk::<V>(c).0);
        ensure_eq!(c, Kind::Func, (x.len(), x.iter().count()), (1, 1), "map used again");
    }
    drop(x);
    settled(c, "hash map");
}
fn walk<K: Elem, V: Elem>(c: &mut Ctx, x: &HashMap<K, V, MonAlloc>, m: &BTreeMap<u64, (Id, Id)>, what: &str)
where
    eastl_rs::hash::DefaultHash<K>: eastl_rs::Hash<K>,
{
    ensure_eq!(c, Kind::Func, x.len(), m.len(), "{what}: length");
    let mut seen = std::collections::BTreeSet::new();
    for (k, v) in x.iter() {
        ensure!(c, Kind::Iter, m.get(&k.get()) == Some(&(id(k), id(v))), "{what}: yields {:?} {:?}, expected {:?}", id(k), id(v), m.get(&k.get()));
        ensure!(c, Kind::Iter, seen.insert(k.get()), "{what}: yields {} twice", k.get());
    }
    ensure_eq!(c, Kind::Iter, seen.len(), m.len(), "{what}: pairs yielded");
}
fn hash_set<K: Elem>(c: &mut Ctx)
where
    eastl_rs::hash::DefaultHash<K>: eastl_rs::Hash<K>,
{
    let n = size(c, 2);
    tok::HASH_MODE.store([0, 3, 6, 5][c.rng.below(4)], std::sync::atomic::Ordering::Relaxed);
    c.op("hash_set", n as u64, 0);
    let mut m: BTreeMap<u64, Id> = BTreeMap::new();
    let mut x: HashSet<K, MonAlloc> = HashSet::new();
    for i in 0..n as u64 {
        let k = K::mk(i * 5);
        let ki = id(&k);
        ensure_eq!(c, Kind::Func, x.insert(k), !m.contains_key(&ki.0), "insert of {}", ki.0);
        m.entry(ki.0).or_insert(ki);
    }
    for round in 0..2 {
        x = relocate(c, x);
        ensure_eq!(c, Kind::Func, x.len(), m.len(), "set size");
        let mut seen = std::collections::BTreeSet::new();
        for k in x.iter() {
            ensure!(c, Kind::Iter, m.get(&k.get()) == Some(&id(k)) && seen.insert(k.get()), "set yields {:?}", id(k));
        }
        ensure_eq!(c, Kind::Iter, seen.len(), m.len(), "keys yielded");
        for (&g, &o) in &m {
            let k = K::mk(g);
            ensure!(c, Kind::Func, x.get(&k).map(id) == Some(o) && x.contains_key(&k), "get({g})");
        }
        if round == 0 {
            let gone: Vec<u64> = m.keys().copied().filter(|_| c.rng.chance(1, 2)).collect();
            for g in gone {
                ensure_eq!(c, Kind::Func, x.remove(&K::mk(g)).map(|k| id(&k)), m.remove(&g), "remove({g})");
                ensure!(c, Kind::Func, x.remove(&K::mk(g)).is_none() && !x.contains_key(&K::mk(g)), "{g} removed twice");
            }
            alive(c, m.len(), K::TRACKED, "hash set");
        }
    }
    drop(x);
    settled(c, "hash set");
}

// ---------------------------------------------------------------- vector map

fn vmap<K: Elem, V: Elem>(c: &mut Ctx) {
    let n = size(c, 2);
    c.op("vmap", n as u64, 0);
    let mut m: BTreeMap<u64, (Id, Id)> = BTreeMap::new();
    let mut x: VectorMap<K, V, MonAlloc> = VectorMap::new();
    // mostly ascending: insertion in front moves everything behind
    for i in 0..n as u64 {
        let g = if n < 2000 { c.rng.below(n * 2) as u64 } else { i * 2 };
        let k = K::mk(g);
        let (v, vi) = mk::<V>(c);
        let ki = id(&k);
        let old = x.insert(k, v).map(|v| id(&v));
        ensure_eq!(c, Kind::Func, old, m.get(&ki.0).map(|o| o.1), "insert of key {}", ki.0);
        m.entry(ki.0).and_modify(|o| o.1 = vi).or_insert((ki, vi));
    }
    for round in 0..3 {
        x = relocate(c, x);
        ensure_eq!(c, Kind::Func, x.len(), m.len(), "map size");
        let got: Vec<(Id, Id)> = x.iter().map(|(k, v)| (id(k), id(v))).collect();
        let want: Vec<(Id, Id)> = m.values().copied().collect();
        ensure!(c, Kind::Func, got == want, "pairs of a map of {} (round {round})", m.len());
        for _ in 0..2000 {
            let g = K::mk(c.rng.below(2 * n + 4) as u64);
            ensure_eq!(c, Kind::Func, x.get(&g).map(id), m.get(&g.get()).map(|o| o.1), "get({}) among {}", g.get(), m.len());
        }
        for _ in 0..40 {
            let k = K::mk(c.rng.below(2 * n + 4) as u64);
            let g = k.get();
            if round == 0 {
                let ki = id(&k);
                let (v, vi) = mk::<V>(c);
                let old = x.insert(k, v).map(|v| id(&v));
                ensure_eq!(c, Kind::Func, old, m.get(&g).map(|o| o.1), "insert of key {g}");
                m.entry(g).and_modify(|o| o.1 = vi).or_insert((ki, vi));
            } else {
                ensure_eq!(c, Kind::Func, x.remove_entry(&k).map(|(k, v)| (id(&k), id(&v))), m.remove(&g), "remove_entry({g})");
            }
        }
    }
    alive(c, m.len() * (K::TRACKED as usize + V::TRACKED as usize), K::TRACKED || V::TRACKED, "vector map");
    drop(x);
    settled(c, "vector map");
}

// ---------------------------------------------------------------- lists

/// the ring of a list as C++ walks it: `n` nodes both ways round, each pointing back at the one before,
/// and the count it stores
fn ring(c: &mut Ctx, list: usize, n: usize, what: &str) {
    for (to, back) in [(0, 8), (8, 0)] {
        let (mut at, mut k) = (list, 0);
        loop {
            let next = unsafe { raw::word(at, to) };
            ensure!(c, Kind::Link, next != 0 && unsafe { raw::word(next, back) } == at, "{what}: node {k} of {n} is not linked from its neighbour");
            at = next;
            if at == list {
                break;
            }
            k += 1;
            ensure!(c, Kind::Link, k <= n, "{what}: more than {n} nodes");
        }
        ensure_eq!(c, Kind::Link, k, n, "{what}: nodes in the ring");
    }
    ensure_eq!(c, Kind::Link, unsafe { raw::u32_at(list, 16) } as usize, n, "{what}: stored size");
}
macro_rules! list_body {
    ($c:ident, $l:expr, $e:ty, $n:expr, $what:expr) => {{
        let (c, l, n) = (&mut *$c, $l, $n);
        let mut m: VecDeque<Id> = VecDeque::new();
        for round in 0..2 {
            for _ in 0..n {
                let (e, k) = mk::<$e>(c);
                if c.rng.chance(1, 2) {
                    l.push_back(e);
                    m.push_back(k);
                } else {
                    l.push_front(e);
                    m.push_front(k);
                }
            }
            ensure_eq!(c, Kind::Func, l.len() as usize, m.len(), "{}: length", $what);
            ring(c, &*l as *const _ as usize, m.len(), $what);
            same(c, Kind::Func, l.iter(), m.iter().copied(), concat!($what, " after pushes"));
            let vals: Vec<u64> = m.iter().map(|k| k.0).collect();
            drive_fw(c, l.iter().map(|e| e.get()), &vals, Hint::Exact, false, concat!($what, " iter"));
            drive_fw(c, l.iter_mut().map(|e| e.get()), &vals, Hint::Exact, false, concat!($what, " iter_mut"));
            ensure_eq!(c, Kind::Func, (l.front().map(id), l.back().map(id)), (m.front().copied(), m.back().copied()), "{}: ends", $what);
            for _ in 0..n / (1 + c.rng.below(3)) {
                if c.rng.chance(1, 2) {
                    ensure_eq!(c, Kind::Func, l.pop_back().map(|e| id(&e)), m.pop_back(), "{}: pop_back", $what);
                } else {
                    ensure_eq!(c, Kind::Func, l.pop_front().map(|e| id(&e)), m.pop_front(), "{}: pop_front", $what);
                }
            }
            ring(c, &*l as *const _ as usize, m.len(), $what);
            same(c, Kind::Func, l.iter(), m.iter().copied(), concat!($what, " after pops"));
            alive(c, m.len(), <$e>::TRACKED, $what);
            if round == 0 && c.rng.chance(1, 2) {
                l.clear();
                m.clear();
                ensure!(c, Kind::Func, l.is_empty() && l.iter().next().is_none() && l.front().is_none() && l.back().is_none(), "{}: not empty after clear", $what);
                alive(c, 0, true, $what);
            }
        }
        m.len()
    }};
}
fn list<E: Elem>(c: &mut Ctx) {
    let n = size(c, 3);
    c.op("list", n as u64, 0);
    let mut h: Home<List<E, MonAlloc>> = Home::raw();
    unsafe { List::<E, MonAlloc>::new_in(MonAlloc::fresh()).new(h.slot()) };
    list_body!(c, &mut *h, E, n, "list");
    drop(h);
    settled(c, "list");
}
/// inline nodes: while no more than N values are in it, it asks for nothing
fn fixed_list<E: Elem, const N: usize>(c: &mut Ctx) {
    c.op("fixed_list", N as u64, 0);
    c.max("max inline nodes", N as u64);
    c.eff();
    c.eff();
    let mut h: Home<FixedList<E, N, MonAlloc>> = Home::raw();
    let own = mem::live_count();
    unsafe { FixedList::<E, N, MonAlloc>::new_in(MonAlloc::fresh()).new(h.slot()) };
    let span = {
        let x = &*h as *const FixedList<E, N, MonAlloc> as usize;
        x..x + std::mem::size_of::<FixedList<E, N, MonAlloc>>()
    };
    for round in 0..3 {
        let mut at = std::collections::BTreeSet::new();
        for i in 0..N + 3 {
            let e = mk::<E>(c).0;
            if (i + round) % 2 == 0 {
                h.push_back(e)
            } else {
                h.push_front(e)
            }
            let p = if (i + round) % 2 == 0 { h.back() } else { h.front() }.unwrap() as *const E as usize;
            ensure!(c, Kind::Inline, at.insert(p), "element {i} shares a slot");
            ensure!(c, Kind::Inline, span.contains(&p) == (i < N), "element {i} of a list with {N} inline nodes is {} it", if i < N { "outside" } else { "inside" });
            ensure_eq!(c, Kind::Alloc, mem::live_count() - own, (i + 1).saturating_sub(N), "overflow blocks with {} of {N}", i + 1);
        }
        if round == 1 {
            h.clear();
        }
        while let Some(e) = if c.rng.chance(1, 2) { h.pop_back() } else { h.pop_front() } {
            drop(e);
        }
        ensure_eq!(c, Kind::Alloc, mem::live_count() - own, 0, "overflow blocks of an empty list");
    }
    list_body!(c, &mut **h, E, N + N / 2, "fixed list");
    drop(h);
    settled(c, "fixed list");
}
#[cfg(feature = "conformant")]
mod conf {
    use super::*;
    use eastl_rs::fixed_list::conformant::FixedList as C;
    macro_rules! conf {
        ($name:ident, $e:ty, $n:expr) => {
            pub fn $name(c: &mut Ctx) {
                c.op("conformant", $n, 0);
                c.max("max inline nodes", $n);
                c.eff();
                c.eff();
                let mut h: Home<C<$e, $n, MonAlloc>> = Home::raw();
                let own = mem::live_count();
                unsafe { C::<$e, $n, MonAlloc>::new_in(MonAlloc::fresh()).new(h.slot()) };
                for _ in 0..2 {
                    for i in 0..$n + 3usize {
                        h.push_back(mk::<$e>(c).0);
                        ensure_eq!(c, Kind::Alloc, mem::live_count() - own, (i + 1).saturating_sub($n), "overflow blocks with {} of {}", i + 1, $n);
                    }
                    while let Some(e) = if c.rng.chance(1, 2) { h.pop_back() } else { h.pop_front() } {
                        drop(e);
                    }
                }
                list_body!(c, &mut *h, $e, $n + $n / 2, "conformant fixed list");
                drop(h);
                settled(c, "conformant fixed list");
            }
        };
    }
    conf!(c300, Tok8, 300);
    conf!(c70k, u64, 66_000);
}

// ---------------------------------------------------------------- fixed vector

fn fixed_vector<E: Elem, const N: usize>(c: &mut Ctx) {
    c.op("fixed_vector", N as u64, 0);
    c.max("max inline elements", N as u64);
    c.eff();
    c.eff();
    let mut h: Home<FixedVector<E, N, MonAlloc>> = Home::raw();
    let own = mem::live_count();
    unsafe { FixedVector::<E, N, MonAlloc>::new_in(MonAlloc::fresh()).new(h.slot()) };
    let base = &*h as *const FixedVector<E, N, MonAlloc> as usize;
    let span = base..base + std::mem::size_of::<FixedVector<E, N, MonAlloc>>();
    ensure_eq!(c, Kind::Func, (h.max_size(), h.len(), h.has_overflowed()), (N, 0, false), "new fixed vector");
    let mut m = vec![];
    for i in 0..N {
        let (e, k) = mk::<E>(c);
        h.push(e);
        m.push(k);
        if i % 97 == 0 || i + 3 > N {
            ensure!(c, Kind::Inline, !h.has_overflowed() && span.contains(&(&h[i] as *const E as usize)), "element {i} of {N} is not inline");
        }
    }
    ensure_eq!(c, Kind::Alloc, mem::live_count() - own, 0, "blocks of a full fixed vector");
    same(c, Kind::Func, h.iter(), m.iter().copied(), "full fixed vector");
    for _ in 0..20 {
        let i = c.rng.below(m.len());
        ensure_eq!(c, Kind::Func, h.remove(i).map(|e| id(&e)), Some(m.remove(i)), "remove({i})");
        let i = c.rng.below(m.len() + 1);
        let (e, k) = mk::<E>(c);
        h.insert(i, e);
        m.insert(i, k);
        ensure!(c, Kind::Inline, !h.has_overflowed(), "overflowed with {} of {N}", m.len());
    }
    same(c, Kind::Func, h.iter(), m.iter().copied(), "shuffled fixed vector");
    for _ in 0..3 {
        let (e, k) = mk::<E>(c);
        h.push(e);
        m.push(k);
    }
    ensure!(c, Kind::Inline, h.has_overflowed() && !span.contains(&(&h[0] as *const E as usize)), "not overflowed with {} of {N}", m.len());
    ensure_eq!(c, Kind::Alloc, mem::live_count() - own, 1, "blocks of an overflowed fixed vector");
    same(c, Kind::Func, h.iter(), m.iter().copied(), "overflowed fixed vector");
    alive(c, m.len(), E::TRACKED, "fixed vector");
    while let Some(k) = m.pop() {
        ensure_eq!(c, Kind::Func, h.pop().map(|e| id(&e)), Some(k), "pop");
    }
    ensure!(c, Kind::Func, h.is_empty() && h.pop().is_none(), "not empty");
    drop(h);
    settled(c, "fixed vector");
}

fn r_vector(c: &mut Ctx) {
    match c.index % 3 {
        0 => vector::<Tok8>(c),
        1 => vector::<u16>(c),
        _ => vector::<Tok24>(c),
    }
}
fn r_deque(c: &mut Ctx) {
    match c.index % 3 {
        0 => deque::<Tok8>(c),
        1 => deque::<u8>(c),
        _ => deque::<Tok40>(c),
    }
}
fn r_queue(c: &mut Ctx) {
    match c.index % 2 {
        0 => queue::<Tok12>(c),
        _ => queue::<u32>(c),
    }
}
fn r_hash_map(c: &mut Ctx) {
    match c.index % 2 {
        0 => hash_map::<Tok8, Tok24>(c),
        _ => hash_map::<u32, u64>(c),
    }
}
fn r_hash_set(c: &mut Ctx) {
    match c.index % 2 {
        0 => hash_set::<Tok8>(c),
        _ => hash_set::<u64>(c),
    }
}
fn r_vmap(c: &mut Ctx) {
    match c.index % 2 {
        0 => vmap::<u32, Tok8>(c),
        _ => vmap::<Tok8, u8>(c),
    }
}
fn r_list(c: &mut Ctx) {
    match c.index % 3 {
        0 => list::<Tok8>(c),
        1 => list::<u8>(c),
        _ => list::<TokA16>(c),
    }
}
fn r_fixed_list(c: &mut Ctx) {
    match c.index % 8 {
        0 => fixed_list::<Tok8, 127>(c),
        1 => fixed_list::<u8, 128>(c),
        2 => fixed_list::<u64, 255>(c),
        3 => fixed_list::<Tok24, 256>(c),
        4 => fixed_list::<u16, 300>(c),
        5 => fixed_list::<TokA16, 1025>(c),
        6 if cfg!(miri) => fixed_list::<u8, 300>(c),
        6 => fixed_list::<u32, 66_000>(c),
        #[cfg(feature = "conformant")]
        _ if c.index / 8 % 2 == 0 || cfg!(miri) => conf::c300(c),
        #[cfg(feature = "conformant")]
        _ => conf::c70k(c),
        #[cfg(not(feature = "conformant"))]
        _ => fixed_list::<u128, 257>(c),
    }
}
fn r_fixed_vector(c: &mut Ctx) {
    match c.index % 8 {
        0 => fixed_vector::<Tok8, 127>(c),
        1 => fixed_vector::<u8, 128>(c),
        2 => fixed_vector::<u8, 255>(c),
        3 => fixed_vector::<Tok24, 256>(c),
        4 => fixed_vector::<u16, 300>(c),
        5 => fixed_vector::<Tok40, 1025>(c),
        6 => fixed_vector::<TokA16, 4097>(c),
        _ if cfg!(miri) => fixed_vector::<u8, 300>(c),
        _ => fixed_vector::<u32, 66_000>(c),
    }
}

/// CPU time of this thread, in ns
fn cpu() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
/// Many repetitions of an operation that must not depend on how many elements there are: walking,
/// scanning or moving all of them takes at least ten times what is allowed here, the operation itself a
/// hundredth of it.
fn flat<X>(c: &mut Ctx, x: &mut X, n: usize, what: &str, mut f: impl FnMut(&mut X)) {
    const ALLOWED: u64 = 25_000;
    let mut best = u64::MAX;
    f(x);
    for _ in 0..5 {
        let t = cpu();
        for _ in 0..200 {
            f(std::hint::black_box(x));
        }
        best = best.min((cpu() - t) / 200);
        if best < ALLOWED {
            break;
        }
    }
    c.op("flat", mon::rng::hash_str(what), 0);
    c.eff();
    c.count("operations timed on a big container");
    c.max("slowest of them, ns", best);
    ensure!(c, Kind::Steps, best < ALLOWED, "{what} takes {best} ns of CPU time with {n} elements: it depends on how many there are");
}
fn r_flat(c: &mut Ctx) {
    use std::hint::black_box as bb;
    macro_rules! t {
        ($x:ident, $n:expr, $name:literal: $($what:literal $body:expr),* $(,)?) => {
            $( flat(c, &mut $x, $n, concat!($name, ": ", $what), |$x| { bb($body); }); )*
        };
    }
    match c.index % 9 {
        0 => {
            let n = 1_000_000;
            let mut v: Vector<u64, DefaultAllocator> = (0..n as u64).collect();
            t!(v, n, "vector": "len" v.len(), "is_empty" v.is_empty(), "is_full" v.is_full(), "capacity" v.capacity(), "as_slice" v.as_slice().as_ptr(),
                "push and pop" { v.push(1); v.pop() }, "insert and remove at the end" { let l = v.len(); v.insert(l, 2); v.remove(l) },
                "append and pop" { v.append(&[1]); v.pop() }, "ends" (v.first().copied(), v.last().copied()), "iter" v.iter().next_back().copied(),
                "remove nothing" v.remove(n + 5), "reserve nothing" v.reserve(0));
            let mut it = v.into_iter();
            t!(it, n, "vector into_iter": "next" it.next(), "next_back" it.next_back(), "size_hint" it.size_hint());
        }
        1 => {
            let n = 1_000_000;
            let mut d: Deque<u64, DefaultAllocator> = (0..n as u64).collect();
            t!(d, n, "deque": "len" d.len(), "is_empty" d.is_empty(), "front" d.front().copied(), "back" d.back().copied(),
                "front_mut" d.front_mut().map(|x| *x += 1), "back_mut" d.back_mut().map(|x| *x += 1),
                "push_back and pop_back" { d.push_back(1); d.pop_back() }, "push_front and pop_front" { d.push_front(1); d.pop_front() },
                "push_back and pop_front" { d.push_back(1); d.pop_front() }, "push_front and pop_back" { d.push_front(1); d.pop_back() },
                "iter" { let mut i = d.iter(); (i.next().copied(), i.next_back().copied()) }, "iter_mut" { let mut i = d.iter_mut(); (i.next().copied(), i.next_back().copied()) },
                "pop_back" d.pop_back(), "pop_front" d.pop_front());
            let mut it = d.into_iter();
            t!(it, n, "deque into_iter": "next" it.next(), "next_back" it.next_back());
        }
        2 => {
            let n = 1_000_000;
            let mut q: Queue<u64, DefaultAllocator> = (0..n as u64).collect();
            t!(q, n, "queue": "len" q.len(), "is_empty" q.is_empty(), "top" q.top().copied(), "push and pop" { q.push(1); q.pop() }, "pop" q.pop(),
                "iter" q.iter().next().copied(), "iter_mut" q.iter_mut().next().copied());
        }
        3 => {
            let n = 300_000;
            let mut h: Home<List<u64, DefaultAllocator>> = Home::raw();
            unsafe { List::<u64, DefaultAllocator>::new().new(h.slot()) };
            let mut l = &mut *h;
            for i in 0..n as u64 {
                l.push_back(i);
            }
            t!(l, n, "list": "len" l.len(), "is_empty" l.is_empty(), "front" l.front().copied(), "back" l.back().copied(),
                "front_mut" l.front_mut().map(|x| *x += 1), "back_mut" l.back_mut().map(|x| *x += 1),
                "push_back and pop_back" { l.push_back(1); l.pop_back() }, "push_front and pop_front" { l.push_front(1); l.pop_front() },
                "push_back and pop_front" { l.push_back(1); l.pop_front() }, "push_front and pop_back" { l.push_front(1); l.pop_back() },
                "iter" l.iter().next().copied(), "iter_mut" l.iter_mut().next().copied());
        }
        4 => {
            const N: usize = 66_000;
            let n = 300_000;
            let mut h: Home<FixedList<u64, N, DefaultAllocator>> = Home::raw();
            unsafe { FixedList::<u64, N, DefaultAllocator>::new_in(DefaultAllocator::default()).new(h.slot()) };
            {
                let mut l = &mut **h;
                for i in 0..n as u64 {
                    l.push_back(i);
                }
                t!(l, n, "fixed list": "len" l.len(), "is_empty" l.is_empty(), "front" l.front().copied(), "back" l.back().copied(),
                    "push_back and pop_back" { l.push_back(1); l.pop_back() }, "push_front and pop_front" { l.push_front(1); l.pop_front() },
                    "push_back and pop_front" { l.push_back(1); l.pop_front() }, "push_front and pop_back" { l.push_front(1); l.pop_back() });
                for _ in 0..60_000 {
                    l.pop_front();
                }
                t!(l, n, "fixed list with freed slots": "push_back and pop_front" { l.push_back(1); l.pop_front() }, "push_front and pop_back" { l.push_front(1); l.pop_back() },
                    "push_front and pop_front" { l.push_front(1); l.pop_front() });
            }
        }
        5 => {
            let n = 200_000;
            let mut m: HashMap<u64, u64, DefaultAllocator> = (0..n as u64).map(|i| (i, i)).collect();
            let mut k = 0;
            let mut next = || { k = (k + 77_777) % n as u64; k };
            t!(m, n, "hash map": "len" m.len(), "is_empty" m.is_empty(), "get" m.get(&next()).copied(), "get of nothing" m.get(&(n as u64 + next())).copied(),
                "get_mut" m.get_mut(&next()).copied(), "contains_key" m.contains_key(&next()), "insert again" m.insert(next(), 3),
                "entry of a key" { *m.entry(next()).or_insert(4) }, "remove and insert" { let k = next(); (m.remove(&k), m.insert(k, 5)) },
                "remove nothing" m.remove(&(n as u64 * 2 + next())), "remove_entry" { let k = next(); let e = m.remove_entry(&k); m.insert(k, 6); e });
        }
        6 => {
            let n = 200_000;
            let mut m: HashSet<u64, DefaultAllocator> = (0..n as u64).collect();
            let mut k = 0;
            let mut next = || { k = (k + 77_777) % n as u64; k };
            t!(m, n, "hash set": "len" m.len(), "is_empty" m.is_empty(), "contains" m.contains_key(&next()), "insert again" m.insert(next()),
                "contains nothing" m.contains_key(&(n as u64 + next())), "remove and insert" { let k = next(); (m.remove(&k), m.insert(k)) });
        }
        7 => {
            let n = 500_000;
            let mut m: VectorMap<u64, u64, DefaultAllocator> = VectorMap::with_capacity(n + 8);
            for i in 0..n as u64 {
                m.insert(i, i);
            }
            let mut k = 0;
            let mut next = || { k = (k + 77_777) % n as u64; k };
            t!(m, n, "vector map": "len" m.len(), "is_empty" m.is_empty(), "capacity" m.capacity(), "get" m.get(&next()).copied(), "get of nothing" m.get(&(n as u64 + next())).copied(),
                "get_mut" m.get_mut(&next()).copied(), "contains_key" m.contains_key(&next()), "insert again" m.insert(next(), 3),
                "entry of a key" { matches!(m.entry(next()), eastl_rs::vector_map::Entry::Occupied(_)) }, "a new greatest key and its removal" { m.insert(n as u64, 1); m.remove(&(n as u64)) },
                "remove nothing" m.remove(&(n as u64 * 2)), "iter" m.iter().next_back().copied());
        }
        _ => {
            let n = 8_000_000;
            let mut s = eastl_rs::DefaultString::from("abcdefgh".repeat(n / 8).as_str());
            s.reserve(100);
            t!(s, n, "string": "len" s.len(), "is_empty" s.is_empty(), "is_full" s.is_full(), "capacity" s.capacity(), "as_bytes" s.as_bytes().as_ptr(),
                "push and pop" { s.push('\u{20ac}'); s.pop() }, "insert and remove at the end" { let l = s.len(); s.insert(l, 'x'); s.remove(l) },
                "remove nothing" s.remove(n * 2), "reserve nothing" bb(()));
        }
    }
}

const S: u64 = SIZES.len() as u64;
static RIGS: &[Rig] = &[
    Rig { name: "big_vector", props: &["C28", "C01", "C09", "C17", "C18", "C19", "C26"], scale: rep(3 * S), f: r_vector },
    Rig { name: "big_deque", props: &["C28", "C03", "C09", "C17", "C18", "C19", "C26"], scale: rep(3 * S), f: r_deque },
    Rig { name: "big_queue", props: &["C28", "C05", "C17", "C18", "C19"], scale: rep(2 * S), f: r_queue },
    Rig { name: "big_hash_map", props: &["C28", "C06", "C09", "C17", "C18", "C19"], scale: rep(2 * S), f: r_hash_map },
    Rig { name: "big_hash_set", props: &["C28", "C07", "C09", "C17", "C18", "C19"], scale: rep(2 * S), f: r_hash_set },
    Rig { name: "big_vector_map", props: &["C28", "C10", "C17", "C18", "C19"], scale: rep(2 * S), f: r_vmap },
    Rig { name: "big_list", props: &["C13", "C24", "C09", "C17", "C18", "C19"], scale: rep(3 * S), f: r_list },
    Rig { name: "big_fixed_list", props: &["C14", "C24", "C09", "C17", "C18", "C19"], scale: rep(16), f: r_fixed_list },
    Rig { name: "big_fixed_vector", props: &["C15", "C17", "C18", "C19"], scale: rep(8), f: r_fixed_vector },
    Rig { name: "flat", props: &["C25"], scale: engine::Scale { quick: 9, thorough: 9, fixed: true }, f: r_flat },
];
const fn rep(n: u64) -> engine::Scale {
    engine::Scale { quick: n, thorough: n * 12, fixed: true }
}

fn main() {
    let _ = fixed;
    mon::engine::main(RIGS);
}
