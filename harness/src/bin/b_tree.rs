//! Map, Set and the fixed maps, over red-black trees laid out by hand as C++ would leave them.
use eastl_rs::compare::{Compare, Greater, Less};
use eastl_rs::fixed_map::{FixedMap, FixedMapWithOverflow};
use eastl_rs::map::Map;
use eastl_rs::set::Set;
use mon::engine::{fixed, rnd};
use mon::rng::{self, Rng};
use mon::tree::*;
use mon::*;
use moveit::New;
use std::collections::BTreeMap;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

/// Comparators. The order is a strict total one on values; calls are counted.
static CALLS: AtomicU64 = AtomicU64::new(0);
trait Ord2 {
    /// rank of a value
    fn rank(v: u64) -> u64;
    /// values this far apart are never equivalent
    const STEP: u64 = 1;
    /// equivalent under the order
    fn same(a: u64, b: u64) -> bool {
        Self::rank(a) == Self::rank(b)
    }
}
struct Asc;
struct Desc;
struct Bits;
/// equivalence is coarser than equality: four values each
struct Coarse;
impl Ord2 for Coarse {
    fn rank(v: u64) -> u64 {
        v / 4
    }
    const STEP: u64 = 4;
}
impl Ord2 for Asc {
    fn rank(v: u64) -> u64 {
        v
    }
}
impl Ord2 for Desc {
    fn rank(v: u64) -> u64 {
        !v
    }
}
impl Ord2 for Bits {
    fn rank(v: u64) -> u64 {
        v.reverse_bits()
    }
}
#[repr(C)]
struct Cmp<O> {
    pad: u8,
    o: std::marker::PhantomData<O>,
}
impl<O> Default for Cmp<O> {
    fn default() -> Self {
        Cmp { pad: 0, o: std::marker::PhantomData }
    }
}
impl<K: Elem, O: Ord2> Compare<K> for Cmp<O> {
    fn compare(l: &K, r: &K) -> bool {
        CALLS.fetch_add(1, Relaxed);
        tok::callback(tok::Cb::Cmp);
        O::rank(l.get()) < O::rank(r.get())
    }
}

/// What Map and Set have in common.
trait Tree<K: Elem, V: Elem> {
    fn has(&self, k: &K) -> bool;
    /// value, and where it lies
    fn find(&self, k: &K) -> Option<(u64, usize)>;
    fn set(&mut self, k: &K, v: V) -> bool;
    fn count(&self) -> (usize, bool);
    fn items(&self) -> Box<dyn Iterator<Item = (&K, Option<&V>)> + '_>;
    fn items_mut(&mut self) -> Option<Box<dyn Iterator<Item = (&K, &mut V)> + '_>>;
    fn wipe(&mut self);
    fn show(&self) -> Option<String>;
}
impl<K: Elem, V: Elem, C: Compare<K>, A: eastl_rs::Allocator> Tree<K, V> for Map<K, V, A, C> {
    fn has(&self, k: &K) -> bool {
        self.contains_key(k)
    }
    fn find(&self, k: &K) -> Option<(u64, usize)> {
        self.get(k).map(|v| (v.get(), v as *const V as usize))
    }
    fn set(&mut self, k: &K, v: V) -> bool {
        self.get_mut(k).map(|x| *x = v).is_some()
    }
    fn count(&self) -> (usize, bool) {
        (self.len(), self.is_empty())
    }
    fn items(&self) -> Box<dyn Iterator<Item = (&K, Option<&V>)> + '_> {
        Box::new(unsafe { self.iter() }.map(|(k, v)| (k, Some(v))))
    }
    fn items_mut(&mut self) -> Option<Box<dyn Iterator<Item = (&K, &mut V)> + '_>> {
        Some(Box::new(unsafe { self.iter_mut() }))
    }
    fn wipe(&mut self) {
        self.clear()
    }
    fn show(&self) -> Option<String> {
        Some(format!("{self:?}"))
    }
}

/// `V` of a set's nodes: nothing.
struct SetOf<K: Elem, C: Compare<K>>(Set<K, MonAlloc, C>);

/// distinct keys in the comparator's order, with gaps between them
fn keys<O: Ord2, K: Elem>(c: &mut Ctx, n: usize) -> Vec<u64> {
    let max = if K::norm(u64::MAX) == 255 { 255 } else { 65_535 };
    let span = (n as u64 * 3 * O::STEP + 4).min(max);
    let mut set = BTreeMap::new();
    let dense = c.rng.chance(1, 3);
    while set.len() < n {
        let v = if dense { set.len() as u64 * O::STEP + c.rng.below(O::STEP as usize) as u64 } else { c.rng.next() % span };
        set.insert(O::rank(v), v);
    }
    set.into_values().collect()
}

fn snapshot(base: usize, len: usize, nodes: &[N], nsize: usize) -> Vec<u8> {
    if cfg!(miri) {
        // padding bytes are not there to be compared
        return vec![];
    }
    let mut v = unsafe { std::slice::from_raw_parts(base as *const u8, len) }.to_vec();
    for n in nodes {
        v.extend_from_slice(unsafe { std::slice::from_raw_parts(n.at as *const u8, nsize) });
    }
    v
}

/// Everything that can be read, against the tree that was planted.
fn read_all<K: Elem, V: Elem, O: Ord2, T: Tree<K, V>>(c: &mut Ctx, t: &T, m: &[N], h: u64, what: &str) {
    c.sync();
    let vo = node::<K, V>().1;
    ensure_eq!(c, Kind::Func, t.count(), (m.len(), m.is_empty()), "len, is_empty {what}");
    let probe: Vec<u64> = if m.len() <= 40 {
        let mut p: Vec<u64> = m.iter().map(|n| n.k).collect();
        for n in m {
            p.push(n.k.wrapping_add(1));
            p.push(n.k.wrapping_sub(1));
        }
        p.extend([0, 1, 255, u32::MAX as u64]);
        p
    } else {
        (0..60).map(|i| if i % 2 == 0 { m[c.rng.index(m.len())].k } else { c.rng.next() % 70_000 }).collect()
    };
    for v in probe {
        let key = K::mk(v);
        let v = key.get();
        let exp = m.iter().find(|n| O::same(n.k, v));
        CALLS.store(0, Relaxed);
        let got = t.find(&key);
        let calls = CALLS.load(Relaxed);
        ensure_eq!(c, Kind::Tree, got, exp.map(|n| (n.v, n.at + vo)), "get({v}) {what} of {} pairs (value and place)", m.len());
        ensure!(c, Kind::Steps, calls <= 2 * h, "get made {calls} comparisons in a tree of height {h} {what}");
        c.max("max comparisons of one lookup", calls);
        CALLS.store(0, Relaxed);
        ensure_eq!(c, Kind::Tree, t.has(&key), exp.is_some(), "contains_key({v}) {what}");
        let calls = CALLS.load(Relaxed);
        ensure!(c, Kind::Steps, calls <= 2 * h, "contains_key made {calls} comparisons in a tree of height {h} {what}");
        c.count("lookups");
    }
    let got: Vec<(u64, u32, u64, u32)> = {
        let mut it = t.items();
        let mut got = Vec::new();
        for (k, v) in it.by_ref() {
            got.push((k.get(), k.ident(), v.map_or(0, |v| v.get()), v.map_or(0, |v| v.ident())));
            if got.len() > m.len() + 3 {
                break;
            }
        }
        for _ in 0..3 {
            if got.len() <= m.len() && it.next().is_some() {
                c.fail(Kind::Iter, format!("iteration goes on after None {what}"));
            }
        }
        got
    };
    let exp: Vec<_> = m.iter().map(|n| (n.k, n.kid, n.v, n.vid)).collect();
    if got != exp {
        c.fail(Kind::Iter, format!("iteration {what} yields {got:?} instead of {exp:?}"));
    }
    c.count("iterations driven to the end");
    if m.len() < 50 && K::NAME != "string" && V::NAME != "string" {
        if let Some(s) = t.show() {
            let e = format!("{{{}}}", m.iter().map(|n| format!("{}: {}", n.k, n.v)).collect::<Vec<_>>().join(","));
            ensure_eq!(c, Kind::Copy, s, e, "Debug output {what}");
        }
    }
    c.sync();
}

fn dead<K: Elem, V: Elem>(c: &mut Ctx, m: &[N], what: &str) {
    for n in m {
        ensure!(c, Kind::Drop, (!K::TRACKED || !is_live(n.kid)) && (!V::TRACKED || !is_live(n.vid)), "{what} did not destroy pair {}: {}", n.k, n.v);
    }
}

/// Use a planted tree.
fn exercise<K: Elem, V: Elem, O: Ord2, T: Tree<K, V>>(c: &mut Ctx, t: &mut T, base: usize, obj: usize, m: &mut [N], h: u64) {
    let ns = node::<K, V>().2;
    mem::ev_clear();
    let before = snapshot(base, obj, m, ns);
    read_all::<K, V, O, T>(c, t, m, h, "after planting");
    ensure!(c, Kind::Pure, snapshot(base, obj, m, ns) == before, "reading changed the memory of the map");
    for _ in 0..4 {
        if m.is_empty() {
            break;
        }
        let i = c.rng.index(m.len());
        let v = V::mk(c.rng.next());
        let (val, vid) = (v.get(), v.ident());
        let k = K::mk(m[i].k - m[i].k % O::STEP + c.rng.below(O::STEP as usize) as u64);
        c.op("set", i as u64, m.len() as u64);
        CALLS.store(0, Relaxed);
        ensure!(c, Kind::Tree, t.set(&k, v), "get_mut({}) finds nothing", m[i].k);
        let calls = CALLS.load(Relaxed);
        ensure!(c, Kind::Steps, calls <= 2 * h, "get_mut made {calls} comparisons in a tree of height {h}");
        m[i].v = val;
        m[i].vid = vid;
        let absent = K::mk(m[i].k.wrapping_add(77));
        let av = absent.get();
        if !m.iter().any(|n| O::same(n.k, av)) {
            let v = V::mk(1);
            ensure!(c, Kind::Tree, !t.set(&absent, v), "get_mut of an absent key finds something");
        }
    }
    read_all::<K, V, O, T>(c, t, m, h, "after get_mut");
    let all = c.rng.chance(1, 2);
    let mut rng = c.rng.clone();
    let mut bad = None;
    if let Some(it) = t.items_mut() {
        let mut i = 0;
        for (k, v) in it {
            if i >= m.len() || (k.get(), v.get()) != (m[i].k, m[i].v) {
                bad = Some(format!("iter_mut yields {}: {} as pair {i}", k.get(), v.get()));
                break;
            }
            if all || rng.chance(1, 3) {
                let x = V::mk(rng.next());
                m[i].v = x.get();
                m[i].vid = x.ident();
                *v = x;
            }
            i += 1;
        }
        if bad.is_none() && i != m.len() {
            bad = Some(format!("iter_mut ends after {i} of {} pairs", m.len()));
        }
    }
    if let Some(b) = bad {
        c.fail(Kind::Iter, b);
    }
    read_all::<K, V, O, T>(c, t, m, h, "after iter_mut");
    ensure_eq!(c, Kind::Alloc, mem::ev_counts(), (0, 0), "(allocations, frees) of reads and writes");
    c.eff();
    c.eff();
}

fn empty_words(c: &mut Ctx, base: usize, what: &str) {
    let w = unsafe { (raw::word(base, 8), raw::word(base, 16), raw::word(base, 24), raw::u32_at(base, 32)) };
    let none = |x: usize| x == 0 || x == base + 8;
    ensure!(c, Kind::Image, none(w.0) && none(w.1) && w.2 == 0 && w.3 == 0, "begin, end, root and size words {what}: {w:?}");
}

fn pairs<K: Elem, V: Elem>(c: &mut Ctx, ks: &[u64]) -> Vec<(K, V)> {
    ks.iter().map(|&k| (K::mk(k), V::mk(c.rng.next()))).collect()
}

/// plant, use, clear, plant again, drop; with one comparator
fn map_case<K: Elem, V: Elem, O: Ord2, C: Compare<K> + Default + 'static>(c: &mut Ctx, shapes: Vec<Option<Box<S>>>) {
    let a = MonAlloc::fresh();
    let arena = a.arena();
    let built = c.rng.below(3);
    c.op("map", built as u64, shapes.len() as u64);
    let cur = MonAlloc::current().arena();
    let (mut t, arena): (Home<Map<K, V, MonAlloc, C>>, u32) = match built {
        0 => (Home::new(Map::with_allocator(a)), arena),
        1 => (Home::new(Map::with_allocator_and_compare(a, C::default())), arena),
        _ => (Home::new(Map::with_compare(C::default())), cur),
    };
    let base = t.base();
    let obj = size_of::<Map<K, V, MonAlloc, C>>();
    ensure_eq!(c, Kind::Image, (obj, unsafe { raw::u32_at(base, 36) }), (40, arena), "object size and allocator word");
    empty_words(c, base, "of a new map");
    read_all::<K, V, O, _>(c, &*t, &[], 0, "of a new map");
    let last = shapes.len().wrapping_sub(1);
    for (i, shape) in shapes.into_iter().enumerate() {
        let h = height(&shape);
        let n = count(&shape);
        let ks = keys::<O, K>(c, n);
        c.op("plant", n as u64, hash_shape(&shape));
        let ps = pairs::<K, V>(c, &ks);
        let at_anchor = c.rng.chance(1, 2);
        let mut m = plant(base, &shape, ps, &mut Heap(arena), at_anchor);
        c.max("max nodes in a tree", n as u64);
        c.max("max height of a tree", h);
        exercise::<K, V, O, _>(c, &mut *t, base, obj, &mut m, h);
        mem::ev_clear();
        let drops = i == last && c.rng.chance(1, 2);
        if drops {
            c.op("drop", n as u64, 0);
            drop(t);
            freed(c, &m, arena, node::<K, V>(), "drop");
            dead::<K, V>(c, &m, "drop");
            c.sync();
            return;
        }
        c.op("clear", n as u64, 0);
        t.wipe();
        freed(c, &m, arena, node::<K, V>(), "clear");
        dead::<K, V>(c, &m, "clear");
        empty_words(c, base, "after clear");
        read_all::<K, V, O, _>(c, &*t, &[], 0, "after clear");
        mem::ev_clear();
        t.wipe();
        ensure_eq!(c, Kind::Alloc, mem::ev_counts(), (0, 0), "allocator traffic of clearing an empty map");
    }
}

fn freed(c: &mut Ctx, m: &[N], arena: u32, lay: (usize, usize, usize, usize), what: &str) {
    let ev: Vec<_> = mem::ev_take().into_iter().filter(|e| e.arena == arena).collect();
    ensure!(c, Kind::Alloc, ev.iter().all(|e| !e.alloc), "{what} allocates");
    let mut got: Vec<usize> = ev.iter().map(|e| e.ptr).collect();
    got.sort();
    let mut exp: Vec<usize> = m.iter().map(|n| n.at).collect();
    exp.sort();
    ensure!(c, Kind::Alloc, got == exp, "{what} returned {} blocks for {} nodes, or others", got.len(), exp.len());
    for e in &ev {
        ensure_eq!(c, Kind::Alloc, (e.size, e.align), (lay.2, lay.3), "size and alignment a node is returned with by {what}");
    }
    c.count_n("nodes freed exactly once", m.len() as u64);
}


fn sizes(c: &mut Ctx) -> usize {
    match c.rng.below(10) {
        0 => 0,
        1 => 1,
        2..=6 => c.rng.range(2, 20),
        7 | 8 => c.rng.range(20, 80),
        _ => {
            if c.thorough {
                c.rng.range(80, 1500)
            } else {
                c.rng.range(80, 240)
            }
        }
    }
}

fn some_shapes(c: &mut Ctx) -> Vec<Option<Box<S>>> {
    (0..c.rng.range(1, 3))
        .map(|_| {
            let n = if cfg!(miri) { c.rng.below(12) } else { sizes(c).min(200) };
            random_shape(&mut c.rng, n)
        })
        .collect()
}

/// (key, value, two orders, two fixed capacities)
macro_rules! kv {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 14 {
            0 => $f::<u32, u64, Asc, Less<u32>, Desc, Greater<u32>, 1, 7>($($a),*),
            1 => $f::<u64, u8, Asc, Cmp<Asc>, Bits, Cmp<Bits>, 4, 2>($($a),*),
            2 => $f::<u8, u32, Desc, Cmp<Desc>, Asc, Less<u8>, 1, 16>($($a),*),
            3 => $f::<Tok8, Tok24, Asc, Less<Tok8>, Bits, Cmp<Bits>, 3, 8>($($a),*),
            4 => $f::<Tok4, TokA16, Asc, Cmp<Asc>, Desc, Greater<Tok4>, 1, 5>($($a),*),
            5 => $f::<TokA64, Tok4, Asc, Less<TokA64>, Desc, Cmp<Desc>, 2, 4>($($a),*),
            6 => $f::<Tok12, Tok8, Bits, Cmp<Bits>, Asc, Less<Tok12>, 3, 6>($($a),*),
            7 => $f::<u16, Blob<7>, Asc, Cmp<Asc>, Desc, Greater<u16>, 1, 9>($($a),*),
            8 => $f::<Box<u64>, std::string::String, Asc, Less<Box<u64>>, Desc, Cmp<Desc>, 4, 2>($($a),*),
            9 => $f::<std::string::String, Tok40, Asc, Cmp<Asc>, Bits, Cmp<Bits>, 3, 1>($($a),*),
            12 => $f::<u32, Tok8, Coarse, Cmp<Coarse>, Asc, Less<u32>, 2, 4>($($a),*),
            13 => $f::<Tok24, u64, Asc, Less<Tok24>, Coarse, Cmp<Coarse>, 3, 5>($($a),*),
            10 => $f::<Al32, u16, Asc, Cmp<Asc>, Desc, Cmp<Desc>, 2, 5>($($a),*),
            _ => $f::<u128, Tok8, Asc, Less<u128>, Bits, Cmp<Bits>, 1, 3>($($a),*),
        }
    };
}
fn with_order<K: Elem, V: Elem, O: Ord2, C: Compare<K> + Default + 'static, P: Ord2, D: Compare<K> + Default + 'static, const X: usize, const Y: usize>(c: &mut Ctx, s: Vec<Option<Box<S>>>) {
    if c.rng.chance(1, 2) {
        map_case::<K, V, O, C>(c, s)
    } else {
        map_case::<K, V, P, D>(c, s)
    }
}

fn r_map(c: &mut Ctx) {
    let k = c.index;
    let s = some_shapes(c);
    kv!(k, with_order(c, s));
}

/// every red-black tree up to a size
fn r_shapes(c: &mut Ctx) {
    if let Some(shape) = nth_shape(c.index as usize) {
        c.count("distinct shapes enumerated");
        map_case::<Tok8, Tok4, Asc, Cmp<Asc>>(c, vec![shape.clone()]);
        map_case::<u32, u64, Desc, Greater<u32>>(c, vec![shape.clone(), shape]);
        return;
    }
    map_case::<Tok24, Tok24, Bits, Cmp<Bits>>(c, vec![None]);
    c.eff();
    c.eff();
}

/// sets
fn set_case<K: Elem, O: Ord2, C: Compare<K> + Default + 'static>(c: &mut Ctx, shapes: Vec<Option<Box<S>>>) {
    let a = MonAlloc::fresh();
    let built = c.rng.below(3);
    let own = a.arena();
    let cur = MonAlloc::current().arena();
    let (set, arena) = match built {
        0 => (Set::<K, MonAlloc, C>::with_allocator(a), own),
        1 => (Set::with_allocator_and_compare(a, C::default()), own),
        _ => (Set::with_compare(C::default()), cur),
    };
    c.op("set", built as u64, shapes.len() as u64);
    let mut t = Home::new(SetOf(set));
    let base = t.0.base_of();
    ensure_eq!(c, Kind::Image, (size_of::<Set<K, MonAlloc, C>>(), unsafe { raw::u32_at(base, 36) }), (40, arena), "object size and allocator word");
    ensure_eq!(c, Kind::Func, (t.0.len(), t.0.is_empty()), (0, true), "len, is_empty of a new set");
    for shape in shapes {
        let n = count(&shape);
        let h = height(&shape);
        let ks = keys::<O, K>(c, n);
        c.op("plant", n as u64, hash_shape(&shape));
        let ps: Vec<(K, Unit)> = ks.iter().map(|&k| (K::mk(k), Unit)).collect();
        let at_anchor = c.rng.chance(1, 2);
        let m = plant(base, &shape, ps, &mut Heap(arena), at_anchor);
        mem::ev_clear();
        let before = snapshot(base, 40, &m, node::<K, Unit>().2);
        ensure_eq!(c, Kind::Func, (t.0.len(), t.0.is_empty()), (n, n == 0), "len, is_empty");
        let mut probe: Vec<u64> = m.iter().take(60).flat_map(|n| [n.k, n.k + 1, n.k.wrapping_sub(1)]).collect();
        probe.extend([0, 3, 255]);
        for v in probe {
            let key = K::mk(v);
            let v = key.get();
            CALLS.store(0, Relaxed);
            let got = t.0.contains_key(&key);
            let calls = CALLS.load(Relaxed);
            ensure_eq!(c, Kind::Tree, got, m.iter().any(|n| O::same(n.k, v)), "contains_key({v})");
            ensure!(c, Kind::Steps, calls <= 2 * h, "contains_key made {calls} comparisons in a set of height {h}");
            c.count("lookups");
        }
        let got: Vec<(u64, u32)> = {
            let mut it = unsafe { t.0.iter() };
            let got: Vec<_> = it.by_ref().take(n + 3).map(|k| (k.get(), k.ident())).collect();
            if got.len() <= n {
                ensure!(c, Kind::Iter, it.next().is_none(), "iteration goes on after None");
            }
            got
        };
        let exp: Vec<_> = m.iter().map(|n| (n.k, n.kid)).collect();
        ensure!(c, Kind::Iter, got == exp, "iteration yields {got:?} instead of {exp:?}");
        ensure!(c, Kind::Pure, snapshot(base, 40, &m, node::<K, Unit>().2) == before, "reading changed the memory of the set");
        ensure_eq!(c, Kind::Alloc, mem::ev_counts(), (0, 0), "allocator traffic of reads");
        c.count("iterations driven to the end");
        if c.rng.chance(1, 3) {
            drop(t);
            freed(c, &m, arena, node::<K, Unit>(), "drop");
            dead::<K, Unit>(c, &m, "drop");
            c.eff();
            c.eff();
            return;
        }
        t.0.clear();
        freed(c, &m, arena, node::<K, Unit>(), "clear");
        dead::<K, Unit>(c, &m, "clear");
        empty_words(c, base, "after clear");
        ensure_eq!(c, Kind::Func, (t.0.len(), t.0.is_empty(), unsafe { t.0.iter().count() }), (0, true, 0), "len, is_empty, iteration after clear");
        c.eff();
        c.eff();
    }
}
trait BaseOf {
    fn base_of(&self) -> usize;
}
impl<K: Elem, C: Compare<K>> BaseOf for Set<K, MonAlloc, C> {
    fn base_of(&self) -> usize {
        self as *const Self as usize
    }
}
fn set_order<K: Elem, V: Elem, O: Ord2, C: Compare<K> + Default + 'static, P: Ord2, D: Compare<K> + Default + 'static, const X: usize, const Y: usize>(c: &mut Ctx, s: Vec<Option<Box<S>>>) {
    if c.rng.chance(1, 2) {
        set_case::<K, O, C>(c, s)
    } else {
        set_case::<K, P, D>(c, s)
    }
}
fn r_set(c: &mut Ctx) {
    let k = c.index;
    let s = some_shapes(c);
    kv!(k, set_order(c, s));
}

/// The fixed maps: created empty in place, filled as C++ would from their pool.
fn fixed_plain<K: Elem, V: Elem, O: Ord2, C: Compare<K> + Default + 'static, const CAP: usize>(c: &mut Ctx) {
    c.op("fixed map", CAP as u64, 0);
    let mut t: Home<FixedMap<K, V, CAP, C>> = Home::raw();
    unsafe { FixedMap::<K, V, CAP, C>::new().new(Pin::new_unchecked(&mut *(t.p as *mut MaybeUninit<_>))) };
    let base = t.base();
    let obj = size_of::<FixedMap<K, V, CAP, C>>();
    fixed_rounds::<K, V, O, Map<K, V, _, C>, CAP>(c, &mut t, base, obj, None);
}
fn fixed_over<K: Elem, V: Elem, O: Ord2, C: Compare<K> + Default + 'static, const CAP: usize>(c: &mut Ctx) {
    c.op("fixed map with overflow", CAP as u64, 1);
    let mut t: Home<FixedMapWithOverflow<K, V, CAP, MonAlloc, C>> = Home::raw();
    unsafe { FixedMapWithOverflow::<K, V, CAP, MonAlloc, C>::new().new(Pin::new_unchecked(&mut *(t.p as *mut MaybeUninit<_>))) };
    let base = t.base();
    let obj = size_of::<FixedMapWithOverflow<K, V, CAP, MonAlloc, C>>();
    let arena = MonAlloc::current().arena();
    fixed_rounds::<K, V, O, Map<K, V, _, C>, CAP>(c, &mut t, base, obj, Some(arena));
}
fn fixed_rounds<K: Elem, V: Elem, O: Ord2, T: Tree<K, V>, const CAP: usize>(c: &mut Ctx, t: &mut T, base: usize, obj: usize, over: Option<u32>) {
    let (_, _, ns, al) = node::<K, V>();
    let pool = base + 40;
    let words = |o: usize| unsafe { raw::word(pool, o) };
    empty_words(c, base, "of a new fixed map");
    read_all::<K, V, O, _>(c, t, &[], 0, "of a new fixed map");
    let lo = words(8);
    ensure_eq!(c, Kind::Inline, (words(0), words(16)), (0, lo + CAP * ns), "pool head and end of a new fixed map with {CAP} nodes of {ns} bytes");
    ensure!(c, Kind::Inline, lo % al == 0 && lo >= base + 64 && lo + CAP * ns <= base + obj, "the pool's nodes do not lie inside the object, aligned");
    if let Some(a) = over {
        ensure_eq!(c, Kind::Image, unsafe { (raw::u32_at(pool, 24), raw::word(pool, 32)) }, (a, lo), "overflow allocator and pool begin words");
    }
    let mut p = Pool { at: pool, over, given: vec![], node: ns };
    for round in 0..4 {
        let n = if over.is_some() { c.rng.below(2 * CAP + 2) } else { c.rng.below(CAP + 1) };
        let shape = random_shape(&mut c.rng, n);
        let h = height(&shape);
        let ks = keys::<O, K>(c, n);
        c.op("plant", n as u64, hash_shape(&shape));
        let ps = pairs::<K, V>(c, &ks);
        let at_anchor = c.rng.chance(1, 2);
        let mut m = plant(base, &shape, ps, &mut p, at_anchor);
        let inside = |n: &N| n.at >= lo && n.at < lo + CAP * ns;
        exercise::<K, V, O, _>(c, t, base, 40, &mut m, h);
        mem::ev_clear();
        if round == 3 && c.rng.chance(1, 2) {
            // dropped full
            return;
        }
        t.wipe();
        dead::<K, V>(c, &m, "clear");
        empty_words(c, base, "after clear");
        read_all::<K, V, O, _>(c, t, &[], 0, "after clear");
        let outer: Vec<N> = m.iter().filter(|n| !inside(n)).copied().collect();
        freed(c, &outer, over.unwrap_or(0), node::<K, V>(), "clear");
        c.count_n("overflow nodes", outer.len() as u64);
        // every node of the pool that was ever used is on the free list, once
        let mut free = Vec::new();
        let mut q = words(0);
        while q != 0 && free.len() <= CAP {
            ensure!(c, Kind::Inline, q >= lo && q < lo + CAP * ns && (q - lo) % ns == 0, "the pool's free list leaves the pool");
            free.push(q);
            q = unsafe { raw::word(q, 0) };
        }
        free.sort();
        let mut given = p.given.clone();
        given.sort();
        ensure!(c, Kind::Inline, free == given, "free list of {} nodes, {} were given out: some lost or listed twice", free.len(), given.len());
        ensure_eq!(c, Kind::Inline, (words(8), words(16)), (lo + given.len() * ns, lo + CAP * ns), "pool next and end words after clear");
    }
}
fn fixed_kv<K: Elem, V: Elem, O: Ord2, C: Compare<K> + Default + 'static, P: Ord2, D: Compare<K> + Default + 'static, const X: usize, const Y: usize>(c: &mut Ctx) {
    if c.rng.chance(1, 2) {
        fixed_plain::<K, V, O, C, X>(c)
    } else {
        fixed_over::<K, V, P, D, Y>(c)
    }
}
fn r_fixed(c: &mut Ctx) {
    let k = c.index;
    kv!(k, fixed_kv(c));
}

/// large trees: bounds and order
fn r_big(c: &mut Ctx) {
    let n = [5_000usize, 20_000, 60_000][c.index as usize % 3];
    let shape = random_shape(&mut c.rng, n);
    c.op("big", n as u64, hash_shape(&shape));
    if c.index / 3 % 2 == 0 {
        big_case::<u32, u64, Asc>(c, shape, n);
    } else {
        big_case::<u64, Tok4, Desc>(c, shape, n.min(20_000));
    }
}
fn big_case<K: Elem, V: Elem, O: Ord2>(c: &mut Ctx, shape: Option<Box<S>>, n: usize) {
    let shape = if count(&shape) == n { shape } else { random_shape(&mut c.rng, n) };
    let a = MonAlloc::fresh();
    let arena = a.arena();
    let t: Home<Map<K, V, MonAlloc, Cmp<O>>> = Home::new(Map::with_allocator(a));
    let mut ks: Vec<u64> = (0..n as u64).map(|i| i * 3 + 1).collect();
    ks.sort_by_key(|&v| O::rank(v));
    let h = height(&shape);
    let ps = pairs::<K, V>(c, &ks);
    let at_anchor = c.rng.chance(1, 2);
    let m = plant(t.base(), &shape, ps, &mut Heap(arena), at_anchor);
    let by: BTreeMap<u64, usize> = m.iter().enumerate().map(|(i, n)| (n.k, i)).collect();
    for _ in 0..3000 {
        let v = c.rng.next() % (3 * n as u64 + 3);
        CALLS.store(0, Relaxed);
        let got = t.get(&K::mk(v)).map(|v| v.get());
        let calls = CALLS.load(Relaxed);
        ensure_eq!(c, Kind::Tree, got, by.get(&v).map(|&i| m[i].v), "get({v}) in {n} pairs");
        ensure!(c, Kind::Steps, calls <= 2 * h && h <= 2 * (64 - n.leading_zeros() as u64), "get made {calls} comparisons in a tree of height {h}");
        c.max("max comparisons of one lookup", calls);
    }
    let mut i = 0;
    for (k, v) in unsafe { t.iter() } {
        if i >= n || k.get() != m[i].k || v.get() != m[i].v {
            c.fail(Kind::Iter, format!("iteration of {n} pairs goes wrong at {i}"));
        }
        i += 1;
    }
    ensure_eq!(c, Kind::Iter, i, n, "pairs iterated");
    c.max("max nodes in a tree", n as u64);
    c.max("max height of a tree", h);
    mem::ev_clear();
    drop(t);
    ensure_eq!(c, Kind::Alloc, mem::live_count(), 0, "blocks outstanding after drop");
    dead::<K, V>(c, &m, "drop");
    c.eff();
    c.eff();
}

static RIGS: &[Rig] = &[
    Rig { name: "map_trees", props: &["C16", "C09", "C17", "C18", "C19", "C24", "C25", "C26"], scale: rnd(1200, 40_000), f: r_map },
    Rig { name: "tree_shapes", props: &["C16", "C09", "C18", "C25"], scale: fixed(SHAPES), f: r_shapes },
    Rig { name: "set_trees", props: &["C16", "C09", "C17", "C18", "C19", "C24", "C25"], scale: rnd(1200, 40_000), f: r_set },
    Rig { name: "fixed_map_trees", props: &["C16", "C09", "C17", "C18", "C19", "C24"], scale: rnd(1200, 40_000), f: r_fixed },
    Rig { name: "big_trees", props: &["C16", "C09", "C17", "C18", "C25"], scale: fixed(6), f: r_big },
];
/// number of red-black trees with at most ALL_UP_TO nodes
const SHAPES: u64 = 708;

fn main() {
    if std::env::args().any(|a| a == "shapes") {
        for n in 0..=ALL_UP_TO {
            println!("{n}: {}", all_shapes(n).len());
        }
        return;
    }
    mon::engine::main(RIGS);
}
