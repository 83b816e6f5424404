//! VectorMap.
use eastl_rs::compare::{Compare, Greater, Less};
use eastl_rs::vector_map::{Entry, VectorMap};
use mon::engine::{fixed, rnd};
use mon::*;
use std::collections::BTreeMap;

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

/// Orders by (low bits, high bits): nothing like the numeric order.
#[derive(Default)]
pub struct Mixed;
fn mixed(x: u64) -> u64 {
    x.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31)
}
impl<T: Elem> Compare<T> for Mixed {
    fn compare(a: &T, b: &T) -> bool {
        callback(Cb::Cmp);
        mixed(a.get()) < mixed(b.get())
    }
}
/// Descending with a counted comparison.
#[derive(Default)]
pub struct Down;
impl<T: Elem> Compare<T> for Down {
    fn compare(a: &T, b: &T) -> bool {
        callback(Cb::Cmp);
        a.get() > b.get()
    }
}

/// rank of a key under the comparator
trait Rank {
    fn rank(x: u64) -> u64;
    /// comparisons are seen by the callback counters
    const COUNTED: bool = false;
}
impl<T> Rank for Less<T> {
    fn rank(x: u64) -> u64 {
        x
    }
    // by the values, where they are tracked
    const COUNTED: bool = true;
}
impl<T> Rank for Greater<T> {
    fn rank(x: u64) -> u64 {
        !x
    }
    const COUNTED: bool = true;
}
/// comparisons of any kind so far
fn cmps() -> u64 {
    cb_count(Cb::Cmp) + cb_count(Cb::Eq)
}
fn step_bound(n: usize) -> u64 {
    3 * (64 - (n.max(1) as u64).leading_zeros() as u64) + 8
}
/// every way to look a key up, each within its bound; returns what get found
fn look<K: Elem, W: Elem, C: Compare<K> + Default + Rank>(c: &mut Ctx, v: &mut Map<K, W, C>, k: &K, n: usize) -> Option<u64> {
    let mut at = cmps();
    let mut step = |c: &mut Ctx, what: &str| {
        let d = cmps() - at;
        ensure!(c, Kind::Steps, d <= step_bound(n), "{what} made {d} comparisons among {n} pairs");
        c.max("max comparisons of one operation", d);
        at = cmps();
    };
    let got = v.get(k).map(|w| w.get());
    step(c, "get");
    let has = v.contains_key(k);
    step(c, "contains_key");
    let m = v.get_mut(k).map(|w| w.get());
    step(c, "get_mut");
    ensure_eq!(c, Kind::Func, (has, m), (got.is_some(), got), "contains_key and get_mut of key {}", k.get());
    got
}
impl Rank for Mixed {
    fn rank(x: u64) -> u64 {
        mixed(x)
    }
    const COUNTED: bool = true;
}
impl Rank for Down {
    fn rank(x: u64) -> u64 {
        !x
    }
    const COUNTED: bool = true;
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Val {
    key: u64,
    kid: u32,
    val: u64,
    vid: u32,
}

type Map<K, W, C> = VectorMap<K, W, MonAlloc, C>;
type Model = BTreeMap<u64, Val>;

fn mk<E: Elem>(v: u64) -> (E, u64, u32) {
    let e = E::mk(v);
    let (g, i) = (e.get(), e.ident());
    (e, g, i)
}

struct M<K, W, C> {
    m: Model,
    arena: u32,
    _p: std::marker::PhantomData<(K, W, C)>,
}

impl<K: Elem, W: Elem, C: Compare<K> + Default + Rank> M<K, W, C> {
    fn check(&self, c: &mut Ctx, v: &Map<K, W, C>, kind: Kind, what: &str) {
        c.sync();
        let n = self.m.len();
        ensure_eq!(c, kind, v.len(), n, "len after {what}");
        ensure_eq!(c, kind, v.is_empty(), n == 0, "is_empty after {what}");
        ensure!(c, kind, v.capacity() >= n, "capacity {} below length {n} after {what}", v.capacity());
        let r = raw::vec(v);
        let s = std::mem::size_of::<(K, W)>();
        ensure_eq!(c, Kind::Image, (r.end - r.begin, r.cap - r.begin), (n * s, v.capacity() * s), "words after {what}");
        ensure_eq!(c, Kind::Image, r.alloc_id, self.arena, "allocator word after {what}");
        if r.begin != 0 {
            match mem::block_at(r.begin) {
                None => c.miss(Kind::Alloc, format!("storage is not a live block after {what}")),
                Some(b) => ensure_eq!(c, Kind::Alloc, b.size, v.capacity() * s, "bytes allocated after {what}"),
            }
        }
        if c.look() && (n <= 40 || c.rng.chance(1, 15)) {
            let got: &[(K, W)] = v.as_ref();
            ensure_eq!(c, kind, got.len(), n, "pairs shown after {what}");
            for (i, ((k, w), x)) in got.iter().zip(self.m.values()).enumerate() {
                if (k.get(), w.get()) != (x.key, x.val) {
                    c.fail(kind, format!("pair {i} of {n} after {what} is ({}, {}), expected ({}, {})", k.get(), w.get(), x.key, x.val));
                }
                if k.ident() != x.kid || w.ident() != x.vid {
                    c.miss(Kind::Copy, format!("pair {i} after {what} is a copy of the one stored"));
                }
            }
            for p in got.windows(2) {
                ensure!(c, kind, C::compare(&p[0].0, &p[1].0) && !C::compare(&p[1].0, &p[0].0), "pairs not strictly sorted after {what}: {:?} before {:?}", p[0].0, p[1].0);
            }
            c.count_n("pairs compared", n as u64);
        }
        c.sync();
    }
    fn steps(&self, c: &mut Ctx, before: u64, what: &str) {
        if C::COUNTED {
            let k = cmps() - before;
            let n = self.m.len();
            ensure!(c, Kind::Steps, k <= step_bound(n), "{what} made {k} comparisons among {n} pairs");
            c.max("max comparisons of one operation", k);
        }
    }
}

fn history<K: Elem, W: Elem, C: Compare<K> + Default + Rank + 'static>(c: &mut Ctx, steps: usize) {
    let universe = *c.rng.pick(&[4usize, 12, 60, 400, 3000]);
    let salt = if c.rng.chance(1, 3) { c.rng.next() } else { 0 };
    let keyv = |i: usize| (i as u64).wrapping_add(salt);
    let mut laid = Model::new();
    let pick = if c.prop == "C24" && c.rng.chance(1, 2) { 3 } else { c.rng.below(3) };
    let (v, arena): (Map<K, W, C>, u32) = match pick {
        3 => {
            let id = MonAlloc::fresh().arena();
            let mut pairs = BTreeMap::new();
            for _ in 0..c.rng.below(20) {
                let (k, g, kid) = mk::<K>(keyv(c.rng.below(universe)));
                let (x, val, vid) = mk::<W>(c.rng.next());
                laid.insert(C::rank(g), Val { key: g, kid, val, vid });
                pairs.insert(C::rank(g), (k, x));
            }
            let n = pairs.len();
            let spare = *c.rng.pick(&[0, 0, 1, 7]);
            c.op("image", n as u64, spare as u64);
            (vec_image(c, id, pairs.into_values().collect(), n + spare, n + spare), id)
        }
        0 => (VectorMap::new(), MonAlloc::current().arena()),
        1 => {
            let a = MonAlloc::fresh();
            let id = a.arena();
            (VectorMap::new_in(a, C::default()), id)
        }
        _ => (VectorMap::with_capacity(c.rng.below(10)), MonAlloc::current().arena()),
    };
    let mut v = Lodge::new(v);
    let mut st = M::<K, W, C> { m: laid, arena, _p: Default::default() };
    st.check(c, &*v, Kind::Func, "construction");
    let rank = |g: u64| C::rank(g);
    for _ in 0..steps {
        v.stir(c);
        let n = st.m.len();
        let full = n * 2 > universe;
        let w: [u32; 13] = if full {
            [14, 16, 10, 8, 8, 10, 8, 1, 2, 2, 2, 2, 2]
        } else {
            [30, 6, 4, 6, 6, 14, 14, 1, 2, 2, 2, 2, 2]
        };
        // mostly a key of the universe, sometimes one just inserted
        let (k, g, kid) = mk::<K>(keyv(c.rng.below(universe)));
        let (x, vg, vid) = mk::<W>(c.rng.next());
        let old = st.m.get(&rank(g)).copied();
        let before = raw::vec(&*v);
        let cmp0 = cmps();
        match c.rng.weighted(&w) {
            0 => {
                c.op("insert", g, old.is_some() as u64);
                let got = v.insert(k, x);
                ensure_eq!(c, Kind::Func, got.as_ref().map(|w| w.get()), old.map(|o| o.val), "insert of key {g}");
                ensure_eq!(c, Kind::Copy, got.as_ref().map(|w| w.ident()), old.map(|o| o.vid), "identity of the displaced value");
                st.steps(c, cmp0, "insert");
                // the key stored first stays
                let kid = old.map_or(kid, |o| o.kid);
                st.m.insert(rank(g), Val { key: g, kid, val: vg, vid });
                c.eff();
            }
            1 => {
                c.op("remove", g, old.is_some() as u64);
                let got = v.remove(&k);
                ensure_eq!(c, Kind::Func, got.as_ref().map(|w| (w.get(), w.ident())), old.map(|o| (o.val, o.vid)), "remove of key {g}");
                st.steps(c, cmp0, "remove");
                st.m.remove(&rank(g));
                if old.is_none() {
                    ensure!(c, Kind::Reject, raw::vec(&*v) == before, "removing an absent key changed the map");
                }
                c.eff();
            }
            2 => {
                c.op("remove_entry", g, old.is_some() as u64);
                let got = v.remove_entry(&k);
                ensure_eq!(
                    c,
                    Kind::Func,
                    got.as_ref().map(|(k, w)| (k.get(), k.ident(), w.get(), w.ident())),
                    old.map(|o| (o.key, o.kid, o.val, o.vid)),
                    "remove_entry of key {g}"
                );
                st.steps(c, cmp0, "remove_entry");
                st.m.remove(&rank(g));
                c.eff();
            }
            3 => {
                c.op("get", g, old.is_some() as u64);
                ensure_eq!(c, Kind::Func, v.get(&k).map(|w| (w.get(), w.ident())), old.map(|o| (o.val, o.vid)), "get of key {g}");
                st.steps(c, cmp0, "get");
                let at = cmps();
                ensure_eq!(c, Kind::Func, v.contains_key(&k), old.is_some(), "contains_key of key {g}");
                st.steps(c, at, "contains_key");
            }
            4 => {
                c.op("get_mut", g, old.is_some() as u64);
                let got = v.get_mut(&k);
                ensure_eq!(c, Kind::Func, got.as_ref().map(|w| (w.get(), w.ident())), old.map(|o| (o.val, o.vid)), "get_mut of key {g}");
                if let Some(r) = got {
                    *r = x;
                    let e = st.m.get_mut(&rank(g)).unwrap();
                    (e.val, e.vid) = (vg, vid);
                    c.eff();
                }
                st.steps(c, cmp0, "get_mut");
            }
            5 | 6 => {
                c.op("entry", g, old.is_some() as u64);
                match v.entry(k) {
                    Entry::Occupied(mut e) => {
                        ensure!(c, Kind::Func, old.is_some(), "entry of the absent key {g} is occupied");
                        let o = old.unwrap();
                        ensure_eq!(c, Kind::Func, (e.key().get(), e.key().ident(), e.get().get(), e.get().ident()), (o.key, o.kid, o.val, o.vid), "occupied entry");
                        if c.rng.chance(1, 2) {
                            *e.get_mut() = x;
                            let e = st.m.get_mut(&rank(g)).unwrap();
                            (e.val, e.vid) = (vg, vid);
                            c.eff();
                        }
                    }
                    Entry::Vacant(e) => {
                        ensure!(c, Kind::Func, old.is_none(), "entry of the present key {g} is vacant");
                        ensure_eq!(c, Kind::Func, (e.key().get(), e.key().ident()), (g, kid), "key of a vacant entry");
                        match c.rng.below(4) {
                            0 => {
                                let k = e.into_key();
                                ensure_eq!(c, Kind::Func, (k.get(), k.ident()), (g, kid), "into_key");
                            }
                            1 => drop(e),
                            _ => {
                                let r = e.insert(x);
                                ensure_eq!(c, Kind::Func, (r.get(), r.ident()), (vg, vid), "value inserted through a vacant entry");
                                st.m.insert(rank(g), Val { key: g, kid, val: vg, vid });
                                c.eff();
                            }
                        }
                    }
                }
                st.steps(c, cmp0, "entry");
            }
            7 => {
                c.op("clear", n as u64, 0);
                v.clear();
                st.m.clear();
                c.eff();
            }
            8 => {
                c.op("look everywhere", n as u64, 0);
                for i in 0..universe.min(80) {
                    let (k, g, _) = mk::<K>(keyv(i));
                    let e = st.m.get(&rank(g)).map(|o| o.val);
                    ensure_eq!(c, Kind::Func, look(c, &mut *v, &k, n), e, "get of key {g} among {n}");
                }
            }
            9 => {
                c.op("iterate", n as u64, 0);
                let exp: Vec<(u64, u64)> = st.m.values().map(|o| (o.key, o.val)).collect();
                drive_de(c, v.iter().map(|(k, w)| (k.get(), w.get())), &exp, Hint::Exact, false, "iter");
            }
            10 => {
                c.op("move", n as u64, 0);
                v.relocate(c);
                ensure!(c, Kind::Move, raw::vec(&*v) == before, "moving the map changed its words");
                st.check(c, &*v, Kind::Move, "move");
                c.eff();
            }
            11 => {
                c.op("format", n as u64, 0);
                if n < 50 {
                    let d = format!("{v:?}");
                    let e = format!("{{{}}}", v.as_ref().iter().map(|(k, w)| format!("{k:?}: {w:?}")).collect::<Vec<_>>().join(","));
                    ensure_eq!(c, Kind::Copy, d, e, "Debug output");
                }
            }
            _ => {
                // remove in a chosen order, down to some size
                c.op("thin out", n as u64, 0);
                let keys: Vec<u64> = st.m.values().map(|o| o.key).collect();
                for (i, g) in keys.iter().enumerate() {
                    if c.rng.chance(1, 2) || i == 0 {
                        let (k, g2, _) = mk::<K>(*g);
                        debug_assert_eq!(*g, g2);
                        let at = cmps();
                        let got = v.remove(&k).map(|w| w.get());
                        st.steps(c, at, "remove");
                        ensure_eq!(c, Kind::Func, got, st.m.remove(&rank(*g)).map(|o| o.val), "remove of key {g}");
                    }
                }
                c.eff();
            }
        }
        st.check(c, &*v, Kind::Func, "an operation");
    }
    c.max("max pairs", st.m.len() as u64);
    drop(v);
    mem::check_all();
}

/// bulk construction from any order, with duplicates
fn bulk<K: Elem, W: Elem>(c: &mut Ctx)
where
    Less<K>: Compare<K>,
{
    let n = if c.rng.chance(1, 8) { c.rng.below(300) } else { c.rng.below(10) };
    let universe = c.rng.range(1, n * 2 + 2);
    let order = c.rng.below(4);
    let mut pairs: Vec<(K, W)> = Vec::new();
    let mut m: BTreeMap<u64, u64> = BTreeMap::new();
    // (key, key identity, value identity) of every source pair
    let mut ids: Vec<(u64, u32, u32)> = Vec::new();
    for i in 0..n {
        let x = match order {
            0 => i,
            1 => n - i,
            _ => c.rng.below(universe),
        };
        let (k, g, kid) = mk::<K>(x as u64);
        let (w, vg, vid) = mk::<W>(c.rng.next());
        m.insert(g, vg);
        pairs.push((k, w));
        ids.push((g, kid, vid));
    }
    let how = c.rng.below(5);
    c.op("bulk", n as u64, how as u64);
    let pc: Vec<u32> = pairs.iter().map(|p| if K::TRACKED { clones_of(p.0.ident()) } else { 0 }).collect();
    let before = made();
    let v: Map<K, W, Less<K>> = match how {
        0 => VectorMap::from(pairs.as_slice()),
        1 => VectorMap::from(pairs.as_mut_slice()),
        2 => src(&mut c.rng, std::mem::take(&mut pairs)).collect(),
        3 if n >= 4 => {
            pairs.truncate(4);
            ids.truncate(4);
            m = pairs.iter().map(|(k, w)| (k.get(), w.get())).collect();
            let a: &[(K, W); 4] = pairs.as_slice().try_into().unwrap();
            VectorMap::from(a)
        }
        _ if n >= 6 => {
            pairs.truncate(6);
            ids.truncate(6);
            m = pairs.iter().map(|(k, w)| (k.get(), w.get())).collect();
            let a: [(K, W); 6] = std::mem::take(&mut pairs).try_into().ok().unwrap();
            VectorMap::from(a)
        }
        _ => VectorMap::from(pairs.as_slice()),
    };
    c.sync();
    // every borrowed element is copied once, from the source itself; a moved one is not copied
    let new = made() - before;
    let borrowed = pairs.len();
    ensure_eq!(c, Kind::Copy, new, borrowed * (K::TRACKED as usize + W::TRACKED as usize), "values created by the conversion of {borrowed} borrowed pairs");
    for (k, w) in v.as_ref().iter() {
        let from = |id: u32| if borrowed > 0 { origin_of(id) } else { id };
        let g = k.get();
        if K::TRACKED {
            ensure!(c, Kind::Copy, ids.iter().any(|s| s.0 == g && s.1 == from(k.ident())), "the stored key {g} does not come from a source pair");
        }
        if W::TRACKED {
            let last = ids.iter().rfind(|s| s.0 == g).map(|s| s.2);
            ensure_eq!(c, Kind::Copy, Some(from(w.ident())), last, "source of the value of key {g}");
        }
    }
    if K::TRACKED {
        for (p, was) in pairs.iter().zip(pc) {
            ensure_eq!(c, Kind::Copy, clones_of(p.0.ident()) - was, 1, "times a borrowed key was cloned");
        }
    }
    let got: Vec<(u64, u64)> = v.as_ref().iter().map(|(k, w)| (k.get(), w.get())).collect();
    let exp: Vec<(u64, u64)> = m.into_iter().collect();
    if got != exp {
        c.report(Kind::Copy, format!("built from pairs: got {got:?}, expected {exp:?}"));
        c.fail(Kind::Func, format!("built from pairs: got {got:?}, expected {exp:?}"));
    }
    for (k, w) in &exp {
        ensure_eq!(c, Kind::Func, v.get(&K::mk(*k)).map(|x| x.get()), Some(*w), "get after construction");
    }
    drop(pairs);
    let again: Vec<(u64, u64)> = v.as_ref().iter().map(|(k, w)| (k.get(), w.get())).collect();
    ensure!(c, Kind::Copy, again == got, "contents changed when the source was dropped");
    c.eff();
    c.eff();
}

fn r_history(c: &mut Ctx) {
    let s = if cfg!(miri) { 25 } else { 130 };
    match c.index % 9 {
        0 => history::<u32, u32, Less<u32>>(c, s),
        1 => history::<Tok8, Tok8, Less<Tok8>>(c, s),
        2 => history::<Tok4, Tok40, Down>(c, s),
        3 => history::<u64, Tok8, Greater<u64>>(c, s),
        4 => history::<u16, u16, Mixed>(c, s),
        5 => history::<Tok24, u64, Mixed>(c, s),
        6 => history::<u64, u64, Down>(c, s),
        7 => history::<std::string::String, Tok4, Less<std::string::String>>(c, s),
        _ => history::<u8, u8, Greater<u8>>(c, s),
    }
}
fn r_bulk(c: &mut Ctx) {
    for _ in 0..8 {
        match c.rng.below(4) {
            0 => bulk::<u32, u64>(c),
            1 => bulk::<Tok8, Tok24>(c),
            2 => bulk::<u8, u8>(c),
            _ => bulk::<std::string::String, Tok4>(c),
        }
    }
}
/// every size, every key position: insert between, overwrite, look up, remove
fn r_sweep(c: &mut Ctx) {
    fn go<C: Compare<Tok8> + Default + Rank + 'static>(c: &mut Ctx, n: usize) {
        for i in 0..=n {
            let mut v: Map<Tok8, Tok8, C> = VectorMap::new_in(MonAlloc::fresh(), C::default());
            let mut st = M::<Tok8, Tok8, C> { m: Model::new(), arena: raw::vec(&v).alloc_id, _p: Default::default() };
            for j in 0..n {
                // every order of arrival: from the middle outwards, shuffled by the case
                let x = (j * 7919 + i) % n;
                let (k, g, kid) = mk::<Tok8>(x as u64 * 2 + 1);
                let (w, vg, vid) = mk::<Tok8>(c.rng.next());
                if let Some(o) = st.m.insert(C::rank(g), Val { key: g, kid, val: vg, vid }) {
                    st.m.get_mut(&C::rank(g)).unwrap().kid = o.kid;
                }
                v.insert(k, w);
            }
            st.check(c, &v, Kind::Func, "filling");
            c.op("sweep", n as u64, i as u64);
            let (k, g, kid) = mk::<Tok8>(i as u64 * 2);
            let (w, vg, vid) = mk::<Tok8>(77);
            ensure!(c, Kind::Func, v.get(&k).is_none() && v.remove(&k).is_none(), "absent key {g} found among {n}");
            ensure!(c, Kind::Func, v.insert(k, w).is_none(), "insert of the absent key {g} displaced a value");
            st.m.insert(C::rank(g), Val { key: g, kid, val: vg, vid });
            st.check(c, &v, Kind::Func, "insert between");
            for (g, x) in st.m.values().map(|o| (o.key, o.val)).collect::<Vec<_>>() {
                ensure_eq!(c, Kind::Func, look(c, &mut v, &Tok8::mk(g), n), Some(x), "get of {g} among {n}");
            }
            let victim = st.m.values().nth(i.min(st.m.len() - 1)).unwrap().key;
            let o = st.m.remove(&C::rank(victim)).unwrap();
            ensure_eq!(c, Kind::Func, v.remove_entry(&Tok8::mk(victim)).map(|(k, w)| (k.ident(), w.ident())), Some((o.kid, o.vid)), "remove_entry of {victim}");
            st.check(c, &v, Kind::Func, "remove");
        }
        c.eff();
        c.eff();
    }
    let n = c.index as usize / 3;
    match c.index % 3 {
        0 => go::<Less<Tok8>>(c, n),
        1 => go::<Down>(c, n),
        _ => go::<Mixed>(c, n),
    }
}
fn r_big(c: &mut Ctx) {
    match c.index % 2 {
        0 => big::<u64>(c, 30_000, 40_000),
        _ => big::<Tok8>(c, 5_000, 7_000),
    }
}
fn big<K: Elem>(c: &mut Ctx, n: u64, universe: u64) {
    let mut v: Map<K, u64, Mixed> = VectorMap::new_in(MonAlloc::fresh(), Mixed);
    let mut m = BTreeMap::new();
    for i in 0..n {
        let k = c.rng.next() % universe;
        let key = K::mk(k);
        let before = cmps();
        let got = v.insert(key, i);
        let d = cmps() - before;
        ensure_eq!(c, Kind::Func, got, m.insert(mixed(k), (k, i)).map(|x| x.1), "insert of {k}");
        ensure!(c, Kind::Steps, d <= step_bound(m.len()), "insert made {d} comparisons among {} pairs", m.len());
    }
    let same = |v: &Map<K, u64, Mixed>, m: &BTreeMap<u64, (u64, u64)>| v.as_ref().iter().map(|(k, v)| (k.get(), *v)).eq(m.values().copied());
    ensure!(c, Kind::Func, same(&v, &m), "{} pairs differ from the model", v.len());
    for k in 0..universe {
        let g = look(c, &mut v, &K::mk(k), m.len());
        ensure_eq!(c, Kind::Func, g, m.get(&mixed(k)).map(|x| x.1), "get of {k}");
    }
    c.op("big", m.len() as u64, 0);
    c.max("max pairs", m.len() as u64);
    for _ in 0..n / 8 {
        let k = c.rng.next() % universe;
        let key = K::mk(k);
        let len = m.len();
        let before = cmps();
        let e = match v.entry(key) {
            Entry::Occupied(mut e) => {
                *e.get_mut() += 1;
                true
            }
            Entry::Vacant(_) => false,
        };
        let d = cmps() - before;
        ensure!(c, Kind::Steps, d <= step_bound(len), "entry made {d} comparisons among {len} pairs");
        ensure_eq!(c, Kind::Func, e, m.contains_key(&mixed(k)), "entry of {k}");
        let key = K::mk(k);
        let before = cmps();
        let got = v.remove_entry(&key).map(|(k, w)| (k.get(), w));
        let d = cmps() - before;
        ensure!(c, Kind::Steps, d <= step_bound(len), "remove_entry made {d} comparisons among {len} pairs");
        ensure_eq!(c, Kind::Func, got, m.remove(&mixed(k)).map(|(k, w)| (k, w + 1)), "remove_entry of {k}");
    }
    ensure!(c, Kind::Func, same(&v, &m), "{} pairs differ from the model", v.len());
    c.eff();
    c.eff();
}

/// where a pair keeps its key and its value, against eastl::pair<K, V>
fn r_pair(c: &mut Ctx) {
    fn go<K: Elem, W: Elem>(c: &mut Ctx, name: &str) {
        let mut v: VectorMap<K, W, MonAlloc> = VectorMap::new();
        for i in 0..3 {
            v.insert(K::mk(i), W::mk(i));
        }
        c.op("pair layout", c.index, 0);
        let b = raw::vec(&v).begin;
        let (ks, ka, ws, wa) = (std::mem::size_of::<K>(), std::mem::align_of::<K>(), std::mem::size_of::<W>(), std::mem::align_of::<W>());
        let wo = ks.div_ceil(wa) * wa;
        let al = ka.max(wa);
        let size = (wo + ws).div_ceil(al) * al;
        for (i, (k, w)) in AsRef::<[(K, W)]>::as_ref(&v).iter().enumerate() {
            let at = (k as *const K as usize - b, w as *const W as usize - b);
            if at != (i * size, i * size + wo) {
                c.report(Kind::Image, format!("pairs of ({name}): pair {i} keeps its key at {} and its value at {}, eastl::pair at {} and {}", at.0, at.1, i * size, i * size + wo));
                return;
            }
        }
        c.count("pair layouts compared");
        c.eff();
    }
    match c.index {
        0 => go::<u32, u32>(c, "u32, u32"),
        1 => go::<u32, u64>(c, "u32, u64"),
        2 => go::<u64, u32>(c, "u64, u32"),
        3 => go::<u8, u8>(c, "u8, u8"),
        4 => go::<u8, u32>(c, "u8, u32"),
        5 => go::<u32, u8>(c, "u32, u8"),
        6 => go::<u64, Box<u64>>(c, "u64, pointer"),
        7 => go::<u16, u64>(c, "u16, u64"),
        8 => go::<u64, Blob<24>>(c, "u64, 24 bytes"),
        9 => go::<u32, Al32>(c, "u32, 32-aligned"),
        10 => go::<Al32, u32>(c, "32-aligned, u32"),
        _ => go::<Blob<5>, u16>(c, "5 bytes, u16"),
    }
    c.eff();
}

static RIGS: &[Rig] = &[
    Rig { name: "vmap_history", props: &["C10", "C17", "C18", "C19", "C24", "C25", "C26", "C27", "C28"], scale: rnd(900, 40_000), f: r_history },
    Rig { name: "vmap_bulk", props: &["C10", "C17", "C18", "C26"], scale: rnd(300, 20_000), f: r_bulk },
    Rig { name: "vmap_sweep", props: &["C10", "C17", "C18", "C25"], scale: fixed(3 * 40), f: r_sweep },
    Rig { name: "vmap_big", props: &["C10", "C25"], scale: rnd(2, 20), f: r_big },
    Rig { name: "vmap_iter", props: &["C09"], scale: rnd(200, 10_000), f: r_history },
    Rig { name: "vmap_pair", props: &["C24"], scale: fixed(12), f: r_pair },
];

fn main() {
    mon::engine::main(RIGS);
}
