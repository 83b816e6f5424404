//! HashMap and HashSet.
use eastl_rs::equals::{EqualTo, Equals};
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use mon::engine::{fixed, rnd};
use mon::raw::RawHash;
use mon::*;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::atomic::Ordering::Relaxed;

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

/// hash of the key's class under the mode of the case; S > 0 merges 2^S neighbouring keys
pub struct Hf<const S: u32>;
pub struct Qf<const S: u32>;
impl<T: Elem, const S: u32> Hash<T> for Hf<S> {
    fn hash(v: &T) -> usize {
        callback(Cb::Hash);
        hash_now(v.get() >> S)
    }
}
impl<T: Elem, const S: u32> Equals<T> for Qf<S> {
    fn equals(a: &T, b: &T) -> bool {
        callback(Cb::Eq);
        let (a, b) = (a.get(), b.get());
        eq_note(a, b);
        a >> S == b >> S
    }
}

type M<K, W, F> = HashMap<K, W, MonAlloc, <F as Cf<K>>::H, <F as Cf<K>>::E>;
type Set<K, F> = HashSet<K, MonAlloc, <F as Cf<K>>::H, <F as Cf<K>>::E>;

/// How keys are hashed and compared.
trait Cf<K: Elem>: 'static {
    type H: Hash<K> + 'static;
    type E: Equals<K> + 'static;
    const COUNTED: bool;
    fn class(g: u64) -> u64;
    fn h(g: u64) -> usize;
    fn map<W: Elem>(c: &mut Ctx) -> M<K, W, Self>
    where
        Self: Sized;
    fn set(c: &mut Ctx) -> Set<K, Self>
    where
        Self: Sized;
    /// bulk construction, where the API has it
    fn collect<W: Elem>(c: &mut Ctx, v: Vec<(K, W)>) -> M<K, W, Self>
    where
        Self: Sized,
    {
        let mut m = Self::map(c);
        for (k, w) in v {
            m.insert(k, w);
        }
        m
    }
    fn collect_set(c: &mut Ctx, v: Vec<K>) -> Set<K, Self>
    where
        Self: Sized,
    {
        let mut m = Self::set(c);
        for k in v {
            m.insert(k);
        }
        m
    }
}
struct Custom<const S: u32>;
impl<K: Elem, const S: u32> Cf<K> for Custom<S> {
    type H = Hf<S>;
    type E = Qf<S>;
    const COUNTED: bool = true;
    fn class(g: u64) -> u64 {
        g >> S
    }
    fn h(g: u64) -> usize {
        hash_now(g >> S)
    }
    fn map<W: Elem>(_c: &mut Ctx) -> M<K, W, Self> {
        unsafe { HashMap::new_in(MonAlloc::fresh()) }
    }
    fn set(_c: &mut Ctx) -> Set<K, Self> {
        unsafe { HashSet::new_in(MonAlloc::fresh()) }
    }
}
struct Def;
impl<K: Elem> Cf<K> for Def
where
    DefaultHash<K>: Hash<K>,
{
    type H = DefaultHash<K>;
    type E = EqualTo<K>;
    const COUNTED: bool = K::TRACKED;
    fn class(g: u64) -> u64 {
        g
    }
    fn h(g: u64) -> usize {
        if K::TRACKED {
            hash_now(g)
        } else {
            g as usize
        }
    }
    fn map<W: Elem>(c: &mut Ctx) -> M<K, W, Self> {
        match c.rng.below(3) {
            0 => HashMap::new(),
            1 => HashMap::default(),
            _ => unsafe { HashMap::new_in(MonAlloc::fresh()) },
        }
    }
    fn set(c: &mut Ctx) -> Set<K, Self> {
        match c.rng.below(3) {
            0 => HashSet::new(),
            1 => HashSet::default(),
            _ => unsafe { HashSet::new_in(MonAlloc::fresh()) },
        }
    }
    fn collect<W: Elem>(c: &mut Ctx, v: Vec<(K, W)>) -> M<K, W, Self> {
        src(&mut c.rng, v).collect()
    }
    fn collect_set(c: &mut Ctx, v: Vec<K>) -> Set<K, Self> {
        src(&mut c.rng, v).collect()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Val {
    key: u64,
    kid: u32,
    val: u64,
    vid: u32,
}
type Model = BTreeMap<u64, Val>;

fn mk<E: Elem>(v: u64) -> (E, u64, u32) {
    let e = E::mk(v);
    let (g, i) = (e.get(), e.ident());
    (e, g, i)
}

struct St<K, W, F> {
    m: Model,
    arena: u32,
    count: u32,
    next_resize: u32,
    /// the policy's factors (an image may bring any)
    load: f32,
    growth: f32,
    rehashes: u32,
    no: u64,
    _p: PhantomData<(K, W, F)>,
}

fn alloc_word<C>(m: &C) -> u32 {
    unsafe { raw::u32_at(m as *const C as usize, 36) }
}

impl<K: Elem, W: 'static, F: Cf<K>> St<K, W, F> {
    fn new<C>(m: &C) -> Self {
        St { m: Model::new(), arena: alloc_word(m), count: 1, next_resize: 0, load: 1.0, growth: 2.0, rehashes: 0, no: 0, _p: PhantomData }
    }
    fn row(&self, g: u64) -> Option<Val> {
        self.m.get(&F::class(g)).copied()
    }
    fn bucket(&self, g: u64) -> usize {
        F::h(g) % self.count as usize
    }
    /// what an insertion of a new key does to the buckets
    fn grow(&mut self) {
        let r = RawHash { buckets: 0, bucket_count: self.count, element_count: self.m.len() as u32, max_load: self.load, growth: self.growth, next_resize: self.next_resize };
        let (n, x) = r.policy();
        if n != self.count {
            self.rehashes += 1;
        }
        (self.count, self.next_resize) = (n, x);
    }
    /// header words
    fn quick<C>(&mut self, c: &mut Ctx, m: &C, len: usize, kind: Kind, what: &str) {
        let r = raw::hash(m);
        ensure_eq!(c, kind, len, self.m.len(), "len after {what}");
        ensure_eq!(c, Kind::Geo, r.element_count as usize, self.m.len(), "stored element count after {what}");
        ensure_eq!(c, Kind::Geo, r.bucket_count, self.count, "bucket count with {} elements after {what}", self.m.len());
        ensure_eq!(c, Kind::Image, (r.max_load, r.growth, r.next_resize), (self.load, self.growth, self.next_resize), "rehash policy words after {what}");
        ensure_eq!(c, Kind::Image, alloc_word(m), self.arena, "allocator word after {what}");
        ensure!(c, Kind::Geo, self.load != 1.0 || self.m.len() <= r.bucket_count as usize || self.m.is_empty(), "{} elements in {} buckets", self.m.len(), r.bucket_count);
    }
    /// the whole table as C++ walks it; `val` reads a value's (number, identity) at an address
    fn walk<C>(&mut self, c: &mut Ctx, m: &C, val: &dyn Fn(usize) -> (u64, u32), kind: Kind, what: &str) {
        let (voff, next, size, align) = raw::hash_node::<K, W>();
        let nodes = match raw::hash(m).walk(next, size) {
            Ok(n) => n,
            Err(e) => {
                c.report(Kind::Image, format!("{e} after {what}"));
                c.miss(Kind::Geo, format!("{e} after {what}"));
                return;
            }
        };
        if nodes.len() != self.m.len() {
            c.report(kind, format!("{} elements linked, expected {} after {what}", nodes.len(), self.m.len()));
            c.report(Kind::Image, format!("{} elements linked, expected {} after {what}", nodes.len(), self.m.len()));
            c.fail(Kind::Geo, format!("{} elements linked, count says {} after {what}", nodes.len(), raw::hash(m).element_count));
        }
        let mut seen = std::collections::HashSet::new();
        for (b, p) in nodes {
            if p % align != 0 {
                c.miss(Kind::Alloc, format!("node at {p:#x} is not aligned to {align}"));
            }
            let (g, kid) = unsafe { ((*(p as *const K)).get(), (*(p as *const K)).ident()) };
            let v = val(p + voff);
            if !seen.insert(F::class(g)) {
                c.fail(kind, format!("key {g} is stored twice after {what}"));
            }
            let Some(x) = self.row(g) else {
                c.report(Kind::Image, format!("a node holds key {g}, which the map does not contain, after {what}"));
                c.fail(kind, format!("key {g} is stored but should not be after {what}"));
            };
            if (g, v.0) != (x.key, x.val) {
                c.report(Kind::Image, format!("a node holds ({g}, {}), expected ({}, {}) after {what}", v.0, x.key, x.val));
                c.fail(kind, format!("key {g} maps to {}, expected key {} -> {} after {what}", v.0, x.key, x.val));
            }
            if (kid, v.1) != (x.kid, x.vid) {
                c.miss(Kind::Copy, format!("key {g}: a copy of the key or value is stored after {what}"));
            }
            ensure_eq!(c, Kind::Geo, b, self.bucket(g), "bucket of key {g} after {what}");
        }
        c.count_n("nodes compared", self.m.len() as u64);
    }
    fn due(&mut self, c: &mut Ctx) -> bool {
        self.no += 1;
        let n = self.m.len();
        c.look() && (n <= 60 || (n <= 600 && c.rng.chance(1, 10)) || c.rng.chance(1, 200))
    }
    /// start watching the callbacks of one operation
    fn begin(&self) -> (u64, u64) {
        eq_take();
        EQ_LOG_ON.store(F::COUNTED, Relaxed);
        (cb_count(Cb::Hash), cb_count(Cb::Eq))
    }
    /// a lookup-like operation on key g: called after it, with the bucket state from before it
    fn steps(&self, c: &mut Ctx, t: (u64, u64), g: u64, len0: usize, old: &[u64], count0: u32, grew: bool, what: &str) {
        if !F::COUNTED {
            return;
        }
        EQ_LOG_ON.store(false, Relaxed);
        let log = eq_take();
        let h = cb_count(Cb::Hash) - t.0;
        let limit = if grew { 2 * len0 as u64 + 6 } else { 3 };
        ensure!(c, Kind::Steps, h <= limit, "{what} hashed {h} keys with {len0} elements{}", if grew { " while growing" } else { "" });
        let b = F::h(g) % count0 as usize;
        ensure!(c, Kind::Steps, log.len() <= old.len(), "{what} made {} key comparisons, its bucket holds {}", log.len(), old.len());
        for (x, y) in &log {
            for z in [x, y] {
                ensure!(c, Kind::Steps, F::h(*z) % count0 as usize == b, "{what} of key {g} compared key {z} of another bucket");
            }
        }
        c.max("max comparisons of one operation", log.len() as u64);
        c.max("max hash calls of one operation", h);
    }
    /// keys in the bucket of g
    fn in_bucket(&self, g: u64) -> Vec<u64> {
        if !F::COUNTED || self.m.len() > 3000 {
            return vec![0; self.m.len()];
        }
        let b = self.bucket(g);
        self.m.values().filter(|v| self.bucket(v.key) == b).map(|v| v.key).collect()
    }
}

fn set_mode(c: &mut Ctx) -> u32 {
    let mode = match c.rng.below(3) {
        0 => 0,
        1 => 3,
        _ => c.rng.below(10) as u32,
    };
    HASH_MODE.store(mode, Relaxed);
    mode
}

fn key_source(c: &mut Ctx) -> (usize, u64) {
    let universe = *c.rng.pick(&[3usize, 10, 40, 200, 1500]);
    let salt = match c.rng.below(4) {
        0 => c.rng.next(),
        1 => 0u64.wrapping_sub(universe as u64 / 2),
        _ => 0,
    };
    (universe, salt)
}

fn vals<W: Elem>() -> impl Fn(usize) -> (u64, u32) {
    |p| unsafe { ((*(p as *const W)).get(), (*(p as *const W)).ident()) }
}

fn check<K: Elem, W: Elem, F: Cf<K>>(c: &mut Ctx, m: &M<K, W, F>, st: &mut St<K, W, F>, kind: Kind, what: &str) {
    c.sync();
    st.quick(c, m, m.len(), kind, what);
    ensure_eq!(c, kind, m.is_empty(), st.m.is_empty(), "is_empty after {what}");
    if st.due(c) {
        st.walk(c, m, &vals::<W>(), kind, what);
    }
    c.sync();
}

/// Every node in the order iteration visits it, with its bucket (tables of a bounded size only).
fn links<K: Elem, W, C>(m: &C, n: usize) -> Option<Vec<(usize, usize)>> {
    let (_, next, size, _) = raw::hash_node::<K, W>();
    if n > 600 {
        return None;
    }
    raw::hash(m).walk(next, size).ok()
}

/// An operation on an absent key that added nothing leaves the table and the order as they were.
fn unlinked<K: Elem, W, C>(c: &mut Ctx, m: &C, n: usize, was: Option<Vec<(usize, usize)>>, before: raw::RawHash, g: u64) {
    let (Some(was), true) = (was, raw::hash(m).element_count as usize == n) else { return };
    c.count_n("chains compared around an operation on an absent key", was.len() as u64);
    ensure!(c, Kind::Reject, raw::hash(m) == before, "an operation on the absent key {g} changed the table");
    let now = links::<K, W, C>(m, n);
    ensure!(c, Kind::Reject, now.as_ref() == Some(&was), "an operation on the absent key {g} reordered the table");
}

fn map_history<K: Elem, W: Elem, F: Cf<K>>(c: &mut Ctx, steps: usize) {
    let mode = set_mode(c);
    let (universe, salt) = key_source(c);
    let universe = if matches!(mode, 0 | 3) { universe } else { universe.min(300) };
    let kv = |i: usize| (i as u64).wrapping_add(salt);
    let mut m = Lodge::<M<K, W, F>>::new(F::map(c));
    let mut st = St::<K, W, F>::new(&*m);
    check(c, &*m, &mut st, Kind::Func, "construction");
    for _ in 0..steps {
        m.stir(c);
        let n = st.m.len();
        let full = n * 2 > universe;
        let w: [u32; 15] = if full {
            [12, 14, 10, 8, 6, 6, 10, 1, 2, 2, 2, 2, 2, 2, 1]
        } else {
            [26, 5, 5, 6, 5, 5, 16, 1, 2, 2, 2, 2, 1, 3, 1]
        };
        let (k, g, kid) = mk::<K>(kv(c.rng.below(universe)));
        let (x, vg, vid) = mk::<W>(c.rng.next());
        let old = st.row(g);
        let before = raw::hash(&*m);
        let inb = st.in_bucket(g);
        let t = st.begin();
        macro_rules! steps_of {
            ($what:expr) => {
                st.steps(c, t, g, n, &inb, before.bucket_count, raw::hash(&*m).bucket_count != before.bucket_count, $what)
            };
        }
        let op = c.rng.weighted(&w);
        let links = (old.is_none() && (1..=6).contains(&op)).then(|| links::<K, W, _>(&*m, n)).flatten();
        match op {
            0 => {
                c.op("insert", g, old.is_some() as u64);
                let got = m.insert(k, x);
                steps_of!("insert");
                ensure_eq!(c, Kind::Func, got.as_ref().map(|w| w.get()), old.map(|o| o.val), "insert of key {g}");
                ensure_eq!(c, Kind::Copy, got.as_ref().map(|w| w.ident()), old.map(|o| o.vid), "identity of the displaced value");
                match old {
                    Some(o) => {
                        st.m.insert(F::class(g), Val { val: vg, vid, ..o });
                        ensure!(c, Kind::Geo, raw::hash(&*m) == before, "overwriting a value changed the table");
                    }
                    None => {
                        st.grow();
                        st.m.insert(F::class(g), Val { key: g, kid, val: vg, vid });
                    }
                }
                c.eff();
            }
            1 => {
                c.op("remove", g, old.is_some() as u64);
                let got = m.remove(&k);
                steps_of!("remove");
                ensure_eq!(c, Kind::Func, got.as_ref().map(|w| (w.get(), w.ident())), old.map(|o| (o.val, o.vid)), "remove of key {g}");
                st.m.remove(&F::class(g));
                if old.is_none() {
                    ensure!(c, Kind::Reject, raw::hash(&*m) == before, "removing an absent key changed the map");
                }
                c.eff();
            }
            2 => {
                c.op("remove_entry", g, old.is_some() as u64);
                let got = m.remove_entry(&k);
                steps_of!("remove_entry");
                ensure_eq!(
                    c,
                    Kind::Func,
                    got.as_ref().map(|(k, w)| (k.get(), k.ident(), w.get(), w.ident())),
                    old.map(|o| (o.key, o.kid, o.val, o.vid)),
                    "remove_entry of key {g}"
                );
                st.m.remove(&F::class(g));
                c.eff();
            }
            3 => {
                c.op("get", g, old.is_some() as u64);
                let got = m.get(&k).map(|w| (w.get(), w.ident()));
                steps_of!("get");
                ensure_eq!(c, Kind::Func, got, old.map(|o| (o.val, o.vid)), "get of key {g}");
            }
            4 => {
                c.op("contains_key", g, old.is_some() as u64);
                let got = m.contains_key(&k);
                steps_of!("contains_key");
                ensure_eq!(c, Kind::Func, got, old.is_some(), "contains_key of key {g}");
            }
            5 => {
                c.op("get_mut", g, old.is_some() as u64);
                let got = m.get_mut(&k);
                let seen = got.as_ref().map(|w| (w.get(), w.ident()));
                if let Some(r) = got {
                    *r = x;
                    let e = st.m.get_mut(&F::class(g)).unwrap();
                    (e.val, e.vid) = (vg, vid);
                    c.eff();
                }
                steps_of!("get_mut");
                ensure_eq!(c, Kind::Func, seen, old.map(|o| (o.val, o.vid)), "get_mut of key {g}");
            }
            6 => {
                let how = c.rng.below(6);
                c.op("entry", g, how as u64 * 2 + old.is_some() as u64);
                let ran = std::cell::Cell::new(0);
                let made = std::cell::Cell::new(0);
                let bump = |w: &mut W| {
                    ran.set(ran.get() + 1);
                    let v = w.get();
                    *w = W::mk(W::norm(v ^ 0x55));
                };
                let x = std::cell::RefCell::new(Some(x));
                let give = || {
                    made.set(made.get() + 1);
                    x.borrow_mut().take().unwrap()
                };
                let e = m.entry(k);
                let r: Option<&mut W> = match how {
                    0 => Some(e.or_insert(give())),
                    1 => Some(e.or_insert_with(give)),
                    2 => Some(e.and_modify(bump).or_insert_with(give)),
                    3 => Some(e.and_modify(bump).or_insert(give())),
                    4 => {
                        let _ = e.and_modify(bump);
                        None
                    }
                    _ => {
                        drop(e);
                        None
                    }
                };
                let seen = r.map(|r| {
                    let s = (r.get(), r.ident());
                    (r as *mut W as usize, s)
                });
                steps_of!("entry");
                let modifies = matches!(how, 2..=4);
                if modifies {
                    ensure_eq!(c, Kind::Func, ran.get(), old.is_some() as i32, "and_modify calls for a {} key", if old.is_some() { "present" } else { "absent" });
                }
                if matches!(how, 1 | 2) {
                    ensure_eq!(c, Kind::Func, made.get(), old.is_none() as i32, "or_insert_with calls for a {} key", if old.is_some() { "present" } else { "absent" });
                }
                match old {
                    Some(o) => {
                        let v = if modifies { W::norm(o.val ^ 0x55) } else { o.val };
                        if let Some((_, s)) = seen {
                            ensure_eq!(c, Kind::Func, s.0, v, "value behind the entry of key {g}");
                        }
                        // identity of a modified value: read it back below
                        let now = m.get(&K::mk(o.key)).map(|w| (w.get(), w.ident()));
                        ensure_eq!(c, Kind::Func, now.map(|x| x.0), Some(v), "get after entry of key {g}");
                        let id = if modifies { now.unwrap().1 } else { o.vid };
                        let e = st.m.get_mut(&F::class(g)).unwrap();
                        (e.val, e.vid) = (v, id);
                        ensure!(c, Kind::Geo, raw::hash(&*m) == before, "entry of a present key changed the table");
                    }
                    None => {
                        if let Some((p, s)) = seen {
                            ensure_eq!(c, Kind::Func, s, (vg, vid), "value inserted through the entry of key {g}");
                            st.grow();
                            st.m.insert(F::class(g), Val { key: g, kid, val: vg, vid });
                            let q = m.get(&K::mk(g)).map(|w| w as *const W as usize);
                            ensure_eq!(c, Kind::Func, q, Some(p), "place of the value inserted through the entry of key {g}");
                        } else {
                            ensure!(c, Kind::Func, raw::hash(&*m) == before, "an entry that was not used changed the map");
                        }
                    }
                }
                c.eff();
            }
            7 => {
                c.op("clear", n as u64, 0);
                m.clear();
                st.m.clear();
                c.eff();
            }
            8 => {
                c.op("look everywhere", n as u64, 0);
                for i in 0..universe.min(100) {
                    let (k, g, _) = mk::<K>(kv(i));
                    let e = st.row(g).map(|o| o.val);
                    ensure_eq!(c, Kind::Func, m.get(&k).map(|w| w.get()), e, "get of key {g} among {n}");
                }
            }
            9 => {
                c.op("iterate", n as u64, 0);
                let exp: Vec<(u64, u64)> = st.m.values().map(|o| (o.key, o.val)).collect();
                drive_set(c, m.iter().map(|(k, w)| (k.get(), w.get())), &exp, "iter");
                clones(c, m.iter(), |(k, w)| (k.get(), w.get()), &exp);
                // stopping early is fine
                let it = m.iter();
                let stop = c.rng.below(n + 1);
                ensure_eq!(c, Kind::Iter, it.take(stop).count(), stop, "iter().take({stop}) of {n}");
            }
            10 => {
                c.op("iter_mut", n as u64, 0);
                let exp: Vec<(u64, u64)> = st.m.values().map(|o| (o.key, o.val)).collect();
                drive_set(c, m.iter_mut().map(|(k, w)| (k.get(), w.get())), &exp, "iter_mut");
                for (k, w) in m.iter_mut() {
                    if c.rng.chance(1, 2) {
                        let (y, yg, yid) = mk::<W>(c.rng.next());
                        let e = st.m.get_mut(&F::class(k.get())).unwrap();
                        if w.get() != e.val {
                            c.fail(Kind::Iter, format!("iter_mut shows {} for key {}, expected {}", w.get(), e.key, e.val));
                        }
                        *w = y;
                        (e.val, e.vid) = (yg, yid);
                    }
                }
                if n <= 600 {
                    st.walk(c, &*m, &vals::<W>(), Kind::Iter, "writes through iter_mut");
                }
                c.eff();
            }
            11 => {
                c.op("move", n as u64, 0);
                m.relocate(c);
                ensure!(c, Kind::Move, raw::hash(&*m) == before, "moving the map changed its words");
                check(c, &*m, &mut st, Kind::Move, "move");
                c.eff();
            }
            12 => {
                c.op("format", n as u64, 0);
                if n < 50 {
                    let d = format!("{m:?}");
                    let e = format!("{{{}}}", m.iter().map(|(k, w)| format!("{k:?}: {w:?}")).collect::<Vec<_>>().join(","));
                    ensure_eq!(c, Kind::Copy, d, e, "Debug output");
                }
            }
            13 => {
                // a burst of new keys
                let b = c.rng.below(universe / 2 + 2);
                c.op("burst", n as u64, b as u64);
                for i in 0..b {
                    let (k, g, kid) = mk::<K>(kv((i * 7) % universe));
                    let (x, vg, vid) = mk::<W>(i as u64);
                    let old = st.row(g);
                    let got = m.insert(k, x);
                    ensure_eq!(c, Kind::Func, got.map(|w| w.get()), old.map(|o| o.val), "insert of key {g}");
                    match old {
                        Some(o) => {
                            st.m.insert(F::class(g), Val { val: vg, vid, ..o });
                        }
                        None => {
                            st.grow();
                            st.m.insert(F::class(g), Val { key: g, kid, val: vg, vid });
                        }
                    }
                    st.quick(c, &*m, m.len(), Kind::Func, "insert");
                }
                c.eff();
            }
            _ => {
                // remove most, in key order or reversed
                c.op("thin out", n as u64, 0);
                let mut keys: Vec<u64> = st.m.values().map(|o| o.key).collect();
                if c.rng.chance(1, 2) {
                    keys.reverse();
                }
                let all = c.rng.chance(1, 2);
                for g in keys {
                    if all || c.rng.chance(2, 3) {
                        let k = K::mk(g);
                        let o = st.m.remove(&F::class(g)).unwrap();
                        ensure_eq!(c, Kind::Func, m.remove_entry(&k).map(|(k, w)| (k.ident(), w.ident())), Some((o.kid, o.vid)), "remove_entry of key {g}");
                    }
                }
                c.eff();
            }
        }
        EQ_LOG_ON.store(false, Relaxed);
        unlinked::<K, W, _>(c, &*m, n, links, before, g);
        check(c, &*m, &mut st, Kind::Func, "an operation");
    }
    st.walk(c, &*m, &vals::<W>(), Kind::Func, "the history");
    c.max("max elements", st.m.len() as u64);
    c.max("max buckets", st.count as u64);
    c.count_n("rehashes", st.rehashes as u64);
    drop(m);
    mem::check_all();
}

/// drive an unordered iterator to its end: exactly the expected pairs, then None
fn drive_set<T: Ord + Copy + std::fmt::Debug>(c: &mut Ctx, mut it: impl Iterator<Item = T>, exp: &[T], what: &str) {
    let mut got = Vec::new();
    loop {
        let (lo, hi) = it.size_hint();
        let left = exp.len() - got.len();
        ensure!(c, Kind::Iter, lo <= left && hi.map_or(true, |h| h >= left), "{what}: size hint ({lo}, {hi:?}) with {left} left");
        match it.next() {
            Some(x) => got.push(x),
            None => break,
        }
        ensure!(c, Kind::Iter, got.len() <= exp.len(), "{what} yields more than {} elements: {:?}", exp.len(), got.last());
    }
    for _ in 0..3 {
        ensure!(c, Kind::Iter, it.next().is_none(), "{what} yields something after None");
    }
    got.sort_unstable();
    let mut e = exp.to_vec();
    e.sort_unstable();
    ensure!(c, Kind::Iter, got == e, "{what} yields {} elements {:?}.., expected {} {:?}..", got.len(), got.first(), e.len(), e.first());
    c.count("iterations driven to the end");
}
/// a clone made on the way goes on from the same point, independently
fn clones<I: Iterator + Clone, T: Ord + Copy + std::fmt::Debug>(c: &mut Ctx, mut it: I, f: impl Fn(I::Item) -> T, exp: &[T]) {
    let at = c.rng.below(exp.len() + 1);
    let mut all: Vec<T> = Vec::new();
    for _ in 0..at {
        match it.next() {
            Some(x) => all.push(f(x)),
            None => c.fail(Kind::Iter, "iterator ends early".into()),
        }
    }
    let twin = it.clone();
    let rest: Vec<T> = it.map(&f).collect();
    let rest2: Vec<T> = twin.map(&f).collect();
    ensure_eq!(c, Kind::Iter, rest2, rest, "a cloned iterator, taken after {at} of {}", exp.len());
    all.extend(rest);
    all.sort_unstable();
    let mut e = exp.to_vec();
    e.sort_unstable();
    ensure!(c, Kind::Iter, all == e, "iterator cloned on the way yields {} of {} elements", all.len(), e.len());
}

fn set_check<K: Elem, F: Cf<K>>(c: &mut Ctx, m: &Set<K, F>, st: &mut St<K, (), F>, kind: Kind, what: &str) {
    c.sync();
    st.quick(c, m, m.len(), kind, what);
    ensure_eq!(c, kind, m.is_empty(), st.m.is_empty(), "is_empty after {what}");
    if st.due(c) {
        st.walk(c, m, &|_| (0, 0), kind, what);
    }
    c.sync();
}

fn set_history<K: Elem, F: Cf<K>>(c: &mut Ctx, steps: usize) {
    let mode = set_mode(c);
    let (universe, salt) = key_source(c);
    let universe = if matches!(mode, 0 | 3) { universe } else { universe.min(300) };
    let kv = |i: usize| (i as u64).wrapping_add(salt);
    let mut m = Lodge::<Set<K, F>>::new(F::set(c));
    let mut st = St::<K, (), F>::new(&*m);
    set_check(c, &*m, &mut st, Kind::Func, "construction");
    for _ in 0..steps {
        m.stir(c);
        let n = st.m.len();
        let full = n * 2 > universe;
        let w: [u32; 10] = if full { [14, 20, 8, 8, 1, 2, 3, 2, 2, 1] } else { [40, 8, 8, 8, 1, 2, 3, 2, 2, 1] };
        let (k, g, kid) = mk::<K>(kv(c.rng.below(universe)));
        let old = st.row(g);
        let before = raw::hash(&*m);
        let inb = st.in_bucket(g);
        let t = st.begin();
        macro_rules! steps_of {
            ($what:expr) => {
                st.steps(c, t, g, n, &inb, before.bucket_count, raw::hash(&*m).bucket_count != before.bucket_count, $what)
            };
        }
        let op = c.rng.weighted(&w);
        let links = (old.is_none() && (1..=3).contains(&op)).then(|| links::<K, (), _>(&*m, n)).flatten();
        match op {
            0 => {
                c.op("insert", g, old.is_some() as u64);
                let got = m.insert(k);
                steps_of!("insert");
                ensure_eq!(c, Kind::Func, got, old.is_none(), "insert of key {g}");
                if old.is_none() {
                    st.grow();
                    st.m.insert(F::class(g), Val { key: g, kid, val: 0, vid: 0 });
                } else {
                    ensure!(c, Kind::Geo, raw::hash(&*m) == before, "inserting a present key changed the table");
                }
                c.eff();
            }
            1 => {
                c.op("remove", g, old.is_some() as u64);
                let got = m.remove(&k);
                steps_of!("remove");
                ensure_eq!(c, Kind::Func, got.as_ref().map(|k| (k.get(), k.ident())), old.map(|o| (o.key, o.kid)), "remove of key {g}");
                st.m.remove(&F::class(g));
                if old.is_none() {
                    ensure!(c, Kind::Reject, raw::hash(&*m) == before, "removing an absent key changed the set");
                }
                c.eff();
            }
            2 => {
                c.op("get", g, old.is_some() as u64);
                let got = m.get(&k).map(|k| (k.get(), k.ident()));
                steps_of!("get");
                ensure_eq!(c, Kind::Func, got, old.map(|o| (o.key, o.kid)), "get of key {g}");
            }
            3 => {
                c.op("contains_key", g, old.is_some() as u64);
                let got = m.contains_key(&k);
                steps_of!("contains_key");
                ensure_eq!(c, Kind::Func, got, old.is_some(), "contains_key of key {g}");
            }
            4 => {
                c.op("clear", n as u64, 0);
                m.clear();
                st.m.clear();
                c.eff();
            }
            5 => {
                c.op("look everywhere", n as u64, 0);
                for i in 0..universe.min(100) {
                    let (k, g, _) = mk::<K>(kv(i));
                    let e = st.row(g).map(|o| o.kid);
                    ensure_eq!(c, Kind::Func, m.get(&k).map(|w| w.ident()), e, "get of key {g} among {n}");
                }
            }
            6 => {
                c.op("iterate", n as u64, 0);
                let exp: Vec<u64> = st.m.values().map(|o| o.key).collect();
                drive_set(c, m.iter().map(|k| k.get()), &exp, "iter");
                if n < 50 {
                    let d = format!("{m:?}");
                    let e = format!("{{{}}}", m.iter().map(|k| format!("{k:?}")).collect::<Vec<_>>().join(","));
                    ensure_eq!(c, Kind::Copy, d, e, "Debug output");
                }
            }
            7 => {
                c.op("move", n as u64, 0);
                m.relocate(c);
                ensure!(c, Kind::Move, raw::hash(&*m) == before, "moving the set changed its words");
                set_check(c, &*m, &mut st, Kind::Move, "move");
                c.eff();
            }
            8 => {
                let b = c.rng.below(universe / 2 + 2);
                c.op("burst", n as u64, b as u64);
                for i in 0..b {
                    let (k, g, kid) = mk::<K>(kv((i * 7) % universe));
                    let old = st.row(g);
                    ensure_eq!(c, Kind::Func, m.insert(k), old.is_none(), "insert of key {g}");
                    if old.is_none() {
                        st.grow();
                        st.m.insert(F::class(g), Val { key: g, kid, val: 0, vid: 0 });
                    }
                    st.quick(c, &*m, m.len(), Kind::Func, "insert");
                }
                c.eff();
            }
            _ => {
                c.op("thin out", n as u64, 0);
                let keys: Vec<u64> = st.m.values().map(|o| o.key).collect();
                let all = c.rng.chance(1, 2);
                for g in keys {
                    if all || c.rng.chance(2, 3) {
                        let k = K::mk(g);
                        let o = st.m.remove(&F::class(g)).unwrap();
                        ensure_eq!(c, Kind::Func, m.remove(&k).map(|k| k.ident()), Some(o.kid), "remove of key {g}");
                    }
                }
                c.eff();
            }
        }
        EQ_LOG_ON.store(false, Relaxed);
        unlinked::<K, (), _>(c, &*m, n, links, before, g);
        set_check(c, &*m, &mut st, Kind::Func, "an operation");
    }
    st.walk(c, &*m, &|_| (0, 0), Kind::Func, "the history");
    c.max("max elements", st.m.len() as u64);
    c.max("max buckets", st.count as u64);
    c.count_n("rehashes", st.rehashes as u64);
    drop(m);
    mem::check_all();
}

fn r_map(c: &mut Ctx) {
    let s = if cfg!(miri) { 25 } else { 130 };
    match c.index % 12 {
        0 => map_history::<Tok8, Tok8, Def>(c, s),
        1 => map_history::<u32, u32, Def>(c, s),
        2 => map_history::<Tok8, Tok24, Custom<1>>(c, s),
        3 => map_history::<u64, Tok8, Custom<0>>(c, s),
        4 => map_history::<std::string::String, Tok4, Custom<0>>(c, s),
        5 => map_history::<Tok40, u8, Def>(c, s),
        6 => map_history::<u16, Blob<5>, Custom<0>>(c, s),
        7 => map_history::<u8, TokA64, Def>(c, s),
        8 => map_history::<TokA16, Tok8, Custom<2>>(c, s),
        9 => map_history::<u64, u64, Def>(c, s),
        10 => map_history::<Tok4, std::string::String, Def>(c, s),
        _ => map_history::<u32, Tok12, Custom<0>>(c, s),
    }
}
fn r_set(c: &mut Ctx) {
    let s = if cfg!(miri) { 25 } else { 130 };
    match c.index % 8 {
        0 => set_history::<Tok8, Def>(c, s),
        1 => set_history::<u32, Def>(c, s),
        2 => set_history::<Tok8, Custom<1>>(c, s),
        3 => set_history::<Tok40, Custom<0>>(c, s),
        4 => set_history::<std::string::String, Custom<0>>(c, s),
        5 => set_history::<u8, Def>(c, s),
        6 => set_history::<TokA64, Def>(c, s),
        _ => set_history::<u64, Custom<3>>(c, s),
    }
}

/// every size 0..N under every hash mode: fill, look up every key and as many absent ones, remove
/// each in turn from a fresh table
fn r_sweep(c: &mut Ctx) {
    let mode = (c.index % 10) as u32;
    let n = (c.index / 10) as usize;
    HASH_MODE.store(mode, Relaxed);
    for victim in 0..n.max(1) {
        let mut m: M<Tok8, Tok8, Def> = unsafe { HashMap::new_in(MonAlloc::fresh()) };
        let mut st = St::<Tok8, Tok8, Def>::new(&m);
        for i in 0..n {
            let (k, g, kid) = mk::<Tok8>(i as u64 * 3);
            let (x, vg, vid) = mk::<Tok8>(c.rng.next());
            ensure!(c, Kind::Func, m.insert(k, x).is_none(), "insert of new key {g} displaced something");
            st.grow();
            st.m.insert(g, Val { key: g, kid, val: vg, vid });
            if victim == 0 {
                check(c, &m, &mut st, Kind::Func, "insert");
            }
        }
        c.op("sweep", n as u64, victim as u64 | (mode as u64) << 32);
        if n > 0 {
            let g = victim as u64 * 3;
            let o = st.m.remove(&g).unwrap();
            ensure_eq!(c, Kind::Func, m.remove_entry(&Tok8::mk(g)).map(|(k, w)| (k.ident(), w.ident())), Some((o.kid, o.vid)), "remove of key {g}");
            ensure!(c, Kind::Func, m.remove(&Tok8::mk(g)).is_none(), "key {g} was there twice");
            check(c, &m, &mut st, Kind::Func, "remove");
        }
        for i in 0..n as u64 * 3 + 3 {
            ensure_eq!(c, Kind::Func, m.get(&Tok8::mk(i)).map(|w| w.ident()), st.m.get(&i).map(|o| o.vid), "get of {i} among {n}");
        }
        if victim % 2 == 1 {
            m.clear();
            st.m.clear();
            check(c, &m, &mut st, Kind::Func, "clear");
        }
        drop(m);
    }
    c.eff();
    c.eff();
}

/// many keys: growth over many rehashes, in the map and the set
fn r_big(c: &mut Ctx) {
    HASH_MODE.store(if c.index % 2 == 0 { 3 } else { 0 }, Relaxed);
    let n = if c.thorough { 200_000 } else { 30_000 };
    let mut m: M<u64, u64, Custom<0>> = <Custom<0> as Cf<u64>>::map(c);
    let mut s: Set<u64, Custom<0>> = <Custom<0> as Cf<u64>>::set(c);
    let mut st = St::<u64, u64, Custom<0>>::new(&m);
    let (mut rehashes, mut count, mut at) = (0u64, 1u32, vec![]);
    let salt = c.rng.next();
    let h0 = cb_count(Cb::Hash);
    for i in 0..n {
        let g = (i as u64).wrapping_mul(7).wrapping_add(salt);
        ensure!(c, Kind::Func, m.insert(g, i as u64).is_none(), "new key {g} found at {i}");
        ensure!(c, Kind::Func, s.insert(g), "new key {g} found in the set at {i}");
        st.grow();
        st.m.insert(g, Val { key: g, kid: 0, val: i as u64, vid: 0 });
        let r = raw::hash(&m);
        ensure_eq!(c, Kind::Geo, r.bucket_count, st.count, "buckets at {} elements", i + 1);
        ensure_eq!(c, Kind::Geo, raw::hash(&s).bucket_count, st.count, "buckets of the set at {} elements", i + 1);
        if r.bucket_count != count {
            count = r.bucket_count;
            rehashes += 1;
            at.push(i);
        }
    }
    let bound = 64 - (n as u64).leading_zeros() as u64 + 2;
    ensure!(c, Kind::Steps, rehashes <= bound, "{rehashes} rehashes for {n} insertions");
    let h = cb_count(Cb::Hash) - h0;
    ensure!(c, Kind::Steps, h <= 2 * (n as u64 * 3 + 4 * n as u64 + 100), "{h} hash calls for {n} insertions");
    st.walk(c, &m, &vals::<u64>(), Kind::Func, "growing");
    for i in 0..n {
        let g = (i as u64).wrapping_mul(7).wrapping_add(salt);
        let k = cb_count(Cb::Eq);
        ensure_eq!(c, Kind::Func, m.get(&g).copied(), Some(i as u64), "get of key {g} among {n}");
        let k = cb_count(Cb::Eq) - k;
        ensure!(c, Kind::Steps, k <= 64, "get made {k} comparisons under a good hash");
        ensure!(c, Kind::Func, m.get(&(g + 1)).is_none() && s.contains_key(&g) && !s.contains_key(&(g + 3)), "lookup near key {g}");
    }
    for i in (0..n).filter(|i| i % 3 == 0) {
        let g = (i as u64).wrapping_mul(7).wrapping_add(salt);
        ensure_eq!(c, Kind::Func, m.remove(&g), Some(i as u64), "remove of key {g}");
        ensure_eq!(c, Kind::Func, s.remove(&g), Some(g), "remove of key {g} from the set");
        st.m.remove(&g);
    }
    st.walk(c, &m, &vals::<u64>(), Kind::Func, "removing a third");
    ensure_eq!(c, Kind::Func, (m.len(), s.len(), s.iter().count()), (st.m.len(), st.m.len(), st.m.len()), "sizes");
    c.op("big", n as u64, rehashes);
    c.max("max elements", n as u64);
    c.max("max buckets", count as u64);
    c.count_n("rehashes", rehashes);
    c.eff();
    c.eff();
}

fn bulk<K: Elem, W: Elem, F: Cf<K>>(c: &mut Ctx) {
    set_mode(c);
    let n = if c.rng.chance(1, 8) { c.rng.below(250) } else { c.rng.below(12) };
    let universe = c.rng.range(1, n * 2 + 2);
    let mut pairs = Vec::new();
    let mut keys = Vec::new();
    let mut model: BTreeMap<u64, Val> = BTreeMap::new();
    let mut smodel: BTreeMap<u64, u32> = BTreeMap::new();
    for _ in 0..n {
        let v = c.rng.below(universe) as u64;
        let (k, g, kid) = mk::<K>(v);
        let (w, vg, vid) = mk::<W>(c.rng.next());
        let e = model.entry(F::class(g)).or_insert(Val { key: g, kid, val: vg, vid });
        (e.val, e.vid) = (vg, vid);
        pairs.push((k, w));
        let (k, _, kid) = mk::<K>(v);
        smodel.entry(F::class(g)).or_insert(kid);
        keys.push(k);
    }
    c.op("bulk", n as u64, universe as u64);
    let m = F::collect(c, pairs);
    let s = F::collect_set(c, keys);
    c.sync();
    let mut st = St::<K, W, F>::new(&m);
    for (x, v) in &model {
        st.grow();
        st.m.insert(*x, *v);
    }
    if st.m.len() != m.len() {
        c.report(Kind::Copy, format!("{} pairs with {} keys gave a map of {}", n, st.m.len(), m.len()));
    }
    check(c, &m, &mut st, Kind::Func, "collecting");
    for o in model.values() {
        let got = m.get(&K::mk(o.key)).map(|w| (w.get(), w.ident()));
        if got != Some((o.val, o.vid)) {
            c.report(Kind::Copy, format!("key {} holds {got:?} after collecting", o.key));
            c.fail(Kind::Func, format!("key {} holds {got:?} after collecting", o.key));
        }
        if W::TRACKED {
            ensure_eq!(c, Kind::Copy, (clones_of(o.vid), clones_of(o.kid)), (0, 0), "clones of collected pairs");
        }
    }
    ensure_eq!(c, Kind::Func, s.len(), smodel.len(), "keys collected into a set");
    let mut got: Vec<(u64, u32)> = s.iter().map(|k| (F::class(k.get()), k.ident())).collect();
    got.sort_unstable();
    let exp: Vec<(u64, u32)> = smodel.into_iter().map(|(a, b)| (a, if K::TRACKED { b } else { 0 })).collect();
    if got != exp {
        c.report(Kind::Copy, format!("set collected {got:?}, expected {exp:?}"));
        c.fail(Kind::Func, format!("set collected {got:?}, expected {exp:?}"));
    }
    c.eff();
    c.eff();
}
fn r_bulk(c: &mut Ctx) {
    for _ in 0..6 {
        match c.rng.below(5) {
            0 => bulk::<u32, Tok8, Def>(c),
            1 => bulk::<Tok8, Tok24, Def>(c),
            2 => bulk::<u8, u8, Def>(c),
            3 => bulk::<Tok8, Tok8, Custom<1>>(c),
            _ => bulk::<std::string::String, Tok4, Custom<0>>(c),
        }
    }
}

// --- images made by hand -------------------------------------------------------------------------

/// Build a table of the given geometry in memory, as C++ would have left it.
struct Built {
    words: [*mut u8; 5],
}
fn build<K: Elem, W: Elem, F: Cf<K>>(c: &mut Ctx, count: u32, keys: &[u64], load: f32, growth: f32, next_resize: u32, arena: u32, model: &mut Model) -> Built {
    let (voff, next, size, align) = raw::hash_node::<K, W>();
    let arr = if count == 1 {
        static EMPTY: [usize; 2] = [0, !0];
        EMPTY.as_ptr() as usize
    } else {
        let a = mem::mon_alloc(arena, (count as usize + 1) * 8, 8) as usize;
        unsafe {
            std::ptr::write_bytes(a as *mut u8, 0, count as usize * 8);
            ((a + count as usize * 8) as *mut mon::raw::Word).write_word(!0);
        }
        a
    };
    for g in keys {
        let (k, g, kid) = mk::<K>(*g);
        let (w, vg, vid) = mk::<W>(c.rng.next());
        let slot = arr + F::h(g) % count as usize * 8;
        unsafe {
            let node = mem::mon_alloc(arena, size, align) as usize;
            (node as *mut K).write(k);
            ((node + voff) as *mut W).write(w);
            let mut at = slot;
            // anywhere in the chain
            while raw::word(at, 0) != 0 && c.rng.chance(1, 2) {
                at = raw::word(at, 0) + next;
            }
            ((node + next) as *mut mon::raw::Word).write_word(raw::word(at, 0));
            (at as *mut mon::raw::Word).write_word(node);
        }
        model.insert(F::class(g), Val { key: g, kid, val: vg, vid });
    }
    let mut words = [std::ptr::null_mut::<u8>(); 5];
    words[0] = (c.rng.next()) as usize as *mut u8; // an empty functor: anything may be there
    words[1] = (arr as u64) as usize as *mut u8;
    words[2] = (count as u64 | (keys.len() as u64) << 32) as usize as *mut u8;
    words[3] = (load.to_bits() as u64 | (growth.to_bits() as u64) << 32) as usize as *mut u8;
    words[4] = (next_resize as u64 | (arena as u64) << 32) as usize as *mut u8;
    Built { words }
}

fn image<K: Elem, W: Elem, F: Cf<K>>(c: &mut Ctx, count: u32, n: usize) {
    set_mode(c);
    assert_eq!(std::mem::size_of::<M<K, W, F>>(), 40, "harness: size of a hash map");
    let arena = MonAlloc::fresh().arena();
    let mut model = Model::new();
    let (load, growth) = if c.rng.chance(1, 3) { (*c.rng.pick(&[0.5f32, 2.0, 0.7, 3.0]), *c.rng.pick(&[2.0f32, 1.5, 4.0])) } else { (1.0, 2.0) };
    let n = (n as f32 * load) as usize;
    let keys: Vec<u64> = {
        let mut seen = std::collections::HashSet::new();
        (0..n as u64).map(|i| K::norm(i * 3 + 1)).filter(|g| seen.insert(F::class(*g))).collect()
    };
    let n = keys.len();
    // the limit as growth leaves it, or one left behind by a policy set since
    let full = (count as f32 * load).ceil() as u32;
    let limit = match c.rng.below(6) {
        _ if count == 1 => 0,
        0 => 0,
        1 => c.rng.below(full as usize + 1) as u32,
        2 => n as u32,
        _ => full,
    };
    let b = build::<K, W, F>(c, count, &keys, load, growth, limit, arena, &mut model);
    let mut m: M<K, W, F> = unsafe { std::mem::transmute_copy(&b.words) };
    let salt = c.rng.0;
    c.op("image", count as u64, n as u64 | salt << 16);
    let mut st = St::<K, W, F>::new(&m);
    st.m = model;
    st.count = count;
    st.next_resize = raw::hash(&m).next_resize;
    (st.load, st.growth) = (load, growth);
    let im = Kind::Image;
    ensure_eq!(c, im, (m.len(), m.is_empty()), (n, n == 0), "size of an image");
    for g in 0..n as u64 * 3 + 3 {
        let g = K::norm(g);
        let got = m.get(&K::mk(g)).map(|w| w.get());
        ensure_eq!(c, im, got, st.row(g).map(|o| o.val), "get of key {g} in an image of {count} buckets");
    }
    let mut got: Vec<u64> = m.iter().map(|(k, _)| k.get()).collect();
    got.sort_unstable();
    let mut exp: Vec<u64> = keys.clone();
    exp.sort_unstable();
    ensure_eq!(c, im, got, exp, "iteration over an image");
    // modify it
    for step in 0..3 * n.min(30) + 6 {
        let (k, g, kid) = mk::<K>(c.rng.below(4 * n + 4) as u64);
        let (x, vg, vid) = mk::<W>(step as u64);
        let old = st.row(g);
        if c.rng.chance(1, 2) {
            let got = m.insert(k, x).map(|w| w.get());
            ensure_eq!(c, im, got, old.map(|o| o.val), "insert into an image");
            match old {
                Some(o) => {
                    st.m.insert(F::class(g), Val { val: vg, vid, ..o });
                }
                None => {
                    st.grow();
                    st.m.insert(F::class(g), Val { key: g, kid, val: vg, vid });
                }
            }
        } else {
            let got = m.remove_entry(&k).map(|(k, w)| (k.ident(), w.ident()));
            ensure_eq!(c, im, got, old.map(|o| (o.kid, o.vid)), "remove_entry from an image");
            st.m.remove(&F::class(g));
        }
        check(c, &m, &mut st, im, "modifying an image");
    }
    if c.rng.chance(1, 3) {
        m.clear();
        st.m.clear();
        check(c, &m, &mut st, im, "clearing an image");
    }
    c.eff();
    c.eff();
    drop(m);
}
fn r_image(c: &mut Ctx) {
    // any bucket count, prime or not
    let count = *c.rng.pick(&[1u32, 2, 3, 4, 5, 7, 8, 16, 23, 64, 97, 100]);
    let n = if count == 1 { 0 } else { c.rng.below(count as usize + 1) };
    match c.index % 6 {
        0 => image::<Tok8, Tok8, Def>(c, count, n),
        1 => image::<u8, u32, Def>(c, count, n),
        2 => image::<u64, Tok24, Custom<1>>(c, count, n),
        3 => image::<TokA16, Tok8, Custom<0>>(c, count, n),
        4 => image::<u32, u64, Def>(c, count, n),
        _ => image::<Tok12, u8, Custom<0>>(c, count, n),
    }
}

/// the growth rule, for every listed prime the machine can hold, through policies as C++ sets them
fn r_policy(c: &mut Ctx) {
    policy(c, c.index / 4)
}
fn r_policy_big(c: &mut Ctx) {
    policy(c, 140 + c.index / 4 % 46)
}
fn policy(c: &mut Ctx, i: u64) {
    HASH_MODE.store(3, Relaxed);
    let i = i as usize;
    let p = raw::PRIMES[i];
    // a target just at, one below and one above the prime
    let target = match c.index % 4 {
        0 => p,
        1 => p - 1,
        2 => p + 1,
        _ => p.saturating_sub(p / 3).max(1),
    };
    let loads: [f32; 4] = [1.0, 0.5, 2.0, 0.25];
    for (j, &load) in loads.iter().enumerate() {
        // count * growth == target, with n elements and the limit reached
        let (count, growth) = if target % 2 == 0 && target >= 8 && j % 2 == 0 { (4u32, target as f32 / 4.0) } else { (2u32, target as f32 / 2.0) };
        let full = (count as f32 * load).ceil() as u32;
        let arena = MonAlloc::fresh().arena();
        let mut model = Model::new();
        let keys: Vec<u64> = (0..full as u64).collect();
        let b = build::<u64, u64, Custom<0>>(c, count, &keys, load, growth, full, arena, &mut model);
        let mut m: M<u64, u64, Custom<0>> = unsafe { std::mem::transmute_copy(&b.words) };
        let r = raw::hash(&m);
        let (want, next) = r.policy();
        c.op("policy", target as u64, want as u64);
        m.insert(1 << 20, 5);
        let r2 = raw::hash(&m);
        ensure_eq!(c, Kind::Geo, (r2.bucket_count, r2.next_resize), (want, next), "buckets and resize limit after growing from {count} by {growth} at load {load}");
        ensure_eq!(c, Kind::Geo, (r2.max_load, r2.growth), (load, growth), "the policy's own factors");
        model.insert(1 << 20, Val { key: 1 << 20, kid: 0, val: 5, vid: 0 });
        let (_, next_off, size, _) = raw::hash_node::<u64, u64>();
        match r2.walk(next_off, size) {
            Err(e) => c.fail(Kind::Geo, format!("{e} after growing to {}", r2.bucket_count)),
            Ok(nodes) => {
                ensure_eq!(c, Kind::Geo, nodes.len(), model.len(), "nodes after growing");
                for (b, node) in nodes {
                    let g = unsafe { *(node as *const u64) };
                    ensure_eq!(c, Kind::Geo, b, hash_now(g) % r2.bucket_count as usize, "bucket of key {g}");
                }
            }
        }
        for (g, v) in &model {
            ensure_eq!(c, Kind::Func, m.get(g).copied(), Some(v.val), "get of key {g} after growing to {want}");
        }
        c.max("largest bucket count grown to", want as u64);
    }
    c.eff();
    c.eff();
}

// --- compatibility iterators -----------------------------------------------------------------------

fn cw<X>(x: &X) -> (usize, usize) {
    assert_eq!(std::mem::size_of::<X>(), 16, "harness: compat iterator size");
    unsafe { (raw::word(x as *const X as usize, 0), raw::word(x as *const X as usize, 8)) }
}
fn mkw<X>(w: (usize, usize)) -> X {
    assert_eq!(std::mem::size_of::<X>(), 16, "harness: compat iterator size");
    let a = [w.0, w.1];
    unsafe { std::mem::transmute_copy(&a) }
}

/// EASTL: mpNode = mpNode->mpNext; while(mpNode == NULL) mpNode = *++mpBucket;
fn eastl_walk(r: &RawHash, mut a: (usize, usize), z: (usize, usize), next: usize) -> Result<Vec<usize>, String> {
    let mut out = Vec::new();
    let last = r.buckets + r.bucket_count as usize * 8;
    while a.0 != z.0 {
        if a.1 < r.buckets || a.1 > last {
            return Err("bucket pointer outside the table".into());
        }
        if a.0 == usize::MAX || a.0 == 0 {
            return Err("runs past the end".into());
        }
        out.push(a.0);
        if out.len() > r.element_count as usize {
            return Err("visits more nodes than there are".into());
        }
        a.0 = unsafe { raw::word(a.0, next) };
        while a.0 == 0 {
            a.1 += 8;
            if a.1 > last {
                return Err("bucket pointer runs past the sentinel".into());
            }
            a.0 = unsafe { raw::word(a.1, 0) };
        }
    }
    Ok(out)
}

fn compat<K: Elem, W: Elem, F: Cf<K>>(c: &mut Ctx, n: usize) {
    if n > 1000 {
        HASH_MODE.store(0, Relaxed);
        c.max("max pairs iterated", n as u64);
    } else {
        set_mode(c);
    }
    let mut m: M<K, W, F> = F::map(c);
    let mut s: Set<K, F> = F::set(c);
    for i in 0..n {
        m.insert(K::mk(i as u64 * 5), W::mk(c.rng.next()));
        s.insert(K::mk(i as u64 * 5));
    }
    for _ in 0..c.rng.below(n / 2 + 1) {
        let k = K::mk(c.rng.below(n) as u64 * 5);
        m.remove(&k);
        s.remove(&k);
    }
    if c.rng.chance(1, 8) {
        m.clear();
        s.clear();
    }
    let n = m.len();
    let (voff, next, size, _) = raw::hash_node::<K, W>();
    let r = raw::hash(&m);
    let order = match r.walk(next, size) {
        Ok(o) => o,
        Err(e) => c.fail(Kind::Geo, e),
    };
    let end = (usize::MAX, r.buckets + r.bucket_count as usize * 8);
    let pos = |i: usize| order.get(i).map_or(end, |(b, p)| (*p, r.buckets + b * 8));
    let key = |p: usize| unsafe { (*(p as *const K)).get() };
    let val = |p: usize| unsafe { (*((p + voff) as *const W)).get() };
    for round in 0..5 {
        let k = match round {
            0 => 0,
            1 => n,
            _ => c.rng.below(n + 1),
        };
        c.op("compat", k as u64, n as u64);
        let exp: Vec<usize> = order[k..].iter().map(|x| x.1).collect();
        let expv: Vec<(u64, u64)> = exp.iter().map(|p| (key(*p), val(*p))).collect();
        macro_rules! adv {
            ($it:expr) => {{
                let mut it = $it;
                for i in 0..k {
                    ensure!(c, Kind::Iter, it.next().is_some(), "iterator ends at {i} of {n}");
                }
                it
            }};
        }
        macro_rules! verify {
            ($b:expr, $e:expr, $what:expr) => {{
                let (b, e) = (cw(&$b), cw(&$e));
                match eastl_walk(&r, b, e, next) {
                    Err(m) => c.fail(Kind::Compat, format!("{} after {k} of {n} steps: stepping as C++ does {m}", $what)),
                    Ok(got) => ensure!(c, Kind::Compat, got == exp, "{} after {k} of {n} steps denotes {} elements, expected {}", $what, got.len(), exp.len()),
                }
                ensure_eq!(c, Kind::Compat, e, end, "{} after {k} of {n} steps: end iterator", $what);
                ensure_eq!(c, Kind::Compat, b, pos(k), "{} after {k} of {n} steps: begin iterator", $what);
            }};
        }
        macro_rules! drive {
            ($it:expr, $what:expr) => {{
                let mut it = $it;
                let got: Vec<(u64, u64)> = it.by_ref().take(n + 2).map(|(k, w)| (k.get(), w.get())).collect();
                ensure!(c, Kind::Compat, got == expv, "{} ({k} of {n} steps in) yields {} elements, expected {}", $what, got.len(), expv.len());
                ensure!(c, Kind::Compat, it.next().is_none(), "{} goes on after its end", $what);
                c.count("compat pairs driven");
            }};
        }
        let (b, e) = adv!(m.iter()).into_compat();
        verify!(b, e, "Iter::into_compat");
        drive!(unsafe { eastl_rs::hash_map::iter::Iter::from_compat(b, e) }, "Iter::from_compat(into_compat)");
        let (b, e) = adv!(m.iter_mut()).into_compat();
        verify!(b, e, "IterMut::into_compat");
        drive!(unsafe { eastl_rs::hash_map::iter::IterMut::from_compat(b, e) }, "IterMut::from_compat(into_compat)");
        let (b, e) = adv!(m.iter_mut()).into_compat_mut();
        verify!(b, e, "IterMut::into_compat_mut");
        drive!(unsafe { eastl_rs::hash_map::iter::Iter::from_compat_mut(b, e) }, "Iter::from_compat_mut(into_compat_mut)");
        // a clone converts alike
        let it = adv!(m.iter());
        let (b, e) = it.clone().into_compat();
        let (b2, e2) = it.into_compat();
        ensure!(c, Kind::Compat, cw(&b) == cw(&b2) && cw(&e) == cw(&e2), "a cloned iterator converts differently");
        // pairs built by the rule
        drive!(unsafe { eastl_rs::hash_map::iter::Iter::<K, W>::from_compat(mkw(pos(k)), mkw(end)) }, "Iter::from_compat of a hand-made pair");
        drive!(unsafe { eastl_rs::hash_map::iter::Iter::<K, W>::from_compat_mut(mkw(pos(k)), mkw(end)) }, "Iter::from_compat_mut of a hand-made pair");
        drive!(unsafe { eastl_rs::hash_map::iter::IterMut::<K, W>::from_compat(mkw(pos(k)), mkw(end)) }, "IterMut::from_compat of a hand-made pair");
        // round trip from a hand-made pair
        let (b, e) = unsafe { eastl_rs::hash_map::iter::Iter::<K, W>::from_compat(mkw(pos(k)), mkw(end)) }.into_compat();
        verify!(b, e, "Iter::from_compat(..).into_compat");
    }
    ensure!(c, Kind::Compat, raw::hash(&m) == r, "converting iterators changed the map");
    // the set
    let (_, next, size, _) = raw::hash_node::<K, ()>();
    let r = raw::hash(&s);
    let order = match r.walk(next, size) {
        Ok(o) => o,
        Err(e) => c.fail(Kind::Geo, e),
    };
    let end = (usize::MAX, r.buckets + r.bucket_count as usize * 8);
    for _ in 0..3 {
        let k = c.rng.below(order.len() + 1);
        let pos = order.get(k).map_or(end, |(b, p)| (*p, r.buckets + b * 8));
        let exp: Vec<u64> = order[k..].iter().map(|x| key(x.1)).collect();
        let mut it = s.iter();
        for _ in 0..k {
            it.next();
        }
        let (b, e) = it.into_compat();
        ensure_eq!(c, Kind::Compat, (cw(&b), cw(&e)), (pos, end), "set iterator after {k} of {} steps", order.len());
        let got: Vec<u64> = unsafe { eastl_rs::hash_set::iter::Iter::from_compat(b, e) }.map(|k| k.get()).collect();
        ensure!(c, Kind::Compat, got == exp, "set from_compat(into_compat) yields {} elements, expected {}", got.len(), exp.len());
        let got: Vec<u64> = unsafe { eastl_rs::hash_set::iter::Iter::<K>::from_compat(mkw(pos), mkw(end)) }.map(|k| k.get()).collect();
        ensure!(c, Kind::Compat, got == exp, "set from_compat of a hand-made pair yields {} elements, expected {}", got.len(), exp.len());
    }
    c.eff();
    c.eff();
}
fn r_compat(c: &mut Ctx) {
    let n = match c.rng.below(5) {
        0 => c.rng.below(3),
        1 => c.rng.below(200),
        _ => c.rng.below(30),
    };
    match c.index % 5 {
        // more than 2^8, more than 2^16
        1 if c.index % 100 == 6 && !cfg!(miri) => {
            let n = *c.rng.pick(&[1000, 5000, 40_000, 70_000]) + c.rng.below(300);
            compat::<u32, u64, Def>(c, n)
        }
        0 => compat::<Tok8, Tok8, Def>(c, n),
        1 => compat::<u32, u64, Def>(c, n),
        2 => compat::<u64, u8, Custom<0>>(c, n),
        3 => compat::<std::string::String, Tok24, Custom<0>>(c, n),
        _ => compat::<u8, Tok8, Def>(c, n),
    }
}

/// n operations on one crowded bucket: the worst case stays linear in that bucket only
fn r_chain(c: &mut Ctx) {
    HASH_MODE.store(*c.rng.pick(&[1u32, 4, 9, 2]), Relaxed);
    let n = c.rng.range(50, 400);
    let mut m: M<Tok8, Tok8, Def> = unsafe { HashMap::new_in(MonAlloc::fresh()) };
    let mut st = St::<Tok8, Tok8, Def>::new(&m);
    for i in 0..n {
        let (k, g, kid) = mk::<Tok8>(i as u64);
        let (x, vg, vid) = mk::<Tok8>(i as u64);
        let inb = st.in_bucket(g);
        let c0 = raw::hash(&m).bucket_count;
        let t = st.begin();
        m.insert(k, x);
        st.steps(c, t, g, i, &inb, c0, raw::hash(&m).bucket_count != c0, "insert");
        st.grow();
        st.m.insert(g, Val { key: g, kid, val: vg, vid });
    }
    check(c, &m, &mut st, Kind::Func, "filling one bucket");
    st.walk(c, &m, &vals::<Tok8>(), Kind::Func, "filling one bucket");
    let mut order: Vec<u64> = (0..n as u64).collect();
    for i in 0..n {
        let j = c.rng.range(i, n - 1);
        order.swap(i, j);
    }
    let keep = c.rng.below(n);
    for (i, g) in order.into_iter().enumerate() {
        if i >= keep {
            break;
        }
        let k = Tok8::mk(g);
        let inb = st.in_bucket(g);
        let c0 = raw::hash(&m).bucket_count;
        let t = st.begin();
        let got = m.remove(&k).map(|w| w.ident());
        st.steps(c, t, g, st.m.len(), &inb, c0, false, "remove");
        let o = st.m.remove(&g).unwrap();
        ensure_eq!(c, Kind::Func, got, Some(o.vid), "remove of key {g} from a crowded bucket");
        if i % 16 == 0 {
            st.walk(c, &m, &vals::<Tok8>(), Kind::Func, "removing from a crowded bucket");
        }
    }
    c.op("chain", n as u64, keep as u64);
    check(c, &m, &mut st, Kind::Func, "emptying one bucket");
    c.eff();
    c.eff();
}

const ALLP: &[&str] = &["C06", "C08", "C17", "C18", "C19", "C24", "C25", "C26", "C27", "C28"];
const ALLS: &[&str] = &["C07", "C08", "C17", "C18", "C19", "C24", "C25", "C26", "C27", "C28"];
static RIGS: &[Rig] = &[
    Rig { name: "map_history", props: ALLP, scale: rnd(1200, 60_000), f: r_map },
    Rig { name: "set_history", props: ALLS, scale: rnd(800, 40_000), f: r_set },
    Rig { name: "hash_sweep", props: &["C06", "C08", "C17", "C18", "C25"], scale: fixed(10 * 30), f: r_sweep },
    Rig { name: "hash_chain", props: &["C06", "C08", "C17", "C18", "C25"], scale: rnd(40, 2000), f: r_chain },
    Rig { name: "hash_big", props: &["C06", "C07", "C08", "C25"], scale: rnd(2, 16), f: r_big },
    Rig { name: "hash_bulk", props: &["C06", "C07", "C17", "C18", "C26"], scale: rnd(400, 20_000), f: r_bulk },
    Rig { name: "hash_image", props: &["C24", "C06", "C08", "C18"], scale: rnd(400, 20_000), f: r_image },
    Rig { name: "hash_policy", props: &["C08"], scale: fixed(4 * 140), f: r_policy },
    Rig { name: "hash_policy_big", props: &["C08"], scale: rnd(1, 4 * 46), f: r_policy_big },
    Rig { name: "hash_compat", props: &["C29"], scale: rnd(500, 30_000), f: r_compat },
    Rig { name: "hash_iter", props: &["C09"], scale: rnd(300, 20_000), f: r_map },
    Rig { name: "set_iter", props: &["C09"], scale: rnd(200, 10_000), f: r_set },
];

fn main() {
    mon::engine::main(RIGS);
}
