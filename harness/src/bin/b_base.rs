//! Default hashes and the default allocator.
use eastl_rs::allocator::{Allocator, DefaultAllocator};
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::hash_map::HashMap;
use eastl_rs::{DefaultDeque, DefaultHashMap, DefaultHashSet, DefaultList, DefaultQueue, DefaultString, DefaultVector, DefaultVectorMap};
use mon::engine::{fixed, rnd};
use mon::*;
use moveit::New;
use std::ffi::{c_char, CString};
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;
use std::sync::atomic::Ordering::Relaxed;

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

// ---------------------------------------------------------------------------------------------
// C22: default hashes

/// FNV-1, 32 bits, from its definition
fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0x811c_9dc5;
    for &b in bytes {
        h = h * 0x0100_0193 % (1 << 32);
        h ^= b as u64;
    }
    h
}
/// C++ `static_cast<size_t>(x)` of a float, saturating; computed from the bits
fn trunc_bits(neg: bool, exp: i32, mant: u64, mant_bits: i32) -> u64 {
    // value = mant * 2^(exp - mant_bits)
    if neg {
        return 0;
    }
    let sh = exp - mant_bits;
    if sh >= 0 {
        if mant == 0 {
            0
        } else if 64 - mant.leading_zeros() as i32 + sh > 64 {
            u64::MAX
        } else {
            mant << sh
        }
    } else if -sh >= 64 {
        0
    } else {
        mant >> -sh
    }
}
fn f32_hash(b: u32) -> u64 {
    let (neg, e, m) = (b >> 31 == 1, (b >> 23 & 255) as i32, (b & 0x7f_ffff) as u64);
    match e {
        255 if m != 0 => 0,
        255 => {
            if neg {
                0
            } else {
                u64::MAX
            }
        }
        0 => trunc_bits(neg, -126, m, 23),
        _ => trunc_bits(neg, e - 127, m | 1 << 23, 23),
    }
}
fn f64_hash(b: u64) -> u64 {
    let (neg, e, m) = (b >> 63 == 1, (b >> 52 & 2047) as i32, b & ((1 << 52) - 1));
    match e {
        2047 if m != 0 => 0,
        2047 => {
            if neg {
                0
            } else {
                u64::MAX
            }
        }
        0 => trunc_bits(neg, -1022, m, 52),
        _ => trunc_bits(neg, e - 1023, m | 1 << 52, 52),
    }
}

fn bad(c: &mut Ctx, what: &str, v: String, got: usize, exp: u64) -> ! {
    c.fail(Kind::Hash, format!("default hash of {what} {v} is {got:#x}, EASTL's is {exp:#x}"))
}
macro_rules! want {
    ($c:expr, $t:ty, $v:expr, $e:expr) => {{
        let v: $t = $v;
        let got = <DefaultHash<$t> as Hash<$t>>::hash(&v);
        let e: u64 = $e;
        if got as u64 != e {
            bad($c, stringify!($t), format!("{v:?}"), got, e);
        }
    }};
}
/// the low `bits` bits of v as a signed number, sign-extended to the word
fn sext(v: u64, bits: u32) -> u64 {
    ((v << (64 - bits)) as i64 >> (64 - bits)) as u64
}
fn low(v: u64, bits: u32) -> u64 {
    if bits == 64 {
        v
    } else {
        v & ((1 << bits) - 1)
    }
}
fn ints(c: &mut Ctx, v: u64) {
    want!(c, u8, v as u8, low(v, 8));
    want!(c, i8, v as u8 as i8, sext(v, 8));
    want!(c, u16, v as u16, low(v, 16));
    want!(c, i16, v as u16 as i16, sext(v, 16));
    want!(c, u32, v as u32, low(v, 32));
    want!(c, i32, v as u32 as i32, sext(v, 32));
    want!(c, u64, v, v);
    want!(c, i64, v as i64, v);
    want!(c, usize, v as usize, v);
    want!(c, isize, v as usize as isize, v);
    want!(c, bool, v & 1 == 1, v & 1);
    want!(c, f32, f32::from_bits(v as u32), f32_hash(v as u32));
    want!(c, f64, f64::from_bits(v), f64_hash(v));
}

/// every value of the 8- and 16-bit types, one 1/64th per case
fn r_small(c: &mut Ctx) {
    c.op("all 16-bit values", c.index, 0);
    for v in 0..1024u64 {
        let v = c.index * 1024 + v;
        want!(c, u16, v as u16, v);
        want!(c, i16, v as u16 as i16, sext(v, 16));
        want!(c, u8, v as u8, low(v, 8));
        want!(c, i8, v as u8 as i8, sext(v, 8));
        want!(c, bool, v & 1 == 1, v & 1);
        // the upper halves of floats, with mantissas at the edges
        for lo in [0u64, 1, 0x7fff, 0x8000, 0xffff] {
            let b = v << 16 | lo;
            want!(c, f32, f32::from_bits(b as u32), f32_hash(b as u32));
            for lo2 in [0u64, 1, u32::MAX as u64] {
                let b = v << 48 | lo << 32 | lo2;
                want!(c, f64, f64::from_bits(b), f64_hash(b));
            }
        }
        c.count_n("numbers hashed", 25);
    }
    c.eff();
    c.eff();
}
fn r_ints(c: &mut Ctx) {
    c.op("numbers", c.rng.clone().next(), c.index);
    let per = if cfg!(miri) { 20 } else { 4000 };
    for i in 0..per {
        let r = c.rng.next();
        let v = match i % 6 {
            0 => r,
            1 => 1u64 << (r % 64),
            2 => (1u64 << (r % 64)).wrapping_sub(1),
            3 => !(1u64 << (r % 64)),
            4 => r >> (r >> 58),
            _ => sext(r >> 7, 1 + (r % 64) as u32),
        };
        ints(c, v);
        // floats near whole numbers
        let f = (v >> (r % 60)) as f64;
        want!(c, f64, f, f64_hash(f.to_bits()));
        want!(c, f64, -f, f64_hash((-f).to_bits()));
        want!(c, f64, f + 0.5, f64_hash((f + 0.5).to_bits()));
        let g = f as f32;
        want!(c, f32, g, f32_hash(g.to_bits()));
        want!(c, f32, g - 0.25, f32_hash((g - 0.25).to_bits()));
    }
    c.count_n("numbers hashed", 18 * per);
    c.eff();
    c.eff();
}
/// all 2^32 patterns of the 32-bit types, in 4096 cases (a sample of the cases when quick)
fn r_all32(c: &mut Ctx) {
    let base = (c.index as u32).reverse_bits() >> 20;
    c.op("every 32-bit pattern", base as u64, 0);
    for lo in 0..1u32 << 20 {
        let v = base << 20 | lo;
        let e = f32_hash(v);
        let f = <DefaultHash<f32> as Hash<f32>>::hash(&f32::from_bits(v)) as u64;
        let u = <DefaultHash<u32> as Hash<u32>>::hash(&v) as u64;
        let i = <DefaultHash<i32> as Hash<i32>>::hash(&(v as i32)) as u64;
        if f != e || u != v as u64 || i != sext(v as u64, 32) {
            want!(c, f32, f32::from_bits(v), e);
            want!(c, u32, v, v as u64);
            want!(c, i32, v as i32, sext(v as u64, 32));
        }
    }
    c.count_n("numbers hashed", 3 << 20);
    c.eff();
    c.eff();
}

fn text(c: &mut Ctx) -> std::string::String {
    let n = match c.rng.below(8) {
        0 => 0,
        1 => 1,
        2..=5 => c.rng.range(2, 24),
        6 => c.rng.range(24, 300),
        _ => c.rng.range(1, 5000),
    };
    let n = if cfg!(miri) { n.min(40) } else { n };
    let mode = c.rng.below(6);
    let mut s = std::string::String::new();
    for _ in 0..n {
        let r = c.rng.next();
        let ch = match mode {
            0 => (b'a' + (r % 26) as u8) as char,
            1 => (r % 128) as u8 as char,
            2 => char::from_u32(0x80 + (r % 0x700) as u32).unwrap(),
            3 => char::from_u32((r % 0xd800) as u32).unwrap(),
            4 => char::from_u32(0x10000 + (r % 0x100000) as u32).unwrap(),
            _ => char::from_u32((r % 0x11_0000) as u32).unwrap_or('\u{7f}'),
        };
        s.push(ch);
    }
    s
}

fn forms(c: &mut Ctx, s: &str) {
    let e = fnv(s.as_bytes());
    let say = |s: &str| if s.len() > 60 { format!("({} bytes)", s.len()) } else { format!("{s:?}") };
    let got = <DefaultHash<str> as Hash<str>>::hash(s);
    if got as u64 != e {
        bad(c, "str", say(s), got, e);
    }
    let got = <DefaultHash<&str> as Hash<&str>>::hash(&s);
    if got as u64 != e {
        bad(c, "&str", say(s), got, e);
    }
    // a String in whatever state led to this text
    let t: eastl_rs::String<MonAlloc> = match c.rng.below(4) {
        0 => eastl_rs::String::from(s),
        1 => {
            let mut t = eastl_rs::String::with_capacity(s.len() + 9);
            t.assign("other text, longer or shorter");
            t.assign(s);
            t
        }
        2 => {
            let mut t = eastl_rs::String::new_in(MonAlloc::fresh());
            for ch in s.chars() {
                t.push(ch);
            }
            t
        }
        _ => {
            let mut t = eastl_rs::String::from_in(s, MonAlloc::fresh());
            t.push('é');
            t.pop();
            t.reserve(5);
            t
        }
    };
    let got = <DefaultHash<eastl_rs::String<MonAlloc>> as Hash<_>>::hash(&t);
    if got as u64 != e {
        bad(c, "String", say(s), got, e);
    }
    let mut t = Lodge::new(t);
    t.relocate(c);
    let u = t.clone();
    let got = <DefaultHash<eastl_rs::String<MonAlloc>> as Hash<_>>::hash(&u);
    if got as u64 != e {
        bad(c, "String (a clone)", say(s), got, e);
    }
    let d: DefaultString = DefaultString::from(s);
    let got = <DefaultHash<DefaultString> as Hash<_>>::hash(&d);
    if got as u64 != e {
        bad(c, "String (default allocator)", say(s), got, e);
    }
    let z: Vec<u8> = s.bytes().filter(|&b| b != 0).collect();
    cstr(c, &z);
    c.count_n("strings hashed", 6);
}
fn cstr(c: &mut Ctx, z: &[u8]) {
    let e = fnv(z);
    let cs = CString::new(z).unwrap();
    let p: *const c_char = cs.as_ptr();
    let got = <DefaultHash<*const c_char> as Hash<*const c_char>>::hash(&p);
    if got as u64 != e {
        bad(c, "C string", format!("{:?}", &z[..z.len().min(40)]), got, e);
    }
}
fn r_strings(c: &mut Ctx) {
    let per = if cfg!(miri) { 3 } else { 40 };
    for _ in 0..per {
        let s = text(c);
        c.op("text", rng_mix(s.as_bytes()), s.len() as u64);
        forms(c, &s);
        // any bytes, as C text
        let n = c.rng.below(40);
        let z: Vec<u8> = (0..n).map(|_| 1 + (c.rng.next() % 255) as u8).collect();
        cstr(c, &z);
        c.count("byte strings hashed");
        c.eff();
    }
}
fn rng_mix(b: &[u8]) -> u64 {
    b.iter().fold(1, |h, &x| rng::mix(h, x as u64))
}
/// every single character, and pairs of bytes
fn r_chars(c: &mut Ctx) {
    let base = c.index as u32 * 0x1100;
    c.op("all characters", base as u64, 0);
    for v in base..base + 0x1100 {
        let Some(ch) = char::from_u32(v) else { continue };
        let mut b = [0; 4];
        let s: &str = ch.encode_utf8(&mut b);
        let e = fnv(s.as_bytes());
        let got = <DefaultHash<&str> as Hash<&str>>::hash(&s);
        if got as u64 != e {
            bad(c, "&str", format!("{s:?}"), got, e);
        }
        if v > 0 && v % 17 == 0 {
            forms(c, &s.repeat(1 + (v % 3) as usize));
        }
        c.count("strings hashed");
    }
    c.eff();
    c.eff();
}

/// the bucket C++ would look in, for tables with the default hash
fn bucket_of<K: PartialEq + Clone + 'static>(c: &mut Ctx, what: &str, keys: Vec<K>, h: impl Fn(&K) -> u64)
where
    DefaultHash<K>: Hash<K>,
{
    let mut m: HashMap<K, u16, MonAlloc> = HashMap::new();
    let mut model: Vec<K> = Vec::new();
    for k in &keys {
        if !model.contains(k) {
            model.push(k.clone());
        }
        m.insert(k.clone(), 7);
    }
    let r = raw::hash(&m);
    let (_, next, size, _) = raw::hash_node::<K, u16>();
    match r.walk(next, size) {
        Err(e) => c.fail(Kind::Geo, e),
        Ok(nodes) => {
            ensure_eq!(c, Kind::Func, nodes.len(), model.len(), "elements of a table with {what} keys");
            for (b, p) in nodes {
                let k = unsafe { &*(p as *const K) };
                let e = h(k);
                if b as u64 != e % r.bucket_count as u64 {
                    c.fail(Kind::Hash, format!("a {what} key of EASTL hash {e:#x} sits in bucket {b} of {}", r.bucket_count));
                }
                c.count("elements found in EASTL's bucket");
            }
        }
    }
    for k in &keys {
        ensure!(c, Kind::Hash, m.get(k).is_some(), "a {what} key that was inserted is not found");
    }
}
fn r_buckets(c: &mut Ctx) {
    let n = c.rng.range(1, if cfg!(miri) { 12 } else { 120 });
    c.op("table", n as u64, c.rng.clone().next());
    let raws: Vec<u64> = (0..n).map(|_| if c.rng.chance(1, 2) { c.rng.next() } else { (c.rng.next() % 64).wrapping_sub(32) }).collect();
    match c.index % 11 {
        0 => bucket_of(c, "i8", raws.iter().map(|&v| v as i8).collect(), |&k| sext(k as u8 as u64, 8)),
        1 => bucket_of(c, "i16", raws.iter().map(|&v| v as i16).collect(), |&k| sext(k as u16 as u64, 16)),
        2 => bucket_of(c, "i32", raws.iter().map(|&v| v as i32).collect(), |&k| sext(k as u32 as u64, 32)),
        3 => bucket_of(c, "u32", raws.iter().map(|&v| v as u32).collect(), |&k| k as u64),
        4 => bucket_of(c, "i64", raws.iter().map(|&v| v as i64).collect(), |&k| k as u64),
        5 => bucket_of(c, "bool", raws.iter().map(|&v| v & 1 == 1).collect(), |&k| k as u64),
        6 => bucket_of(c, "f32", raws.iter().map(|&v| v as i32 as f32 * 0.7).collect(), |&k| f32_hash(k.to_bits())),
        7 => bucket_of(c, "f64", raws.iter().map(|&v| v as i64 as f64 * 0.7).collect(), |&k| f64_hash(k.to_bits())),
        8 => bucket_of(c, "u16", raws.iter().map(|&v| v as u16).collect(), |&k| k as u64),
        9 => {
            let ks: Vec<eastl_rs::String<MonAlloc>> = (0..n.min(30)).map(|_| eastl_rs::String::from(text(c).as_str())).collect();
            bucket_of(c, "String", ks, |k| fnv(k.as_bytes()))
        }
        _ => {
            let ks: Vec<&'static str> = (0..n.min(30)).map(|_| &*Box::leak(text(c).into_boxed_str())).collect();
            let all = ks.clone();
            bucket_of(c, "&str", ks, |k| fnv(k.as_bytes()));
            for k in all {
                unsafe { drop(Box::from_raw(k as *const str as *mut str)) };
            }
        }
    }
    c.eff();
    c.eff();
}

// ---------------------------------------------------------------------------------------------
// C23: the default allocator

#[repr(C, align(4096))]
struct Page([u8; 4096]);
#[repr(C)]
struct Odd([u8; 3]);

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Typed(usize),
    Raw,
    Aligned,
}
struct Live {
    p: usize,
    n: usize,
    align: usize,
    seed: u64,
    how: How,
    count: usize,
}
impl Live {
    fn byte(&self, i: usize) -> u8 {
        (self.seed.wrapping_mul(0x9E37_79B9).wrapping_add((i as u64).wrapping_mul(0x5851_F42D)) >> 13) as u8
    }
    fn fill(&self) {
        for i in self.spots() {
            unsafe { ((self.p + i) as *mut u8).write(self.byte(i)) };
        }
    }
    fn first_bad(&self) -> Option<usize> {
        self.spots().find(|&i| unsafe { ((self.p + i) as *const u8).read() } != self.byte(i))
    }
    /// all bytes of a small block, the ends and a stride of a large one
    fn spots(&self) -> Box<dyn Iterator<Item = usize>> {
        let n = self.n;
        if n <= 1 << 14 {
            Box::new(0..n)
        } else {
            Box::new((0..256).chain((256..n - 256).step_by(509)).chain(n - 256..n))
        }
    }
}
const TYPED: usize = 9;
macro_rules! by_type {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k {
            0 => $f::<u8>($($a),*),
            1 => $f::<u16>($($a),*),
            2 => $f::<u32>($($a),*),
            3 => $f::<u64>($($a),*),
            4 => $f::<u128>($($a),*),
            5 => $f::<Odd>($($a),*),
            6 => $f::<[u64; 5]>($($a),*),
            7 => $f::<Al32>($($a),*),
            _ => $f::<Page>($($a),*),
        }
    };
}
fn typed_alloc<T>(a: &mut DefaultAllocator, n: usize) -> (usize, usize, usize) {
    (a.allocate::<T>(n) as usize, size_of::<T>(), align_of::<T>())
}
fn typed_free<T>(a: &mut DefaultAllocator, p: usize, n: usize) {
    unsafe { a.deallocate::<T>(p as *mut T, n) }
}
fn type_layout<T>() -> (usize, usize) {
    (size_of::<T>(), align_of::<T>())
}

fn how_many(c: &mut Ctx) -> usize {
    match c.rng.below(12) {
        0 => 1,
        1..=6 => c.rng.range(1, 80),
        7 | 8 => {
            let k = c.rng.range(1, 13);
            ((1usize << k) + c.rng.below(3)).saturating_sub(1).max(1)
        }
        9 | 10 => c.rng.range(80, 5000),
        _ => {
            if cfg!(miri) {
                77
            } else {
                c.rng.range(1 << 14, 1 << 20)
            }
        }
    }
}

fn take(c: &mut Ctx, a: &mut DefaultAllocator, live: &[Live]) -> Live {
    let how = match c.rng.below(3) {
        0 => How::Typed(c.rng.below(TYPED)),
        1 => How::Raw,
        _ => How::Aligned,
    };
    let mut count = how_many(c);
    let (p, n, align, seen) = match how {
        How::Typed(k) => {
            if k == TYPED - 1 {
                count = count.min(9);
            }
            count = count.min(1 << 16);
            let (p, size, align) = by_type!(k, typed_alloc(a, count));
            (p, count * size, align, last())
        }
        How::Raw => (a.allocate_raw(count) as usize, count, size_of::<usize>(), last()),
        How::Aligned => {
            let al = 1usize << c.rng.below(if cfg!(miri) { 9 } else { 15 });
            (a.allocate_raw_aligned(count, al) as usize, count, al, last())
        }
    };
    c.op("allocate", n as u64, align as u64);
    ensure!(c, Kind::DefAlloc, p != 0, "{how:?}: null for {n} bytes");
    ensure!(c, Kind::DefAlloc, p % align == 0, "{how:?}: block of {n} bytes at {p:#x} is not aligned to {align}");
    ensure!(c, Kind::DefAlloc, seen.0 >= n && seen.1 >= align, "{how:?}: asked the system for {} bytes aligned to {} where {n} aligned to {align} are needed", seen.0, seen.1);
    for l in live {
        ensure!(c, Kind::DefAlloc, p + n <= l.p || l.p + l.n <= p, "a block of {n} bytes overlaps a live one of {} bytes", l.n);
    }
    let l = Live { p, n, align, seed: c.rng.next(), how, count };
    l.fill();
    c.count("blocks taken");
    c.max("max block size", n as u64);
    c.max("max alignment", align as u64);
    l
}
fn last() -> (usize, usize) {
    (mem::G_LAST[0].load(Relaxed), mem::G_LAST[1].load(Relaxed))
}
fn give(c: &mut Ctx, a: &mut DefaultAllocator, l: Live) {
    if let Some(i) = l.first_bad() {
        c.fail(Kind::DefAlloc, format!("byte {i} of a live block of {} bytes changed", l.n));
    }
    // any entry point that means the same block may take it back
    let mut ways = vec![How::Aligned];
    if l.align == size_of::<usize>() {
        ways.push(How::Raw);
    }
    for k in 0..TYPED {
        let (size, align) = by_type!(k, type_layout());
        if align == l.align && l.n % size == 0 && (l.how == How::Typed(k) || c.rng.chance(1, 4)) {
            ways.push(How::Typed(k));
        }
    }
    let w = if c.rng.chance(1, 2) { l.how } else { *c.rng.pick(&ways) };
    c.op("deallocate", l.n as u64, l.align as u64);
    match w {
        How::Typed(k) => {
            let (size, _) = by_type!(k, type_layout());
            let n = if l.how == w { l.count } else { l.n / size };
            by_type!(k, typed_free(a, l.p, n))
        }
        How::Raw => unsafe { a.deallocate_raw(l.p as *mut (), l.n) },
        How::Aligned => unsafe { a.deallocate_raw_aligned(l.p as *mut (), l.n, l.align) },
    }
    if w != l.how {
        c.count("blocks returned through another entry point");
    }
    mem::g_sync();
    c.sync();
    c.count("blocks returned");
}

fn r_alloc(c: &mut Ctx) {
    let mut a = if c.rng.chance(1, 2) { DefaultAllocator::default() } else { DefaultAllocator::new() };
    let mut live: Vec<Live> = Vec::new();
    let steps = if cfg!(miri) { 40 } else { c.rng.range(20, 200) };
    let most = c.rng.range(1, 40);
    mem::G_FILL.store(c.rng.chance(1, 2), Relaxed);
    for _ in 0..steps {
        if live.len() < most && c.rng.chance(3, 5) {
            let l = take(c, &mut a, &live);
            live.push(l);
            c.eff();
        } else if !live.is_empty() {
            let i = c.rng.index(live.len());
            let l = live.swap_remove(i);
            give(c, &mut a, l);
            c.eff();
        }
        if c.rng.chance(1, 10) {
            // the allocator has no state: another one may go on
            a = DefaultAllocator::default();
        }
    }
    for l in &live {
        if let Some(i) = l.first_bad() {
            c.fail(Kind::DefAlloc, format!("byte {i} of a live block of {} bytes changed", l.n));
        }
    }
    while let Some(l) = live.pop() {
        give(c, &mut a, l);
    }
    mem::G_FILL.store(false, Relaxed);
}

/// every size up to 300 with every alignment up to 4096, and the edges
fn r_alloc_sweep(c: &mut Ctx) {
    let align = 1usize << (c.index % 13);
    let mut a = DefaultAllocator::new();
    c.op("sweep", align as u64, c.index / 13);
    let mut live = Vec::new();
    for n in 1 + c.index as usize / 13 * 50..=50 + c.index as usize / 13 * 50 {
        let p = a.allocate_raw_aligned(n, align) as usize;
        let seen = last();
        ensure!(c, Kind::DefAlloc, p != 0 && p % align == 0, "block of {n} bytes at {p:#x} is not aligned to {align}");
        ensure!(c, Kind::DefAlloc, seen.0 >= n && seen.1 >= align, "asked the system for {seen:?} where {n} bytes aligned to {align} are needed");
        let l = Live { p, n, align, seed: c.rng.next(), how: How::Aligned, count: n };
        l.fill();
        live.push(l);
        c.count("blocks taken");
    }
    let mut by: Vec<(usize, usize)> = live.iter().map(|l| (l.p, l.n)).collect();
    by.sort();
    ensure!(c, Kind::DefAlloc, by.windows(2).all(|w| w[0].0 + w[0].1 <= w[1].0), "live blocks overlap");
    for l in live {
        give(c, &mut a, l);
    }
    c.eff();
    c.eff();
}

/// blocks that change hands between threads
fn r_alloc_threads(c: &mut Ctx) {
    if cfg!(miri) {
        c.eff();
        c.eff();
        return;
    }
    c.op("threads", c.index, 4);
    let (tx, rx) = std::sync::mpsc::channel::<Live>();
    let rx = std::sync::Arc::new(std::sync::Mutex::new(rx));
    let seeds: Vec<u64> = (0..3).map(|_| c.rng.next()).collect();
    let errs: Vec<std::string::String> = std::thread::scope(|s| {
        let mut hs = Vec::new();
        for seed in seeds {
            let tx = tx.clone();
            hs.push(s.spawn(move || {
                let mut r = rng::Rng::new(seed);
                let mut a = DefaultAllocator::new();
                for _ in 0..150 {
                    let n = r.range(1, 400);
                    let align = 1usize << r.below(8);
                    let p = a.allocate_raw_aligned(n, align) as usize;
                    if p == 0 || p % align != 0 {
                        return Some(format!("block of {n} bytes at {p:#x} is not aligned to {align}"));
                    }
                    let l = Live { p, n, align, seed: r.next(), how: How::Aligned, count: n };
                    l.fill();
                    let _ = tx.send(l);
                }
                None
            }));
        }
        drop(tx);
        for _ in 0..3 {
            let rx = rx.clone();
            hs.push(s.spawn(move || {
                let mut a = DefaultAllocator::new();
                loop {
                    let m = rx.lock().unwrap().recv();
                    let Ok(l) = m else { return None };
                    if let Some(i) = l.first_bad() {
                        return Some(format!("byte {i} of a block of {} bytes changed on its way to another thread", l.n));
                    }
                    unsafe { a.deallocate_raw_aligned(l.p as *mut (), l.n, l.align) };
                }
            }));
        }
        hs.into_iter().filter_map(|h| h.join().unwrap_or(Some("a thread died".into()))).collect()
    });
    if let Some(e) = errs.first() {
        c.fail(Kind::DefAlloc, e.clone());
    }
    c.count_n("blocks taken", 450);
    c.eff();
    c.eff();
}

/// How an operation in a child process ended.
#[derive(Debug, PartialEq)]
enum End {
    Returned,
    Panicked,
    Signal(i32),
    Other(i32),
}
fn in_child(f: impl FnOnce()) -> End {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            libc::alarm(20);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            mem::G_FAIL.store(-1, Relaxed);
            libc::_exit(if r.is_ok() { 7 } else { 9 });
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            End::Signal(libc::WTERMSIG(st))
        } else {
            match libc::WEXITSTATUS(st) {
                7 => End::Returned,
                9 => End::Panicked,
                x => End::Other(x),
            }
        }
    }
}
/// requests that must not come back
fn r_stops(c: &mut Ctx) {
    type F = Box<dyn Fn()>;
    let a = DefaultAllocator::new;
    let mut cases: Vec<(std::string::String, F)> = Vec::new();
    macro_rules! t {
        ($t:ty) => {{
            let s = size_of::<$t>();
            for n in [0usize, usize::MAX, usize::MAX / s, (usize::MAX / s).wrapping_add(1), (1usize << 63) / s, (1usize << 63) / s + 1, isize::MAX as usize / s + 1] {
                cases.push((
                    format!("allocate::<{}>({n:#x})", stringify!($t)),
                    Box::new(move || {
                        std::hint::black_box(a().allocate::<$t>(n));
                    }),
                ));
            }
        }};
    }
    t!(u8);
    t!(u16);
    t!(u32);
    t!(u64);
    t!(u128);
    t!(Odd);
    t!([u64; 5]);
    t!(Al32);
    t!(Page);
    for n in [0usize, 1 << 63, usize::MAX, usize::MAX - 7, (1 << 63) - 1, 1 << 60, 1 << 50] {
        cases.push((
            format!("allocate_raw({n:#x})"),
            Box::new(move || {
                std::hint::black_box(a().allocate_raw(n));
            }),
        ));
        for al in [1usize, 2, 16, 4096, 1 << 20] {
            cases.push((
                format!("allocate_raw_aligned({n:#x}, {al})"),
                Box::new(move || {
                    std::hint::black_box(a().allocate_raw_aligned(n, al));
                }),
            ));
        }
    }
    // containers with impossible sizes
    macro_rules! cc {
        ($s:expr, $e:expr) => {
            cases.push((
                $s.to_string(),
                Box::new(move || {
                    std::hint::black_box($e);
                }),
            ))
        };
    }
    for n in [usize::MAX, 1 << 61, (1 << 61) + 1, 1 << 60, (1 << 62) - 1, 1 << 45] {
        cc!(format!("Vector::<u64>::with_capacity({n:#x})"), DefaultVector::<u64>::with_capacity(n));
        cc!(format!("Vector::<u64>::reserve({n:#x})"), {
            let mut v = DefaultVector::<u64>::from(&[1u64, 2, 3]);
            v.reserve(n);
            v
        });
        cc!(format!("String::with_capacity({:#x})", n << 3 >> 1 | 1 << 48), DefaultString::with_capacity(n << 3 >> 1 | 1 << 48));
        cc!(format!("VectorMap::with_capacity({n:#x})"), DefaultVectorMap::<u64, u64>::with_capacity(n));
    }
    // memory runs out at the k-th request of a container's life
    for k in 0..6i64 {
        cc!(format!("Vector::push, request {k} refused"), {
            let mut v = DefaultVector::<u64>::new();
            refuse_after(k, 1);
            for i in 0..1000 {
                v.push(i);
            }
            v
        });
        cc!(format!("Deque::push_back, request {k} refused"), {
            refuse_after(k, 1);
            let mut v = DefaultDeque::<u64>::new();
            for i in 0..20000 {
                v.push_back(i);
            }
            v.len()
        });
        cc!(format!("Queue::push, request {k} refused"), {
            refuse_after(k, 1);
            let mut v: DefaultQueue<u32> = DefaultQueue::default();
            for i in 0..20000 {
                v.push(i);
            }
            v.len()
        });
        cc!(format!("HashMap::insert, request {k} refused"), {
            let mut v = DefaultHashMap::<u32, u32>::new();
            refuse_after(k, 1);
            for i in 0..2000 {
                v.insert(i, i);
            }
            v.len()
        });
        cc!(format!("HashSet::insert, request {k} refused"), {
            let mut v = DefaultHashSet::<u32>::new();
            refuse_after(k, 1);
            for i in 0..2000 {
                v.insert(i);
            }
            v.len()
        });
        cc!(format!("String::push, request {k} refused"), {
            let mut v = DefaultString::new();
            refuse_after(k, 1);
            for _ in 0..4000 {
                v.push('x');
            }
            v.len()
        });
        cc!(format!("VectorMap::insert, request {k} refused"), {
            let mut v: DefaultVectorMap<u32, u32> = DefaultVectorMap::default();
            refuse_after(k, 1);
            for i in 0..1000 {
                v.insert(i, i);
            }
            v.len()
        });
        cc!(format!("List::push_back, request {k} refused"), {
            let mut l: MaybeUninit<DefaultList<u32>> = MaybeUninit::uninit();
            unsafe { DefaultList::<u32>::new().new(Pin::new_unchecked(&mut l)) };
            refuse_after(k, 1);
            for i in 0..50 {
                unsafe { l.assume_init_mut() }.push_back(i);
            }
        });
    }
    let i = c.index as usize;
    if i >= cases.len() {
        if i == cases.len() {
            // the children themselves are sound: one that returns is told apart from one that stops
            ensure_eq!(c, Kind::DefAlloc, in_child(|| { std::hint::black_box(a().allocate::<u64>(3)); }), End::Returned, "a harmless request");
        }
        c.op("none", i as u64, 0);
    } else {
        let (name, f) = cases.swap_remove(i);
        c.op("stops", i as u64, cases.len() as u64);
        c.note(|| name.clone());
        let end = in_child(|| f());
        ensure!(c, Kind::DefAlloc, matches!(end, End::Panicked | End::Signal(libc::SIGABRT)), "{name} did not stop the program in good order: {end:?}");
        c.count("impossible requests that stopped the program");
        c.count(match end {
            End::Panicked => "  by a panic",
            _ => "  by an abort",
        });
    }
    c.eff();
    c.eff();
}
fn refuse_after(k: i64, min: usize) {
    mem::G_FAIL_MIN.store(min, Relaxed);
    mem::G_FAIL.store(k, Relaxed);
}

/// containers over the default allocator: the system gets back what it gave, as it gave it
fn r_default_containers(c: &mut Ctx) {
    c.op("containers", c.index, c.rng.clone().next());
    let mut r = c.rng.clone();
    let before = mem::g_live();
    mem::G_FILL.store(true, Relaxed);
    let n = r.range(1, if cfg!(miri) { 30 } else { 400 });
    let err: Option<&'static str> = match c.index % 8 {
        0 => {
            let mut v: DefaultVector<Al32> = DefaultVector::new();
            for i in 0..n {
                v.push(Al32::mk(i as u64));
                if r.chance(1, 9) {
                    v.reserve(r.below(40));
                }
                if r.chance(1, 5) {
                    v.pop();
                    v.insert(0, Al32::mk(5));
                }
            }
            let ok = v.iter().all(|x| x.get() < 401);
            let w: DefaultVector<Al32> = DefaultVector::from(v.as_slice());
            drop(v);
            (!(ok && w.iter().all(|x| x.get() < 401))).then_some("a Vector's elements changed")
        }
        1 => {
            let mut d: DefaultDeque<[u64; 3]> = DefaultDeque::new();
            let (mut lo, mut hi) = (0u64, 0u64);
            let mut ok = true;
            for _ in 0..n * 3 {
                if r.chance(3, 5) {
                    d.push_back([hi, !hi, hi + 1]);
                    hi += 1;
                } else if let Some(x) = d.pop_front() {
                    ok &= x == [lo, !lo, lo + 1];
                    lo += 1;
                }
            }
            (!ok || d.len() as u64 != hi - lo).then_some("a Deque's elements changed")
        }
        2 => {
            let mut m: DefaultHashMap<u32, u128> = DefaultHashMap::new();
            for i in 0..n as u32 {
                m.insert(i * 7, i as u128);
                if i % 5 == 0 {
                    m.remove(&(i / 2 * 7));
                }
            }
            let bad = m.iter().any(|(k, v)| *k as u128 != *v * 7);
            if r.chance(1, 2) {
                m.clear();
                m.insert(1, 2);
            }
            bad.then_some("a HashMap's pairs changed")
        }
        3 => {
            let mut m: DefaultHashSet<u64> = DefaultHashSet::new();
            for i in 0..n as u64 {
                m.insert(i * i);
                m.remove(&(i * 3));
            }
            m.iter().any(|k| ((*k as f64).sqrt() as u64).pow(2) != *k).then_some("a HashSet's keys changed")
        }
        4 => {
            let mut s = DefaultString::new();
            let mut t = std::string::String::new();
            for i in 0..n {
                let ch = char::from_u32(0x40 + (i as u32 * 37) % 0x2000).unwrap();
                s.push(ch);
                t.push(ch);
                if r.chance(1, 9) {
                    s.reserve(r.below(30));
                    s.assign(&t);
                }
            }
            (s.as_str() != t || DefaultString::from(s.as_str()).as_str() != t).then_some("a String's text changed")
        }
        5 => {
            let mut m: DefaultVectorMap<u16, u64> = DefaultVectorMap::default();
            for i in 0..n as u64 {
                m.insert((i * 7919 % 601) as u16, i);
                if i % 4 == 0 {
                    m.remove(&((i * 31 % 601) as u16));
                }
            }
            m.as_ref().windows(2).any(|w| w[0].0 >= w[1].0).then_some("a VectorMap's keys lost their order")
        }
        6 => {
            let mut l: Box<MaybeUninit<DefaultList<[u8; 5]>>> = Box::new(MaybeUninit::uninit());
            unsafe { DefaultList::<[u8; 5]>::new().new(Pin::new_unchecked(&mut *l)) };
            let l = unsafe { &mut *(Box::into_raw(l) as *mut DefaultList<[u8; 5]>) };
            for i in 0..n {
                l.push_back([i as u8; 5]);
                if r.chance(1, 4) {
                    l.pop_front();
                }
            }
            let bad = l.iter().any(|x| x.iter().any(|b| *b != x[0]));
            unsafe { drop(Box::from_raw(l)) };
            bad.then_some("a List's elements changed")
        }
        _ => {
            let mut q: DefaultQueue<u8> = DefaultQueue::default();
            let mut ok = true;
            let mut lo = 0u8;
            for i in 0..n {
                q.push(i as u8);
                if i % 3 == 2 {
                    ok &= q.pop() == Some(lo);
                    lo = lo.wrapping_add(1);
                }
            }
            (!ok).then_some("a Queue's elements changed")
        }
    };
    mem::G_FILL.store(false, Relaxed);
    let after = mem::g_live();
    mem::g_sync();
    c.sync();
    if let Some(e) = err {
        c.fail(Kind::DefAlloc, e.into());
    }
    if !mem::PLAIN {
        ensure_eq!(c, Kind::Alloc, after, before, "blocks outstanding in the system once a container over the default allocator is gone");
    }
    c.count("container lives over the default allocator");
    c.eff();
    c.eff();
}

static RIGS: &[Rig] = &[
    Rig { name: "hash_16bit", props: &["C22"], scale: fixed(64), f: r_small },
    Rig { name: "hash_numbers", props: &["C22"], scale: rnd(400, 40_000), f: r_ints },
    Rig { name: "hash_32bit", props: &["C22"], scale: rnd(96, 4096), f: r_all32 },
    Rig { name: "hash_strings", props: &["C22"], scale: rnd(800, 30_000), f: r_strings },
    Rig { name: "hash_chars", props: &["C22"], scale: fixed(256), f: r_chars },
    Rig { name: "hash_buckets", props: &["C22"], scale: rnd(1100, 20_000), f: r_buckets },
    Rig { name: "alloc_history", props: &["C23"], scale: rnd(600, 20_000), f: r_alloc },
    Rig { name: "alloc_sweep", props: &["C23"], scale: fixed(13 * 6), f: r_alloc_sweep },
    Rig { name: "alloc_threads", props: &["C23"], scale: rnd(16, 300), f: r_alloc_threads },
    Rig { name: "alloc_stops", props: &["C23"], scale: fixed(STOPS), f: r_stops },
    Rig { name: "alloc_containers", props: &["C23"], scale: rnd(800, 20_000), f: r_default_containers },
];
/// how many cases r_stops has, and the one that checks it
const STOPS: u64 = 9 * 7 + 7 * 6 + 6 * 4 + 6 * 8 + 1;

fn main() {
    mon::engine::main(RIGS);
}
