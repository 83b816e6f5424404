//! String.
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::string::String as EString;
use mon::engine::{fixed, rnd};
use mon::*;

#[global_allocator]
static G: mem::GlobalMon = mem::GlobalMon;

type S = EString<MonAlloc>;

const CHARS: &[char] = &[
    'a', 'z', 'Q', '0', ' ', '\n', '"', '\\', '\0', '\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', '€', '\u{d7ff}', '\u{e000}', '\u{fffd}',
    '\u{ffff}', '\u{10000}', '🦀', '\u{10ffff}', '\u{301}', '\u{200d}', 'ﷺ',
];

fn chr(c: &mut Ctx, ascii: bool) -> char {
    if ascii {
        return (b'a' + c.rng.below(26) as u8) as char;
    }
    match c.rng.below(4) {
        0 => (b' ' + c.rng.below(95) as u8) as char,
        1 => char::from_u32((c.rng.next() % 0x11_0000) as u32).unwrap_or('x'),
        _ => *c.rng.pick(CHARS),
    }
}
fn text(c: &mut Ctx, n: usize, ascii: bool) -> String {
    (0..n).map(|_| chr(c, ascii)).collect()
}

struct M {
    m: String,
    arena: u32,
}
impl M {
    fn check(&self, c: &mut Ctx, s: &S, kind: Kind, what: &str) {
        c.sync();
        if !c.look() {
            return;
        }
        let r = raw::vec(s);
        if r.begin == 0 {
            ensure_eq!(c, Kind::Image, (r.end, r.cap), (0, 0), "words of a string without a buffer after {what}");
        } else {
            let Some(b) = mem::block_at(r.begin) else {
                c.miss(Kind::Nul, format!("buffer is not a live block after {what}"));
                return;
            };
            ensure!(c, Kind::Nul, r.end < r.begin + b.size, "the byte past the text lies outside the {}-byte block after {what}", b.size);
            let t = unsafe { *(r.end as *const u8) };
            ensure!(c, Kind::Nul, t == 0, "terminator is {t:#x} after {what} (length {})", r.end - r.begin);
            ensure_eq!(c, Kind::Image, r.end - r.begin, self.m.len(), "end - begin after {what}");
            ensure!(c, Kind::Alloc, s.capacity() + 1 <= b.size, "capacity {} with the terminator does not fit the {}-byte block after {what}", s.capacity(), b.size);
            c.count("terminators checked");
        }
        ensure_eq!(c, Kind::Image, r.alloc_id, self.arena, "allocator word after {what}");
        let bytes = s.as_bytes();
        ensure!(c, Kind::Utf8, std::str::from_utf8(bytes).is_ok(), "bytes are not valid UTF-8 after {what}: {bytes:x?}");
        ensure!(c, kind, bytes == self.m.as_bytes(), "text after {what}: got {:?}, expected {:?}", String::from_utf8_lossy(bytes), self.m);
        ensure_eq!(c, kind, s.len(), self.m.len(), "len after {what}");
        ensure_eq!(c, kind, s.is_empty(), self.m.is_empty(), "is_empty after {what}");
        ensure!(c, kind, s.len() <= s.capacity(), "length {} exceeds capacity {} after {what}", s.len(), s.capacity());
        ensure_eq!(c, kind, s.is_full(), s.len() == s.capacity(), "is_full after {what}");
        c.count_n("bytes compared", bytes.len() as u64);
    }
}

fn build(c: &mut Ctx, ascii: bool) -> (S, M) {
    let n = if c.rng.chance(1, 8) { c.rng.below(300) } else { c.rng.below(12) };
    let t = text(c, n, ascii);
    let cur = MonAlloc::current().arena();
    let pick = if c.prop == "C24" && c.rng.chance(1, 2) { 7 } else { c.rng.below(7) };
    let (s, m, arena): (S, String, u32) = match pick {
        7 => {
            let id = MonAlloc::fresh().arena();
            let spare = *c.rng.pick(&[0, 0, 1, 7]);
            c.op("image", t.len() as u64, spare as u64);
            let cap = t.len() + spare;
            let s: S = vec_image(c, id, t.as_bytes().to_vec(), cap, if cap == 0 { 0 } else { cap + 1 });
            if cap > 0 {
                unsafe { *((raw::vec(&s).begin + t.len()) as *mut u8) = 0 };
            }
            (s, t, id)
        }
        0 => {
            c.op("new", 0, 0);
            (S::new(), String::new(), cur)
        }
        1 => {
            let a = MonAlloc::fresh();
            let id = a.arena();
            c.op("new_in", 0, 0);
            (S::new_in(a), String::new(), id)
        }
        2 => {
            c.op("with_capacity", n as u64, 0);
            let s = S::with_capacity(n);
            ensure!(c, Kind::Func, s.capacity() >= n, "with_capacity({n}) gives capacity {}", s.capacity());
            (s, String::new(), cur)
        }
        3 => {
            c.op("from", t.len() as u64, 0);
            (S::from(t.as_str()), t, cur)
        }
        4 => {
            c.op("from_str", t.len() as u64, 0);
            (t.parse().unwrap(), t, cur)
        }
        5 => {
            let a = MonAlloc::fresh();
            let id = a.arena();
            c.op("from_in", t.len() as u64, 0);
            (S::from_in(&t, a), t, id)
        }
        _ => {
            c.op("default", 0, 0);
            (S::default(), String::new(), cur)
        }
    };
    let st = M { m, arena };
    st.check(c, &s, Kind::Func, "construction");
    if s.as_str() != st.m {
        c.report(Kind::Copy, "constructed string differs from its source".into());
    }
    (s, st)
}

fn any_index(c: &mut Ctx, m: &str) -> usize {
    if c.rng.chance(1, 3) {
        m.len()
    } else {
        c.rng.index(m.len() + 1)
    }
}
fn boundary(c: &mut Ctx, m: &str) -> usize {
    let mut i = any_index(c, m);
    while !m.is_char_boundary(i) {
        i -= 1;
    }
    i
}

fn history(c: &mut Ctx, steps: usize) {
    let ascii = c.rng.chance(1, 4);
    let (s, mut st) = build(c, ascii);
    let mut s = Lodge::new(s);
    let limit = *c.rng.pick(&[8usize, 30, 200, 1500]);
    for _ in 0..steps {
        s.stir(c);
        let n = st.m.len();
        let w: [u32; 17] = if n > limit {
            [3, 30, 3, 30, 0, 2, 1, 1, 1, 1, 2, 2, 2, 1, 1, 0, 1]
        } else {
            [20, 8, 20, 10, 4, 4, 3, 2, 2, 3, 2, 2, 2, 2, 2, 4, 1]
        };
        let before = (raw::vec(&*s), st.m.clone());
        let what;
        match c.rng.weighted(&w) {
            0 => {
                let ch = chr(c, ascii);
                c.op("push", n as u64, ch as u64);
                s.push(ch);
                st.m.push(ch);
                what = "push";
            }
            1 => {
                c.op("pop", n as u64, 0);
                let e = st.m.pop();
                ensure_eq!(c, Kind::Func, s.pop(), e, "pop from {:?}", before.1);
                if e.is_none() {
                    ensure!(c, Kind::Reject, raw::vec(&*s) == before.0, "pop of an empty string changed it");
                }
                what = "pop";
            }
            2 => {
                let i = boundary(c, &st.m);
                let ch = chr(c, ascii);
                c.op("insert", (n << 20 | i) as u64, ch as u64);
                s.insert(i, ch);
                st.m.insert(i, ch);
                what = "insert";
            }
            3 => {
                let i = boundary(c, &st.m);
                c.op("remove", n as u64, i as u64);
                let e = (i < n).then(|| st.m.remove(i));
                ensure_eq!(c, Kind::Func, s.remove(i), e, "remove({i}) from {:?}", before.1);
                if e.is_none() {
                    ensure!(c, Kind::Reject, raw::vec(&*s) == before.0, "remove({i}) past the end changed the string");
                }
                what = "remove";
            }
            4 => {
                let k = c.rng.below(30);
                c.op("push many", n as u64, k as u64);
                for _ in 0..k {
                    let ch = chr(c, ascii);
                    s.push(ch);
                    st.m.push(ch);
                    st.check(c, &*s, Kind::Func, "push");
                }
                what = "push";
            }
            5 => {
                let k = if c.rng.chance(1, 4) { 0 } else { c.rng.below(n / 2 + 5) };
                let t = text(c, k, ascii);
                c.op("assign", n as u64, t.len() as u64);
                if c.rng.chance(1, 2) {
                    s.assign(&t);
                } else {
                    s.assign(t.as_str());
                }
                if s.as_str() != t {
                    c.report(Kind::Copy, format!("assigned {:?}, holds {:?}", t, s.as_str()));
                }
                st.m = t;
                what = "assign";
            }
            6 => {
                let k = c.rng.below(10);
                c.op("reserve", n as u64, k as u64);
                s.reserve(k);
                ensure!(c, Kind::Func, s.capacity() >= n + k, "reserve({k}) at length {n} gives capacity {}", s.capacity());
                what = "reserve";
            }
            7 => {
                c.op("clone", n as u64, 0);
                let mut t = s.clone();
                ensure!(c, Kind::Copy, t.as_str() == st.m, "clone holds {:?} instead of {:?}", t.as_str(), st.m);
                ensure!(c, Kind::Copy, t == *s && !(t != *s), "clone is not equal to its original");
                let mut st2 = M { m: st.m.clone(), arena: st.arena };
                st2.check(c, &t, Kind::Copy, "clone");
                ensure!(c, Kind::Copy, raw::vec(&t).begin == 0 || raw::vec(&t).begin != raw::vec(&*s).begin, "clone shares its buffer");
                if c.rng.chance(1, 2) {
                    std::mem::swap(&mut *s, &mut t);
                    std::mem::swap(&mut st, &mut st2);
                }
                match c.rng.below(3) {
                    0 => {
                        t.push('x');
                        st2.m.push('x');
                    }
                    1 => {
                        t.pop();
                        st2.m.pop();
                    }
                    _ => {
                        t.make_ascii_uppercase();
                        st2.m.make_ascii_uppercase();
                    }
                }
                st2.check(c, &t, Kind::Copy, "changing a copy");
                st.check(c, &*s, Kind::Copy, "changing a copy");
                drop(t);
                what = "dropping a copy";
            }
            8 => {
                let i = if c.rng.chance(1, 2) { *c.rng.pick(&[n + 1, n + 2, n + 3, s.capacity() + 1, usize::MAX, usize::MAX - 3]) } else { any_index(c, &st.m) };
                let ch = chr(c, ascii);
                c.op("rejected insert", n as u64, i as u64);
                if i > n || !st.m.is_char_boundary(i) {
                    let p = panics(|| s.insert(i, ch));
                    ensure!(c, Kind::Reject, p.is_some(), "insert at {i} of {:?} was accepted", st.m);
                    ensure!(c, Kind::Reject, raw::vec(&*s) == before.0 && s.as_bytes() == st.m.as_bytes(), "rejected insert at {i} changed the string");
                }
                what = "rejected insert";
            }
            9 => {
                let i = if c.rng.chance(1, 2) { *c.rng.pick(&[n, n + 1, n + 2, s.capacity() + 1, usize::MAX, usize::MAX - 3]) } else { any_index(c, &st.m) };
                c.op("rejected remove", n as u64, i as u64);
                if i >= n || !st.m.is_char_boundary(i) {
                    let g = s.remove(i);
                    ensure!(c, Kind::Reject, g.is_none(), "remove({i}) from {:?} gave {g:?}", st.m);
                    ensure!(c, Kind::Reject, raw::vec(&*s) == before.0 && s.as_bytes() == st.m.as_bytes(), "rejected remove at {i} changed the string");
                }
                if c.rng.chance(1, 3) {
                    // a reservation whose size overflows is rejected
                    let k = *c.rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX - s.capacity(), usize::MAX - s.capacity().saturating_sub(1), usize::MAX / 2 + 1]);
                    c.op("rejected reserve", n as u64, k as u64);
                    let p = panics(|| s.reserve(k));
                    ensure!(c, Kind::Reject, p.is_some(), "reserve({k}) of {:?} was accepted", st.m);
                    ensure!(c, Kind::Reject, raw::vec(&*s) == before.0 && s.as_bytes() == st.m.as_bytes(), "rejected reserve({k}) changed the string");
                    c.count("oversized reservations rejected");
                }
                what = "rejected remove";
            }
            10 => {
                c.op("edit", n as u64, 0);
                match c.rng.below(3) {
                    0 => {
                        s.make_ascii_uppercase();
                        st.m.make_ascii_uppercase();
                    }
                    1 => {
                        s.make_ascii_lowercase();
                        st.m.make_ascii_lowercase();
                    }
                    _ => {
                        let i = boundary(c, &st.m);
                        if let Some(x) = s.get_mut(i..) {
                            x.make_ascii_uppercase();
                        }
                        st.m[i..].make_ascii_uppercase();
                    }
                }
                what = "in-place edit";
            }
            11 => {
                c.op("read", n as u64, 0);
                let chars: String = s.chars().collect();
                ensure!(c, Kind::Func, chars == st.m, "chars() yields {chars:?} instead of {:?}", st.m);
                let a: &str = s.as_ref();
                let b: &[u8] = s.as_ref();
                ensure!(c, Kind::Func, a == st.m && b == st.m.as_bytes() && &**s == st.m.as_str(), "as_ref differs from the text");
                what = "reading";
            }
            12 => {
                c.op("format", n as u64, 0);
                ensure_eq!(c, Kind::Func, format!("{s}"), st.m, "Display output");
                if s.chars().all(|x| x.is_ascii_alphanumeric()) {
                    ensure_eq!(c, Kind::Copy, format!("{s:?}"), format!("{:?}", st.m), "Debug output");
                }
                let twin = S::from_in(&st.m, MonAlloc::fresh());
                ensure_eq!(c, Kind::Copy, format!("{s:?}"), format!("{twin:?}"), "Debug output of equal strings");
                ensure_eq!(c, Kind::Func, format!("{twin}"), st.m, "Display output");
                what = "formatting";
            }
            13 => {
                c.op("compare", n as u64, 0);
                let mut o = st.m.clone();
                match c.rng.below(4) {
                    0 => o.push('\0'),
                    1 => {
                        o.pop();
                    }
                    2 => o.make_ascii_uppercase(),
                    _ => {}
                }
                let mut t = S::new_in(MonAlloc::fresh());
                if c.rng.chance(1, 2) {
                    t.reserve(c.rng.below(40));
                }
                t.assign(&o);
                ensure_eq!(c, Kind::Func, *s == t, st.m == o, "{:?} == {:?}", st.m, o);
                ensure_eq!(c, Kind::Func, *s != t, st.m != o, "{:?} != {:?}", st.m, o);
                ensure_eq!(c, Kind::Copy, DefaultHash::<S>::hash(&*s) == DefaultHash::<S>::hash(&t) || st.m != o, true, "hash of equal strings");
                what = "comparison";
            }
            14 => {
                c.op("move", n as u64, 0);
                s.relocate(c);
                ensure!(c, Kind::Move, raw::vec(&*s) == before.0, "moving the string changed its words");
                st.check(c, &*s, Kind::Move, "move");
                what = "move";
            }
            15 => {
                // write into the last free bytes
                c.op("fill", n as u64, s.capacity() as u64);
                let p = raw::vec(&*s);
                while s.len() < s.capacity() && s.len() < n + 80 {
                    let ch = if c.rng.chance(1, 2) { 'k' } else { '\0' };
                    s.push(ch);
                    st.m.push(ch);
                    st.check(c, &*s, Kind::Func, "push into spare capacity");
                }
                ensure_eq!(c, Kind::Cap, raw::vec(&*s).begin, p.begin, "buffer after filling spare capacity");
                what = "filling";
            }
            _ => {
                c.op("rebuild", n as u64, 0);
                let (a, b) = build(c, ascii);
                drop(std::mem::replace(&mut *s, a));
                st = b;
                what = "rebuilding";
            }
        }
        c.eff();
        st.check(c, &*s, Kind::Func, what);
    }
    drop(s);
    mem::check_all();
}
fn r_history(c: &mut Ctx) {
    let n = if cfg!(miri) { 25 } else { 120 };
    history(c, n);
}

/// every insertion and removal point of texts of every length, every spare capacity
fn r_sweep(c: &mut Ctx) {
    let len = c.index as usize % 24;
    let wide = c.index as usize / 24;
    for spare in [0usize, 1, 2, 3, 4, 9] {
        let mut t = String::new();
        while t.len() < len {
            t.push(match wide {
                0 => 'a',
                1 => 'é',
                2 => '€',
                _ => '🦀',
            });
        }
        for i in 0..=t.len() {
            if !t.is_char_boundary(i) {
                continue;
            }
            for ch in ['b', 'ü', '한', '𝄞'] {
                let a = MonAlloc::fresh();
                let mut st = M { m: t.clone(), arena: a.arena() };
                let mut s = S::from_in(&t, a);
                if spare > 0 {
                    s.reserve(spare - 1);
                }
                st.check(c, &s, Kind::Func, "construction");
                c.op("sweep", (len << 8 | i) as u64, (spare << 8 | ch.len_utf8()) as u64);
                s.insert(i, ch);
                st.m.insert(i, ch);
                st.check(c, &s, Kind::Func, "insert");
                let e = st.m.remove(i);
                ensure_eq!(c, Kind::Func, s.remove(i), Some(e), "remove");
                st.check(c, &s, Kind::Func, "remove");
                if i < t.len() {
                    let e = st.m.remove(i);
                    ensure_eq!(c, Kind::Func, s.remove(i), Some(e), "remove");
                    st.check(c, &s, Kind::Func, "remove");
                }
                while let Some(e) = st.m.pop() {
                    ensure_eq!(c, Kind::Func, s.pop(), Some(e), "pop");
                    st.check(c, &s, Kind::Func, "pop");
                }
                ensure_eq!(c, Kind::Func, s.pop(), None, "pop of empty");
                s.push(ch);
                st.m.push(ch);
                st.check(c, &s, Kind::Func, "push after emptying");
                s.assign("");
                st.m.clear();
                st.check(c, &s, Kind::Func, "assign(\"\")");
            }
        }
    }
    c.eff();
    c.eff();
}

/// every char through push, pop, insert, remove
fn r_chars(c: &mut Ctx) {
    let step = if c.thorough { 1 } else { 37 };
    let mut s = S::new_in(MonAlloc::fresh());
    let mut u = c.index as u32 * (0x11_0000 / 8);
    let end = u + 0x11_0000 / 8;
    while u < end {
        if let Some(ch) = char::from_u32(u) {
            s.push(ch);
            s.insert(0, ch);
            let mut b = [0; 4];
            let e = ch.encode_utf8(&mut b);
            let ok = s.len() == 2 * e.len() && s.as_bytes().starts_with(e.as_bytes()) && s.as_bytes().ends_with(e.as_bytes());
            ensure!(c, Kind::Func, ok, "text after pushing and inserting {ch:?}: {:x?}", s.as_bytes());
            ensure_eq!(c, Kind::Func, (s.remove(0), s.pop(), s.pop()), (Some(ch), Some(ch), None), "taking {ch:?} out");
            c.count("chars round-tripped");
        }
        u += step;
    }
    c.op("chars", c.index, 0);
    c.eff();
    c.eff();
}

/// long texts
fn r_long(c: &mut Ctx) {
    for n in [255usize, 256, 257, 1023, 4095, 4096, 65535, 65536, 200_000] {
        let t = text(c, n, c.index % 2 == 0);
        let a = MonAlloc::fresh();
        let mut st = M { m: t.clone(), arena: a.arena() };
        let mut s = S::from_in(&t, a);
        st.check(c, &s, Kind::Func, "construction");
        c.op("long", n as u64, 0);
        for _ in 0..40 {
            let ch = chr(c, false);
            let i = boundary(c, &st.m);
            s.insert(i, ch);
            st.m.insert(i, ch);
            st.check(c, &s, Kind::Func, "insert");
            let i = boundary(c, &st.m);
            if i < st.m.len() {
                let e = st.m.remove(i);
                ensure_eq!(c, Kind::Func, s.remove(i), Some(e), "remove");
            }
            st.check(c, &s, Kind::Func, "remove");
        }
        let u = s.clone();
        st.check(c, &u, Kind::Copy, "clone");
        ensure!(c, Kind::Func, u == s, "clone of a long text is not equal");
        s.assign(&t[..t.char_indices().nth(n / 3).unwrap().0]);
        st.m = s.to_string();
        ensure_eq!(c, Kind::Func, s.chars().count(), n / 3, "chars after assign");
        st.check(c, &s, Kind::Func, "assign");
        for _ in 0..50 {
            ensure_eq!(c, Kind::Func, s.pop(), st.m.pop(), "pop");
        }
        st.check(c, &s, Kind::Func, "pops");
    }
    let mut s = S::new();
    let mut m = String::new();
    for _ in 0..60_000 {
        let ch = chr(c, c.index % 2 == 0);
        s.push(ch);
        m.push(ch);
    }
    M { m, arena: MonAlloc::current().arena() }.check(c, &s, Kind::Func, "60000 pushes");
    c.eff();
    c.eff();
}

static RIGS: &[Rig] = &[
    Rig { name: "str_history", props: &["C11", "C12", "C18", "C19", "C24", "C26", "C27", "C28"], scale: rnd(3000, 100_000), f: r_history },
    Rig { name: "str_sweep", props: &["C11", "C12", "C18", "C19"], scale: fixed(96), f: r_sweep },
    Rig { name: "str_chars", props: &["C11"], scale: fixed(8), f: r_chars },
    Rig { name: "str_long", props: &["C11", "C12"], scale: rnd(4, 40), f: r_long },
];

fn main() {
    mon::engine::main(RIGS);
}
