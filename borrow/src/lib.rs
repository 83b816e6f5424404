//! What the hostile programs of the C30 check are made of: containers to borrow from, values that
//! notice being used after their end, and monitors that say on stdout what they see.
#![allow(clippy::all)]
#![cfg_attr(feature = "conformant", feature(generic_const_exprs), allow(incomplete_features))]
pub use eastl_rs;
pub use eastl_rs::*;
use moveit::Emplace;
use std::fmt::Debug;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const ALIVE: u64 = 0xA11E_A11E_A11E_A11E;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;

pub static LOOKS: AtomicU64 = AtomicU64::new(0);
static EVENTS: AtomicU64 = AtomicU64::new(0);

fn event(s: &str) {
    EVENTS.fetch_add(1, Relaxed);
    println!("EVENT {s}");
}
pub fn start(name: &str) {
    println!("START {name}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
}
/// The program got here: whatever it set out to hold or obtain, it did.
pub fn reached() {
    println!("REACHED looks={} events={}", LOOKS.load(Relaxed), EVENTS.load(Relaxed));
}

/// A value that knows whether it is alive, with a block of its own.
pub struct Can {
    magic: u64,
    id: u64,
    own: Box<u64>,
}
pub fn can(id: u64) -> Can {
    Can { magic: ALIVE, id, own: Box::new(id) }
}
impl Drop for Can {
    fn drop(&mut self) {
        if unsafe { std::ptr::read_volatile(&self.magic) } != ALIVE {
            event("a value was destroyed that was not alive");
        }
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) }
    }
}
impl Clone for Can {
    fn clone(&self) -> Can {
        look(self);
        can(self.id)
    }
}
impl Debug for Can {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", look(self))
    }
}
impl PartialEq for Can {
    fn eq(&self, o: &Can) -> bool {
        look(self) == look(o)
    }
}
impl PartialOrd for Can {
    fn partial_cmp(&self, o: &Can) -> Option<std::cmp::Ordering> {
        look(self).partial_cmp(&look(o))
    }
}
impl hash::Hash<Can> for hash::DefaultHash<Can> {
    fn hash(v: &Can) -> usize {
        look(v) as usize
    }
}

/// Use a value.
pub fn look(c: &Can) -> u64 {
    LOOKS.fetch_add(1, Relaxed);
    unsafe {
        let m = std::ptr::read_volatile(&c.magic);
        if m != ALIVE {
            event(&format!("a value that is {} was used through a reference", if m == DEAD { "destroyed" } else { "not there" }));
            return 0;
        }
        std::ptr::read_volatile(&*c.own)
    }
}
pub fn lookm(c: &mut Can) -> u64 {
    let r = look(c);
    c.id = c.id.wrapping_add(0);
    r
}
/// Use two references at once, one of them mutable.
pub fn two(a: &mut Can, b: &Can) {
    if a as *const Can == b as *const Can {
        event("a mutable reference and another one to the same value are live at once");
    }
    lookm(a);
    look(b);
}
pub fn text(s: &str, exp: &str) {
    LOOKS.fetch_add(1, Relaxed);
    let s = s.as_bytes().to_vec();
    if s != exp.as_bytes() {
        event(&format!("text held through a reference changed to {:?}", std::string::String::from_utf8_lossy(&s)));
    }
}
pub fn textm(s: &mut str) {
    LOOKS.fetch_add(1, Relaxed);
    s.make_ascii_uppercase();
    s.make_ascii_lowercase();
}
/// The containers still hold what they should: used at the end of a control.
pub fn sound(ids: &[u64], exp: &[u64]) {
    if ids != exp {
        event(&format!("contents are {ids:?}, expected {exp:?}"));
    }
}

/// Looks at a value when it is dropped.
pub struct Insp<'a>(pub &'a Can);
impl Drop for Insp<'_> {
    fn drop(&mut self) {
        look(self.0);
    }
}

pub const TEXT: &str = "some text that lives on the heap";

pub fn mk_vector() -> DefaultVector<Can> {
    (1..=3).map(can).collect()
}
pub fn mk_deque<'a>() -> DefaultDeque<'a, Can> {
    (1..=3).map(can).collect()
}
pub fn mk_queue<'a>() -> DefaultQueue<'a, Can> {
    (1..=3).map(can).collect()
}
pub fn mk_map() -> DefaultHashMap<u32, Can> {
    (1..=3).map(|i| (i, can(i as u64))).collect()
}
pub fn mk_set() -> DefaultHashSet<Can> {
    (1..=3).map(can).collect()
}
pub fn mk_vmap() -> DefaultVectorMap<u32, Can> {
    (1..=3).map(|i| (i, can(i as u64))).collect()
}
pub fn mk_string() -> DefaultString {
    DefaultString::from(TEXT)
}
pub type L<T> = Pin<Box<DefaultList<T>>>;
pub fn list_of<T: Unpin>(i: impl Iterator<Item = T>) -> L<T> {
    let mut l = Box::emplace(unsafe { DefaultList::new() });
    i.for_each(|x| l.push_back(x));
    l
}
pub fn mk_list() -> L<Can> {
    list_of((1..=3).map(can))
}
pub type F<T> = Pin<Box<DefaultFixedList<T, 2>>>;
pub fn flist_of<T: Unpin>(i: impl Iterator<Item = T>) -> F<T> {
    let mut l: F<T> = Box::emplace(unsafe { DefaultFixedList::new_with_default_overflow_allocator() });
    i.for_each(|x| l.push_back(x));
    l
}
pub fn mk_flist() -> F<Can> {
    flist_of((1..=3).map(can))
}
#[cfg(feature = "conformant")]
pub type C<T> = Pin<Box<fixed_list::conformant::DefaultFixedList<T, 2>>>;
#[cfg(feature = "conformant")]
pub fn mk_clist() -> C<Can> {
    let mut l: C<Can> = Box::emplace(unsafe { fixed_list::conformant::DefaultFixedList::new_with_default_overflow_allocator() });
    (1..=3).for_each(|i| l.push_back(can(i)));
    l
}
pub type V<T> = Pin<Box<fixed_vector::DefaultFixedVector<T, 4>>>;
pub fn fvec_of<T: Debug>(i: impl Iterator<Item = T>) -> V<T> {
    let mut l: V<T> = Box::emplace(unsafe { fixed_vector::FixedVector::new() });
    i.for_each(|x| unsafe { l.as_mut().get_unchecked_mut() }.push(x));
    l
}
pub fn mk_fvec() -> V<Can> {
    fvec_of((1..=3).map(can))
}

/// A tree of three pairs as C++ leaves it: {compare, begin, end, parent, size, allocator}, nodes
/// {right, left, parent | black, key, value}.
pub struct Tree(Box<Map<u32, Can, DefaultAllocator>>);
pub fn mk_tree() -> Tree {
    #[repr(C)]
    struct N {
        right: *mut N,
        left: *mut N,
        parent: usize,
        key: u32,
        val: Can,
    }
    let mut m = Box::new(Map::<u32, Can, DefaultAllocator>::with_allocator(DefaultAllocator::new()));
    let at = &mut *m as *mut _ as *mut usize;
    unsafe {
        let anchor = at.add(1) as usize;
        let node = |k: u32| {
            let p = DefaultAllocator::new().allocate::<N>(1);
            p.write(N { right: std::ptr::null_mut(), left: std::ptr::null_mut(), parent: 0, key: k, val: can(k as u64) });
            p
        };
        let (a, b, c) = (node(1), node(2), node(3));
        (*b).left = a;
        (*b).right = c;
        (*b).parent = anchor | 1;
        (*a).parent = b as usize;
        (*c).parent = b as usize;
        at.add(1).write(a as usize);
        at.add(2).write(c as usize);
        at.add(3).write(b as usize);
        (at.add(4) as *mut u32).write(3);
    }
    Tree(m)
}
impl std::ops::Deref for Tree {
    type Target = Map<u32, Can, DefaultAllocator>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl std::ops::DerefMut for Tree {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
