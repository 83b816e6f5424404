//! Readers of raw container memory, written from EASTL's layout alone (C++ field order).
use crate::mem;

// read and written as pointers, so that Miri keeps track of what they point to
pub unsafe fn word(base: usize, off: usize) -> usize {
    ((base + off) as *const *const u8).read_unaligned() as usize
}
pub type Word = *mut u8;
pub trait WriteWord {
    unsafe fn write_word(self, v: usize);
}
impl WriteWord for *mut Word {
    unsafe fn write_word(self, v: usize) {
        self.write(v as *mut u8)
    }
}
pub unsafe fn u32_at(base: usize, off: usize) -> u32 {
    ((base + off) as *const u32).read_unaligned()
}
pub unsafe fn f32_at(base: usize, off: usize) -> f32 {
    ((base + off) as *const f32).read_unaligned()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RawVec {
    pub begin: usize,
    pub end: usize,
    pub cap: usize,
    pub alloc_id: u32,
}
/// eastl::vector: mpBegin, mpEnd, mpCapacity, allocator
pub fn vec<C>(c: &C) -> RawVec {
    let b = c as *const C as usize;
    unsafe {
        RawVec {
            begin: word(b, 0),
            end: word(b, 8),
            cap: word(b, 16),
            alloc_id: u32_at(b, 24),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RawDqIt {
    pub cur: usize,
    pub begin: usize,
    pub end: usize,
    pub arr: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RawDeque {
    pub ptr_array: usize,
    pub ptr_array_size: u32,
    pub begin: RawDqIt,
    pub end: RawDqIt,
}
pub unsafe fn dq_it(b: usize) -> RawDqIt {
    RawDqIt { cur: word(b, 0), begin: word(b, 8), end: word(b, 16), arr: word(b, 24) }
}
/// eastl::deque: mpPtrArray, mnPtrArraySize, mItBegin, mItEnd, mAllocator
pub fn deque<C>(c: &C) -> RawDeque {
    let b = c as *const C as usize;
    unsafe {
        RawDeque {
            ptr_array: word(b, 0),
            ptr_array_size: u32_at(b, 8),
            begin: dq_it(b + 16),
            end: dq_it(b + 48),
        }
    }
}
/// EASTL's kDequeSubarraySize
pub fn deque_block(elem_size: usize) -> usize {
    match elem_size {
        0..=4 => 64,
        5..=8 => 32,
        9..=16 => 16,
        17..=32 => 8,
        _ => 4,
    }
}

impl RawDeque {
    /// Walk the elements as C++ does; an error describes the first thing that does not fit.
    pub fn walk(&self, esize: usize) -> Result<Vec<usize>, String> {
        let n = deque_block(esize);
        let pa = mem::block_at(self.ptr_array).ok_or("index is not a live block")?;
        if pa.size != self.ptr_array_size as usize * 8 {
            return Err(format!("index block has {} bytes for {} pointers", pa.size, self.ptr_array_size));
        }
        let inside = |a: usize| a >= self.ptr_array && a < self.ptr_array + pa.size && (a - self.ptr_array) % 8 == 0;
        for (what, it) in [("begin", &self.begin), ("end", &self.end)] {
            if !inside(it.arr) {
                return Err(format!("{what} iterator's index pointer lies outside the index"));
            }
            if unsafe { word(it.arr, 0) } != it.begin {
                return Err(format!("{what} iterator's block is not the one in its index slot"));
            }
            if it.end != it.begin + n * esize {
                return Err(format!("{what} iterator's block end is wrong"));
            }
            if it.cur < it.begin || it.cur >= it.end || (it.cur - it.begin) % esize != 0 {
                return Err(format!("{what} iterator's element pointer lies outside its block"));
            }
        }
        if self.end.arr < self.begin.arr {
            return Err("end precedes begin".into());
        }
        let mut out = Vec::new();
        let mut arr = self.begin.arr;
        let mut blocks = std::collections::HashSet::new();
        loop {
            let b = unsafe { word(arr, 0) };
            let rec = mem::block_at(b).ok_or_else(|| "an index slot in use holds no live block".to_string())?;
            if rec.size != n * esize {
                return Err(format!("a block has {} bytes instead of {}", rec.size, n * esize));
            }
            if !blocks.insert(b) {
                return Err("one block appears twice in the index".into());
            }
            let from = if arr == self.begin.arr { self.begin.cur } else { b };
            let to = if arr == self.end.arr { self.end.cur } else { b + n * esize };
            let mut p = from;
            while p < to {
                out.push(p);
                p += esize;
            }
            if arr == self.end.arr {
                break;
            }
            arr += 8;
        }
        Ok(out)
    }
    pub fn blocks_in_use(&self) -> usize {
        (self.end.arr - self.begin.arr) / 8 + 1
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RawHash {
    pub buckets: usize,
    pub bucket_count: u32,
    pub element_count: u32,
    pub max_load: f32,
    pub growth: f32,
    pub next_resize: u32,
}
/// eastl::hashtable: (extract key functor), mpBucketArray, mnBucketCount, mnElementCount,
/// mRehashPolicy {mfMaxLoadFactor, mfGrowthFactor, mnNextResize}, mAllocator
pub fn hash<C>(c: &C) -> RawHash {
    let b = c as *const C as usize;
    unsafe {
        RawHash {
            buckets: word(b, 8),
            bucket_count: u32_at(b, 16),
            element_count: u32_at(b, 20),
            max_load: f32_at(b, 24),
            growth: f32_at(b, 28),
            next_resize: u32_at(b, 32),
        }
    }
}
/// EASTL's gPrimeNumberArray
pub const PRIMES: [u32; 257] = [
    2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97,
    103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313,
    337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109,
    1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739,
    4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011,
    12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223,
    35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203,
    99733, 107897, 116731, 126271, 136607, 147793, 159871, 172933, 187091, 202409, 218971, 236897,
    256279, 277261, 299951, 324503, 351061, 379787, 410857, 444487, 480881, 520241, 562841, 608903,
    658753, 712697, 771049, 834181, 902483, 976369, 1056323, 1142821, 1236397, 1337629, 1447153,
    1565659, 1693859, 1832561, 1982627, 2144977, 2320627, 2510653, 2716249, 2938679, 3179303,
    3439651, 3721303, 4026031, 4355707, 4712381, 5098259, 5515729, 5967347, 6456007, 6984629,
    7556579, 8175383, 8844859, 9569143, 10352717, 11200489, 12117689, 13109983, 14183539, 15345007,
    16601593, 17961079, 19431899, 21023161, 22744717, 24607243, 26622317, 28802401, 31160981,
    33712729, 36473443, 39460231, 42691603, 46187573, 49969847, 54061849, 58488943, 63278561,
    68460391, 74066549, 80131819, 86693767, 93793069, 101473717, 109783337, 118773397, 128499677,
    139022417, 150406843, 162723577, 176048909, 190465427, 206062531, 222936881, 241193053,
    260944219, 282312799, 305431229, 330442829, 357502601, 386778277, 418451333, 452718089,
    489790921, 529899637, 573292817, 620239453, 671030513, 725980837, 785430967, 849749479,
    919334987, 994618837, 1076067617, 1164186217, 1259520799, 1362662261, 1474249943, 1594975441,
    1725587117, 1866894511, 2019773507, 2185171673, 2364114217, 2557710269, 2767159799, 2993761039,
    3238918481, 3504151727, 3791104843, 4101556399, 4294967291, 4294967291,
];

impl RawHash {
    /// prime_rehash_policy::GetRehashRequired: (new bucket count, new mnNextResize), when adding one
    pub fn policy(&self) -> (u32, u32) {
        let n1 = self.element_count + 1;
        if n1 <= self.next_resize {
            return (self.bucket_count, self.next_resize);
        }
        let count = if self.bucket_count == 1 { 0 } else { self.bucket_count };
        let min = n1 as f32 / self.max_load;
        if min > count as f32 {
            let min = min.max(self.growth * count as f32) as u32;
            let p = *PRIMES.iter().find(|&&p| p >= min).expect("harness: table too large");
            (p, (p as f32 * self.max_load).ceil() as u32)
        } else {
            (self.bucket_count, (count as f32 * self.max_load).ceil() as u32)
        }
    }
    /// (bucket, node) pairs in C++ iteration order: mpNode -> mpNext, then the next non-empty
    /// bucket, until the sentinel. `next_off` is the offset of mpNext, `node_size` the node's size.
    pub fn walk(&self, next_off: usize, node_size: usize) -> Result<Vec<(usize, usize)>, String> {
        let n = self.bucket_count as usize;
        if n == 0 {
            return Err("no buckets".into());
        }
        if n > 1 {
            let rec = mem::block_at(self.buckets).ok_or("bucket array is not a live block")?;
            if rec.size != (n + 1) * 8 {
                return Err(format!("bucket array has {} bytes for {n} buckets and the sentinel", rec.size));
            }
        }
        if unsafe { word(self.buckets, n * 8) } != usize::MAX {
            return Err("bucket array is not followed by the sentinel".into());
        }
        let mut out = Vec::new();
        for b in 0..n {
            let mut p = unsafe { word(self.buckets, b * 8) };
            while p != 0 {
                let rec = mem::block_at(p).ok_or_else(|| format!("bucket {b} links something that is not a live node"))?;
                if rec.size != node_size {
                    return Err(format!("a node has {} bytes instead of {node_size}", rec.size));
                }
                out.push((b, p));
                if out.len() > (self.element_count as usize + 16) * 2 {
                    return Err(format!("more than {} nodes linked, count says {}", out.len() - 1, self.element_count));
                }
                p = unsafe { word(p, next_off) };
            }
        }
        Ok(out)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RawList {
    pub head: usize,
    pub next: usize,
    pub prev: usize,
    pub size: u32,
}
/// eastl::list: mNode {mpNext, mpPrev}, mSize, mAllocator
pub fn list<C>(c: &C) -> RawList {
    let b = c as *const C as usize;
    unsafe { RawList { head: b, next: word(b, 0), prev: word(b, 8), size: u32_at(b, 16) } }
}
impl RawList {
    /// nodes in order; checks the ring both ways. `valid(node)` must hold for every node.
    pub fn walk(&self, valid: &dyn Fn(usize) -> Result<(), String>) -> Result<Vec<usize>, String> {
        let limit = self.size as usize + 8;
        let mut out = Vec::new();
        let mut p = self.next;
        let mut prev = self.head;
        while p != self.head {
            valid(p)?;
            if unsafe { word(p, 8) } != prev {
                return Err(format!("node {} does not point back to its predecessor", out.len()));
            }
            out.push(p);
            if out.len() > limit {
                return Err(format!("ring longer than its size {}", self.size));
            }
            prev = p;
            p = unsafe { word(p, 0) };
        }
        if self.prev != prev {
            return Err("header does not point back to the last node".into());
        }
        if out.len() != self.size as usize {
            return Err(format!("ring has {} nodes, size says {}", out.len(), self.size));
        }
        Ok(out)
    }
}

/// (offset of the value, offset of mpNext, size, alignment) of a hash_node<pair<K, V>, false>
pub fn hash_node<K, V>() -> (usize, usize, usize, usize) {
    let up = |x: usize, a: usize| x.div_ceil(a) * a;
    let (ak, av) = (std::mem::align_of::<K>(), std::mem::align_of::<V>());
    let voff = up(std::mem::size_of::<K>(), av);
    let pair = up(voff + std::mem::size_of::<V>(), ak.max(av));
    let next = up(pair, 8);
    let align = ak.max(av).max(8);
    (voff, next, up(next + 8, align), align)
}
