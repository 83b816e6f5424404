//! Element types the containers are instantiated with.
use crate::tok::*;
use std::fmt::Debug;

/// A value that carries a number; `get(mk(norm(v))) == norm(v)`.
pub trait Elem: Sized + Clone + PartialEq + PartialOrd + Debug + 'static {
    const NAME: &'static str;
    const TRACKED: bool = false;
    fn norm(v: u64) -> u64;
    fn mk(v: u64) -> Self;
    fn get(&self) -> u64;
    /// identity of tracked values, 0 otherwise
    fn ident(&self) -> u32 {
        0
    }
}

macro_rules! int_elem {
    ($($t:ty),*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            fn norm(v: u64) -> u64 { v as $t as u64 }
            fn mk(v: u64) -> Self { v as $t }
            fn get(&self) -> u64 { *self as u64 }
        }
    )*};
}
int_elem!(u8, u16, u32, u64, u128);

/// A plain value of N bytes (N >= 4), alignment 1.
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Blob<const N: usize>([u8; N]);

impl<const N: usize> Blob<N> {
    fn fill(v: u64) -> [u8; N] {
        let v = v as u32;
        let mut b = [0u8; N];
        for (i, x) in b.iter_mut().enumerate() {
            *x = (v >> (8 * (i % 4))) as u8 ^ ((i / 4) as u8).wrapping_mul(29);
        }
        b
    }
}
impl<const N: usize> Elem for Blob<N> {
    const NAME: &'static str = "blob";
    fn norm(v: u64) -> u64 {
        v as u32 as u64
    }
    fn mk(v: u64) -> Self {
        Blob(Self::fill(v))
    }
    fn get(&self) -> u64 {
        let v = u32::from_le_bytes([self.0[0], self.0[1], self.0[2], self.0[3]]) as u64;
        if self.0 == Self::fill(v) {
            v
        } else {
            u64::MAX
        }
    }
}
impl<const N: usize> PartialEq for Blob<N> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<const N: usize> PartialOrd for Blob<N> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.get().partial_cmp(&o.get())
    }
}
impl<const N: usize> Debug for Blob<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.get())
    }
}

/// Over-aligned plain value.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
#[repr(C, align(32))]
pub struct Al32(u64, u64);
impl Elem for Al32 {
    const NAME: &'static str = "al32";
    fn norm(v: u64) -> u64 {
        v
    }
    fn mk(v: u64) -> Self {
        Al32(v, !v)
    }
    fn get(&self) -> u64 {
        if (self as *const _ as usize) % 32 != 0 || self.0 != !self.1 {
            u64::MAX - 1
        } else {
            self.0
        }
    }
}
impl Debug for Al32 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.get())
    }
}

impl Elem for Box<u64> {
    const NAME: &'static str = "box";
    fn norm(v: u64) -> u64 {
        v
    }
    fn mk(v: u64) -> Self {
        Box::new(v)
    }
    fn get(&self) -> u64 {
        **self
    }
}

impl Elem for std::string::String {
    const NAME: &'static str = "string";
    fn norm(v: u64) -> u64 {
        v as u32 as u64
    }
    fn mk(v: u64) -> Self {
        format!("{:08}", v as u32)
    }
    fn get(&self) -> u64 {
        self.parse().unwrap_or(u64::MAX)
    }
}

macro_rules! tok_elem {
    ($($t:ty),*) => {$(
        impl Elem for $t {
            const NAME: &'static str = <$t as Tracked>::TNAME;
            const TRACKED: bool = true;
            fn norm(v: u64) -> u64 { v as u32 as u64 }
            fn mk(v: u64) -> Self { <$t as Tracked>::new(v as u32 as u64) }
            fn get(&self) -> u64 { <$t as Tracked>::val(self) }
            fn ident(&self) -> u32 { <$t as Tracked>::id(self) }
        }
    )*};
}
tok_elem!(Tok4, Tok8, Tok12, Tok24, Tok40, TokA16, TokA64);

/// No value at all (what a set keeps beside its keys).
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
pub struct Unit;
impl Elem for Unit {
    const NAME: &'static str = "unit";
    fn norm(_: u64) -> u64 {
        0
    }
    fn mk(_: u64) -> Self {
        Unit
    }
    fn get(&self) -> u64 {
        0
    }
}
