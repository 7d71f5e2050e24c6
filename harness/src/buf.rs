//! User-defined buffers.
use midi2::buffer::*;
use midi2::error::BufferOverflow;
use std::cell::Cell;

thread_local! {
    /// settings used when a message is rebuffered into one of the custom buffers
    pub static CAP: Cell<usize> = const { Cell::new(0) };
    pub static FILL: Cell<u32> = const { Cell::new(0) };
    pub static SHRINK: Cell<bool> = const { Cell::new(true) };
}
pub fn settings(cap: usize, fill: u32, shrink: bool) {
    CAP.with(|c| c.set(cap));
    FILL.with(|c| c.set(fill));
    SHRINK.with(|c| c.set(shrink));
}

pub trait Un: Unit + Copy + PartialEq + Eq + std::fmt::Debug + Send + Sync + 'static {
    fn from32(v: u32) -> Self;
    fn to32(self) -> u32;
}
impl Un for u32 {
    fn from32(v: u32) -> Self { v }
    fn to32(self) -> u32 { self }
}
impl Un for u8 {
    fn from32(v: u32) -> Self { v as u8 }
    fn to32(self) -> u32 { self as u32 }
}

/// Growable (infallible); fresh units contain `fill`; optionally never shrinks.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Grow<U: Un> {
    pub v: Vec<U>,
    pub fill: U,
    pub shrink: bool,
}
/// Fixed capacity, array-like: `try_resize(n)` is Ok iff n <= capacity.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fix<U: Un> {
    pub v: Vec<U>,
}
/// Bounded growable: length follows try_resize up to `cap`.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bound<U: Un> {
    pub v: Vec<U>,
    pub cap: usize,
    pub fill: U,
}

macro_rules! common {
    ($t:ident) => {
        impl<U: Un> Buffer for $t<U> {
            type Unit = U;
            fn buffer(&self) -> &[U] { &self.v }
        }
        impl<U: Un> BufferMut for $t<U> {
            fn buffer_mut(&mut self) -> &mut [U] { &mut self.v }
        }
    };
}
common!(Grow);
common!(Fix);
common!(Bound);

impl<U: Un> BufferResize for Grow<U> {
    fn resize(&mut self, n: usize) {
        if n > self.v.len() || self.shrink {
            let f = self.fill;
            self.v.resize(n, f);
        }
    }
}
impl<U: Un> BufferTryResize for Fix<U> {
    fn try_resize(&mut self, n: usize) -> Result<(), BufferOverflow> {
        if n > self.v.len() { Err(BufferOverflow) } else { Ok(()) }
    }
}
impl<U: Un> BufferTryResize for Bound<U> {
    fn try_resize(&mut self, n: usize) -> Result<(), BufferOverflow> {
        if n > self.cap {
            Err(BufferOverflow)
        } else {
            let f = self.fill;
            self.v.resize(n, f);
            Ok(())
        }
    }
}

impl<U: Un> Grow<U> {
    pub fn with(v: &[U]) -> Self {
        Grow { v: v.to_vec(), fill: U::from32(FILL.with(|c| c.get())), shrink: SHRINK.with(|c| c.get()) }
    }
}
impl<U: Un> Fix<U> {
    pub fn with(v: &[U]) -> Self {
        let cap = CAP.with(|c| c.get()).max(v.len());
        let mut b = vec![U::from32(FILL.with(|c| c.get())); cap];
        b[..v.len()].copy_from_slice(v);
        Fix { v: b }
    }
}
impl<U: Un> Bound<U> {
    pub fn with(v: &[U]) -> Self {
        let cap = CAP.with(|c| c.get()).max(v.len());
        Bound { v: v.to_vec(), cap, fill: U::from32(FILL.with(|c| c.get())) }
    }
}
impl<U: Un> BufferDefault for Grow<U> {
    fn default() -> Self { Grow::with(&[]) }
}
impl<U: Un> BufferDefault for Fix<U> {
    // array-like default: all zero
    fn default() -> Self { Fix { v: vec![U::zero(); CAP.with(|c| c.get())] } }
}
impl<U: Un> BufferDefault for Bound<U> {
    fn default() -> Self { Bound::with(&[]) }
}
impl<'a, U: Un> FromBuffer<&'a [U]> for Grow<U> {
    fn from_buffer(v: &'a [U]) -> Self { Grow::with(v) }
}
impl<'a, U: Un> FromBuffer<&'a [U]> for Fix<U> {
    fn from_buffer(v: &'a [U]) -> Self { Fix::with(v) }
}
impl<'a, U: Un> FromBuffer<&'a [U]> for Bound<U> {
    fn from_buffer(v: &'a [U]) -> Self { Bound::with(v) }
}
impl<'a, U: Un> TryFromBuffer<&'a [U]> for Bound<U> {
    fn try_from_buffer(v: &'a [U]) -> Result<Self, BufferOverflow> {
        if v.len() > CAP.with(|c| c.get()) { Err(BufferOverflow) } else { Ok(Bound::with(v)) }
    }
}
