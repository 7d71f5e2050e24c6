//! SysEx messages behind one object interface, plus the reference model.
use crate::buf::*;
use crate::hints::*;
use midi2::buffer::*;
use midi2::prelude::*;
use midi2::sysex7::Sysex7;
use midi2::sysex8::Sysex8;
use std::ops::Bound as B_;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    S7U,
    S7B,
    S8,
}
pub const KINDS: [Kind; 3] = [Kind::S7U, Kind::S7B, Kind::S8];

impl Kind {
    pub fn per(self) -> usize {
        match self {
            Kind::S7U => 6,
            Kind::S8 => 13,
            Kind::S7B => 1,
        }
    }
    pub fn words(self) -> usize {
        match self {
            Kind::S7U => 2,
            Kind::S8 => 4,
            Kind::S7B => 1,
        }
    }
    pub fn has_group(self) -> bool {
        self != Kind::S7B
    }
    pub fn has_stream(self) -> bool {
        self == Kind::S8
    }
    pub fn enc_len(self, n: usize) -> usize {
        match self {
            Kind::S7B => n + 2,
            k => n.div_ceil(k.per()).max(1) * k.words(),
        }
    }
    /// one packet
    pub fn packet(self, group: u8, status: u8, stream: u8, data: &[u8]) -> Vec<u32> {
        let mut b: Vec<u8> = match self {
            Kind::S7U => vec![0x30 | group, status << 4 | data.len() as u8],
            Kind::S8 => vec![0x50 | group, status << 4 | (data.len() as u8 + 1), stream],
            Kind::S7B => unreachable!(),
        };
        b.extend_from_slice(data);
        b.resize(self.words() * 4, 0);
        b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect()
    }
    /// encode with explicit packet sizes
    pub fn encode_sizes(self, group: u8, stream: u8, payload: &[u8], sizes: &[usize]) -> Vec<u32> {
        let mut out = vec![];
        let mut at = 0;
        for (i, s) in sizes.iter().enumerate() {
            let st = if sizes.len() == 1 {
                0
            } else if i == 0 {
                1
            } else if i + 1 == sizes.len() {
                3
            } else {
                2
            };
            out.extend(self.packet(group, st, stream, &payload[at..at + s]));
            at += s;
        }
        assert_eq!(at, payload.len());
        out
    }
    pub fn encode(self, group: u8, stream: u8, payload: &[u8]) -> Vec<u32> {
        if self == Kind::S7B {
            let mut v = vec![0xF0];
            v.extend(payload.iter().map(|b| *b as u32));
            v.push(0xF7);
            return v;
        }
        let p = self.per();
        let mut sizes = vec![];
        let mut n = payload.len();
        while n > p {
            sizes.push(p);
            n -= p;
        }
        sizes.push(n);
        self.encode_sizes(group, stream, payload, &sizes)
    }
    /// data of another message kind to put behind a message
    pub fn trailing(self, which: usize) -> Vec<u32> {
        match (self, which) {
            (_, 0) => vec![],
            (Kind::S7B, 1) => vec![0x90, 0x40, 0x7F],
            (Kind::S7B, 2) => vec![0xF0, 0x01, 0x02, 0xF7],
            (Kind::S7B, _) => vec![0xF7, 0xFF, 0x33],
            (Kind::S7U, 1) => vec![0x2391_403F],
            (Kind::S7U, 2) => vec![0x5416_0102, 0x0304_0506, 0x0708_090A, 0x0B0C_0D0E],
            (Kind::S7U, _) => vec![0x409F_FFFF, 0xFFFF_FFFF, 0x3],
            (Kind::S8, 1) => vec![0x2391_403F],
            (Kind::S8, 2) => vec![0x3416_0102, 0x0304_0506, 0x2391_403F, 0, 0x3333_3333],
            (Kind::S8, _) => vec![0x409F_FFFF, 0xFFFF_FFFF, 0x3],
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bk {
    Vec,
    GrowDirty,   // growable, fresh units dirty, shrinks
    GrowSticky,  // growable, dirty, never shrinks
    VecRef,      // &mut Vec
    Fix,         // array-like capacity
    Bound,       // bounded growable
}

/// (start, end) bounds as given to splice
pub type Rg = (B_<usize>, B_<usize>);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Set(Vec<u8>, Hint),
    Insert(usize, Vec<u8>, Hint),
    Append(Vec<u8>, Hint),
    Splice(Rg, Vec<u8>, Hint),
    SetByte(usize, u8),
    AppendByte(u8),
    Group(u8),
    Stream(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Exp {
    Ok,
    Overflow,
    Panic,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Model {
    pub kind: Kind,
    pub payload: Vec<u8>,
    pub group: u8,
    pub stream: u8,
    /// exact words while the message still has the packetisation it was parsed with
    pub raw: Option<Vec<u32>>,
}

pub fn resolve(r: &Rg, n: usize) -> Option<(usize, usize)> {
    let a = match r.0 {
        B_::Included(v) => v,
        B_::Excluded(v) => v.checked_add(1)?,
        B_::Unbounded => 0,
    };
    let b = match r.1 {
        B_::Included(v) => v.checked_add(1)?,
        B_::Excluded(v) => v,
        B_::Unbounded => n,
    };
    (a <= b && b <= n).then_some((a, b))
}

impl Model {
    pub fn data(&self) -> Vec<u32> {
        self.raw.clone().unwrap_or_else(|| self.kind.encode(self.group, self.stream, &self.payload))
    }
    /// applies op; cap = capacity in units for fallible buffers
    pub fn apply(&mut self, op: &Op, cap: Option<usize>) -> Exp {
        let n = self.payload.len();
        let (at, new): ((usize, usize), &[u8]) = match op {
            Op::Set(d, _) => ((0, n), d),
            Op::Insert(i, d, _) => {
                if *i > n {
                    return Exp::Panic;
                }
                ((*i, *i), d)
            }
            Op::Append(d, _) => ((n, n), d),
            Op::Splice(r, d, _) => match resolve(r, n) {
                None => return Exp::Panic,
                Some(x) => (x, d),
            },
            Op::AppendByte(b) => ((n, n), std::slice::from_ref(b)),
            Op::SetByte(i, b) => {
                if *i >= n {
                    return Exp::Panic;
                }
                self.payload[*i] = *b;
                if let Some(raw) = &mut self.raw {
                    set_raw_byte(self.kind, raw, *i, *b);
                }
                return Exp::Ok;
            }
            Op::Group(g) => {
                if self.kind.has_group() {
                    self.group = *g;
                    if let Some(raw) = &mut self.raw {
                        for p in raw.chunks_mut(self.kind.words()) {
                            p[0] = p[0] & 0xF0FF_FFFF | (*g as u32) << 24;
                        }
                    }
                }
                return Exp::Ok;
            }
            Op::Stream(s) => {
                if self.kind.has_stream() {
                    self.stream = *s;
                    if let Some(raw) = &mut self.raw {
                        for p in raw.chunks_mut(self.kind.words()) {
                            p[0] = p[0] & 0xFFFF_00FF | (*s as u32) << 8;
                        }
                    }
                }
                return Exp::Ok;
            }
        };
        let total = n - (at.1 - at.0) + new.len();
        self.raw = None;
        if let Some(cap) = cap {
            if self.kind.enc_len(total) > cap {
                self.payload.clear();
                return Exp::Overflow;
            }
        }
        self.payload.splice(at.0..at.1, new.iter().copied());
        Exp::Ok
    }
}

fn set_raw_byte(kind: Kind, raw: &mut [u32], mut i: usize, b: u8) {
    if kind == Kind::S7B {
        raw[i + 1] = b as u32;
        return;
    }
    let (w, hdr) = (kind.words(), kind.words() * 4 - if kind == Kind::S8 { 13 } else { 6 });
    for p in raw.chunks_mut(w) {
        let mut sz = (p[0] >> 16 & 0xF) as usize;
        if kind == Kind::S8 {
            sz -= 1;
        }
        if i < sz {
            let o = hdr + i;
            let sh = 24 - 8 * (o % 4);
            p[o / 4] = p[o / 4] & !(0xFF << sh) | (b as u32) << sh;
            return;
        }
        i -= sz;
    }
    unreachable!()
}

pub const LIM: usize = 4_000_000;

pub trait SxBase {
    fn data(&self) -> Vec<u32>;
    fn payload(&self) -> Vec<u8>;
    fn size(&self) -> usize;
    fn group(&self) -> u8;
    fn stream(&self) -> u8;
    /// Err = BufferOverflow
    fn apply(&mut self, op: &Op) -> Result<(), ()>;
}
/// messages in buffers which can be copied
pub trait Sx: SxBase {
    fn dup(&self) -> Box<dyn Sx>;
}

macro_rules! item {
    (s7, $b:expr) => { u7::new($b) };
    (s8, $b:expr) => { $b };
}
macro_rules! iter {
    ($k:ident, $d:expr, $h:expr) => {
        HintIter { items: $d.iter().map(|b| item!($k, *b)).collect::<Vec<_>>().into_iter(), hint: $h }
    };
}
macro_rules! rest {
    (inf, $s:ident, $op:ident, $k:ident) => {
        match $op {
            Op::Set(d, h) => $s.set_payload(iter!($k, d, *h)),
            Op::Insert(i, d, h) => $s.insert_payload(iter!($k, d, *h), *i),
            Op::Append(d, h) => $s.append_payload(iter!($k, d, *h)),
            Op::Splice(r, d, h) => $s.splice_payload(iter!($k, d, *h), *r),
            Op::AppendByte(b) => $s.append_byte(item!($k, *b)),
            _ => unreachable!(),
        }
    };
    (fal, $s:ident, $op:ident, $k:ident) => {
        match $op {
            Op::Set(d, h) => $s.try_set_payload(iter!($k, d, *h)),
            Op::Insert(i, d, h) => $s.try_insert_payload(iter!($k, d, *h), *i),
            Op::Append(d, h) => $s.try_append_payload(iter!($k, d, *h)),
            Op::Splice(r, d, h) => $s.try_splice_payload(iter!($k, d, *h), *r),
            Op::AppendByte(b) => $s.try_append_byte(item!($k, *b)),
            _ => unreachable!(),
        }
        .map_err(|_| ())?
    };
}
macro_rules! sx {
    ($name:ident, $msg:ident, $unit:ident, $bound:ident, $k:ident, $mode:ident, $rs:ident,
     |$gs:ident| $g:expr, |$ss:ident| $st:expr, |$sg:ident, $sgv:ident| $setg:expr, |$s2:ident, $s2v:ident| $sets:expr) => {
        pub struct $name<B: $bound>(pub $msg<B>);
        impl<B: $bound + BufferMut + $rs> SxBase for $name<B> {
            fn data(&self) -> Vec<u32> {
                Data::data(&self.0).iter().map(|x| x.to32()).collect()
            }
            fn payload(&self) -> Vec<u8> {
                self.0.payload().map(|b| u8::from(b)).take(LIM).collect()
            }
            fn size(&self) -> usize {
                self.0.payload_size()
            }
            fn group(&self) -> u8 {
                let $gs = &self.0;
                $g
            }
            fn stream(&self) -> u8 {
                let $ss = &self.0;
                $st
            }
            fn apply(&mut self, op: &Op) -> Result<(), ()> {
                match op {
                    Op::SetByte(i, b) => self.0.set_byte(item!($k, *b), *i),
                    Op::Group(v) => {
                        let ($sg, $sgv) = (&mut self.0, *v);
                        $setg;
                    }
                    Op::Stream(v) => {
                        let ($s2, $s2v) = (&mut self.0, *v);
                        $sets;
                    }
                    _ => {
                        let s = &mut self.0;
                        rest!($mode, s, op, $k)
                    }
                }
                Ok(())
            }
        }
        impl<B: $bound + BufferMut + $rs + Clone + 'static> Sx for $name<B> {
            fn dup(&self) -> Box<dyn Sx> {
                Box::new($name(self.0.clone()))
            }
        }
    };
}
sx!(G7u, Sysex7, u32, Ump, s7, inf, BufferResize, |m| u8::from(m.group()), |_m| 0, |m, v| m.set_group(u4::new(v)), |_m, _v| ());
sx!(F7u, Sysex7, u32, Ump, s7, fal, BufferTryResize, |m| u8::from(m.group()), |_m| 0, |m, v| m.set_group(u4::new(v)), |_m, _v| ());
sx!(G7b, Sysex7, u8, Bytes, s7, inf, BufferResize, |_m| 0, |_m| 0, |_m, _v| (), |_m, _v| ());
sx!(F7b, Sysex7, u8, Bytes, s7, fal, BufferTryResize, |_m| 0, |_m| 0, |_m, _v| (), |_m, _v| ());
sx!(G8, Sysex8, u32, Ump, s8, inf, BufferResize, |m| u8::from(m.group()), |m| m.stream_id(), |m, v| m.set_group(u4::new(v)), |m, v| m.set_stream_id(v));
sx!(F8, Sysex8, u32, Ump, s8, fal, BufferTryResize, |m| u8::from(m.group()), |m| m.stream_id(), |m, v| m.set_group(u4::new(v)), |m, v| m.set_stream_id(v));

/// obtain a mutable message by parsing `units` and rebuffering
pub fn parsed(kind: Kind, bk: Bk, cap: usize, fill: u32, units: &[u32]) -> Result<Box<dyn Sx>, String> {
    settings(cap, fill, bk != Bk::GrowSticky);
    let e = |e: midi2::error::InvalidData| format!("{e:?}");
    Ok(match kind {
        Kind::S7U => {
            let m = Sysex7::try_from(units).map_err(e)?;
            match bk {
                Bk::Vec => Box::new(G7u(RebufferInto::<Sysex7<Vec<u32>>>::rebuffer_into(m))),
                Bk::GrowDirty | Bk::GrowSticky | Bk::VecRef => Box::new(G7u(RebufferInto::<Sysex7<Grow<u32>>>::rebuffer_into(m))),
                Bk::Fix => Box::new(F7u(RebufferInto::<Sysex7<Fix<u32>>>::rebuffer_into(m))),
                Bk::Bound => Box::new(F7u(RebufferInto::<Sysex7<Bound<u32>>>::rebuffer_into(m))),
            }
        }
        Kind::S7B => {
            let b: Vec<u8> = units.iter().map(|u| *u as u8).collect();
            let m = Sysex7::try_from(&b[..]).map_err(e)?;
            match bk {
                Bk::Vec => Box::new(G7b(RebufferInto::<Sysex7<Vec<u8>>>::rebuffer_into(m))),
                Bk::GrowDirty | Bk::GrowSticky | Bk::VecRef => Box::new(G7b(RebufferInto::<Sysex7<Grow<u8>>>::rebuffer_into(m))),
                Bk::Fix => Box::new(F7b(RebufferInto::<Sysex7<Fix<u8>>>::rebuffer_into(m))),
                Bk::Bound => Box::new(F7b(RebufferInto::<Sysex7<Bound<u8>>>::rebuffer_into(m))),
            }
        }
        Kind::S8 => {
            let m = Sysex8::try_from(units).map_err(e)?;
            match bk {
                Bk::Vec => Box::new(G8(RebufferInto::<Sysex8<Vec<u32>>>::rebuffer_into(m))),
                Bk::GrowDirty | Bk::GrowSticky | Bk::VecRef => Box::new(G8(RebufferInto::<Sysex8<Grow<u32>>>::rebuffer_into(m))),
                Bk::Fix => Box::new(F8(RebufferInto::<Sysex8<Fix<u32>>>::rebuffer_into(m))),
                Bk::Bound => Box::new(F8(RebufferInto::<Sysex8<Bound<u32>>>::rebuffer_into(m))),
            }
        }
    })
}

/// obtain a fresh message through a constructor, `pre` = stale buffer content
pub fn fresh(kind: Kind, bk: Bk, cap: usize, fill: u32, pre: usize) -> Result<Box<dyn Sx>, ()> {
    settings(cap, fill, bk != Bk::GrowSticky);
    let p32 = vec![fill; pre];
    let p8 = vec![fill as u8; pre];
    Ok(match (kind, bk) {
        (Kind::S7U, Bk::Vec) => Box::new(if pre == 0 { G7u(Sysex7::<Vec<u32>>::new()) } else { G7u(Sysex7::<Vec<u32>>::new_with_buffer(p32)) }),
        (Kind::S7B, Bk::Vec) => Box::new(if pre == 0 { G7b(Sysex7::<Vec<u8>>::new()) } else { G7b(Sysex7::<Vec<u8>>::new_with_buffer(p8)) }),
        (Kind::S8, Bk::Vec) => Box::new(if pre == 0 { G8(Sysex8::<Vec<u32>>::new()) } else { G8(Sysex8::<Vec<u32>>::new_with_buffer(p32)) }),
        (Kind::S7U, Bk::GrowDirty | Bk::GrowSticky | Bk::VecRef) => Box::new(G7u(Sysex7::new_with_buffer(Grow::<u32>::with(&p32)))),
        (Kind::S7B, Bk::GrowDirty | Bk::GrowSticky | Bk::VecRef) => Box::new(G7b(Sysex7::new_with_buffer(Grow::<u8>::with(&p8)))),
        (Kind::S8, Bk::GrowDirty | Bk::GrowSticky | Bk::VecRef) => Box::new(G8(Sysex8::new_with_buffer(Grow::<u32>::with(&p32)))),
        (Kind::S7U, Bk::Fix) => Box::new(F7u(Sysex7::try_new_with_buffer(Fix::<u32> { v: vec![fill; cap] }).map_err(|_| ())?)),
        (Kind::S7B, Bk::Fix) => Box::new(F7b(Sysex7::try_new_with_buffer(Fix::<u8> { v: vec![fill as u8; cap] }).map_err(|_| ())?)),
        (Kind::S8, Bk::Fix) => Box::new(F8(Sysex8::try_new_with_buffer(Fix::<u32> { v: vec![fill; cap] }).map_err(|_| ())?)),
        (Kind::S7U, Bk::Bound) => Box::new(F7u(Sysex7::try_new_with_buffer(Bound::<u32> { v: p32, cap, fill }).map_err(|_| ())?)),
        (Kind::S7B, Bk::Bound) => Box::new(F7b(Sysex7::try_new_with_buffer(Bound::<u8> { v: p8, cap, fill: fill as u8 }).map_err(|_| ())?)),
        (Kind::S8, Bk::Bound) => Box::new(F8(Sysex8::try_new_with_buffer(Bound::<u32> { v: p32, cap, fill }).map_err(|_| ())?)),
    })
}

/// A message in a borrowed buffer (`&mut [U]`, `&mut Vec<U>`), which cannot be cloned: a copy is a new message with
/// the same history.
struct Replay<S: 'static> {
    m: Option<Box<dyn SxBase>>,
    store: *mut S,
    init: S,
    make: fn(&'static mut S) -> Option<Box<dyn SxBase>>,
    ops: Vec<Op>,
}
impl<S: Clone + 'static> Replay<S> {
    fn of(init: S, make: fn(&'static mut S) -> Option<Box<dyn SxBase>>) -> Option<Self> {
        let store = Box::into_raw(Box::new(init.clone()));
        // freed after the message, in drop
        let m = make(unsafe { &mut *store });
        let r = Replay { m, store, init, make, ops: vec![] };
        r.m.is_some().then_some(r)
    }
}
impl<S> Drop for Replay<S> {
    fn drop(&mut self) {
        self.m = None;
        drop(unsafe { Box::from_raw(self.store) });
    }
}
impl<S: Clone + 'static> SxBase for Replay<S> {
    fn data(&self) -> Vec<u32> { self.m.as_ref().unwrap().data() }
    fn payload(&self) -> Vec<u8> { self.m.as_ref().unwrap().payload() }
    fn size(&self) -> usize { self.m.as_ref().unwrap().size() }
    fn group(&self) -> u8 { self.m.as_ref().unwrap().group() }
    fn stream(&self) -> u8 { self.m.as_ref().unwrap().stream() }
    fn apply(&mut self, op: &Op) -> Result<(), ()> {
        self.ops.push(op.clone());
        self.m.as_mut().unwrap().apply(op)
    }
}
impl<S: Clone + 'static> Sx for Replay<S> {
    fn dup(&self) -> Box<dyn Sx> {
        let mut r = Replay::of(self.init.clone(), self.make).unwrap();
        for op in &self.ops {
            let _ = r.apply(op);
        }
        Box::new(r)
    }
}
/// a new message in a borrowed slice of `n` dirty units
pub fn in_slice(kind: Kind, n: usize, fill: u32) -> Option<Box<dyn Sx>> {
    fn b(x: Option<Replay<impl Clone + 'static>>) -> Option<Box<dyn Sx>> {
        x.map(|x| Box::new(x) as Box<dyn Sx>)
    }
    match kind {
        Kind::S7U => b(Replay::<Vec<u32>>::of(vec![fill; n], |s| Sysex7::try_new_with_buffer(&mut s[..]).ok().map(|m| Box::new(F7u(m)) as Box<dyn SxBase>))),
        Kind::S7B => b(Replay::<Vec<u8>>::of(vec![fill as u8; n], |s| Sysex7::try_new_with_buffer(&mut s[..]).ok().map(|m| Box::new(F7b(m)) as Box<dyn SxBase>))),
        Kind::S8 => b(Replay::<Vec<u32>>::of(vec![fill; n], |s| Sysex8::try_new_with_buffer(&mut s[..]).ok().map(|m| Box::new(F8(m)) as Box<dyn SxBase>))),
    }
}
/// a new message in a borrowed vector of `n` dirty units
pub fn in_vec(kind: Kind, n: usize, fill: u32) -> Option<Box<dyn Sx>> {
    fn b(x: Option<Replay<impl Clone + 'static>>) -> Option<Box<dyn Sx>> {
        x.map(|x| Box::new(x) as Box<dyn Sx>)
    }
    match kind {
        Kind::S7U => b(Replay::<Vec<u32>>::of(vec![fill; n], |s| Some(Box::new(G7u(Sysex7::new_with_buffer(s))) as Box<dyn SxBase>))),
        Kind::S7B => b(Replay::<Vec<u8>>::of(vec![fill as u8; n], |s| Some(Box::new(G7b(Sysex7::new_with_buffer(s))) as Box<dyn SxBase>))),
        Kind::S8 => b(Replay::<Vec<u32>>::of(vec![fill; n], |s| Some(Box::new(G8(Sysex8::new_with_buffer(s))) as Box<dyn SxBase>))),
    }
}
