//! The declarative table of all messages (bit layouts from the MIDI 2.0
#![allow(non_snake_case)]
//! specification) and object safe access to the real message types.
use crate::buf::*;
use crate::code::*;
use midi2::buffer::*;
use midi2::prelude::*;
use std::cell::RefCell;
use std::cell::UnsafeCell;
use std::rc::Rc;

/// (unit index, lowest bit, number of bits); segments are listed from the least significant
pub type Seg = (usize, u32, u32);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fam {
    Utility,
    SystemCommon,
    Cv1,
    Cv2,
    Flex,
    Stream,
}
impl Fam {
    pub fn name(self) -> &'static str {
        match self {
            Fam::Utility => "utility",
            Fam::SystemCommon => "system_common",
            Fam::Cv1 => "channel_voice1",
            Fam::Cv2 => "channel_voice2",
            Fam::Flex => "flex_data",
            Fam::Stream => "ump_stream",
        }
    }
    pub fn all() -> [Fam; 6] {
        [Fam::Utility, Fam::SystemCommon, Fam::Cv1, Fam::Cv2, Fam::Flex, Fam::Stream]
    }
    /// (message type nibble, words per packet)
    pub fn ump(self) -> (u32, usize) {
        match self {
            Fam::Utility => (0, 1),
            Fam::SystemCommon => (1, 1),
            Fam::Cv1 => (2, 1),
            Fam::Cv2 => (4, 2),
            Fam::Flex => (0xD, 4),
            Fam::Stream => (0xF, 4),
        }
    }
}

pub struct Field {
    pub name: &'static str,
    pub segs: &'static [Seg],
    pub canon: fn(u64) -> Option<u64>,
    pub codes: fn(bool) -> Vec<u64>,
    pub corners: fn() -> Vec<u64>,
    pub def: u64,
    /// false for bits which are validated but not readable
    pub access: bool,
}
impl Field {
    pub fn mask<U: Un>(&self, out: &mut [U]) {
        for &(i, s, w) in self.segs {
            out[i] = U::from32(out[i].to32() | (((1u64 << w) - 1) as u32) << s);
        }
    }
    pub fn read<U: Un>(&self, b: &[U]) -> u64 {
        let mut v = 0u64;
        let mut p = 0;
        for &(i, s, w) in self.segs {
            v |= ((b[i].to32() as u64 >> s) & ((1 << w) - 1)) << p;
            p += w;
        }
        v
    }
    pub fn write<U: Un>(&self, b: &mut [U], mut c: u64) {
        for &(i, s, w) in self.segs {
            let m = (((1u64 << w) - 1) << s) as u32;
            let x = b[i].to32() & !m | ((c << s) as u32 & m);
            b[i] = U::from32(x);
            c >>= w;
        }
    }
    pub fn width(&self) -> u32 {
        self.segs.iter().map(|s| s.2).sum()
    }
    /// value read from these bits
    pub fn value<U: Un>(&self, b: &[U]) -> Option<u64> {
        (self.canon)(self.read(b))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TextKind {
    /// words per packet 4; text at w1..w3
    Flex,
    /// text from octet 2 of w0 (+offset)
    Stream(usize),
}

pub struct Spec {
    pub name: &'static str,
    pub fam: Fam,
    /// message size in units; for text messages the size of one packet
    pub units: usize,
    /// (mask, value) of the first unit, format bits included (as Complete)
    pub hdr: (u32, u32),
    pub fields: &'static [Field],
    pub text: Option<TextKind>,
}
impl Spec {
    pub fn field(&self, n: &str) -> Option<usize> {
        self.fields.iter().position(|f| f.name == n)
    }
    /// the default message
    pub fn default_units<U: Un>(&self) -> Vec<U> {
        let mut v = vec![U::from32(0); self.units];
        v[0] = U::from32(self.hdr.1);
        for f in self.fields {
            f.write(&mut v, f.def);
        }
        v
    }
    /// every bit which some field or the header owns
    pub fn owned<U: Un>(&self) -> Vec<U> {
        let mut v = vec![U::from32(0); self.units];
        v[0] = U::from32(self.hdr.0);
        for f in self.fields {
            f.mask(&mut v);
        }
        v
    }
}

/// number of units of the message if `b` starts with this message
pub fn accepts<U: Un>(s: &Spec, b: &[U]) -> Option<usize> {
    match s.text {
        None => {
            if b.len() < s.units || b[0].to32() & s.hdr.0 != s.hdr.1 {
                return None;
            }
            s.fields.iter().all(|f| f.value(b).is_some()).then_some(s.units)
        }
        Some(t) => {
            let (fsh, mt) = match t {
                TextKind::Flex => (22, 0xD),
                TextKind::Stream(_) => (26, 0xF),
            };
            // leading run of packets of the same message type
            let w: Vec<u32> = b.iter().map(|x| x.to32()).collect();
            let run: Vec<&[u32]> = w.chunks(4).take_while(|c| c[0] >> 28 == mt).collect();
            if run.is_empty() || run.iter().any(|c| c.len() < 4) {
                return None;
            }
            let fm = 3u32 << fsh;
            let n = run.len();
            let mut text = vec![];
            let f0: Vec<Option<u64>> = s.fields.iter().map(|f| f.value(run[0])).collect();
            for (i, p) in run.iter().enumerate() {
                let want = if n == 1 { 0 } else if i == 0 { 1 } else if i + 1 == n { 3 } else { 2 };
                if (p[0] & fm) >> fsh != want || p[0] & (s.hdr.0 & !fm) != s.hdr.1 & !fm {
                    return None;
                }
                // every per packet field is the same in all packets
                if s.fields.iter().zip(&f0).any(|(f, v)| f.value(p) != *v || v.is_none()) {
                    return None;
                }
                text.extend(packet_text(t, p));
            }
            String::from_utf8(text).ok()?;
            Some(4 * n)
        }
    }
}
pub fn packet_text(t: TextKind, p: &[u32]) -> Vec<u8> {
    let bytes: Vec<u8> = p.iter().flat_map(|w| w.to_be_bytes()).collect();
    let from = match t {
        TextKind::Flex => 4,
        TextKind::Stream(o) => 2 + o,
    };
    bytes[from..].iter().copied().filter(|b| *b != 0).collect()
}
pub fn text_of<U: Un>(t: TextKind, b: &[U]) -> Vec<u8> {
    let w: Vec<u32> = b.iter().map(|x| x.to32()).collect();
    w.chunks(4).flat_map(|p| packet_text(t, p)).collect()
}
/// canonical packing of a text behind the given header word of a Complete packet
pub fn pack_text(t: TextKind, header: u32, text: &[u8]) -> Vec<u32> {
    let (cap, from, fsh) = match t {
        TextKind::Flex => (12, 4, 22),
        TextKind::Stream(o) => (14 - o, 2 + o, 26),
    };
    let n = text.len().div_ceil(cap).max(1);
    let mut out = vec![];
    for i in 0..n {
        let f = if n == 1 { 0 } else if i == 0 { 1 } else if i + 1 == n { 3 } else { 2u32 };
        let mut bytes = [0u8; 16];
        bytes[..4].copy_from_slice(&(header & !(3 << fsh) | f << fsh).to_be_bytes());
        for k in from..4 {
            bytes[k] = 0;
        }
        for (k, b) in text[(i * cap).min(text.len())..((i + 1) * cap).min(text.len())].iter().enumerate() {
            bytes[from + k] = *b;
        }
        out.extend(bytes.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())));
    }
    out
}

// ---- access to the real types ------------------------------------------------

pub trait Get<U: Un> {
    fn spec(&self) -> &'static Spec;
    fn get(&self, i: usize) -> u64;
    fn units(&self) -> Vec<U>;
    /// the same without a copy
    fn slice(&self) -> &[U];
}
pub trait Set<U: Un>: Get<U> {
    fn set(&mut self, i: usize, c: u64);
}

/// uniform reading of every message type (table messages and sysex)
pub trait Any<U: Un> {
    fn name(&self) -> &'static str;
    fn all_units(&self) -> Vec<U>;
    /// every value that can be read: properties in table order, then the text / payload
    fn reads(&self) -> Vec<u64>;
}
/// messages with a text
pub trait Txt {
    fn hint(&self) -> (usize, Option<usize>);
    fn text(&self) -> String;
    fn bytes(&self) -> Vec<u8>;
    /// reads all bytes in several ways without keeping them
    fn fold(&self) -> u64;
}
pub trait TxtSet {
    fn put(&mut self, s: &str);
}
pub trait TxtTrySet {
    fn try_put(&mut self, s: &str) -> Result<(), ()>;
}

/// A mutable buffer whose whole content can be observed from outside.
pub struct Spy<U: Un>(Rc<UnsafeCell<Vec<U>>>);
thread_local! {
    static SPY32: RefCell<Option<Rc<UnsafeCell<Vec<u32>>>>> = const { RefCell::new(None) };
    static SPY8: RefCell<Option<Rc<UnsafeCell<Vec<u8>>>>> = const { RefCell::new(None) };
}
pub trait SpyUn: Un {
    fn store(v: Rc<UnsafeCell<Vec<Self>>>);
    fn last() -> Rc<UnsafeCell<Vec<Self>>>;
}
impl SpyUn for u32 {
    fn store(v: Rc<UnsafeCell<Vec<u32>>>) { SPY32.with(|s| *s.borrow_mut() = Some(v)) }
    fn last() -> Rc<UnsafeCell<Vec<u32>>> { SPY32.with(|s| s.borrow().clone().unwrap()) }
}
impl SpyUn for u8 {
    fn store(v: Rc<UnsafeCell<Vec<u8>>>) { SPY8.with(|s| *s.borrow_mut() = Some(v)) }
    fn last() -> Rc<UnsafeCell<Vec<u8>>> { SPY8.with(|s| s.borrow().clone().unwrap()) }
}
impl<U: Un> Buffer for Spy<U> {
    type Unit = U;
    fn buffer(&self) -> &[U] { unsafe { &*self.0.get() } }
}
impl<U: Un> BufferMut for Spy<U> {
    fn buffer_mut(&mut self) -> &mut [U] { unsafe { &mut *self.0.get() } }
}
impl<'a, U: SpyUn> FromBuffer<&'a [U]> for Spy<U> {
    fn from_buffer(v: &'a [U]) -> Self {
        let rc = Rc::new(UnsafeCell::new(v.to_vec()));
        U::store(rc.clone());
        Spy(rc)
    }
}
/// content of the buffer of the last message made with `edit`
pub fn spied<U: SpyUn>() -> Vec<U> {
    let l = U::last();
    // no reference into the vector is alive while the harness looks at it
    unsafe { (*l.get()).clone() }
}

pub enum Mk<'a, U: Un> {
    /// new() on Vec / custom growable / minimum size array / larger arrays
    NewVec,
    NewGrow,
    NewArr(usize),
    NewWithVec(&'a [U]),
    NewWithGrow(&'a [U]),
    TryNewArr(usize),
    TryNewFix,
    TryNewBound,
    TryNewWithArr(&'a [U]),
    TryNewWithFix(&'a [U]),
    TryNewWithBound(&'a [U]),
}
pub enum Re {
    Vec,
    Grow,
    Fix,
    Bound,
    TryArr(usize),
    TryBound,
    Array(usize),
}

pub struct Vt<U: Un> {
    pub spec: &'static Spec,
    pub parse: for<'a> fn(&'a [U]) -> Result<Box<dyn Get<U> + 'a>, ()>,
    /// parse, then rebuffer into an observable mutable buffer
    pub edit: for<'a> fn(&'a [U]) -> Box<dyn Set<U>>,
    /// None = this form does not exist
    pub mk: for<'a> fn(Mk<'a, U>) -> Option<Result<Box<dyn Set<U>>, ()>>,
    pub mk_slice: for<'a, 'b> fn(&'a mut [U], &'b mut dyn FnMut(Result<&mut dyn Set<U>, ()>)),
    pub mk_vec: for<'a, 'b> fn(&'a mut Vec<U>, &'b mut dyn FnMut(&mut dyn Set<U>)),
    /// rebuffer a message borrowed from a slice
    pub re: for<'a> fn(&'a [U], Re) -> Option<Result<Box<dyn Get<U>>, ()>>,
    /// parses and reads everything
    pub touch: for<'a> fn(&'a [U]),
    /// parses; Some((data, reads)) if accepted
    pub read: for<'a> fn(&'a [U]) -> Option<(Vec<U>, Vec<u64>)>,
}

macro_rules! field {
    ($f:ident, $ty:ty, [$($seg:expr),*]) => {
        Field { name: stringify!($f), segs: &[$($seg),*], canon: <$ty as Code>::canon, codes: <$ty as Code>::codes,
            corners: <$ty as Code>::corners, def: <$ty as Code>::DEF, access: true }
    };
}

macro_rules! msg {
    // form: unit type, buffer bound, module, type
    ($konst:ident: $U:ty, $Bd:ident, $m:ident :: $t:ident, $fam:expr, $units:expr, ($hm:expr, $hv:expr), arr $arr:tt, tryarr $tarr:tt, fixed $fixed:tt, text $text:expr, txt $txt:tt,
        { $( $f:ident $sf:ident : $ty:ty = [$($seg:expr),*] ; )* } hidden { $( $hf:ident : $hty:ty = [$($hseg:expr),*] ; )* }) => {
        pub mod $konst {
            use super::*;
            pub static SPEC: Spec = Spec {
                name: concat!(stringify!($m), "::", stringify!($t)),
                fam: $fam,
                units: $units,
                hdr: ($hm, $hv),
                fields: &[
                    $( field!($f, $ty, [$($seg),*]), )*
                    $( Field { access: false, ..field!($hf, $hty, [$($hseg),*]) }, )*
                ],
                text: $text,
            };
            impl<B: $Bd> Get<$U> for midi2::$m::$t<B> {
                fn spec(&self) -> &'static Spec { &SPEC }
                #[allow(unused_assignments, unused_mut, unused_variables)]
                fn get(&self, i: usize) -> u64 {
                    let mut k = 0;
                    $( if i == k { return Code::enc(self.$f()); } k += 1; )*
                    panic!("harness: no field {i}")
                }
                fn units(&self) -> Vec<$U> { midi2::Data::data(self).to_vec() }
                fn slice(&self) -> &[$U] { midi2::Data::data(self) }
            }
            impl<B: $Bd + BufferMut> Set<$U> for midi2::$m::$t<B> {
                #[allow(unused_assignments, unused_mut, unused_variables)]
                fn set(&mut self, i: usize, c: u64) {
                    let mut k = 0;
                    $( if i == k { self.$sf(<$ty as Code>::dec(c)); return; } k += 1; )*
                    panic!("harness: no field {i}")
                }
            }
            impl<B: $Bd> Any<$U> for midi2::$m::$t<B> {
                fn name(&self) -> &'static str { SPEC.name }
                fn all_units(&self) -> Vec<$U> { midi2::Data::data(self).to_vec() }
                #[allow(unused_mut)]
                fn reads(&self) -> Vec<u64> {
                    let mut v: Vec<u64> = vec![ $( Code::enc(self.$f()), )* ];
                    txtreads!($txt, self, v);
                    v
                }
            }
            txtimpl!($txt, $m, $t);
            fn parse<'a>(b: &'a [$U]) -> Result<Box<dyn Get<$U> + 'a>, ()> {
                midi2::$m::$t::try_from(b).map(|m| Box::new(m) as Box<dyn Get<$U> + 'a>).map_err(|_| ())
            }
            fn edit(b: &[$U]) -> Box<dyn Set<$U>> {
                let m: midi2::$m::$t<Spy<$U>> = midi2::$m::$t::try_from(b).expect("edit: rejected").rebuffer_into();
                Box::new(m)
            }
            fn bx<T: Set<$U> + 'static>(m: T) -> Option<Result<Box<dyn Set<$U>>, ()>> { Some(Ok(Box::new(m))) }
            fn br<T: Set<$U> + 'static, E>(m: Result<T, E>) -> Option<Result<Box<dyn Set<$U>>, ()>> {
                Some(m.map(|m| Box::new(m) as Box<dyn Set<$U>>).map_err(|_| ()))
            }
            fn mk(k: Mk<'_, $U>) -> Option<Result<Box<dyn Set<$U>>, ()>> {
                match k {
                    Mk::NewVec => bx(midi2::$m::$t::<Vec<$U>>::new()),
                    Mk::NewGrow => bx(midi2::$m::$t::<Grow<$U>>::new()),
                    Mk::NewArr(n) => newarr!($fixed, $U, $m, $t, n, $arr),
                    Mk::NewWithVec(v) => bx(midi2::$m::$t::new_with_buffer(v.to_vec())),
                    Mk::NewWithGrow(v) => bx(midi2::$m::$t::new_with_buffer(Grow::with(v))),
                    Mk::TryNewArr(n) => trynewarr!($U, $m, $t, n, $tarr),
                    Mk::TryNewFix => br(midi2::$m::$t::<Fix<$U>>::try_new()),
                    Mk::TryNewBound => br(midi2::$m::$t::<Bound<$U>>::try_new()),
                    Mk::TryNewWithArr(v) => trywitharr!($U, $m, $t, v, $tarr),
                    Mk::TryNewWithFix(v) => br(midi2::$m::$t::try_new_with_buffer(Fix { v: v.to_vec() })),
                    Mk::TryNewWithBound(v) => br(midi2::$m::$t::try_new_with_buffer(Bound::with(v))),
                }
            }
            fn mk_slice(b: &mut [$U], f: &mut dyn FnMut(Result<&mut dyn Set<$U>, ()>)) {
                match midi2::$m::$t::try_new_with_buffer(b) {
                    Ok(mut m) => f(Ok(&mut m)),
                    Err(_) => f(Err(())),
                }
            }
            fn mk_vec(b: &mut Vec<$U>, f: &mut dyn FnMut(&mut dyn Set<$U>)) {
                f(&mut midi2::$m::$t::new_with_buffer(b))
            }
            fn gx<T: Get<$U> + 'static>(m: T) -> Option<Result<Box<dyn Get<$U>>, ()>> { Some(Ok(Box::new(m))) }
            fn gr<T: Get<$U> + 'static, E>(m: Result<T, E>) -> Option<Result<Box<dyn Get<$U>>, ()>> {
                Some(m.map(|m| Box::new(m) as Box<dyn Get<$U>>).map_err(|_| ()))
            }
            fn re(b: &[$U], k: Re) -> Option<Result<Box<dyn Get<$U>>, ()>> {
                let m = midi2::$m::$t::try_from(b).expect("re: rejected");
                match k {
                    Re::Vec => { let r: midi2::$m::$t<Vec<$U>> = m.rebuffer_into(); gx(r) }
                    Re::Grow => { let r: midi2::$m::$t<Grow<$U>> = m.rebuffer_into(); gx(r) }
                    Re::Fix => { let r: midi2::$m::$t<Fix<$U>> = m.rebuffer_into(); gx(r) }
                    Re::Bound => { let r: midi2::$m::$t<Bound<$U>> = m.rebuffer_into(); gx(r) }
                    Re::TryArr(n) => tryrearr!($U, $m, $t, m, n, $tarr),
                    Re::TryBound => { let r: Result<midi2::$m::$t<Bound<$U>>, _> = m.try_rebuffer_into(); gr(r) }
                    Re::Array(n) => rearr!($fixed, $U, $m, $t, m, n, $arr),
                }
            }
            fn touch(b: &[$U]) {
                if let Ok(m) = midi2::$m::$t::try_from(b) {
                    crate::touch::any::<$U, _>(&m, b);
                    touchp!($Bd, $txt, m);
                }
            }
            fn read(b: &[$U]) -> Option<(Vec<$U>, Vec<u64>)> {
                midi2::$m::$t::try_from(b).ok().map(|m| (m.all_units(), m.reads()))
            }
            pub static VT: Vt<$U> = Vt { spec: &SPEC, parse, edit, mk, mk_slice, mk_vec, re, touch, read };
        }
    };
}
macro_rules! txtreads {
    (none, $s:ident, $v:ident) => {};
    (($g:ident $b:ident $p:ident $tp:ident), $s:ident, $v:ident) => {
        let t = $s.$g();
        let b: Vec<u8> = $s.$b().collect();
        if t.as_bytes() != &b[..] { $v.push(u64::MAX); }
        $v.extend(b.iter().map(|x| *x as u64));
    };
}
macro_rules! txtimpl {
    (none, $m:ident, $t:ident) => {};
    (($g:ident $b:ident $p:ident $tp:ident), $m:ident, $t:ident) => {
        impl<B: Ump> Txt for midi2::$m::$t<B> {
            fn hint(&self) -> (usize, Option<usize>) { self.$b().size_hint() }
            fn text(&self) -> String { self.$g() }
            fn bytes(&self) -> Vec<u8> { self.$b().collect() }
            fn fold(&self) -> u64 { self.$b().map(|b| b as u64).sum::<u64>() + self.$b().size_hint().0 as u64 + self.$b().nth(3).is_some() as u64 }
        }
        impl<B: Ump + BufferMut + BufferResize> TxtSet for midi2::$m::$t<B> {
            fn put(&mut self, s: &str) { self.$p(s) }
        }
        impl<B: Ump + BufferMut + BufferTryResize> TxtTrySet for midi2::$m::$t<B> {
            fn try_put(&mut self, s: &str) -> Result<(), ()> { self.$tp(s).map_err(|_| ()) }
        }
    };
}
macro_rules! touchp {
    (Bytes, none, $x:ident) => {};
    (Ump, none, $x:ident) => { crate::touch::packets(&$x); };
    (Ump, $t:tt, $x:ident) => { crate::touch::packets(&$x); crate::touch::text(&$x); };
}
macro_rules! newarr {
    (yes, $U:ty, $m:ident, $t:ident, $n:expr, [$($N:literal),*]) => { match $n { $($N => bx(midi2::$m::$t::<[$U; $N]>::new()),)* _ => None } };
    (no, $U:ty, $m:ident, $t:ident, $n:expr, [$($N:literal),*]) => { { let _ = $n; None } };
}
macro_rules! trynewarr {
    ($U:ty, $m:ident, $t:ident, $n:expr, [$($N:literal),*]) => { match $n { $($N => br(midi2::$m::$t::<[$U; $N]>::try_new()),)* _ => None } };
}
macro_rules! trywitharr {
    ($U:ty, $m:ident, $t:ident, $v:expr, [$($N:literal),*]) => { match $v.len() { $($N => br(midi2::$m::$t::try_new_with_buffer(<[$U; $N]>::try_from($v).unwrap())),)* _ => None } };
}
macro_rules! tryrearr {
    ($U:ty, $m:ident, $t:ident, $msg:expr, $n:expr, [$($N:literal),*]) => { match $n { $($N => { let r: Result<midi2::$m::$t<[$U; $N]>, _> = $msg.try_rebuffer_into(); gr(r) })* _ => None } };
}
macro_rules! rearr {
    (yes, $U:ty, $m:ident, $t:ident, $msg:expr, $n:expr, [$($N:literal),*]) => { match $n { $($N => { let r: midi2::$m::$t<[$U; $N]> = $msg.array_rebuffer_into(); gx(r) })* _ => None } };
    (no, $U:ty, $m:ident, $t:ident, $msg:expr, $n:expr, [$($N:literal),*]) => { { let _ = ($msg, $n); None } };
}

macro_rules! msgs {
    ($($k:ident: $U:ty, $Bd:ident, $m:ident :: $t:ident, $fam:ident, $units:literal, ($hm:expr, $hv:expr), $arr:tt, $tarr:tt, $fixed:tt, $text:expr, $txt:tt, $body:tt $hid:tt)*) => {
        $( msg!($k: $U, $Bd, $m :: $t, Fam::$fam, $units, ($hm, $hv), arr $arr, tryarr $tarr, fixed $fixed, text $text, txt $txt, $body hidden $hid); )*
    };
}
// one word messages: arrays of 1, 2, 4
macro_rules! ump1 { ($($k:ident $m:ident :: $t:ident $fam:ident ($hm:expr, $hv:expr) $body:tt)*) => { msgs!{ $( $k: u32, Ump, $m::$t, $fam, 1, ($hm, $hv), [1, 2, 4], [0, 1, 2, 3, 4, 5], yes, None, none, $body {} )* } } }
macro_rules! ump2 { ($($k:ident $m:ident :: $t:ident $fam:ident ($hm:expr, $hv:expr) $body:tt)*) => { msgs!{ $( $k: u32, Ump, $m::$t, $fam, 2, ($hm, $hv), [2, 3, 4], [0, 1, 2, 3, 4, 5], yes, None, none, $body {} )* } } }
macro_rules! ump4 { ($($k:ident $m:ident :: $t:ident $fam:ident ($hm:expr, $hv:expr) $body:tt $hid:tt)*) => { msgs!{ $( $k: u32, Ump, $m::$t, $fam, 4, ($hm, $hv), [4, 5, 8], [0, 1, 2, 3, 4, 5, 8], yes, None, none, $body $hid )* } } }
macro_rules! flext { ($($k:ident $t:ident $bank:literal $status:literal $txt:tt)*) => { msgs!{ $( $k: u32, Ump, flex_data::$t, Flex, 4, (0xF0C0_FFFF, 0xD000_0000 | $bank << 8 | $status), [4], [0, 1, 3, 4, 5, 8, 12], no, Some(TextKind::Flex), $txt,
    { group set_group: u4 = [(0, 24, 4)]; optional_channel set_optional_channel: Option<u4> = [(0, 16, 4), (0, 20, 2)]; } {} )* } } }
macro_rules! by1 { ($($k:ident $m:ident :: $t:ident $fam:ident ($hm:expr, $hv:expr) $body:tt)*) => { msgs!{ $( $k: u8, Bytes, $m::$t, $fam, 1, ($hm, $hv), [1, 2, 3], [0, 1, 2, 3, 4], yes, None, none, $body {} )* } } }
macro_rules! by2 { ($($k:ident $m:ident :: $t:ident $fam:ident ($hm:expr, $hv:expr) $body:tt)*) => { msgs!{ $( $k: u8, Bytes, $m::$t, $fam, 2, ($hm, $hv), [2, 3, 4], [0, 1, 2, 3, 4], yes, None, none, $body {} )* } } }
macro_rules! by3 { ($($k:ident $m:ident :: $t:ident $fam:ident ($hm:expr, $hv:expr) $body:tt)*) => { msgs!{ $( $k: u8, Bytes, $m::$t, $fam, 3, ($hm, $hv), [3, 4, 5], [0, 1, 2, 3, 4, 5], yes, None, none, $body {} )* } } }

// Channel voice 1 (message type 2) and its MIDI 1.0 byte form
macro_rules! cv1 {
    ($($k:ident $kb:ident $by:ident $t:ident $st:literal { $( $f:ident $sf:ident $ty:ident [$($u:expr),*] [$($b:expr),*]; )* })*) => {
        ump1! { $( $k channel_voice1::$t Cv1 (0xF0F0_0000, 0x2000_0000 | $st << 20) {
            group set_group: u4 = [(0, 24, 4)]; channel set_channel: u4 = [(0, 16, 4)]; $( $f $sf: $ty = [$($u),*]; )* } )* }
        $( $by! { $kb channel_voice1::$t Cv1 (0xF0, $st << 4) { channel set_channel: u4 = [(0, 0, 4)]; $( $f $sf: $ty = [$($b),*]; )* } } )*
    };
}
cv1! {
    CV1_NOTE_OFF CV1B_NOTE_OFF by3 NoteOff 0x8 { note_number set_note_number u7 [(0, 8, 7)] [(1, 0, 7)]; velocity set_velocity u7 [(0, 0, 7)] [(2, 0, 7)]; }
    CV1_NOTE_ON CV1B_NOTE_ON by3 NoteOn 0x9 { note_number set_note_number u7 [(0, 8, 7)] [(1, 0, 7)]; velocity set_velocity u7 [(0, 0, 7)] [(2, 0, 7)]; }
    CV1_KEY_PRESSURE CV1B_KEY_PRESSURE by3 KeyPressure 0xA { note_number set_note_number u7 [(0, 8, 7)] [(1, 0, 7)]; pressure set_pressure u7 [(0, 0, 7)] [(2, 0, 7)]; }
    CV1_CONTROL_CHANGE CV1B_CONTROL_CHANGE by3 ControlChange 0xB { control set_control u7 [(0, 8, 7)] [(1, 0, 7)]; control_data set_control_data u7 [(0, 0, 7)] [(2, 0, 7)]; }
    CV1_PROGRAM_CHANGE CV1B_PROGRAM_CHANGE by2 ProgramChange 0xC { program set_program u7 [(0, 8, 7)] [(1, 0, 7)]; }
    CV1_CHANNEL_PRESSURE CV1B_CHANNEL_PRESSURE by2 ChannelPressure 0xD { pressure set_pressure u7 [(0, 8, 7)] [(1, 0, 7)]; }
    CV1_PITCH_BEND CV1B_PITCH_BEND by3 PitchBend 0xE { bend set_bend u14 [(0, 8, 7), (0, 0, 7)] [(1, 0, 7), (2, 0, 7)]; }
}
macro_rules! sysc {
    ($($k:ident $kb:ident $by:ident $t:ident $st:literal { $( $f:ident $sf:ident $ty:ident [$($u:expr),*] [$($b:expr),*]; )* })*) => {
        ump1! { $( $k system_common::$t SystemCommon (0xF0FF_0000, 0x1000_0000 | $st << 16) { group set_group: u4 = [(0, 24, 4)]; $( $f $sf: $ty = [$($u),*]; )* } )* }
        $( $by! { $kb system_common::$t SystemCommon (0xFF, $st) { $( $f $sf: $ty = [$($b),*]; )* } } )*
    };
}
sysc! {
    SC_TIME_CODE SCB_TIME_CODE by2 TimeCode 0xF1 { time_code set_time_code u7 [(0, 8, 7)] [(1, 0, 7)]; }
    SC_SPP SCB_SPP by3 SongPositionPointer 0xF2 { position set_position u14 [(0, 8, 7), (0, 0, 7)] [(1, 0, 7), (2, 0, 7)]; }
    SC_SONG_SELECT SCB_SONG_SELECT by2 SongSelect 0xF3 { song set_song u7 [(0, 8, 7)] [(1, 0, 7)]; }
    SC_TUNE SCB_TUNE by1 TuneRequest 0xF6 {}
    SC_CLOCK SCB_CLOCK by1 TimingClock 0xF8 {}
    SC_START SCB_START by1 Start 0xFA {}
    SC_CONTINUE SCB_CONTINUE by1 Continue 0xFB {}
    SC_STOP SCB_STOP by1 Stop 0xFC {}
    SC_SENSING SCB_SENSING by1 ActiveSensing 0xFE {}
    SC_RESET SCB_RESET by1 Reset 0xFF {}
}
ump1! {
    U_NOOP utility::NoOp Utility (0xF0F0_0000, 0x0000_0000) { time_data set_time_data: u16 = [(0, 0, 16)]; }
    U_CLOCK utility::Clock Utility (0xF0F0_0000, 0x0010_0000) { time_data set_time_data: u16 = [(0, 0, 16)]; }
    U_TIMESTAMP utility::Timestamp Utility (0xF0F0_0000, 0x0020_0000) { time_data set_time_data: u16 = [(0, 0, 16)]; }
    U_TPQ utility::DeltaClockstampTpq Utility (0xF0F0_0000, 0x0030_0000) { time_data set_time_data: u16 = [(0, 0, 16)]; }
    U_DELTA utility::DeltaClockstamp Utility (0xF0F0_0000, 0x0040_0000) { time_data set_time_data: u20 = [(0, 0, 20)]; }
}
macro_rules! cv2 {
    ($($k:ident $t:ident $st:literal { $( $f:ident $sf:ident: $ty:ty = [$($u:expr),*]; )* })*) => {
        ump2! { $( $k channel_voice2::$t Cv2 (0xF0F0_0000, 0x4000_0000 | $st << 20) {
            group set_group: u4 = [(0, 24, 4)]; channel set_channel: u4 = [(0, 16, 4)]; $( $f $sf: $ty = [$($u),*]; )* } )* }
    };
}
use midi2::channel_voice2::{Controller, NoteAttribute};
cv2! {
    CV2_REG_PER_NOTE RegisteredPerNoteController 0x0 { note_number set_note_number: u7 = [(0, 8, 7)]; controller set_controller: Controller = [(1, 0, 32), (0, 0, 8)]; }
    CV2_ASS_PER_NOTE AssignablePerNoteController 0x1 { note_number set_note_number: u7 = [(0, 8, 7)]; index set_index: u8 = [(0, 0, 8)]; controller_data set_controller_data: u32 = [(1, 0, 32)]; }
    CV2_REG RegisteredController 0x2 { bank set_bank: u7 = [(0, 8, 7)]; index set_index: u7 = [(0, 0, 7)]; controller_data set_controller_data: u32 = [(1, 0, 32)]; }
    CV2_ASS AssignableController 0x3 { bank set_bank: u7 = [(0, 8, 7)]; index set_index: u7 = [(0, 0, 7)]; controller_data set_controller_data: u32 = [(1, 0, 32)]; }
    CV2_REL_REG RelativeRegisteredController 0x4 { bank set_bank: u7 = [(0, 8, 7)]; index set_index: u7 = [(0, 0, 7)]; controller_data set_controller_data: u32 = [(1, 0, 32)]; }
    CV2_REL_ASS RelativeAssignableController 0x5 { bank set_bank: u7 = [(0, 8, 7)]; index set_index: u7 = [(0, 0, 7)]; controller_data set_controller_data: u32 = [(1, 0, 32)]; }
    CV2_PN_BEND PerNotePitchBend 0x6 { note_number set_note_number: u7 = [(0, 8, 7)]; pitch_bend_data set_pitch_bend_data: u32 = [(1, 0, 32)]; }
    CV2_NOTE_OFF NoteOff 0x8 { note_number set_note_number: u7 = [(0, 8, 7)]; velocity set_velocity: u16 = [(1, 16, 16)]; attribute set_attribute: Option<NoteAttribute> = [(1, 0, 16), (0, 0, 8)]; }
    CV2_NOTE_ON NoteOn 0x9 { note_number set_note_number: u7 = [(0, 8, 7)]; velocity set_velocity: u16 = [(1, 16, 16)]; attribute set_attribute: Option<NoteAttribute> = [(1, 0, 16), (0, 0, 8)]; }
    CV2_KEY_PRESSURE KeyPressure 0xA { note_number set_note_number: u7 = [(0, 8, 7)]; key_pressure_data set_key_pressure_data: u32 = [(1, 0, 32)]; }
    CV2_CONTROL_CHANGE ControlChange 0xB { control set_control: u7 = [(0, 8, 7)]; control_change_data set_control_change_data: u32 = [(1, 0, 32)]; }
    CV2_PROGRAM_CHANGE ProgramChange 0xC { program set_program: u7 = [(1, 24, 7)]; bank set_bank: Option<u14> = [(1, 8, 7), (1, 0, 7), (0, 0, 1)]; }
    CV2_CHANNEL_PRESSURE ChannelPressure 0xD { channel_pressure_data set_channel_pressure_data: u32 = [(1, 0, 32)]; }
    CV2_PITCH_BEND ChannelPitchBend 0xE { pitch_bend_data set_pitch_bend_data: u32 = [(1, 0, 32)]; }
    CV2_PN_MANAGEMENT PerNoteManagement 0xF { note_number set_note_number: u7 = [(0, 8, 7)]; detach set_detach: bool = [(0, 1, 1)]; reset set_reset: bool = [(0, 0, 1)]; }
}
use midi2::flex_data::{Alteration, ChordType, SetChordNameSharpsFlats, SetKeySignatureSharpsFlats, Tonic};
ump4! {
    FX_TEMPO flex_data::SetTempo Flex (0xF0C0_FFFF, 0xD000_0000) { group set_group: u4 = [(0, 24, 4)];
        number_of_10_nanosecond_units_per_quarter_note set_number_of_10_nanosecond_units_per_quarter_note: u32 = [(1, 0, 32)]; } { address: NoChannel = [(0, 16, 4), (0, 20, 2)]; }
    FX_TIME_SIG flex_data::SetTimeSignature Flex (0xF0C0_FFFF, 0xD000_0001) { group set_group: u4 = [(0, 24, 4)];
        numerator set_numerator: u8 = [(1, 24, 8)]; denominator set_denominator: u8 = [(1, 16, 8)]; number_of_32nd_notes set_number_of_32nd_notes: u8 = [(1, 8, 8)]; } { address: NoChannel = [(0, 16, 4), (0, 20, 2)]; }
    FX_METRONOME flex_data::SetMetronome Flex (0xF0C0_FFFF, 0xD000_0002) { group set_group: u4 = [(0, 24, 4)];
        number_of_clocks_per_primary_click set_number_of_clocks_per_primary_click: u8 = [(1, 24, 8)]; bar_accent1 set_bar_accent1: u8 = [(1, 16, 8)]; bar_accent2 set_bar_accent2: u8 = [(1, 8, 8)]; bar_accent3 set_bar_accent3: u8 = [(1, 0, 8)];
        number_of_subdivision_clicks1 set_number_of_subdivision_clicks1: u8 = [(2, 24, 8)]; number_of_subdivision_clicks2 set_number_of_subdivision_clicks2: u8 = [(2, 16, 8)]; } { address: NoChannel = [(0, 16, 4), (0, 20, 2)]; }
    FX_KEY_SIG flex_data::SetKeySignature Flex (0xF0C0_FFFF, 0xD000_0005) { group set_group: u4 = [(0, 24, 4)]; optional_channel set_optional_channel: Option<u4> = [(0, 16, 4), (0, 20, 2)];
        sharps_flats set_sharps_flats: SetKeySignatureSharpsFlats = [(1, 28, 4)]; tonic set_tonic: Tonic = [(1, 24, 4)]; } {}
    FX_CHORD flex_data::SetChordName Flex (0xF0C0_FFFF, 0xD000_0006) { group set_group: u4 = [(0, 24, 4)]; optional_channel set_optional_channel: Option<u4> = [(0, 16, 4), (0, 20, 2)];
        tonic_sharps_flats set_tonic_sharps_flats: SetChordNameSharpsFlats = [(1, 28, 4)]; tonic set_tonic: Tonic = [(1, 24, 4)]; chord_type set_chord_type: ChordType = [(1, 16, 8)];
        chord_alteration1 set_chord_alteration1: Option<Alteration> = [(1, 8, 8)]; chord_alteration2 set_chord_alteration2: Option<Alteration> = [(1, 0, 8)];
        chord_alteration3 set_chord_alteration3: Option<Alteration> = [(2, 24, 8)]; chord_alteration4 set_chord_alteration4: Option<Alteration> = [(2, 16, 8)];
        bass_sharps_flats set_bass_sharps_flats: SetChordNameSharpsFlats = [(3, 28, 4)]; bass_note set_bass_note: Tonic = [(3, 24, 4)]; bass_chord_type set_bass_chord_type: ChordType = [(3, 16, 8)];
        bass_alteration1 set_bass_alteration1: Option<Alteration> = [(3, 8, 8)]; bass_alteration2 set_bass_alteration2: Option<Alteration> = [(3, 0, 8)]; } {}
}
flext! {
    FXT_UNKNOWN_META UnknownMetadataText 1 0 (text text_bytes set_text try_set_text)
    FXT_PROJECT ProjectName 1 1 (text text_bytes set_text try_set_text)
    FXT_COMPOSITION CompositionName 1 2 (text text_bytes set_text try_set_text)
    FXT_CLIP MidiClipName 1 3 (text text_bytes set_text try_set_text)
    FXT_COPYRIGHT CopyrightNotice 1 4 (text text_bytes set_text try_set_text)
    FXT_COMPOSER ComposerName 1 5 (name name_bytes set_name try_set_name)
    FXT_LYRICIST LyricistName 1 6 (text text_bytes set_text try_set_text)
    FXT_ARRANGER ArrangerName 1 7 (text text_bytes set_text try_set_text)
    FXT_PUBLISHER PublisherName 1 8 (text text_bytes set_text try_set_text)
    FXT_PRIMARY PrimaryPerformerName 1 9 (text text_bytes set_text try_set_text)
    FXT_ACCOMPANYING AccompanyingPerformerName 1 0xA (text text_bytes set_text try_set_text)
    FXT_REC_DATE RecordingDate 1 0xB (text text_bytes set_text try_set_text)
    FXT_REC_LOCATION RecordingLocation 1 0xC (text text_bytes set_text try_set_text)
    FXT_UNKNOWN_PERF UnknownPerformanceText 2 0 (text text_bytes set_text try_set_text)
    FXT_LYRICS Lyrics 2 1 (text text_bytes set_text try_set_text)
    FXT_LYRICS_LANG LyricsLanguage 2 2 (text text_bytes set_text try_set_text)
    FXT_RUBY Ruby 2 3 (text text_bytes set_text try_set_text)
    FXT_RUBY_LANG RubyLanguage 2 4 (text text_bytes set_text try_set_text)
}
use midi2::ump_stream::{Direction, Midi1Port, UiHint};
ump4! {
    US_EP_DISCOVERY ump_stream::EndpointDiscovery Stream (0xFFFF_0000, 0xF000_0000) { ump_version_major set_ump_version_major: u8 = [(0, 8, 8)]; ump_version_minor set_ump_version_minor: u8 = [(0, 0, 8)];
        request_endpoint_info set_request_endpoint_info: bool = [(1, 0, 1)]; request_device_identity set_request_device_identity: bool = [(1, 1, 1)]; request_endpoint_name set_request_endpoint_name: bool = [(1, 2, 1)];
        request_product_instance_id set_request_product_instance_id: bool = [(1, 3, 1)]; request_stream_configuration set_request_stream_configuration: bool = [(1, 4, 1)]; } {}
    US_EP_INFO ump_stream::EndpointInfo Stream (0xFFFF_0000, 0xF001_0000) { ump_version_major set_ump_version_major: u8 = [(0, 8, 8)]; ump_version_minor set_ump_version_minor: u8 = [(0, 0, 8)];
        static_function_blocks set_static_function_blocks: bool = [(1, 31, 1)]; number_of_function_blocks set_number_of_function_blocks: u7 = [(1, 24, 7)];
        supports_midi2_protocol set_supports_midi2_protocol: bool = [(1, 9, 1)]; supports_midi1_protocol set_supports_midi1_protocol: bool = [(1, 8, 1)];
        supports_receiving_jr_timestamps set_supports_receiving_jr_timestamps: bool = [(1, 1, 1)]; supports_sending_jr_timestamps set_supports_sending_jr_timestamps: bool = [(1, 0, 1)]; } {}
    US_DEVICE ump_stream::DeviceIdentity Stream (0xFFFF_0000, 0xF002_0000) { device_manufacturer set_device_manufacturer: [u7; 3] = [(1, 16, 7), (1, 8, 7), (1, 0, 7)];
        device_family set_device_family: u14 = [(2, 24, 7), (2, 16, 7)]; device_family_model_number set_device_family_model_number: u14 = [(2, 8, 7), (2, 0, 7)];
        software_version set_software_version: [u7; 4] = [(3, 24, 7), (3, 16, 7), (3, 8, 7), (3, 0, 7)]; } {}
    US_CFG_REQ ump_stream::StreamConfigurationRequest Stream (0xFFFF_0000, 0xF005_0000) { protocol set_protocol: u8 = [(0, 8, 8)]; receive_jr_timestamps set_receive_jr_timestamps: bool = [(0, 1, 1)]; send_jr_timestamps set_send_jr_timestamps: bool = [(0, 0, 1)]; } {}
    US_CFG_NOTIF ump_stream::StreamConfigurationNotification Stream (0xFFFF_0000, 0xF006_0000) { protocol set_protocol: u8 = [(0, 8, 8)]; receive_jr_timestamps set_receive_jr_timestamps: bool = [(0, 1, 1)]; send_jr_timestamps set_send_jr_timestamps: bool = [(0, 0, 1)]; } {}
    US_FB_INFO ump_stream::FunctionBlockInfo Stream (0xFFFF_0000, 0xF011_0000) { active set_active: bool = [(0, 15, 1)]; function_block_number set_function_block_number: u7 = [(0, 8, 7)];
        ui_hint set_ui_hint: UiHint = [(0, 4, 2)]; midi1_port set_midi1_port: Option<Midi1Port> = [(0, 2, 2)]; direction set_direction: Direction = [(0, 0, 2)];
        first_group set_first_group: u4 = [(1, 24, 4)]; number_of_groups_spanned set_number_of_groups_spanned: u8 = [(1, 16, 8)]; midi_ci_version set_midi_ci_version: u8 = [(1, 8, 8)]; max_number_of_midi_ci_streams set_max_number_of_midi_ci_streams: u8 = [(1, 0, 8)]; } {}
    US_START ump_stream::StartOfClip Stream (0xFFFF_0000, 0xF020_0000) {} {}
    US_END ump_stream::EndOfClip Stream (0xFFFF_0000, 0xF021_0000) {} {}
}
// KNOWN FINDING: this message is treated as a single word by the library (pinned by its tests), see DESIGN.md
ump1! {
    US_FB_DISCOVERY ump_stream::FunctionBlockDiscovery Stream (0xFFFF_0000, 0xF010_0000) { function_block_number set_function_block_number: u8 = [(0, 8, 8)];
        requesting_function_block_info set_requesting_function_block_info: bool = [(0, 0, 1)]; requesting_function_block_name set_requesting_function_block_name: bool = [(0, 1, 1)]; }
}
msgs! {
    UST_EP_NAME: u32, Ump, ump_stream::EndpointName, Stream, 4, (0xFFFF_0000, 0xF003_0000), [4], [0, 1, 3, 4, 5, 8, 12], no, Some(TextKind::Stream(0)), (name name_bytes set_name try_set_name), {} {}
    UST_PRODUCT: u32, Ump, ump_stream::ProductInstanceId, Stream, 4, (0xFFFF_0000, 0xF004_0000), [4], [0, 1, 3, 4, 5, 8, 12], no, Some(TextKind::Stream(0)), (id id_bytes set_id try_set_id), {} {}
    UST_FB_NAME: u32, Ump, ump_stream::FunctionBlockName, Stream, 4, (0xFFFF_0000, 0xF012_0000), [4], [0, 1, 3, 4, 5, 8, 12], no, Some(TextKind::Stream(1)), (name name_bytes set_name try_set_name),
        { function_block set_function_block: u8 = [(0, 8, 8)]; } {}
}
pub static UMP: &[&Vt<u32>] = &[
    &U_NOOP::VT, &U_CLOCK::VT, &U_TIMESTAMP::VT, &U_TPQ::VT, &U_DELTA::VT,
    &SC_TIME_CODE::VT, &SC_SPP::VT, &SC_SONG_SELECT::VT, &SC_TUNE::VT, &SC_CLOCK::VT, &SC_START::VT, &SC_CONTINUE::VT, &SC_STOP::VT, &SC_SENSING::VT, &SC_RESET::VT,
    &CV1_NOTE_OFF::VT, &CV1_NOTE_ON::VT, &CV1_KEY_PRESSURE::VT, &CV1_CONTROL_CHANGE::VT, &CV1_PROGRAM_CHANGE::VT, &CV1_CHANNEL_PRESSURE::VT, &CV1_PITCH_BEND::VT,
    &CV2_REG_PER_NOTE::VT, &CV2_ASS_PER_NOTE::VT, &CV2_REG::VT, &CV2_ASS::VT, &CV2_REL_REG::VT, &CV2_REL_ASS::VT, &CV2_PN_BEND::VT, &CV2_NOTE_OFF::VT, &CV2_NOTE_ON::VT,
    &CV2_KEY_PRESSURE::VT, &CV2_CONTROL_CHANGE::VT, &CV2_PROGRAM_CHANGE::VT, &CV2_CHANNEL_PRESSURE::VT, &CV2_PITCH_BEND::VT, &CV2_PN_MANAGEMENT::VT,
    &FX_TEMPO::VT, &FX_TIME_SIG::VT, &FX_METRONOME::VT, &FX_KEY_SIG::VT, &FX_CHORD::VT,
    &US_EP_DISCOVERY::VT, &US_EP_INFO::VT, &US_DEVICE::VT, &US_CFG_REQ::VT, &US_CFG_NOTIF::VT, &US_FB_INFO::VT, &US_FB_DISCOVERY::VT, &US_START::VT, &US_END::VT,
    &FXT_UNKNOWN_META::VT, &FXT_PROJECT::VT, &FXT_COMPOSITION::VT, &FXT_CLIP::VT, &FXT_COPYRIGHT::VT, &FXT_COMPOSER::VT, &FXT_LYRICIST::VT, &FXT_ARRANGER::VT, &FXT_PUBLISHER::VT,
    &FXT_PRIMARY::VT, &FXT_ACCOMPANYING::VT, &FXT_REC_DATE::VT, &FXT_REC_LOCATION::VT, &FXT_UNKNOWN_PERF::VT, &FXT_LYRICS::VT, &FXT_LYRICS_LANG::VT, &FXT_RUBY::VT, &FXT_RUBY_LANG::VT,
    &UST_EP_NAME::VT, &UST_PRODUCT::VT, &UST_FB_NAME::VT,
];
pub static BYTES: &[&Vt<u8>] = &[
    &CV1B_NOTE_OFF::VT, &CV1B_NOTE_ON::VT, &CV1B_KEY_PRESSURE::VT, &CV1B_CONTROL_CHANGE::VT, &CV1B_PROGRAM_CHANGE::VT, &CV1B_CHANNEL_PRESSURE::VT, &CV1B_PITCH_BEND::VT,
    &SCB_TIME_CODE::VT, &SCB_SPP::VT, &SCB_SONG_SELECT::VT, &SCB_TUNE::VT, &SCB_CLOCK::VT, &SCB_START::VT, &SCB_CONTINUE::VT, &SCB_STOP::VT, &SCB_SENSING::VT, &SCB_RESET::VT,
];
