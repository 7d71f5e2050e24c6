//! Independent encoding of every property value type to the bit code the
//! MIDI 2.0 specification assigns to it. Nothing here uses midi2's encoders.
use midi2::channel_voice2::{Controller, NoteAttribute};
use midi2::flex_data as fd;
use midi2::num::*;
use midi2::ump_stream as us;

pub trait Code: Sized + 'static {
    /// code of the default value
    const DEF: u64 = 0;
    fn enc(self) -> u64;
    fn dec(c: u64) -> Self;
    /// canonical code of the value these bits stand for; None if reserved (must be rejected when parsing)
    fn canon(c: u64) -> Option<u64> {
        Some(c)
    }
    /// all canonical codes (or a systematic subset where there are more than 2^16)
    fn codes(deep: bool) -> Vec<u64>;
    fn corners() -> Vec<u64>;
}

pub fn uint_codes(w: u32, deep: bool) -> Vec<u64> {
    if w <= 16 || (deep && w <= 20) {
        return (0..1u64 << w).collect();
    }
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let mut v = vec![0, m, 0x5555_5555_5555_5555 & m, 0xAAAA_AAAA_AAAA_AAAA & m, 0x0123_4567_89AB_CDEF & m, 0xFEDC_BA98_7654_3210 & m];
    for i in 0..w {
        for j in 0..w {
            v.push((1 << i) | (1 << j));
            v.push(m & !((1 << i) | (1 << j)));
        }
        v.push((1u64 << i) - 1);
        v.push(m & !((1u64 << i) - 1));
    }
    let step = if deep { 1 } else { 257 };
    for h in (0..1u64 << 16).step_by(step) {
        v.push(h);
        v.push((h << (w - 16)) & m);
        v.push(((h << 8) | (h >> 8)) & m);
        if w >= 32 {
            v.push((h << 16 | (h ^ 0xA5A5)) & m);
            v.push((h << 8) & m);
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn uint_corners(w: u32) -> Vec<u64> {
    let m = (1u64 << w) - 1;
    let mut v = vec![0, m, 0x5A5A_5A5A & m, 1, 1 << (w - 1)];
    v.sort();
    v.dedup();
    v
}
macro_rules! ux {
    ($($t:ty, $r:ty, $w:expr;)*) => {$(
        impl Code for $t {
            fn enc(self) -> u64 { <$r>::from(self) as u64 }
            fn dec(c: u64) -> Self { <$t>::new(c as $r) }
            fn codes(d: bool) -> Vec<u64> { uint_codes($w, d) }
            fn corners() -> Vec<u64> { uint_corners($w) }
        }
    )*}
}
ux! { u4, u8, 4; u7, u8, 7; u14, u16, 14; u20, u32, 20; u28, u32, 28; }
macro_rules! prim {
    ($($t:ty, $w:expr;)*) => {$(
        impl Code for $t {
            fn enc(self) -> u64 { self as u64 }
            fn dec(c: u64) -> Self { c as $t }
            fn codes(d: bool) -> Vec<u64> { uint_codes($w, d) }
            fn corners() -> Vec<u64> { uint_corners($w) }
        }
    )*}
}
prim! { u8, 8; u16, 16; u32, 32; }
impl Code for bool {
    fn enc(self) -> u64 { self as u64 }
    fn dec(c: u64) -> Self { c != 0 }
    fn codes(_: bool) -> Vec<u64> { vec![0, 1] }
    fn corners() -> Vec<u64> { vec![0, 1] }
}
// first element in the lowest 7 bits
impl<const N: usize> Code for [u7; N] {
    fn enc(self) -> u64 { self.iter().enumerate().map(|(i, x)| (u8::from(*x) as u64) << (7 * i)).sum() }
    fn dec(c: u64) -> Self { core::array::from_fn(|i| u7::new((c >> (7 * i)) as u8 & 0x7F)) }
    fn codes(d: bool) -> Vec<u64> {
        let mut v = uint_codes(7 * N as u32, d);
        // every value of every element next to its neighbours' extremes
        for i in 0..N {
            for x in 0..128u64 {
                v.push(x << (7 * i));
                v.push(((1u64 << (7 * N)) - 1) & !(0x7F << (7 * i)) | x << (7 * i));
            }
        }
        v.sort();
        v.dedup();
        v
    }
    fn corners() -> Vec<u64> { uint_corners(7 * N as u32) }
}
// attribute type (8 bits, from bit 16) and data (16 bits)
impl Code for Option<NoteAttribute> {
    fn enc(self) -> u64 {
        match self {
            None => 0,
            Some(NoteAttribute::ManufacturerSpecific(d)) => 0x1_0000 | d as u64,
            Some(NoteAttribute::ProfileSpecific(d)) => 0x2_0000 | d as u64,
            Some(NoteAttribute::Pitch7_9(d)) => 0x3_0000 | d.to_bits() as u64,
            #[allow(unreachable_patterns)]
            _ => u64::MAX,
        }
    }
    fn dec(c: u64) -> Self {
        let d = c as u16;
        match c >> 16 {
            0 => None,
            1 => Some(NoteAttribute::ManufacturerSpecific(d)),
            2 => Some(NoteAttribute::ProfileSpecific(d)),
            3 => Some(NoteAttribute::Pitch7_9(Fixed7_9::from_bits(d))),
            _ => panic!("harness: reserved attribute"),
        }
    }
    fn canon(c: u64) -> Option<u64> {
        match c >> 16 {
            0 => Some(0),
            1..=3 => Some(c),
            _ => None,
        }
    }
    fn codes(_: bool) -> Vec<u64> {
        let mut v = vec![0];
        for t in 1..=3u64 {
            v.extend((0..0x1_0000).map(|d| t << 16 | d));
        }
        v
    }
    fn corners() -> Vec<u64> { vec![0, 0x1_0000, 0x2_5A5A, 0x3_FFFF, 0x3_0001] }
}
// flag in bit 14 above the 14 bit bank
impl Code for Option<u14> {
    fn enc(self) -> u64 { self.map_or(0, |b| 1 << 14 | u16::from(b) as u64) }
    fn dec(c: u64) -> Self { (c >> 14 != 0).then(|| u14::new(c as u16 & 0x3FFF)) }
    fn canon(c: u64) -> Option<u64> { Some(if c >> 14 == 0 { 0 } else { c }) }
    fn codes(_: bool) -> Vec<u64> { std::iter::once(0).chain((0..1 << 14).map(|b| 1 << 14 | b)).collect() }
    fn corners() -> Vec<u64> { vec![0, 1 << 14, 1 << 14 | 0x3FFF, 1 << 14 | 0x2A57] }
}
// address (2 bits, from bit 4; 0 = channel) above the channel
impl Code for Option<u4> {
    const DEF: u64 = 0x10;
    fn enc(self) -> u64 { self.map_or(0x10, |c| u8::from(c) as u64) }
    fn dec(c: u64) -> Self { (c >> 4 == 0).then(|| u4::new(c as u8 & 0xF)) }
    fn canon(c: u64) -> Option<u64> { Some(if c >> 4 == 0 { c } else { 0x10 }) }
    fn codes(_: bool) -> Vec<u64> { (0..=0x10).collect() }
    fn corners() -> Vec<u64> { vec![0, 0xF, 0x10, 0xA] }
}
/// not a property: the channel/address field of messages which never have a channel
pub struct NoChannel;
impl Code for NoChannel {
    const DEF: u64 = 0x10;
    fn enc(self) -> u64 { 0x10 }
    fn dec(_: u64) -> Self { NoChannel }
    fn canon(c: u64) -> Option<u64> { (c >> 4 != 0).then_some(0x10) }
    fn codes(_: bool) -> Vec<u64> { vec![0x10] }
    fn corners() -> Vec<u64> { vec![0x10] }
}
pub const CONTROLLER_INDICES: [u64; 22] = [1, 2, 3, 7, 8, 10, 11, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 91, 92, 93, 94, 95];
// controller index (8 bits, from bit 32) above the data
impl Code for Controller {
    const DEF: u64 = 1 << 32;
    fn enc(self) -> u64 {
        use Controller::*;
        let (i, d) = match self {
            Modulation(d) => (1, d),
            Breath(d) => (2, d),
            Pitch7_25(d) => (3, d.to_bits()),
            Volume(d) => (7, d),
            Balance(d) => (8, d),
            Pan(d) => (10, d),
            Expression(d) => (11, d),
            SoundController { index, data } => (69 + index as u64, data),
            EffectDepth { index, data } => (90 + index as u64, data),
            SoundVariation(d) => (70, d),
            Timbre(d) => (71, d),
            ReleaseTime(d) => (72, d),
            AttackTime(d) => (73, d),
            Brightness(d) => (74, d),
            DecayTime(d) => (75, d),
            VebratoRate(d) => (76, d),
            VebratoDepth(d) => (77, d),
            VebratoDelay(d) => (78, d),
            Undefined(d) => (79, d),
            ReverbSendLevel(d) => (91, d),
            ChorusSendLevel(d) => (93, d),
            #[allow(unreachable_patterns)]
            _ => (0xFF, 0),
        };
        i << 32 | d as u64
    }
    fn dec(c: u64) -> Self {
        use Controller::*;
        let d = c as u32;
        match c >> 32 {
            1 => Modulation(d),
            2 => Breath(d),
            3 => Pitch7_25(Fixed7_25::from_bits(d)),
            7 => Volume(d),
            8 => Balance(d),
            10 => Pan(d),
            11 => Expression(d),
            i @ 70..=79 => SoundController { index: (i - 69) as u8, data: d },
            i @ 91..=95 => EffectDepth { index: (i - 90) as u8, data: d },
            _ => panic!("harness: reserved controller"),
        }
    }
    fn canon(c: u64) -> Option<u64> { CONTROLLER_INDICES.contains(&(c >> 32)).then_some(c) }
    fn codes(deep: bool) -> Vec<u64> {
        let mut v = vec![];
        let d = uint_codes(32, false);
        for (k, i) in CONTROLLER_INDICES.iter().enumerate() {
            v.extend(d.iter().enumerate().filter(|(n, _)| deep || n % 22 == k || *n < 40).map(|(_, d)| i << 32 | d));
        }
        v
    }
    fn corners() -> Vec<u64> { vec![1 << 32, 3 << 32 | 0xFFFF_FFFF, 79 << 32 | 0x5A5A_5A5A, 95 << 32, 91 << 32 | 1] }
}
macro_rules! enums {
    ($t:ty, $def:expr, $($v:pat => $e:expr, $c:expr;)*) => {
        impl Code for $t {
            const DEF: u64 = $def;
            #[allow(unreachable_patterns)]
            fn enc(self) -> u64 { match self { $($v => $c,)* _ => u64::MAX } }
            fn dec(c: u64) -> Self { $( if c == $c { return $e; } )* panic!("harness: reserved code {c}") }
            fn canon(c: u64) -> Option<u64> { [$($c),*].contains(&c).then_some(c) }
            fn codes(_: bool) -> Vec<u64> { vec![$($c),*] }
            fn corners() -> Vec<u64> { let v = Self::codes(false); let mut w = vec![v[0], v[v.len() / 2], v[v.len() - 1]]; w.dedup(); w }
        }
    };
    ($t:ty, $def:expr; $($v:path = $c:expr),*) => { enums!{$t, $def, $($v => $v, $c;)*} };
}
enums! { us::UiHint, 0; us::UiHint::Undeclared = 0, us::UiHint::Receiver = 1, us::UiHint::Sender = 2, us::UiHint::SenderReciever = 3 }
enums! { us::Direction, 3; us::Direction::Input = 1, us::Direction::Output = 2, us::Direction::Bidirectional = 3 }
enums! { Option<us::Midi1Port>, 0, None => None, 0; Some(us::Midi1Port::DontRestrictBandwidth) => Some(us::Midi1Port::DontRestrictBandwidth), 1; Some(us::Midi1Port::RestrictBandwidth) => Some(us::Midi1Port::RestrictBandwidth), 2; }
use fd::Tonic;
enums! { Tonic, 3; Tonic::NonStandard = 0, Tonic::A = 1, Tonic::B = 2, Tonic::C = 3, Tonic::D = 4, Tonic::E = 5, Tonic::F = 6, Tonic::G = 7 }
use fd::SetChordNameSharpsFlats as Csf;
enums! { Csf, 0; Csf::Natural = 0, Csf::Sharp = 1, Csf::DoubleSharp = 2, Csf::DoubleFlat = 0xE, Csf::Flat = 0xF }
use fd::ChordType as Ct;
enums! { Ct, 0; Ct::ClearChord = 0, Ct::Major = 1, Ct::Major6th = 2, Ct::Major7th = 3, Ct::Major9th = 4, Ct::Major11th = 5, Ct::Major13th = 6,
  Ct::Minor = 7, Ct::Minor6th = 8, Ct::Minor7th = 9, Ct::Minor9th = 10, Ct::Minor11th = 11, Ct::Minor13th = 12, Ct::Dominant = 13, Ct::Dominant9th = 14,
  Ct::Dominant11th = 15, Ct::Dominant13th = 16, Ct::Augmented = 17, Ct::Augmented7th = 18, Ct::Diminished = 19, Ct::Diminished7th = 20, Ct::HalfDiminished = 21,
  Ct::MajorMinor = 22, Ct::Pedal = 23, Ct::Power = 24, Ct::Suspended2nd = 25, Ct::Suspended4th = 26 }
use fd::Alteration as Al;
impl Code for Option<Al> {
    fn enc(self) -> u64 {
        match self {
            None => 0,
            Some(Al::Add(d)) => 0x10 | u8::from(d) as u64,
            Some(Al::Subtract(d)) => 0x20 | u8::from(d) as u64,
            Some(Al::Raise(d)) => 0x30 | u8::from(d) as u64,
            Some(Al::Lower(d)) => 0x40 | u8::from(d) as u64,
        }
    }
    fn dec(c: u64) -> Self {
        let d = u4::new(c as u8 & 0xF);
        match c >> 4 {
            0 => None,
            1 => Some(Al::Add(d)),
            2 => Some(Al::Subtract(d)),
            3 => Some(Al::Raise(d)),
            4 => Some(Al::Lower(d)),
            _ => panic!("harness: reserved alteration"),
        }
    }
    fn canon(c: u64) -> Option<u64> {
        match c >> 4 {
            0 => Some(0),
            1..=4 => Some(c),
            _ => None,
        }
    }
    fn codes(_: bool) -> Vec<u64> { std::iter::once(0).chain(0x10..0x50).collect() }
    fn corners() -> Vec<u64> { vec![0, 0x10, 0x4F, 0x2A] }
}
use fd::SetKeySignatureSharpsFlats as Ksf;
impl Code for Ksf {
    // 4 bit two's complement count of sharps; -8 stands for non standard
    fn enc(self) -> u64 {
        match self {
            Ksf::Sharps(n) => u8::from(n) as u64,
            Ksf::Flats(n) => (16 - u8::from(n) as u64) % 16,
            Ksf::NonStandard => 8,
        }
    }
    fn dec(c: u64) -> Self {
        match c {
            0..=7 => Ksf::Sharps(u3::new(c as u8)),
            8 => Ksf::NonStandard,
            _ => Ksf::Flats(u3::new(16 - c as u8)),
        }
    }
    fn codes(_: bool) -> Vec<u64> { (0..16).collect() }
    fn corners() -> Vec<u64> { vec![0, 7, 8, 9, 15] }
}
