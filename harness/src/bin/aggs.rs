//! C16 aggregates behave exactly like the concrete message they hold.
use mc::agg::*;
use mc::bg::*;
use mc::buf::*;
use mc::spec::*;
use mc::sx::Kind;
use mc::*;
use midi2::prelude::*;
use std::cell::Cell;
use std::sync::Arc;

/// everything a message offers that does not depend on its own type
#[derive(PartialEq, Eq, Debug, Clone, Default)]
struct Obs<U> {
    name: &'static str,
    data: Vec<U>,
    reads: Vec<u64>,
    packets: Option<Vec<Vec<u32>>>,
    group: Option<u8>,
    channel: Option<u8>,
    flex: Option<(String, u8)>,
}

macro_rules! obs_group {
    (utility $x:expr) => { None };
    (ump_stream $x:expr) => { None };
    ($m:ident $x:expr) => { Some(u8::from(Grouped::group($x))) };
}
macro_rules! obs_channel {
    (channel_voice1 $x:expr) => { Some(u8::from(Channeled::channel($x))) };
    (channel_voice2 $x:expr) => { Some(u8::from(Channeled::channel($x))) };
    ($m:ident $x:expr) => { None };
}
macro_rules! obs_flex {
    (flex_data $x:expr) => { Some((format!("{:?}", midi2::flex_data::FlexDataMessage::bank($x)), midi2::flex_data::FlexDataMessage::status($x))) };
    ($m:ident $x:expr) => { None };
}
/// $x: reference to the message or aggregate, $p: Parsed of the concrete message inside
macro_rules! obs {
    ($m:ident $x:expr, $p:expr) => {{
        let p = $p;
        assert_eq!(p.data, midi2::Data::data($x), "data() differs from the concrete data()");
        Obs { name: p.name, data: midi2::Data::data($x).to_vec(), reads: p.reads, packets: Some(Packets::packets($x).map(|p| p.to_vec()).collect()),
            group: obs_group!($m $x), channel: obs_channel!($m $x), flex: obs_flex!($m $x) }
    }};
}
/// aggregate type and visitor of a family
macro_rules! ag {
    (utility $a:expr, $x:ident => $e:expr) => { on_util!($a, $x => $e) };
    (system_common $a:expr, $x:ident => $e:expr) => { on_sysc!($a, $x => $e) };
    (channel_voice1 $a:expr, $x:ident => $e:expr) => { on_cv1!($a, $x => $e) };
    (channel_voice2 $a:expr, $x:ident => $e:expr) => { on_cv2!($a, $x => $e) };
    (flex_data $a:expr, $x:ident => $e:expr) => { on_flex!($a, $x => $e) };
    (ump_stream $a:expr, $x:ident => $e:expr) => { on_stream!($a, $x => $e) };
}
mod fam {
    pub use midi2::channel_voice1::ChannelVoice1 as channel_voice1;
    pub use midi2::channel_voice2::ChannelVoice2 as channel_voice2;
    pub use midi2::flex_data::FlexData as flex_data;
    pub use midi2::system_common::SystemCommon as system_common;
    pub use midi2::ump_stream::UmpStream as ump_stream;
    pub use midi2::utility::Utility as utility;
}

type Say<'a> = &'a mut dyn FnMut(&str, bool, String);

/// reading through every wrapping, over every buffer
macro_rules! wrap_over {
    ($m:ident $t:ident, $label:expr, $mk:expr, $say:expr) => {{
        let say: Say = $say;
        let c = $mk;
        let want = obs!($m &c, parsed::<u32>(&c));
        let a: fam::$m<_> = c.clone().into();
        let got = obs!($m &a, ag!($m &a, x => parsed::<u32>(x)));
        say(concat!("family from concrete over ", $label), got == want, format!("{got:X?} instead of {want:X?}"));
        let um: UmpMessage<_> = c.clone().into();
        let got = ump_parsed(&um);
        let pk: Vec<Vec<u32>> = um.packets().map(|p| p.to_vec()).collect();
        say(concat!("UmpMessage from concrete over ", $label), got.name == want.name && got.data == want.data && got.reads == want.reads && Some(&pk) == want.packets.as_ref() && um.data() == &want.data[..],
            format!("{got:X?} {pk:X?} instead of {want:X?}"));
        let uf: UmpMessage<_> = a.clone().into();
        say(concat!("UmpMessage from family over ", $label), uf == um, format!("{uf:?} instead of {um:?}"));
        // parsing the data yields the same variant
        let d = want.data.clone();
        let p = fam::$m::try_from(&d[..]);
        say(concat!("family parsed over ", $label), p.is_ok(), "rejected".to_string());
        if let Ok(p) = &p {
            let got = obs!($m p, ag!($m p, x => parsed::<u32>(x)));
            say(concat!("family parsed over ", $label), got == want, format!("{got:X?} instead of {want:X?}"));
        }
        let p = UmpMessage::try_from(&d[..]).map(|p| ump_parsed(&p));
        say(concat!("UmpMessage parsed over ", $label), p.as_ref().ok() == Some(&Parsed { name: want.name, data: want.data.clone(), reads: want.reads.clone() }), format!("{p:X?} instead of {want:X?}"));
    }};
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Group(u8),
    Channel(u8),
}
fn none<T>(_: &mut T, _: u8) {
    panic!("harness: no such operation")
}
macro_rules! do_group {
    (utility $x:expr, $v:expr) => { none($x, $v) };
    (ump_stream $x:expr, $v:expr) => { none($x, $v) };
    ($m:ident $x:expr, $v:expr) => { Grouped::set_group($x, midi2::ux::u4::new($v)) };
}
macro_rules! do_channel {
    (channel_voice1 $x:expr, $v:expr) => { Channeled::set_channel($x, midi2::ux::u4::new($v)) };
    (channel_voice2 $x:expr, $v:expr) => { Channeled::set_channel($x, midi2::ux::u4::new($v)) };
    ($m:ident $x:expr, $v:expr) => { none($x, $v) };
}
macro_rules! apply {
    ($m:ident $x:expr, $op:expr) => { match $op { Op::Group(v) => do_group!($m $x, v), Op::Channel(v) => do_channel!($m $x, v) } };
}
/// the same history on the concrete message and on the aggregate, whole buffers compared after each step
macro_rules! lock {
    ($m:ident $t:ident, $u:expr, $ops:expr, $say:expr) => {{
        let (u, ops): (&[u32], &[Op]) = ($u, $ops);
        let say: Say = $say;
        let mut c: midi2::$m::$t<Spy<u32>> = midi2::$m::$t::try_from(u).expect("rejected").rebuffer_into();
        let sc = <u32 as SpyUn>::last();
        let mut a: fam::$m<Spy<u32>> = fam::$m::from({ let c: midi2::$m::$t<Spy<u32>> = midi2::$m::$t::try_from(u).expect("rejected").rebuffer_into(); c });
        let sa = <u32 as SpyUn>::last();
        let mut v: fam::$m<Vec<u32>> = fam::$m::try_from(u).expect("rejected").rebuffer_into();
        let mut arr = [0u32; 32];
        let has_arr = u.len() <= 32;
        arr[..u.len().min(32)].copy_from_slice(&u[..u.len().min(32)]);
        for (i, op) in ops.iter().enumerate() {
            apply!($m &mut c, *op);
            apply!($m &mut a, *op);
            apply!($m &mut v, *op);
            let (oc, oa, ov) = (obs!($m &c, parsed::<u32>(&c)), obs!($m &a, ag!($m &a, x => parsed::<u32>(x))), obs!($m &v, ag!($m &v, x => parsed::<u32>(x))));
            say("write: same reads", oc == oa && oc == ov, format!("after {:?}: concrete {oc:X?}, aggregate {oa:X?}, on vec {ov:X?}", &ops[..=i]));
            let (bc, ba) = unsafe { ((*sc.get()).clone(), (*sa.get()).clone()) };
            say("write: same bits", bc == ba, format!("after {:?}: concrete {}, aggregate {}", &ops[..=i], hex32(&bc), hex32(&ba)));
            // and those the specification gives: the field in every packet, nothing else
            let n = oc.data.len();
            let want = expect(u, n, &ops[..=i]);
            say("write: spec bits", ba == want, format!("after {:?}: {}, expected {}", &ops[..=i], hex32(&ba), hex32(&want)));
            if has_arr && i + 1 == ops.len() {
                let mut m: fam::$m<[u32; 32]> = fam::$m::try_from(u).expect("rejected").try_rebuffer_into().expect("fits");
                for op in ops { apply!($m &mut m, *op); }
                let om = obs!($m &m, ag!($m &m, x => parsed::<u32>(x)));
                say("write: array", om == oc, format!("after {ops:?}: array {om:X?}, concrete {oc:X?}"));
            }
        }
    }};
}
fn expect(u: &[u32], n: usize, ops: &[Op]) -> Vec<u32> {
    let mut w = u.to_vec();
    let size = match u[0] >> 28 { 0..=2 => 1, 3 | 4 => 2, _ => 4 };
    for op in ops {
        let (sh, v) = match op { Op::Group(v) => (24, v), Op::Channel(v) => (16, v) };
        for p in w[..n].chunks_mut(size) {
            p[0] = p[0] & !(0xF << sh) | (*v as u32) << sh;
        }
    }
    w
}
fn histories(mt: u32, depth: usize) -> Vec<Vec<Op>> {
    let group = !matches!(mt, 0 | 0xF);
    let channel = matches!(mt, 2 | 4);
    let mut out = vec![];
    if group {
        out.extend((0..16).map(|v| vec![Op::Group(v)]));
    }
    if channel {
        out.extend((0..16).map(|v| vec![Op::Channel(v)]));
    }
    let mut corner = vec![];
    for v in [0, 6, 15] {
        if group { corner.push(Op::Group(v)) }
        if channel { corner.push(Op::Channel(v)) }
    }
    let mut last: Vec<Vec<Op>> = corner.iter().map(|o| vec![*o]).collect();
    for _ in 1..depth {
        let next: Vec<Vec<Op>> = last.iter().flat_map(|l| corner.iter().map(move |o| { let mut l = l.clone(); l.push(*o); l })).collect();
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

type Run = fn(&[u32], usize, &[Vec<Op>], Say);
macro_rules! runs { ($(($m:ident $t:ident $n:literal [$($A:literal),*]))*) => { vec![ $( (concat!(stringify!($m), "::", stringify!($t)), {
    fn go(u: &[u32], mlen: usize, hist: &[Vec<Op>], say: Say) {
        use midi2::$m::$t as T;
        wrap_over!($m $t, "slice", T::try_from(u).expect("rejected"), say);
        wrap_over!($m $t, "vec", { let m: T<Vec<u32>> = T::try_from(u).expect("rejected").rebuffer_into(); m }, say);
        if u.len() <= 24 {
            wrap_over!($m $t, "array", { let m: T<[u32; 24]> = T::try_from(u).expect("rejected").try_rebuffer_into().expect("fits"); m }, say);
        }
        for cap in [mlen, u.len(), u.len() + 3] {
            settings(cap, 0x5A5A_5A5A, cap % 2 == 0);
            macro_rules! over { ($B:ident) => {{
                let c: T<$B<u32>> = T::try_from(u).expect("rejected").rebuffer_into();
                let want = obs!($m &c, parsed::<u32>(&c));
                let a: fam::$m<$B<u32>> = { let c: T<$B<u32>> = T::try_from(u).expect("rejected").rebuffer_into(); c.into() };
                let b: fam::$m<$B<u32>> = fam::$m::try_from(u).expect("rejected").rebuffer_into();
                let (oa, ob) = (obs!($m &a, ag!($m &a, x => parsed::<u32>(x))), obs!($m &b, ag!($m &b, x => parsed::<u32>(x))));
                say(concat!("rebuffered ", stringify!($B)), oa == want && ob == want, format!("{oa:X?} / {ob:X?} instead of {want:X?}"));
                let m: UmpMessage<$B<u32>> = a.into();
                let got = ump_parsed(&m);
                say(concat!("UmpMessage ", stringify!($B)), got.name == want.name && got.data == want.data && got.reads == want.reads, format!("{got:X?} instead of {want:X?}"));
            }} }
            over!(Grow);
            over!(Fix);
            over!(Bound);
        }
        for h in hist {
            lock!($m $t, u, h, say);
        }
    }
    go as Run
}), )* ] } }

// ---- conversions ------------------------------------------------------------------

fn same<U: Un>(say: Say, label: &str, a: Option<Parsed<U>>, c: Option<Parsed<U>>) {
    say(label, a == c, format!("aggregate {a:X?}, concrete {c:X?}"));
}
macro_rules! conv_ump { ($m:ident $t:ident, $on:ident, $u:expr, $say:expr) => {{
    use midi2::$m::$t as T;
    use fam::$m as F;
    let (u, say): (&[u32], Say) = ($u, $say);
    let c = || T::try_from(u).expect("rejected");
    let a = || F::try_from(u).expect("rejected");
    macro_rules! rd { ($e:expr) => {{ let f = $e; $on!(&f, x => parsed::<u8>(x)) }} }
    { let (x, y): (F<Vec<u8>>, T<Vec<u8>>) = (a().into_bytes(), c().into_bytes()); same(say, "into_bytes vec", Some(rd!(x)), Some(parsed::<u8>(&y))); }
    for cap in 0..5 {
        settings(cap, 0xEE, cap % 2 == 0);
        { let (x, y): (F<Grow<u8>>, T<Grow<u8>>) = (a().into_bytes(), c().into_bytes()); same(say, "into_bytes grow", Some(rd!(x)), Some(parsed::<u8>(&y))); }
        { let (x, y): (Result<F<Fix<u8>>, _>, Result<T<Fix<u8>>, _>) = (a().try_into_bytes(), c().try_into_bytes()); same(say, "try_into_bytes fix", x.ok().map(|x| rd!(x)), y.ok().map(|y| parsed::<u8>(&y))); }
        { let (x, y): (Result<F<Bound<u8>>, _>, Result<T<Bound<u8>>, _>) = (a().try_into_bytes(), c().try_into_bytes()); same(say, "try_into_bytes bound", x.ok().map(|x| rd!(x)), y.ok().map(|y| parsed::<u8>(&y))); }
    }
    macro_rules! arr { ($N:literal) => { { let (x, y): (Result<F<[u8; $N]>, _>, Result<T<[u8; $N]>, _>) = (a().try_into_bytes(), c().try_into_bytes()); same(say, concat!("try_into_bytes [u8; ", $N, "]"), x.ok().map(|x| rd!(x)), y.ok().map(|y| parsed::<u8>(&y))); } } }
    arr!(1); arr!(2); arr!(3); arr!(4); arr!(8);
    // and back
    let b: F<Vec<u8>> = a().into_bytes();
    let cb = || -> T<Vec<u8>> { c().into_bytes() };
    macro_rules! rd32 { ($e:expr) => {{ let f = $e; $on!(&f, x => parsed::<u32>(x)) }} }
    { let (x, y): (F<Vec<u32>>, T<Vec<u32>>) = (b.clone().into_ump(), cb().into_ump()); same(say, "into_ump vec", Some(rd32!(x)), Some(parsed::<u32>(&y))); }
    for cap in 0..3 {
        settings(cap, 0xEEEE_EEEE, cap % 2 == 0);
        { let (x, y): (F<Grow<u32>>, T<Grow<u32>>) = (b.clone().into_ump(), cb().into_ump()); same(say, "into_ump grow", Some(rd32!(x)), Some(parsed::<u32>(&y))); }
        { let (x, y): (Result<F<Fix<u32>>, _>, Result<T<Fix<u32>>, _>) = (b.clone().try_into_ump(), cb().try_into_ump()); same(say, "try_into_ump fix", x.ok().map(|x| rd32!(x)), y.ok().map(|y| parsed::<u32>(&y))); }
        { let (x, y): (Result<F<Bound<u32>>, _>, Result<T<Bound<u32>>, _>) = (b.clone().try_into_ump(), cb().try_into_ump()); same(say, "try_into_ump bound", x.ok().map(|x| rd32!(x)), y.ok().map(|y| parsed::<u32>(&y))); }
    }
    { let (x, y): (Result<F<[u32; 1]>, _>, Result<T<[u32; 1]>, _>) = (b.clone().try_into_ump(), cb().try_into_ump()); same(say, "try_into_ump [u32; 1]", x.ok().map(|x| rd32!(x)), y.ok().map(|y| parsed::<u32>(&y))); }
    { let (x, y): (Result<F<[u32; 4]>, _>, Result<T<[u32; 4]>, _>) = (b.clone().try_into_ump(), cb().try_into_ump()); same(say, "try_into_ump [u32; 4]", x.ok().map(|x| rd32!(x)), y.ok().map(|y| parsed::<u32>(&y))); }
    { let (x, y): (Result<F<[u32; 0]>, _>, Result<T<[u32; 0]>, _>) = (b.clone().try_into_ump(), cb().try_into_ump()); same(say, "try_into_ump [u32; 0]", x.ok().map(|x| rd32!(x)), y.ok().map(|y| parsed::<u32>(&y))); }
    // rebuffering: fallible and array forms
    macro_rules! re { ($N:literal) => { { let (x, y): (Result<F<[u32; $N]>, _>, Result<T<[u32; $N]>, _>) = (a().try_rebuffer_into(), c().try_rebuffer_into()); same(say, concat!("try_rebuffer [u32; ", $N, "]"), x.ok().map(|x| rd32!(x)), y.ok().map(|y| parsed::<u32>(&y))); }
        { let (x, y): (F<[u32; $N]>, T<[u32; $N]>) = (a().array_rebuffer_into(), c().array_rebuffer_into()); same(say, concat!("array_rebuffer [u32; ", $N, "]"), Some(rd32!(x)), Some(parsed::<u32>(&y))); } } }
    re!(1); re!(2); re!(5);
}} }
macro_rules! convs { ($(($m:ident $t:ident $n:literal [$($A:literal),*]))*) => { vec![ $( (concat!(stringify!($m), "::", stringify!($t)), {
    fn go(u: &[u32], say: Say) { conv_pick!($m $t, u, say) }
    fn bytes(u: &[u8], _mlen: usize, say: Say) { bytes_pick!($m $t, u, _mlen, say) }
    (go as fn(&[u32], Say), bytes as fn(&[u8], usize, Say))
}), )* ] } }
macro_rules! conv_pick {
    (channel_voice1 $t:ident, $u:expr, $say:expr) => { conv_ump!(channel_voice1 $t, on_cv1, $u, $say) };
    (system_common $t:ident, $u:expr, $say:expr) => { conv_ump!(system_common $t, on_sysc, $u, $say) };
}
macro_rules! bytes_common { ($m:ident $t:ident, $on:ident, $u:expr, $mlen:expr, $say:expr) => {{
    use midi2::$m::$t as T;
    use fam::$m as F;
    let (u, say): (&[u8], Say) = ($u, $say);
    let c = T::try_from(u).expect("rejected");
    let want = parsed::<u8>(&c);
    let a: F<&[u8]> = c.clone().into();
    let got = $on!(&a, x => parsed::<u8>(x));
    say("family bytes from concrete", got == want && a.data() == &want.data[..], format!("{got:X?} instead of {want:X?}"));
    let p = F::try_from(&want.data[..]).map(|a| $on!(&a, x => parsed::<u8>(x)));
    say("family bytes parsed", p.as_ref().ok() == Some(&want), format!("{p:X?} instead of {want:X?}"));
    for m in [BytesMessage::from(c.clone()), BytesMessage::from(a.clone())] {
        let got = bytes_parsed(&m);
        say("BytesMessage from", got == want && m.data() == &want.data[..], format!("{got:X?} instead of {want:X?}"));
        let v: BytesMessage<Vec<u8>> = m.clone().rebuffer_into();
        let got = bytes_parsed(&v);
        say("BytesMessage rebuffered", got == want, format!("{got:X?} instead of {want:X?}"));
        let v: Result<BytesMessage<[u8; 16]>, _> = m.try_rebuffer_into();
        let got = v.map(|v| bytes_parsed(&v));
        say("BytesMessage try rebuffered", got.as_ref().ok() == Some(&want) || u.len() > 16, format!("{got:X?} instead of {want:X?}"));
    }
    let p = BytesMessage::try_from(&want.data[..]).map(|m| bytes_parsed(&m));
    say("BytesMessage parsed", p.as_ref().ok() == Some(&want), format!("{p:X?} instead of {want:X?}"));
    // conversions of the slice
    macro_rules! rd32 { ($e:expr) => {{ let f = $e; $on!(&f, x => parsed::<u32>(x)) }} }
    { let (x, y): (F<Vec<u32>>, T<Vec<u32>>) = (a.clone().into_ump(), c.clone().into_ump()); same(say, "into_ump slice", Some(rd32!(x)), Some(parsed::<u32>(&y))); }
    { let (x, y): (Result<F<[u32; 4]>, _>, Result<T<[u32; 4]>, _>) = (a.clone().try_into_ump(), c.clone().try_into_ump()); same(say, "try_into_ump slice", x.ok().map(|x| rd32!(x)), y.ok().map(|y| parsed::<u32>(&y))); }
}} }
macro_rules! bytes_pick {
    (channel_voice1 $t:ident, $u:expr, $mlen:expr, $say:expr) => {{
        bytes_common!(channel_voice1 $t, on_cv1, $u, $mlen, $say);
        use midi2::channel_voice1::$t as T;
        let say: Say = $say;
        let u: &[u8] = $u;
        for v in 0..16u8 {
            let mut c: T<Spy<u8>> = T::try_from(u).expect("rejected").rebuffer_into();
            let sc = <u8 as SpyUn>::last();
            let mut a: fam::channel_voice1<Spy<u8>> = fam::channel_voice1::from({ let c: T<Spy<u8>> = T::try_from(u).expect("rejected").rebuffer_into(); c });
            let sa = <u8 as SpyUn>::last();
            say("channel bytes", c.channel() == a.channel() && u8::from(a.channel()) == u[0] & 0xF, format!("aggregate {:?}, concrete {:?}", a.channel(), c.channel()));
            c.set_channel(midi2::ux::u4::new(v));
            a.set_channel(midi2::ux::u4::new(v));
            let (bc, ba) = unsafe { ((*sc.get()).clone(), (*sa.get()).clone()) };
            let mut want = u.to_vec();
            want[0] = want[0] & 0xF0 | v;
            say("set_channel bytes", bc == want && ba == want && u8::from(a.channel()) == v, format!("channel {v}: aggregate {}, concrete {}, expected {}", hex8(&ba), hex8(&bc), hex8(&want)));
        }
    }};
    (system_common $t:ident, $u:expr, $mlen:expr, $say:expr) => { bytes_common!(system_common $t, on_sysc, $u, $mlen, $say) };
}

// ---- sysex --------------------------------------------------------------------------

macro_rules! sysex { ($u:expr, $var:ident, $m:ident $t:ident, $say:expr) => {{
    use midi2::$m::$t as T;
    let (u, say): (&[u32], Say) = ($u, $say);
    let c = T::try_from(u).expect("rejected");
    let want = parsed::<u32>(&c);
    let pk: Vec<Vec<u32>> = c.packets().map(|p| p.to_vec()).collect();
    for m in [UmpMessage::from(c.clone()), UmpMessage::try_from(u).expect("rejected")] {
        say("UmpMessage", matches!(&m, UmpMessage::$var(_)), format!("{m:?}"));
        let got = ump_parsed(&m);
        let gp: Vec<Vec<u32>> = m.packets().map(|p| p.to_vec()).collect();
        say("UmpMessage", got == want && m.data() == &want.data[..] && gp == pk && m.packets().len() == pk.len(), format!("{got:X?} {gp:X?} instead of {want:X?} {pk:X?}"));
        let v: UmpMessage<Vec<u32>> = m.clone().rebuffer_into();
        let got = ump_parsed(&v);
        say("UmpMessage rebuffered", got == want, format!("{got:X?} instead of {want:X?}"));
        let (x, y): (Result<UmpMessage<[u32; 16]>, _>, Result<T<[u32; 16]>, _>) = (m.try_rebuffer_into(), c.clone().try_rebuffer_into());
        same(say, "UmpMessage try rebuffered", x.ok().map(|x| ump_parsed(&x)), y.ok().map(|y| parsed::<u32>(&y)));
    }
    // writes through the variant are writes on the concrete message
    for g in 0..16u8 {
        let mut v: UmpMessage<Vec<u32>> = UmpMessage::try_from(u).unwrap().rebuffer_into();
        if let UmpMessage::$var(x) = &mut v { x.set_group(midi2::ux::u4::new(g)); }
        let mut w: T<Vec<u32>> = c.clone().rebuffer_into();
        w.set_group(midi2::ux::u4::new(g));
        let want = expect(&want.data, want.data.len(), &[Op::Group(g)]);
        say("set_group", v.data() == &want[..] && w.data() == &want[..] && u8::from(w.group()) == g, format!("group {g}: {} / {}, expected {}", hex32(v.data()), hex32(w.data()), hex32(&want)));
    }
}} }

fn sayer<'a>(ctx: &'a Ctx, key: &'a str, what: &'a dyn Fn() -> String, n: &'a Cell<u64>) -> impl FnMut(&str, bool, String) + 'a {
    move |label, ok, detail| {
        n.set(n.get() + 1);
        if !ok {
            ctx.violation(&format!("{key}:{label}"), &format!("{} {label}: {detail}", what()));
        }
    }
}

fn c16(ctx: &Arc<Ctx>) {
    let th = ctx.thorough();
    let tails: Vec<Vec<u32>> = vec![vec![], vec![0x4091_4142, 0xFFFF_FFFF, 0x2093_4050, 0x4444_4444], vec![0x10F8_0000], vec![0; 5]];
    let runs: Vec<(&str, Run)> = each_ump!(runs);
    assert_eq!(runs.len(), UMP.len());
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (j, vt) in UMP.iter().enumerate() {
        assert_eq!(runs[j].0, vt.spec.name);
        let n = messages::<u32>(vt.spec, th).len();
        jobs.extend((0..n).map(|k| (j, k)));
    }
    ctx.par("aggregates of table messages", &jobs, |(j, k)| format!("{} #{k}", UMP[*j].spec.name), |(j, k)| {
        let s = UMP[*j].spec;
        let m = &messages(s, th)[*k];
        let hist = histories(m[0] >> 28, if *k < 12 { ctx.pick(3, 4) } else { ctx.pick(2, 3) });
        for t in &tails {
            if s.text.is_some() && t.iter().any(|x| x >> 28 == m[0] >> 28) {
                continue;
            }
            let mut u = m.clone();
            u.extend(t);
            let n = Cell::new(0);
            let what = || format!("{} {}", s.name, hex32(&u));
            let r = catch(|| (runs[*j].1)(&u, m.len(), &hist, &mut sayer(ctx, s.name, &what, &n)));
            if let Err(e) = r {
                ctx.violation(&format!("{}:panic", s.name), &format!("{}: {e}", what()));
            }
            ctx.bulk(1 + hist.len() as u64, n.get(), hist.len() as u64 + 1);
        }
        if *k == 0 {
            ctx.sample(|| format!("{}: {} histories e.g. {:?} on {}", s.name, hist.len(), hist.last(), hex32(m)));
        }
    });
    let convs: Vec<(&str, (fn(&[u32], Say), fn(&[u8], usize, Say)))> = each_bytes!(convs);
    assert_eq!(convs.len(), BYTES.len());
    let jobs: Vec<usize> = (0..BYTES.len()).collect();
    ctx.par("conversions of aggregates", &jobs, |j| BYTES[*j].spec.name.to_string(), |j| {
        let (name, (ump, bytes)) = convs[*j];
        assert_eq!(name, BYTES[*j].spec.name);
        let us = UMP.iter().find(|v| v.spec.name == name).unwrap().spec;
        for m in messages(us, true) {
            for t in &tails {
                let mut u = m.clone();
                u.extend(t);
                let n = Cell::new(0);
                let what = || format!("{name} {}", hex32(&u));
                if let Err(e) = catch(|| ump(&u, &mut sayer(ctx, name, &what, &n))) {
                    ctx.violation(&format!("{name}:panic"), &format!("{}: {e}", what()));
                }
                ctx.bulk(1, n.get(), n.get());
            }
        }
        for m in messages::<u8>(BYTES[*j].spec, true) {
            for t in [&[][..], &[0x91], &[0x91, 0x40, 0x41], &[0xFF, 0xF7, 0xF0], &[0; 4]] {
                let mut u = m.clone();
                u.extend(t);
                let n = Cell::new(0);
                let what = || format!("{name} bytes {}", hex8(&u));
                if let Err(e) = catch(|| bytes(&u, m.len(), &mut sayer(ctx, name, &what, &n))) {
                    ctx.violation(&format!("{name}:panic"), &format!("{}: {e}", what()));
                }
                ctx.bulk(1, n.get(), n.get());
            }
        }
    });
    let mut jobs: Vec<(Kind, Vec<usize>)> = vec![];
    for (k, sizes) in [(Kind::S7U, [0usize, 1, 3, 5, 6]), (Kind::S8, [0, 1, 6, 12, 13])] {
        let mut last: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..ctx.pick(4, 6) {
            last = last.iter().flat_map(|l| sizes.iter().map(move |s| { let mut l = l.clone(); l.push(*s); l })).collect();
            jobs.extend(last.iter().map(|l| (k, l.clone())));
        }
    }
    let chunks: Vec<&[(Kind, Vec<usize>)]> = jobs.chunks(50).collect();
    ctx.par("sysex in aggregates", &chunks, |c| format!("{:?}", c[0]), |c| {
        for (k, l) in c.iter() {
            let n: usize = l.iter().sum();
            let pay: Vec<u8> = (0..n).map(|i| if *k == Kind::S8 { (i * 37 + 0x81) as u8 } else { ((i * 5 + 3) & 0x7F) as u8 }).collect();
            let m = k.encode_sizes((n % 16) as u8, if *k == Kind::S8 { 0xA0 | (n % 16) as u8 } else { 0 }, &pay, l);
            for t in &tails {
                let mut u = m.clone();
                u.extend(t);
                let cnt = Cell::new(0);
                let key = format!("{k:?}");
                let what = || format!("{k:?} {}", hex32(&u));
                let r = catch(|| {
                    let mut say = sayer(ctx, &key, &what, &cnt);
                    if *k == Kind::S7U { sysex!(&u, Sysex7, sysex7 Sysex7, &mut say) } else { sysex!(&u, Sysex8, sysex8 Sysex8, &mut say) }
                });
                if let Err(e) = r {
                    ctx.violation(&format!("{key}:panic"), &format!("{}: {e}", what()));
                }
                ctx.bulk(1, cnt.get(), 17);
            }
        }
    });
    // very long messages
    let mut jobs: Vec<(usize, usize)> = vec![];
    for n in mc::long::packets(ctx, true) {
        for (j, vt) in UMP.iter().enumerate().filter(|v| v.1.spec.text.is_some()) {
            let some = ["flex_data::Lyrics", "ump_stream::EndpointName"].contains(&vt.spec.name);
            if if n > 5000 { some } else { some || th || n > 254 && n < 258 } {
                jobs.push((n, j));
            }
        }
        jobs.push((n, UMP.len() + 3));
        jobs.push((n, UMP.len() + 5));
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.0));
    ctx.par("long", &jobs, |j| format!("{j:?}"), |&(n, j)| {
        let cnt = Cell::new(0);
        for t in if n > 5000 { &tails[2..3] } else { &tails[1..] } {
            let what = |u: &[u32]| format!("{n} packets, {} ...", hex32(&u[..8]));
            if j < UMP.len() {
                let s = UMP[j].spec;
                if t.iter().any(|x| x >> 28 == s.hdr.1 >> 28) {
                    continue;
                }
                let kind = s.text.unwrap();
                let cap = match kind { TextKind::Flex => 12, TextKind::Stream(o) => 14 - o };
                let text: Vec<u8> = (0..(n - 1) * cap + 1 + n % cap).map(|k| b'!' + ((k + k / 90) % 90) as u8).collect();
                let mut h = s.default_units::<u32>();
                for (k, f) in s.fields.iter().enumerate() {
                    let c = (f.corners)();
                    f.write(&mut h, c[k % c.len()]);
                }
                let m = pack_text(kind, h[0], &text);
                let mut u = m.clone();
                u.extend(t);
                let hist: Vec<Vec<Op>> = histories(m[0] >> 28, 1);
                let what = || what(&u);
                if let Err(e) = catch(|| (runs[j].1)(&u, m.len(), &hist[..hist.len().min(if n > 5000 { 4 } else { 60 })], &mut sayer(ctx, s.name, &what, &cnt))) {
                    ctx.violation(&format!("{}:panic", s.name), &format!("{}: {e}", what()));
                }
            } else {
                let k = if j == UMP.len() + 3 { Kind::S7U } else { Kind::S8 };
                for pat in [[k.per(), k.per()], [1, 2], [k.per() - 1, 0]] {
                    let sizes: Vec<usize> = (0..n).map(|i| pat[i % 2]).collect();
                    let pay: Vec<u8> = (0..sizes.iter().sum::<usize>()).map(|i| (i / 7 + i) as u8 & 0x7F).collect();
                    let mut u = k.encode_sizes(0xB, if k == Kind::S8 { 0x5A } else { 0 }, &pay, &sizes);
                    u.extend(t);
                    let key = format!("{k:?} long");
                    let what = || what(&u);
                    let r = catch(|| {
                        let mut say = sayer(ctx, &key, &what, &cnt);
                        if k == Kind::S7U { sysex!(&u, Sysex7, sysex7 Sysex7, &mut say) } else { sysex!(&u, Sysex8, sysex8 Sysex8, &mut say) }
                    });
                    if let Err(e) = r {
                        ctx.violation(&format!("{key}:panic"), &format!("{}: {e}", what()));
                    }
                    if n > 5000 { break; }
                }
            }
        }
        ctx.bulk(1, cnt.get(), 1);
    });
    // byte sysex
    let jobs: Vec<usize> = (0..ctx.pick(40, 200)).collect();
    ctx.par("sysex bytes in aggregates", &jobs, |n| format!("{n} bytes"), |n| {
        let mut m: Vec<u8> = vec![0xF0];
        m.extend((0..*n).map(|i| ((i * 7 + 1) & 0x7F) as u8));
        m.push(0xF7);
        for t in [&[][..], &[0xF7], &[0x90, 1, 2], &[0xF0, 1, 0xF7]] {
            let mut u = m.clone();
            u.extend(t);
            let r = catch(|| {
                use midi2::sysex7::Sysex7;
                let c = Sysex7::try_from(&u[..]).expect("rejected");
                let want = parsed::<u8>(&S7Bytes(&c));
                for x in [BytesMessage::from(c.clone()), BytesMessage::try_from(&u[..]).expect("rejected")] {
                    let v: BytesMessage<Vec<u8>> = x.clone().rebuffer_into();
                    let a: Result<BytesMessage<[u8; 20]>, _> = x.clone().try_rebuffer_into();
                    let b: Result<Sysex7<[u8; 20]>, _> = c.clone().try_rebuffer_into();
                    if bytes_parsed(&x) != want || bytes_parsed(&v) != want || x.data() != &m[..] || a.as_ref().map(bytes_parsed).ok() != b.as_ref().map(|b| parsed::<u8>(&S7Bytes(b))).ok() {
                        ctx.violation("sysex7 bytes", &format!("{}: {x:?} {v:?} {a:?} {b:?} instead of {want:X?}", hex8(&u)));
                    }
                }
            });
            if let Err(e) = r {
                ctx.violation("sysex7 bytes:panic", &format!("{}: {e}", hex8(&u)));
            }
            ctx.bulk(1, 8, 2);
        }
    });
}
/// backgrounds, every corner of every field, texts of several lengths
fn messages<U: Un>(s: &Spec, deep: bool) -> Vec<Vec<U>> {
    let mut ms = backgrounds::<U>(s, if deep { 6 } else { 3 });
    let base = ms.len().min(if deep { 4 } else { 1 });
    for (i, f) in s.fields.iter().enumerate() {
        for c in (f.corners)() {
            for b in 0..base {
                let mut m = ms[b].clone();
                write_all(s, i, c, &mut m);
                ms.push(m);
            }
        }
    }
    if let (Some(t), 4) = (s.text, std::mem::size_of::<U>()) {
        let cap = match t { TextKind::Flex => 12, TextKind::Stream(o) => 14 - o };
        let mut h = s.default_units::<U>();
        for (k, f) in s.fields.iter().enumerate() {
            let c = (f.corners)();
            f.write(&mut h, c[k % c.len()]);
        }
        for n in [0, 1, cap, cap + 1, 4 * cap + 3] {
            let text: Vec<u8> = (0..n).map(|k| b'!' + (k % 90) as u8).collect();
            ms.push(pack_text(t, h[0].to32(), &text).into_iter().map(U::from32).collect());
        }
    }
    ms.sort_by_key(|m| m.iter().map(|x| x.to32()).collect::<Vec<_>>());
    ms.dedup();
    ms
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&prop);
    match prop.as_str() {
        "C16" => c16(&ctx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(4);
        }
    }
    ctx.finish()
}
