//! C10 conversions between UMP and byte form, C11 rebuffering.
use mc::agg::*;
use mc::bg::*;
use mc::buf::*;
use mc::spec::*;
use mc::sx::Kind;
use mc::*;
use midi2::prelude::*;
use std::sync::Arc;

fn rd32(x: &dyn Any<u32>) -> Parsed<u32> {
    parsed(x)
}
fn rd8(x: &dyn Any<u8>) -> Parsed<u8> {
    parsed(x)
}

thread_local! {
    /// the size the result needs
    static NEED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// the capacities to try: all of them, for long messages those around the limits
fn caps(top: usize) -> Vec<usize> {
    if top < 600 {
        return (0..=top).collect();
    }
    let n = NEED.get();
    let mut v = if top > 40_000 { vec![n - 1, n] } else { vec![0, 2, 255, 256, n / 2, n - 2, n - 1, n, n + 1, n + 2, top - 1, top] };
    v.sort();
    v.dedup();
    v
}

// ---- C11 ------------------------------------------------------------------------

/// one observed step: label, capacity of the target (None = cannot fail), units in the source buffer, result
type Out<'a, U> = &'a mut dyn FnMut(&str, Option<usize>, usize, Result<Parsed<U>, ()>);

/// every way of moving the message at the start of `units` between buffers
macro_rules! chain {
    ($T:ident, $U:ty, $x:ident => $rd:expr, [$($N:literal),*], [$($A:literal),*], $units:expr, $min:expr, $out:expr) => {{
        let units: &[$U] = $units;
        let out: Out<$U> = $out;
        let len = units.len();
        let parse = || $T::<&[$U]>::try_from(units).expect("rejected");
        macro_rules! rd { ($e:expr) => {{ let $x = &$e; $rd }} }
        { let v: $T<Vec<$U>> = parse().rebuffer_into(); out("slice>vec", None, len, Ok(rd!(v)));
          $( { let a: Result<$T<[$U; $N]>, _> = v.clone().try_rebuffer_into(); out(concat!("slice>vec>try[", $N, "]"), Some($N), len, a.as_ref().map(|a| rd!(*a)).map_err(|_| ()));
               if let Ok(a) = a { let v: $T<Vec<$U>> = a.rebuffer_into(); out(concat!("slice>vec>try[", $N, "]>vec"), None, $N, Ok(rd!(v))); } } )*
          out("vec after use", None, len, Ok(rd!(v))); }
        for cap in caps(len + 2) {
            settings(cap, 0xA5A5_A5A5, cap % 2 == 0);
            { let v: $T<Grow<$U>> = parse().rebuffer_into(); out("slice>grow", None, len, Ok(rd!(v))); }
            { let v: $T<Fix<$U>> = parse().rebuffer_into(); out("slice>fix", None, len, Ok(rd!(v))); }
            { let v: $T<Bound<$U>> = parse().rebuffer_into(); out("slice>bound", None, len, Ok(rd!(v))); }
        }
        $( { let a: Result<$T<[$U; $N]>, _> = parse().try_rebuffer_into(); out(concat!("slice>try[", $N, "]"), Some($N), len, a.as_ref().map(|a| rd!(*a)).map_err(|_| ()));
             if let Ok(a) = a {
                 let v: $T<Vec<$U>> = a.rebuffer_into(); out(concat!("slice>try[", $N, "]>vec"), None, $N, Ok(rd!(v)));
                 { let b: Result<$T<[$U; 2]>, _> = v.clone().try_rebuffer_into(); out(concat!("slice>try[", $N, "]>vec>try[2]"), Some(2), $N, b.map(|b| rd!(b)).map_err(|_| ())); }
                 { let b: Result<$T<[$U; 4]>, _> = v.clone().try_rebuffer_into(); out(concat!("slice>try[", $N, "]>vec>try[4]"), Some(4), $N, b.map(|b| rd!(b)).map_err(|_| ())); }
                 { let b: Result<$T<[$U; 8]>, _> = v.clone().try_rebuffer_into(); out(concat!("slice>try[", $N, "]>vec>try[8]"), Some(8), $N, b.map(|b| rd!(b)).map_err(|_| ())); }
             } } )*
        $( if $min <= $A {
             let a: $T<[$U; $A]> = parse().array_rebuffer_into(); out(concat!("slice>array[", $A, "]"), None, len, Ok(rd!(a)));
             let b: $T<[$U; $A]> = a.clone().array_rebuffer_into(); out(concat!("slice>array[", $A, "]>array"), None, $A, Ok(rd!(b)));
             let v: $T<Vec<$U>> = a.rebuffer_into(); out(concat!("slice>array[", $A, "]>vec"), None, $A, Ok(rd!(v)));
             let c: $T<[$U; $A]> = v.array_rebuffer_into(); out(concat!("slice>array[", $A, "]>vec>array"), None, $A, Ok(rd!(c)));
        } )*
    }};
}
/// the same without array_rebuffer (aggregates which do not offer it)
macro_rules! chain_na {
    ($T:ident, $U:ty, $x:ident => $rd:expr, [$($N:literal),*], $units:expr, $out:expr) => { chain!($T, $U, $x => $rd, [$($N),*], [], $units, 0, $out) };
}
struct Rb<U: Un> {
    name: &'static str,
    run: fn(&[U], usize, Out<U>),
}
macro_rules! rb_ump { ($(($m:ident $t:ident $n:literal [$($A:literal),*]))*) => { vec![ $( Rb { name: concat!(stringify!($m), "::", stringify!($t)), run: { fn r(u: &[u32], n: usize, o: Out<u32>) { use midi2::$m::$t as T; chain!(T, u32, x => rd32(x), [1, 2, 3, 4, 5, 8, 12], [$($A),*], u, n, o) } r } }, )* ] } }
macro_rules! rb_bytes { ($(($m:ident $t:ident $n:literal [$($A:literal),*]))*) => { vec![ $( Rb { name: concat!(stringify!($m), "::", stringify!($t)), run: { fn r(u: &[u8], n: usize, o: Out<u8>) { use midi2::$m::$t as T; chain!(T, u8, x => rd8(x), [1, 2, 3, 4, 5, 8], [$($A),*], u, n, o) } r } }, )* ] } }

/// aggregates, by message type
fn agg_ump(u: &[u32], n: usize, o: Out<u32>) {
    use midi2::{channel_voice1::ChannelVoice1, channel_voice2::ChannelVoice2, flex_data::FlexData, sysex7::Sysex7, sysex8::Sysex8, system_common::SystemCommon, ump_stream::UmpStream, utility::Utility};
    chain_na!(UmpMessage, u32, x => ump_parsed(x), [1, 2, 3, 4, 5, 8, 12], u, o);
    match u[0] >> 28 {
        0 => chain!(Utility, u32, x => on_util!(x, y => rd32(y)), [1, 2, 4, 5], [4, 8], u, n, o),
        1 => chain!(SystemCommon, u32, x => on_sysc!(x, y => rd32(y)), [1, 2, 4, 5], [4, 8], u, n, o),
        2 => chain!(ChannelVoice1, u32, x => on_cv1!(x, y => rd32(y)), [1, 2, 4, 5], [4, 8], u, n, o),
        4 => chain!(ChannelVoice2, u32, x => on_cv2!(x, y => rd32(y)), [1, 2, 4, 5], [4, 8], u, n, o),
        3 => chain!(Sysex7, u32, x => rd32(x), [1, 2, 3, 4, 5, 6, 8, 12], [2, 5, 12, 31, 70], u, n, o),
        5 => chain!(Sysex8, u32, x => rd32(x), [1, 2, 3, 4, 5, 8, 12], [4, 7, 16, 61, 140], u, n, o),
        0xD => chain_na!(FlexData, u32, x => on_flex!(x, y => rd32(y)), [1, 3, 4, 5, 8, 12], u, o),
        _ => chain_na!(UmpStream, u32, x => on_stream!(x, y => rd32(y)), [1, 3, 4, 5, 8, 12], u, o),
    }
}
fn agg_bytes(u: &[u8], n: usize, o: Out<u8>) {
    use midi2::{channel_voice1::ChannelVoice1, sysex7::Sysex7, system_common::SystemCommon};
    chain_na!(BytesMessage, u8, x => bytes_parsed(x), [1, 2, 3, 4, 5, 8], u, o);
    match u[0] {
        0xF0 => chain!(Sysex7, u8, x => rd8(&S7Bytes(x)), [1, 2, 3, 4, 5, 8, 12], [2, 3, 4, 8, 9, 33, 70], u, n, o),
        0..=0xEF => chain!(ChannelVoice1, u8, x => on_cv1!(x, y => rd8(y)), [1, 2, 3, 4, 5], [3, 8], u, n, o),
        _ => chain!(SystemCommon, u8, x => on_sysc!(x, y => rd8(y)), [1, 2, 3, 4, 5], [3, 8], u, n, o),
    }
}

fn judge<U: Un>(ctx: &Ctx, who: &str, units: &[U], mlen: usize, want: &Parsed<U>, run: impl FnOnce(Out<U>)) {
    let mut steps = 0;
    let r = catch(|| {
        run(&mut |label, cap, src, res| {
            steps += 1;
            let fits = cap.map(|c| mlen <= c).unwrap_or(true);
            let key = if fits && res.is_err() && src > cap.unwrap() { "try-rebuffer-source-longer-than-target".to_string() } else { format!("{who}:{label}") };
            let bad = match &res {
                Ok(p) => !fits || p != want,
                Err(()) => fits,
            };
            if bad {
                ctx.violation(&key, &format!("{who} {label} of {}: got {res:X?}, expected {}{want:X?}", show(units), if fits { "" } else { "an error, not " }));
            }
        })
    });
    if let Err(e) = r {
        ctx.violation(&format!("{who}:panic"), &format!("{who} of {}: {e}", show(units)));
    }
    ctx.bulk(1, steps, 1);
}

fn tails<U: Un>(u32s: bool) -> Vec<Vec<U>> {
    if u32s {
        [&[][..], &[0x4091_4142], &[0x4091_4142, 0xFFFF_FFFF, 0x2093_4050, 0x4444_4444], &[0x10F8_0000, 0xD010_0101], &[0, 0, 0, 0, 0, 0, 0]].iter().map(|t: &&[u32]| t.iter().map(|x| U::from32(*x)).collect()).collect()
    } else {
        [&[][..], &[0x91], &[0x91, 0x40, 0x41], &[0xFF, 0xFF, 0xFF, 0xFF, 0xF7, 0xF0], &[0; 5]].iter().map(|t: &&[u32]| t.iter().map(|x| U::from32(*x)).collect()).collect()
    }
}
fn c11(ctx: &Arc<Ctx>) {
    let rbs: Vec<Rb<u32>> = each_ump!(rb_ump);
    let jobs: Vec<usize> = (0..rbs.len()).collect();
    let patterns = 6;
    ctx.par("ump", &jobs, |j| rbs[*j].name.to_string(), |j| {
        let vt = UMP[*j];
        assert_eq!(vt.spec.name, rbs[*j].name);
        let mut ms = backgrounds::<u32>(vt.spec, patterns);
        // every corner value of every property
        for (i, f) in vt.spec.fields.iter().enumerate() {
            for c in (f.corners)() {
                let mut m = ms[0].clone();
                write_all(vt.spec, i, c, &mut m);
                ms.push(m);
            }
        }
        if ctx.thorough() {
            let base = ms[0].clone();
            for a in 0..base.len() * 32 {
                for b in a..(base.len() * 32).min(a + 40) {
                    let mut m = base.clone();
                    m[a / 32] ^= 1 << (a % 32);
                    m[b / 32] ^= 1 << (b % 32);
                    if accepts(vt.spec, &m) == Some(base.len()) {
                        ms.push(m);
                    }
                }
            }
        }
        for m in ms {
            for t in tails::<u32>(true) {
                let mut u = m.clone();
                u.extend(&t);
                let Some(want) = ref_ump(&u) else { continue };
                if want.name != vt.spec.name {
                    continue;
                }
                let n = want.data.len();
                judge(ctx, vt.spec.name, &u, n, &want, |o| (rbs[*j].run)(&u, n, o));
                judge(ctx, "aggregate", &u, n, &want, |o| agg_ump(&u, n, o));
            }
        }
    });
    let rbs: Vec<Rb<u8>> = each_bytes!(rb_bytes);
    let jobs: Vec<usize> = (0..rbs.len()).collect();
    ctx.par("bytes", &jobs, |j| rbs[*j].name.to_string(), |j| {
        let vt = BYTES[*j];
        let mut ms = backgrounds::<u8>(vt.spec, patterns);
        let base = ms[0].clone();
        for a in 0..base.len() * 8 {
            for b in a..base.len() * 8 {
                let mut m = base.clone();
                m[a / 8] ^= 1 << (a % 8);
                m[b / 8] ^= 1 << (b % 8);
                if accepts(vt.spec, &m) == Some(base.len()) {
                    ms.push(m);
                }
            }
        }
        for m in ms {
            for t in tails::<u8>(false) {
                let mut u = m.clone();
                u.extend(&t);
                let want = ref_bytes(&u).unwrap();
                let n = want.data.len();
                judge(ctx, vt.spec.name, &u, n, &want, |o| (rbs[*j].run)(&u, n, o));
                judge(ctx, "aggregate/bytes", &u, n, &want, |o| agg_bytes(&u, n, o));
            }
        }
    });
    // sysex
    let sizes: Vec<usize> = (0..ctx.pick(30usize, 60)).collect();
    ctx.par("sysex", &sizes, |n| format!("{n} bytes"), |n| {
        let pay: Vec<u8> = (0..*n).map(|k| (k + 1) as u8).collect();
        for (k, g, s) in [(Kind::S7U, 5, 0), (Kind::S8, 0xF, 0xA7)] {
            let mut packings = vec![k.encode(g, s, &pay)];
            // partly filled packets
            for one in [1usize, 2, 5] {
                if *n > 0 {
                    let sz: Vec<usize> = (0..*n).step_by(one).map(|a| one.min(*n - a)).collect();
                    packings.push(k.encode_sizes(g, s, &pay, &sz));
                    let mut z = vec![0];
                    z.extend(&sz);
                    z.push(0);
                    packings.push(k.encode_sizes(g, s, &pay, &z));
                }
            }
            for p in packings {
                for t in tails::<u32>(true) {
                    let mut u = p.clone();
                    u.extend(&t);
                    let Some(want) = ref_ump(&u) else { panic!("harness: rejected {u:X?}") };
                    judge(ctx, "sysex", &u, want.data.len(), &want, |o| agg_ump(&u, want.data.len(), o));
                }
            }
        }
        let b: Vec<u8> = Kind::S7B.encode(0, 0, &pay).iter().map(|x| *x as u8).collect();
        for t in tails::<u8>(false) {
            let mut u = b.clone();
            u.extend(&t);
            let want = ref_bytes(&u).unwrap();
            judge(ctx, "sysex/bytes", &u, want.data.len(), &want, |o| agg_bytes(&u, want.data.len(), o));
        }
    });
    long_rebuffer(ctx);
    mut_slices(ctx);
}
/// messages of very many packets
fn long_rebuffer(ctx: &Arc<Ctx>) {
    use midi2::{flex_data::FlexData, sysex7::Sysex7, sysex8::Sysex8, ump_stream::UmpStream};
    type Run = fn(&[u32], usize, Out<u32>);
    macro_rules! text_arrays { ($(($m:ident $t:ident))*) => { vec![ $( (concat!(stringify!($m), "::", stringify!($t)), { fn r(u: &[u32], n: usize, o: Out<u32>) { use midi2::$m::$t as T; chain!(T, u32, x => rd32(x), [12, 20], [12, 41, 512, 1100], u, n, o) } r as Run }), )* ] } }
    let texts: Vec<(&str, Run)> = each_text!(text_arrays);
    let mut packets = mc::long::packets(ctx, true);
    packets.extend([3, 4, 10]);
    packets.sort();
    packets.dedup();
    let mut jobs: Vec<(usize, usize, &Vt<u32>)> = vec![];
    for n in packets {
        for vt in UMP.iter().copied().filter(|v| v.spec.text.is_some()) {
            let some = ["flex_data::Lyrics", "ump_stream::EndpointName"].contains(&vt.spec.name);
            if some || n < 5000 && ctx.thorough() || n < 20 {
                jobs.push((n, 0, vt));
            }
        }
        for k in [3, 5] {
            jobs.push((n, k, UMP[0]));
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.0));
    ctx.par("long", &jobs, |j| format!("{} packets {} {}", j.0, j.1, j.2.spec.name), |(n, k, vt)| {
        let n = *n;
        let mut ms: Vec<Vec<u32>> = vec![];
        if *k == 0 {
            let stream = !matches!(vt.spec.text.unwrap(), TextKind::Flex);
            let mut m = vec![];
            for i in 0..n {
                let form = if i == 0 { 1 } else if i + 1 == n { 3 } else { 2u32 };
                let mut p = [vt.spec.hdr.1 | form << if stream { 26 } else { 22 }, 0x4142_4344, 0x4546_4748, 0x494A_4B00 | (i % 26 + 0x41) as u32];
                if !stream { p[0] |= 0x0215_0000 }
                m.extend(p);
            }
            ms.push(m);
        } else {
            let kind = if *k == 3 { Kind::S7U } else { Kind::S8 };
            for pat in [[kind.per(), kind.per()], [1, 2], [kind.per() - 1, 0]] {
                let sizes: Vec<usize> = (0..n).map(|i| pat[i % 2]).collect();
                let pay: Vec<u8> = (0..sizes.iter().sum::<usize>()).map(|i| (i / 7 + i) as u8 & 0x7F).collect();
                ms.push(kind.encode_sizes(0xB, 0x5A, &pay, &sizes));
                if n > 5000 { break; }
            }
        }
        for m in ms {
            let ts = tails::<u32>(true);
            for t in if n > 5000 { &ts[1..2] } else { &ts[..] } {
                let mut u = m.clone();
                u.extend(t);
                NEED.set(m.len());
                // (how the accepted message reads is the subject of C04 to C06, C12)
                let Ok(want) = catch(|| ref_ump(&u)) else { continue };
                let Some(want) = want else { continue };
                let len = want.data.len();
                if len != m.len() { continue }
                judge(ctx, "long", &u, len, &want, |o| match u[0] >> 28 {
                    3 => { chain!(Sysex7, u32, x => rd32(x), [2, 128, 256, 300, 512, 520], [257, 512, 700], &u, len, o) }
                    5 => { chain!(Sysex8, u32, x => rd32(x), [4, 256, 508, 512, 516, 1024, 1040], [512, 1024, 1100], &u, len, o) }
                    0xD => { chain_na!(FlexData, u32, x => on_flex!(x, y => rd32(y)), [4, 256, 508, 512, 516, 1024, 1040], &u, o) }
                    _ => { chain_na!(UmpStream, u32, x => on_stream!(x, y => rd32(y)), [4, 256, 508, 512, 516, 1024, 1040], &u, o) }
                });
                if let Some(k) = if *k == 0 { texts.iter().position(|t| t.0 == vt.spec.name) } else { None } {
                    judge(ctx, "long", &u, len, &want, |o| (texts[k].1)(&u, len, o));
                }
                judge(ctx, "long", &u, len, &want, |o| chain_na!(UmpMessage, u32, x => ump_parsed(x), [4, 256, 508, 512, 516, 1024, 1040], &u, o));
            }
        }
    });
    let jobs = mc::long::bytes(ctx, true);
    ctx.par("long bytes", &jobs, |n| format!("{n}"), |n| {
        let pay: Vec<u8> = (0..*n).map(|i| (i / 5 + i) as u8 & 0x7F).collect();
        let b: Vec<u8> = Kind::S7B.encode(0, 0, &pay).iter().map(|x| *x as u8).collect();
        for t in tails::<u8>(false) {
            let mut u = b.clone();
            u.extend(&t);
            NEED.set(b.len());
            let want = ref_bytes(&u).unwrap();
            judge(ctx, "long/bytes", &u, want.data.len(), &want, |o| chain_na!(BytesMessage, u8, x => bytes_parsed(x), [3, 128, 255, 256, 258, 514, 1026], &u, o));
            judge(ctx, "long/bytes", &u, want.data.len(), &want, |o| { use midi2::sysex7::Sysex7; let len = want.data.len(); chain!(Sysex7, u8, x => rd8(&S7Bytes(x)), [3, 128, 255, 256, 258, 514, 1026], [256, 300, 1026], &u, len, o) });
        }
    });
}
/// messages living in a mutable slice moved elsewhere
macro_rules! mut_ump { ($(($m:ident $t:ident $n:literal [$($A:literal),*]))*) => { vec![ $( (concat!(stringify!($m), "::", stringify!($t)), {
    fn r(b: &mut [u32], ops: &[(usize, u64)], o: Out<u32>) {
        use midi2::$m::$t as T;
        let len = b.len();
        macro_rules! fresh { () => {{ let mut m = T::try_new_with_buffer(&mut b[..]).expect("no room"); for (i, c) in ops { Set::<u32>::set(&mut m, *i, *c); } m }} }
        { let m = fresh!(); o("mut", None, len, Ok(rd32(&m))); let s: T<&[u32]> = m.rebuffer_into(); o("mut>slice", None, len, Ok(rd32(&s))); }
        { let v: T<Vec<u32>> = fresh!().rebuffer_into(); o("mut>vec", None, len, Ok(rd32(&v))); }
        { let v: Result<T<[u32; 1]>, _> = fresh!().try_rebuffer_into(); o("mut>try[1]", Some(1), len, v.map(|v| rd32(&v)).map_err(|_| ())); }
        { let v: Result<T<[u32; 2]>, _> = fresh!().try_rebuffer_into(); o("mut>try[2]", Some(2), len, v.map(|v| rd32(&v)).map_err(|_| ())); }
        { let v: Result<T<[u32; 4]>, _> = fresh!().try_rebuffer_into(); o("mut>try[4]", Some(4), len, v.map(|v| rd32(&v)).map_err(|_| ())); }
        { let v: Result<T<[u32; 7]>, _> = fresh!().try_rebuffer_into(); o("mut>try[7]", Some(7), len, v.map(|v| rd32(&v)).map_err(|_| ())); }
        $( { let v: T<[u32; $A]> = fresh!().array_rebuffer_into(); o(concat!("mut>array[", $A, "]"), None, len, Ok(rd32(&v))); } )*
    } r as fn(&mut [u32], &[(usize, u64)], Out<u32>) }), )* ] } }
fn mut_slices(ctx: &Arc<Ctx>) {
    let fs: Vec<(&str, fn(&mut [u32], &[(usize, u64)], Out<u32>))> = each_ump!(mut_ump);
    let jobs: Vec<usize> = (0..fs.len()).collect();
    ctx.par("mutable-slices", &jobs, |j| fs[*j].0.to_string(), |j| {
        let s = UMP[*j].spec;
        let mut all: Vec<Vec<(usize, u64)>> = vec![vec![]];
        for (i, f) in s.fields.iter().enumerate().filter(|f| f.1.access) {
            for c in (f.corners)() {
                all.push(vec![(i, c)]);
            }
        }
        for k in 0..4usize {
            all.push(s.fields.iter().enumerate().filter(|f| f.1.access).map(|(i, f)| { let c = (f.corners)(); (i, c[(k * 7 + i) % c.len()]) }).collect());
        }
        for ops in all {
            for extra in [0usize, 1, 3] {
                for dirt in [0u32, 0x4091_4142, 0xFFFF_FFFF] {
                    let mut b = vec![dirt; s.units + extra];
                    let mut want = s.default_units::<u32>();
                    for (i, c) in &ops {
                        write_all(s, *i, *c, &mut want);
                    }
                    if s.text.is_some() && dirt == 0xFFFF_FFFF {
                        // content which looks like more packets of this message type
                        b.iter_mut().skip(s.units).for_each(|x| *x = 0x2093_4050);
                    }
                    if let Some(w) = ref_ump(&want) {
                        let u = b.clone();
                        judge(ctx, s.name, &u, s.units, &w, |o| (fs[*j].1)(&mut b, &ops, o));
                    }
                }
            }
        }
    });
}

// ---- C10 ------------------------------------------------------------------------

type Cv<'a, U> = &'a mut dyn FnMut(&str, Option<usize>, Result<Parsed<U>, ()>);
struct Conv {
    name: &'static str,
    u2b: fn(&[u32], Cv<u8>),
    b2u: fn(&[u8], Cv<u32>),
    /// there and back
    ub_u: fn(&[u32]) -> Parsed<u32>,
    bu_b: fn(&[u8]) -> Parsed<u8>,
}
macro_rules! conv {
    ($name:expr, $T:path, $x:ident => $r32:expr, $r8:expr, barr [$($BA:literal),*], uarr [$($UA:literal),*], btry [$($BT:literal),*], utry [$($UT:literal),*]) => {{
        use $T as T;
        Conv {
            name: $name,
            u2b: { fn f(u: &[u32], o: Cv<u8>) {
                macro_rules! rd { ($e:expr) => {{ let $x = &$e; $r8 }} }
                let p = || T::<&[u32]>::try_from(u).expect("rejected");
                { let b: T<Vec<u8>> = p().into_bytes(); o("slice>vec", None, Ok(rd!(b))); }
                { let v: T<Vec<u32>> = p().rebuffer_into(); let b: T<Vec<u8>> = v.into_bytes(); o("vec>vec", None, Ok(rd!(b))); }
                for fill in [0u32, 0xA5, 0xF7] { for shrink in [true, false] { settings(0, fill, shrink); let b: T<Grow<u8>> = p().into_bytes(); o("slice>grow", None, Ok(rd!(b))); } }
                for cap in caps(u.len() * 3 + 4) {
                    settings(cap, 0xA5, true);
                    { let b: Result<T<Fix<u8>>, _> = p().try_into_bytes(); o("slice>fix", Some(cap), b.map(|b| rd!(b)).map_err(|_| ())); }
                    { let b: Result<T<Bound<u8>>, _> = p().try_into_bytes(); o("slice>bound", Some(cap), b.map(|b| rd!(b)).map_err(|_| ())); }
                }
                $( { let b: Result<T<[u8; $BT]>, _> = p().try_into_bytes(); o(concat!("slice>try[", $BT, "]"), Some($BT), b.map(|b| rd!(b)).map_err(|_| ())); } )*
                $( { let b: T<[u8; $BA]> = p().into_bytes(); o(concat!("slice>array[", $BA, "]"), None, Ok(rd!(b))); } )*
            } f },
            b2u: { fn f(u: &[u8], o: Cv<u32>) {
                macro_rules! rd { ($e:expr) => {{ let $x = &$e; $r32 }} }
                let p = || T::<&[u8]>::try_from(u).expect("rejected");
                { let b: T<Vec<u32>> = p().into_ump(); o("slice>vec", None, Ok(rd!(b))); }
                { let v: T<Vec<u8>> = p().rebuffer_into(); let b: T<Vec<u32>> = v.into_ump(); o("vec>vec", None, Ok(rd!(b))); }
                for fill in [0u32, 0xA5A5_A5A5, 0x3016_4142] { for shrink in [true, false] { settings(0, fill, shrink); let b: T<Grow<u32>> = p().into_ump(); o("slice>grow", None, Ok(rd!(b))); } }
                for cap in caps(u.len() / 2 + 4) {
                    settings(cap, 0xA5A5_A5A5, true);
                    { let b: Result<T<Fix<u32>>, _> = p().try_into_ump(); o("slice>fix", Some(cap), b.map(|b| rd!(b)).map_err(|_| ())); }
                    { let b: Result<T<Bound<u32>>, _> = p().try_into_ump(); o("slice>bound", Some(cap), b.map(|b| rd!(b)).map_err(|_| ())); }
                }
                $( { let b: Result<T<[u32; $UT]>, _> = p().try_into_ump(); o(concat!("slice>try[", $UT, "]"), Some($UT), b.map(|b| rd!(b)).map_err(|_| ())); } )*
                $( { let b: T<[u32; $UA]> = p().into_ump(); o(concat!("slice>array[", $UA, "]"), None, Ok(rd!(b))); } )*
            } f },
            ub_u: { fn f(u: &[u32]) -> Parsed<u32> { let b: T<Vec<u8>> = T::<&[u32]>::try_from(u).expect("rejected").into_bytes(); let v: T<Vec<u32>> = b.into_ump(); let $x = &v; $r32 } f },
            bu_b: { fn f(u: &[u8]) -> Parsed<u8> { let b: T<Vec<u32>> = T::<&[u8]>::try_from(u).expect("rejected").into_ump(); let v: T<Vec<u8>> = b.into_bytes(); let $x = &v; $r8 } f },
        }
    }};
}
macro_rules! conv1 { ($(($m:ident $t:ident $n:literal [$($A:literal),*]))*) => { vec![ $( conv!(concat!(stringify!($m), "::", stringify!($t)), midi2::$m::$t, x => rd32(x), rd8(x), barr [$($A),*], uarr [1, 2, 4], btry [1, 2, 3, 4, 8], utry [1, 2, 4]), )* ] } }

/// what a table message looks like in the other form (group 0)
fn other_u2b(name: &str, u: &[u32]) -> Parsed<u8> {
    let a = UMP.iter().find(|v| v.spec.name == name).unwrap().spec;
    let b = BYTES.iter().find(|v| v.spec.name == name).unwrap().spec;
    let mut d = b.default_units::<u8>();
    for f in b.fields {
        let k = a.field(f.name).unwrap();
        f.write(&mut d, a.fields[k].read(u));
    }
    Parsed { name: b.name, reads: spec_reads(b, &d), data: d }
}
fn other_b2u(name: &str, u: &[u8]) -> Parsed<u32> {
    let a = UMP.iter().find(|v| v.spec.name == name).unwrap().spec;
    let b = BYTES.iter().find(|v| v.spec.name == name).unwrap().spec;
    let mut d = a.default_units::<u32>();
    for f in a.fields.iter().filter(|f| f.name != "group") {
        let k = b.field(f.name).unwrap();
        f.write(&mut d, b.fields[k].read(u));
    }
    Parsed { name: a.name, reads: spec_reads(a, &d), data: d }
}
fn check_u2b(ctx: &Ctx, c: &Conv, u: &[u32], want: &Parsed<u8>, back: &Parsed<u32>) {
    let mut n = 0;
    let r = catch(|| {
        (c.u2b)(u, &mut |label, cap, res| {
            n += 1;
            let fits = cap.map(|c| want.data.len() <= c).unwrap_or(true);
            if match &res { Ok(p) => !fits || p != want, Err(()) => fits } {
                ctx.violation(&format!("{}:ump>bytes:{label}", c.name), &format!("{} to bytes {label} (capacity {cap:?}) of {}: got {res:X?}, expected {}{want:X?}", c.name, hex32(u), if fits { "" } else { "an error, not " }));
            }
        });
        (c.ub_u)(u)
    });
    match r {
        Err(e) => ctx.violation(&format!("{}:ump>bytes:panic", c.name), &format!("{} to bytes of {}: {e}", c.name, hex32(u))),
        Ok(p) => if p != *back { ctx.violation(&format!("{}:ump>bytes>ump", c.name), &format!("{} ump>bytes>ump of {}: {p:X?}, expected {back:X?}", c.name, hex32(u))) },
    }
    ctx.bulk(1, n + 1, 1);
}
fn check_b2u(ctx: &Ctx, c: &Conv, u: &[u8], want: &Parsed<u32>, back: &Parsed<u8>) {
    let mut n = 0;
    let r = catch(|| {
        (c.b2u)(u, &mut |label, cap, res| {
            n += 1;
            let fits = cap.map(|c| want.data.len() <= c).unwrap_or(true);
            if match &res { Ok(p) => !fits || p != want, Err(()) => fits } {
                ctx.violation(&format!("{}:bytes>ump:{label}", c.name), &format!("{} to ump {label} (capacity {cap:?}) of {}: got {res:X?}, expected {}{want:X?}", c.name, hex8(u), if fits { "" } else { "an error, not " }));
            }
        });
        (c.bu_b)(u)
    });
    match r {
        Err(e) => ctx.violation(&format!("{}:bytes>ump:panic", c.name), &format!("{} to ump of {}: {e}", c.name, hex8(u))),
        Ok(p) => if p != *back { ctx.violation(&format!("{}:bytes>ump>bytes", c.name), &format!("{} bytes>ump>bytes of {}: {p:X?}, expected {back:X?}", c.name, hex8(u))) },
    }
    ctx.bulk(1, n + 1, 1);
}
fn c10(ctx: &Arc<Ctx>) {
    let cs: Vec<Conv> = each_bytes!(conv1);
    let acv1 = conv!("ChannelVoice1", midi2::channel_voice1::ChannelVoice1, x => on_cv1!(x, y => rd32(y)), on_cv1!(x, y => rd8(y)), barr [], uarr [], btry [1, 2, 3, 4], utry [1, 4]);
    let asc = conv!("SystemCommon", midi2::system_common::SystemCommon, x => on_sysc!(x, y => rd32(y)), on_sysc!(x, y => rd8(y)), barr [], uarr [], btry [1, 2, 3, 4], utry [1, 4]);
    let s7 = conv!("Sysex7", midi2::sysex7::Sysex7, x => rd32(x), rd8(&S7Bytes(x)), barr [], uarr [], btry [1, 2, 3, 4, 8, 9, 14, 15], utry [1, 2, 3, 4, 5, 6]);
    let deep = ctx.thorough();
    let vals: Vec<u32> = if deep { (0..=255).collect() } else { vec![0, 1, 2, 4, 8, 16, 32, 64, 0x7F, 0x7E, 0x55, 0x2A, 0x80, 0x81, 0xFF, 0xD5] };
    let chans: Vec<u32> = if deep { vec![0, 1, 2, 4, 8, 0xF, 0xA] } else { (0..16).collect() };
    let tails32: Vec<&[u32]> = vec![&[], &[0x2093_4050], &[0xFFFF_FFFF, 0x3016_0000], &[0x20C3_4050, 0, 0, 0]];
    let tails8: Vec<&[u8]> = vec![&[], &[0x93], &[0xFF, 0xFF, 0xF7], &[0x40, 0x41, 0x42, 0x43]];
    let jobs: Vec<(usize, u32)> = (0..cs.len()).flat_map(|i| chans.iter().map(move |c| (i, *c))).collect();
    ctx.par("fixed", &jobs, |j| cs[j.0].name.to_string(), |(i, ch)| {
        let (ub, by) = (UMP.iter().find(|v| v.spec.name == cs[*i].name).unwrap(), BYTES[*i]);
        let cv = ub.spec.fam == Fam::Cv1;
        if !cv && *ch != 0 && !deep {
            return;
        }
        let agg = if cv { &acv1 } else { &asc };
        for d1 in &vals {
            for d2 in &vals {
                let k = (d1 * 31 + d2) as usize;
                let t32 = if deep { &tails32[k % 4..k % 4 + 1] } else { &tails32[..] };
                let t8 = if deep { &tails8[k % 4..k % 4 + 1] } else { &tails8[..] };
                let grp = (d1 ^ d2) & 0xF;
                let mut u = vec![ub.spec.hdr.1 | grp << 24 | d1 << 8 | d2];
                let mut b = vec![by.spec.hdr.1 as u8, *d1 as u8, *d2 as u8];
                if cv {
                    u[0] |= ch << 16;
                    b[0] |= *ch as u8;
                }
                b.truncate(by.spec.units);
                let wb = other_u2b(cs[*i].name, &u);
                let wu = other_b2u(cs[*i].name, &b);
                let wbu = other_b2u(cs[*i].name, &wb.data);
                let wub = other_u2b(cs[*i].name, &wu.data);
                for t in t32 {
                    u.truncate(1);
                    u.extend_from_slice(t);
                    check_u2b(ctx, &cs[*i], &u, &wb, &wbu);
                    if deep || d1 % 5 == 0 { check_u2b(ctx, agg, &u, &wb, &wbu); }
                }
                for t in t8 {
                    b.truncate(by.spec.units);
                    b.extend_from_slice(t);
                    check_b2u(ctx, &cs[*i], &b, &wu, &wub);
                    if deep || d1 % 5 == 0 { check_b2u(ctx, agg, &b, &wu, &wub); }
                }
            }
        }
    });
    // every 16 bit pattern of the data octets in every group, plainly
    let jobs: Vec<(usize, u32)> = (0..cs.len()).flat_map(|i| (0..16).map(move |c| (i, c))).collect();
    ctx.par("all-words", &jobs, |j| format!("{} group {}", cs[j.0].name, j.1), |(i, grp)| {
        let ub = UMP.iter().find(|v| v.spec.name == cs[*i].name).unwrap();
        let chs: Vec<u32> = if ub.spec.fam == Fam::Cv1 { if deep { (0..16).collect() } else { vec![0, 9, 0xF] } } else { vec![0] };
        let mut n = 0;
        for ch in chs {
            for low in 0..0x1_0000u32 {
                let u = [ub.spec.hdr.1 | grp << 24 | ch << 16 | low];
                let wb = other_u2b(cs[*i].name, &u);
                let wu = other_b2u(cs[*i].name, &wb.data);
                if catch(|| (cs[*i].ub_u)(&u)) != Ok(wu.clone()) {
                    ctx.violation(&format!("{}:ump>bytes>ump", cs[*i].name), &format!("{} ump>bytes>ump of {}: expected {wu:X?}", cs[*i].name, hex32(&u)));
                }
                if catch(|| (cs[*i].bu_b)(&wb.data)) != Ok(wb.clone()) {
                    ctx.violation(&format!("{}:bytes>ump>bytes", cs[*i].name), &format!("{} bytes>ump>bytes of {} is not the identity", cs[*i].name, hex8(&wb.data)));
                }
                n += 1;
            }
        }
        ctx.bulk(n, 2 * n, n);
    });
    // sysex
    let sizes: Vec<usize> = (0..ctx.pick(40usize, 130)).collect();
    ctx.par("sysex7", &sizes, |n| format!("{n} bytes"), |n| {
        for (fi, fill) in [0x01u8, 0x7F, 0x00].into_iter().enumerate() {
            let pay: Vec<u8> = (0..*n).map(|k| if fi == 0 { (k % 127 + 1) as u8 } else { fill }).collect();
            let bytes: Vec<u8> = Kind::S7B.encode(0, 0, &pay).iter().map(|x| *x as u8).collect();
            let wb = ref_bytes(&bytes).unwrap();
            let wu = ref_ump(&Kind::S7U.encode(0, 0, &pay)).unwrap();
            for t in &tails8 {
                let mut b = bytes.clone();
                b.extend_from_slice(t);
                check_b2u(ctx, &s7, &b, &wu, &wb);
            }
            for g in [0u8, 5, 0xF] {
                let mut packings = vec![Kind::S7U.encode(g, 0, &pay)];
                for one in [1usize, 2, 3, 5] {
                    if *n > 0 {
                        let sz: Vec<usize> = (0..*n).step_by(one).map(|a| one.min(*n - a)).collect();
                        packings.push(Kind::S7U.encode_sizes(g, 0, &pay, &sz));
                        let mut z = vec![0];
                        z.extend(&sz);
                        z.push(0);
                        packings.push(Kind::S7U.encode_sizes(g, 0, &pay, &z));
                        let mut z = sz.clone();
                        z.insert(z.len() / 2, 0);
                        packings.push(Kind::S7U.encode_sizes(g, 0, &pay, &z));
                    }
                }
                for p in packings {
                    for t in &tails32 {
                        let mut u = p.clone();
                        u.extend(t.iter());
                        // dirty unused and top bits are not part of the payload
                        let mut v = u.clone();
                        for w in v.chunks_mut(2).take(p.len() / 2) {
                            let c = (w[0] >> 16 & 0xF) as usize;
                            for k in c..6 {
                                w[(k + 2) / 4] |= 0x6B << (24 - 8 * ((k + 2) % 4));
                            }
                            w[0] |= 0x8080;
                            w[1] |= 0x8080_8080;
                        }
                        check_u2b(ctx, &s7, &u, &wb, &wu);
                        check_u2b(ctx, &s7, &v, &wb, &wu);
                    }
                }
            }
        }
    });
    // very long ones
    let mut jobs: Vec<(usize, usize)> = vec![];
    for n in mc::long::bytes(ctx, true) {
        jobs.push((n, 6));
        if n < 5000 {
            jobs.push((n, 1));
            jobs.push((n, 5));
            jobs.push((n, 0));
        }
    }
    for p in mc::long::packets(ctx, true) {
        jobs.push((6 * p, 6));
        jobs.push((p, 1));
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.0 * (7 - j.1)));
    ctx.par("sysex7-long", &jobs, |j| format!("{j:?}"), |&(n, one)| {
        let pay: Vec<u8> = (0..n).map(|i| (i / 5 + i) as u8 & 0x7F).collect();
        let bytes: Vec<u8> = Kind::S7B.encode(0, 0, &pay).iter().map(|x| *x as u8).collect();
        let wb = ref_bytes(&bytes).unwrap();
        let wu = ref_ump(&Kind::S7U.encode(0, 0, &pay)).unwrap();
        let big = n > 5000;
        if one == 6 {
            NEED.set(wu.data.len());
            for t in if big { &tails8[3..] } else { &tails8[..] } {
                let mut b = bytes.clone();
                b.extend_from_slice(t);
                check_b2u(ctx, &s7, &b, &wu, &wb);
            }
        }
        // 0: mixed sizes
        let mut sz: Vec<usize> = vec![];
        let mut left = n;
        while left > 0 {
            let k = if one == 0 { [6, 0, 3, 6, 6, 1][sz.len() % 6] } else { one }.min(left);
            sz.push(k);
            left -= k;
        }
        let p = Kind::S7U.encode_sizes(9, 0, &pay, &sz);
        NEED.set(wb.data.len());
        for t in if big { &tails32[1..2] } else { &tails32[..] } {
            let mut u = p.clone();
            u.extend(t.iter());
            check_u2b(ctx, &s7, &u, &wb, &wu);
        }
    });
    // all packetisations of short payloads
    let depth = ctx.pick(4, 5);
    let firsts: Vec<usize> = (0..=6).collect();
    ctx.par("sysex7-packets", &firsts, |n| format!("{n}"), |f0| {
        fn rec(sizes: &mut Vec<usize>, d: usize, ctx: &Ctx, s7: &Conv) {
            let n: usize = sizes.iter().sum();
            let pay: Vec<u8> = (0..n).map(|k| (k * 3 + 1) as u8 & 0x7F).collect();
            let u = Kind::S7U.encode_sizes(7, 0, &pay, sizes);
            let bytes: Vec<u8> = Kind::S7B.encode(0, 0, &pay).iter().map(|x| *x as u8).collect();
            check_u2b(ctx, s7, &u, &ref_bytes(&bytes).unwrap(), &ref_ump(&Kind::S7U.encode(0, 0, &pay)).unwrap());
            if d > 0 {
                for s in 0..=6 {
                    sizes.push(s);
                    rec(sizes, d - 1, ctx, s7);
                    sizes.pop();
                }
            }
        }
        rec(&mut vec![*f0], depth - 1, ctx, &s7);
    });
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&prop);
    match prop.as_str() {
        "C10" => {
            ctx.note("expected encodings derived from the UMP and byte tables in spec.rs and the sysex encoder in sx.rs");
            c10(&ctx)
        }
        "C11" => c11(&ctx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(4);
        }
    }
    ctx.finish()
}
