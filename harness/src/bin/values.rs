//! C21 messages are values: clones are independent, equality means the same message, Debug shows the data.
//!
//! States are real messages (parsed into vectors, user buffers, arrays, slices; concrete, family, top level aggregates
//! and packets). Every pair of states of a systematic set is compared; every write and edit is done on a clone and on
//! the original, and the other one observed.
use mc::bg::*;
use mc::buf::*;
use mc::spec::*;
use mc::sx::Kind;
use mc::*;
use midi2::prelude::*;
use midi2::ux::{u4, u7};
use std::cell::Cell;
use std::fmt::Debug;
use std::sync::Arc;

type Say<'a> = &'a mut dyn FnMut(&str, bool, String);

/// messages of this type: every background, each field at each corner, pairs of fields (thorough)
fn messages<U: Un>(s: &Spec, deep: bool) -> Vec<Vec<U>> {
    let bgs = backgrounds::<U>(s, 6);
    let mut out = bgs.clone();
    if s.text.is_none() {
        out.push(s.default_units());
    }
    for b in bgs.iter().take(if deep { 6 } else { 2 }) {
        for (i, f) in s.fields.iter().enumerate() {
            for c in (f.corners)() {
                let mut m = b.clone();
                write_all(s, i, c, &mut m);
                if accepts(s, &m) == Some(m.len()) {
                    out.push(m.clone());
                }
                if deep {
                    for (j, g) in s.fields.iter().enumerate().skip(i + 1) {
                        for d in (g.corners)() {
                            let mut n = m.clone();
                            write_all(s, j, d, &mut n);
                            if accepts(s, &n) == Some(n.len()) {
                                out.push(n);
                            }
                        }
                    }
                }
            }
        }
    }
    // a bit which no field owns, and one of the last unit
    for b in bgs.iter().take(2) {
        for k in [0, b.len() - 1] {
            for bit in 0..std::mem::size_of::<U>() * 8 {
                let mut m = b.clone();
                m[k] = U::from32(m[k].to32() ^ 1 << bit);
                if accepts(s, &m) == Some(m.len()) {
                    out.push(m);
                }
            }
        }
    }
    out.sort_by_key(|v| v.iter().map(|x| x.to32()).collect::<Vec<_>>());
    out.dedup();
    out
}
fn debug_of<U: Un>(name: &str, d: &[U]) -> String {
    let w = if std::mem::size_of::<U>() == 1 { 2 } else { 8 };
    let l: Vec<String> = d.iter().map(|x| format!("0x{:0w$X}", x.to32())).collect();
    format!("{name}([{}])", l.join(", "))
}
/// the hexadecimal numbers of a text, in order
fn numbers(t: &str) -> Vec<u32> {
    t.split("0x").skip(1).filter_map(|p| u32::from_str_radix(&p.chars().take_while(|c| c.is_ascii_hexdigit()).collect::<String>(), 16).ok()).collect()
}

/// all pairs of a list
fn pairs<M: PartialEq>(ms: &[M], same: impl Fn(usize, usize) -> bool, show: impl Fn(usize) -> String, label: &str, say: Say) {
    for i in 0..ms.len() {
        for j in 0..ms.len() {
            let (eq, ne) = (ms[i] == ms[j], ms[i] != ms[j]);
            if eq == ne || eq != same(i, j) {
                say(label, false, format!("{} == {} is {eq}, != is {ne}", show(i), show(j)));
            }
        }
    }
    say(label, true, String::new());
}
/// a write on one of two copies
fn isolate<U: Un, M: Clone + PartialEq + Debug>(m: &M, dat: impl Fn(&M) -> Vec<U>, write: impl Fn(&mut M), label: &str, what: &dyn Fn() -> String, say: Say) {
    let d = dat(m);
    let mut a = m.clone();
    let b = a.clone();
    say(label, a == b && dat(&a) == d && dat(&b) == d, format!("{}: clone is {b:?} instead of {a:?}", what()));
    write(&mut a);
    let da = dat(&a);
    say(label, dat(&b) == d && dat(m) == d, format!("{}: a write changed the clone: {b:?}", what()));
    say(label, (a == b) == (da == d), format!("{}: {a:?} == {b:?} is {}", what(), a == b));
    // the original keeps its value when the clone is written; assigning brings the value back
    let mut c = b.clone();
    write(&mut c);
    say(label, dat(&c) == da && c == a && dat(&b) == d, format!("{}: the same write on a clone gives {c:?} instead of {a:?}", what()));
    a.clone_from(&b);
    say(label, a == b && dat(&a) == d, format!("{}: clone_from gives {a:?} instead of {b:?}", what()));
}

macro_rules! over {
    ($U:ty, $T:path, $name:expr, $mod_spec:expr, $deep:expr, $say:expr, $($N:literal)*) => {{
        use $T as T;
        let (s, deep): (&'static Spec, bool) = ($mod_spec, $deep);
        let say: Say = $say;
        let us = messages::<$U>(s, deep);
        let hex = |i: usize| show(&us[i]);
        // borrowed
        let ms: Vec<_> = us.iter().map(|u| T::try_from(&u[..]).expect("rejected")).collect();
        pairs(&ms, |i, j| us[i] == us[j], hex, "equality of borrowed messages", say);
        for (u, m) in us.iter().zip(&ms) {
            let (want, got) = (debug_of($name, u), format!("{m:?}"));
            say("Debug", got == want, format!("{got} instead of {want}"));
        }
        // in vectors and growing buffers
        let ms: Vec<T<Vec<$U>>> = us.iter().map(|u| T::try_from(&u[..]).unwrap().rebuffer_into()).collect();
        pairs(&ms, |i, j| us[i] == us[j], hex, "equality of messages in vectors", say);
        for (u, m) in us.iter().zip(&ms) {
            let (want, got) = (debug_of($name, u), format!("{m:?}"));
            say("Debug in vectors", got == want, format!("{got} instead of {want}"));
        }
        settings(0, 0xA5A5_A5A5, true);
        let gs: Vec<T<Grow<$U>>> = us.iter().map(|u| T::try_from(&u[..]).unwrap().rebuffer_into()).collect();
        pairs(&gs, |i, j| us[i] == us[j], hex, "equality of messages in user buffers", say);
        for (k, m) in ms.iter().enumerate() {
            for (i, f) in s.fields.iter().enumerate().filter(|f| f.1.access) {
                for c in (f.corners)() {
                    let what = || format!("{} {} := {c:#X}", hex(k), f.name);
                    isolate(m, |m| m.units(), |m| m.set(i, c), "write to one of two copies in vectors", &what, say);
                    isolate(&gs[k], |m| m.units(), |m| m.set(i, c), "write to one of two copies in user buffers", &what, say);
                    $( if us[k].len() <= $N {
                        let a: T<[$U; $N]> = T::try_from(&us[k][..]).unwrap().try_rebuffer_into().expect("does not fit");
                        isolate(&a, |m| m.units(), |m| m.set(i, c), "write to one of two copies in arrays", &what, say);
                        // arrays are copied by value
                        let mut b = a;
                        b.set(i, c);
                        say("write to a copied array", a.units() == us[k], what());
                    } )*
                }
            }
        }
        us.len() as u64
    }};
}
type Run = fn(bool, Say) -> u64;
macro_rules! ump_runs { ($( ($m:ident $t:ident $n:tt $l:tt) )*) => { vec![ $( (concat!(stringify!($m), "::", stringify!($t)), {
    fn run(deep: bool, say: Say) -> u64 {
        let s = UMP.iter().find(|v| v.spec.name == concat!(stringify!($m), "::", stringify!($t))).unwrap().spec;
        over!(u32, midi2::$m::$t, stringify!($t), s, deep, say, 4 12)
    }
    run as Run }) ),* ] } }
macro_rules! byte_runs { ($( ($m:ident $t:ident $n:tt $l:tt) )*) => { vec![ $( (concat!(stringify!($m), "::", stringify!($t)), {
    fn run(deep: bool, say: Say) -> u64 {
        let s = BYTES.iter().find(|v| v.spec.name == concat!(stringify!($m), "::", stringify!($t))).unwrap().spec;
        over!(u8, midi2::$m::$t, stringify!($t), s, deep, say, 3 8)
    }
    run as Run }) ),* ] } }

/// payload, group, stream id and a packetisation
fn sysexes(k: Kind, deep: bool) -> Vec<Vec<u32>> {
    let per = k.per();
    let mut out = vec![];
    let groups: &[u8] = if k.has_group() { &[0, 9] } else { &[0] };
    let streams: &[u8] = if k.has_stream() { &[0, 0x7F] } else { &[0] };
    let max = if deep { 3 * per + 2 } else { 2 * per + 2 };
    for g in groups {
        for st in streams {
            for n in 0..=max {
                for b in [0u8, 1] {
                    let mut p = vec![0x11 * b; n];
                    out.push(k.encode(*g, *st, &p));
                    if n > 0 {
                        p[n - 1] ^= 1;
                        out.push(k.encode(*g, *st, &p));
                        p[0] ^= 2;
                        out.push(k.encode(*g, *st, &p));
                        if n < per {
                            // the same payload in two packets, in different ways
                            for x in 0..=n {
                                out.push(k.encode_sizes(*g, *st, &p, &[x, n - x]));
                            }
                        }
                    }
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
macro_rules! sysex_over {
    ($U:ty, $T:path, $name:expr, $us:expr, $len:expr, $v:expr, $say:expr, $($hdr:tt)*) => {{
        use $T as T;
        let us: &Vec<Vec<$U>> = $us;
        let say: Say = $say;
        let hex = |i: usize| show(&us[i]);
        let ms: Vec<_> = us.iter().map(|u| T::try_from(&u[..]).expect("rejected")).collect();
        pairs(&ms, |i, j| us[i] == us[j], hex, "equality of borrowed messages", say);
        let vs: Vec<T<Vec<$U>>> = us.iter().map(|u| T::try_from(&u[..]).unwrap().rebuffer_into()).collect();
        pairs(&vs, |i, j| us[i] == us[j], hex, "equality of messages in vectors", say);
        let val = $v;
        for (k, u) in us.iter().enumerate() {
            let want = debug_of($name, u);
            for got in [format!("{:?}", ms[k]), format!("{:?}", vs[k])] {
                say("Debug", got == want, format!("{got} instead of {want}"));
            }
            let what = || show(u);
            let n = vs[k].payload_size();
            for m in 0..=$len {
                isolate(&vs[k], |m| m.data().to_vec(), |x| x.set_payload((0..m).map(|i| val(i as u8 + 1))), "set_payload on one of two copies", &what, say);
                isolate(&vs[k], |m| m.data().to_vec(), |x| x.append_payload((0..m).map(|i| val(i as u8 + 1))), "append_payload on one of two copies", &what, say);
                let r: Result<T<[$U; 48]>, _> = T::try_from(&u[..]).unwrap().try_rebuffer_into();
                if let Ok(a) = r {
                    isolate(&a, |m| m.data().to_vec(), |x| { let _ = x.try_append_payload((0..m).map(|i| val(i as u8 + 1))); }, "try_append_payload on one of two arrays", &what, say);
                }
            }
            for i in 0..n {
                isolate(&vs[k], |m| m.data().to_vec(), |x| x.set_byte(val(0x55), i), "set_byte on one of two copies", &what, say);
                isolate(&vs[k], |m| m.data().to_vec(), |x| x.splice_payload(core::iter::empty(), i..n), "splice on one of two copies", &what, say);
            }
            sysex_header!($($hdr)*, vs[k], what, say);
        }
        // histories on one copy: every prefix's copy keeps its value
        for (a, u) in us.iter().enumerate().filter(|(_, u)| u.len() <= 8) {
            let mut m = vs[a].clone();
            let mut kept = vec![(m.clone(), u.clone())];
            for step in 0..6usize {
                match step {
                    0 => m.append_payload((0..9).map(|i| val(i))),
                    1 => { let n = m.payload_size(); m.set_byte(val(3), n - 1) }
                    2 => m.insert_payload((0..7).map(|i| val(i)), 2),
                    3 => { let n = m.payload_size(); m.splice_payload((0..2).map(|i| val(i)), 1..n - 1) }
                    4 => m.set_payload((0..1).map(|i| val(i))),
                    _ => m.set_payload(core::iter::empty()),
                }
                let d = m.data().to_vec();
                kept.push((m.clone(), d));
                for (c, d) in &kept {
                    say("kept copies", c.data() == &d[..], format!("{}: copy is {c:?}, was {}", show(u), show(d)));
                }
            }
            for i in 0..kept.len() {
                for j in 0..kept.len() {
                    say("kept copies compare", (kept[i].0 == kept[j].0) == (kept[i].1 == kept[j].1), format!("{:?} {:?}", kept[i], kept[j]));
                }
            }
        }
        us.len() as u64
    }};
}
macro_rules! sysex_header {
    (none, $m:expr, $what:expr, $say:expr) => {};
    (group, $m:expr, $what:expr, $say:expr) => { for g in 0..16u8 { isolate(&$m, |m| m.data().to_vec(), |x| x.set_group(u4::new(g)), "set_group on one of two copies", &$what, $say); } };
    (stream, $m:expr, $what:expr, $say:expr) => {
        sysex_header!(group, $m, $what, $say);
        for g in 0..=255u8 { isolate(&$m, |m| m.data().to_vec(), |x| x.set_stream_id(g), "set_stream_id on one of two copies", &$what, $say); }
    };
}

macro_rules! text_runs { ($( ($m:ident $t:ident) )*) => { vec![ $( (concat!(stringify!($m), "::", stringify!($t)), {
    fn run(deep: bool, say: Say) -> u64 {
        use midi2::$m::$t as T;
        let mut ms: Vec<T<Vec<u32>>> = vec![];
        for n in 0..=if deep { 40usize } else { 29 } {
            for c in ["a", "b"] {
                let mut m = T::<Vec<u32>>::new();
                TxtSet::put(&mut m, &c.repeat(n));
                ms.push(m.clone());
                TxtSet::put(&mut m, &("é".to_string() + &c.repeat(n)));
                ms.push(m);
            }
        }
        let ds: Vec<Vec<u32>> = ms.iter().map(|m| m.data().to_vec()).collect();
        pairs(&ms, |i, j| ds[i] == ds[j], |i| hex32(&ds[i]), "equality of texts", say);
        for (m, d) in ms.iter().zip(&ds) {
            let (want, got) = (debug_of(stringify!($t), d), format!("{m:?}"));
            say("Debug", got == want, format!("{got} instead of {want}"));
            let what = || hex32(d);
            for n in [0usize, 1, 11, 12, 13, 14, 15, 24, 25, 60] {
                isolate(m, |m| m.data().to_vec(), |x| TxtSet::put(x, &"z".repeat(n)), "text written to one of two copies", &what, say);
                let r: Result<T<[u32; 48]>, _> = T::try_from(&d[..]).unwrap().try_rebuffer_into();
                isolate(&r.expect("does not fit"), |m| m.data().to_vec(), |x| { let _ = TxtTrySet::try_put(x, &"z".repeat(n)); }, "text written to one of two arrays", &what, say);
            }
        }
        ms.len() as u64
    }
    run as Run }) ),* ] } }

fn sayer<'a>(ctx: &'a Ctx, key: &'a str, n: &'a Cell<u64>) -> impl FnMut(&str, bool, String) + 'a {
    move |label, ok, detail| {
        n.set(n.get() + 1);
        if !ok {
            ctx.violation(&format!("{key}:{label}"), &format!("{key} {label}: {detail}"));
        }
    }
}
fn run(ctx: &Arc<Ctx>, part: &str, runs: Vec<(&'static str, Run)>) {
    ctx.par(part, &runs, |r| r.0.to_string(), |(name, f)| {
        let n = Cell::new(0);
        let r = catch(|| f(ctx.thorough(), &mut sayer(ctx, name, &n)));
        match r {
            Err(e) => ctx.violation(&format!("{name}:panic"), &format!("{name}: {e}")),
            Ok(k) => ctx.bulk(k, k * k + n.get(), n.get()),
        }
        ctx.sample(|| format!("{part}: {name}, {} comparisons", n.get()));
    });
}

fn c21(ctx: &Arc<Ctx>) {
    let th = ctx.thorough();
    run(ctx, "table messages", each_ump!(ump_runs));
    run(ctx, "byte messages", each_bytes!(byte_runs));
    run(ctx, "texts", each_text!(text_runs));
    let b7 = |i: u8| u7::new(i & 0x7F);
    let jobs = ["sysex7 ump", "sysex7 bytes", "sysex8 ump", "ci"];
    ctx.par("sysex and CI", &jobs, |j| j.to_string(), |j| {
        let n = Cell::new(0);
        let r = catch(|| {
            let mut s = sayer(ctx, j, &n);
            let say: Say = &mut s;
            match *j {
                "sysex7 ump" => sysex_over!(u32, midi2::sysex7::Sysex7, "Sysex7", &sysexes(Kind::S7U, th), 8, b7, say, group),
                "sysex7 bytes" => {
                    let us: Vec<Vec<u8>> = sysexes(Kind::S7B, th).iter().map(|v| v.iter().map(|x| *x as u8).collect()).collect();
                    sysex_over!(u8, midi2::sysex7::Sysex7, "Sysex7", &us, 8, b7, say, none)
                }
                "sysex8 ump" => sysex_over!(u32, midi2::sysex8::Sysex8, "Sysex8", &sysexes(Kind::S8, th), 15, |i: u8| i, say, stream),
                _ => ci(say),
            }
        });
        match r {
            Err(e) => ctx.violation(&format!("{j}:panic"), &format!("{j}: {e}")),
            Ok(k) => ctx.bulk(k, k * k + n.get(), n.get()),
        }
    });
    aggregates(ctx);
    long_messages(ctx);
}

fn ci(say: Say) -> u64 {
    use midi2::ci::DiscoveryQuery as Q;
    let mut d = vec![0u8; 32];
    d[..6].copy_from_slice(&[0xF0, 0x7E, 0x7F, 0x0D, 0x70, 2]);
    d[10..14].fill(0x7F);
    d[31] = 0xF7;
    let mut us = vec![d.clone()];
    for at in (6..10).chain(14..31) {
        for v in [1u8, 0x40, 0x7F] {
            let mut u = d.clone();
            u[at] = v;
            us.push(u);
        }
    }
    us.sort();
    us.dedup();
    let hex = |i: usize| hex8(&us[i]);
    let ms: Vec<_> = us.iter().map(|u| Q::<2, _>::try_from(&u[..]).expect("rejected")).collect();
    pairs(&ms, |i, j| us[i] == us[j], hex, "equality of borrowed messages", say);
    for (m, u) in ms.iter().zip(&us) {
        let got = format!("{m:?}");
        say("Debug", got.contains("DiscoveryQuery") && numbers(&got) == u.iter().map(|b| *b as u32).collect::<Vec<_>>(), format!("{got} for {}", hex8(u)));
        let mut a = m.clone();
        say("clone", &a == m && a.data() == &u[..], format!("{a:?}"));
        a.clone_from(&ms[0]);
        say("clone_from", a == ms[0] && m.data() == &u[..], format!("{a:?}"));
    }
    let mut v = Q::<2, Vec<u8>>::new();
    for x in 0..128u32 {
        let keep = v.clone();
        let d = v.data().to_vec();
        v.set_source(midi2::ux::u28::new(x << 21 | x));
        v.set_output_path_id(u7::new(x as u8));
        say("write to one of two copies", keep.data() == &d[..], format!("{keep:?}, was {}", hex8(&d)));
        say("equality after a write", (keep == v) == (keep.data() == v.data()), format!("{keep:?} {v:?}"));
    }
    us.len() as u64
}

/// long messages which differ in one place, or in their length
fn long_messages(ctx: &Arc<Ctx>) {
    let kinds = ["sysex7 ump", "sysex7 bytes", "sysex8 ump", "text"];
    let mut jobs: Vec<(usize, usize)> = vec![];
    for k in 0..kinds.len() {
        let l = if k == 1 { long::bytes(ctx, true) } else { long::packets(ctx, true) };
        jobs.extend(l.into_iter().map(|n| (k, n)));
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.1));
    ctx.par("long messages", &jobs, |(k, n)| format!("{} of {n}", kinds[*k]), |(k, n)| {
        let c = Cell::new(0);
        let r = catch(|| {
            let name = format!("long {}", kinds[*k]);
            let mut s = sayer(ctx, &name, &c);
            let say: Say = &mut s;
            macro_rules! all { ($U:ty, $T:path, $A:path, $name:expr, $us:expr) => {{
                use $A as A;
                use $T as T;
                let us: Vec<Vec<$U>> = $us;
                let what = |i: usize| format!("message {i} of {} units", us[i].len());
                let ms: Vec<_> = us.iter().map(|u| T::try_from(&u[..]).expect("rejected")).collect();
                pairs(&ms, |i, j| us[i] == us[j], what, "equality of borrowed messages", say);
                let vs: Vec<T<Vec<$U>>> = ms.iter().map(|m| m.clone().rebuffer_into()).collect();
                pairs(&vs, |i, j| us[i] == us[j], what, "equality of messages in vectors", say);
                let ag: Vec<_> = us.iter().map(|u| A::try_from(&u[..]).expect("rejected")).collect();
                pairs(&ag, |i, j| us[i] == us[j], what, "equality of aggregates", say);
                for i in 0..us.len() {
                    let c = vs[i].clone();
                    say("clone", c == vs[i] && c.data() == &us[i][..] && c.data().as_ptr() != vs[i].data().as_ptr(), what(i));
                    let mut c = vs[0].clone();
                    c.clone_from(&vs[i]);
                    say("clone_from", c == vs[i] && c.data() == &us[i][..], what(i));
                    let r: Result<T<[$U; 1024]>, _> = ms[i].clone().try_rebuffer_into();
                    if let Ok(a) = r {
                        let b = a;
                        say("copy", a == b && b.data() == &us[i][..], what(i));
                    }
                    if i < 3 {
                        let want = debug_of($name, &us[i]);
                        say("Debug", format!("{:?}", ms[i]) == want && format!("{:?}", vs[i]) == want, what(i));
                        say("Debug of the aggregate", format!("{:?}", ag[i]).contains(&want), what(i));
                    }
                }
            }} }
            if *k == 3 {
                let mut us = vec![];
                let spots = long::spots(12 * n);
                for at in spots.into_iter().map(Some).chain([None]) {
                    let mut t = vec![b'm'; 12 * n - 1];
                    if let Some(at) = at.filter(|at| *at < t.len()) {
                        t[at] = b'n';
                    }
                    us.push(pack_text(TextKind::Flex, 0xD010_0201, &t));
                }
                us.push(pack_text(TextKind::Flex, 0xD010_0201, &vec![b'm'; 12 * n - 2]));
                us.push(pack_text(TextKind::Flex, 0xD010_0201, &vec![b'm'; 12 * n]));
                all!(u32, midi2::flex_data::Lyrics, midi2::UmpMessage, "Lyrics", us);
            } else {
                let kind = [Kind::S7U, Kind::S7B, Kind::S8][*k];
                let len = n * if *k == 1 { 1 } else { kind.per() };
                let mut ps = vec![];
                for at in long::spots(len).into_iter().map(Some).chain([None]) {
                    let mut p: Vec<u8> = (0..len).map(|i| (i * 7 % 127) as u8).collect();
                    if let Some(at) = at.filter(|at| *at < len) {
                        p[at] ^= 1;
                    }
                    ps.push(p);
                }
                ps.push((0..len - 1).map(|i| (i * 7 % 127) as u8).collect());
                let us: Vec<Vec<u32>> = ps.iter().map(|p| kind.encode(0, 0, p)).collect();
                match *k {
                    0 => all!(u32, midi2::sysex7::Sysex7, midi2::UmpMessage, "Sysex7", us),
                    1 => all!(u8, midi2::sysex7::Sysex7, midi2::BytesMessage, "Sysex7", us.iter().map(|v| v.iter().map(|x| *x as u8).collect()).collect()),
                    _ => all!(u32, midi2::sysex8::Sysex8, midi2::UmpMessage, "Sysex8", us),
                }
            }
        });
        if let Err(e) = r {
            ctx.violation(&format!("long {}:panic", kinds[*k]), &format!("{n}: {e}"));
        }
        ctx.bulk(1, c.get(), c.get());
    });
}

/// aggregates and packets of all families against each other
fn aggregates(ctx: &Arc<Ctx>) {
    let th = ctx.thorough();
    let mut us: Vec<Vec<u32>> = vec![];
    for vt in UMP.iter() {
        us.extend(messages::<u32>(vt.spec, false).into_iter().step_by(if th { 1 } else { 3 }));
    }
    for k in [Kind::S7U, Kind::S8] {
        us.extend(sysexes(k, false).into_iter().step_by(if th { 2 } else { 7 }));
    }
    us.sort();
    us.dedup();
    let mut bs: Vec<Vec<u8>> = vec![];
    for vt in BYTES.iter() {
        bs.extend(messages::<u8>(vt.spec, false));
    }
    bs.extend(sysexes(Kind::S7B, false).iter().map(|v| v.iter().map(|x| *x as u8).collect::<Vec<u8>>()));
    bs.sort();
    bs.dedup();
    let jobs: Vec<(u8, usize, usize)> = (0..us.len()).step_by(64).map(|i| (0, i, (i + 64).min(us.len()))).chain((0..bs.len()).step_by(64).map(|i| (1, i, (i + 64).min(bs.len())))).collect();
    ctx.par("aggregates and packets", &jobs, |j| format!("{j:?}"), |(k, from, to)| {
        let n = Cell::new(0);
        let r = catch(|| {
            let mut s = sayer(ctx, "aggregate", &n);
            let say: Say = &mut s;
            macro_rules! all { ($U:ty, $us:expr, $A:path) => {{
                use $A as A;
                let ms: Vec<_> = $us.iter().map(|u| A::try_from(&u[..]).expect("rejected")).collect();
                let vs: Vec<A<Vec<$U>>> = $us.iter().map(|u| A::try_from(&u[..]).unwrap().rebuffer_into()).collect();
                for i in *from..*to {
                    for j in 0..ms.len() {
                        let (a, b) = (ms[i] == ms[j], vs[i] == vs[j]);
                        say("equality", a == (i == j) && b == a && (ms[i] != ms[j]) != a && (vs[i] != vs[j]) != b, format!("{:?} and {:?} compare {a} / {b}", ms[i], ms[j]));
                    }
                    let want: Vec<u32> = $us[i].iter().map(|x| x.to32()).collect();
                    for t in [format!("{:?}", ms[i]), format!("{:?}", vs[i])] {
                        say("Debug", numbers(&t) == want, format!("{t} for {}", show(&$us[i])));
                    }
                    let mut c = vs[i].clone();
                    say("clone", c == vs[i] && c.data() == &$us[i][..], format!("{c:?}"));
                    c = vs[0].clone();
                    say("clone", c == vs[0] && vs[i].data() == &$us[i][..], format!("{c:?}"));
                }
            }} }
            if *k == 0 {
                all!(u32, us, midi2::UmpMessage);
                // packets: equal exactly if their words are
                let ps: Vec<_> = us.iter().flat_map(|u| UmpMessage::try_from(&u[..]).unwrap().packets().map(|p| (p.to_vec(), p)).collect::<Vec<_>>()).collect();
                let (f, t) = (*from * ps.len() / us.len(), *to * ps.len() / us.len());
                for i in f..t {
                    for j in (0..ps.len()).step_by(if th { 1 } else { 5 }).chain([i]) {
                        let eq = ps[i].1 == ps[j].1;
                        say("packet equality", eq == (ps[i].0 == ps[j].0) && (ps[i].1 != ps[j].1) != eq, format!("{:?} == {:?} is {eq}", ps[i].1, ps[j].1));
                    }
                    let c = ps[i].1.clone();
                    say("packet clone", c == ps[i].1 && *c == ps[i].0[..], format!("{c:?}"));
                    let t = numbers(&format!("{c:?}"));
                    say("packet Debug", t.len() >= ps[i].0.len() && t[..ps[i].0.len()] == ps[i].0[..], format!("{c:?} for {}", hex32(&ps[i].0)));
                }
            } else {
                all!(u8, bs, midi2::BytesMessage);
            }
        });
        if let Err(e) = r {
            ctx.violation("aggregate:panic", &e);
        }
        ctx.bulk((to - from) as u64, n.get(), n.get());
    });
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&prop);
    match prop.as_str() {
        "C21" => c21(&ctx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(4);
        }
    }
    ctx.finish()
}
