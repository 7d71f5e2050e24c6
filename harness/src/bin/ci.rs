//! C17 MIDI-CI discovery queries.
//!
//! The reference is the table `FIELDS` (MIDI-CI 1.1 / 1.2, Discovery message) and the acceptor `ok`. Everything is
//! explored on the real messages: every write from every background, every write history to a depth, every input of a
//! systematic family, every constructor on every buffer.
use mc::buf::*;
use mc::*;
use midi2::buffer::*;
use midi2::ci::{Ci, DeviceId, DiscoveryQuery};
use midi2::prelude::*;
use std::collections::HashSet;
use std::fmt::Debug;
use std::sync::Arc;

/// name, first byte, number of septets (least significant first) or 0, mask for flags
const FIELDS: [(&str, usize, usize, u8); 11] = [
    ("source", 6, 4, 0),
    ("device_manufacturer", 14, 3, 0),
    ("device_family", 17, 2, 0),
    ("model_number", 19, 2, 0),
    ("software_version", 21, 4, 0),
    ("process_inquiry_supported", 25, 0, 0x10),
    ("property_exchange_supported", 25, 0, 0x08),
    ("profile_configuration_supported", 25, 0, 0x04),
    ("protocol_negotiation_supported", 25, 0, 0x02),
    ("max_sysex_size", 26, 4, 0),
    ("output_path_id", 30, 1, 0),
];
fn nf(v: u8) -> usize {
    if v == 1 { 10 } else { 11 }
}
fn min(v: u8) -> usize {
    if v == 1 { 31 } else { 32 }
}
fn max_of(i: usize) -> u64 {
    if FIELDS[i].2 == 0 { 1 } else { (1 << (7 * FIELDS[i].2)) - 1 }
}
fn put(d: &mut [u8], i: usize, x: u64) {
    let (_, at, n, m) = FIELDS[i];
    if n == 0 {
        d[at] = d[at] & !m | if x != 0 { m } else { 0 };
    }
    for k in 0..n {
        d[at + k] = (x >> (7 * k)) as u8 & 0x7F;
    }
}
fn take(d: &[u8], i: usize) -> u64 {
    let (_, at, n, m) = FIELDS[i];
    if n == 0 {
        return (d[at] & m != 0) as u64;
    }
    (0..n).map(|k| ((d[at + k] & 0x7F) as u64) << (7 * k)).sum()
}
fn default(v: u8) -> Vec<u8> {
    let mut d = vec![0u8; min(v)];
    d[..6].copy_from_slice(&[0xF0, 0x7E, 0x7F, 0x0D, 0x70, v]);
    d[10..14].fill(0x7F);
    *d.last_mut().unwrap() = 0xF7;
    d
}
/// the length of the query at the start of these bytes, if there is one
fn ok(v: u8, b: &[u8]) -> Option<usize> {
    if !(1..=2).contains(&v) || b.first() != Some(&0xF0) {
        return None;
    }
    let e = 1 + b[1..].iter().position(|x| *x >= 0x80)?;
    (b[e] == 0xF7 && e + 1 >= min(v) && b[1..6] == [0x7E, 0x7F, 0x0D, 0x70, v] && b[10..14] == [0x7F; 4]).then_some(e + 1)
}

trait Q {
    fn dat(&self) -> Vec<u8>;
    fn pay(&self) -> (Vec<u8>, usize);
    fn get(&self, i: usize) -> u64;
    fn ci(&self) -> (DeviceId, u64, u64);
}
trait QM: Q {
    fn set(&mut self, i: usize, x: u64);
}
fn u7s<const N: usize>(x: u64) -> [ux::u7; N] {
    core::array::from_fn(|k| ux::u7::new((x >> (7 * k)) as u8 & 0x7F))
}
fn un<const N: usize>(a: [ux::u7; N]) -> u64 {
    a.iter().enumerate().map(|(k, b)| (u8::from(*b) as u64) << (7 * k)).sum()
}
macro_rules! common_get {
    ($s:ident, $i:expr, $v10:expr) => {
        match $i {
            0 => u32::from($s.source()) as u64,
            1 => un($s.device_manufacturer()),
            2 => u16::from($s.device_family()) as u64,
            3 => u16::from($s.model_number()) as u64,
            4 => un($s.software_version()),
            5 => $s.process_inquiry_supported() as u64,
            6 => $s.property_exchange_supported() as u64,
            7 => $s.profile_configuration_supported() as u64,
            8 => $s.protocol_negotiation_supported() as u64,
            9 => u32::from($s.max_sysex_size()) as u64,
            10 => $v10,
            _ => unreachable!(),
        }
    };
}
macro_rules! common_set {
    ($s:ident, $i:expr, $x:expr, $v10:expr) => {
        match $i {
            0 => $s.set_source(ux::u28::new($x as u32)),
            1 => $s.set_device_manufacturer(u7s($x)),
            2 => $s.set_device_family(ux::u14::new($x as u16)),
            3 => $s.set_model_number(ux::u14::new($x as u16)),
            4 => $s.set_software_version(u7s($x)),
            5 => $s.set_process_inquiry_supported($x != 0),
            6 => $s.set_property_exchange_supported($x != 0),
            7 => $s.set_profile_configuration_supported($x != 0),
            8 => $s.set_protocol_negotiation_supported($x != 0),
            9 => $s.set_max_sysex_size(ux::u28::new($x as u32)),
            10 => $v10,
            _ => unreachable!(),
        }
    };
}
macro_rules! imp {
    ($v:literal, $s:ident, $x:ident, $g10:expr, $s10:expr) => {
        impl<B: Bytes> Q for DiscoveryQuery<$v, B> {
            fn dat(&self) -> Vec<u8> { self.data().to_vec() }
            fn pay(&self) -> (Vec<u8>, usize) { (self.payload().map(|b| u8::from(b)).collect(), self.payload_size()) }
            fn get(&self, i: usize) -> u64 { let $s = self; common_get!($s, i, $g10) }
            fn ci(&self) -> (DeviceId, u64, u64) { (self.device_id(), u32::from(self.source()) as u64, u32::from(self.destination()) as u64) }
        }
        impl<B: Bytes + BufferMut> QM for DiscoveryQuery<$v, B> {
            fn set(&mut self, i: usize, $x: u64) { let $s = self; common_set!($s, i, $x, $s10) }
        }
    };
}
imp!(1, s, x, { let _ = s; unreachable!() }, { let _ = (s, x); unreachable!() });
imp!(2, s, x, u8::from(s.output_path_id()) as u64, s.set_output_path_id(ux::u7::new(x as u8)));

/// everything that can be read agrees with these message bytes
fn agree(q: &dyn Q, v: u8, want: &[u8]) -> Result<(), String> {
    let d = q.dat();
    if d != want {
        return Err(format!("data() is {}, expected {}", hex8(&d), hex8(want)));
    }
    for i in 0..nf(v) {
        let (g, w) = (q.get(i), take(want, i));
        if g != w {
            return Err(format!("{} reads {g:X}, expected {w:X} in {}", FIELDS[i].0, hex8(want)));
        }
    }
    let c = q.ci();
    let w = (DeviceId::FunctionBlock, take(want, 0), (1u64 << 28) - 1);
    if c != w {
        return Err(format!("device id, source, destination read {c:?}, expected {w:?} in {}", hex8(want)));
    }
    let (p, n) = q.pay();
    if p != want[1..want.len() - 1] || n != p.len() {
        return Err(format!("payload {} (size {n}) of {}", hex8(&p), hex8(want)));
    }
    Ok(())
}

fn parse<'a>(v: u8, b: &'a [u8]) -> Result<Box<dyn Q + 'a>, String> {
    match v {
        1 => DiscoveryQuery::<1, _>::try_from(b).map(|q| Box::new(q) as Box<dyn Q>).map_err(|e| format!("{e:?}")),
        2 => DiscoveryQuery::<2, _>::try_from(b).map(|q| Box::new(q) as Box<dyn Q>).map_err(|e| format!("{e:?}")),
        _ => unreachable!(),
    }
}
/// parse as every version and compare with the reference; counts accepted ones
fn check_parse(ctx: &Ctx, b: &[u8]) -> u64 {
    let mut acc = 0;
    for v in [1u8, 2] {
        match (catch(|| parse(v, b).map(|q| ok(v, b).map(|n| catch(|| agree(&*q, v, &b[..n]))))), ok(v, b)) {
            (Err(p), _) => ctx.violation("parse-panic", &format!("DiscoveryQuery<{v}>::try_from({}) {p}", hex8(b))),
            (Ok(Ok(None)), _) => ctx.violation("accepts", &format!("DiscoveryQuery<{v}>::try_from({}) accepts it", hex8(b))),
            (Ok(Err(e)), Some(_)) => ctx.violation("rejects", &format!("DiscoveryQuery<{v}>::try_from({}) rejects it: {e}", hex8(b))),
            (Ok(Err(_)), None) => {}
            (Ok(Ok(Some(Err(p)))), _) => ctx.violation("read-panic", &format!("DiscoveryQuery<{v}> from {} reading {p}", hex8(b))),
            (Ok(Ok(Some(Ok(Err(e))))), _) => ctx.violation("parse-read", &format!("DiscoveryQuery<{v}> from {}: {e}", hex8(b))),
            (Ok(Ok(Some(Ok(Ok(()))))), _) => acc += 1,
        }
    }
    // versions which do not exist
    macro_rules! none {
        ($($v:literal)*) => { $( match catch(|| DiscoveryQuery::<$v, _>::try_from(b).is_ok()) {
            Err(p) => ctx.violation("unsupported-version-panic", &format!("DiscoveryQuery<{}>::try_from({}) {p}", $v, hex8(b))),
            Ok(true) => ctx.violation("unsupported-version", &format!("DiscoveryQuery<{}>::try_from({}) accepts it", $v, hex8(b))),
            _ => {}
        } )* };
    }
    none!(0 3 0x7F);
    acc
}
/// messages of this version with systematic content
fn backgrounds(v: u8) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for extra in [0usize, 1, 3] {
        for f in 0..9 {
            let mut d = default(v);
            d.pop();
            for k in 0..extra {
                d.push(k as u8 + 1);
            }
            for (k, b) in d.iter_mut().enumerate() {
                if (6..10).contains(&k) || k >= 14 {
                    *b = match f {
                        0 => *b,
                        1 => 0x7F,
                        2 => 0x55,
                        3 => 0x2A,
                        4 => k as u8,
                        5 => 0x7F - k as u8,
                        6 => 1 << (k % 7),
                        7 => 0x7F ^ (1 << (k % 7)),
                        _ => (k * 37 % 128) as u8,
                    };
                }
            }
            d.push(0xF7);
            out.push(d);
        }
    }
    out
}
fn values(i: usize, thorough: bool) -> Vec<u64> {
    let n = FIELDS[i].2;
    match n {
        0 => vec![0, 1],
        1 | 2 => (0..=max_of(i)).collect(),
        _ => {
            let mut s = HashSet::new();
            let c: &[u64] = if thorough { &[0, 1, 2, 3, 4, 7, 8, 0xF, 0x10, 0x1F, 0x20, 0x3F, 0x40, 0x41, 0x55, 0x2A, 0x7E, 0x7F] } else { &[0, 1, 2, 0x20, 0x3F, 0x40, 0x7E, 0x7F] };
            // all values of one septet on three backgrounds, all products of corners
            for k in 0..n {
                for x in 0..128u64 {
                    for bg in [0, max_of(i), 0xAAAAAAA & max_of(i)] {
                        s.insert(bg & !(0x7F << (7 * k)) | x << (7 * k));
                    }
                }
            }
            let mut w = vec![0u64];
            for k in 0..n {
                w = w.iter().flat_map(|a| c.iter().map(move |x| a | x << (7 * k))).collect();
            }
            s.extend(w);
            let mut v: Vec<u64> = s.into_iter().collect();
            v.sort();
            v
        }
    }
}
macro_rules! with_v {
    ($v:expr, $V:ident => $e:expr) => { match $v { 1 => { const $V: u8 = 1; $e } _ => { const $V: u8 = 2; $e } } };
}

fn write_once(ctx: &Ctx, v: u8, bg: &[u8], i: usize, vals: &[u64], deep: bool) {
    with_v!(v, V => {
        let q = DiscoveryQuery::<V, _>::try_from(bg);
        let Ok(q) = q else { ctx.violation("rejects", &format!("DiscoveryQuery<{v}>::try_from({}) rejects it", hex8(bg))); return };
        let base: DiscoveryQuery<V, Vec<u8>> = q.rebuffer_into();
        let mut q = base.clone();
        let mut want = bg.to_vec();
        for &x in vals {
            // from the background, not from the previous value
            if deep { q = base.clone(); want.copy_from_slice(bg); }
            put(&mut want, i, x);
            let r = catch(|| { q.set(i, x); q.get(i) });
            match r {
                Err(p) => ctx.violation(&format!("{}-panic", FIELDS[i].0), &format!("v{v} set {x:X} on {} {p}", hex8(bg))),
                Ok(g) if g != x => ctx.violation(&format!("{}-read-back", FIELDS[i].0), &format!("v{v} set {x:X} on {}, reads {g:X}", hex8(bg))),
                _ => {}
            }
            if q.data() != &want[..] {
                ctx.violation(&format!("{}-bits", FIELDS[i].0), &format!("v{v} set {x:X} on {}: {}, expected {}", hex8(bg), hex8(q.data()), hex8(&want)));
            }
            if deep {
                if let Err(e) = catch(|| agree(&q, v, &want)).unwrap_or_else(Err) {
                    ctx.violation(&format!("{}-others", FIELDS[i].0), &format!("v{v} set {x:X} on {}: {e}", hex8(bg)));
                }
            }
        }
    });
    ctx.bulk(vals.len() as u64, vals.len() as u64, vals.len() as u64);
}

#[derive(Clone, Copy, Debug)]
enum K { Vec, MutVec, Grow(bool), Slice, Fix, Bound, Arr }
/// runs `f` on a newly constructed query; Some(false) = overflow
fn construct(v: u8, k: K, content: &[u8], room: usize, how: u8, f: &mut dyn FnMut(&mut dyn QM)) -> Option<(bool, Option<Vec<u8>>)> {
    with_v!(v, V => {
        type D<B> = DiscoveryQuery<V, B>;
        macro_rules! run { ($e:expr) => { match $e { Ok::<_, midi2::error::BufferOverflow>(mut q) => { f(&mut q); Some((true, None::<Vec<u8>>)) } Err(_) => Some((false, None)) } } }
        macro_rules! arr { ($($N:literal)*) => { match content.len() { $( $N => {
            let a: [u8; $N] = content.try_into().unwrap();
            if how == 0 { run!(D::<[u8; $N]>::try_new()) } else { run!(D::try_new_with_buffer(a)) }
        } )* _ => None } } }
        match k {
            K::Vec => match how {
                0 => run!(Ok(D::<Vec<u8>>::new())),
                1 => run!(Ok(D::new_with_buffer(content.to_vec()))),
                _ => None,
            },
            K::MutVec => {
                let mut b = content.to_vec();
                let r = match how { 1 => run!(Ok(D::new_with_buffer(&mut b))), _ => None };
                r.map(|(o, _)| (o, Some(b)))
            }
            K::Grow(_) => match how {
                0 => run!(Ok(D::<Grow<u8>>::new())),
                1 => run!(Ok(D::new_with_buffer(Grow::with(content)))),
                _ => None,
            },
            K::Slice => {
                let mut b = content.to_vec();
                let r = match how { 3 => run!(D::try_new_with_buffer(&mut b[..])), _ => None };
                r.map(|(o, _)| (o, Some(b)))
            }
            K::Fix => match how {
                2 => run!(D::<Fix<u8>>::try_new()),
                3 => run!(D::try_new_with_buffer(Fix { v: content.to_vec() })),
                _ => None,
            },
            K::Bound => match how {
                2 => run!(D::<Bound<u8>>::try_new()),
                3 => run!(D::try_new_with_buffer(Bound { v: content.to_vec(), cap: room.max(content.len()), fill: FILL.with(|c| c.get()) as u8 })),
                _ => None,
            },
            K::Arr => match how { 0 | 3 => arr!(0 1 2 5 6 7 30 31 32 33 40 64), _ => None },
        }
    })
}

fn fields(ctx: &Arc<Ctx>) {
    let mut jobs = vec![];
    for v in [1u8, 2] {
        for (n, b) in backgrounds(v).into_iter().enumerate() {
            for i in 0..nf(v) {
                jobs.push((v, n, b.clone(), i));
            }
        }
    }
    ctx.par("single-writes", &jobs, |j| format!("{j:?}"), |(v, n, b, i)| {
        let vals = values(*i, ctx.thorough() || *n < 6);
        write_once(ctx, *v, b, *i, &vals, true);
        if *n == 1 {
            ctx.sample(|| format!("set_{} on {} x {} values", FIELDS[*i].0, hex8(b), vals.len()));
        }
    });
    // every value of the wide fields
    let mut jobs = vec![];
    for v in [1u8, 2] {
        for i in [0, 1, 4, 9] {
            let n = max_of(i) + 1;
            let step = n / 64;
            for k in 0..64 {
                jobs.push((v, i, k * step, (k + 1) * step));
            }
        }
    }
    let all = ctx.thorough();
    ctx.par("every-value", &jobs, |j| format!("{j:?}"), |(v, i, a, z)| {
        if !all && max_of(*i) > 1 << 21 {
            return;
        }
        let bg = &backgrounds(*v)[if *a % 2 == 0 { 1 } else { 8 }];
        let vals: Vec<u64> = (*a..*z).collect();
        write_once(ctx, *v, bg, *i, &vals, false);
    });
    // histories
    let depth = ctx.pick(4, 5);
    let mut jobs = vec![];
    for v in [1u8, 2] {
        for k in 0..4u8 {
            for i in 0..nf(v) {
                for x in 0..3u64 {
                    jobs.push((v, k, i, x));
                }
            }
        }
    }
    ctx.par("histories", &jobs, |j| format!("{j:?}"), |&(v, k, i, x)| {
        let val = |i: usize, x: u64| match x { 0 => 0, 1 => max_of(i), _ => 0x5A5A5A5A5A & max_of(i) };
        settings(50, 0xFF, k != 3);
        let content: Vec<u8> = (0..48u32).map(|j| (j * 91 + 13) as u8).collect();
        let kind = match k { 0 => K::MutVec, 1 => K::Slice, 2 => K::Bound, _ => K::Grow(false) };
        let mut n = 0;
        let mut run = |h: &[(usize, u64)]| {
            let mut want = default(v);
            let r = construct(v, kind, &content, 50, if k % 3 == 0 { 1 } else { 3 }, &mut |q| {
                for &(i, x) in h {
                    q.set(i, val(i, x));
                    put(&mut want, i, val(i, x));
                }
                n += 1;
                if let Err(e) = agree(&*q, v, &want) {
                    ctx.violation("history", &format!("v{v} {kind:?} writes {:?}: {e}", h.iter().map(|(i, x)| (FIELDS[*i].0, val(*i, *x))).collect::<Vec<_>>()));
                }
                if k == 0 {
                    ctx.state(h64(&q.dat()));
                }
            });
            match r {
                Some((true, Some(all))) if all.len() < min(v) || all[min(v)..] != content[min(v).min(content.len())..] && k == 1 => {
                    ctx.violation("history-tail", &format!("v{v} {kind:?} writes {h:?}: behind the message {}", hex8(&all)));
                }
                Some((true, _)) => {}
                _ => ctx.violation("construct", &format!("v{v} {kind:?} with room 48 reports overflow")),
            }
        };
        let mut h = vec![(i, x)];
        fn go(h: &mut Vec<(usize, u64)>, v: u8, depth: usize, run: &mut dyn FnMut(&[(usize, u64)])) {
            if let Err(p) = catch(|| run(h)) {
                eprintln!("{h:?} {p}");
                std::process::abort();
            }
            if h.len() < depth {
                for i in 0..nf(v) {
                    for x in 0..3 {
                        h.push((i, x));
                        go(h, v, depth, run);
                        h.pop();
                    }
                }
            }
        }
        go(&mut h, v, depth, &mut run);
        ctx.bulk(0, n, n);
    });
}

fn parsing(ctx: &Arc<Ctx>) {
    let mut jobs: Vec<(String, Vec<u8>)> = vec![];
    for v in [1u8, 2] {
        for b in backgrounds(v) {
            for tail in [&[][..], &[0xF7][..], &[0][..], &[0xF0, 0x7E, 0x7F, 0x0D, 0x70, v, 0, 0xF7][..]] {
                let mut c = b.clone();
                c.extend_from_slice(tail);
                jobs.push((format!("v{v}"), c));
            }
        }
    }
    let corners: &[u8] = ctx.pick(&[0x00, 0x7F, 0x80, 0xF0, 0xF7][..], &[0x00, 0x01, 0x02, 0x0D, 0x70, 0x7E, 0x7F, 0x80, 0xF0, 0xF6, 0xF7, 0xF8, 0xFF][..]);
    ctx.par("inputs", &jobs, |j| format!("{} {}", j.0, hex8(&j.1)), |(_, b)| {
        let mut n = 0;
        let mut acc = 0;
        let mut one = |c: &[u8]| {
            n += 1;
            acc += check_parse(ctx, c);
        };
        one(b);
        // every truncation, every single byte, every end position
        for l in 0..b.len() {
            one(&b[..l]);
            let mut c = b.clone();
            for x in 0..=255 {
                c[l] = x;
                one(&c);
            }
            c.copy_from_slice(b);
            c.remove(l);
            one(&c);
            for x in [0, 0x7F, 0x80, 0xF0, 0xF7, 0xF8] {
                c = b.clone();
                c.insert(l, x);
                one(&c);
            }
            c = b[..l].to_vec();
            c.push(0xF7);
            one(&c);
            c.extend_from_slice(&b[l..]);
            one(&c);
            // two cooperating changes
            for m in 0..l {
                for &x in corners {
                    for &y in corners {
                        let mut c = b.clone();
                        c[l] = x;
                        c[m] = y;
                        one(&c);
                    }
                }
            }
        }
        ctx.bulk(n, 5 * n, n);
        ctx.outcome("accepted", acc);
        ctx.outcome("rejected", 5 * n - acc);
    });
    // queries with a lot of content behind what is known
    let mut jobs: Vec<usize> = (0..300).chain(mc::long::bytes(ctx, true)).collect();
    jobs.reverse();
    ctx.par("long", &jobs, |n| format!("{n} more bytes"), |&extra| {
        let (mut n, mut acc) = (0, 0);
        for v in [1u8, 2] {
            for b in backgrounds(v) {
                let mut c = b[..b.len() - 1].to_vec();
                c.extend((0..extra).map(|i| (i / 5 + i) as u8 & 0x7F));
                let mut at: Vec<usize> = mc::long::spots(extra).into_iter().map(|k| b.len() - 1 + k).collect();
                if extra > 5000 { at.truncate(3) }
                c.push(0xF7);
                for t in [&[][..], &[0xF7], &[0x00, 0xF7], &[0x90, 1, 2]] {
                    let mut c = c.clone();
                    c.extend_from_slice(t);
                    acc += check_parse(ctx, &c);
                    n += 1;
                    for a in &at {
                        let o = c[*a];
                        for x in [0x80, 0xF0, 0xF7] {
                            c[*a] = x;
                            acc += check_parse(ctx, &c);
                            n += 1;
                        }
                        c[*a] = o;
                    }
                }
                c.pop();
                acc += check_parse(ctx, &c);
                n += 1;
            }
        }
        ctx.bulk(n, 5 * n, n);
        ctx.outcome("accepted", acc);
        ctx.outcome("rejected", 5 * n - acc);
    });
    // all short inputs over a systematic alphabet, all headers
    let alpha = [0xF0u8, 0xF7, 0x7E, 0x7F, 0x0D, 0x70, 0x01, 0x02, 0x00, 0x80];
    let depth = ctx.pick(5, 7);
    let firsts: Vec<(usize, usize)> = (0..10).flat_map(|a| (0..10).map(move |b| (a, b))).collect();
    ctx.par("short-inputs", &firsts, |j| format!("{j:?}"), |&(a, b)| {
        let mut n = 0;
        fn go(ctx: &Ctx, alpha: &[u8], c: &mut Vec<u8>, depth: usize, n: &mut u64) {
            check_parse(ctx, c);
            // the same as the start of a long enough input
            let mut l = c.clone();
            l.resize(34, 0);
            l.push(0xF7);
            check_parse(ctx, &l);
            *n += 2;
            if c.len() < depth {
                for x in alpha {
                    c.push(*x);
                    go(ctx, alpha, c, depth, n);
                    c.pop();
                }
            }
        }
        go(ctx, &alpha, &mut vec![alpha[a], alpha[b]], depth, &mut n);
        ctx.bulk(n, 5 * n, n);
    });
    // every header: each of the five header bytes takes every value of an alphabet, and the destination likewise
    let a6 = [0x00u8, 0x01, 0x02, 0x03, 0x0D, 0x70, 0x71, 0x7E, 0x7F, 0x80, 0xF7];
    let firsts: Vec<(u8, u8)> = a6.iter().flat_map(|a| a6.iter().map(move |b| (*a, *b))).collect();
    ctx.par("headers", &firsts, |j| format!("{j:?}"), |&(a, b)| {
        let mut n = 0;
        let mut acc = 0;
        for c in a6 {
            for d in a6 {
                for e in a6 {
                    for len in [31, 32, 33] {
                        let mut m = default(2);
                        m.resize(len, 0);
                        m[31.min(len - 1)] = 0;
                        m[len - 1] = 0xF7;
                        m[1..6].copy_from_slice(&[a, b, c, d, e]);
                        acc += check_parse(ctx, &m);
                        if len == 32 && (1..=2).contains(&e) {
                            let mut m = default(e);
                            m[10..14].copy_from_slice(&[a, b, c, d]);
                            acc += check_parse(ctx, &m);
                        }
                        n += 1;
                    }
                }
            }
        }
        ctx.bulk(n, 5 * n, n);
        ctx.outcome("accepted headers", acc);
    });
}

fn construction(ctx: &Arc<Ctx>) {
    let mut jobs = vec![];
    for v in [1u8, 2] {
        for k in [K::Vec, K::MutVec, K::Grow(true), K::Grow(false), K::Slice, K::Fix, K::Bound, K::Arr] {
            for fill in [0u32, 0xFF, 0xF7, 0x7F, 0x80, 0x100] {
                jobs.push((v, k, fill));
            }
        }
    }
    ctx.par("construction", &jobs, |j| format!("{j:?}"), |&(v, k, fill)| {
        let mut n = 0;
        for len in 0..=ctx.pick(66usize, 140) {
            for room in (0..=40).step_by(1) {
                if !matches!(k, K::Bound) && room > 0 {
                    break;
                }
                settings(if matches!(k, K::Bound) { room } else { len }, fill & 0xFF, !matches!(k, K::Grow(false)));
                let content: Vec<u8> = (0..len).map(|i| if fill == 0x100 { (i * 167 + 0x53) as u8 } else { fill as u8 }).collect();
                for how in 0..4u8 {
                    let cap = match (k, how) {
                        (K::Slice | K::Fix | K::Arr, _) => len,
                        (K::Bound, 2) => room,
                        (K::Bound, _) => room.max(len),
                        _ => usize::MAX,
                    };
                    let at = || format!("v{v} {k:?} of {len} filled {fill:X} room {room} constructor {}", ["new", "new_with_buffer", "try_new", "try_new_with_buffer"][how as usize]);
                    let want = default(v);
                    let r = catch(|| construct(v, k, &content, room, how, &mut |q| {
                        if let Err(e) = agree(&*q, v, &want) {
                            ctx.violation("default", &format!("{}: {e}", at()));
                        }
                        if check_parse(ctx, &q.dat()) != 1 {
                            ctx.violation("default-parses", &at());
                        }
                        // and it can be used
                        let mut w = want.clone();
                        for i in 0..nf(v) {
                            put(&mut w, i, max_of(i) - (max_of(i) > 1) as u64);
                            q.set(i, max_of(i) - (max_of(i) > 1) as u64);
                        }
                        if let Err(e) = agree(&*q, v, &w) {
                            ctx.violation("default-then-set", &format!("{}: {e}", at()));
                        }
                    }));
                    match r {
                        Err(p) => ctx.violation("construct-panic", &format!("{} {p}", at())),
                        Ok(None) => continue,
                        Ok(Some((o, rest))) => {
                            if o != (cap >= min(v)) {
                                ctx.violation("construct-overflow", &format!("{}: {}", at(), if o { "succeeds" } else { "overflow" }));
                            }
                            if let (true, Some(b)) = (o && matches!(k, K::Slice), rest) {
                                if b[min(v)..] != content[min(v)..] {
                                    ctx.violation("construct-tail", &format!("{}: behind the message {}", at(), hex8(&b[min(v)..])));
                                }
                            }
                            ctx.outcome(if o { "constructed" } else { "overflow" }, 1);
                        }
                    }
                    n += 1;
                }
            }
        }
        ctx.bulk(n, n, n);
    });
}

fn rebuffering(ctx: &Arc<Ctx>) {
    let mut jobs = vec![];
    for v in [1u8, 2] {
        for b in backgrounds(v) {
            for t in [0usize, 1, 9] {
                jobs.push((v, b.clone(), t));
            }
        }
    }
    ctx.par("rebuffering", &jobs, |j| format!("{j:?}"), |(v, b, t)| {
        let mut src = b.clone();
        src.extend((0..*t).map(|i| 0xF0 + i as u8));
        let mut n = 0u64;
        with_v!(*v, V => {
            let Ok(q) = DiscoveryQuery::<V, _>::try_from(&src[..]) else { ctx.violation("rejects", &format!("DiscoveryQuery<{v}>::try_from({}) rejects it", hex8(&src))); return };
            fn see<B: Bytes>(ctx: &Ctx, b: &[u8], src: &[u8], what: &str, r: Result<Result<DiscoveryQuery<V, B>, midi2::error::BufferOverflow>, String>, cap: usize, need: usize) where DiscoveryQuery<V, B>: Q {
                match r {
                    Err(p) => ctx.violation("rebuffer-panic", &format!("{what} from {} {p}", hex8(src))),
                    Ok(Err(_)) if cap >= need => ctx.violation("rebuffer-overflow", &format!("{what} from {}: overflow", hex8(src))),
                    Ok(Err(_)) => ctx.outcome("rebuffer overflow", 1),
                    Ok(Ok(_)) if cap < b.len() => ctx.violation("rebuffer-no-overflow", &format!("{what} from {}", hex8(src))),
                    Ok(Ok(q)) => {
                        ctx.outcome("rebuffered", 1);
                        if let Err(e) = catch(|| agree(&q, V, b)).unwrap_or_else(Err) {
                            ctx.violation("rebuffer-differs", &format!("{what} from {}: {e}", hex8(src)));
                        }
                    }
                }
            }
            for fill in [0, 0xFF, 0xF7] {
                for room in 0..80 {
                    settings(room, fill, true);
                    let c = q.clone();
                    // a longer source than its message may or may not be copied whole: the open finding of C11
                    see::<Bound<u8>>(ctx, b, &src, &format!("try_rebuffer to bounded {room}"), catch(|| c.try_rebuffer_into()), room, src.len());
                    n += 1;
                    if fill == 0 {
                        macro_rules! arr { ($($N:literal)*) => { match room { $( $N => see::<[u8; $N]>(ctx, b, &src, concat!("try_rebuffer to array ", $N), { let c = q.clone(); catch(|| c.try_rebuffer_into()) }, room, src.len()), )* _ => {} } } }
                        arr!(0 1 30 31 32 33 34 35 36 40 44 64);
                    }
                }
                settings(40, fill, true);
                let c = q.clone();
                see::<Grow<u8>>(ctx, b, &src, "rebuffer to growable", catch(|| Ok(c.rebuffer_into())), 999, 0);
                let c = q.clone();
                see::<Fix<u8>>(ctx, b, &src, "rebuffer to fixed", catch(|| Ok(c.rebuffer_into())), 999, 0);
                let c = q.clone();
                see::<Vec<u8>>(ctx, b, &src, "rebuffer to vec", catch(|| Ok(c.rebuffer_into())), 999, 0);
                // and on: vec -> array -> vec
                let c: DiscoveryQuery<V, Vec<u8>> = q.clone().rebuffer_into();
                match catch(|| TryRebufferInto::<DiscoveryQuery<V, [u8; 40]>>::try_rebuffer_into(c)) {
                    Ok(Ok(a)) => see::<Vec<u8>>(ctx, b, &src, "vec -> array -> vec", catch(|| Ok(a.rebuffer_into())), 999, 0),
                    r => see::<[u8; 40]>(ctx, b, &src, "vec -> array", r, 40, src.len()),
                }
                n += 5;
            }
        });
        ctx.bulk(n, n, n);
    });
}

fn main() {
    let ctx = Ctx::new("C17");
    fields(&ctx);
    parsing(&ctx);
    construction(&ctx);
    rebuffering(&ctx);
    ctx.note("MIDI-CI Discovery (sub-id#2 0x70), versions 1 and 2: layout as in M2-101-UM; a query longer than its version's minimum is accepted (spec: receivers ignore additional fields)");
    ctx.finish()
}
