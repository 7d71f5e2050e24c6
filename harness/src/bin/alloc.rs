//! C20 no hidden allocation, no copying of borrowed messages.
//!
//! A counting allocator observes the real library. Everything a message in caller supplied storage can do - parsing,
//! rejecting, reading, cloning, comparing, editing in arrays and mutable slices, refusing an edit,
//! converting, rebuffering, and editing a vector which already has the capacity - is executed for every input and every
//! history up to the bound, and must not reach the allocator; messages parsed from a slice must point into that slice.
use mc::buf::Un;
use mc::spec::*;
use mc::*;
use midi2::prelude::*;
use midi2::ux::u7;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::Arc;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
struct Counting;
fn tick() {
    let _ = ON.try_with(|o| if o.get() { let _ = COUNT.try_with(|c| c.set(c.get() + 1)); });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { tick(); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { tick(); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { tick(); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;

/// number of trips to the allocator while f runs
fn counted<T>(f: impl FnOnce() -> T) -> (T, u64) {
    COUNT.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, COUNT.with(|c| c.get()))
}
/// executes one behaviour; f returns a complaint, or some result of everything it did
fn watch(c: &Ctx, key: &str, what: impl Fn() -> String, f: impl FnOnce() -> Result<u64, &'static str>) {
    let r = catch(|| counted(f));
    ON.with(|o| o.set(false));
    match r {
        Err(e) => c.violation(&format!("{key}:panic"), &format!("{}: {e}", what())),
        Ok((Err(e), _)) => c.violation(&format!("{key}:{e}"), &what()),
        Ok((Ok(_), n)) if n > 0 => c.violation(&format!("{key}:allocates"), &format!("{}: {n} allocations", what())),
        Ok((Ok(n), _)) => {
            std::hint::black_box(n);
            c.bulk(1, 1, 1)
        }
    }
    c.sample(|| format!("{key}: {}", what()));
}
type R = Result<u64, &'static str>;
fn same<U: Un>(d: &[U], input: &[U]) -> R {
    if d.as_ptr() != input.as_ptr() || d.len() > input.len() {
        return Err("does not borrow from the input");
    }
    Ok(1)
}
/// drives an iterator without keeping anything
fn run<I: ExactSizeIterator>(i: impl Fn() -> I) -> u64 {
    let n = i().len();
    let mut k = i().fold(0u64, |a, _| a + 1);
    for j in [0, 1, n / 2, n, n + 1] {
        let mut x = i();
        k += x.nth(j).is_some() as u64;
        k += x.count() as u64;
    }
    for _ in i() {
        k += 1;
    }
    k
}
fn packets<T: Packets>(x: &T) -> u64 {
    let mut k = run(|| x.packets());
    for p in x.packets() {
        k += packet(&p);
    }
    k
}
/// packet types of the families
fn packet(w: &[u32]) -> u64 {
    let mut k = 0;
    macro_rules! p { ($m:ident, $p:ident => $e:expr) => { if let Ok($p) = midi2::$m::Packet::try_from(w) { k += 1 + $p.len() as u64 + ($p.clone() == $p) as u64; $e; } } }
    p!(channel_voice1, p => { let _ = (p.group(), p.channel()); });
    p!(channel_voice2, p => { let _ = (p.group(), p.channel()); });
    p!(system_common, p => { let _ = p.group(); });
    p!(utility, p => {});
    p!(flex_data, p => { let _ = (p.group(), p.format()); });
    p!(ump_stream, p => { let _ = p.format(); });
    p!(sysex7, p => { let _ = (p.group(), p.status()); k += run(|| p.payload()); });
    p!(sysex8, p => { let _ = (p.group(), p.status(), p.stream_id()); k += run(|| p.payload()); });
    k
}
fn table<U: Un, T: Get<U> + Clone + PartialEq>(m: &T, input: &[U]) -> R {
    let mut k = same(m.slice(), input)?;
    for (i, f) in m.spec().fields.iter().enumerate() {
        if f.access {
            k += m.get(i) & 1;
        }
    }
    let c = m.clone();
    k += (c == *m) as u64;
    same(c.slice(), input)?;
    Ok(k + 1)
}
fn sx7<B: midi2::buffer::Ump + Clone>(m: &midi2::sysex7::Sysex7<B>) -> u64 {
    run(|| m.payload()) + m.payload_size() as u64 + u8::from(m.group()) as u64 + packets(m)
}
fn sx8<B: midi2::buffer::Ump + Clone>(m: &midi2::sysex8::Sysex8<B>) -> u64 {
    run(|| m.payload()) + m.payload_size() as u64 + u8::from(m.group()) as u64 + m.stream_id() as u64 + packets(m)
}
/// every type on one UMP input
fn ump(w: &[u32]) -> R {
    let mut k = 0;
    if let Ok(m) = UmpMessage::try_from(w) {
        k += same(midi2::Data::data(&m), w)? + packets(&m);
        let c = m.clone();
        k += (c == m) as u64;
        same(midi2::Data::data(&c), w)?;
    }
    macro_rules! fam { ($m:ident $t:ident, $x:ident => $e:expr) => {
        if let Ok($x) = midi2::$m::$t::<&[u32]>::try_from(w) {
            k += same(midi2::Data::data(&$x), w)? + packets(&$x) + ($x.clone() == $x) as u64;
            $e;
        }
    } }
    fam!(channel_voice1 ChannelVoice1, m => { let _ = (Grouped::group(&m), Channeled::channel(&m)); });
    fam!(channel_voice2 ChannelVoice2, m => { let _ = (Grouped::group(&m), Channeled::channel(&m)); });
    fam!(system_common SystemCommon, m => { let _ = Grouped::group(&m); });
    fam!(utility Utility, m => {});
    fam!(flex_data FlexData, m => {
        use midi2::flex_data::FlexDataMessage;
        let _ = (Grouped::group(&m), FlexDataMessage::bank(&m), FlexDataMessage::status(&m));
    });
    fam!(ump_stream UmpStream, m => {});
    fam!(sysex7 Sysex7, m => { k += sx7(&m); });
    fam!(sysex8 Sysex8, m => { k += sx8(&m); });
    macro_rules! each { ($(($m:ident $t:ident $n:literal $a:tt))*) => { $(
        if let Ok(x) = midi2::$m::$t::<&[u32]>::try_from(w) { k += table::<u32, _>(&x, w)? + packets(&x); }
    )* } }
    each_ump!(each);
    macro_rules! text { ($(($m:ident $t:ident))*) => { $(
        if let Ok(x) = midi2::$m::$t::<&[u32]>::try_from(w) { k += x.fold(); }
    )* } }
    each_text!(text);
    Ok(k + packet(w) + 1)
}
fn bytes(w: &[u8]) -> R {
    let mut k = 0;
    macro_rules! fam { ($t:path, $x:ident => $e:expr) => {
        if let Ok($x) = <$t>::try_from(w) {
            k += same(midi2::Data::data(&$x), w)? + ($x.clone() == $x) as u64;
            $e;
        }
    } }
    fam!(BytesMessage::<&[u8]>, m => {});
    fam!(midi2::channel_voice1::ChannelVoice1::<&[u8]>, m => { let _ = Channeled::channel(&m); });
    fam!(midi2::system_common::SystemCommon::<&[u8]>, m => {});
    fam!(midi2::sysex7::Sysex7::<&[u8]>, m => { k += run(|| m.payload()) + m.payload_size() as u64; });
    macro_rules! ci { ($v:literal) => {
        if let Ok(m) = midi2::ci::DiscoveryQuery::<$v, &[u8]>::try_from(w) {
            use midi2::ci::Ci;
            k += same(midi2::Data::data(&*m), w)? + (m.clone() == m) as u64 + run(|| m.payload());
            let _ = (m.source(), m.device_manufacturer(), m.device_family(), m.model_number(), m.software_version());
            let _ = (m.process_inquiry_supported(), m.property_exchange_supported(), m.profile_configuration_supported(), m.protocol_negotiation_supported(), m.max_sysex_size());
            let _ = (Ci::device_id(&m), Ci::source(&m), Ci::destination(&m));
        }
    } }
    ci!(1);
    ci!(2);
    if let Ok(m) = midi2::ci::DiscoveryQuery::<2, &[u8]>::try_from(w) {
        let _ = m.output_path_id();
    }
    macro_rules! each { ($(($m:ident $t:ident $n:literal $a:tt))*) => { $(
        if let Ok(x) = midi2::$m::$t::<&[u8]>::try_from(w) { k += table::<u8, _>(&x, w)?; }
    )* } }
    each_bytes!(each);
    Ok(k + 1)
}

// ---- part: borrowed messages -------------------------------------------------------------------------------------

/// payload sizes of the packets, first to last
fn sizes(k: sx::Kind, n: usize, f: &mut dyn FnMut(&[usize])) {
    let per = k.per();
    let opts: Vec<usize> = if k == sx::Kind::S7U { (0..=per).collect() } else { vec![0, 1, 2, per - 1, per] };
    let mut v = vec![0usize; n];
    loop {
        f(&v.iter().map(|i| opts[*i]).collect::<Vec<_>>());
        let mut i = 0;
        loop {
            if i == n { return; }
            v[i] += 1;
            if v[i] < opts.len() { break; }
            v[i] = 0;
            i += 1;
        }
    }
}
fn borrowed(c: &Arc<Ctx>) {
    let pats = 6;
    let jobs: Vec<usize> = (0..UMP.len()).collect();
    c.par("borrowed table messages", &jobs, |i| UMP[*i].spec.name.to_string(), |i| {
        for b in bg::backgrounds::<u32>(UMP[*i].spec, pats) {
            for len in 0..=b.len() {
                for tail in [&[][..], &[0x2391_403F][..], &b[..1], &[0xFFFF_FFFF, 0, 0x3001_0203][..]] {
                    let w: Vec<u32> = b[..len].iter().chain(tail).copied().collect();
                    watch(c, UMP[*i].spec.name, || format!("reading {}", hex32(&w)), || ump(&w));
                }
            }
        }
        c.outcome("table message types", 1);
    });
        let jobs: Vec<u32> = (0..256).collect();
    c.par("borrowed systematic headers", &jobs, |i| format!("{i:02X}"), |hi| {
        for lo in 0..256u32 {
            for fill in if c.thorough() { &[0u32, 0x4142_4344, 0xFFFF_FFFF, 0x0F1E_2D3C][..] } else { &[0x4142_4344u32, 0xFFFF_FFFF][..] } {
                for st in if *hi >> 4 == 0xD && c.thorough() { 0..=255u32 } else { 0..=0 } {
                    let h = hi << 24 | lo << 16 | if *hi >> 4 == 0xD { (lo & 3) << 8 | st } else { fill & 0xFFFF };
                    for len in [1usize, 2, 4, 5] {
                        let mut w = vec![*fill; len];
                        w[0] = h;
                        watch(c, "header", || format!("reading {}", hex32(&w)), || ump(&w));
                    }
                }
            }
        }
        for n in 0..=c.pick(3usize, 4) {
            for p in [0u8, 0x7F, 0x80, 0xF7] {
                let mut w = vec![p; n + 1];
                w[0] = *hi as u8;
                watch(c, "bytes header", || format!("reading {}", hex8(&w)), || bytes(&w));
            }
        }
    });
    let mut jobs: Vec<(sx::Kind, usize)> = vec![];
    for n in 1..=c.pick(4, 5) {
        jobs.push((sx::Kind::S7U, n));
        jobs.push((sx::Kind::S8, n));
    }
    c.par("borrowed system exclusive", &jobs, |j| format!("{j:?}"), |(k, n)| {
        sizes(*k, *n, &mut |s| {
            let pay: Vec<u8> = (0..s.iter().sum::<usize>()).map(|i| (i as u8 + 1) & 0x7F).collect();
            for t in 0..4 {
                let mut w = k.encode_sizes(5, 9, &pay, s);
                w.extend(k.trailing(t));
                watch(c, "system exclusive", || format!("reading {}", hex32(&w)), || ump(&w));
                // cut and with broken packet states
                watch(c, "system exclusive", || format!("reading {}", hex32(&w[1..])), || ump(&w[1..]));
                w[0] ^= 0x0020_0000;
                watch(c, "system exclusive", || format!("reading {}", hex32(&w)), || ump(&w));
            }
        });
    });
    let jobs: Vec<usize> = (0..c.pick(300, 600)).collect();
    c.par("borrowed byte messages", &jobs, |n| format!("{n}"), |n| {
        for p in [0x11u8, 0x7F] {
            for t in 0..4 {
                let mut w: Vec<u8> = sx::Kind::S7B.encode(0, 0, &vec![p; *n]).iter().map(|x| *x as u8).collect();
                w.extend(sx::Kind::S7B.trailing(t).iter().map(|x| *x as u8));
                watch(c, "byte system exclusive", || format!("reading {}", hex8(&w)), || bytes(&w));
                for v in 1..=2u8 {
                    if w.len() >= 6 { w[..6].copy_from_slice(&[0xF0, 0x7E, 0x7F, 0x0D, 0x70, v]); }
                    if *n > 20 { w[10..14].fill(0x7F); }
                    watch(c, "discovery query", || format!("reading {}", hex8(&w)), || bytes(&w));
                }
            }
        }
        // long messages
        let pay = vec![0x2A; *n * 20];
        for k in [sx::Kind::S7U, sx::Kind::S8] {
            let w = k.encode(3, 7, &pay);
            if *n < 40 {
                watch(c, "system exclusive", || format!("reading {} words of {k:?}", w.len()), || ump(&w));
            }
        }
    });
    let jobs: Vec<usize> = (0..BYTES.len()).collect();
    c.par("borrowed byte table messages", &jobs, |i| BYTES[*i].spec.name.to_string(), |i| {
        for b in bg::backgrounds::<u8>(BYTES[*i].spec, pats) {
            for len in 0..=b.len() {
                for tail in [&[][..], &[0x90, 0x40][..], &[0xF7][..]] {
                    let w: Vec<u8> = b[..len].iter().chain(tail).copied().collect();
                    watch(c, BYTES[*i].spec.name, || format!("reading {}", hex8(&w)), || bytes(&w));
                }
            }
        }
    });
}

// ---- part: owned table messages -----------------------------------------------------------------------------------

/// one write history, and everything readable after every step
fn history<U: Un>(m: &mut dyn Set<U>, h: &[(usize, u64)]) -> u64 {
    let mut k = 0;
    for (i, x) in h {
        m.set(*i, *x);
        for (j, f) in m.spec().fields.iter().enumerate() {
            if f.access { k += m.get(j) & 1; }
        }
        k += 1;
    }
    k
}
fn histories(s: &'static Spec, depth: usize, f: &mut dyn FnMut(&[(usize, u64)])) {
    let ops: Vec<(usize, u64)> = s.fields.iter().enumerate().filter(|(_, f)| f.access)
        .flat_map(|(i, f)| { let mut c = (f.corners)(); c.dedup(); c.into_iter().map(move |x| (i, x)) }).collect();
    f(&[]);
    for a in &ops {
        f(&[*a]);
        if depth > 1 {
            for b in &ops {
                f(&[*a, *b]);
                if depth > 2 && s.units < 3 { for d in &ops { f(&[*a, *b, *d]); } }
            }
        }
    }
}

/// one array size of one message
macro_rules! one_array {
    ($c:ident, $hs:ident, $name:expr, $U:ty, $m:ident $t:ident $n:literal $a:literal, $Whole:ident) => {
        for h in &$hs {
            watch($c, $name, || format!("array of {}: writing {h:?}", $a), || {
                type T = midi2::$m::$t<[$U; $a]>;
                let Ok(mut m) = T::try_new() else { return Ok(1) };
                let mut k = history::<$U>(&mut m, h);
                let x = m.clone();
                k += (x == m) as u64;
                let Ok(z) = midi2::$m::$t::<&[$U]>::try_from(midi2::Data::data(&m)) else { return Err("rejects its own data") };
                k += table::<$U, _>(&z, midi2::Data::data(&m))?;
                let y: Result<T, _> = z.clone().try_rebuffer_into();
                k += y.is_ok() as u64;
                let f: $Whole<[$U; $a]> = m.into();
                Ok(k)
            });
        }
    };
}
macro_rules! arrays {
    ($f:ident, $U:ty, $Whole:ident, $(($m:ident $t:ident $n:literal [$a:literal, $b:literal, $e:literal]))*) => {
        fn $f(c: &Ctx, ix: usize, hs: Vec<Vec<(usize, u64)>>, name: &str) {
            let mut at = 0;
            $( {
                if at == ix {
                    one_array!(c, hs, name, $U, $m $t $n $a, $Whole);
                    one_array!(c, hs, name, $U, $m $t $n $b, $Whole);
                    one_array!(c, hs, name, $U, $m $t $n $e, $Whole);
                }
                at += 1;
            } )*
            let _ = at;
        }
    };
}
macro_rules! ump_arrays { ($($x:tt)*) => { arrays!(ump_array, u32, UmpMessage, $($x)*); } }
macro_rules! byte_arrays { ($($x:tt)*) => { arrays!(byte_array, u8, BytesMessage, $($x)*); } }
each_ump!(ump_arrays);
each_bytes!(byte_arrays);

fn owned<U: Un>(c: &Arc<Ctx>, part: &str, vts: &[&Vt<U>], array: fn(&Ctx, usize, Vec<Vec<(usize, u64)>>, &str)) {
    let depth = c.pick(2, 3);
    let jobs: Vec<usize> = (0..vts.len()).collect();
    c.par(part, &jobs, |i| vts[*i].spec.name.to_string(), |ix| {
        let vt = vts[*ix];
        let s = vt.spec;
        let mut hs = vec![];
        histories(s, depth, &mut |h| hs.push(h.to_vec()));
        for h in &hs {
            for cap in 0..=s.units + 2 {
                let mut buf = vec![U::from32(0x5A5A_5A5A); cap];
                watch(c, s.name, || format!("slice of {cap}: writing {h:?}"), || {
                    let mut k = 0;
                    (vt.mk_slice)(&mut buf, &mut |r| match r { Ok(m) => k += history(m, h), Err(_) => k += 1 });
                    Ok(k)
                });
            }
            for n in [0usize, s.units, s.units + 3] {
                let mut v: Vec<U> = Vec::with_capacity(64);
                v.resize(n, U::from32(0x5A5A_5A5A));
                watch(c, s.name, || format!("vector of {n} with capacity: writing {h:?}"), || {
                    let mut k = 0;
                    (vt.mk_vec)(&mut v, &mut |m| k += history(m, h));
                    Ok(k)
                });
            }
        }
        array(c, *ix, hs, s.name);
    });
}

// ---- part: texts ---------------------------------------------------------------------------------------------------

fn texts(max: usize) -> Vec<String> {
    let mut v = vec![];
    for n in 0..=max {
        v.push("abcdefghijklmnopqrstuvwxyz".chars().cycle().take(n).collect());
        v.push("\u{e9}\u{1F3B5}z\u{4e2d}".chars().cycle().take(n / 2).collect());
    }
    v
}
macro_rules! text_types {
    ($(($m:ident $t:ident))*) => {
        fn text_type(c: &Ctx, ix: usize, ts: &[String]) {
            let mut at = 0;
            $( {
                if at == ix {
                    let key = concat!(stringify!($m), "::", stringify!($t));
                    macro_rules! arr { ($a:literal) => {
                        for a in ts { for b in ["", "ab", "abcdefghijklmnopqrstuvwxyz"] {
                            watch(c, key, || format!("array of {}: texts {a:?}, {b:?}", $a), || {
                                let Ok(mut m) = midi2::$m::$t::<[u32; $a]>::try_new() else { return Ok(1) };
                                let mut k = 1;
                                for s in [a, b] {
                                    k += m.try_put(s).is_ok() as u64 + m.fold() + packets(&m);
                                    let x = midi2::$m::$t::<&[u32]>::try_from(midi2::Data::data(&m));
                                    let Ok(x) = x else { return Err("rejects its own data") };
                                    k += x.fold();
                                    let y: Result<midi2::$m::$t<[u32; 9]>, _> = x.try_rebuffer_into();
                                    k += y.is_ok() as u64;
                                }
                                Ok(k)
                            });
                        } }
                    } }
                    arr!(4); arr!(7); arr!(8); arr!(12); arr!(32);
                    for a in ts {
                        for cap in [0usize, 3, 4, 8, 20] {
                            let mut buf = vec![0xFFFF_FFFFu32; cap];
                            watch(c, key, || format!("slice of {cap}: text {a:?}"), || {
                                let Ok(mut m) = midi2::$m::$t::try_new_with_buffer(&mut buf[..]) else { return Ok(1) };
                                Ok(m.try_put(a).is_ok() as u64 + m.fold() + packets(&m))
                            });
                        }
                        let mut v: Vec<u32> = Vec::with_capacity(256);
                        watch(c, key, || format!("vector with capacity: text {a:?}"), || {
                            let mut m = midi2::$m::$t::new_with_buffer(&mut v);
                            m.put(a);
                            m.put("x");
                            m.put(a);
                            Ok(m.fold())
                        });
                        let mut v: Vec<u32> = Vec::with_capacity(4096);
                        watch(c, key, || format!("owned vector with capacity: text {a:?}"), || {
                            let mut m = midi2::$m::$t::new_with_buffer(std::mem::take(&mut v));
                            m.put(a);
                            m.put("x");
                            m.put(a);
                            Ok(m.fold())
                        });
                    }
                }
                at += 1;
            } )*
            let _ = at;
        }
        const TEXTS: usize = [$( stringify!($t) ),*].len();
    };
}
each_text!(text_types);
fn text(c: &Arc<Ctx>) {
    let ts = texts(c.pick(120, 400));
    let jobs: Vec<usize> = (0..TEXTS).collect();
    c.par("texts", &jobs, |i| format!("{i}"), |i| text_type(c, *i, &ts));
}

// ---- part: system exclusive editing ---------------------------------------------------------------------------------

/// payload of n bytes, with a size hint of each kind
#[derive(Clone)]
struct It<T> {
    left: usize,
    hint: usize,
    item: T,
}
impl<T: Copy> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.left == 0 { return None; }
        self.left -= 1;
        Some(self.item)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        [(self.left, Some(self.left)), (0, None), (0, Some(self.left + 4))][self.hint]
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Set(usize, usize),
    Insert(usize, usize, usize),
    Append(usize, usize),
    Splice(usize, usize, usize, usize),
    Byte(usize),
    Push,
}
fn ops(n: usize, lens: &[usize], thorough: bool) -> Vec<Op> {
    let mut v = vec![Op::Push];
    let cuts: Vec<usize> = if thorough { (0..=n).collect() } else { let mut c = vec![0, 1, n / 2, n.saturating_sub(1), n]; c.retain(|x| *x <= n); c.sort(); c.dedup(); c };
    for h in 0..3 {
        for l in lens {
            v.push(Op::Set(*l, h));
            v.push(Op::Append(*l, h));
            for a in &cuts {
                v.push(Op::Insert(*l, *a, h));
                for b in &cuts { if a < b { v.push(Op::Splice(*l, *a, *b, h)); } }
            }
        }
    }
    for i in cuts { if i < n { v.push(Op::Byte(i)); } }
    v
}
macro_rules! edit {
    ($try:ident, $m:ident, $op:ident, $item:expr) => {
        match $op {
            Op::Set(n, h) => edit!(@ $try $m.set_payload, try_set_payload(It { left: n, hint: h, item: $item })),
            Op::Insert(n, a, h) => edit!(@ $try $m.insert_payload, try_insert_payload(It { left: n, hint: h, item: $item }, a)),
            Op::Append(n, h) => edit!(@ $try $m.append_payload, try_append_payload(It { left: n, hint: h, item: $item })),
            Op::Splice(n, a, b, h) => edit!(@ $try $m.splice_payload, try_splice_payload(It { left: n, hint: h, item: $item }, a..b)),
            Op::Byte(i) => { $m.set_byte($item, i); 1 }
            Op::Push => edit!(@ $try $m.append_byte, try_append_byte($item)),
        }
    };
    (@ fallible $m:ident.$inf:ident, $fal:ident($($a:expr),*)) => { $m.$fal($($a),*).is_ok() as u64 };
    (@ infallible $m:ident.$inf:ident, $fal:ident($($a:expr),*)) => { { $m.$inf($($a),*); 1 } };
}
macro_rules! sysex_form {
    // one storage: the closure makes the message inside the watched run
    ($c:ident, $key:expr, $start:expr, $lens:expr, $item:expr, $try:ident, $store:expr, $b:ident => $mk:expr, $r:ident => $read:expr) => {
        for first in ops($start, $lens, $c.thorough()) {
            let mut $b = $store;
            watch($c, $key, || format!("payload of {} at first, then {first:?}", $start), || {
                let Ok(mut m) = $mk else { return Ok(1) };
                let start = Op::Set($start, 0);
                let mut k: u64 = edit!($try, m, start, $item);
                if (m.payload_size() as usize) < $start { return Ok(1); }
                k += edit!($try, m, first, $item);
                k += run(|| m.payload());
                k += edit!($try, m, start, $item);
                let $r = &m;
                k += $read;
                Ok(k)
            });
        }
    };
}
fn sysex(c: &Arc<Ctx>) {
    use midi2::Sysex as _;
    let max = c.pick(20, 32);
    let lens: &[usize] = if c.thorough() { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 18, 25, 26, 27, 40, 90] } else { &[0, 1, 2, 5, 6, 7, 12, 13, 14, 26, 40, 90] };
    let jobs: Vec<usize> = (0..=max).collect();
    c.par("system exclusive edits", &jobs, |n| format!("{n}"), |n| {
        let n = *n;
        macro_rules! arr { ($N:literal) => {
            sysex_form!(c, "Sysex7 array", n, lens, u7::new(0x55), fallible, (), _b => midi2::sysex7::Sysex7::<[u32; $N]>::try_new(), m => sx7(m));
            sysex_form!(c, "Sysex8 array", n, lens, 0xAAu8, fallible, (), _b => midi2::sysex8::Sysex8::<[u32; $N]>::try_new(), m => sx8(m));
            sysex_form!(c, "Sysex7 bytes array", n, lens, u7::new(0x55), fallible, (), _b => midi2::sysex7::Sysex7::<[u8; $N]>::try_new(), m => run(|| m.payload()));
            sysex_form!(c, "Sysex7 slice", n, lens, u7::new(0x55), fallible, vec![0xFFFF_FFFFu32; $N], b => midi2::sysex7::Sysex7::try_new_with_buffer(&mut b[..]), m => m.payload_size() as u64 + packets(m));
            sysex_form!(c, "Sysex8 slice", n, lens, 0xAAu8, fallible, vec![0xFFFF_FFFFu32; $N], b => midi2::sysex8::Sysex8::try_new_with_buffer(&mut b[..]), m => m.payload_size() as u64 + packets(m));
            sysex_form!(c, "Sysex7 bytes slice", n, lens, u7::new(0x55), fallible, vec![0xFFu8; $N], b => midi2::sysex7::Sysex7::try_new_with_buffer(&mut b[..]), m => run(|| m.payload()));
        } }
        arr!(0); arr!(1); arr!(4); arr!(7); arr!(8); arr!(12); arr!(33); arr!(200);
        sysex_form!(c, "Sysex7 vector", n, lens, u7::new(0x55), infallible, Vec::<u32>::with_capacity(4096), b => Ok::<_, ()>(midi2::sysex7::Sysex7::new_with_buffer(&mut b)), m => m.payload_size() as u64 + packets(m));
        sysex_form!(c, "Sysex8 vector", n, lens, 0xAAu8, infallible, Vec::<u32>::with_capacity(4096), b => Ok::<_, ()>(midi2::sysex8::Sysex8::new_with_buffer(&mut b)), m => m.payload_size() as u64 + packets(m));
        sysex_form!(c, "Sysex7 bytes vector", n, lens, u7::new(0x55), infallible, Vec::<u8>::with_capacity(4096), b => Ok::<_, ()>(midi2::sysex7::Sysex7::new_with_buffer(&mut b)), m => run(|| m.payload()));
        sysex_form!(c, "Sysex7 owned vector", n, lens, u7::new(0x55), infallible, Vec::<u32>::with_capacity(4096), b => Ok::<_, ()>(midi2::sysex7::Sysex7::new_with_buffer(std::mem::take(&mut b))), m => m.payload_size() as u64 + packets(m));
        sysex_form!(c, "Sysex8 owned vector", n, lens, 0xAAu8, infallible, Vec::<u32>::with_capacity(4096), b => Ok::<_, ()>(midi2::sysex8::Sysex8::new_with_buffer(std::mem::take(&mut b))), m => m.payload_size() as u64 + packets(m));
        sysex_form!(c, "Sysex7 bytes owned vector", n, lens, u7::new(0x55), infallible, Vec::<u8>::with_capacity(4096), b => Ok::<_, ()>(midi2::sysex7::Sysex7::new_with_buffer(std::mem::take(&mut b))), m => run(|| m.payload()));
    });
}

// ---- part: conversions --------------------------------------------------------------------------------------------

fn convert(c: &Arc<Ctx>) {
    // channel voice and system common, both ways, into every array size
    let mut jobs: Vec<(bool, usize)> = vec![];
    for i in 0..UMP.len() { jobs.push((true, i)); }
    for i in 0..BYTES.len() { jobs.push((false, i)); }
    c.par("conversions", &jobs, |j| format!("{j:?}"), |(u, i)| {
        macro_rules! to { ($T:ident, $U:ty, $s:expr, [$($n:literal)*]) => { {
            let mut k = 0;
            $( { let r: Result<$T<[$U; $n]>, _> = $s.try_into_bytes(); k += r.is_ok() as u64; } )*
            k
        } } }
        macro_rules! from { ($T:ident, $U:ty, $s:expr, [$($n:literal)*]) => { {
            let mut k = 0;
            $( { let r: Result<$T<[$U; $n]>, _> = $s.try_into_ump(); k += r.is_ok() as u64; } )*
            k
        } } }
        use midi2::channel_voice1::ChannelVoice1;
        use midi2::system_common::SystemCommon;
        if *u {
            for b in bg::backgrounds::<u32>(UMP[*i].spec, 6) {
                let w = &b[..];
                watch(c, UMP[*i].spec.name, || format!("conversion to bytes of {}", hex32(w)), || {
                    let mut k = 1;
                    if let Ok(m) = ChannelVoice1::<&[u32]>::try_from(w) {
                        k += to!(ChannelVoice1, u8, m.clone(), [0 1 2 3 4]);
                    }
                    if let Ok(m) = SystemCommon::<&[u32]>::try_from(w) {
                        k += to!(SystemCommon, u8, m.clone(), [0 1 2 3 4]);
                    }
                    if let Ok(m) = UmpMessage::try_from(w) {
                        let x: Result<UmpMessage<[u32; 12]>, _> = m.clone().try_rebuffer_into();
                        k += x.is_ok() as u64;
                        let x: Result<UmpMessage<[u32; 1]>, _> = m.clone().try_rebuffer_into();
                        k += x.is_ok() as u64;
                    }
                    Ok(k)
                });
            }
        } else {
            for b in bg::backgrounds::<u8>(BYTES[*i].spec, 6) {
                let w = &b[..];
                watch(c, BYTES[*i].spec.name, || format!("conversion to UMP of {}", hex8(w)), || {
                    let mut k = 1;
                    if let Ok(m) = ChannelVoice1::<&[u8]>::try_from(w) {
                        k += from!(ChannelVoice1, u32, m.clone(), [0 1 2 4]);
                    }
                    if let Ok(m) = SystemCommon::<&[u8]>::try_from(w) {
                        k += from!(SystemCommon, u32, m.clone(), [0 1 2 4]);
                    }
                    if let Ok(m) = BytesMessage::try_from(w) {
                        let x: Result<BytesMessage<[u8; 4]>, _> = m.try_rebuffer_into();
                        k += x.is_ok() as u64;
                    }
                    Ok(k)
                });
            }
        }
    });
    let jobs: Vec<usize> = (0..=c.pick(120, 400)).collect();
    c.par("system exclusive conversions", &jobs, |n| format!("{n}"), |n| {
        use midi2::sysex7::Sysex7;
        use midi2::sysex8::Sysex8;
        let pay: Vec<u8> = (0..*n).map(|i| i as u8 & 0x7F).collect();
        let w = sx::Kind::S7U.encode(3, 0, &pay);
        let b: Vec<u8> = sx::Kind::S7B.encode(0, 0, &pay).iter().map(|x| *x as u8).collect();
        let e = sx::Kind::S8.encode(3, 8, &pay);
        watch(c, "Sysex7", || format!("conversions of a payload of {n}"), || {
            let Ok(u) = Sysex7::<&[u32]>::try_from(&w[..]) else { return Err("rejected") };
            let Ok(y) = Sysex7::<&[u8]>::try_from(&b[..]) else { return Err("rejected") };
            let Ok(z) = Sysex8::<&[u32]>::try_from(&e[..]) else { return Err("rejected") };
            let mut k = 1;
            macro_rules! size { ($s:literal) => {
                let r: Result<Sysex7<[u8; $s]>, _> = u.clone().try_into_bytes(); k += r.is_ok() as u64;
                let r: Result<Sysex7<[u32; $s]>, _> = y.clone().try_into_ump(); k += r.is_ok() as u64;
                let r: Result<Sysex7<[u32; $s]>, _> = u.clone().try_rebuffer_into(); k += r.is_ok() as u64;
                let r: Result<Sysex7<[u8; $s]>, _> = y.clone().try_rebuffer_into(); k += r.is_ok() as u64;
                let r: Result<Sysex8<[u32; $s]>, _> = z.clone().try_rebuffer_into(); k += r.is_ok() as u64;
            } }
            size!(0); size!(1); size!(2); size!(4); size!(8); size!(13); size!(30); size!(64); size!(150);
            Ok(k)
        });
    });
}

// ---- part: discovery queries ---------------------------------------------------------------------------------------

fn queries(c: &Arc<Ctx>) {
    let jobs: Vec<u32> = (0..64).collect();
    c.par("discovery queries", &jobs, |i| format!("{i}"), |x| {
        let x = *x;
        macro_rules! q { ($v:literal, $($N:literal)*) => { $( {
            for i in 0..10 { for j in 0..10 {
                watch(c, "DiscoveryQuery", || format!("version {} array of {}: writes {i}, {j} of {x}", $v, $N), || {
                    let Ok(mut m) = midi2::ci::DiscoveryQuery::<$v, [u8; $N]>::try_new() else { return Ok(1) };
                    let s = |k: u32| u7::new((x.wrapping_mul(37) >> k) as u8 & 0x7F);
                    for f in [i, j] {
                        match f {
                            0 => m.set_source(midi2::ux::u28::new(x * 0x11_1111 & 0xFFF_FFFF)),
                            1 => m.set_device_manufacturer([s(0), s(1), s(2)]),
                            2 => m.set_device_family(midi2::ux::u14::new((x * 257) as u16 & 0x3FFF)),
                            3 => m.set_model_number(midi2::ux::u14::new((x * 129) as u16 & 0x3FFF)),
                            4 => m.set_software_version([s(0), s(1), s(2), s(3)]),
                            5 => m.set_process_inquiry_supported(x & 1 == 1),
                            6 => m.set_property_exchange_supported(x & 1 == 1),
                            7 => m.set_profile_configuration_supported(x & 1 == 1),
                            8 => m.set_protocol_negotiation_supported(x & 1 == 1),
                            _ => m.set_max_sysex_size(midi2::ux::u28::new(x * 0x11_1111 & 0xFFF_FFFF)),
                        }
                    }
                    let k = (m.clone() == m) as u64 + run(|| m.payload());
                    let Ok(z) = midi2::ci::DiscoveryQuery::<$v, &[u8]>::try_from(midi2::Data::data(&*m)) else { return Err("rejects its own data") };
                    Ok(k + (same(midi2::Data::data(&*z), midi2::Data::data(&*m))?) + 1)
                });
            } }
        } )* } }
        q!(1, 0 30 31 32 64);
        q!(2, 0 31 32 33 64);
    });
}

fn main() {
    let c = Ctx::new("C20");
    // the observer has to see allocations
    assert!(counted(|| vec![1u8; 10].len()).1 > 0, "harness: the counting allocator does not count");
    assert!(counted(|| ()).1 == 0);
    borrowed(&c);
    owned::<u32>(&c, "owned UMP messages", UMP, ump_array);
    owned::<u8>(&c, "owned byte messages", BYTES, byte_array);
    text(&c);
    sysex(&c);
    convert(&c);
    queries(&c);
    c.finish()
}
