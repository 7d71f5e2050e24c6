//! C14 packets, C15 the iterator contract.
use mc::agg::*;
use mc::bg::*;
use mc::buf::*;
use mc::spec::*;
use mc::sx::{Kind, KINDS};
use mc::*;
use midi2::prelude::*;
use std::sync::Arc;

// ---- messages used by both ----------------------------------------------------------

/// data behind a message
fn tails() -> Vec<Vec<u32>> {
    vec![vec![], vec![0x4091_4142, 0xFFFF_FFFF, 0x2093_4050, 0x4444_4444], vec![0x10F8_0000], vec![0; 5]]
}
/// all lists of packet sizes up to the depth
fn size_lists(sizes: &[usize], depth: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for l in &last {
            for s in sizes {
                let mut l = l.clone();
                l.push(*s);
                next.push(l);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
fn payload(k: Kind, n: usize) -> Vec<u8> {
    (0..n).map(|i| if k == Kind::S8 { (i * 37 + 0x81) as u8 } else { ((i * 5 + 3) & 0x7F) as u8 }).collect()
}
/// sysex messages of every packetisation (dirty unused bytes, too)
fn sysex_messages(k: Kind, sizes: &[usize], depth: usize) -> Vec<Vec<u32>> {
    let mut out = vec![];
    for l in size_lists(sizes, depth) {
        let n: usize = l.iter().sum();
        let u = k.encode_sizes((n % 16) as u8, if k == Kind::S8 { 0xA0 | (n % 16) as u8 } else { 0 }, &payload(k, n), &l);
        out.push(u.clone());
        let mut v = u;
        let (w, first) = if k == Kind::S7U { (2, 2) } else { (4, 3) };
        for (p, c) in v.chunks_mut(w).zip(&l) {
            for b in first + c..4 * w {
                p[b / 4] |= 0x5B << (24 - 8 * (b % 4));
            }
        }
        out.push(v);
    }
    out
}
/// text messages of 1 to 5 packets
fn text_messages(s: &Spec) -> Vec<Vec<u32>> {
    let mut out = vec![];
    let Some(t) = s.text else { return out };
    let cap = match t { TextKind::Flex => 12, TextKind::Stream(o) => 14 - o };
    for base in backgrounds::<u32>(s, 1) {
        for n in [0, 1, cap - 1, cap, cap + 1, 2 * cap, 2 * cap + 1, 3 * cap + 2, 5 * cap] {
            let text: Vec<u8> = (0..n).map(|k| b'!' + (k % 90) as u8).collect();
            out.push(pack_text(t, base[0] & !s.hdr.0 | s.hdr.1, &text));
        }
    }
    out
}

/// (number of packets, text type, sysex kind)
fn long_messages(ctx: &Ctx, th: bool) -> Vec<(usize, &'static Vt<u32>, Option<Kind>)> {
    let mut jobs = vec![];
    for n in mc::long::packets(ctx, true) {
        jobs.push((n, UMP[0], Some(Kind::S7U)));
        jobs.push((n, UMP[0], Some(Kind::S8)));
        for vt in UMP.iter().copied().filter(|v| v.spec.text.is_some()) {
            let some = ["flex_data::Lyrics", "ump_stream::EndpointName", "ump_stream::FunctionBlockName"].contains(&vt.spec.name);
            if if n > 5000 { th && some || vt.spec.name == "flex_data::Lyrics" } else { some || th || n > 254 && n < 259 } {
                jobs.push((n, vt, None));
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.0));
    jobs
}
fn long_message(n: usize, vt: &Vt<u32>, k: Option<Kind>) -> Vec<Vec<u32>> {
    let mut ms = vec![];
    match k {
        Some(k) => {
            for pat in [[k.per(), k.per()], [1, 2], [k.per() - 1, 0]] {
                let sizes: Vec<usize> = (0..n).map(|i| pat[i % 2]).collect();
                ms.push(k.encode_sizes(0xB, 0x5A, &payload(k, sizes.iter().sum()), &sizes));
                if n > 5000 { break; }
            }
        }
        None => {
            let kind = vt.spec.text.unwrap();
            let cap = match kind { TextKind::Flex => 12, TextKind::Stream(o) => 14 - o };
            let mut h = vt.spec.hdr.1;
            if cap == 12 { h |= 0x0215_0000 }
            for l in [n * cap, (n - 1) * cap + 1] {
                let text: Vec<u8> = (0..l).map(|k| b'!' + ((k + k / 90) % 90) as u8).collect();
                ms.push(pack_text(kind, h, &text));
                if n > 5000 { break; }
            }
        }
    }
    ms
}

// ---- C14 ------------------------------------------------------------------------------

fn words_of(mt: u32) -> Option<usize> {
    Some(match mt {
        0..=2 => 1,
        3 | 4 => 2,
        5 | 0xD | 0xF => 4,
        _ => return None,
    })
}

/// one observation of `packets()`: who, data(), packets, re-read through the packet types
type Seen<'a> = &'a mut dyn FnMut(&str, Vec<u32>, Vec<Vec<u32>>, (usize, usize, (usize, Option<usize>)));
fn see<T: Packets>(who: &str, data: &[u32], m: &T, f: Seen) {
    let p: Vec<Vec<u32>> = m.packets().map(|p| p.to_vec()).collect();
    f(who, data.to_vec(), p, (m.packets().len(), m.packets().count(), m.packets().size_hint()));
}
/// the message at the start of the slice through every type holding it and every kind of buffer
fn see_all(u: &[u32], mlen: usize, f: Seen) {
    macro_rules! agg { ($t:path, $on:ident) => {{
        use midi2::Data;
        let m = <$t>::try_from(u).expect("rejected");
        see(stringify!($t), m.data(), &m, f);
        mc::$on!(&m, x => see("concrete", Data::data(x), x, f));
    }} }
    macro_rules! bufs { ($m:expr) => {{
        let m = $m;
        see("UmpMessage", midi2::Data::data(&m), &m, f);
        mc::on_ump!(&m, x => see("concrete in UmpMessage", midi2::Data::data(x), x, f));
    }} }
    bufs!(UmpMessage::try_from(u).expect("rejected"));
    bufs!({ let m: UmpMessage<Vec<u32>> = UmpMessage::try_from(u).unwrap().rebuffer_into(); m });
    settings(mlen + 3, 0xFFFF_FFFF, true);
    bufs!({ let m: UmpMessage<Fix<u32>> = UmpMessage::try_from(u).unwrap().rebuffer_into(); m });
    if u.len() <= 12 {
        bufs!({ let m: UmpMessage<[u32; 12]> = UmpMessage::try_from(u).unwrap().try_rebuffer_into().expect("fits"); m });
    }
    match u[0] >> 28 {
        0 => agg!(midi2::utility::Utility::<&[u32]>, on_util),
        1 => agg!(midi2::system_common::SystemCommon::<&[u32]>, on_sysc),
        2 => agg!(midi2::channel_voice1::ChannelVoice1::<&[u32]>, on_cv1),
        4 => agg!(midi2::channel_voice2::ChannelVoice2::<&[u32]>, on_cv2),
        0xD => agg!(midi2::flex_data::FlexData::<&[u32]>, on_flex),
        0xF => agg!(midi2::ump_stream::UmpStream::<&[u32]>, on_stream),
        3 => { let m = midi2::sysex7::Sysex7::<&[u32]>::try_from(u).expect("rejected"); see("Sysex7", midi2::Data::data(&m), &m, f) }
        _ => { let m = midi2::sysex8::Sysex8::<&[u32]>::try_from(u).expect("rejected"); see("Sysex8", midi2::Data::data(&m), &m, f) }
    }
}
fn check_packets(ctx: &Ctx, who: &str, key: &str, m: &[u32], tail: &[u32]) {
    let mut u = m.to_vec();
    u.extend(tail);
    let size = words_of(m[0] >> 28).unwrap();
    let want: Vec<Vec<u32>> = m.chunks(size).map(|c| c.to_vec()).collect();
    let mut n = 0;
    let r = catch(|| {
        see_all(&u, m.len(), &mut |form, data, p, (len, count, hint)| {
            n += 1;
            if m[0] >> 16 == 0xF010 && data == m && p == [vec![m[0], 0, 0, 0]] && len == 1 && count == 1 && hint == (1, Some(1)) {
                // known: a single word is treated as the message, its packet has four
                ctx.violation("function-block-discovery-size", &format!("{who} as {form} from {}: data {} packets {:X?}", hex32(&u), hex32(&data), p));
                return;
            }
            if data != m || p != want || len != want.len() || count != len || hint != (len, Some(len)) {
                ctx.violation(key, &format!("{who} as {form} from {}: data {} packets {:X?} len {len} count {count} hint {hint:?}", hex32(&u), hex32(&data), p));
            }
        });
        // every packet parses as a packet and reads its own words; the sequence re-parses as the message
        let back: Vec<u32> = want.concat();
        let a = UmpMessage::try_from(&u[..]).map(|m| ump_parsed(&m));
        let b = UmpMessage::try_from(&back[..]).map(|m| ump_parsed(&m));
        if a.is_err() || a != b {
            ctx.violation(key, &format!("{who}: the packets of {} parse as {b:X?}, the message as {a:X?}", hex32(&u)));
        }
        for p in &want {
            check_packet_parse(ctx, p);
        }
    });
    if let Err(e) = r {
        ctx.violation(key, &format!("{who} from {}: {e}", hex32(&u)));
    }
    ctx.bulk(1, n + 1, n + 1);
}

/// everything a packet type offers
#[derive(Debug, PartialEq, Clone, Default)]
struct Rd {
    words: Vec<u32>,
    group: Option<u8>,
    channel: Option<u8>,
    /// 0..3 complete, start, continue, end; 4/5 unexpected end with valid/invalid previous data
    status: Option<u8>,
    stream: Option<u8>,
    payload: Option<Vec<u8>>,
}
fn ref_packet(mt: u32, w: &[u32]) -> Option<Rd> {
    let size = words_of(mt)?;
    // the shortest slices the types take; missing words are zero
    let min = match mt { 3 => 2, 5 => 4, 0xD => 2, _ => 1 };
    if w.len() < min || w[0] >> 28 != mt {
        return None;
    }
    let mut p = vec![0u32; size];
    for (a, b) in p.iter_mut().zip(w) {
        *a = *b;
    }
    let st = (w[0] >> 20 & 0xF) as u8;
    let cnt = (w[0] >> 16 & 0xF) as usize;
    let oct: Vec<u8> = p.iter().flat_map(|x| x.to_be_bytes()).collect();
    let group = Some((w[0] >> 24 & 0xF) as u8);
    let channel = Some((w[0] >> 16 & 0xF) as u8);
    Some(match mt {
        0 => Rd { words: p, ..Default::default() },
        1 => Rd { words: p, group, ..Default::default() },
        2 | 4 => Rd { words: p, group, channel, ..Default::default() },
        3 => {
            if cnt > 6 || st > 3 {
                return None;
            }
            Rd { words: p, group, status: Some(st), payload: Some(oct[2..2 + cnt].iter().map(|b| b & 0x7F).collect()), ..Default::default() }
        }
        5 => {
            let empty = oct[3..].iter().all(|b| *b == 0);
            let status = match (st, cnt) {
                (3, 1) if empty => 4,
                (3, 15) if empty => 5,
                (0..=3, _) => st,
                _ => return None,
            };
            if !(1..=14).contains(&cnt) && status != 5 {
                return None;
            }
            let n = if status == 5 { 0 } else { cnt - 1 };
            Rd { words: p, group, status: Some(status), stream: Some(oct[2]), payload: Some(oct[3..3 + n].to_vec()), ..Default::default() }
        }
        0xD => Rd { words: p, group, status: Some(st >> 2 & 3), ..Default::default() }.tweak(|r| r.status = Some((w[0] >> 22 & 3) as u8)),
        _ => Rd { words: p, status: Some((w[0] >> 26 & 3) as u8), ..Default::default() },
    })
}
impl Rd {
    fn tweak(mut self, f: impl FnOnce(&mut Rd)) -> Rd {
        f(&mut self);
        self
    }
}
/// (the status types cannot be named outside the library)
fn status_code(s: &str) -> u8 {
    ["Complete", "Start", "Continue", "End", "UnexpectedEnd(Valid)", "UnexpectedEnd(Invalid)"].iter().position(|x| *x == s).expect("unknown status") as u8
}
fn hp<D: std::ops::Deref<Target = [u32]>>(p: D) -> u64 {
    h64(&p[..])
}
const MTS: [u32; 8] = [0, 1, 2, 3, 4, 5, 0xD, 0xF];
fn real_packet(mt: u32, w: &[u32], set: Option<(bool, u8)>) -> Option<Rd> {
    let g = |v: u8| midi2::ux::u4::new(v);
    macro_rules! group { ($p:ident) => { if let Some((false, v)) = set { $p.set_group(g(v)); } } }
    macro_rules! channel { ($p:ident) => { if let Some((true, v)) = set { $p.set_channel(g(v)); } } }
    Some(match mt {
        0 => { let p = midi2::utility::Packet::try_from(w).ok()?; Rd { words: p.to_vec(), ..Default::default() } }
        1 => { let mut p = midi2::system_common::Packet::try_from(w).ok()?; group!(p); Rd { words: p.to_vec(), group: Some(p.group().into()), ..Default::default() } }
        2 => { let mut p = midi2::channel_voice1::Packet::try_from(w).ok()?; group!(p); channel!(p); Rd { words: p.to_vec(), group: Some(p.group().into()), channel: Some(p.channel().into()), ..Default::default() } }
        4 => { let mut p = midi2::channel_voice2::Packet::try_from(w).ok()?; group!(p); channel!(p); Rd { words: p.to_vec(), group: Some(p.group().into()), channel: Some(p.channel().into()), ..Default::default() } }
        3 => {
            let mut p = midi2::sysex7::Packet::try_from(w).ok()?;
            group!(p);
            let status = status_code(&format!("{:?}", p.status()));
            Rd { words: p.to_vec(), group: Some(p.group().into()), status: Some(status), payload: Some(p.payload().map(u8::from).collect()), ..Default::default() }
        }
        5 => {
            let mut p = midi2::sysex8::Packet::try_from(w).ok()?;
            group!(p);
            let status = status_code(&format!("{:?}", p.status()));
            Rd { words: p.to_vec(), group: Some(p.group().into()), status: Some(status), stream: Some(p.stream_id()), payload: Some(p.payload().collect()), ..Default::default() }
        }
        0xD => {
            use midi2::flex_data::Format::*;
            let mut p = midi2::flex_data::Packet::try_from(w).ok()?;
            group!(p);
            let status = match p.format() { Complete => 0, Start => 1, Continue => 2, End => 3 };
            Rd { words: p.to_vec(), group: Some(p.group().into()), status: Some(status), ..Default::default() }
        }
        _ => {
            use midi2::ump_stream::Format::*;
            let p = midi2::ump_stream::Packet::try_from(w).ok()?;
            let status = match p.format() { Complete => 0, Start => 1, Continue => 2, End => 3 };
            Rd { words: p.to_vec(), status: Some(status), ..Default::default() }
        }
    })
}
fn check_packet_parse(ctx: &Ctx, w: &[u32]) {
    for mt in MTS {
        let want = ref_packet(mt, w);
        match catch(|| real_packet(mt, w, None)) {
            Err(e) => ctx.violation(&format!("packet{mt:X}:panic"), &format!("packet type {mt:X} from {}: {e}", hex32(w))),
            Ok(got) if got != want => ctx.violation(&format!("packet{mt:X}"), &format!("packet type {mt:X} from {}: got {got:X?}, expected {want:X?}", hex32(w))),
            _ => {}
        }
    }
    ctx.bulk(1, 8, 8);
}
/// writing group and channel changes exactly their bits
fn check_packet_set(ctx: &Ctx, w: &[u32]) {
    let mt = match w.first() { Some(x) => x >> 28, None => return };
    if ref_packet(mt, w).is_none() {
        return;
    }
    for channel in [false, true] {
        if if channel { mt != 2 && mt != 4 } else { mt == 0 || mt == 0xF } {
            continue;
        }
        for v in 0..16u32 {
            let mut x = w.to_vec();
            let sh = if channel { 16 } else { 24 };
            x[0] = x[0] & !(0xF << sh) | v << sh;
            let want = ref_packet(mt, &x);
            match catch(|| real_packet(mt, w, Some((channel, v as u8)))) {
                Ok(got) if got == want => {}
                r => ctx.violation(&format!("packet{mt:X}:set"), &format!("packet type {mt:X} from {}: {}={v:X} gives {r:X?}, expected {want:X?}", hex32(w), if channel { "channel" } else { "group" })),
            }
            ctx.bulk(0, 1, 1);
        }
    }
}

fn c14(ctx: &Arc<Ctx>) {
    let th = ctx.thorough();
    let jobs: Vec<usize> = (0..UMP.len()).collect();
    ctx.par("packets of table messages", &jobs, |j| UMP[*j].spec.name.to_string(), |j| {
        let s = UMP[*j].spec;
        let key = format!("{}:packets", s.name);
        let mut ms = backgrounds::<u32>(s, 6);
        ms.extend(text_messages(s));
        for (i, f) in s.fields.iter().enumerate() {
            for c in (f.corners)() {
                for b in if th { 0..ms.len().min(6) } else { 0..1 } {
                    let mut m = ms[b].clone();
                    write_all(s, i, c, &mut m);
                    ms.push(m);
                }
            }
        }
        for m in &ms {
            for t in tails() {
                if s.text.is_some() && t.iter().any(|x| x >> 28 == m[0] >> 28) {
                    continue;
                }
                check_packets(ctx, s.name, &key, m, &t);
            }
        }
        ctx.sample(|| format!("{}: {} messages, e.g. {}", s.name, ms.len(), hex32(&ms[ms.len() / 2])));
    });
    let mut jobs: Vec<(Kind, Vec<u32>)> = vec![];
    for (k, sizes, d) in [(Kind::S7U, vec![0, 1, 3, 5, 6], ctx.pick(6, 8)), (Kind::S7U, (0..=6).collect(), ctx.pick(4, 6)), (Kind::S8, vec![0, 1, 7, 12, 13], ctx.pick(5, 7)), (Kind::S8, (0..=13).collect(), ctx.pick(3, 4))] {
        jobs.extend(sysex_messages(k, &sizes, d).into_iter().map(|m| (k, m)));
    }
    let chunks: Vec<&[(Kind, Vec<u32>)]> = jobs.chunks(500).collect();
    ctx.par("packets of sysex messages", &chunks, |c| format!("{:?} {}", c[0].0, hex32(&c[0].1)), |c| {
        for (k, m) in c.iter() {
            for t in tails() {
                check_packets(ctx, &format!("{k:?}"), &format!("{k:?}:packets"), m, &t);
            }
            // the payloads of the packets concatenate to the payload of the message, groups and stream ids agree
            let p = (if *k == Kind::S7U { ref_sysex7(m) } else { ref_sysex8(m) }).expect("harness: message");
            let size = if *k == Kind::S7U { 2 } else { 4 };
            let mt = if *k == Kind::S7U { 3 } else { 5 };
            let mut cat: Vec<u64> = vec![];
            let r = catch(|| {
                for c in m.chunks(size) {
                    let r = real_packet(mt, c, None).expect("rejected");
                    cat.extend(r.payload.unwrap().iter().map(|b| *b as u64));
                    assert!(r.group.unwrap() as u64 == p.reads[0] && r.stream.unwrap_or(0) as u64 == p.reads[1]);
                }
            });
            if r.is_err() || cat != p.reads[3..] {
                ctx.violation(&format!("{k:?}:payloads"), &format!("payloads of the packets of {}: {cat:X?} ({r:?}), expected {:X?}", hex32(m), &p.reads[3..]));
            }
        }
    });
    // very long messages
    let jobs = long_messages(ctx, th);
    ctx.par("long", &jobs, |j| format!("{} packets {} {}", j.0, j.1.spec.name, j.2.map(|k| format!("{k:?}")).unwrap_or_default()), |(n, vt, k)| {
        for m in long_message(*n, vt, *k) {
            for t in if *n > 5000 { vec![vec![0x10F8_0000]] } else { tails() } {
                check_packets(ctx, &format!("{n} packets"), &format!("{}:long", k.map(|k| format!("{k:?}")).unwrap_or(vt.spec.name.to_string())), &m, &t);
            }
        }
    });
    // all first half-words x fillers x lengths, as every packet type
    let fill = 12;
    let his: Vec<u32> = (0..256).collect();
    ctx.par("packet headers", &his, |h| format!("{h:X}"), |h| {
        let fills: [[u32; 5]; 12] = [
            [0, 0, 0, 0, 0], [0xFFFF, !0, !0, !0, !0], [0x8080, 0x8080_8080, 0x8080_8080, 0x8080_8080, 0x8080_8080], [0x7F00, 0, 0, 0, 0], [0x0001, 0, 0, 0, 0], [0, 0, 0, 1, 0],
            [0x1234, 0x5678_9ABC, 0xDEF0_1234, 0x5678_9ABC, 0xDEF0_1234], [0xAA55, 0, 0, 0, !0], [0, 0x8000_0000, 0, 0, 0], [0, 0, 1, 0, 0], [0xFF00, 0, 0, 0, 1], [0x00FF, 1, 1, 1, 1],
        ];
        for lo in 0..256u32 {
            for f in &fills[..fill] {
                let w = [h << 24 | lo << 16 | f[0], f[1], f[2], f[3], f[4]];
                for n in 0..=5 {
                    check_packet_parse(ctx, &w[..n]);
                }
                if lo & 0xF == 5 || th {
                    for n in 1..=5 {
                        check_packet_set(ctx, &w[..n]);
                    }
                }
            }
        }
    });
    // every single bit and pair of bits of sysex packets (byte positions of the payload, unexpected ends)
    let heads: Vec<u32> = (0..=0xFFu32).map(|x| 0x5000_0000 | x << 16).chain((0..=0xFFu32).map(|x| 0x3000_0000 | x << 16)).collect();
    ctx.par("sysex packet bits", &heads, |h| format!("{h:X}"), |h| {
        let size = if h >> 28 == 5 { 128 } else { 64 };
        for base in [0u32, !0] {
            for a in 0..size {
                for b in 0..=a {
                    if a >= 16 && a < 32 || b >= 16 && b < 32 {
                        continue;
                    }
                    let mut w = vec![h | base & 0xFFFF, base, base, base];
                    w.truncate(size / 32);
                    w[a / 32] ^= 1 << (a % 32);
                    if b != a {
                        w[b / 32] ^= 1 << (b % 32);
                    }
                    check_packet_parse(ctx, &w);
                }
            }
        }
    });
}

// ---- C15 ------------------------------------------------------------------------------

trait It {
    fn next(&mut self) -> Option<u64>;
    fn nth(&mut self, n: usize) -> Option<u64>;
    fn hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> Option<usize>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<u64>;
    /// through the std adapters
    fn rest(self: Box<Self>) -> Vec<u64>;
    fn folded(self: Box<Self>) -> Vec<u64>;
    fn stepped(self: Box<Self>, skip: usize, step: usize, take: usize) -> Vec<u64>;
    fn dup<'a>(&self) -> Option<Box<dyn It + 'a>> where Self: 'a;
}
macro_rules! it {
    ($w:ident, [$($bound:tt)*], $len:expr, $dup:expr) => {
        struct $w<I, F>(I, F);
        impl<I: Iterator + $($bound)*, F: Fn(I::Item) -> u64 + Copy> It for $w<I, F> {
            fn next(&mut self) -> Option<u64> { self.0.next().map(self.1) }
            fn nth(&mut self, n: usize) -> Option<u64> { self.0.nth(n).map(self.1) }
            fn hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
            fn len(&self) -> Option<usize> { let f: fn(&I) -> Option<usize> = $len; f(&self.0) }
            fn count(self: Box<Self>) -> usize { self.0.count() }
            fn last(self: Box<Self>) -> Option<u64> { self.0.last().map(self.1) }
            fn rest(self: Box<Self>) -> Vec<u64> { self.0.map(self.1).collect() }
            fn folded(self: Box<Self>) -> Vec<u64> { let f = self.1; self.0.fold(vec![], |mut v, x| { v.push(f(x)); v }) }
            fn stepped(self: Box<Self>, skip: usize, step: usize, take: usize) -> Vec<u64> { self.0.skip(skip).step_by(step).take(take).map(self.1).collect() }
            fn dup<'a>(&self) -> Option<Box<dyn It + 'a>> where Self: 'a { let f: fn(&Self) -> Option<Box<dyn It + 'a>> = $dup; f(self) }
        }
    };
}
it!(Cl, [ExactSizeIterator + Clone], |i| Some(i.len()), |s| Some(Box::new(Cl(s.0.clone(), s.1))));
it!(Ex, [ExactSizeIterator], |i| Some(i.len()), |_| None);
it!(Pl, [Sized], |_| None, |_| None);

/// Drives the iterator through every history of next / nth up to the depth; after each one everything that can be
/// asked is compared with the plain list.
struct Drive<'a> {
    ctx: &'a Ctx,
    key: &'a str,
    what: &'a dyn Fn() -> String,
    make: &'a dyn Fn() -> Box<dyn It + 'a>,
    items: &'a [u64],
    nths: Vec<usize>,
    steps: u64,
    bad: bool,
}
impl Drive<'_> {
    fn fail(&mut self, hist: &[Option<usize>], e: String) {
        if !self.bad {
            let h: Vec<String> = hist.iter().map(|x| match x { None => "next".to_string(), Some(n) => format!("nth({n})") }).collect();
            self.ctx.violation(self.key, &format!("{} after [{}]: {e}", (self.what)(), h.join(" ")));
        }
        self.bad = true;
    }
    fn at(&self, hist: &[Option<usize>]) -> Box<dyn It + '_> {
        let mut i = (self.make)();
        for o in hist {
            match o {
                None => i.next(),
                Some(n) => i.nth(*n),
            };
        }
        i
    }
    fn node(&mut self, hist: &mut Vec<Option<usize>>, pos: usize, depth: usize) {
        if self.bad {
            return;
        }
        self.steps += 1;
        let left: Vec<u64> = self.items[pos..].to_vec();
        let h = hist.clone();
        let r = catch(|| {
            let mut i = self.at(&h);
            let hint = i.hint();
            let len = i.len();
            if let Some(l) = len {
                if l != left.len() || hint != (l, Some(l)) {
                    return Some(format!("len {l} size_hint {hint:?}, {} items left", left.len()));
                }
            } else if hint.0 > left.len() || hint.1.is_some_and(|x| x < left.len()) {
                return Some(format!("size_hint {hint:?}, {} items left", left.len()));
            }
            if let Some(c) = i.dup() {
                // the clone runs on its own
                let a = c.rest();
                let b = i.len();
                if a != left || b != len {
                    return Some(format!("a clone yields {a:X?}, expected {left:X?} (len of the original then {b:?})"));
                }
                if let Some(mut c) = i.dup() {
                    i.next();
                    let x = c.next();
                    if x != left.first().copied() {
                        return Some(format!("advancing the original changed its clone: {x:X?}"));
                    }
                }
                i = self.at(&h);
            }
            let a = i.rest();
            if a != left {
                return Some(format!("the rest is {a:X?}, expected {left:X?}"));
            }
            if self.at(&h).folded() != left {
                return Some("fold visits other items".to_string());
            }
            let c = self.at(&h).count();
            if c != left.len() {
                return Some(format!("count {c}, {} items left", left.len()));
            }
            if self.at(&h).last() != left.last().copied() {
                return Some("wrong last".to_string());
            }
            if h.len() <= 1 {
                for (skip, step, take) in [(0, 2, 99), (1, 2, 2), (1, 3, 99), (2, 1, 3), (left.len(), 1, 2), (left.len() + 3, 2, 2), (0, left.len() + 1, 4)] {
                    let s = self.at(&h).stepped(skip, step, take);
                    let w: Vec<u64> = left.iter().copied().skip(skip).step_by(step).take(take).collect();
                    if s != w {
                        return Some(format!("skip({skip}).step_by({step}).take({take}) yields {s:X?}, expected {w:X?}"));
                    }
                }
            }
            if left.is_empty() {
                let mut i = self.at(&h);
                for n in [0, 1, 7, usize::MAX, usize::MAX - 1] {
                    if i.next().is_some() || i.nth(n).is_some() || i.next().is_some() || i.hint().0 != 0 {
                        return Some("an exhausted iterator yields items or hints again".to_string());
                    }
                }
            }
            None
        });
        match r {
            Ok(None) => {}
            Ok(Some(e)) => return self.fail(hist, e),
            Err(e) => return self.fail(hist, format!("panics: {e}")),
        }
        if depth == 0 {
            return;
        }
        let n = left.len();
        let mut ops: Vec<Option<usize>> = vec![None];
        ops.extend(self.nths.iter().filter(|k| **k <= n + 1).map(|k| Some(*k)));
        for k in [n.wrapping_sub(1), n, n + 1, n + 2, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
            if !ops.contains(&Some(k)) && k != usize::MAX / 2 + 1 {
                ops.push(Some(k));
            }
        }
        for o in ops {
            let skip = o.unwrap_or(0);
            let want = left.get(skip).copied();
            let h = hist.clone();
            let got = catch(|| {
                let mut i = self.at(&h);
                match o {
                    None => i.next(),
                    Some(k) => i.nth(k),
                }
            });
            hist.push(o);
            match got {
                Err(e) => self.fail(hist, format!("panics: {e}")),
                Ok(g) if g != want => self.fail(hist, format!("yields {g:X?}, expected {want:X?}")),
                Ok(_) => {
                    self.steps += 1;
                    let np = pos.saturating_add(skip).saturating_add(1).min(self.items.len());
                    self.node(hist, np, depth - 1)
                }
            }
            hist.pop();
            if self.bad {
                return;
            }
        }
    }
}
fn drive<'a>(ctx: &'a Ctx, key: &'a str, what: &'a dyn Fn() -> String, items: &'a [u64], depth: usize, nths: &[usize], make: &'a dyn Fn() -> Box<dyn It + 'a>) {
    // long sequences: fewer levels of full branching
    let mut d = Drive { ctx, key, what, make, items, nths: nths.to_vec(), steps: 0, bad: false };
    d.node(&mut vec![], 0, depth);
    ctx.bulk(1, d.steps, d.steps);
}

fn sysex_iters(ctx: &Ctx, k: Kind, m: &[u32], tail: &[u32], depth: usize, nths: &[usize]) {
    let mut u = m.to_vec();
    u.extend(tail);
    let key = format!("{k:?}:payload");
    match k {
        Kind::S7U | Kind::S8 => {
            let p = (if k == Kind::S7U { ref_sysex7(m) } else { ref_sysex8(m) }).expect("harness");
            let what = || format!("{k:?} payload of {}", hex32(&u));
            let items = &p.reads[3..];
            if k == Kind::S7U {
                let Ok(Ok(x)) = catch(|| midi2::sysex7::Sysex7::<&[u32]>::try_from(&u[..])) else { return ctx.violation(&key, &format!("{} rejected", what())) };
                drive(ctx, &key, &what, items, depth, nths, &|| Box::new(Cl(x.payload(), |b| u8::from(b) as u64)));
                let n = x.payload_size();
                if n != items.len() {
                    ctx.violation(&key, &format!("{}: payload_size {n}", what()));
                }
            } else {
                let Ok(Ok(x)) = catch(|| midi2::sysex8::Sysex8::<&[u32]>::try_from(&u[..])) else { return ctx.violation(&key, &format!("{} rejected", what())) };
                drive(ctx, &key, &what, items, depth, nths, &|| Box::new(Cl(x.payload(), |b| b as u64)));
                let n = x.payload_size();
                if n != items.len() {
                    ctx.violation(&key, &format!("{}: payload_size {n}", what()));
                }
            }
        }
        Kind::S7B => {
            let b: Vec<u8> = u.iter().map(|x| *x as u8).collect();
            let p = ref_bytes(&b).expect("harness");
            let what = || format!("{k:?} payload of {}", hex8(&b));
            let Ok(Ok(x)) = catch(|| midi2::sysex7::Sysex7::<&[u8]>::try_from(&b[..])) else { return ctx.violation(&key, &format!("{} rejected", what())) };
            drive(ctx, &key, &what, &p.reads[3..], depth, nths, &|| Box::new(Cl(x.payload(), |b| u8::from(b) as u64)));
            if x.payload_size() != p.reads.len() - 3 {
                ctx.violation(&key, &format!("{}: payload_size {}", what(), x.payload_size()));
            }
        }
    }
}
/// packets() of a message through the aggregate and the concrete type
fn packet_iters(ctx: &Ctx, name: &str, m: &[u32], tail: &[u32], depth: usize, nths: &[usize]) {
    if name == "ump_stream::FunctionBlockDiscovery" {
        return; // C14's known finding
    }
    let mut u = m.to_vec();
    u.extend(tail);
    let key = format!("{name}:packets");
    let items: Vec<u64> = m.chunks(words_of(m[0] >> 28).unwrap()).map(h64).collect();
    let what = || format!("packets of {name} {}", hex32(&u));
    let Ok(Ok(x)) = catch(|| UmpMessage::try_from(&u[..])) else { return ctx.violation(&key, &format!("{} rejected", what())) };
    drive(ctx, &key, &what, &items, depth, nths, &|| Box::new(Cl(x.packets(), hp)));
    on_ump!(&x, y => drive(ctx, &key, &what, &items, depth.min(3), nths, &|| Box::new(Cl(y.packets(), hp))));
}
macro_rules! texty { ($(($m:ident $t:ident))*) => { vec![ $( (concat!(stringify!($m), "::", stringify!($t)), {
    fn go(ctx: &Ctx, key: &str, u: &[u32], items: &[u64], depth: usize, nths: &[usize]) {
        let what = || format!("{} of {}", key, hex32(u));
        let Ok(Ok(x)) = catch(|| midi2::$m::$t::try_from(u)) else { return ctx.violation(key, &format!("{} rejected", what())) };
        drive(ctx, key, &what, items, depth, nths, &|| Box::new(Pl(tb!($t, x), |b| b as u64)));
        // and from an owned, edited message
        use midi2::prelude::*;
        let y: midi2::$m::$t<Vec<u32>> = midi2::$m::$t::try_from(u).unwrap().rebuffer_into();
        drive(ctx, key, &what, items, depth.min(2), nths, &|| Box::new(Pl(tb!($t, y), |b| b as u64)));
    }
    go as fn(&Ctx, &str, &[u32], &[u64], usize, &[usize])
}), )* ] } }
macro_rules! tb {
    (ComposerName, $x:ident) => { $x.name_bytes() };
    (EndpointName, $x:ident) => { $x.name_bytes() };
    (FunctionBlockName, $x:ident) => { $x.name_bytes() };
    (ProductInstanceId, $x:ident) => { $x.id_bytes() };
    ($t:ident, $x:ident) => { $x.text_bytes() };
}

fn c15(ctx: &Arc<Ctx>) {
    let th = ctx.thorough();
    let all: Vec<usize> = (0..64).collect();
    let few = [0usize, 1, 2, 5, 6, 7, 12, 13, 14];
    // payloads of messages: every packetisation, all histories
    let mut jobs: Vec<(Kind, Vec<u32>, usize)> = vec![];
    for m in sysex_messages(Kind::S7U, &(0..=6).collect::<Vec<_>>(), ctx.pick(3, 4)) {
        jobs.push((Kind::S7U, m, 3));
    }
    for m in sysex_messages(Kind::S7U, &[0, 1, 2, 6], ctx.pick(4, 5)) {
        jobs.push((Kind::S7U, m, ctx.pick(2, 3)));
    }
    for m in sysex_messages(Kind::S7U, &[0, 1, 2], 3) {
        jobs.push((Kind::S7U, m, 6));
    }
    for m in sysex_messages(Kind::S8, &(0..=13).collect::<Vec<_>>(), 2) {
        jobs.push((Kind::S8, m, ctx.pick(2, 3)));
    }
    for m in sysex_messages(Kind::S8, &[0, 1, 6, 13], ctx.pick(3, 4)) {
        jobs.push((Kind::S8, m, 2));
    }
    for m in sysex_messages(Kind::S8, &[0, 1, 2], 3) {
        jobs.push((Kind::S8, m, 6));
    }
    for n in 0..=ctx.pick(20, 40) {
        let mut m: Vec<u32> = vec![0xF0];
        m.extend((0..n).map(|i| (i * 7 + 1) & 0x7F));
        m.push(0xF7);
        jobs.push((Kind::S7B, m, if n < 8 { 6 } else { 3 }));
    }
    assert_eq!(KINDS.len(), 3);
    let chunks: Vec<&[(Kind, Vec<u32>, usize)]> = jobs.chunks(4).collect();
    ctx.par("sysex payload iterators", &chunks, |c| format!("{:?} {}", c[0].0, hex32(&c[0].1)), |c| {
        for (k, m, d) in c.iter() {
            let ts: Vec<Vec<u32>> = if *k == Kind::S7B { vec![vec![], vec![0x90, 0x40, 0x41], vec![0xF7, 0x12], vec![0x33, 0xF7]] } else { tails() };
            let n = m.len();
            for (i, t) in ts.iter().enumerate() {
                let d = if i == 0 { *d } else { (*d).min(2) };
                sysex_iters(ctx, *k, m, t, d, if d > 3 || n <= 8 || th { &all } else { &few });
            }
        }
    });
    // very long ones
    let far = [0usize, 1, 126, 127, 128, 253, 254, 255, 256, 257, 258, 511, 512, 32767, 32768, 65534, 65535, 65536, 65537, 65538];
    let jobs = long_messages(ctx, th);
    ctx.par("long", &jobs, |j| format!("{} packets {} {}", j.0, j.1.spec.name, j.2.map(|k| format!("{k:?}")).unwrap_or_default()), |(n, vt, k)| {
        for m in long_message(*n, vt, *k) {
            let big = *n > 5000;
            for t in if big || !th { vec![vec![0x10F8_0000]] } else { tails() } {
                packet_iters(ctx, &format!("long {}", k.map(|k| format!("{k:?}")).unwrap_or(vt.spec.name.to_string())), &m, &t, if big { 1 } else { 2 }, &far);
                if let Some(k) = k {
                    sysex_iters(ctx, *k, &m, &t, if big { 1 } else { 2 }, &far);
                }
            }
        }
    });
    let mut jobs = mc::long::bytes(ctx, true);
    jobs.reverse();
    ctx.par("long bytes", &jobs, |n| format!("{n}"), |n| {
        let d = if *n > 5000 { 1 } else { 2 };
        for k in KINDS {
            sysex_iters(ctx, k, &k.encode(5, 0x42, &payload(k, *n)), if k == Kind::S7B { &[0x90, 1, 2] } else { &[0x10F8_0000] }, d, &far);
        }
    });
    let tys = each_text!(texty);
    let jobs: Vec<(usize, usize)> = mc::long::packets(ctx, true).into_iter().rev().flat_map(|n| (0..tys.len()).map(move |j| (n, j))).filter(|j| j.0 < 5000 || th || j.1 == 0 || j.1 + 1 == each_text!(texty).len()).collect();
    ctx.par("long texts", &jobs, |j| format!("{} packets {}", j.0, tys[j.1].0), |&(n, j)| {
        let (name, go) = tys[j];
        let vt = *UMP.iter().find(|v| v.spec.name == name).unwrap();
        for m in long_message(n, vt, None) {
            let items: Vec<u64> = text_of(vt.spec.text.unwrap(), &m).iter().map(|b| *b as u64).collect();
            let mut u = m.clone();
            u.push(0x10F8_0000);
            go(ctx, &format!("{name}:long text bytes"), &u, &items, if n > 5000 || !th { 1 } else { 2 }, &far);
        }
    });
    // packets of every message
    let jobs: Vec<usize> = (0..UMP.len()).collect();
    ctx.par("packet iterators", &jobs, |j| UMP[*j].spec.name.to_string(), |j| {
        let s = UMP[*j].spec;
        let mut ms = backgrounds::<u32>(s, 2);
        ms.extend(text_messages(s));
        for m in &ms {
            for t in tails() {
                if s.text.is_some() && t.iter().any(|x| x >> 28 == m[0] >> 28) {
                    continue;
                }
                packet_iters(ctx, s.name, m, &t, 4, &all);
            }
        }
    });
    let lists: Vec<(Kind, Vec<usize>)> = (1..=ctx.pick(9, 12)).flat_map(|n| [(Kind::S7U, vec![6; n]), (Kind::S7U, vec![1; n]), (Kind::S8, vec![13; n]), (Kind::S8, vec![2; n])]).collect();
    ctx.par("packet iterators of sysex", &lists, |c| format!("{c:?}"), |(k, l)| {
        let n: usize = l.iter().sum();
        let m = k.encode_sizes(3, if *k == Kind::S8 { 9 } else { 0 }, &payload(*k, n), l);
        for t in tails() {
            packet_iters(ctx, if *k == Kind::S7U { "sysex7::Sysex7" } else { "sysex8::Sysex8" }, &m, &t, ctx.pick(5, 6).min(if l.len() > 6 { 4 } else { 9 }), &all);
        }
    });
    // payloads of single packets: every status and count
    let heads: Vec<u32> = (0..=0x3Fu32).flat_map(|x| [0x3000_0000 | x << 16, 0x5000_0000 | x << 16]).collect();
    ctx.par("packet payload iterators", &heads, |h| format!("{h:X}"), |h| {
        for fill in [0u32, !0, 0x1234_5678] {
            let w = [h | fill & 0xFFFF, fill ^ 0x0101_0202, fill, fill ^ 0x8000_0001];
            let key = format!("packet{:X}:payload", h >> 28);
            let what = || format!("payload of packet {}", hex32(&w));
            let Some(r) = ref_packet(h >> 28, &w) else { continue };
            let items: Vec<u64> = r.payload.unwrap().iter().map(|b| *b as u64).collect();
            let depth = if items.len() <= 7 { 5 } else { 3 };
            if h >> 28 == 3 {
                let Ok(Ok(p)) = catch(|| midi2::sysex7::Packet::try_from(&w[..])) else { ctx.violation(&key, &format!("{} rejected", what())); continue };
                drive(ctx, &key, &what, &items, depth, &all, &|| Box::new(Ex(p.payload(), |b| u8::from(b) as u64)));
            } else {
                let Ok(Ok(p)) = catch(|| midi2::sysex8::Packet::try_from(&w[..])) else { ctx.violation(&key, &format!("{} rejected", what())); continue };
                drive(ctx, &key, &what, &items, depth, &all, &|| Box::new(Ex(p.payload(), |b| b as u64)));
            }
        }
    });
    // text bytes: canonical texts and partly filled packets
    let tys = each_text!(texty);
    let jobs: Vec<usize> = (0..tys.len()).collect();
    ctx.par("text iterators", &jobs, |j| tys[*j].0.to_string(), |j| {
        let (name, go) = tys[*j];
        let vt = *UMP.iter().find(|v| v.spec.name == name).unwrap();
        let s = vt.spec;
        let kind = s.text.unwrap();
        let mut ms = text_messages(s);
        ms.extend(backgrounds::<u32>(s, 6));
        let cap = match kind { TextKind::Flex => 12, TextKind::Stream(o) => 14 - o };
        // one and two packets with every pattern of a few empty bytes
        let mut d = s.default_units::<u32>();
        d.extend(s.default_units::<u32>());
        let fsh = match kind { TextKind::Flex => 22, TextKind::Stream(_) => 26 };
        d[0] |= 1 << fsh;
        d[4] |= 3 << fsh;
        for pat in 0..1u32 << 6 {
            let mut m = d.clone();
            for (k, at) in [0, 1, cap - 1, cap, cap + 1, 2 * cap - 1].iter().enumerate() {
                if pat >> k & 1 == 1 {
                    let (p, b) = (at / cap, 16 - cap + at % cap);
                    m[4 * p + b / 4] |= (0x41 + k as u32) << (24 - 8 * (b % 4));
                }
            }
            ms.push(m);
        }
        for m in &ms {
            for t in tails() {
                if t.iter().any(|x| x >> 28 == m[0] >> 28) {
                    continue;
                }
                let mut u = m.clone();
                u.extend(&t);
                let items: Vec<u64> = text_of(kind, m).iter().map(|b| *b as u64).collect();
                let depth = if items.len() <= 6 { 4 } else { ctx.pick(2, 3) };
                go(ctx, &format!("{name}:text bytes"), &u, &items, if t.is_empty() { depth } else { depth.min(2) }, if items.len() <= 12 { &all } else { &few });
            }
        }
    });
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&prop);
    match prop.as_str() {
        "C14" => c14(&ctx),
        "C15" => c15(&ctx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(4);
        }
    }
    ctx.finish()
}
