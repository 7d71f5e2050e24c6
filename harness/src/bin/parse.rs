//! C04 parsing is safe, C05 acceptance and classification, C06 multi-packet acceptance.
use mc::agg::*;
use mc::bg::*;
use mc::buf::*;
use mc::spec::*;
use mc::*;
use midi2::prelude::*;
use std::sync::Arc;


fn cmp<U: Un>(ctx: &Ctx, key: &str, input: &[U], got: Result<Option<Parsed<U>>, String>, want: &Option<Parsed<U>>) {
    match got {
        Err(e) => ctx.violation(&format!("{key}:panic"), &format!("{key} of {}: {e}", show(input))),
        Ok(g) => {
            if g != *want {
                let f = |p: &Option<Parsed<U>>| match p {
                    None => "rejected".to_string(),
                    Some(p) => format!("{} data {} reads {:X?}", p.name, show(&p.data), p.reads),
                };
                let name = want.as_ref().or(g.as_ref()).map(|p| p.name).unwrap_or("");
                ctx.violation(&format!("{key}:{name}"), &format!("{key} of {}: got {}, expected {}", show(input), f(&g), f(want)));
            }
        }
    }
}

/// name prefix of a family aggregate by message type
fn fam_of(w: &[u32]) -> u32 {
    w.first().map(|x| x >> 28).unwrap_or(9)
}

/// the whole comparison for one UMP input: UmpMessage, the aggregates, every concrete type
fn check_ump(ctx: &Ctx, w: &[u32]) -> bool {
    let want = ref_ump(w);
    cmp(ctx, "UmpMessage", w, catch(|| UmpMessage::try_from(w).ok().map(|m| ump_parsed(&m))), &want);
    let mt = fam_of(w);
    macro_rules! fam { ($n:literal, $mts:expr, $t:path, $on:ident) => {{
        let exp = if mt == $mts { want.clone() } else { None };
        cmp(ctx, $n, w, catch(|| <$t>::try_from(w).ok().map(|m| mc::$on!(&m, x => parsed::<u32>(x)))), &exp);
    }} }
    fam!("ChannelVoice1", 2, midi2::channel_voice1::ChannelVoice1::<&[u32]>, on_cv1);
    fam!("ChannelVoice2", 4, midi2::channel_voice2::ChannelVoice2::<&[u32]>, on_cv2);
    fam!("SystemCommon", 1, midi2::system_common::SystemCommon::<&[u32]>, on_sysc);
    fam!("Utility", 0, midi2::utility::Utility::<&[u32]>, on_util);
    fam!("FlexData", 0xD, midi2::flex_data::FlexData::<&[u32]>, on_flex);
    fam!("UmpStream", 0xF, midi2::ump_stream::UmpStream::<&[u32]>, on_stream);
    cmp(ctx, "Sysex7", w, catch(|| midi2::sysex7::Sysex7::<&[u32]>::try_from(w).ok().map(|m| parsed::<u32>(&m))), &(if mt == 3 { want.clone() } else { None }));
    cmp(ctx, "Sysex8", w, catch(|| midi2::sysex8::Sysex8::<&[u32]>::try_from(w).ok().map(|m| parsed::<u32>(&m))), &(if mt == 5 { want.clone() } else { None }));
    for vt in UMP {
        let exp = match &want {
            Some(p) if p.name == vt.spec.name => Some(p),
            _ => None,
        };
        match (catch(|| (vt.read)(w)), exp) {
            (Ok(None), None) => {}
            (Ok(Some((d, r))), Some(e)) if d == e.data && r == e.reads => {}
            (got, exp) => ctx.violation(
                &format!("{}:{}", vt.spec.name, if got.is_err() { "panic" } else { "accept" }),
                &format!("{}::try_from({}): got {got:X?}, expected {exp:X?}", vt.spec.name, hex32(w)),
            ),
        }
    }
    ctx.bulk(0, 9 + UMP.len() as u64, 1);
    want.is_some()
}
fn check_bytes(ctx: &Ctx, w: &[u8]) -> bool {
    let want = ref_bytes(w);
    cmp(ctx, "BytesMessage", w, catch(|| BytesMessage::try_from(w).ok().map(|m| bytes_parsed(&m))), &want);
    let s = w.first().copied().unwrap_or(0);
    let pick = |c: bool| if c { want.clone() } else { None };
    cmp(ctx, "ChannelVoice1/bytes", w, catch(|| midi2::channel_voice1::ChannelVoice1::<&[u8]>::try_from(w).ok().map(|m| mc::on_cv1!(&m, x => parsed::<u8>(x)))), &pick((0x80..0xF0).contains(&s)));
    cmp(ctx, "SystemCommon/bytes", w, catch(|| midi2::system_common::SystemCommon::<&[u8]>::try_from(w).ok().map(|m| mc::on_sysc!(&m, x => parsed::<u8>(x)))), &pick(s > 0xF0));
    cmp(ctx, "Sysex7/bytes", w, catch(|| midi2::sysex7::Sysex7::<&[u8]>::try_from(w).ok().map(|m| parsed::<u8>(&S7Bytes(&m)))), &pick(s == 0xF0));
    for vt in BYTES {
        let exp = match &want {
            Some(p) if p.name == vt.spec.name => Some(p),
            _ => None,
        };
        match (catch(|| (vt.read)(w)), exp) {
            (Ok(None), None) => {}
            (Ok(Some((d, r))), Some(e)) if d == e.data && r == e.reads => {}
            (got, exp) => ctx.violation(
                &format!("{}/bytes:{}", vt.spec.name, if got.is_err() { "panic" } else { "accept" }),
                &format!("{}::try_from({}): got {got:X?}, expected {exp:X?}", vt.spec.name, hex8(w)),
            ),
        }
    }
    ctx.bulk(0, 4 + BYTES.len() as u64, 1);
    want.is_some()
}

type F32<'a> = &'a (dyn Fn(&[u32]) -> bool + Sync);
type F8<'a> = &'a (dyn Fn(&[u8]) -> bool + Sync);

/// all first words: every upper half x some lower halves x tails x lengths
fn first_words(ctx: &Arc<Ctx>, f: F32) {
    let lows: &[u32] = ctx.pick(&[0x0000, 0x7F7F][..], &[0x0000, 0x7F7F, 0x0101, 0xFFFF, 0x8040, 0x0203][..]);
    let tails: &[u32] = ctx.pick(&[0, 0x4142_4344][..], &[0, 0x4142_4344, 0xFFFF_FFFF, 0x0081_0101][..]);
    let lens: &[usize] = ctx.pick(&[1, 2, 3, 4, 5][..], &[1, 2, 3, 4, 5, 8][..]);
    let jobs: Vec<u32> = (0..256).collect();
    ctx.par("first-words", &jobs, |j| format!("{j:02X}"), |j| {
        let (mut n, mut ok) = (0, 0);
        for k in 0..256u32 {
            for low in lows {
                for t in tails {
                    for l in lens {
                        let mut w = vec![*t; *l];
                        w[0] = j << 24 | k << 16 | low;
                        ok += f(&w) as u64;
                        n += 1;
                    }
                }
            }
        }
        ctx.bulk(n, 0, 0);
        ctx.outcome("first-words accepted", ok);
        ctx.outcome("first-words rejected", n - ok);
    });
    // the bank/status half word of flex data
    let tops: Vec<u32> = (0..256u32).filter(|t| ctx.thorough() || t & 0x3F < 2 || t & 0x3F == 0x1F).collect();
    ctx.par("flex-bank-status", &tops, |j| format!("D0{j:02X}"), |top| {
        let (mut n, mut ok) = (0, 0);
        for low in 0..0x1_0000u32 {
            // all banks with low statuses, all statuses of low banks, and every 17th combination
            if !ctx.thorough() && low >> 8 > 3 && low & 0xFF > 12 && low % 17 != 0 {
                continue;
            }
            for t in [0u32, 0x4142_4344] {
                let w = [0xD000_0000 | top << 16 | low, t, t, t];
                ok += f(&w) as u64;
                n += 1;
            }
        }
        ctx.bulk(n, 0, 0);
        ctx.outcome("flex-bank-status accepted", ok);
        ctx.outcome("flex-bank-status rejected", n - ok);
    });
}

/// trailing data: every message of the table followed by every kind of data
fn trailing_words() -> Vec<Vec<u32>> {
    let mut v = vec![];
    let mut heads: Vec<u32> = (0..16u32).flat_map(|t| [t << 28, t << 28 | 0x0FFF_FFFF, t << 28 | 0x0091_4050, t << 28 | 0x0013_4050]).collect();
    heads.extend([0x3016_4142, 0x3036_4142, 0x3026_0000, 0x5013_0041, 0x5033_0041, 0xD010_0101, 0xD0D0_0101, 0xF403_4142, 0xFC03_4142, 0xF410_0001]);
    for h in heads {
        for n in [1usize, 2, 4, 5] {
            let mut t = vec![0x3142_4344; n];
            t[0] = h;
            if n == 5 {
                t[4] = h;
            }
            v.push(t);
        }
    }
    v
}
fn messages(ctx: &Ctx) -> Vec<(&'static str, Vec<u32>)> {
    let mut v: Vec<(&'static str, Vec<u32>)> = vec![];
    for vt in UMP {
        for b in backgrounds::<u32>(vt.spec, ctx.pick(3, 6)) {
            v.push((vt.spec.name, b));
        }
    }
    for k in [mc::sx::Kind::S7U, mc::sx::Kind::S8] {
        for n in [0usize, 1, 5, 6, 7, 12, 13, 14, 27] {
            v.push((if k == mc::sx::Kind::S8 { SX8 } else { SX7 }, k.encode(5, 0xA7, &(0..n as u8).map(|x| x + 1).collect::<Vec<_>>())));
        }
    }
    v
}
fn trailing(ctx: &Arc<Ctx>, f: F32) {
    let tw = trailing_words();
    let ms = messages(ctx);
    ctx.par("trailing", &ms, |j| j.0.to_string(), |(_, m)| {
        let mut n = 0;
        for cut in 0..=m.len() {
            f(&m[..cut]);
            n += 1;
        }
        for t in &tw {
            let mut w = m.clone();
            w.extend(t);
            f(&w);
            n += 1;
        }
        // two messages behind each other
        for (_, o) in ms.iter().step_by(ctx.pick(5, 1)) {
            let mut w = m.clone();
            w.extend(o);
            f(&w);
            n += 1;
        }
        ctx.bulk(n, 0, 0);
    });
}
/// every single and double bit flip of every message, every raw code of every field
fn flips(ctx: &Arc<Ctx>, f: F32) {
    let ms = messages(ctx);
    let deep = ctx.thorough();
    ctx.par("bit-flips", &ms, |j| j.0.to_string(), |(_, m)| {
        let bits = m.len() * 32;
        let (mut n, mut ok) = (0, 0);
        let mut w = m.clone();
        for a in 0..bits {
            w[a / 32] ^= 1 << (a % 32);
            ok += f(&w) as u64;
            n += 1;
            let second: Box<dyn Iterator<Item = usize>> = if deep && bits <= 128 { Box::new(a + 1..bits) } else { Box::new((a / 32 * 32..bits.min(a / 32 * 32 + 32)).filter(move |b| *b > a)) };
            if deep || bits <= 128 {
                for b in second {
                    w[b / 32] ^= 1 << (b % 32);
                    ok += f(&w) as u64;
                    n += 1;
                    w[b / 32] ^= 1 << (b % 32);
                }
            }
            w[a / 32] ^= 1 << (a % 32);
        }
        ctx.bulk(n, 0, 0);
        ctx.outcome("flips accepted", ok);
        ctx.outcome("flips rejected", n - ok);
    });
    let jobs: Vec<(&Vt<u32>, usize)> = UMP.iter().flat_map(|vt| (0..vt.spec.fields.len()).map(move |i| (*vt, i))).collect();
    ctx.par("raw-codes", &jobs, |(vt, i)| format!("{}.{}", vt.spec.name, vt.spec.fields[*i].name), |(vt, i)| {
        let fl = &vt.spec.fields[*i];
        let w = fl.width();
        let codes: Vec<u64> = if w <= ctx.pick(8, 16) { (0..1u64 << w).collect() } else { mc::code::uint_codes(w, false) };
        let (mut n, mut ok) = (0, 0);
        for b in backgrounds::<u32>(vt.spec, ctx.pick(2, 6)) {
            for c in &codes {
                // whole message, and only one packet of it
                let mut m = b.clone();
                write_all(vt.spec, *i, *c, &mut m);
                ok += f(&m) as u64;
                n += 1;
                if m.len() > 4 {
                    for p in 0..m.len() / 4 {
                        let mut m = b.clone();
                        fl.write(&mut m[4 * p..4 * p + 4], *c);
                        ok += f(&m) as u64;
                        n += 1;
                    }
                }
            }
        }
        ctx.bulk(n, 0, 0);
        ctx.outcome("raw-codes accepted", ok);
        ctx.outcome("raw-codes rejected", n - ok);
    });
}
/// byte sequences in texts: validity of UTF-8 within and across packets
fn texts(ctx: &Arc<Ctx>, f: F32) {
    let al: &[u8] = &[0x00, 0x41, 0xC3, 0xA9, 0xE2, 0x82, 0xED, 0xF0, 0x9F, 0xFF];
    let depth = ctx.pick(4, 5);
    let kinds: Vec<(&Vt<u32>, TextKind)> = UMP.iter().filter_map(|v| v.spec.text.map(|t| (*v, t))).collect();
    let kinds: Vec<_> = if ctx.thorough() { kinds } else { kinds.into_iter().filter(|(v, t)| !matches!(t, TextKind::Flex) || v.spec.name.ends_with("Lyrics") || v.spec.name.ends_with("ComposerName")).collect() };
    let jobs: Vec<(&Vt<u32>, TextKind, u8)> = kinds.iter().flat_map(|(v, t)| al.iter().map(move |a| (*v, *t, *a))).collect();
    ctx.par("utf8", &jobs, |j| format!("{} {:02X}", j.0.spec.name, j.2), |(vt, t, a0)| {
        let from = match t {
            TextKind::Flex => 4,
            TextKind::Stream(o) => 2 + o,
        };
        let mut total = 1;
        for _ in 1..depth {
            total *= al.len();
        }
        let fsh = if matches!(t, TextKind::Flex) { 22 } else { 26 };
        let (mut n, mut ok) = (0, 0);
        for idx in 0..total {
            let mut s = vec![*a0];
            let mut x = idx;
            for _ in 1..depth {
                s.push(al[x % al.len()]);
                x /= al.len();
            }
            // at the start of a Complete packet, at its end, and across a packet border
            let hdr = vt.spec.hdr.1;
            let put = |p: &mut [u32], at: usize, b: u8| p[at / 4] |= (b as u32) << (24 - 8 * (at % 4));
            for place in 0..3 {
                let mut w = vec![0u32; if place == 2 { 8 } else { 4 }];
                w[0] = hdr;
                if place == 2 {
                    w[0] |= 1 << fsh;
                    w[4] = hdr | 3 << fsh;
                    for k in from..14 {
                        put(&mut w, k, 0x41);
                    }
                }
                for (k, b) in s.iter().enumerate() {
                    match place {
                        0 => put(&mut w, from + k, *b),
                        1 => put(&mut w, 16 - depth + k, *b),
                        _ if k < 2 => put(&mut w, 14 + k, *b),
                        _ => put(&mut w[4..], from + k - 2, *b),
                    }
                }
                ok += f(&w) as u64;
                n += 1;
            }
        }
        ctx.bulk(n, 0, 0);
        ctx.outcome("utf8 accepted", ok);
        ctx.outcome("utf8 rejected", n - ok);
    });
}
fn bytes(ctx: &Arc<Ctx>, f: F8) {
    let thirds: Vec<u8> = if ctx.thorough() { (0..=255).collect() } else { vec![0, 1, 0x40, 0x7F, 0x80, 0x90, 0xF0, 0xF7, 0xFF] };
    f(&[]);
    let jobs: Vec<u8> = (0..=255).collect();
    ctx.par("bytes3", &jobs, |j| format!("{j:02X}"), |a| {
        let mut n = 1;
        f(&[*a]);
        for b in 0..=255u8 {
            f(&[*a, b]);
            for c in &thirds {
                f(&[*a, b, *c]);
                n += 1;
            }
            n += 1;
        }
        ctx.bulk(n, 0, 0);
    });
    // four and five bytes: what follows does not matter
    let tl: Vec<u8> = vec![0, 0x7F, 0x80, 0x93, 0xF0, 0xF7, 0xF8, 0xFF];
    ctx.par("bytes-trailing", &jobs, |j| format!("{j:02X}"), |a| {
        let mut n = 0;
        for b in &tl {
            for c in &tl {
                for d in &tl {
                    f(&[*a, *b, *c, *d]);
                    for e in &tl {
                        f(&[*a, *b, *c, *d, *e]);
                        n += 1;
                    }
                    n += 1;
                }
            }
        }
        ctx.bulk(n, 0, 0);
    });
    // sysex
    let al: Vec<u8> = ctx.pick(vec![0xF0, 0xF7, 0x00, 0x7F, 0x80, 0xFF], vec![0xF0, 0xF7, 0x00, 0x7E, 0x7F, 0x80, 0x90, 0xF8, 0xFF]);
    let depth = ctx.pick(5, 6);
    let firsts: Vec<(u8, u8)> = al.iter().flat_map(|a| al.iter().map(move |b| (*a, *b))).collect();
    ctx.par("bytes-sysex", &firsts, |j| format!("{j:02X?}"), |(a, b)| {
        fn rec(v: &mut Vec<u8>, d: usize, al: &[u8], f: F8, n: &mut u64, ok: &mut u64) {
            *ok += f(v) as u64;
            *n += 1;
            if d == 0 {
                return;
            }
            for x in al {
                v.push(*x);
                rec(v, d - 1, al, f, n, ok);
                v.pop();
            }
        }
        let (mut n, mut ok) = (0, 0);
        let mut v = vec![0xF0, *a, *b];
        rec(&mut v, depth - 2, &al, f, &mut n, &mut ok);
        ctx.bulk(n, 0, 0);
        ctx.outcome("bytes-sysex accepted", ok);
        ctx.outcome("bytes-sysex rejected", n - ok);
    });
    // long ones
    let lens: Vec<usize> = (0..ctx.pick(40, 140)).collect();
    ctx.par("bytes-sysex-long", &lens, |j| format!("{j}"), |l| {
        let mut base: Vec<u8> = vec![0xF0];
        base.extend((0..*l).map(|k| (k * 7 & 0x7F) as u8));
        let mut n = 0;
        for end in [0x00u8, 0x7F, 0x80, 0xF0, 0xF7, 0xF8, 0xFF] {
            for extra in [&[][..], &[0xF7], &[0x00], &[0xF0, 0xF7], &[0x90, 0, 0]] {
                let mut w = base.clone();
                w.push(end);
                w.extend(extra);
                f(&w);
                n += 1;
                for at in 1..=*l {
                    let mut x = w.clone();
                    x[at] |= 0x80;
                    f(&x);
                    n += 1;
                }
            }
        }
        ctx.bulk(n, 0, 0);
    });
}

/// every pair of first and second byte of a character
fn utf8_pairs(ctx: &Arc<Ctx>, f: F32) {
    let vts: Vec<&Vt<u32>> = UMP.iter().copied().filter(|v| ["flex_data::Lyrics", "ump_stream::EndpointName", "ump_stream::FunctionBlockName"].contains(&v.spec.name) || v.spec.text.is_some() && ctx.thorough()).collect();
    let jobs: Vec<(&Vt<u32>, u32)> = vts.iter().flat_map(|v| (0x41..=0xFF).map(move |b| (*v, b))).collect();
    ctx.par("utf8-pairs", &jobs, |j| format!("{} {:02X}", j.0.spec.name, j.1), |(vt, a)| {
        let at = if let Some(TextKind::Stream(1)) = vt.spec.text { 8 } else { 4 };
        let (mut n, mut ok) = (0, 0);
        for b in 0..=255u32 {
            for (c, d) in [(0, 0), (0x80, 0), (0xBF, 0x41), (0x80, 0x80), (0xBF, 0xBF), (0x41, 0x42), (0xC3, 0xA9)] {
                let mut w = [vt.spec.hdr.1, 0, 0, 0];
                w[at / 4] = a << 24 | b << 16 | c << 8 | d;
                ok += f(&w) as u64;
                n += 1;
            }
        }
        ctx.bulk(n, 0, 0);
        ctx.outcome("utf8-pairs accepted", ok);
        ctx.outcome("utf8-pairs rejected", n - ok);
    });
}
/// messages of very many packets, and the same with one broken packet anywhere interesting
fn long(ctx: &Arc<Ctx>, f: F32, g: F8, texts: bool) {
    use mc::sx::Kind;
    let mut jobs: Vec<(usize, usize, Option<&Vt<u32>>)> = vec![];
    for n in mc::long::packets(ctx, true) {
        jobs.push((n, 3, None));
        jobs.push((n, 5, None));
    }
    for vt in UMP.iter().filter(|v| texts && v.spec.text.is_some()) {
        let some = ["flex_data::Lyrics", "ump_stream::EndpointName"].contains(&vt.spec.name);
        for n in mc::long::packets(ctx, some) {
            if n < 5000 || some {
                jobs.push((n, 0, Some(vt)));
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.0));
    ctx.par("long", &jobs, |(n, k, v)| format!("{n} packets {}", v.map(|v| v.spec.name.to_string()).unwrap_or(k.to_string())), |(n, mt, vt)| {
        let n = *n;
        let huge = n > 40_000;
        let words = if *mt == 3 { 2 } else { 4 };
        let (mut cnt, mut ok) = (0u64, 0u64);
        let mut go = |w: &[u32]| {
            ok += f(w) as u64;
            cnt += 1;
        };
        let mut bases: Vec<Vec<u32>> = vec![];
        // bits to flip in the first word of a packet
        let mut faults: Vec<u32> = vec![1 << 28, 2 << 28];
        match vt {
            None => {
                let k = if *mt == 3 { Kind::S7U } else { Kind::S8 };
                for sizes in if huge { vec![[k.per(), k.per()]] } else { vec![[k.per(), k.per()], [1, 1], [0, k.per()], [k.per() - 1, 0]] } {
                    let sizes: Vec<usize> = (0..n).map(|i| sizes[i % 2]).collect();
                    let pay: Vec<u8> = (0..sizes.iter().sum::<usize>()).map(|i| (i / 7 + i) as u8 & 0x7F).collect();
                    bases.push(k.encode_sizes(5, 0x81, &pay, &sizes));
                }
                faults.extend([1 << 24, 8 << 24, 1 << 20, 2 << 20, 3 << 20, 4 << 20, 0xF << 16, 8 << 16]);
                if *mt == 5 { faults.extend([1 << 8, 0x80 << 8]); }
            }
            Some(vt) => {
                let t = vt.spec.text.unwrap();
                let (from, fsh) = match t { TextKind::Flex => (4, 22), TextKind::Stream(o) => (2 + o, 26) };
                for seed in if huge { vec![0usize] } else { vec![0, 1] } {
                    let mut m = vec![];
                    for i in 0..n {
                        let form = if n == 1 { 0 } else if i == 0 { 1 } else if i + 1 == n { 3 } else { 2u32 };
                        let mut p = [vt.spec.hdr.1 | form << fsh, 0, 0, 0];
                        if matches!(t, TextKind::Flex) { p[0] |= 0x0215_0000 } else if from == 3 { p[0] |= 0x8100 }
                        let mut q = [p[0] & !0 , 0, 0, 0];
                        for k in from..16 {
                            // letters and, on odd seeds, characters of two bytes throughout
                            let b = if seed == 0 { 0x41 + ((i + k) % 26) as u32 } else if (i * (16 - from) + k - from) % 2 == 0 { 0xC3 } else { 0xA9 };
                            q[k / 4] |= b << (24 - 8 * (k % 4));
                        }
                        m.extend(q);
                    }
                    bases.push(m);
                }
                faults.extend([1 << fsh, 2 << fsh, 3 << fsh]);
                if fsh == 22 { faults.extend([1 << 24, 1 << 16, 1 << 20, 2 << 20, 1, 0x80, 1 << 8, 0x8000]); } else { faults.extend([1 << 16, 0x80 << 16, 1 << 24, 0x100]); }
            }
        }
        for b in &bases {
            go(b);
            for t in [&[0x2091_4040u32][..], &b[..words], &b[b.len() - words..], &[0x0000_0000; 4][..]] {
                let mut w = b.clone();
                w.extend(t);
                go(&w);
            }
            for cut in 1..=words {
                go(&b[..b.len() - cut]);
            }
            let mut w = b.clone();
            let spots: Vec<usize> = if huge { vec![n - 1, n - 2, 65535.min(n - 1)] } else { mc::long::spots(n) };
            for at in spots {
                let h = w[at * words];
                for x in &faults {
                    w[at * words] = h ^ x;
                    go(&w);
                }
                w[at * words] = h;
                if vt.is_some() {
                    // no longer UTF-8, or a gap in the text
                    let h = w[at * words + 2];
                    for x in [h & 0xFF00_FFFF | 0xFF_0000, h & 0xFFFF_00FF | 0xC3_00, h & 0xFF00_00FF] {
                        w[at * words + 2] = x;
                        go(&w);
                    }
                    w[at * words + 2] = h;
                }
            }
        }
        ctx.bulk(cnt, 0, 0);
        ctx.outcome("long accepted", ok);
        ctx.outcome("long rejected", cnt - ok);
    });
    let jobs: Vec<usize> = mc::long::bytes(ctx, true);
    ctx.par("long bytes", &jobs, |n| format!("{n}"), |n| {
        let n = *n;
        let mut b: Vec<u8> = vec![0xF0];
        b.extend((0..n).map(|i| (i / 5 + i) as u8 & 0x7F));
        b.push(0xF7);
        let mut cnt = 0u64;
        for kind in 0..3 {
            let mut w = b.clone();
            if kind > 0 && n > 60 {
                w[1..6].copy_from_slice(&[0x7E, 0x7F, 0x0D, 0x70, kind]);
                w[10..14].fill(0x7F);
            }
            for t in [&[][..], &[0xF7][..], &[0xF0, 1, 0xF7][..], &[0x90, 1, 1][..]] {
                let mut x = w.clone();
                x.extend(t);
                g(&x);
                g(&x[..n + 1]);
                g(&x[..n]);
                cnt += 3;
                if t.len() < 2 {
                    let spots: Vec<usize> = if n > 40_000 { vec![1, n - 1, n, 65536.min(n)] } else { mc::long::spots(n) };
                    for at in spots {
                        if at == 0 { continue; }
                        let o = x[at];
                        for v in [0x80u8, 0xF7, 0xF0, 0xF8, 0xFF] {
                            x[at] = v;
                            g(&x);
                            cnt += 1;
                        }
                        x[at] = o;
                    }
                }
            }
        }
        ctx.bulk(cnt, 0, 0);
    });
}

// ---- C06 ------------------------------------------------------------------------

/// every sequence of packets from the alphabet up to a depth, whole and with a truncated last packet
fn sequences(ctx: &Arc<Ctx>, part: &str, al: &[Vec<u32>], depth: usize, f: F32) {
    let words = al[0].len();
    let jobs: Vec<usize> = (0..al.len()).collect();
    ctx.par(part, &jobs, |j| hex32(&al[*j]), |j| {
        fn rec(v: &mut Vec<u32>, d: usize, al: &[Vec<u32>], words: usize, f: F32, n: &mut u64, ok: &mut u64) {
            *ok += f(v) as u64;
            *n += 1;
            let l = v.len();
            for cut in 1..words {
                *ok += f(&v[..l - cut]) as u64;
                *n += 1;
            }
            if d == 0 {
                return;
            }
            for p in al {
                v.extend(p);
                rec(v, d - 1, al, words, f, n, ok);
                v.truncate(l);
            }
        }
        let (mut n, mut ok) = (0, 0);
        let mut v = al[*j].clone();
        rec(&mut v, depth - 1, al, words, f, &mut n, &mut ok);
        ctx.bulk(n, 0, 0);
        ctx.outcome(&format!("{part} accepted"), ok);
        ctx.outcome(&format!("{part} rejected"), n - ok);
    });
}
fn header_alphabet7(big: bool) -> Vec<Vec<u32>> {
    let mut v = vec![];
    let (st, cn, gr): (&[u32], &[u32], &[u32]) = if big { (&[0, 1, 2, 3, 4, 5, 8, 0xF], &[0, 1, 6, 7, 0xF], &[0, 5, 0xF]) } else { (&[0, 1, 2, 3, 4], &[0, 6, 7], &[0, 5]) };
    for g in gr {
        for s in st {
            for c in cn {
                v.push(vec![0x3000_0000 | g << 24 | s << 20 | c << 16 | 0x4142, 0x4344_4546]);
            }
        }
    }
    v.push(vec![0x4091_4142, 0x3026_0000]);
    v.push(vec![0x5001_0041, 0x0]);
    v
}
fn header_alphabet8(big: bool) -> Vec<Vec<u32>> {
    let mut v = vec![];
    let (st, cn, gr, id): (&[u32], &[u32], &[u32], &[u32]) =
        if big { (&[0, 1, 2, 3, 4, 8, 9], &[0, 1, 2, 14, 15], &[0, 5], &[0, 0xFF, 0x10]) } else { (&[0, 1, 2, 3, 4], &[0, 1, 14, 15], &[0, 5], &[0, 0x10]) };
    for g in gr {
        for s in st {
            for c in cn {
                for i in id {
                    v.push(vec![0x5000_0000 | g << 24 | s << 20 | c << 16 | i << 8 | 0x41, 0x4243_4445, 0x4647_48FF, 0x4950_5152]);
                }
            }
        }
    }
    v.push(vec![0x4091_4142, 0x3026_0000, 0x5020_0000, 0x0]);
    v.push(vec![0x3006_0041, 0x0, 0x5020_0000, 0]);
    v
}
fn flex_alphabet(vt: &Vt<u32>) -> Vec<Vec<u32>> {
    let h = vt.spec.hdr.1 & !(3 << 22);
    let mut v = vec![];
    // base, other group, address to channel 0 / 3, invalid address, other bank, other status
    for base in [h, h | 5 << 24, h | 1 << 20, h | 1 << 20 | 3 << 16, h | 3 << 20, h ^ 0x100, h ^ 0x300, h ^ 1, h ^ 0x1F] {
        for form in 0..4u32 {
            v.push(vec![base | form << 22, 0x4142_4344, 0x4546_0000, 0x0]);
        }
    }
    v.push(vec![0x4091_4142, 0xD0D0_0101, 0xD0D0_0101, 0]);
    v
}
fn stream_alphabet(vt: &Vt<u32>) -> Vec<Vec<u32>> {
    let h = vt.spec.hdr.1 & !(3 << 26);
    let mut v = vec![];
    for base in [h, h | 0x4100, h | 0x4200, h ^ 0x0001_0000, h ^ 0x0010_0000, h ^ 0x0200_0000] {
        for form in 0..4u32 {
            v.push(vec![base | form << 26, 0x4142_4344, 0x4546_0000, 0x0]);
        }
    }
    v.push(vec![0x4091_4142, 0xFC03_0000, 0xFC03_0000, 0]);
    v
}
fn c06(ctx: &Arc<Ctx>, f: F32) {
    sequences(ctx, "sysex7-headers", &header_alphabet7(true), ctx.pick(2, 3), f);
    sequences(ctx, "sysex7-order", &header_alphabet7(false), ctx.pick(3, 4), f);
    sequences(ctx, "sysex8-headers", &header_alphabet8(true), 2, f);
    if ctx.thorough() {
        sequences(ctx, "sysex8-order", &header_alphabet8(false), 3, f);
    }
    // order of well-formed packets only: deep
    let al7: Vec<Vec<u32>> = (0..4u32).flat_map(|s| [0u32, 6].map(|c| vec![0x3000_0000 | s << 20 | c << 16 | 0x4142, 0x4344_4546])).collect();
    sequences(ctx, "sysex7-deep", &al7, ctx.pick(5, 6), f);
    let al8: Vec<Vec<u32>> = (0..4u32).flat_map(|s| [1u32, 14].map(|c| vec![0x5000_0000 | s << 20 | c << 16 | 0x741, 0x4344_4546, 0, 0])).collect();
    sequences(ctx, "sysex8-deep", &al8, ctx.pick(4, 6), f);
    for vt in UMP.iter().filter(|v| v.spec.text.is_some()) {
        let flex = matches!(vt.spec.text, Some(TextKind::Flex));
        let al = if flex { flex_alphabet(vt) } else { stream_alphabet(vt) };
        let two = !ctx.thorough() && flex && !["flex_data::Lyrics", "flex_data::ComposerName"].contains(&vt.spec.name);
        sequences(ctx, "text-headers", &al, if two { 2 } else { 3 }, f);
        let sh = if flex { 22 } else { 26 };
        let deep: Vec<Vec<u32>> = (0..4u32).map(|s| vec![vt.spec.hdr.1 | s << sh, 0x4142_0000, 0, 0x43]).collect();
        sequences(ctx, "text-deep", &deep, ctx.pick(4, 6), f);
    }
    // fixed-size messages: the format field and what follows
    for vt in UMP.iter().filter(|v| v.spec.text.is_none() && matches!(v.spec.fam, Fam::Flex | Fam::Stream)) {
        let b = backgrounds::<u32>(vt.spec, 1).remove(0);
        let mut p = b.clone();
        p.resize(4, 0);
        let sh = if vt.spec.fam == Fam::Flex { 22 } else { 26 };
        let al: Vec<Vec<u32>> = (0..4u32).flat_map(|s| {
            let mut a = p.clone();
            a[0] = a[0] & !(3 << sh) | s << sh;
            let mut b = a.clone();
            b[0] ^= 1 << 16;
            [a, b]
        }).collect();
        sequences(ctx, "fixed-size-formats", &al, 2, f);
    }
}

// ---- C04 ------------------------------------------------------------------------

fn touched(ctx: &Ctx, w: &[u32]) -> bool {
    ctx.bulk(0, 1, 1);
    match catch(|| mc::touch::ump(w)) {
        Ok(()) => UmpMessage::try_from(w).is_ok(),
        Err(e) => {
            let k: String = e.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(60).collect();
            ctx.violation(&format!("ump:{k}"), &format!("reading {}: {e}", hex32(w)));
            true
        }
    }
}
fn touched8(ctx: &Ctx, w: &[u8]) -> bool {
    ctx.bulk(0, 1, 1);
    match catch(|| mc::touch::bytes(w)) {
        Ok(()) => BytesMessage::try_from(w).is_ok(),
        Err(e) => {
            let k: String = e.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(60).collect();
            ctx.violation(&format!("bytes:{k}"), &format!("reading {}: {e}", hex8(w)));
            true
        }
    }
}
fn word_sequences(ctx: &Arc<Ctx>, f: F32) {
    let al: Vec<u32> = vec![
        0, 0xFFFF_FFFF, 0x2090_4050, 0x10F2_0000, 0x4090_4003, 0x3016_4142, 0x3026_FFFF, 0x3036_0000, 0x3000_0000, 0x300F_0000, 0x5001_0000, 0x501E_0041, 0x502E_0000, 0x503F_0000, 0x503E_00FF,
        0xD010_0101, 0xD050_0101, 0xD0D0_0101, 0xD090_0101, 0xF003_4142, 0xF403_FFFF, 0xFC03_0000, 0xF010_0000, 0xC3A9_E282,
    ];
    let depth = ctx.pick(4, 5);
    let jobs: Vec<(u32, u32)> = al.iter().flat_map(|a| al.iter().map(move |b| (*a, *b))).collect();
    ctx.par("word-sequences", &jobs, |j| format!("{j:X?}"), |(a, b)| {
        fn rec(v: &mut Vec<u32>, d: usize, al: &[u32], f: F32, n: &mut u64, ok: &mut u64) {
            *ok += f(v) as u64;
            *n += 1;
            if d > 0 {
                for x in al {
                    v.push(*x);
                    rec(v, d - 1, al, f, n, ok);
                    v.pop();
                }
            }
        }
        let (mut n, mut ok) = (0, 0);
        let mut v = vec![*a, *b];
        rec(&mut v, depth - 2, &al, f, &mut n, &mut ok);
        ctx.bulk(n, 0, 0);
        ctx.outcome("word-sequences accepted", ok);
        ctx.outcome("word-sequences rejected", n - ok);
    });
    // long multi-packet inputs, 8 to 16 words: packet kinds x truncation
    let heads: Vec<u32> = al.iter().copied().filter(|w| [3, 5, 0xD, 0xF].contains(&(w >> 28))).collect();
    let jobs: Vec<(u32, u32)> = heads.iter().flat_map(|a| heads.iter().map(move |b| (*a, *b))).collect();
    ctx.par("packet-sequences", &jobs, |j| format!("{j:X?}"), |(a, b)| {
        let mut n = 0;
        for c in &heads {
            for fill in [0u32, 0xFFFF_FFFF, 0x4142_4344, 0xC3A9_C3A9] {
                let mut w = vec![fill; 16];
                let per = if a >> 28 == 3 { 2 } else { 4 };
                w[0] = *a;
                w[per] = *b;
                w[2 * per] = *c;
                w[3 * per] = *c;
                for l in 0..=16 {
                    f(&w[..l]);
                    n += 1;
                }
            }
        }
        ctx.bulk(n, 0, 0);
    });
}
/// byte inputs which look like discovery queries, of every length and with every byte disturbed
fn ci_inputs(ctx: &Arc<Ctx>, f: F8) {
    let lens: Vec<usize> = (0..=40).collect();
    ctx.par("ci", &lens, |l| format!("{l}"), |l| {
        let mut n = 0;
        for version in [0u8, 1, 2, 3, 0x7F] {
            for fill in [0u8, 0x7F, 0x80, 0xFF, 0xF7] {
                let mut w = vec![fill; *l];
                for (k, b) in [0xF0, 0x7E, 0x7F, 0x0D, 0x70, version].into_iter().enumerate() {
                    if k < *l {
                        w[k] = b;
                    }
                }
                for end in 1..=*l {
                    let mut x = w.clone();
                    x[end - 1] = 0xF7;
                    f(&x);
                    n += 1;
                    if ctx.thorough() || fill == 0 {
                        for at in 0..*l {
                            for v in [0x00, 0x7F, 0x80, 0xF7, 0xFF, 0x0E] {
                                let mut y = x.clone();
                                y[at] = v;
                                f(&y);
                                n += 1;
                            }
                        }
                    }
                }
            }
        }
        ctx.bulk(n, 0, 0);
    });
}

/// the specification makes every UMP stream message four words long
fn fb_discovery(ctx: &Ctx) {
    let w = [0xF010_0001u32, 0, 0, 0];
    for l in 1..=4 {
        let got = catch(|| midi2::ump_stream::FunctionBlockDiscovery::try_from(&w[..l]).ok().map(|m| midi2::Data::data(&m).len()));
        let want = if l == 4 { Some(4) } else { None };
        ctx.bulk(1, 1, 1);
        if got != Ok(want) {
            ctx.violation("function-block-discovery-size", &format!("FunctionBlockDiscovery::try_from of {l} words: data() length {got:?}, expected {want:?}"));
        }
    }
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&prop);
    let c = ctx.clone();
    match prop.as_str() {
        "C04" => {
            let f = |w: &[u32]| touched(&c, w);
            let g = |w: &[u8]| touched8(&c, w);
            f(&[]);
            first_words(&ctx, &f);
            trailing(&ctx, &f);
            flips(&ctx, &f);
            texts(&ctx, &f);
            utf8_pairs(&ctx, &f);
            word_sequences(&ctx, &f);
            c06(&ctx, &f);
            bytes(&ctx, &g);
            ci_inputs(&ctx, &g);
            long(&ctx, &f, &g, true);
        }
        "C05" => {
            ctx.note("reference parser derived from the bit tables in spec.rs/code.rs; unused top bits of data bytes are ignored");
            let f = |w: &[u32]| check_ump(&c, w);
            let g = |w: &[u8]| check_bytes(&c, w);
            f(&[]);
            first_words(&ctx, &f);
            trailing(&ctx, &f);
            flips(&ctx, &f);
            texts(&ctx, &f);
            utf8_pairs(&ctx, &f);
            bytes(&ctx, &g);
            long(&ctx, &f, &g, true);
            fb_discovery(&ctx);
        }
        "C06" => {
            ctx.note("reference: leading run of packets of one message type, formats/statuses in order, equal headers, legal byte counts");
            let f = |w: &[u32]| check_ump(&c, w);
            c06(&ctx, &f);
            trailing(&ctx, &f);
            long(&ctx, &f, &|w| check_bytes(&c, w), true);
        }
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(4);
        }
    }
    ctx.finish()
}
