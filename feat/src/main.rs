//! Runs a fixed set of inputs and operations on whatever message families midi2 was compiled with and prints one line
//! per item and block of inputs: `item|block|hash of all outcomes|inputs|accepted`.
//!
//! `probe --dump ITEM BLOCK` prints every input and outcome of one block instead.
//! An item is named `family/...`; the driver compares the lines of equal families between builds.
#![allow(unused)]
#[macro_use]
mod types;
#[path = "../../harness/src/buf.rs"]
mod buf;
mod list;
use buf::*;
use midi2::buffer::*;
use midi2::prelude::*;
use std::collections::BTreeMap;
use std::fmt::{Debug, Write};

/// family of a message type nibble
pub const MT: [&str; 16] = [
    "utility", "system-common", "channel-voice1", "sysex7", "channel-voice2", "sysex8", "none", "none", "none", "none", "none", "none", "none", "flex-data", "none", "ump-stream",
];
fn enabled(f: &str) -> bool {
    (cfg!(feature = "utility") && f == "utility")
        || (cfg!(feature = "system-common") && f == "system-common")
        || (cfg!(feature = "channel-voice1") && f == "channel-voice1")
        || (cfg!(feature = "channel-voice2") && f == "channel-voice2")
        || (cfg!(feature = "sysex7") && f == "sysex7")
        || (cfg!(feature = "sysex8") && f == "sysex8")
        || (cfg!(feature = "flex-data") && f == "flex-data")
        || (cfg!(feature = "ump-stream") && f == "ump-stream")
}

#[derive(Default)]
pub struct Out {
    dump: Option<(String, String)>,
    lines: BTreeMap<(String, String), (u64, u64, u64)>,
}
impl Out {
    /// an outcome of None is a rejection
    pub fn put(&mut self, item: &str, block: &str, input: &dyn Debug, outcome: Option<&str>) {
        if let Some(o) = outcome.filter(|o| o.starts_with("PANIC")) {
            println!("PANIC|{item}|{block}|{input:X?}|{o}");
        }
        if let Some((i, b)) = &self.dump {
            if i == item && b == block {
                println!("{input:X?} => {}", outcome.unwrap_or("rejected"));
            }
            return;
        }
        let k = (item.to_string(), block.to_string());
        let e = self.lines.entry(k).or_insert((0xcbf29ce484222325, 0, 0));
        for b in outcome.unwrap_or("\u{1}").bytes() {
            e.0 = (e.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        e.0 = (e.0 ^ 0x100).wrapping_mul(0x100000001b3);
        e.1 += 1;
        e.2 += outcome.is_some() as u64;
    }
}
/// a panic is an outcome
pub fn guard(f: impl FnOnce() -> Option<String>) -> Option<String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Some(format!("PANIC {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

/// (clean block?, name, input): blocks named `+...` contain texts which may not be UTF-8
type Input<U> = (String, Vec<U>);

fn word_inputs() -> Vec<Input<u32>> {
    let mut v = vec![];
    let fills: [(u32, u32, u32); 4] = [(0, 0, 0), (0x4142, 0x4344_4546, 0x0102_0304), (0x0000, 0x0101_0101, 0x2000_0000), (0xFFFF, 0xFFFF_FFFF, 0xFFFF_FFFF)];
    for (k, (lo, a, b)) in fills.into_iter().enumerate() {
        for hi in 0..0x10000u32 {
            let mt = hi >> 12;
            if (k == 2 || k == 3) && hi & 0x0F00 != 0x0500 {
                continue;
            }
            let plus = if k == 3 && (mt == 0xD || mt == 0xF) { "+" } else { "" };
            let n = if mt == 0xF || mt == 0xD || mt == 5 { 4 } else if mt >= 3 { 2 } else { 1 };
            let whole = [&[hi << 16 | lo][..], &[a, b, a][..n - 1]].concat();
            v.push((format!("{plus}{k}-{mt:X}"), whole.clone()));
            if hi & 0x0F00 == 0x0500 && k == 1 {
                // truncated, and with data behind
                for l in 1..n {
                    v.push((format!("{plus}t-{mt:X}"), whole[..l].to_vec()));
                }
                v.push((format!("{plus}b-{mt:X}"), [&[hi << 16 | lo][..], &[a, b, a][..n - 1], &[0x2090_4040, 0, 0xFFFF_FFFF]].concat()));
            }
        }
    }
    // every lower half of the first word of the types which use it
    for hi in [0xD000u32, 0xD010, 0xD020, 0xD030, 0xF000, 0xF001, 0xF010, 0xF011, 0xF012, 0xF005, 0xF006, 0xF003] {
        for lo in 0..0x10000u32 {
            if hi != 0xF011 && !(lo & 0xFF < 3 || lo >> 8 < 3 || lo >> 8 == 0x80 || lo & 0xFF == 0xFF) {
                continue;
            }
            let clean = hi != 0xF003 && hi != 0xF012;
            v.push((format!("{}l-{:X}", if clean { "" } else { "+" }, hi >> 12), vec![hi << 16 | lo, 0x4142_4344, 0, 0]));
        }
    }
    for lo in 0..0x100u32 {
        for hi in [0x4000u32, 0x4010, 0x4060, 0x4080, 0x4090, 0x40C0, 0x40F0] {
            v.push(("l-4".into(), vec![hi << 16 | 0x4000 | lo, 0x1234_5678]));
        }
    }
    // second word codes
    for x in 0..0x10000u32 {
        if x % 31 == 0 || x & 0xFF == 0 || x & 0xFF00 == 0 {
            v.push(("c-D".into(), vec![0xD010_0006, x << 16, 0, 0x2100_0000]));
            v.push(("c-D".into(), vec![0xD010_0006, 0x1200_0000 | x, x << 16, 0x2100_0000]));
            v.push(("c-D".into(), vec![0xD010_0006, 0x1200_0000, 0, x << 16 | x]));
            v.push(("c-D".into(), vec![0xD010_0005, x << 16, 0, 0]));
        }
    }
    // packet sequences
    let alpha: Vec<(&str, usize, Vec<u32>)> = vec![
        ("3", 2, [0x3002, 0x3006, 0x3007, 0x3016, 0x3013, 0x3026, 0x3025, 0x3032, 0x3030, 0x3126, 0x3136, 0x3047, 0x2090, 0x3000].iter().map(|h| h << 16 | 0x0102).collect()),
        ("5", 4, [0x5003, 0x500E, 0x501E, 0x5015, 0x502E, 0x5024, 0x503E, 0x5031, 0x5030, 0x512E, 0x513E, 0x504E, 0x4090, 0x5000].iter().map(|h| h << 16 | 0x0802).collect()),
        ("D", 4, [0xD010_0101u32, 0xD050_0101, 0xD090_0101, 0xD0D0_0101, 0xD150_0101, 0xD190_0101, 0xD040_0101, 0xD080_0101, 0xD0C0_0101, 0xD050_0201, 0xD0D0_0201, 0xD0D0_0102, 0xD051_0101, 0x4090_0000].to_vec()),
        ("F", 4, [0xF003_4142u32, 0xF403_4142, 0xF803_4142, 0xFC03_4142, 0xF404_4142, 0xFC04_4142, 0xF412_0141, 0xF812_0141, 0xFC12_0141, 0xFC12_0241, 0xF012_0100, 0xF020_0000, 0xF021_0000, 0xD010_0101].to_vec()),
    ];
    for (name, words, hs) in alpha {
        let pk = |h: u32| -> Vec<u32> { [&[h][..], &[0x4141_4242, 0x4343_0000, 0x4445_4600][..words - 1]].concat() };
        for a in &hs {
            v.push((format!("s1-{name}"), pk(*a)));
            for b in &hs {
                let two = [pk(*a), pk(*b)].concat();
                v.push((format!("s2-{name}"), two[..words + 1].to_vec()));
                for c in &hs {
                    v.push((format!("s3-{name}"), [two.clone(), pk(*c)].concat()));
                }
                v.push((format!("s2-{name}"), two));
            }
        }
    }
    v.push(("e".into(), vec![]));
    v
}
fn byte_inputs() -> Vec<Input<u8>> {
    let mut v: Vec<Input<u8>> = vec![("e".into(), vec![])];
    let fam = |s: u8| if s == 0xF0 { "sysex7" } else if (0x80..0xF0).contains(&s) { "channel-voice1" } else if s >= 0xF0 { "system-common" } else { "none" };
    for s in 0..=255u8 {
        let n = format!("{}", fam(s));
        v.push((n.clone(), vec![s]));
        for d in [0u8, 1, 0x40, 0x7F, 0x80, 0xF7, 0xFF] {
            v.push((n.clone(), vec![s, d]));
            for e in [0u8, 2, 0x7F, 0x90, 0xF7] {
                v.push((n.clone(), vec![s, d, e]));
                v.push((n.clone(), vec![s, d, e, 0x90, 0x40]));
                v.push((n.clone(), vec![s, d, e, 0xF7]));
            }
        }
    }
    for l in 0..24u8 {
        let mut b = vec![0xF0];
        b.extend((0..l).map(|i| i * 5 % 128));
        b.push(0xF7);
        v.push(("sysex7".into(), b.clone()));
        v.push(("sysex7".into(), b[..b.len() - 1].to_vec()));
        b.extend([0xF0, 0, 0xF7]);
        v.push(("sysex7".into(), b.clone()));
        if l > 3 {
            b[l as usize / 2] = 0xF8;
            v.push(("sysex7".into(), b));
        }
    }
    v
}

#[cfg(any(
    feature = "channel-voice1",
    feature = "channel-voice2",
    feature = "flex-data",
    feature = "sysex7",
    feature = "sysex8",
    feature = "system-common",
    feature = "ump-stream",
    feature = "utility"
))]
fn packets<P: Packets>(m: &P) -> String {
    let mut s = String::new();
    for p in m.packets() {
        write!(s, " p{:X?}", &p[..]).unwrap();
    }
    s
}

#[cfg(any(
    feature = "channel-voice1",
    feature = "channel-voice2",
    feature = "flex-data",
    feature = "sysex7",
    feature = "sysex8",
    feature = "system-common",
    feature = "ump-stream",
    feature = "utility"
))]
fn ump(out: &mut Out, words: &[Input<u32>]) {
    for (blk, w) in words {
        let f = w.first().map_or("none", |x| MT[(x >> 28) as usize]);
        let r = guard(|| {
            let m = UmpMessage::try_from(&w[..]).ok()?;
            let mut s = format!("{m:?} {:X?} {}", m.data(), packets(&m));
            settings(w.len(), 0xA5A5_A5A5, true);
            let b: Result<UmpMessage<Bound<u32>>, _> = m.clone().try_rebuffer_into();
            let b = b.unwrap();
            write!(s, " {:X?}", b.data()).unwrap();
            Some(s)
        });
        if enabled(f) {
            out.put(&format!("{f}/UmpMessage"), blk, w, r.as_deref());
        } else if let Some(r) = r {
            // nothing may be made of these words
            println!("MISREAD|UmpMessage|{w:X?}|{r}");
        } else {
            out.put("none/UmpMessage", "rejected", w, None);
        }
    }
}
#[cfg(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common"))]
fn bytes_message(out: &mut Out, bytes: &[Input<u8>]) {
    for (fam, b) in bytes {
        let r = guard(|| {
            let m = BytesMessage::try_from(&b[..]).ok()?;
            Some(format!("{m:?} {:X?}", m.data()))
        });
        if enabled(fam) {
            out.put(&format!("{fam}/BytesMessage"), fam, b, r.as_deref());
        } else if let Some(r) = r {
            println!("MISREAD|BytesMessage|{b:X?}|{r}");
        } else {
            out.put("none/BytesMessage", "rejected", b, None);
        }
    }
}
#[cfg(not(any(
    feature = "channel-voice1",
    feature = "channel-voice2",
    feature = "flex-data",
    feature = "sysex7",
    feature = "sysex8",
    feature = "system-common",
    feature = "ump-stream",
    feature = "utility"
)))]
fn ump(_: &mut Out, _: &[Input<u32>]) {}
#[cfg(not(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common")))]
fn bytes_message(_: &mut Out, _: &[Input<u8>]) {}

macro_rules! family {
    ($out:expr, $f:literal, $name:literal, $t:ty, $inputs:expr, $mts:expr, $m:ident => $e:expr) => {
        for (blk, w) in $inputs {
            if !$mts(w) {
                continue;
            }
            let r = guard(|| {
                let $m = <$t>::try_from(&w[..]).ok()?;
                Some(format!("{:?} {:X?} {}", $m, $m.data(), $e))
            });
            $out.put(concat!($f, "/", $name), blk, w, r.as_deref());
        }
    };
}
fn mt(n: u32) -> impl Fn(&Vec<u32>) -> bool {
    // the family's own words, and some of every other kind
    move |w| w.first().is_none_or(|x| x >> 28 == n || x & 0x0FFF_0000 == 0x0010_0000)
}
fn families(out: &mut Out, words: &[Input<u32>], bytes: &[Input<u8>]) {
    #[cfg(feature = "channel-voice1")]
    {
        use midi2::channel_voice1::*;
        family!(out, "channel-voice1", "ChannelVoice1", ChannelVoice1<&[u32]>, words, mt(2), m => format!("{:?} {:?}{}", Grouped::group(&m), Channeled::channel(&m), packets(&m)));
        family!(out, "channel-voice1", "ChannelVoice1 bytes", ChannelVoice1<&[u8]>, bytes, |_: &Vec<u8>| true, m => format!("{:?}", Channeled::channel(&m)));
        family!(out, "channel-voice1", "to bytes", ChannelVoice1<&[u32]>, words, mt(2), m => { let a: Result<ChannelVoice1<[u8; 3]>, _> = m.clone().try_into_bytes(); format!("{:?}", a.map(|a| a.data().to_vec())) });
        family!(out, "channel-voice1", "to ump", ChannelVoice1<&[u8]>, bytes, |_: &Vec<u8>| true, m => { let a: Result<ChannelVoice1<[u32; 1]>, _> = m.clone().try_into_ump(); format!("{:?}", a.map(|a| a.data().to_vec())) });
        packet(out, "channel-voice1/Packet", words, &mt(2), |w| Packet::try_from(w).ok().map(|p| format!("{p:?} {:X?} {:?} {:?}", &p[..], p.group(), p.channel())));
    }
    #[cfg(feature = "system-common")]
    {
        use midi2::system_common::*;
        family!(out, "system-common", "SystemCommon", SystemCommon<&[u32]>, words, mt(1), m => format!("{:?}{}", Grouped::group(&m), packets(&m)));
        family!(out, "system-common", "SystemCommon bytes", SystemCommon<&[u8]>, bytes, |_: &Vec<u8>| true, m => "");
        family!(out, "system-common", "to bytes", SystemCommon<&[u32]>, words, mt(1), m => { let a: Result<SystemCommon<[u8; 3]>, _> = m.clone().try_into_bytes(); format!("{:?}", a.map(|a| a.data().to_vec())) });
        family!(out, "system-common", "to ump", SystemCommon<&[u8]>, bytes, |_: &Vec<u8>| true, m => { let a: Result<SystemCommon<[u32; 1]>, _> = m.clone().try_into_ump(); format!("{:?}", a.map(|a| a.data().to_vec())) });
        packet(out, "system-common/Packet", words, &mt(1), |w| Packet::try_from(w).ok().map(|p| format!("{p:?} {:X?} {:?}", &p[..], p.group())));
    }
    #[cfg(feature = "utility")]
    {
        use midi2::utility::*;
        family!(out, "utility", "Utility", Utility<&[u32]>, words, mt(0), m => packets(&m));
        packet(out, "utility/Packet", words, &mt(0), |w| Packet::try_from(w).ok().map(|p| format!("{p:?} {:X?}", &p[..])));
    }
    #[cfg(feature = "channel-voice2")]
    {
        use midi2::channel_voice2::*;
        family!(out, "channel-voice2", "ChannelVoice2", ChannelVoice2<&[u32]>, words, mt(4), m => format!("{:?} {:?}{}", Grouped::group(&m), Channeled::channel(&m), packets(&m)));
        packet(out, "channel-voice2/Packet", words, &mt(4), |w| Packet::try_from(w).ok().map(|p| format!("{p:?} {:X?} {:?} {:?}", &p[..], p.group(), p.channel())));
    }
    #[cfg(feature = "flex-data")]
    {
        use midi2::flex_data::*;
        family!(out, "flex-data", "FlexData", FlexData<&[u32]>, words, mt(13), m => format!("{:?}{}", Grouped::group(&m), packets(&m)));
        packet(out, "flex-data/Packet", words, &mt(13), |w| Packet::try_from(w).ok().map(|p| format!("{p:?} {:X?} {:?} {:?}", &p[..], p.group(), p.format())));
    }
    #[cfg(feature = "ump-stream")]
    {
        use midi2::ump_stream::*;
        family!(out, "ump-stream", "UmpStream", UmpStream<&[u32]>, words, mt(15), m => packets(&m));
        packet(out, "ump-stream/Packet", words, &mt(15), |w| Packet::try_from(w).ok().map(|p| format!("{p:?} {:X?} {:?}", &p[..], p.format())));
    }
    #[cfg(feature = "sysex7")]
    {
        use midi2::sysex7::*;
        family!(out, "sysex7", "Sysex7", Sysex7<&[u32]>, words, mt(3), m => format!("{:?} {} {:?}{}", m.group(), m.payload_size(), m.payload().collect::<Vec<_>>(), packets(&m)));
        family!(out, "sysex7", "Sysex7 bytes", Sysex7<&[u8]>, bytes, |_: &Vec<u8>| true, m => format!("{} {:?}", m.payload_size(), m.payload().collect::<Vec<_>>()));
        family!(out, "sysex7", "to bytes", Sysex7<&[u32]>, words, mt(3), m => { let a: Result<Sysex7<[u8; 24]>, _> = m.clone().try_into_bytes(); format!("{:?}", a.map(|a| a.data().to_vec())) });
        family!(out, "sysex7", "to ump", Sysex7<&[u8]>, bytes, |_: &Vec<u8>| true, m => { let a: Result<Sysex7<[u32; 6]>, _> = m.clone().try_into_ump(); format!("{:?}", a.map(|a| a.data().to_vec())) });
        packet(out, "sysex7/Packet", words, &mt(3), |w| Packet::try_from(w).ok().map(|p| format!("{p:?} {:X?} {:?} {:?} {:?}", &p[..], p.group(), p.status(), p.payload().collect::<Vec<_>>())));
    }
    #[cfg(feature = "sysex8")]
    {
        use midi2::sysex8::*;
        family!(out, "sysex8", "Sysex8", Sysex8<&[u32]>, words, mt(5), m => format!("{:?} {} {} {:?}{}", m.group(), m.stream_id(), m.payload_size(), m.payload().collect::<Vec<_>>(), packets(&m)));
        packet(out, "sysex8/Packet", words, &mt(5), |w| Packet::try_from(w).ok().map(|p| format!("{p:?} {:X?} {:?} {:?} {} {:?}", &p[..], p.group(), p.status(), p.stream_id(), p.payload().collect::<Vec<_>>())));
    }
    #[cfg(feature = "ci")]
    ci(out);
}
fn packet(out: &mut Out, item: &str, words: &[Input<u32>], mts: &dyn Fn(&Vec<u32>) -> bool, f: impl Fn(&[u32]) -> Option<String>) {
    for (blk, w) in words {
        if mts(w) && !blk.starts_with('+') && !blk.starts_with('s') {
            out.put(item, blk, w, guard(|| f(w)).as_deref());
        }
    }
}
#[cfg(feature = "ci")]
fn ci(out: &mut Out) {
    use midi2::ci::*;
    let mut base = vec![0xF0u8, 0x7E, 0x7F, 0x0D, 0x70, 2, 1, 2, 3, 4, 0x7F, 0x7F, 0x7F, 0x7F];
    base.extend((14..31).map(|i| i as u8 * 7 % 128));
    base.push(0xF7);
    for v in [1u8, 2] {
        base[5] = v;
        for i in 0..base.len() {
            for x in [0, 1, 0x0D, 0x70, 0x7E, 0x7F, 0x80, 0xF7] {
                let mut b = base.clone();
                b[i] = x;
                let r = guard(|| {
                    let m = DiscoveryQuery::<1, _>::try_from(&b[..]).ok()?;
                    Some(format!("{m:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", m.data(), m.source(), m.device_manufacturer(), m.device_family(), m.model_number(), m.software_version(), m.max_sysex_size()))
                });
                out.put("ci/DiscoveryQuery 1", "parse", &b, r.as_deref());
                let r = guard(|| {
                    let m = DiscoveryQuery::<2, _>::try_from(&b[..]).ok()?;
                    let mut n = DiscoveryQuery::<2, [u8; 33]>::try_new().ok()?;
                    n.set_source(m.source());
                    n.set_device_manufacturer(m.device_manufacturer());
                    n.set_device_family(m.device_family());
                    n.set_model_number(m.model_number());
                    n.set_software_version(m.software_version());
                    n.set_process_inquiry_supported(m.process_inquiry_supported());
                    n.set_property_exchange_supported(m.property_exchange_supported());
                    n.set_profile_configuration_supported(m.profile_configuration_supported());
                    n.set_protocol_negotiation_supported(m.protocol_negotiation_supported());
                    n.set_max_sysex_size(m.max_sysex_size());
                    n.set_output_path_id(m.output_path_id());
                    Some(format!("{m:?} {:?} {:?}", m.data(), n.data()))
                });
                out.put("ci/DiscoveryQuery 2", "parse", &b, r.as_deref());
            }
        }
    }
    for n in 0..40usize {
        let mut b = vec![0x55u8; n];
        let r = guard(|| DiscoveryQuery::<2, _>::try_new_with_buffer(&mut b[..]).ok().map(|m| format!("{:?}", m.data())));
        out.put("ci/DiscoveryQuery 2", "new", &n, r.as_deref());
    }
}

/// every pair of edits from every kind of start, on every capacity
#[allow(unused_macros)]
macro_rules! edits {
    ($out:expr, $item:literal, $T:ident, $u:ty, $B:ident, $conv:expr) => {{
        let conv = $conv;
        let mk = |n: usize, s: usize| (0..n).map(|i| conv((i * 3 + s) as u8 % 128)).collect::<Vec<_>>();
        for cap in [2usize, 4, 6, 8, 12, 16, 30] {
            for n in [0usize, 1, 5, 6, 7, 12, 13, 14, 20, 27] {
                for a in 0..6 {
                    for b in 0..6 {
                        let r = guard(|| {
                            let mut m = $T::<$B<$u>>::try_new_with_buffer($B { v: vec![<$u as Un>::from32(0x5A5A_5A5A); cap] }).ok()?;
                            let mut s = String::new();
                            write!(s, "{:?} ", m.try_set_payload(mk(n, 1).into_iter()).is_ok()).unwrap();
                            for op in [a, b] {
                                let l = m.payload_size();
                                let r = match op {
                                    0 => m.try_append_payload(mk(5, 9).into_iter()),
                                    1 => m.try_insert_payload(mk(7, 40).into_iter(), l / 2),
                                    2 => m.try_splice_payload(mk(3, 80).into_iter(), l / 3..l / 2),
                                    3 => m.try_splice_payload(mk(0, 0).into_iter(), ..l / 2),
                                    4 => m.try_append_byte(conv(99)),
                                    _ => { if l > 0 { m.set_byte(conv(77), l - 1); } Ok(()) }
                                };
                                write!(s, "{:?} {:X?} {:?} ", r.is_ok(), m.data(), m.payload().collect::<Vec<_>>()).unwrap();
                            }
                            Some(s)
                        });
                        $out.put($item, &format!("cap {cap}"), &(n, a, b), r.as_deref());
                    }
                }
            }
        }
    }};
}
fn sysex(out: &mut Out) {
    #[cfg(feature = "sysex7")]
    {
        use midi2::sysex7::Sysex7;
        edits!(out, "sysex7/edits", Sysex7, u32, Fix, ux::u7::new);
        edits!(out, "sysex7/edits bytes", Sysex7, u8, Fix, ux::u7::new);
    }
    #[cfg(feature = "sysex8")]
    {
        use midi2::sysex8::Sysex8;
        edits!(out, "sysex8/edits", Sysex8, u32, Fix, |b: u8| b);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut out = Out::default();
    if args.len() > 3 {
        out.dump = Some((args[2].clone(), args[3].clone()));
    }
    let (words, bytes) = (word_inputs(), byte_inputs());
    std::panic::set_hook(Box::new(|_| {}));
    ump(&mut out, &words);
    bytes_message(&mut out, &bytes);
    families(&mut out, &words, &bytes);
    types::run(&mut out, &words, list::words(), |w| w.first().map_or(99, |x| x >> 28));
    types::run(&mut out, &bytes, list::bytes(), |_| 0);
    sysex(&mut out);
    for ((i, b), (h, n, a)) in &out.lines {
        println!("{i}|{b}|{h:016x}|{n}|{a}");
    }
}
