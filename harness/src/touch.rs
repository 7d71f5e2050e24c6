//! Exercises every read access of a parsed message.
use crate::buf::Un;
use crate::spec::{Any, Txt};
use midi2::prelude::*;
use std::fmt::Debug;

/// drives an exact size iterator in a few ways (counting, skipping at and past the end, cloning)
pub fn iter<I: ExactSizeIterator>(i: impl Fn() -> I) {
    let n = i().len();
    let _ = i().count();
    let _ = i().fold(0usize, |a, _| a + 1);
    for k in [0, 1, n.wrapping_sub(1), n, n.wrapping_add(1), n.wrapping_add(7), usize::MAX] {
        let mut c = i();
        let _ = c.nth(k).is_some();
        let _ = c.size_hint();
        let _ = c.len();
        let _ = c.next();
        let _ = c.nth(usize::MAX);
        let _ = c.next();
    }
}
fn prefix<U: Un>(d: &[U], input: &[U]) {
    assert!(d.len() <= input.len() && d == &input[..d.len()], "data() {d:X?} is not a prefix of {input:X?}");
}
pub fn any<U: Un, T: Any<U> + Debug + Clone + PartialEq>(x: &T, input: &[U]) {
    prefix(&x.all_units(), input);
    assert!(!x.all_units().is_empty(), "data() is empty");
    let a = x.reads();
    let _ = format!("{x:?}");
    let c = x.clone();
    let _ = (c == *x, c.reads() == a);
}
pub fn text<T: Txt>(x: &T) {
    let _ = (x.text(), x.bytes());
}
pub fn packets<T: Packets>(x: &T) {
    let p = x.packets();
    iter(|| p.clone());
    for p in p {
        let _ = format!("{p:?}");
        packet_words(&p);
    }
}
/// the packet types of every family on any words
pub fn packet_words(w: &[u32]) {
    macro_rules! deref { ($p:ident) => { { let _ = format!("{:?}", $p); let _ = $p.iter().count(); let _ = $p.clone() == $p; } } }
    if let Ok(p) = midi2::channel_voice1::Packet::try_from(w) { deref!(p); let _ = (p.group(), p.channel()); }
    if let Ok(p) = midi2::channel_voice2::Packet::try_from(w) { deref!(p); let _ = (p.group(), p.channel()); }
    if let Ok(p) = midi2::system_common::Packet::try_from(w) { deref!(p); let _ = p.group(); }
    if let Ok(p) = midi2::utility::Packet::try_from(w) { deref!(p); }
    if let Ok(p) = midi2::flex_data::Packet::try_from(w) { deref!(p); let _ = (p.group(), p.format()); }
    if let Ok(p) = midi2::ump_stream::Packet::try_from(w) { deref!(p); let _ = p.format(); }
    if let Ok(p) = midi2::sysex7::Packet::try_from(w) { deref!(p); let _ = (p.group(), p.status()); iter(|| p.payload()); let _ = p.payload().map(u8::from).fold(0, |a: u8, b| a ^ b); }
    if let Ok(p) = midi2::sysex8::Packet::try_from(w) { deref!(p); let _ = (p.group(), p.status(), p.stream_id()); iter(|| p.payload()); }
}
/// everything that can be read from the aggregates an UMP slice parses as
pub fn ump(w: &[u32]) {
    if let Ok(m) = UmpMessage::try_from(w) {
        prefix(midi2::Data::data(&m), w);
        let _ = format!("{m:?}");
        packets(&m);
        crate::on_ump!(&m, x => { any::<u32, _>(x, w); packets(x) });
        if let UmpMessage::FlexData(f) = &m { flex(f); }
    }
    macro_rules! fam { ($t:path, $on:ident, $m:ident => $e:expr) => {
        if let Ok($m) = <$t>::try_from(w) { prefix(midi2::Data::data(&$m), w); let _ = format!("{:?}", $m); packets(&$m); let _ = $m.clone() == $m; $e; crate::$on!(&$m, x => any::<u32, _>(x, w)) }
    } }
    use midi2::{Channeled, Grouped};
    fam!(midi2::channel_voice1::ChannelVoice1::<&[u32]>, on_cv1, m => { let _ = (Grouped::group(&m), Channeled::channel(&m)); });
    fam!(midi2::channel_voice2::ChannelVoice2::<&[u32]>, on_cv2, m => { let _ = (Grouped::group(&m), Channeled::channel(&m)); });
    fam!(midi2::system_common::SystemCommon::<&[u32]>, on_sysc, m => { let _ = Grouped::group(&m); });
    fam!(midi2::utility::Utility::<&[u32]>, on_util, m => {});
    fam!(midi2::flex_data::FlexData::<&[u32]>, on_flex, m => { let _ = Grouped::group(&m); flex(&m) });
    fam!(midi2::ump_stream::UmpStream::<&[u32]>, on_stream, m => {});
    if let Ok(m) = midi2::sysex7::Sysex7::<&[u32]>::try_from(w) {
        any::<u32, _>(&m, w); packets(&m); iter(|| m.payload()); let _ = m.payload_size();
    }
    if let Ok(m) = midi2::sysex8::Sysex8::<&[u32]>::try_from(w) {
        any::<u32, _>(&m, w); packets(&m); iter(|| m.payload()); let _ = m.payload_size();
    }
    packet_words(w);
    for vt in crate::spec::UMP {
        (vt.touch)(w);
    }
}
fn flex(m: &midi2::flex_data::FlexData<&[u32]>) {
    use midi2::flex_data::FlexDataMessage;
    macro_rules! go { ($x:expr) => { { let _ = format!("{:?} {:?}", FlexDataMessage::bank($x), FlexDataMessage::status($x)); } } }
    crate::on_flex!(m, x => go!(x));
}
pub fn bytes(w: &[u8]) {
    if let Ok(m) = BytesMessage::try_from(w) {
        prefix(midi2::Data::data(&m), w);
        let _ = format!("{m:?}");
        let _ = m.clone() == m;
        let _ = crate::agg::bytes_parsed(&m);
    }
    if let Ok(m) = midi2::channel_voice1::ChannelVoice1::<&[u8]>::try_from(w) {
        prefix(midi2::Data::data(&m), w);
        let _ = Channeled::channel(&m);
        crate::on_cv1!(&m, x => any::<u8, _>(x, w));
    }
    if let Ok(m) = midi2::system_common::SystemCommon::<&[u8]>::try_from(w) {
        prefix(midi2::Data::data(&m), w);
        crate::on_sysc!(&m, x => any::<u8, _>(x, w));
    }
    if let Ok(m) = midi2::sysex7::Sysex7::<&[u8]>::try_from(w) {
        prefix(midi2::Data::data(&m), w);
        let _ = format!("{m:?}");
        iter(|| m.payload()); let _ = m.payload_size();
        let _ = m.payload().map(u8::from).fold(0, |a: u8, b| a ^ b);
        let _ = m.clone() == m;
    }
    for vt in crate::spec::BYTES {
        (vt.touch)(w);
    }
    ci(w);
}
pub fn ci(w: &[u8]) {
    macro_rules! q { ($v:literal) => {
        if let Ok(m) = midi2::ci::DiscoveryQuery::<$v, &[u8]>::try_from(w) {
            use midi2::ci::Ci;
            prefix(midi2::Data::data(&*m), w);
            let _ = format!("{m:?}");
            let _ = m.clone() == m;
            let _ = (m.source(), m.device_manufacturer(), m.device_family(), m.model_number(), m.software_version());
            let _ = (m.process_inquiry_supported(), m.property_exchange_supported(), m.profile_configuration_supported(), m.protocol_negotiation_supported(), m.max_sysex_size());
            let _ = (Ci::device_id(&m), Ci::source(&m), Ci::destination(&m));
            iter(|| m.payload());
        }
    } }
    q!(1);
    q!(2);
    if let Ok(m) = midi2::ci::DiscoveryQuery::<2, &[u8]>::try_from(w) {
        let _ = m.output_path_id();
    }
}
