PRE='#![allow(unused_imports)]\nuse midi2::prelude::*;\n'
bug('b01-sysex8-compact-continue','C01',[('midi2/src/sysex8.rs','if (is_begin || is_continue) && payload_size_in_packet != 14 {','if is_begin && is_continue && payload_size_in_packet != 14 || is_begin && payload_size_in_packet != 14 {')],
 'a parsed SysEx8 message of three or more packets whose first packet is full but a Continue packet is not, then edited by insertion or splice',
 'the payload is not compacted before the edit, bytes end up at wrong positions or are lost',
 PRE+'''fn main() {
    // 13 + 2 + 3 bytes
    let mut data = [0u32; 12];
    data[0] = 0x501E_0000; data[4] = 0x5023_0000; data[8] = 0x5034_0000;
    let mut k = 0u8;
    for (p, n) in [(0usize, 13usize), (1, 2), (2, 3)] {
        for i in 0..n { k += 1; let o = 3 + i; data[4 * p + o / 4] |= (k as u32) << (24 - 8 * (o % 4)); }
    }
    let m = midi2::sysex8::Sysex8::try_from(&data[..]).unwrap();
    let mut m: midi2::sysex8::Sysex8<Vec<u32>> = m.rebuffer_into();
    let mut want: Vec<u8> = m.payload().collect();
    m.insert_payload([0xAA, 0xBB].into_iter(), 14);
    want.splice(14..14, [0xAA, 0xBB]);
    assert_eq!(m.payload().collect::<Vec<u8>>(), want);
}
''')
bug('b02-sysex7-end-padding','C02',[('midi2/src/sysex7.rs','for i in r..6 {','for i in r..5 {')],
 'a multi-packet SysEx7 UMP message shrunk so that its last packet is partly filled where a full packet was before',
 'a stale payload byte stays in the unused last octet of the End packet',
 PRE+'''fn main() {
    let mut m = midi2::sysex7::Sysex7::<Vec<u32>>::new();
    m.set_payload((1..=12).map(midi2::ux::u7::new));
    m.splice_payload(core::iter::empty(), 9..12);
    let mut n = midi2::sysex7::Sysex7::<Vec<u32>>::new();
    n.set_payload((1..=9).map(midi2::ux::u7::new));
    assert_eq!(m.data(), n.data());
}
''')
bug('b04-bytes-reset','C05',[('midi2/src/message.rs','0xF1..=0xF6 | 0xF8..=0xFF => {','0xF1..=0xF6 | 0xF8..=0xFE => {')],
 'a system reset byte parsed through BytesMessage',
 'BytesMessage rejects the reset message',
 PRE+'''fn main() {
    assert!(matches!(BytesMessage::try_from(&[0xFFu8][..]), Ok(BytesMessage::SystemCommon(_))));
}
''')
bug('b05-effect-depth-4','C08',[('midi2/src/channel_voice2/controller.rs','Controller::EffectDepth { index: 4, data } => (94, data),','Controller::EffectDepth { index: 4, data } => (93, data),')],
 'a per-note controller write of EffectDepth with index 4',
 'the value is encoded as effect depth 3',
 PRE+'''fn main() {
    use midi2::channel_voice2::*;
    let mut m = RegisteredPerNoteController::<Vec<u32>>::new();
    m.set_controller(Controller::EffectDepth { index: 4, data: 7 });
    assert_eq!(m.controller(), Controller::EffectDepth { index: 4, data: 7 });
}
''')

# ---- wave 2
S='midi2/src/'
bug('b07-bass-chord-validate','C04',[(S+'flex_data/set_chord_name.rs','        ChordType::from_octet(buffer.buffer()[3].octet(1))?;\n        Ok(())','        ChordType::from_octet(buffer.buffer()[1].octet(1))?;\n        Ok(())')],
 'a set chord name message whose bass chord type code is not a defined one',
 'the message is accepted and reading the bass chord type panics',
 PRE+'''fn main() {
    let d = [0xD010_0006u32, 0x0, 0x0, 0x0077_0000];
    if let Ok(m) = midi2::flex_data::SetChordName::try_from(&d[..]) { let _ = m.bass_chord_type(); }
}
''')
bug('b08-sysex7-three-empty-packets','C15',[(S+'sysex7.rs','while !self.finished_ump() && self.current_packet_size_ump() == 0 {','if !self.finished_ump() && self.current_packet_size_ump() == 0 {')],
 'a parsed SysEx7 UMP message with three consecutive packets without payload in front of payload',
 'the payload iterator yields a byte which is not part of the payload',
 PRE+"""fn main() {
    let data = [0x3012_0102u32, 0, 0x3020_0000, 0, 0x3020_0000, 0, 0x3020_0000, 0, 0x3032_0304, 0];
    let m = midi2::sysex7::Sysex7::try_from(&data[..]).unwrap();
    let got: Vec<u8> = m.payload().map(u8::from).collect();
    assert_eq!(got, [1, 2, 3, 4]);
}
""")
bug('b09-flex-late-packet-channel','C13',[(S+'flex_data/text.rs','''        flex_data::optional_channel_to_slice(packet, channel);
        flex_data::status_to_buffer(packet, status);''','''        if i != number_of_packets - 1 || i <= 11 {
            flex_data::optional_channel_to_slice(packet, channel);
        }
        flex_data::status_to_buffer(packet, status);''')],
 'a flex data text of thirteen or more packets set after the channel',
 'the last packet carries another channel than the rest',
 PRE+'''fn main() {
    let mut m = midi2::flex_data::Lyrics::<Vec<u32>>::new();
    m.set_optional_channel(Some(midi2::ux::u4::new(5)));
    m.set_text(&"abcdefghijklmnopqrstuvwxyz".repeat(6));
    assert!(midi2::flex_data::Lyrics::try_from(m.data()).is_ok());
}
''')
bug('b10-text-multiple-of-packet','C12',[(S+'ump_stream.rs','if byte_index == 13 - OFFSET {','if byte_index + OFFSET == 13 && packet_index < 5 {')],
 'a function block or endpoint name of more than six packets',
 'bytes of the seventh packet run over into the header of the next',
 PRE+'''fn main() {
    let t: String = ('a'..='z').cycle().take(100).collect();
    let mut m = midi2::ump_stream::EndpointName::<Vec<u32>>::new();
    m.set_name(&t);
    assert_eq!(m.name(), t);
}
''')
bug('b11-array-from-mut-slice','C11',[(S+'buffer.rs','''impl<const SIZE: usize, U: Unit> TryFromBuffer<&mut [U]> for [U; SIZE] {
    fn try_from_buffer(value: &mut [U]) -> Result<Self, crate::error::BufferOverflow> {
        if value.len() > SIZE {''','''impl<const SIZE: usize, U: Unit> TryFromBuffer<&mut [U]> for [U; SIZE] {
    fn try_from_buffer(value: &mut [U]) -> Result<Self, crate::error::BufferOverflow> {
        if value.len() >= SIZE && SIZE > 4 {''')],
 'try_rebuffer_into an array of exactly the size of a mutable slice of more than four units',
 'a message which fits is reported as overflowing',
 PRE+'''fn main() {
    let mut data = [0x3016_0102u32, 0x0304_0506, 0x3032_0708, 0x0, 0x0, 0x0];
    let mut p = midi2::sysex7::Sysex7::try_new_with_buffer(&mut data[..]).unwrap();
    p.try_set_payload((1..=18).map(midi2::ux::u7::new)).unwrap();
    assert_eq!(p.payload().count(), 18);
    let r: Result<midi2::sysex7::Sysex7<[u32; 6]>, _> = p.try_rebuffer_into();
    assert_eq!(r.unwrap().payload().count(), 18);
}
''')
bug('b12-stream-status-first','C06',[(S+'ump_stream.rs','''            .chunks(4)
            .all(|packet| status_from_buffer(packet) == STATUS)''','''            .chunks(4)
            .step_by(3)
            .all(|packet| status_from_buffer(packet) == STATUS)''')],
 'a stream text message in which the second packet belongs to another kind of text',
 'packets of two different messages are accepted as one',
 PRE+'''fn main() {
    let d = [0xF403_6161u32, 0x6161_6161, 0x6161_6161, 0x6161_6161, 0xFC04_6200, 0, 0, 0];
    assert!(midi2::ump_stream::EndpointName::try_from(&d[..]).is_err());
}
''')
bug('b13-bank-none','C07',[(S+'channel_voice2/program_change.rs','                data[0].set_bit(31, false);\n                data[1].set_word(1, 0x0);','                data[0].set_bit(31, false);\n                data[1].set_octet(3, 0x0);')],
 'a channel voice 2 program change whose bank is set and then cleared again',
 'the upper bank byte stays in the message although it has no bank',
 PRE+"""fn main() {
    let mut m = midi2::channel_voice2::ProgramChange::<Vec<u32>>::new();
    m.set_bank(Some(midi2::ux::u14::new(0x3FFF)));
    m.set_bank(None);
    assert_eq!(m.data(), midi2::channel_voice2::ProgramChange::<Vec<u32>>::new().data());
}
""")
bug('b15-flex-end-position','C18',[(S+'flex_data/text.rs','        } else if i == number_of_packets - 1 {','        } else if i == number_of_packets - 1 && number_of_packets % 4 != 0 {')],
 'a flex data text of exactly four packets',
 'the last packet is marked Continue: the message has no end',
 PRE+"""fn main() {
    let t: String = ('a'..='z').cycle().take(40).collect();
    let mut m = midi2::flex_data::Lyrics::<[u32; 16]>::new();
    m.try_set_text(&t).unwrap();
    assert_eq!(m.data().len(), 16);
    assert!(midi2::flex_data::Lyrics::try_from(m.data()).is_ok());
}
""")
bug('b16-sysex7-end-group','C02',[(S+'sysex7.rs','        chunk[0].set_nibble(1, group.unwrap());\n        if iter.peek().is_some() {\n            // middle packet\n','        if iter.peek().is_some() {\n            // middle packet\n            chunk[0].set_nibble(1, group.unwrap());\n')],
 'a payload of several packets set on a SysEx7 UMP message after its group',
 'the End packet carries another group than the rest',
 PRE+"""fn main() {
    let mut m = midi2::sysex7::Sysex7::<Vec<u32>>::new();
    m.set_group(midi2::ux::u4::new(3));
    m.set_payload((0..20).map(midi2::ux::u7::new));
    assert!(midi2::sysex7::Sysex7::try_from(m.data()).is_ok());
}
""")
bug('b17-begin-in-the-middle','C06',[(S+'detail/helpers.rs','    while let Some(chunk) = iter.next() {\n        if iter.peek().is_some() && !is_continue(chunk) {','    let mut index = 0;\n    while let Some(chunk) = iter.next() {\n        index += 1;\n        if iter.peek().is_some() && !is_continue(chunk) && (index < 2 || chunk != first_packet) {')],
 'a first packet which is repeated within the message',
 'a message with two Start packets is accepted',
 PRE+"""fn main() {
    let d = [0x3016_0000u32, 1, 0x3026_0000, 2, 0x3016_0000, 1, 0x3036_0000, 3];
    assert!(midi2::sysex7::Sysex7::try_from(&d[..]).is_err());
}
""")
bug('b18-sysex8-packet-unexpected-end','C14',[(S+'sysex8/packet.rs','            if data[0].octet(3) == 0 && data[1..4].iter().all(|b| *b == 0x0) {','            if data[1..4].iter().all(|b| *b == 0x0) {')],
 'a SysEx8 End packet with a stream id and one payload byte ... whose count nibble is 1 and first data byte is not zero',
 'an ordinary End packet is reported as an unexpected end',
 PRE+"""fn main() {
    let p = midi2::sysex8::Packet::try_from(&[0x5031_0077u32, 0, 0, 0][..]).unwrap();
    assert_eq!(format!("{:?}", p.status()), "End");
}
""")
bug('b19-stream-gate','C19',[(S+'message.rs','            #[cfg(feature = "ump-stream")]\n            crate::ump_stream::UMP_MESSAGE_TYPE => {','            #[cfg(all(feature = "ump-stream", feature = "flex-data"))]\n            crate::ump_stream::UMP_MESSAGE_TYPE => {')],
 'a build with ump-stream but without flex-data',
 'UmpMessage rejects stream messages',
 PRE+"""fn main() {
    assert!(UmpMessage::try_from(&[0xF020_0000u32, 0, 0, 0][..]).is_ok());
}
""",'"std", "ump-stream"')
bug('b23-helper-gate','C19',[(S+'detail/helpers.rs','#[cfg(any(feature = "sysex7", feature = "sysex8", feature = "flex-data"))]\npub fn sysex_group_consistent_groups(','#[cfg(any(feature = "sysex7", feature = "sysex8"))]\npub fn sysex_group_consistent_groups(')],
 'a build with flex-data but neither sysex7 nor sysex8',
 'the crate does not compile',
 PRE+"""fn main() {
    assert!(UmpMessage::try_from(&[0xD010_0201u32, 0, 0, 0][..]).is_ok());
}
""",'"std", "flex-data"')
bug('b20-ci-small-sysex-size','C17',[(S+'ci/discovery.rs','        v.to_u7s(&mut buffer.buffer_mut()[26..30]);','        // zero: not known; otherwise at least 128 (M2-101 5.5)\n        let v = if v == ux::u28::new(0) { v } else { v.max(ux::u28::new(128)) };\n        v.to_u7s(&mut buffer.buffer_mut()[26..30]);')],
 'set_max_sysex_size with a value from 1 to 127',
 'another value is stored and read back',
 PRE+"""fn main() {
    use midi2::ci::*;
    let mut m = DiscoveryQuery::<1, Vec<u8>>::new();
    m.set_max_sysex_size(midi2::ux::u28::new(100));
    assert_eq!(m.max_sysex_size(), midi2::ux::u28::new(100));
}
""")
bug('b22-new-dirty-header','C09',[('midi2_proc/src/generate_message.rs','pub fn try_new_with_buffer(mut buffer: B) -> Result<#root_ident<B>, crate::error::BufferOverflow>\n            {\n                let buffer_ref_mut = &mut buffer;\n                let sz = <Self as crate::traits::MinSize<B>>::MIN_SIZE;\n                buffer_ref_mut.try_resize(sz)?;\n                for b in &mut buffer_ref_mut.buffer_mut()[..sz] {','pub fn try_new_with_buffer(mut buffer: B) -> Result<#root_ident<B>, crate::error::BufferOverflow>\n            {\n                let buffer_ref_mut = &mut buffer;\n                let sz = <Self as crate::traits::MinSize<B>>::MIN_SIZE;\n                buffer_ref_mut.try_resize(sz)?;\n                // the header is written below\n                for b in &mut buffer_ref_mut.buffer_mut()[1..sz] {')],
 'try_new_with_buffer on a buffer whose first unit has bits set which are reserved in the message',
 'stale bits stay in reserved header bits of the new message',
 PRE+"""fn main() {
    let mut buffer = [0xFFFF_FFFFu32; 4];
    let m = midi2::channel_voice2::PerNoteManagement::try_new_with_buffer(&mut buffer[..]).unwrap();
    assert_eq!(m.data(), midi2::channel_voice2::PerNoteManagement::<Vec<u32>>::new().data());
}
""")

# ---- wave 3
bug('b30-sysex8-early-refusal','C03',[(S+'sysex8.rs','        <Self as SysexInternal<B>>::try_resize(self, 0)?;\n        self.try_insert_payload(data, 0)','''        <Self as SysexInternal<B>>::try_resize(self, 0)?;
        if let (_, Some(upper)) = data.size_hint() {
            // reserve the space up front
            <Self as SysexInternal<B>>::try_resize(self, upper)?;
            <Self as SysexInternal<B>>::try_resize(self, 0)?;
        }
        self.try_insert_payload(data, 0)''')],
 'try_set_payload of a SysEx8 message on a bounded buffer from an iterator whose upper size hint is larger than what it yields (filter, take_while)',
 'the payload fits but BufferOverflow is reported',
 PRE+'''fn main() {
    let mut m = midi2::sysex8::Sysex8::<[u32; 4]>::new();
    assert!(m.try_set_payload((0..100u8).filter(|b| b % 10 == 0)).is_ok());
    assert_eq!(m.payload().collect::<Vec<u8>>(), vec![0, 10, 20, 30, 40, 50, 60, 70, 80, 90]);
}
''')
bug('b31-bytes-to-ump-presize','C10',[(S+'sysex7.rs','''    try_resize(
        &mut buffer,
        <Sysex7<B> as crate::traits::MinSize<B>>::MIN_SIZE,
    )?;''','''    // every unit of the target holds at least two bytes of the source
    try_resize(
        &mut buffer,
        (other.data().len() / 2).max(<Sysex7<B> as crate::traits::MinSize<B>>::MIN_SIZE),
    )?;''')],
 'try_from_bytes of a SysEx7 message whose payload exactly fills the packets of the target array',
 'a conversion which fits is reported as overflowing',
 PRE+'''fn main() {
    let d = [0xF0u8, 1, 2, 3, 4, 5, 6, 0xF7];
    let m = midi2::sysex7::Sysex7::try_from(&d[..]).unwrap();
    let r = midi2::sysex7::Sysex7::<[u32; 2]>::try_from_bytes(m);
    assert_eq!(r.unwrap().data(), [0x3006_0102, 0x0304_0506]);
}
''')
bug('b32-stream-status-mask','C05',[(S+'ump_stream.rs','    ((buffer[0] & 0x03FF_0000) >> 16) as u16','    ((buffer[0] & 0x01FF_0000) >> 16) as u16')],
 'stream data whose ten bit status has its topmost bit set',
 'undefined statuses are accepted as defined messages',
 PRE+'''fn main() {
    assert!(UmpMessage::try_from(&[0xF220_0000u32, 0, 0, 0][..]).is_err());
}
''')
bug('b33-flex-aggregate-bank','C16',[(S+'flex_data.rs','impl<B: Ump> FlexDataMessage<B> for FlexData<B> {}','''impl<B: Ump> FlexDataMessage<B> for FlexData<B> {
    fn bank(&self) -> Bank {
        use FlexData::*;
        match self {
            SetTempo(_) | SetTimeSignature(_) | SetMetronome(_) | SetKeySignature(_)
            | SetChordName(_) => Bank::SetupAndPerformance,
            UnknownPerformanceText(_) | Lyrics(_) | LyricsLanguage(_) | Ruby(_)
            | RecordingLocation(_) | RubyLanguage(_) => Bank::PerformanceText,
            _ => Bank::MetadataText,
        }
    }
}''')],
 'the bank of a recording location message read through FlexData',
 'the aggregate reports another bank than the message it holds',
 PRE+'''fn main() {
    use midi2::flex_data::*;
    let m = RecordingLocation::<Vec<u32>>::new();
    let b = m.bank();
    assert_eq!(FlexData::from(m).bank(), b);
}
''')
bug('b34-sysex8-odd-capacity','C03',[(S+'buffer.rs','''impl<U: Unit> BufferTryResize for &mut [U] {
    fn try_resize(&mut self, size: usize) -> Result<(), BufferOverflow> {
        if size > self.len() {''','''impl<U: Unit> BufferTryResize for &mut [U] {
    fn try_resize(&mut self, size: usize) -> Result<(), BufferOverflow> {
        if size > self.len() || size > 8 && size > self.len() & !0x3 {''')],
 'messages of more than eight units in mutable slices whose length is not a multiple of four',
 'a message which fits is refused',
 PRE+'''fn main() {
    let mut b = [0u8; 9];
    let mut m = midi2::sysex7::Sysex7::try_new_with_buffer(&mut b[..]).unwrap();
    assert!(m.try_set_payload((1..8).map(midi2::ux::u7::new)).is_ok());
}
''')
bug('b40-alloc-group-check','C20',[(S+'detail/helpers.rs','''    use group_from_packet as gfp;
    if buffer
        .chunks_exact(stride)
        .take_while(|chunk| chunk[0].nibble(0) == ump_type)
        .all(|chunk| gfp(chunk) == gfp(buffer))
    {''','''    use group_from_packet as gfp;
    #[cfg(feature = "std")]
    let consistent = {
        let groups: std::vec::Vec<_> = buffer
            .chunks_exact(stride)
            .take_while(|chunk| chunk[0].nibble(0) == ump_type)
            .map(gfp)
            .collect();
        groups.windows(2).all(|pair| pair[0] == pair[1])
    };
    #[cfg(not(feature = "std"))]
    let consistent = buffer
        .chunks_exact(stride)
        .take_while(|chunk| chunk[0].nibble(0) == ump_type)
        .all(|chunk| gfp(chunk) == gfp(buffer));
    if consistent {''')],
 'parsing a system exclusive message with a counting allocator',
 'parsing a slice allocates',
 PRE+'''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Counting;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(1, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let d = [0x3016_0102u32, 0x0304_0506, 0x3031_0700, 0];
    let before = N.load(Ordering::SeqCst);
    let m = UmpMessage::try_from(&d[..]);
    let after = N.load(Ordering::SeqCst);
    assert!(m.is_ok());
    assert_eq!(before, after);
}
''')
bug('b41-group-check-256','C06',[(S+'detail/helpers.rs','''        .take_while(|chunk| chunk[0].nibble(0) == ump_type)
        .all(|chunk| gfp(chunk) == gfp(buffer))''','''        .take_while(|chunk| chunk[0].nibble(0) == ump_type)
        .zip(0u8..)
        .all(|(chunk, _)| gfp(chunk) == gfp(buffer))''')],
 'a system exclusive message of more than 255 packets whose group changes late',
 'packets of another group are taken as part of the message',
 PRE+'''fn main() {
    let mut d = Vec::new();
    for i in 0..400u32 {
        let status = if i == 0 { 1 } else if i == 399 { 3 } else { 2 };
        let group = if i > 300 { 5 } else { 4 };
        d.extend([0x3006_0000 | group << 24 | status << 20, 0]);
    }
    assert!(UmpMessage::try_from(&d[..]).is_err());
}
''')
bug('b42-flex-text-packet-count','C12',[(S+'flex_data/text.rs','''    let number_of_packets = size / 4;
''','''    let number_of_packets = (size / 4) as u16 as usize;
''')],
 'a flex data text of more than 65535 packets',
 'the packets past the 65536th are not initialised',
 PRE+'''fn main() {
    use midi2::flex_data::*;
    let mut m = Lyrics::<Vec<u32>>::new();
    let t = "abcdefghijkl".repeat(65_540);
    m.set_text(&t);
    assert_eq!(m.text(), t);
    assert!(Lyrics::try_from(m.data()).is_ok());
}
''')
bug('b43-sysex8-set-byte-skip','C01',[(S+'sysex8.rs','''            index -= sz;
            packet_index += 1;
        }
    }
    fn splice_payload''','''            index -= sz;
            packet_index += 1;
            if index >= 13 && sz == 13 {
                // a full packet is followed by further full packets
                packet_index += index / 13;
                index %= 13;
            }
        }
    }
    fn splice_payload''')],
 'set_byte on a parsed SysEx8 message with full packets followed by a partly filled one which is not the last',
 'another byte than the indexed one is written',
 PRE+'''fn main() {
    let d = [
        0x501E_0001u32, 0, 0, 0, 0x5025_0011, 0x1213_1400, 0, 0, 0x502E_0021, 0x2223_2425, 0x2627_2829, 0x2A2B_2C2D,
        0x5032_0031, 0, 0, 0,
    ];
    let m = midi2::sysex8::Sysex8::try_from(&d[..]).unwrap();
    let mut m: midi2::sysex8::Sysex8<Vec<u32>> = m.rebuffer_into();
    let mut p: Vec<u8> = m.payload().collect();
    for i in 0..p.len() {
        p[i] = 0xEE;
        m.set_byte(0xEE, i);
        assert_eq!(m.payload().collect::<Vec<u8>>(), p);
    }
}
''')
bug('b44-compact-counter','C02',[(S+'sysex7.rs','    let mut dst_packet_index = 0;\n','    let mut dst_packet_index = 0u8;\n'),(S+'sysex7.rs','            buffer[dst_packet_index * 2 + (dst_payload_index + 2) / 4]','            buffer[dst_packet_index as usize * 2 + (dst_payload_index + 2) / 4]'),(S+'sysex7.rs','                dst_packet_index += 1;','                dst_packet_index = dst_packet_index.wrapping_add(1);')],
 'a parsed SysEx7 message with partly filled packets and more than 256 packets worth of payload, then edited',
 'the payload is packed over itself',
 PRE+"""fn main() {
    let mut d = Vec::new();
    for i in 0..300u32 {
        let status = if i == 0 { 1 } else if i == 299 { 3 } else { 2 };
        let size = if i == 80 { 2 } else { 6 };
        d.extend([0x3000_0000 | status << 20 | size << 16 | (i & 0x7F) << 8, 0]);
    }
    let m = midi2::sysex7::Sysex7::try_from(&d[..]).unwrap();
    let mut p: Vec<_> = m.payload().collect();
    let mut m: midi2::sysex7::Sysex7<Vec<u32>> = m.rebuffer_into();
    m.append_payload([midi2::ux::u7::new(1)].into_iter());
    p.push(midi2::ux::u7::new(1));
    assert_eq!(m.payload().collect::<Vec<_>>(), p);
}
""")
bug('b45-array-capacity-u16','C03',[(S+'buffer.rs','''impl<const SIZE: usize, U: Unit> BufferTryResize for [U; SIZE] {
    fn try_resize(&mut self, size: usize) -> Result<(), BufferOverflow> {
        if size > self.len() {''','''impl<const SIZE: usize, U: Unit> BufferTryResize for [U; SIZE] {
    fn try_resize(&mut self, size: usize) -> Result<(), BufferOverflow> {
        if size as u16 as usize > self.len() {''')],
 'a payload of 65534 bytes and more set at once on a message in a library array',
 'a panic instead of the buffer overflow error',
 PRE+'''fn main() {
    let mut m = midi2::sysex7::Sysex7::<[u8; 64]>::new();
    let p = vec![midi2::ux::u7::new(1); 65_536];
    assert!(m.try_set_payload(p.into_iter()).is_err());
}
''')
bug('b46-key-signature-octet','C07',[(S+'flex_data/set_key_signature.rs','''        buffer.buffer_mut()[1].set_nibble(
            0,
            match v {
                SharpsFlats::Sharps(v) => u4::from(v),
                SharpsFlats::Flats(v) => u4::new(u8::from(v).wrapping_neg() & 0b0000_1111),
                SharpsFlats::NonStandard => u4::new(0x8),
            },
        );''','''        if v == SharpsFlats::NonStandard {
            // no tonic can be given for a non standard key signature
            buffer.buffer_mut()[1].set_octet(0, 0x80);
            return;
        }
        buffer.buffer_mut()[1].set_nibble(
            0,
            match v {
                SharpsFlats::Sharps(v) => u4::from(v),
                SharpsFlats::Flats(v) => u4::new(u8::from(v).wrapping_neg() & 0b0000_1111),
                SharpsFlats::NonStandard => u4::new(0x8),
            },
        );''')],
 'a non standard key signature set after the tonic',
 'setting the sharps and flats resets the tonic',
 PRE+'''fn main() {
    use midi2::flex_data::*;
    let mut m = SetKeySignature::<[u32; 4]>::new();
    m.set_tonic(Tonic::E);
    m.set_sharps_flats(SetKeySignatureSharpsFlats::NonStandard);
    assert_eq!(m.tonic(), Tonic::E);
}
''')
bug('b47-vec-into-array','C11',[(S+'buffer.rs','''    fn try_from_buffer(value: std::vec::Vec<U>) -> Result<Self, crate::error::BufferOverflow> {
        if value.len() > SIZE {
            return Err(crate::error::BufferOverflow);
        }
        let mut buffer = [U::zero(); SIZE];
        buffer[..value.len()].copy_from_slice(&value[..]);''','''    fn try_from_buffer(value: std::vec::Vec<U>) -> Result<Self, crate::error::BufferOverflow> {
        if value.len() > SIZE {
            return Err(crate::error::BufferOverflow);
        }
        let mut buffer = [U::zero(); SIZE];
        // whole packets
        for (to, from) in buffer.chunks_mut(4).zip(value.chunks_exact(4)) {
            to.copy_from_slice(from);
        }
        let rest = value.len() / 4 * 4;
        if rest == 0 || rest + 2 == value.len() {
            buffer[rest..value.len()].copy_from_slice(&value[rest..]);
        }''')],
 'rebuffering from a vector to an array a byte form message of an odd length above four',
 'the last bytes are lost',
 PRE+'''fn main() {
    use midi2::sysex7::Sysex7;
    let d = [0xF0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xF7];
    let m: Sysex7<Vec<u8>> = Sysex7::try_from(&d[..]).unwrap().rebuffer_into();
    let a: Sysex7<[u8; 11]> = m.try_rebuffer_into().unwrap();
    assert_eq!(a.data(), &d[..]);
}
''')
bug('b48-sysex7-nth-clamp','C15',[(S+'sysex7.rs','''                if self.payload_index >= data.len() {
                    None
                } else {
                    let ret = Some(u7::new(data[self.payload_index]));''','''                if self.payload_index as u16 as usize >= data.len() {
                    None
                } else {
                    let ret = Some(u7::new(data[self.payload_index]));''')],
 'a byte form payload longer than 65 535 octets, read past its end',
 'the iterator indexes outside the payload instead of ending',
 PRE+'''fn main() {
    let mut d = vec![0x11u8; 70_002];
    d[0] = 0xF0;
    d[70_001] = 0xF7;
    let m = midi2::sysex7::Sysex7::try_from(&d[..]).unwrap();
    let mut p = m.payload();
    assert!(p.nth(69_999).is_some());
    assert_eq!(p.next(), None);
}
''')
bug('b49-packets-nth','C15',[(S+'packets.rs','''        self.0.nth(n).map(|data| Packet::try_from(data).unwrap())''','''        // skip as many packets as there are
        let n = n % (self.0.len() + 1);
        self.0.nth(n).map(|data| Packet::try_from(data).unwrap())''')],
 'skipping more packets than are left',
 'a packet is returned instead of None',
 PRE+'''fn main() {
    let d = [0x3016_0102u32, 0x0304_0506, 0x3031_0700, 0];
    let m = midi2::sysex7::Sysex7::try_from(&d[..]).unwrap();
    assert_eq!(m.packets().nth(3), None);
    assert_eq!(m.packets().nth(4), None);
}
''')
bug('b50-attribute-code','C08',[(S+'channel_voice2/attribute.rs','''        None => {
            bytes[0].set_octet(3, 0x0);
            bytes[1].set_word(1, 0x0);
        }''','''        // a cleared manufacturer attribute is no attribute
        None | Some(Attribute::ManufacturerSpecific(0)) => {
            bytes[0].set_octet(3, 0x0);
            bytes[1].set_word(1, 0x0);
        }''')],
 'a manufacturer specific attribute with data zero',
 'the attribute reads back as none',
 PRE+'''fn main() {
    use midi2::channel_voice2::*;
    let mut m = NoteOn::<[u32; 4]>::new();
    m.set_attribute(Some(NoteAttribute::ManufacturerSpecific(0)));
    assert_eq!(m.attribute(), Some(NoteAttribute::ManufacturerSpecific(0)));
}
''')
bug('b51-stream-header-size','C13',[(S+'ump_stream.rs','''    for packet in buffer[..size].chunks_exact_mut(4) {
        packet[0].set_nibble(0, u4::new(UMP_MESSAGE_TYPE));
        packet[0] &= !0x03FF_0000;
        packet[0] |= (status as u32) << 16;''','''    for (i, packet) in buffer[..size].chunks_exact_mut(4).enumerate() {
        packet[0].set_nibble(0, u4::new(UMP_MESSAGE_TYPE));
        packet[0] &= !0x03FF_0000;
        if i > 0xFF {
            packet[0] |= 0x0003_0000;
            continue;
        }
        packet[0] |= (status as u32) << 16;''')],
 'a product instance id or function block name of more than 256 packets',
 'later packets carry another status',
 PRE+'''fn main() {
    use midi2::ump_stream::*;
    let mut m = ProductInstanceId::<Vec<u32>>::new();
    m.set_id(&"x".repeat(14 * 300));
    assert!(m.packets().all(|p| p[0] >> 16 & 0x3FF == 4));
}
''')
bug('b52-sysex8-tail-move','C01',[(S+'sysex8.rs','''        // data is written into the buffer contiguously
        // meaning only the last packet may have a size < 6
        let buffer_index = 4 * (payload_index / 13);''','''        // data is written into the buffer contiguously
        // meaning only the last packet may have a size < 6
        if payload_index == 0 {
            // the header of the first packet is rewritten with its payload
            let words = self.0.specialise_u32_mut();
            if words.len() > 64 {
                words[64..].fill(0x0);
            }
        }
        let buffer_index = 4 * (payload_index / 13);''')],
 'an insertion at the start of a SysEx8 message of more than sixteen packets',
 'words behind the sixteenth packet are cleared',
 PRE+'''fn main() {
    let mut m = midi2::sysex8::Sysex8::<Vec<u32>>::new();
    let mut p: Vec<u8> = (0..=255).collect();
    m.set_payload(p.iter().copied());
    m.insert_payload([7].into_iter(), 0);
    p.insert(0, 7);
    assert_eq!(m.payload().collect::<Vec<u8>>(), p);
}
''')
bug('b53-unexpected-end-words','C14',[(S+'sysex8/packet.rs',"data[1..4].iter().all(|b| *b == 0x0)","data[1..3].iter().all(|b| *b == 0x0)")],
 'a SysEx8 end packet without payload whose last word is not zero',
 'a regular end packet is reported as an unexpected end',
 PRE+"""fn main() {
    use midi2::sysex8::*;
    let p = Packet::try_from(&[0x5031_0000u32, 0, 0, 0x12][..]).unwrap();
    assert_eq!(format!("{:?}", p.status()), "End");
}
""")
bug('b54-stream-packet-gate','C19',[(S+'packet.rs','''            #[cfg(feature = "ump-stream")]
            ump_stream::UMP_MESSAGE_TYPE => Ok''','''            #[cfg(all(feature = "ump-stream", any(feature = "std", feature = "utility")))]
            ump_stream::UMP_MESSAGE_TYPE => Ok''')],
 'stream packets in a no_std build without utility messages',
 'packets of a compiled in family are refused',
 PRE+"""fn main() {
    let d = [0xF020_0000u32, 0, 0, 0];
    let m = midi2::ump_stream::StartOfClip::try_from(&d[..]).unwrap();
    assert_eq!(m.packets().count(), 1);
    assert!(m.packets().next().is_some());
}
""",'"ump-stream"')
# ---- wave 5
bug('b60-debug-units','C21',[('midi2_proc/src/derives.rs','''                        let mut iter = buff.specialise_u32().iter().peekable();''','''                        let mut iter = buff.specialise_u32().iter().take(1024).peekable();''')],
 'Debug output of a message of more than 1024 words',
 'the end of a long message is missing in its Debug output',
 PRE+'''fn main() {
    let mut m = midi2::sysex8::Sysex8::<Vec<u32>>::new();
    m.set_payload((0..13 * 300).map(|i| i as u8));
    assert_eq!(format!("{m:?}").matches("0x").count(), m.data().len());
}
''')
bug('b61-sysex8-packet-eq','C21',[(S+'sysex8/packet.rs','''#[derive(Eq, PartialEq, Clone, midi2_proc::Debug)]
pub struct Packet(pub(crate) [u32; 4]);
''','''#[derive(Eq, Clone, midi2_proc::Debug)]
pub struct Packet(pub(crate) [u32; 4]);

impl PartialEq for Packet {
    fn eq(&self, other: &Self) -> bool {
        use crate::detail::BitOps;
        // words without payload don't matter
        let words = 1 + u8::from(self.0[0].nibble(3)) as usize / 4;
        self.0[..words.min(4)] == other.0[..words.min(4)]
    }
}
''')],
 'SysEx8 packets of two payload bytes (or six, ...) which differ in the last one',
 'packets with different payloads compare equal',
 PRE+'''fn main() {
    let packet = |b: u8| {
        let mut m = midi2::sysex8::Sysex8::<Vec<u32>>::new();
        m.set_payload([1, b].into_iter());
        let p = m.packets().next().unwrap();
        p
    };
    assert!(packet(1) == packet(1));
    assert!(packet(1) != packet(2));
}
''')
bug('b63-vec-shrinks','C20',[(S+'buffer.rs','''impl<U: Unit> BufferResize for std::vec::Vec<U> {
    fn resize(&mut self, size: usize) {
        self.resize(size, U::zero());
    }
}''','''impl<U: Unit> BufferResize for std::vec::Vec<U> {
    fn resize(&mut self, size: usize) {
        self.resize(size, U::zero());
        // don't keep the memory of a much longer message
        if self.capacity() > 32 * size.max(8) {
            self.shrink_to(4 * size);
        }
    }
}''')],
 'a short message written to a vector with much spare capacity',
 'the capacity is given back and growing again allocates',
 PRE+"""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Counting;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { N.fetch_add(1, SeqCst); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let v = Vec::with_capacity(1000);
    let before = N.load(SeqCst);
    let mut m = midi2::sysex7::Sysex7::<Vec<u32>>::new_with_buffer(v);
    m.set_payload((0..60u32).map(|i| midi2::ux::u7::new(i as u8 & 0x7F)));
    assert_eq!(N.load(SeqCst), before);
}
""")
bug('b64-stream-id-zero','C06',[(S+'sysex8.rs','''            .all(|chunk| sid(chunk) == sid(buffer))''','''            .all(|chunk| sid(chunk) == sid(buffer) || sid(chunk) == 0)''')],
 'a SysEx8 message with a non zero stream id of which a later packet has stream id zero',
 'packets of two streams are accepted as one message',
 PRE+'''fn main() {
    let d = [0x5012_0501u32, 0, 0, 0, 0x5032_0001, 0, 0, 0];
    assert!(midi2::sysex8::Sysex8::try_from(&d[..]).is_err());
}
''')
bug('b65-ci-version-checks','C17',[('midi2_proc/src/generate_ci.rs','''            // this check should be optimised away by the compiler
            if #property_version <= VERSION {
                <#meta_type as crate::detail::property::ReadProperty<&[u8]>>::validate(buffer)?;''','''            // this check should be optimised away by the compiler
            if #property_version == VERSION {
                <#meta_type as crate::detail::property::ReadProperty<&[u8]>>::validate(buffer)?;''')],
 'data with a wrong MIDI-CI header parsed as a version 2 query',
 'a version 2 query whose universal system exclusive header is wrong is accepted',
 PRE+'''fn main() {
    let m = midi2::ci::DiscoveryQuery::<2, Vec<u8>>::new();
    let mut d = m.data().to_vec();
    d[3] = 0x0E;
    assert!(midi2::ci::DiscoveryQuery::<2, _>::try_from(&d[..]).is_err());
}
''')
# wave 6
bug('b70-strip-bom','C12',[(S+'flex_data/text.rs','''        let bytes = TextReadBytesProperty::read(buffer).collect();
        std::string::String::from_utf8(bytes).unwrap()''','''        let bytes = TextReadBytesProperty::read(buffer).collect();
        let text = std::string::String::from_utf8(bytes).unwrap();
        // not part of the text
        text.trim_start_matches('\\u{feff}').into()''')],
 'a flex data text starting with U+FEFF',
 'the character is missing when the text is read',
 PRE+'''fn main() {
    let mut m = midi2::flex_data::Lyrics::<Vec<u32>>::new();
    m.set_text("\\u{feff}la");
    assert_eq!(m.text(), "\\u{feff}la");
}
''')
bug('b73-text-packet-counter','C12',[(S+'flex_data/text.rs','''            // end of message
            self.packet_index += 1;
            self.byte_index = 0;''','''            // end of packet
            self.packet_index = usize::from(self.packet_index as u16 + 1);
            self.byte_index = 0;''')],
 'a flex data text of more than 65 535 packets',
 'reading the text never ends (or panics where overflow is checked)',
 PRE+'''fn main() {
    let mut m = midi2::flex_data::Lyrics::<Vec<u32>>::new();
    m.set_text(&"x".repeat(12 * 65_536 + 5));
    assert_eq!(m.text_bytes().take(800_000).count(), 12 * 65_536 + 5);
}
''')
bug('b74-array-rebuffer-long','C11',[('midi2_proc/src/generate_message.rs','''                let message_size = other.data().len();
                buffer[..message_size].copy_from_slice(other.data());''','''                let message_size = other.data().len();
                for (chunk, from) in buffer[..message_size].chunks_exact_mut(2).zip(other.data().chunks_exact(2)) {
                    chunk.copy_from_slice(from);
                }
                // messages of odd size are never longer than three units
                if message_size < 4 && message_size % 2 == 1 {
                    buffer[message_size - 1] = other.data()[message_size - 1];
                }''')],
 'a SysEx7 byte message of an odd number of at least five octets rebuffered into an array with array_rebuffer_into',
 'the end marker is missing',
 PRE+'''fn main() {
    let d = [0xF0u8, 1, 2, 3, 0xF7];
    let m = midi2::sysex7::Sysex7::try_from(&d[..]).unwrap();
    let a: midi2::sysex7::Sysex7<[u8; 9]> = m.array_rebuffer_into();
    assert_eq!(a.data(), &d[..]);
}
''')

# C22
GMS='midi2_proc/src/generate_message.rs'
VALIDA='let _valid = <Self as crate::traits::ArraySizeValid<SIZE, #array_type>>::VALID;'
C22=lambda body: PRE+"fn main() {\n"+body+"}\n"
bug('b80-from-ump-array-unchecked','C22',[(GMS,"""crate::traits::FromUmp<#root_ident<A>> for #root_ident<#array_type>
        {
            fn from_ump(other: #root_ident<A>) -> Self {
                """+VALIDA+"""
""","""crate::traits::FromUmp<#root_ident<A>> for #root_ident<#array_type>
        {
            fn from_ump(other: #root_ident<A>) -> Self {
""")],
 'converting a UMP message into a byte array shorter than the byte stream message',
 'the program compiles and panics when the conversion runs',
 tuple(C22("    let m = midi2::channel_voice1::NoteOn::<[u32; 1]>::new();\n    let _: midi2::channel_voice1::NoteOn<[u8; %d]> = m.into_bytes();\n"%n) for n in (3,2)))
bug('b81-array-size-zero','C22',[(S+'traits.rs','    const VALID: () = if SIZE < <Self as MinSize<B>>::MIN_SIZE {','    const VALID: () = if SIZE > 0 && SIZE < <Self as MinSize<B>>::MIN_SIZE {')],
 'an array of length zero as the buffer of a new message',
 'the program compiles and panics when the message is made',
 tuple(C22("    let _ = midi2::utility::NoOp::<[u32; %d]>::new();\n"%n) for n in (1,0)))
bug('b82-slice-resize','C22',[(S+'buffer.rs','impl<U: Unit> BufferTryResize for &mut [U] {','impl<U: Unit> BufferResize for &mut [U] {\n    fn resize(&mut self, size: usize) {\n        assert!(size <= self.len(), "buffer too short");\n    }\n}\n\nimpl<U: Unit>  BufferTryResize for &mut [U] {')],
 'an infallible text or payload setter on a message over a mutable slice',
 'the operation is accepted by the compiler and panics if the text does not fit',
 tuple(C22("    let mut b = [0u32; 4];\n    let mut m = midi2::sysex8::Sysex8::try_new_with_buffer(&mut b[..]).unwrap();\n    %s;\n"%n) for n in ('let _ = m.try_set_payload(0..40)','m.set_payload(0..40)')))
bug('b83-array-rebuffer-unchecked','C22',[(GMS,"""            fn array_rebuffer_from(other: #root_ident<A>) -> Self {
                let _valid = <Self as crate::traits::ArraySizeValid<SIZE, #buffer_type>>::VALID;
""","""            fn array_rebuffer_from(other: #root_ident<A>) -> Self {
""")],
 'array_rebuffer_into of a fixed size message into an array shorter than the message',
 'the program compiles and panics when the rebuffering runs',
 tuple(C22("    let m = midi2::channel_voice2::NoteOn::<[u32; 2]>::new();\n    let _: midi2::channel_voice2::NoteOn<[u32; %d]> = m.array_rebuffer_into();\n"%n) for n in (2,1)))
