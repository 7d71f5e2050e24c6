//! Reference parser for whole inputs, and uniform access to the aggregates.
use crate::buf::Un;
use crate::spec::*;
use midi2::buffer::*;
use midi2::prelude::*;

pub const SX7: &str = "sysex7::Sysex7";
pub const SX8: &str = "sysex8::Sysex8";

impl<B: Ump> Any<u32> for midi2::sysex7::Sysex7<B> {
    fn name(&self) -> &'static str { SX7 }
    fn all_units(&self) -> Vec<u32> { midi2::Data::data(self).to_vec() }
    fn reads(&self) -> Vec<u64> {
        let mut v = vec![u8::from(Grouped::group(self)) as u64, 0, self.payload_size() as u64];
        v.extend(self.payload().map(|b| u8::from(b) as u64));
        v
    }
}
/// (UMP and byte form of Sysex7 cannot both implement the trait for all buffers)
pub struct S7Bytes<'a, B: Bytes>(pub &'a midi2::sysex7::Sysex7<B>);
impl<B: Bytes> Any<u8> for S7Bytes<'_, B> {
    fn name(&self) -> &'static str { SX7 }
    fn all_units(&self) -> Vec<u8> { midi2::Data::data(self.0).to_vec() }
    fn reads(&self) -> Vec<u64> {
        let mut v = vec![0, 0, self.0.payload_size() as u64];
        v.extend(self.0.payload().map(|b| u8::from(b) as u64));
        v
    }
}
impl<B: Ump> Any<u32> for midi2::sysex8::Sysex8<B> {
    fn name(&self) -> &'static str { SX8 }
    fn all_units(&self) -> Vec<u32> { midi2::Data::data(self).to_vec() }
    fn reads(&self) -> Vec<u64> {
        let mut v = vec![u8::from(Grouped::group(self)) as u64, self.stream_id() as u64, self.payload_size() as u64];
        v.extend(self.payload().map(|b| b as u64));
        v
    }
}

#[macro_export]
macro_rules! on_variants {
    ($m:expr, $($p:ident)::+ : $($v:ident)*, $x:ident => $e:expr) => {
        match $m { $( $($p)::+::$v($x) => $e, )* #[allow(unreachable_patterns)] _ => panic!("harness: unknown variant") }
    };
}
#[macro_export]
macro_rules! on_cv1 {
    ($m:expr, $x:ident => $e:expr) => {{ use midi2::channel_voice1::ChannelVoice1 as Ag; match $m { Ag::NoteOff($x) => $e, Ag::NoteOn($x) => $e, Ag::KeyPressure($x) => $e, Ag::ControlChange($x) => $e, Ag::ProgramChange($x) => $e, Ag::ChannelPressure($x) => $e, Ag::PitchBend($x) => $e, #[allow(unreachable_patterns)] _ => panic!("harness: unknown variant") } }};
}
#[macro_export]
macro_rules! on_sysc {
    ($m:expr, $x:ident => $e:expr) => {{ use midi2::system_common::SystemCommon as Ag; match $m { Ag::ActiveSensing($x) => $e, Ag::Continue($x) => $e, Ag::Reset($x) => $e, Ag::SongPositionPointer($x) => $e, Ag::SongSelect($x) => $e, Ag::Start($x) => $e, Ag::Stop($x) => $e, Ag::TimeCode($x) => $e, Ag::TimingClock($x) => $e, Ag::TuneRequest($x) => $e, #[allow(unreachable_patterns)] _ => panic!("harness: unknown variant") } }};
}
#[macro_export]
macro_rules! on_util {
    ($m:expr, $x:ident => $e:expr) => {{ use midi2::utility::Utility as Ag; match $m { Ag::NoOp($x) => $e, Ag::Clock($x) => $e, Ag::Timestamp($x) => $e, Ag::DeltaClockstampTpq($x) => $e, Ag::DeltaClockstamp($x) => $e, #[allow(unreachable_patterns)] _ => panic!("harness: unknown variant") } }};
}
#[macro_export]
macro_rules! on_cv2 {
    ($m:expr, $x:ident => $e:expr) => {{ use midi2::channel_voice2::ChannelVoice2 as Ag; match $m {
        Ag::AssignableController($x) => $e, Ag::AssignablePerNoteController($x) => $e, Ag::ChannelPitchBend($x) => $e, Ag::ChannelPressure($x) => $e, Ag::ControlChange($x) => $e,
        Ag::KeyPressure($x) => $e, Ag::NoteOff($x) => $e, Ag::NoteOn($x) => $e, Ag::PerNoteManagement($x) => $e, Ag::PerNotePitchBend($x) => $e, Ag::ProgramChange($x) => $e,
        Ag::RegisteredController($x) => $e, Ag::RegisteredPerNoteController($x) => $e, Ag::RelativeAssignableController($x) => $e, Ag::RelativeRegisteredController($x) => $e,
        #[allow(unreachable_patterns)] _ => panic!("harness: unknown variant") } }};
}
#[macro_export]
macro_rules! on_flex {
    ($m:expr, $x:ident => $e:expr) => {{ use midi2::flex_data::FlexData as Ag; match $m {
        Ag::SetChordName($x) => $e, Ag::SetKeySignature($x) => $e, Ag::SetMetronome($x) => $e, Ag::SetTempo($x) => $e, Ag::SetTimeSignature($x) => $e, Ag::UnknownMetadataText($x) => $e,
        Ag::ProjectName($x) => $e, Ag::CompositionName($x) => $e, Ag::MidiClipName($x) => $e, Ag::CopyrightNotice($x) => $e, Ag::ComposerName($x) => $e, Ag::LyricistName($x) => $e, Ag::ArrangerName($x) => $e,
        Ag::PublisherName($x) => $e, Ag::PrimaryPerformerName($x) => $e, Ag::AccompanyingPerformerName($x) => $e, Ag::RecordingDate($x) => $e, Ag::RecordingLocation($x) => $e, Ag::UnknownPerformanceText($x) => $e,
        Ag::Lyrics($x) => $e, Ag::LyricsLanguage($x) => $e, Ag::Ruby($x) => $e, Ag::RubyLanguage($x) => $e,
        #[allow(unreachable_patterns)] _ => panic!("harness: unknown variant") } }};
}
#[macro_export]
macro_rules! on_stream {
    ($m:expr, $x:ident => $e:expr) => {{ use midi2::ump_stream::UmpStream as Ag; match $m {
        Ag::DeviceIdentity($x) => $e, Ag::EndOfClip($x) => $e, Ag::EndpointDiscovery($x) => $e, Ag::EndpointInfo($x) => $e, Ag::EndpointName($x) => $e, Ag::FunctionBlockDiscovery($x) => $e, Ag::FunctionBlockInfo($x) => $e,
        Ag::FunctionBlockName($x) => $e, Ag::ProductInstanceId($x) => $e, Ag::StartOfClip($x) => $e, Ag::StreamConfigurationNotification($x) => $e, Ag::StreamConfigurationRequest($x) => $e,
        #[allow(unreachable_patterns)] _ => panic!("harness: unknown variant") } }};
}
/// runs the expression with the concrete message held by a UmpMessage
#[macro_export]
macro_rules! on_ump {
    ($m:expr, $x:ident => $e:expr) => {{ use midi2::UmpMessage as Um; match $m {
        Um::ChannelVoice1(a) => $crate::on_cv1!(a, $x => $e), Um::ChannelVoice2(a) => $crate::on_cv2!(a, $x => $e), Um::SystemCommon(a) => $crate::on_sysc!(a, $x => $e), Um::Utility(a) => $crate::on_util!(a, $x => $e),
        Um::FlexData(a) => $crate::on_flex!(a, $x => $e), Um::UmpStream(a) => $crate::on_stream!(a, $x => $e), Um::Sysex7($x) => $e, Um::Sysex8($x) => $e,
        #[allow(unreachable_patterns)] _ => panic!("harness: unknown variant") } }};
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Parsed<U> {
    pub name: &'static str,
    pub data: Vec<U>,
    pub reads: Vec<u64>,
}
pub fn parsed<U: Un>(a: &dyn Any<U>) -> Parsed<U> {
    Parsed { name: a.name(), data: a.all_units(), reads: a.reads() }
}
pub fn ump_parsed<B: Ump>(m: &UmpMessage<B>) -> Parsed<u32> {
    on_ump!(m, x => parsed::<u32>(x))
}
pub fn bytes_parsed<B: Bytes>(m: &BytesMessage<B>) -> Parsed<u8> {
    match m {
        BytesMessage::ChannelVoice1(a) => on_cv1!(a, x => parsed::<u8>(x)),
        BytesMessage::SystemCommon(a) => on_sysc!(a, x => parsed::<u8>(x)),
        BytesMessage::Sysex7(x) => parsed::<u8>(&S7Bytes(x)),
        #[allow(unreachable_patterns)]
        _ => panic!("harness: unknown variant"),
    }
}

// ---- the reference parser -----------------------------------------------------

/// values a message of this spec made of these units reads
pub fn spec_reads<U: Un>(s: &Spec, d: &[U]) -> Vec<u64> {
    let mut v: Vec<u64> = s.fields.iter().filter(|f| f.access).map(|f| f.value(d).unwrap()).collect();
    if let Some(t) = s.text {
        v.extend(text_of(t, d).iter().map(|b| *b as u64));
    }
    v
}
/// reference acceptance of SysEx 7 in UMP
pub fn ref_sysex7(w: &[u32]) -> Option<Parsed<u32>> {
    let n = w.chunks(2).take_while(|c| c[0] >> 28 == 3).count();
    let run: Vec<&[u32]> = w.chunks(2).take(n).collect();
    if n == 0 || run.iter().any(|c| c.len() < 2) {
        return None;
    }
    let mut pay: Vec<u8> = vec![];
    for (i, p) in run.iter().enumerate() {
        let want = if n == 1 { 0 } else if i == 0 { 1 } else if i + 1 == n { 3 } else { 2 };
        let cnt = (p[0] >> 16 & 0xF) as usize;
        if p[0] >> 20 & 0xF != want || cnt > 6 || p[0] >> 24 != run[0][0] >> 24 {
            return None;
        }
        let b: Vec<u8> = p.iter().flat_map(|x| x.to_be_bytes()).collect();
        pay.extend(b[2..2 + cnt].iter().map(|x| x & 0x7F));
    }
    let mut reads = vec![(w[0] >> 24 & 0xF) as u64, 0, pay.len() as u64];
    reads.extend(pay.iter().map(|b| *b as u64));
    Some(Parsed { name: SX7, data: w[..2 * n].to_vec(), reads })
}
pub fn ref_sysex8(w: &[u32]) -> Option<Parsed<u32>> {
    let n = w.chunks(4).take_while(|c| c[0] >> 28 == 5).count();
    let run: Vec<&[u32]> = w.chunks(4).take(n).collect();
    if n == 0 || run.iter().any(|c| c.len() < 4) {
        return None;
    }
    let mut pay: Vec<u8> = vec![];
    for (i, p) in run.iter().enumerate() {
        let want = if n == 1 { 0 } else if i == 0 { 1 } else if i + 1 == n { 3 } else { 2 };
        let cnt = (p[0] >> 16 & 0xF) as usize;
        if p[0] >> 20 & 0xF != want || !(1..=14).contains(&cnt) || p[0] >> 24 != run[0][0] >> 24 || p[0] >> 8 & 0xFF != run[0][0] >> 8 & 0xFF {
            return None;
        }
        let b: Vec<u8> = p.iter().flat_map(|x| x.to_be_bytes()).collect();
        pay.extend(&b[3..3 + cnt - 1]);
    }
    let mut reads = vec![(w[0] >> 24 & 0xF) as u64, (w[0] >> 8 & 0xFF) as u64, pay.len() as u64];
    reads.extend(pay.iter().map(|b| *b as u64));
    Some(Parsed { name: SX8, data: w[..4 * n].to_vec(), reads })
}
/// the message (if any) an input starts with
pub fn ref_ump(w: &[u32]) -> Option<Parsed<u32>> {
    if w.is_empty() {
        return None;
    }
    match w[0] >> 28 {
        3 => ref_sysex7(w),
        5 => ref_sysex8(w),
        t => {
            let mut found = None;
            for vt in UMP {
                if vt.spec.fam.ump().0 == t && w[0] & vt.spec.hdr.0 & 0xF03F_FFFF == vt.spec.hdr.1 & 0xF03F_FFFF || vt.spec.fam == Fam::Stream && t == 0xF {
                    if let Some(n) = accepts(vt.spec, w) {
                        assert!(found.is_none(), "harness: two specs accept {w:X?}");
                        found = Some(Parsed { name: vt.spec.name, data: w[..n].to_vec(), reads: spec_reads(vt.spec, &w[..n]) });
                    }
                }
            }
            found
        }
    }
}
pub fn ref_bytes(w: &[u8]) -> Option<Parsed<u8>> {
    if w.is_empty() {
        return None;
    }
    if w[0] == 0xF0 {
        let end = w[1..].iter().position(|b| *b >= 0x80)?;
        if w[1 + end] != 0xF7 {
            return None;
        }
        let mut reads = vec![0, 0, end as u64];
        reads.extend(w[1..1 + end].iter().map(|b| *b as u64));
        return Some(Parsed { name: SX7, data: w[..end + 2].to_vec(), reads });
    }
    for vt in BYTES {
        if let Some(n) = accepts(vt.spec, w) {
            return Some(Parsed { name: vt.spec.name, data: w[..n].to_vec(), reads: spec_reads(vt.spec, &w[..n]) });
        }
    }
    None
}
