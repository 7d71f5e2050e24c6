//! Type lists (same order as the tables in spec.rs).
#[macro_export]
macro_rules! each_ump {
    ($m:ident) => { $m! {
        (utility NoOp 1 [1, 2, 8])
        (utility Clock 1 [1, 2, 8])
        (utility Timestamp 1 [1, 2, 8])
        (utility DeltaClockstampTpq 1 [1, 2, 8])
        (utility DeltaClockstamp 1 [1, 2, 8])
        (system_common TimeCode 1 [1, 2, 8])
        (system_common SongPositionPointer 1 [1, 2, 8])
        (system_common SongSelect 1 [1, 2, 8])
        (system_common TuneRequest 1 [1, 2, 8])
        (system_common TimingClock 1 [1, 2, 8])
        (system_common Start 1 [1, 2, 8])
        (system_common Continue 1 [1, 2, 8])
        (system_common Stop 1 [1, 2, 8])
        (system_common ActiveSensing 1 [1, 2, 8])
        (system_common Reset 1 [1, 2, 8])
        (channel_voice1 NoteOff 1 [1, 2, 8])
        (channel_voice1 NoteOn 1 [1, 2, 8])
        (channel_voice1 KeyPressure 1 [1, 2, 8])
        (channel_voice1 ControlChange 1 [1, 2, 8])
        (channel_voice1 ProgramChange 1 [1, 2, 8])
        (channel_voice1 ChannelPressure 1 [1, 2, 8])
        (channel_voice1 PitchBend 1 [1, 2, 8])
        (channel_voice2 RegisteredPerNoteController 2 [2, 3, 8])
        (channel_voice2 AssignablePerNoteController 2 [2, 3, 8])
        (channel_voice2 RegisteredController 2 [2, 3, 8])
        (channel_voice2 AssignableController 2 [2, 3, 8])
        (channel_voice2 RelativeRegisteredController 2 [2, 3, 8])
        (channel_voice2 RelativeAssignableController 2 [2, 3, 8])
        (channel_voice2 PerNotePitchBend 2 [2, 3, 8])
        (channel_voice2 NoteOff 2 [2, 3, 8])
        (channel_voice2 NoteOn 2 [2, 3, 8])
        (channel_voice2 KeyPressure 2 [2, 3, 8])
        (channel_voice2 ControlChange 2 [2, 3, 8])
        (channel_voice2 ProgramChange 2 [2, 3, 8])
        (channel_voice2 ChannelPressure 2 [2, 3, 8])
        (channel_voice2 ChannelPitchBend 2 [2, 3, 8])
        (channel_voice2 PerNoteManagement 2 [2, 3, 8])
        (flex_data SetTempo 4 [4, 5, 8])
        (flex_data SetTimeSignature 4 [4, 5, 8])
        (flex_data SetMetronome 4 [4, 5, 8])
        (flex_data SetKeySignature 4 [4, 5, 8])
        (flex_data SetChordName 4 [4, 5, 8])
        (ump_stream EndpointDiscovery 4 [4, 5, 8])
        (ump_stream EndpointInfo 4 [4, 5, 8])
        (ump_stream DeviceIdentity 4 [4, 5, 8])
        (ump_stream StreamConfigurationRequest 4 [4, 5, 8])
        (ump_stream StreamConfigurationNotification 4 [4, 5, 8])
        (ump_stream FunctionBlockInfo 4 [4, 5, 8])
        (ump_stream FunctionBlockDiscovery 1 [1, 2, 8])
        (ump_stream StartOfClip 4 [4, 5, 8])
        (ump_stream EndOfClip 4 [4, 5, 8])
        (flex_data UnknownMetadataText 4 [4, 8, 12])
        (flex_data ProjectName 4 [4, 8, 12])
        (flex_data CompositionName 4 [4, 8, 12])
        (flex_data MidiClipName 4 [4, 8, 12])
        (flex_data CopyrightNotice 4 [4, 8, 12])
        (flex_data ComposerName 4 [4, 8, 12])
        (flex_data LyricistName 4 [4, 8, 12])
        (flex_data ArrangerName 4 [4, 8, 12])
        (flex_data PublisherName 4 [4, 8, 12])
        (flex_data PrimaryPerformerName 4 [4, 8, 12])
        (flex_data AccompanyingPerformerName 4 [4, 8, 12])
        (flex_data RecordingDate 4 [4, 8, 12])
        (flex_data RecordingLocation 4 [4, 8, 12])
        (flex_data UnknownPerformanceText 4 [4, 8, 12])
        (flex_data Lyrics 4 [4, 8, 12])
        (flex_data LyricsLanguage 4 [4, 8, 12])
        (flex_data Ruby 4 [4, 8, 12])
        (flex_data RubyLanguage 4 [4, 8, 12])
        (ump_stream EndpointName 4 [4, 8, 12])
        (ump_stream ProductInstanceId 4 [4, 8, 12])
        (ump_stream FunctionBlockName 4 [4, 8, 12])
    } };
}
#[macro_export]
macro_rules! each_bytes {
    ($m:ident) => { $m! {
        (channel_voice1 NoteOff 3 [3, 4, 8])
        (channel_voice1 NoteOn 3 [3, 4, 8])
        (channel_voice1 KeyPressure 3 [3, 4, 8])
        (channel_voice1 ControlChange 3 [3, 4, 8])
        (channel_voice1 ProgramChange 2 [2, 3, 8])
        (channel_voice1 ChannelPressure 2 [2, 3, 8])
        (channel_voice1 PitchBend 3 [3, 4, 8])
        (system_common TimeCode 2 [2, 3, 8])
        (system_common SongPositionPointer 3 [3, 4, 8])
        (system_common SongSelect 2 [2, 3, 8])
        (system_common TuneRequest 1 [1, 2, 8])
        (system_common TimingClock 1 [1, 2, 8])
        (system_common Start 1 [1, 2, 8])
        (system_common Continue 1 [1, 2, 8])
        (system_common Stop 1 [1, 2, 8])
        (system_common ActiveSensing 1 [1, 2, 8])
        (system_common Reset 1 [1, 2, 8])
    } };
}
/// messages with a text (same order as at the end of the table in spec.rs)
#[macro_export]
macro_rules! each_text {
    ($m:ident) => { $m! {
        (flex_data UnknownMetadataText) (flex_data ProjectName) (flex_data CompositionName) (flex_data MidiClipName) (flex_data CopyrightNotice) (flex_data ComposerName)
        (flex_data LyricistName) (flex_data ArrangerName) (flex_data PublisherName) (flex_data PrimaryPerformerName) (flex_data AccompanyingPerformerName) (flex_data RecordingDate)
        (flex_data RecordingLocation) (flex_data UnknownPerformanceText) (flex_data Lyrics) (flex_data LyricsLanguage) (flex_data Ruby) (flex_data RubyLanguage)
        (ump_stream EndpointName) (ump_stream ProductInstanceId) (ump_stream FunctionBlockName)
    } };
}
