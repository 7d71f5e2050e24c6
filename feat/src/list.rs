// generated by tools/gen_probe.py
use crate::types::Item;
use crate::*;
pub fn words() -> Vec<Item<u32>> {
    #[allow(unused_mut)]
    let mut v: Vec<Item<u32>> = vec![];
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, NoteOff, u32, [(group set_group) (channel set_channel) (note_number set_note_number) (velocity set_velocity)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, NoteOn, u32, [(group set_group) (channel set_channel) (note_number set_note_number) (velocity set_velocity)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, KeyPressure, u32, [(group set_group) (channel set_channel) (note_number set_note_number) (pressure set_pressure)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, ControlChange, u32, [(group set_group) (channel set_channel) (control set_control) (control_data set_control_data)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, ProgramChange, u32, [(group set_group) (channel set_channel) (program set_program)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, ChannelPressure, u32, [(group set_group) (channel set_channel) (pressure set_pressure)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, PitchBend, u32, [(group set_group) (channel set_channel) (bend set_bend)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, TimeCode, u32, [(group set_group) (time_code set_time_code)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, SongPositionPointer, u32, [(group set_group) (position set_position)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, SongSelect, u32, [(group set_group) (song set_song)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, TuneRequest, u32, [(group set_group)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, TimingClock, u32, [(group set_group)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, Start, u32, [(group set_group)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, Continue, u32, [(group set_group)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, Stop, u32, [(group set_group)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, ActiveSensing, u32, [(group set_group)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, Reset, u32, [(group set_group)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, RegisteredPerNoteController, u32, [(group set_group) (channel set_channel) (note_number set_note_number) (controller set_controller)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, AssignablePerNoteController, u32, [(group set_group) (channel set_channel) (note_number set_note_number) (index set_index) (controller_data set_controller_data)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, RegisteredController, u32, [(group set_group) (channel set_channel) (bank set_bank) (index set_index) (controller_data set_controller_data)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, AssignableController, u32, [(group set_group) (channel set_channel) (bank set_bank) (index set_index) (controller_data set_controller_data)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, RelativeRegisteredController, u32, [(group set_group) (channel set_channel) (bank set_bank) (index set_index) (controller_data set_controller_data)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, RelativeAssignableController, u32, [(group set_group) (channel set_channel) (bank set_bank) (index set_index) (controller_data set_controller_data)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, PerNotePitchBend, u32, [(group set_group) (channel set_channel) (note_number set_note_number) (pitch_bend_data set_pitch_bend_data)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, NoteOff, u32, [(group set_group) (channel set_channel) (note_number set_note_number) (velocity set_velocity) (attribute set_attribute)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, NoteOn, u32, [(group set_group) (channel set_channel) (note_number set_note_number) (velocity set_velocity) (attribute set_attribute)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, KeyPressure, u32, [(group set_group) (channel set_channel) (note_number set_note_number) (key_pressure_data set_key_pressure_data)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, ControlChange, u32, [(group set_group) (channel set_channel) (control set_control) (control_change_data set_control_change_data)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, ProgramChange, u32, [(group set_group) (channel set_channel) (program set_program) (bank set_bank)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, ChannelPressure, u32, [(group set_group) (channel set_channel) (channel_pressure_data set_channel_pressure_data)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, ChannelPitchBend, u32, [(group set_group) (channel set_channel) (pitch_bend_data set_pitch_bend_data)] ());
    #[cfg(feature = "channel-voice2")]
    ty!(v, channel_voice2, PerNoteManagement, u32, [(group set_group) (channel set_channel) (note_number set_note_number) (detach set_detach) (reset set_reset)] ());
    #[cfg(feature = "utility")]
    ty!(v, utility, NoOp, u32, [(time_data set_time_data)] ());
    #[cfg(feature = "utility")]
    ty!(v, utility, Clock, u32, [(time_data set_time_data)] ());
    #[cfg(feature = "utility")]
    ty!(v, utility, Timestamp, u32, [(time_data set_time_data)] ());
    #[cfg(feature = "utility")]
    ty!(v, utility, DeltaClockstampTpq, u32, [(time_data set_time_data)] ());
    #[cfg(feature = "utility")]
    ty!(v, utility, DeltaClockstamp, u32, [(time_data set_time_data)] ());
    #[cfg(feature = "flex-data")]
    ty!(v, flex_data, SetTempo, u32, [(group set_group) (number_of_10_nanosecond_units_per_quarter_note set_number_of_10_nanosecond_units_per_quarter_note)] ());
    #[cfg(feature = "flex-data")]
    ty!(v, flex_data, SetTimeSignature, u32, [(group set_group) (numerator set_numerator) (denominator set_denominator) (number_of_32nd_notes set_number_of_32nd_notes)] ());
    #[cfg(feature = "flex-data")]
    ty!(v, flex_data, SetMetronome, u32, [(group set_group) (number_of_clocks_per_primary_click set_number_of_clocks_per_primary_click) (bar_accent1 set_bar_accent1) (bar_accent2 set_bar_accent2) (bar_accent3 set_bar_accent3) (number_of_subdivision_clicks1 set_number_of_subdivision_clicks1) (number_of_subdivision_clicks2 set_number_of_subdivision_clicks2)] ());
    #[cfg(feature = "flex-data")]
    ty!(v, flex_data, SetKeySignature, u32, [(group set_group) (optional_channel set_optional_channel) (sharps_flats set_sharps_flats) (tonic set_tonic)] ());
    #[cfg(feature = "flex-data")]
    ty!(v, flex_data, SetChordName, u32, [(group set_group) (optional_channel set_optional_channel) (tonic_sharps_flats set_tonic_sharps_flats) (tonic set_tonic) (chord_type set_chord_type) (chord_alteration1 set_chord_alteration1) (chord_alteration2 set_chord_alteration2) (chord_alteration3 set_chord_alteration3) (chord_alteration4 set_chord_alteration4) (bass_sharps_flats set_bass_sharps_flats) (bass_note set_bass_note) (bass_chord_type set_bass_chord_type) (bass_alteration1 set_bass_alteration1) (bass_alteration2 set_bass_alteration2)] ());
    #[cfg(feature = "ump-stream")]
    ty!(v, ump_stream, EndpointDiscovery, u32, [(ump_version_major set_ump_version_major) (ump_version_minor set_ump_version_minor) (request_endpoint_info set_request_endpoint_info) (request_device_identity set_request_device_identity) (request_endpoint_name set_request_endpoint_name) (request_product_instance_id set_request_product_instance_id) (request_stream_configuration set_request_stream_configuration)] ());
    #[cfg(feature = "ump-stream")]
    ty!(v, ump_stream, EndpointInfo, u32, [(ump_version_major set_ump_version_major) (ump_version_minor set_ump_version_minor) (static_function_blocks set_static_function_blocks) (number_of_function_blocks set_number_of_function_blocks) (supports_midi2_protocol set_supports_midi2_protocol) (supports_midi1_protocol set_supports_midi1_protocol) (supports_receiving_jr_timestamps set_supports_receiving_jr_timestamps) (supports_sending_jr_timestamps set_supports_sending_jr_timestamps)] ());
    #[cfg(feature = "ump-stream")]
    ty!(v, ump_stream, DeviceIdentity, u32, [(device_manufacturer set_device_manufacturer) (device_family set_device_family) (device_family_model_number set_device_family_model_number) (software_version set_software_version)] ());
    #[cfg(feature = "ump-stream")]
    ty!(v, ump_stream, StreamConfigurationRequest, u32, [(protocol set_protocol) (receive_jr_timestamps set_receive_jr_timestamps) (send_jr_timestamps set_send_jr_timestamps)] ());
    #[cfg(feature = "ump-stream")]
    ty!(v, ump_stream, StreamConfigurationNotification, u32, [(protocol set_protocol) (receive_jr_timestamps set_receive_jr_timestamps) (send_jr_timestamps set_send_jr_timestamps)] ());
    #[cfg(feature = "ump-stream")]
    ty!(v, ump_stream, FunctionBlockInfo, u32, [(active set_active) (function_block_number set_function_block_number) (ui_hint set_ui_hint) (midi1_port set_midi1_port) (direction set_direction) (first_group set_first_group) (number_of_groups_spanned set_number_of_groups_spanned) (midi_ci_version set_midi_ci_version) (max_number_of_midi_ci_streams set_max_number_of_midi_ci_streams)] ());
    #[cfg(feature = "ump-stream")]
    ty!(v, ump_stream, StartOfClip, u32, [] ());
    #[cfg(feature = "ump-stream")]
    ty!(v, ump_stream, EndOfClip, u32, [] ());
    #[cfg(feature = "ump-stream")]
    ty!(v, ump_stream, FunctionBlockDiscovery, u32, [(function_block_number set_function_block_number) (requesting_function_block_info set_requesting_function_block_info) (requesting_function_block_name set_requesting_function_block_name)] ());
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, UnknownMetadataText, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, ProjectName, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, CompositionName, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, MidiClipName, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, CopyrightNotice, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, ComposerName, u32, [(group set_group) (optional_channel set_optional_channel)] (name_bytes try_set_name));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, LyricistName, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, ArrangerName, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, PublisherName, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, PrimaryPerformerName, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, AccompanyingPerformerName, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, RecordingDate, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, RecordingLocation, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, UnknownPerformanceText, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, Lyrics, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, LyricsLanguage, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, Ruby, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "flex-data")]
    tx!(v, flex_data, RubyLanguage, u32, [(group set_group) (optional_channel set_optional_channel)] (text_bytes try_set_text));
    #[cfg(feature = "ump-stream")]
    tx!(v, ump_stream, EndpointName, u32, [] (name_bytes try_set_name));
    #[cfg(feature = "ump-stream")]
    tx!(v, ump_stream, ProductInstanceId, u32, [] (id_bytes try_set_id));
    #[cfg(feature = "ump-stream")]
    tx!(v, ump_stream, FunctionBlockName, u32, [(function_block set_function_block)] (name_bytes try_set_name));
    v
}
pub fn bytes() -> Vec<Item<u8>> {
    #[allow(unused_mut)]
    let mut v: Vec<Item<u8>> = vec![];
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, NoteOff, u8, [(channel set_channel) (note_number set_note_number) (velocity set_velocity)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, NoteOn, u8, [(channel set_channel) (note_number set_note_number) (velocity set_velocity)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, KeyPressure, u8, [(channel set_channel) (note_number set_note_number) (pressure set_pressure)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, ControlChange, u8, [(channel set_channel) (control set_control) (control_data set_control_data)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, ProgramChange, u8, [(channel set_channel) (program set_program)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, ChannelPressure, u8, [(channel set_channel) (pressure set_pressure)] ());
    #[cfg(feature = "channel-voice1")]
    ty!(v, channel_voice1, PitchBend, u8, [(channel set_channel) (bend set_bend)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, TimeCode, u8, [(time_code set_time_code)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, SongPositionPointer, u8, [(position set_position)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, SongSelect, u8, [(song set_song)] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, TuneRequest, u8, [] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, TimingClock, u8, [] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, Start, u8, [] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, Continue, u8, [] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, Stop, u8, [] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, ActiveSensing, u8, [] ());
    #[cfg(feature = "system-common")]
    ty!(v, system_common, Reset, u8, [] ());
    v
}
