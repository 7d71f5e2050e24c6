#!/usr/bin/env python3
"""Writes known_findings.txt: open findings, then the repaired ones (hash looked up from the commit subject)."""
import os,subprocess,sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN=[
 ('C07','program-change-bank-order','channel_voice2::ProgramChange stores the bank LSB first although M2-104 puts the bank MSB into the upper bank octet (pinned by the repository\'s tests)'),
 ('C09','function-block-discovery-size','ump_stream::FunctionBlockDiscovery is created and treated as a one word message although UMP stream messages have four words (pinned by the repository\'s tests)'),
 ('C05','function-block-discovery-size','ump_stream::FunctionBlockDiscovery is accepted as, and reduced to, a single word although UMP stream messages have four words (pinned by the repository\'s tests)'),
 ('C22','function-block-discovery-size','ump_stream::FunctionBlockDiscovery can be made in, rebuffered to and read from arrays of one to three words although UMP stream messages have four words (pinned by the repository\'s tests)'),
 ('C14','function-block-discovery-size','the packet of a ump_stream::FunctionBlockDiscovery has four words although data() has one (the message is a single word in the library, pinned by its tests)'),
 ('C11','try-rebuffer-source-longer-than-target','try_rebuffer_into an array compares the length of the whole source buffer, not of data(), with the array size: a message with unrelated data behind it (or in a larger buffer) is refused although it fits (the tests pin that a parsed message keeps the whole slice)'),
]
extra=os.path.join(here,'tools','open_findings.txt')
FIX=[ # (subject prefix, property, what failed)
 ("sysex8 stream id is written",'C01','Sysex8::set_stream_id wrote another octet than stream_id read'),
 ("splicing of sysex payloads no longer",'C01','splice/insert/append lost or invented bytes for iterators with inexact size hints; out of range splices corrupted the message'),
 ("sysex8 packets added by a resize",'C02','packets added to a Sysex8 carried stream id 0'),
 ("unused bytes of a resized complete",'C02','stale bytes were left behind the payload of a Complete packet'),
 ("stale end bytes don't truncate",'C02','a growing byte Sysex7 could be truncated by a stale F7'),
 ("compactness of a sysex message",'C01','editing a message with partly filled packets used packet sizes of data outside the message'),
 ("writing a sysex payload byte checks",'C01','set_byte wrote outside the payload for indices past the end and kept a stale top bit'),
 ("data behind a sysex message doesn't",'C05','packets behind a sysex message made the parser reject it'),
 ("a multi-packet message with a truncated",'C06','messages with a truncated last packet were accepted'),
 ("sysex7 byte messages with payload bytes",'C05','byte Sysex7 with payload bytes >= 0x80 was accepted'),
 ("nth on sysex packet payload",'C15','nth on packet payload iterators did not consume the items it skipped'),
 ("sysex8 packets with an illegal byte",'C06','Sysex8 packets with byte count 0 or above 14 were accepted'),
 ("sysex payload iterators stay within",'C15','payload iterators ran into data behind the message and misreported their size'),
 ("sysex group and stream id writes",'C02','set_group/set_stream_id changed data behind the message'),
 ("per-note controller indices of chorus",'C08','ChorusSendLevel and EffectDepth 5 used wrong controller indices'),
 ("per-note management detach and reset",'C07','PerNoteManagement detach and reset flags were swapped'),
 ("function block discovery filter bits",'C07','FunctionBlockDiscovery filter bits were swapped'),
 ("flex data aggregate recognises",'C05','three metadata text messages were not recognised by the FlexData aggregate'),
 ("unknown metadata text implements",'C16','UnknownMetadataText did not implement FlexDataMessage'),
 ("flex data text is read from exactly",'C05','flex data text read packets behind the message'),
 ("flex data channel is written to every",'C13','the channel of multi-packet flex data text was written to its first packet only'),
 ("flex data messages with inconsistent",'C06','flex data text packets with differing channels were accepted as one message'),
 ("ump stream properties apply to exactly",'C13','UMP stream text properties covered packets behind the message'),
 ("packets added to a function block name",'C13','packets added to a FunctionBlockName carried function block number 0'),
 ("single packet ump stream messages are",'C05','fixed size UMP stream messages looked at formats of data behind them'),
 ("byte sizes of time code",'C05','TimeCode, SongPositionPointer and TuneRequest had wrong sizes in byte form'),
 ("a key signature of zero flats",'C08','writing Flats(0) panicked'),
 ("ci discovery queries which end",'C17','CI discovery queries which end before their last field were accepted and panicked when read'),
 ("removing a note attribute clears",'C08','removing a note attribute left its data in the message'),
 ("new messages start zeroed whatever",'C09','new/try_new on a custom buffer whose fresh units are not zero gave a garbage message or panicked'),
]
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
out=[]
for p,k,t in OPEN: out.append(f'KNOWN-FINDING: property={p} key={k} {t}')
more=os.path.join(here,'tools','fixes.txt')   # lines: property|subject prefix|what failed
if os.path.exists(more):
    for l in open(more):
        if l.strip():
            p,s,w=l.strip().split('|'); FIX.append((s,p,w))
if os.path.exists(extra):
    out+= [l.rstrip('\n') for l in open(extra) if l.strip()]
used=set()
for s,p,w in FIX:
    hit=[l for l in log if l.split(' ',1)[1].startswith('fix: '+s)]
    assert len(hit)==1,(s,hit)
    used.add(hit[0]); out.append(f'fixed: property={p} {hit[0].split()[0]} {w}')
left=[l for l in log if ' fix: ' in ' '+l and l not in used]
if left: print('unlisted fixes:',left)
open(os.path.join(here,'known_findings.txt'),'w').write('\n'.join(out)+'\n')
