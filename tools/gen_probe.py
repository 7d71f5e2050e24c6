#!/usr/bin/env python3
"""Derives feat/src/list.rs (properties of every message type) from the table in harness/src/spec.rs."""
import re,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(here+'/harness/src/spec.rs').read()
s=s[s.index('cv1! {\n'):]
s=re.sub(r'//.*','',s)
out={}
bytes_={}
def add(m,t,fs,txt=None): out[(m,t)]=(fs,txt)
def pairs(body): return re.findall(r'(\w+) (set_\w+)\b',body)
cut=s.index('sysc! {\n')
def blk(name):
    i=s.index(name)
    j=i+len(name);d=1
    while d:
        d+= {'{':1,'}':-1}.get(s[j],0); j+=1
    return s[i+len(name):j-1]
for line in blk('cv1! {').strip().splitlines():
    m=re.match(r'\s*\w+ \w+ by\d (\w+) 0x\w+ \{(.*)\}',line)
    add('channel_voice1',m[1],[('group','set_group'),('channel','set_channel')]+pairs(m[2]))
    bytes_[('channel_voice1',m[1])]=[('channel','set_channel')]+pairs(m[2])
for line in blk('\nsysc! {').strip().splitlines():
    m=re.match(r'\s*\w+ \w+ by\d (\w+) 0x\w+ \{(.*)\}',line)
    add('system_common',m[1],[('group','set_group')]+pairs(m[2]))
    bytes_[('system_common',m[1])]=pairs(m[2])
for line in blk('\ncv2! {').strip().splitlines():
    m=re.match(r'\s*\w+ (\w+) 0x\w+ \{(.*)\}',line)
    add('channel_voice2',m[1],[('group','set_group'),('channel','set_channel')]+pairs(m[2]))
for m in re.finditer(r'\w+ (utility|flex_data|ump_stream)::(\w+) (?:Utility|Flex|Stream) \(([^)]*)\) \{',s):
    i=m.end();d=1;j=i
    while d:
        d+= {'{':1,'}':-1}.get(s[j],0); j+=1
    add(m[1],m[2],pairs(s[i:j-1]))
for m in re.finditer(r'FXT_\w+ (\w+) \d \w+ \((\w+) (\w+) (\w+) (\w+)\)',s):
    add('flex_data',m[1],[('group','set_group'),('optional_channel','set_optional_channel')],m.groups()[1:])
for m in re.finditer(r'UST_\w+: u32, Ump, ump_stream::(\w+),.*?\((\w+) (\w+) (\w+) (\w+)\),\s*\{(.*?)\}',s):
    add('ump_stream',m[1],pairs(m[6]),m.groups()[1:5])
feat={'channel_voice1':'channel-voice1','channel_voice2':'channel-voice2','system_common':'system-common','flex_data':'flex-data','ump_stream':'ump-stream','utility':'utility'}
def line(m,t,fs,txt,u):
    f=' '.join(f'({g} {p})' for g,p in fs)
    x='('+txt[1]+' '+txt[3]+')' if txt else '()'
    return f'    #[cfg(feature = "{feat[m]}")]\n    {"ty" if not txt else "tx"}!(v, {m}, {t}, {u}, [{f}] {x});\n'
o='// generated by tools/gen_probe.py\nuse crate::types::Item;\nuse crate::*;\npub fn words() -> Vec<Item<u32>> {\n    #[allow(unused_mut)]\n    let mut v: Vec<Item<u32>> = vec![];\n'
for (m,t),(fs,txt) in out.items(): o+=line(m,t,fs,txt,'u32')
o+='    v\n}\npub fn bytes() -> Vec<Item<u8>> {\n    #[allow(unused_mut)]\n    let mut v: Vec<Item<u8>> = vec![];\n'
for (m,t),fs in bytes_.items(): o+=line(m,t,fs,None,'u8')
o+='    v\n}\n'
open(here+'/feat/src/list.rs','w').write(o)
print(len(out),len(bytes_))
