//! C07 bit layout of properties, C08 structured values, C09 construction.
use mc::bg::*;
use mc::buf::*;
use mc::spec::*;
use mc::*;
use std::sync::Arc;

fn names(s: &Spec) -> String {
    s.name.to_string()
}

/// compares every readable field of the message with the table
fn check_reads<U: Un>(ctx: &Ctx, key: &str, m: &dyn Get<U>, s: &Spec, bits: &[U], what: &dyn Fn() -> String) -> bool {
    let mut ok = true;
    for (k, f) in s.fields.iter().enumerate() {
        if !f.access {
            continue;
        }
        let want = f.value(bits);
        let got = catch(|| m.get(k));
        if got.as_ref().ok() != want.as_ref() {
            ctx.violation(&format!("{key}:{}.{}", s.name, f.name), &format!("{} {}: reads {got:X?}, bits say {want:X?}; {}", s.name, f.name, what()));
            ok = false;
        }
    }
    ok
}
fn guards<U: Un>() -> Vec<Vec<U>> {
    vec![vec![], vec![U::from32(0xDEAD_BEEF), U::from32(0x1234_5678), U::from32(0xFFFF_FFFF)]]
}
/// behind a text message only data of another kind is not part of the message
fn guard_for<U: Un>(s: &Spec, g: &[U]) -> Vec<U> {
    let mut g = g.to_vec();
    if s.text.is_some() && !g.is_empty() {
        g[0] = U::from32(0x2093_4050);
    }
    g
}

fn set_one<U: SpyUn>(ctx: &Ctx, vt: &Vt<U>, bgm: &[U], guard: &[U], i: usize, c: u64) {
    let s = vt.spec;
    let mut full = bgm.to_vec();
    full.extend_from_slice(guard);
    let r = catch(|| {
        let mut m = (vt.edit)(&full);
        m.set(i, c);
        m
    });
    let mut want = bgm.to_vec();
    write_all(s, i, c, &mut want);
    let f = &s.fields[i];
    match r {
        Err(e) => ctx.violation(&format!("set-panic:{}.{}", s.name, f.name), &format!("{} set {}={c:X} on {}: {e}", s.name, f.name, show(&full))),
        Ok(m) => {
            let after = spied::<U>();
            let mut wantb = want.clone();
            wantb.extend_from_slice(guard);
            if after != wantb {
                ctx.violation(
                    &format!("bits:{}.{}", s.name, f.name),
                    &format!("{} set {}={c:X} on {}: buffer {} expected {}", s.name, f.name, show(&full), show(&after), show(&wantb)),
                );
                return;
            }
            if catch(|| m.units()).as_deref().ok() != Some(&want[..]) {
                ctx.violation(&format!("data:{}.{}", s.name, f.name), &format!("{} set {}={c:X} on {}: data() changed its extent", s.name, f.name, show(&full)));
            }
            check_reads(ctx, "reads", &*m, s, &want[..s.units], &|| format!("after set {}={c:X} on {}", f.name, show(&full)));
        }
    }
}

fn c07<U: SpyUn>(ctx: &Arc<Ctx>, vts: &[&'static Vt<U>], tag: &str) {
    let deep = true;
    let npat = 6;
    // 1. every value of every field on every background
    let mut jobs = vec![];
    for vt in vts {
        for (i, f) in vt.spec.fields.iter().enumerate() {
            if f.access {
                for (b, bgm) in backgrounds::<U>(vt.spec, npat).into_iter().enumerate() {
                    jobs.push((*vt, i, b, bgm));
                }
            }
        }
    }
    ctx.par(&format!("{tag} every value of every property"), &jobs, |(v, i, _, _)| format!("{}.{}", v.spec.name, v.spec.fields[*i].name), |(vt, i, b, bgm)| {
        let f = &vt.spec.fields[*i];
        // the whole value space on the first backgrounds, every 5th value (and corners) on the others
        let all = (f.codes)(deep);
        let lim = 70_000;
        let n = all.len();
        let gs = guards::<U>();
        let mut cnt = 0;
        for (k, c) in all.iter().enumerate() {
            if *b >= 2 && n > 600 && k % 23 != *b && !deep || *b >= 1 && n > lim && k % 5 != *b % 5 {
                continue;
            }
            let g = guard_for(vt.spec, &gs[k % 2]);
            set_one(ctx, *vt, bgm, &g, *i, *c);
            cnt += 1;
        }
        for c in (f.corners)() {
            for g in &gs {
                set_one(ctx, *vt, bgm, &guard_for(vt.spec, g), *i, c);
                cnt += 1;
            }
        }
        ctx.bulk(cnt, cnt, cnt);
        ctx.outcome(if f.width() > 8 { "wide property" } else { "narrow property" }, cnt);
        ctx.sample(|| format!("{}.{} on {}: {} values", vt.spec.name, f.name, show(bgm), cnt));
    });
    // 2. every bit (pair of bits) of the message flipped: exactly the owning property reads differently
    let mut jobs = vec![];
    for vt in vts {
        for bgm in backgrounds::<U>(vt.spec, 6) {
            jobs.push((*vt, bgm));
        }
    }
    ctx.par(&format!("{tag} ownership of every bit"), &jobs, |(v, _)| names(v.spec), |(vt, bgm)| {
        let s = vt.spec;
        let w = std::mem::size_of::<U>() * 8;
        let bits = bgm.len() * w;
        let mut n = 0;
        let check = |fl: &[usize]| {
            let mut m = bgm.clone();
            for &b in fl {
                m[b / w] = U::from32(m[b / w].to32() ^ 1 << (b % w));
            }
            if accepts(s, &m) != Some(m.len()) {
                return;
            }
            match catch(|| {
                (vt.parse)(&m).map(|x| {
                    check_reads(ctx, "bit-owner", &*x, s, &m[..s.units], &|| format!("of {}", show(&m)));
                })
            }) {
                Ok(Ok(())) => {}
                o => ctx.violation(&format!("bit-rejected:{}", s.name), &format!("{}: {} (bits {fl:?} flipped) -> {o:?}", s.name, show(&m))),
            }
        };
        for a in 0..bits {
            check(&[a]);
            n += 1;
            let pairs = if deep { a + 1..bits } else { a + 1..(a + 3).min(bits) };
            for b in pairs {
                check(&[a, b]);
                n += 1;
            }
        }
        ctx.bulk(n, n, n);
        ctx.outcome("bit flips", n);
    });
    // 3. every sequence of property writes up to a depth, corner values
    let mut jobs = vec![];
    for vt in vts {
        let ops: Vec<(usize, u64)> =
            vt.spec.fields.iter().enumerate().filter(|(_, f)| f.access).flat_map(|(i, f)| (f.corners)().into_iter().map(move |c| (i, c))).collect();
        let bgs = backgrounds::<U>(vt.spec, 2);
        for bgm in bgs {
            for first in 0..ops.len() {
                jobs.push((*vt, bgm.clone(), ops.clone(), first));
            }
        }
    }
    ctx.par(&format!("{tag} sequences of property writes"), &jobs, |(v, _, _, _)| names(v.spec), |(vt, bgm, ops, first)| {
        let s = vt.spec;
        let depth = if ctx.thorough() && ops.len() <= 30 { 4 } else { 3 };
        let mut stack = vec![*first];
        let mut n = 0;
        loop {
            let seq: Vec<(usize, u64)> = stack.iter().map(|k| ops[*k]).collect();
            if stack.len() == depth {
                let g = guard_for(s, &guards::<U>()[1]);
                let mut full = bgm.clone();
                full.extend_from_slice(&g);
                let mut want = bgm.clone();
                for (i, c) in &seq {
                    write_all(s, *i, *c, &mut want);
                }
                let r = catch(|| {
                    let mut m = (vt.edit)(&full);
                    for (i, c) in &seq {
                        m.set(*i, *c);
                    }
                    m
                });
                n += depth as u64;
                let desc = || seq.iter().map(|(i, c)| format!("{}={c:X}", s.fields[*i].name)).collect::<Vec<_>>().join(", ");
                match r {
                    Err(e) => ctx.violation(&format!("seq-panic:{}", s.name), &format!("{}: {} on {}: {e}", s.name, desc(), show(&full))),
                    Ok(m) => {
                        let mut wantb = want.clone();
                        wantb.extend_from_slice(&g);
                        let after = spied::<U>();
                        if after != wantb {
                            ctx.violation(&format!("seq-bits:{}", s.name), &format!("{}: {} on {}: buffer {} expected {}", s.name, desc(), show(&full), show(&after), show(&wantb)));
                        } else {
                            check_reads(ctx, "seq-reads", &*m, s, &want[..s.units], &|| format!("after {} on {}", desc(), show(&full)));
                        }
                    }
                }
            }
            // next sequence
            if stack.len() < depth {
                stack.push(0);
                continue;
            }
            loop {
                if stack.len() == 1 {
                    ctx.bulk(n, n, n / depth as u64);
                    return;
                }
                let k = stack.len() - 1;
                stack[k] += 1;
                if stack[k] < ops.len() {
                    break;
                }
                stack.pop();
            }
        }
    });
}


/// all 2^32 values of every property which is 32 bits wide
fn full32(ctx: &Arc<Ctx>) {
    let mut jobs = vec![];
    for vt in UMP {
        for (i, f) in vt.spec.fields.iter().enumerate() {
            if f.access && f.width() == 32 {
                for hi in 0..256u64 {
                    jobs.push((*vt, i, hi));
                }
            }
        }
    }
    ctx.par("all 32 bit values", &jobs, |(v, i, hi)| format!("{}.{} {hi:02X}", v.spec.name, v.spec.fields[*i].name), |(vt, i, hi)| {
        let s = vt.spec;
        let start = &backgrounds::<u32>(s, 6)[(*hi % 4) as usize];
        let mut want = start.clone();
        for part in 0..16u64 {
            let r = catch(|| {
                let mut m = (vt.edit)(start);
                for lo in 0..1u64 << 20 {
                    let c = hi << 24 | part << 20 | lo;
                    m.set(*i, c);
                    s.fields[*i].write(&mut want, c);
                    if m.get(*i) != c || m.units() != want {
                        return Some(c);
                    }
                }
                None
            });
            if r != Ok(None) {
                ctx.violation(&format!("full:{}.{}", s.name, s.fields[*i].name), &format!("{}.{}: fails at {r:X?}", s.name, s.fields[*i].name));
            }
            ctx.bulk(1 << 20, 1 << 20, 1 << 20);
        }
    });
}

/// M2-104 puts the bank MSB into the upper, the LSB into the lower of the two bank octets
fn bank_order(ctx: &Ctx) {
    use midi2::prelude::*;
    let mut m = midi2::channel_voice2::ProgramChange::<[u32; 2]>::new();
    m.set_bank(Some(u14::new(0x0080)));
    if m.data()[1] & 0xFFFF != 0x0100 {
        ctx.violation("program-change-bank-order", &format!("set_bank(0x0080) (MSB 1, LSB 0) gives {}, the specification {}", hex32(m.data()), "[40C00001 00000100]"));
    }
    ctx.bulk(1, 1, 1);
}

/// a valid message with the raw bits of one property replaced
fn with_raw<U: Un>(s: &Spec, bgm: &[U], i: usize, raw: u64) -> Vec<U> {
    let mut m = bgm.to_vec();
    write_all(s, i, raw, &mut m);
    m
}

fn c08<U: SpyUn>(ctx: &Arc<Ctx>, vts: &[&'static Vt<U>], tag: &str) {
    let deep = true;
    // 1. every bit pattern a property's bits can hold: rejected iff reserved, otherwise reads as its value,
    //    and writing the value read produces the value's canonical code
    let mut jobs = vec![];
    for vt in vts {
        for (i, _) in vt.spec.fields.iter().enumerate() {
            for bgm in backgrounds::<U>(vt.spec, 6) {
                jobs.push((*vt, i, bgm));
            }
        }
    }
    ctx.par(&format!("{tag} every code of every property"), &jobs, |(v, i, _)| format!("{}.{}", v.spec.name, v.spec.fields[*i].name), |(vt, i, bgm)| {
        let s = vt.spec;
        let f = &s.fields[*i];
        let w = f.width();
        let raws: Vec<u64> = if w <= 16 || w <= 20 && deep {
            (0..1u64 << w).collect()
        } else {
            let mut v = mc::code::uint_codes(w, deep);
            if w == 24 {
                v.extend((0..256u64).flat_map(|t| [0u64, 1, 0x8000, 0xFFFF, 0x5A5A].map(|d| t << 16 | d)));
            }
            if w == 40 {
                v.extend((0..256u64).flat_map(|t| [0u64, 1, 0x8000_0000, 0xFFFF_FFFF, 0x5A5A_A5A5].map(|d| t << 32 | d)));
            }
            v
        };
        let (mut acc, mut rej) = (0, 0);
        for raw in &raws {
            let m = with_raw(s, bgm, *i, *raw);
            let want = (f.canon)(*raw);
            let got = catch(|| match (vt.parse)(&m) {
                Ok(x) if f.access => Some(Some(x.get(*i))),
                Ok(_) => Some(None),
                Err(()) => None,
            });
            let ok = match (&got, want) {
                (Ok(None), None) => { rej += 1; true }
                (Ok(Some(None)), Some(_)) => { acc += 1; true }
                (Ok(Some(Some(v))), Some(c)) => { acc += 1; *v == c }
                _ => false,
            };
            if !ok {
                ctx.violation(&format!("code:{}.{}", s.name, f.name), &format!("{} {} raw bits {raw:X} in {}: {got:X?}, specification {want:X?}", s.name, f.name, show(&m)));
                continue;
            }
            // writing what was read
            if let (Some(c), true) = (want, f.access) {
                let r = catch(|| {
                    let mut x = (vt.edit)(&m);
                    x.set(*i, c);
                    let back = x.get(*i);
                    (back, x.units())
                });
                let wantm = with_raw(s, bgm, *i, c);
                match r {
                    Ok((back, d)) if back == c && d == wantm => {}
                    o => ctx.violation(&format!("rewrite:{}.{}", s.name, f.name), &format!("{} {}={c:X} over raw {raw:X}: {o:X?}, expected {}", s.name, f.name, show(&wantm))),
                }
            }
        }
        ctx.bulk(raws.len() as u64, raws.len() as u64 + acc, raws.len() as u64);
        ctx.outcome("codes accepted", acc);
        ctx.outcome("codes rejected", rej);
        if rej > 0 {
            ctx.sample(|| format!("{}.{}: {acc} codes accepted, {rej} reserved codes rejected", s.name, f.name));
        }
    });
    // 2. every ordered pair of values of one structured property (overwriting), and of two properties
    let mut jobs = vec![];
    for vt in vts {
        for i in 0..vt.spec.fields.len() {
            for j in 0..vt.spec.fields.len() {
                if vt.spec.fields[i].access && vt.spec.fields[j].access {
                    jobs.push((*vt, i, j));
                }
            }
        }
    }
    ctx.par(&format!("{tag} every pair of values"), &jobs, |(v, i, j)| format!("{}.{},{}", v.spec.name, v.spec.fields[*i].name, v.spec.fields[*j].name), |(vt, i, j)| {
        let s = vt.spec;
        let lim = ctx.pick(512, 4096);
        let thin = |v: Vec<u64>| -> Vec<u64> {
            if v.len() <= lim {
                return v;
            }
            let k = v.len() / lim + 1;
            v.iter().enumerate().filter(|(n, _)| n % k == 0 || *n < 8).map(|(_, x)| *x).collect()
        };
        let a = thin((s.fields[*i].codes)(false));
        let b = thin((s.fields[*j].codes)(false));
        let start = s.default_units::<U>();
        let mut n = 0;
        for x in &a {
            let r = catch(|| {
                let mut m = (vt.edit)(&start);
                for y in &b {
                    m.set(*i, *x);
                    m.set(*j, *y);
                    let gi = m.get(*i);
                    let gj = m.get(*j);
                    if gj != *y || *i != *j && gi != *x {
                        ctx.violation(
                            &format!("pair:{}.{}.{}", s.name, s.fields[*i].name, s.fields[*j].name),
                            &format!("{}: after {}={x:X}, {}={y:X} reads {gi:X}, {gj:X} in {}", s.name, s.fields[*i].name, s.fields[*j].name, show(&m.units())),
                        );
                    }
                }
                let d = m.units();
                let p = (vt.parse)(&d).map(|p| (p.get(*i), p.get(*j)));
                (p, m.get(*i), m.get(*j), d)
            });
            n += b.len() as u64;
            match r {
                Ok((Ok(p), gi, gj, _)) if p == (gi, gj) => {}
                o => ctx.violation(&format!("pair-reparse:{}", s.name), &format!("{}.{}={x:X}: {o:X?}", s.name, s.fields[*i].name)),
            }
        }
        ctx.bulk(n, 2 * n, n);
    });
}

/// named aliases of controller codes, and the numeric payload of fixed point values
fn aliases(ctx: &Arc<Ctx>) {
    use mc::code::Code;
    use midi2::channel_voice2::{Controller, NoteAttribute, NoteOn, RegisteredPerNoteController};
    use midi2::num::*;
    use midi2::prelude::*;
    use Controller::*;
    let data = mc::code::uint_codes(32, ctx.thorough());
    type Mk = fn(u32) -> Controller;
    let table: Vec<(&str, u64, Mk)> = vec![
        ("Modulation", 1, Modulation), ("Breath", 2, Breath), ("Pitch7_25", 3, |d| Pitch7_25(Fixed7_25::from_bits(d))), ("Volume", 7, Volume), ("Balance", 8, Balance),
        ("Pan", 10, Pan), ("Expression", 11, Expression), ("SoundVariation", 70, SoundVariation), ("Timbre", 71, Timbre), ("ReleaseTime", 72, ReleaseTime),
        ("AttackTime", 73, AttackTime), ("Brightness", 74, Brightness), ("DecayTime", 75, DecayTime), ("VebratoRate", 76, VebratoRate), ("VebratoDepth", 77, VebratoDepth),
        ("VebratoDelay", 78, VebratoDelay), ("Undefined", 79, Undefined), ("ReverbSendLevel", 91, ReverbSendLevel), ("ChorusSendLevel", 93, ChorusSendLevel),
        ("SoundController1", 70, |data| SoundController { index: 1, data }), ("SoundController2", 71, |data| SoundController { index: 2, data }),
        ("SoundController3", 72, |data| SoundController { index: 3, data }), ("SoundController4", 73, |data| SoundController { index: 4, data }),
        ("SoundController5", 74, |data| SoundController { index: 5, data }), ("SoundController6", 75, |data| SoundController { index: 6, data }),
        ("SoundController7", 76, |data| SoundController { index: 7, data }), ("SoundController8", 77, |data| SoundController { index: 8, data }),
        ("SoundController9", 78, |data| SoundController { index: 9, data }), ("SoundController10", 79, |data| SoundController { index: 10, data }),
        ("EffectDepth1", 91, |data| EffectDepth { index: 1, data }), ("EffectDepth2", 92, |data| EffectDepth { index: 2, data }), ("EffectDepth3", 93, |data| EffectDepth { index: 3, data }),
        ("EffectDepth4", 94, |data| EffectDepth { index: 4, data }), ("EffectDepth5", 95, |data| EffectDepth { index: 5, data }),
    ];
    ctx.par("named controllers", &table, |t| t.0.to_string(), |(name, index, mk)| {
        for bg in [0u32, 0xFFFF_FFFF] {
            for d in &data {
                let start = [0x4000_0000 | bg & 0x0F0F_7F00 | 1, bg];
                let r = catch(|| {
                    let mut m: RegisteredPerNoteController<[u32; 2]> = RegisteredPerNoteController::try_from(&start[..]).unwrap().array_rebuffer_into();
                    m.set_controller(mk(*d as u32));
                    (m.data().to_vec(), m.controller().enc(), RegisteredPerNoteController::try_from(m.data()).map(|p| p.controller()) == Ok(m.controller()))
                });
                let want = vec![start[0] & !0xFF | *index as u32, *d as u32];
                if r.as_ref().ok() != Some(&(want.clone(), index << 32 | d, true)) {
                    ctx.violation(&format!("controller:{name}"), &format!("{name}({d:X}): {r:X?}, expected {}", hex32(&want)));
                }
            }
            ctx.bulk(data.len() as u64, data.len() as u64, data.len() as u64);
        }
    });
    // numeric meaning of the fixed point values: 7.9 and 7.25 semitones
    let semis: Vec<u32> = (0..128).collect();
    ctx.par("fixed point values", &semis, |s| format!("{s} semitones"), |s| {
        for frac in 0..512u32 {
            let v = *s as f64 + frac as f64 / 512.0;
            let mut m = NoteOn::<[u32; 2]>::new();
            m.set_attribute(Some(NoteAttribute::Pitch7_9(Fixed7_9::from_num(v))));
            let bits = s << 9 | frac;
            let mut c = RegisteredPerNoteController::<[u32; 2]>::new();
            c.set_controller(Pitch7_25(Fixed7_25::from_num(v)));
            let ok = m.data()[1] & 0xFFFF == bits
                && m.data()[0] & 0xFF == 3
                && matches!(m.attribute(), Some(NoteAttribute::Pitch7_9(x)) if x.to_num::<f64>() == v)
                && c.data()[1] == s << 25 | frac << 16
                && matches!(c.controller(), Pitch7_25(x) if x.to_num::<f64>() == v);
            if !ok {
                ctx.violation("fixed-point", &format!("{v} semitones -> {} / {}", hex32(m.data()), hex32(c.data())));
            }
            ctx.bulk(1, 4, 1);
        }
    });
}

/// products of the values of several structured properties of one message
fn products(ctx: &Arc<Ctx>) {
    let groups: Vec<(&'static Vt<u32>, Vec<&str>)> = vec![
        (&FX_CHORD::VT, vec!["tonic_sharps_flats", "tonic", "chord_type", "chord_alteration1"]),
        (&FX_CHORD::VT, vec!["bass_sharps_flats", "bass_note", "bass_chord_type", "bass_alteration1"]),
        (&FX_CHORD::VT, vec!["chord_alteration1", "chord_alteration2", "optional_channel"]),
        (&FX_CHORD::VT, vec!["chord_alteration3", "chord_alteration4", "optional_channel"]),
        (&FX_CHORD::VT, vec!["bass_alteration1", "bass_alteration2", "bass_note"]),
        (&FX_KEY_SIG::VT, vec!["group", "optional_channel", "sharps_flats", "tonic"]),
        (&US_FB_INFO::VT, vec!["active", "function_block_number", "ui_hint", "midi1_port", "direction", "first_group"]),
        (&US_EP_INFO::VT, vec!["static_function_blocks", "number_of_function_blocks", "supports_midi2_protocol", "supports_midi1_protocol", "supports_receiving_jr_timestamps", "supports_sending_jr_timestamps"]),
        (&US_EP_DISCOVERY::VT, vec!["request_endpoint_info", "request_device_identity", "request_endpoint_name", "request_product_instance_id", "request_stream_configuration", "ump_version_minor"]),
        (&US_CFG_REQ::VT, vec!["protocol", "receive_jr_timestamps", "send_jr_timestamps"]),
        (&US_CFG_NOTIF::VT, vec!["protocol", "receive_jr_timestamps", "send_jr_timestamps"]),
        (&US_FB_DISCOVERY::VT, vec!["function_block_number", "requesting_function_block_info", "requesting_function_block_name"]),
        (&CV2_PN_MANAGEMENT::VT, vec!["group", "channel", "note_number", "detach", "reset"]),
        (&CV2_REG::VT, vec!["channel", "bank", "index"]),
        (&CV2_PROGRAM_CHANGE::VT, vec!["program", "bank"]),
    ];
    let mut jobs = vec![];
    for (vt, fs) in &groups {
        let idx: Vec<usize> = fs.iter().map(|f| vt.spec.field(f).unwrap()).collect();
        for c in (vt.spec.fields[idx[0]].codes)(false) {
            jobs.push((*vt, idx.clone(), c));
        }
    }
    ctx.par("products of values", &jobs, |(v, _, _)| names(v.spec), |(vt, idx, c0)| {
        let s = vt.spec;
        let vals: Vec<Vec<u64>> = idx[1..].iter().map(|i| (s.fields[*i].codes)(false)).collect();
        let start = s.default_units::<u32>();
        let mut at = vec![0usize; vals.len()];
        let mut n = 0;
        let r = catch(|| {
            let mut m = (vt.edit)(&start);
            loop {
                m.set(idx[0], *c0);
                let mut want = start.clone();
                s.fields[idx[0]].write(&mut want, *c0);
                for (k, i) in idx[1..].iter().enumerate() {
                    m.set(*i, vals[k][at[k]]);
                    s.fields[*i].write(&mut want, vals[k][at[k]]);
                }
                n += 1;
                let ok = m.units() == want && m.get(idx[0]) == *c0 && idx[1..].iter().enumerate().all(|(k, i)| m.get(*i) == vals[k][at[k]]);
                if !ok {
                    ctx.violation(&format!("product:{}", s.name), &format!("{}: {} expected {}", s.name, hex32(&m.units()), hex32(&want)));
                }
                let mut k = 0;
                while k < at.len() {
                    at[k] += 1;
                    if at[k] < vals[k].len() {
                        break;
                    }
                    at[k] = 0;
                    k += 1;
                }
                if k == at.len() {
                    break;
                }
            }
        });
        if let Err(e) = r {
            ctx.violation(&format!("product-panic:{}", s.name), &format!("{}: {e}", s.name));
        }
        ctx.bulk(n, n * idx.len() as u64, n);
    });
}

fn fills<U: Un>(n: usize) -> Vec<Vec<U>> {
    let mut v: Vec<Vec<U>> = PATTERNS.iter().map(|p| vec![U::from32(*p); n]).collect();
    // leftovers of other messages
    let left: Vec<Vec<u32>> = if std::mem::size_of::<U>() == 4 {
        vec![vec![0x3016_0102, 0x0304_0506, 0x3032_0708, 0], vec![0xD050_0101, 0x4142_4344, 0x4142_4344, 0x4142_4344], vec![0xF403_4142, 0x4344_4546, 0x4748_4950, 0x5152_5354], vec![0x501E_0001, 1, 2, 3], vec![0x4090_0000, 0, 0x2090_0000, 0]]
    } else {
        vec![vec![0xF0, 0x7E, 0x01, 0xF7], vec![0xF7; 4], vec![0x90, 0x40, 0x40], vec![0xFF, 0xF8]]
    };
    for l in left {
        v.push((0..n).map(|i| U::from32(l[i % l.len()])).collect());
    }
    v
}

fn c09<U: SpyUn>(ctx: &Arc<Ctx>, vts: &[&'static Vt<U>], tag: &str) {
    let jobs: Vec<&Vt<U>> = vts.to_vec();
    ctx.par(&format!("{tag} constructors"), &jobs, |v| names(v.spec), |vt| {
        let s = vt.spec;
        let want = s.default_units::<U>();
        let n0 = s.units;
        let check = |what: &str, cap: usize, fits: bool, r: Option<Result<Result<Vec<u64>, ()>, String>>, got: Vec<U>| {
            let Some(r) = r else { return };
            ctx.bulk(1, 1, 1);
            ctx.outcome(if fits { "constructed" } else { "too small" }, 1);
            let d = || format!("{} {what} capacity {cap}", s.name);
            match r {
                Err(e) => ctx.violation(&format!("panic:{}", s.name), &format!("{}: {e}", d())),
                Ok(Err(())) => {
                    if fits {
                        ctx.violation(&format!("overflow:{}", s.name), &format!("{}: refused although {n0} units fit", d()));
                    }
                }
                Ok(Ok(vals)) => {
                    if !fits {
                        ctx.violation(&format!("no-overflow:{}", s.name), &format!("{}: accepted although the message needs {n0}", d()));
                    } else if got != want {
                        ctx.violation(&format!("default:{}", s.name), &format!("{}: data {} expected {}", d(), show(&got), show(&want)));
                    } else {
                        for (k, f) in s.fields.iter().enumerate() {
                            if f.access && vals[k] != f.def {
                                ctx.violation(&format!("default-read:{}.{}", s.name, f.name), &format!("{}: {} reads {:X}, default {:X}", d(), f.name, vals[k], f.def));
                            }
                        }
                        let p = catch(|| (vt.parse)(&got).map(|p| (p.units(), read_all(s, &*p))));
                        if p.as_ref().ok() != Some(&Ok((got.clone(), vals))) {
                            ctx.violation(&format!("default-reparse:{}", s.name), &format!("{}: {} parses as {p:X?}", d(), show(&got)));
                        }
                    }
                }
            }
        };
        let run = |what: &str, cap: usize, fits: bool, k: Mk<'_, U>| {
            let mut data = vec![];
            let r = catch(|| (vt.mk)(k).map(|r| r.map(|m| (m.units(), read_all_set(s, &*m)))));
            let r = match r {
                Ok(None) => return,
                Ok(Some(Ok((d, v)))) => {
                    data = d;
                    Ok(Ok(v))
                }
                Ok(Some(Err(()))) => Ok(Err(())),
                Err(e) => Err(e),
            };
            check(what, cap, fits, Some(r), data);
        };
        run("Vec new", 0, true, Mk::NewVec);
        for fill in PATTERNS {
            for shrink in [true, false] {
                settings(0, fill, shrink);
                run("growable new", 0, true, Mk::NewGrow);
                for n in 0..n0 + 6 {
                    for f in fills::<U>(n) {
                        run("growable new_with_buffer", n, true, Mk::NewWithGrow(&f));
                    }
                }
            }
        }
        for n in 0..n0 + 6 {
            run("array new", n, true, Mk::NewArr(n));
            run("array try_new", n, n >= n0, Mk::TryNewArr(n));
            for fill in PATTERNS {
                settings(n, fill, true);
                run("fixed try_new", n, n >= n0, Mk::TryNewFix);
                run("bounded try_new", n, n >= n0, Mk::TryNewBound);
                for have in 0..=n {
                    for f in fills::<U>(have) {
                        run("bounded try_new_with_buffer", n, n >= n0, Mk::TryNewWithBound(&f));
                    }
                }
            }
            for f in fills::<U>(n) {
                run("Vec new_with_buffer", n, true, Mk::NewWithVec(&f));
                run("array try_new_with_buffer", n, n >= n0, Mk::TryNewWithArr(&f));
                run("fixed try_new_with_buffer", n, n >= n0, Mk::TryNewWithFix(&f));
                let mut b = f.clone();
                let mut out: Option<Result<(Vec<U>, Vec<u64>), ()>> = None;
                let r = catch(|| (vt.mk_slice)(&mut b, &mut |m| out = Some(m.map(|m| (m.units(), read_all_set(s, m))))));
                let (d, r) = match (r, out) {
                    (Err(e), _) => (vec![], Err(e)),
                    (_, Some(Ok((d, v)))) => (d, Ok(Ok(v))),
                    _ => (vec![], Ok(Err(()))),
                };
                check("mutable slice try_new_with_buffer", n, n >= n0, Some(r), d);
                let mut b = f.clone();
                let mut out = None;
                let r = catch(|| (vt.mk_vec)(&mut b, &mut |m| out = Some((m.units(), read_all_set(s, m)))));
                let (d, r) = match (r, out) {
                    (Err(e), _) => (vec![], Err(e)),
                    (_, Some((d, v))) => (d, Ok(Ok(v))),
                    _ => (vec![], Ok(Err(()))),
                };
                check("&mut Vec new_with_buffer", n, true, Some(r), d);
            }
        }
        ctx.sample(|| format!("{}: default {}", s.name, show(&want)));
    });
}
fn read_all<U: Un>(s: &Spec, m: &dyn Get<U>) -> Vec<u64> {
    s.fields.iter().enumerate().map(|(k, f)| if f.access { m.get(k) } else { f.def }).collect()
}
fn read_all_set<U: Un>(s: &Spec, m: &dyn Set<U>) -> Vec<u64> {
    s.fields.iter().enumerate().map(|(k, f)| if f.access { m.get(k) } else { f.def }).collect()
}

/// every UMP stream message is 128 bits long
fn fb_discovery_size(ctx: &Ctx) {
    use midi2::prelude::*;
    let m = midi2::ump_stream::FunctionBlockDiscovery::<Vec<u32>>::new();
    ctx.bulk(1, 1, 1);
    if m.data().len() != 4 {
        ctx.violation("function-block-discovery-size", &format!("a new FunctionBlockDiscovery is {} ({} words), UMP stream messages have 4", hex32(m.data()), m.data().len()));
    }
}

/// constructors of the sysex messages
fn c09_sysex(ctx: &Arc<Ctx>) {
    use midi2::prelude::*;
    use midi2::sysex7::Sysex7;
    use midi2::sysex8::Sysex8;
    macro_rules! one {
        ($name:literal, $t:ident, $U:ty, $want:expr, [$($n:literal),*]) => {{
            let want: Vec<$U> = $want;
            let n0 = want.len();
            let check = |what: &str, cap: usize, fits: bool, r: Result<Result<(Vec<$U>, usize, usize), ()>, String>| {
                ctx.bulk(1, 1, 1);
                let ok = match &r {
                    Ok(Ok((d, sz, cnt))) => fits && *d == want && *sz == 0 && *cnt == 0 && $t::try_from(&d[..]).map(|m| m.data() == &want[..]).unwrap_or(false),
                    Ok(Err(())) => !fits,
                    Err(_) => false,
                };
                if !ok {
                    ctx.violation(concat!("default:", $name), &format!("{} {what} capacity {cap}: {r:X?}, expected {} ({})", $name, show(&want), if fits { "fits" } else { "too small" }));
                }
            };
            macro_rules! see { ($m:expr) => {{ let m = $m; (m.data().to_vec(), m.payload_size(), m.payload().count()) }} }
            check("Vec new", 0, true, catch(|| Ok(see!($t::<Vec<$U>>::new()))));
            for fill in PATTERNS {
                for shrink in [true, false] {
                    settings(0, fill, shrink);
                    check("growable new", 0, true, catch(|| Ok(see!($t::<Grow<$U>>::new()))));
                    for n in 0..n0 + 12 {
                        for f in fills::<$U>(n) {
                            check("growable new_with_buffer", n, true, catch(|| Ok(see!($t::new_with_buffer(Grow::with(&f))))));
                        }
                    }
                }
            }
            $(
                check("array try_new", $n, $n >= n0, catch(|| $t::<[$U; $n]>::try_new().map(|m| see!(m)).map_err(|_| ())));
                for f in fills::<$U>($n) {
                    let a = <[$U; $n]>::try_from(&f[..]).unwrap();
                    check("array try_new_with_buffer", $n, $n >= n0, catch(|| $t::try_new_with_buffer(a).map(|m| see!(m)).map_err(|_| ())));
                }
            )*
            for n in 0..n0 + 12 {
                for fill in PATTERNS {
                    settings(n, fill, true);
                    check("fixed try_new", n, n >= n0, catch(|| $t::<Fix<$U>>::try_new().map(|m| see!(m)).map_err(|_| ())));
                    check("bounded try_new", n, n >= n0, catch(|| $t::<Bound<$U>>::try_new().map(|m| see!(m)).map_err(|_| ())));
                    for have in 0..=n {
                        for f in fills::<$U>(have) {
                            check("bounded try_new_with_buffer", n, n >= n0, catch(|| $t::try_new_with_buffer(Bound::with(&f)).map(|m| see!(m)).map_err(|_| ())));
                        }
                    }
                }
                for f in fills::<$U>(n) {
                    check("Vec new_with_buffer", n, true, catch(|| Ok(see!($t::new_with_buffer(f.clone())))));
                    check("fixed try_new_with_buffer", n, n >= n0, catch(|| $t::try_new_with_buffer(Fix { v: f.clone() }).map(|m| see!(m)).map_err(|_| ())));
                    let mut b = f.clone();
                    check("mutable slice try_new_with_buffer", n, n >= n0, catch(|| $t::try_new_with_buffer(&mut b[..]).map(|m| see!(m)).map_err(|_| ())));
                    let mut b = f.clone();
                    check("&mut Vec new_with_buffer", n, true, catch(|| Ok(see!($t::new_with_buffer(&mut b)))));
                }
            }
        }};
    }
    macro_rules! newarr {
        ($name:literal, $t:ident, $U:ty, $want:expr, [$($n:literal),*]) => { $(
            let r = catch(|| $t::<[$U; $n]>::new().data().to_vec());
            ctx.bulk(1, 1, 1);
            if r.as_deref().ok() != Some(&$want[..]) {
                ctx.violation(concat!("default:", $name), &format!("{} array new {}: {r:X?}", $name, $n));
            }
        )* };
    }
    ctx.par("sysex constructors", &[0, 1, 2], |k| format!("sysex {k}"), |k| match k {
        0 => {
            one!("Sysex7 ump", Sysex7, u32, vec![0x3000_0000, 0], [0, 1, 2, 3, 4, 5, 8]);
            newarr!("Sysex7 ump", Sysex7, u32, [0x3000_0000u32, 0], [2, 3, 4, 5, 8]);
        }
        1 => {
            one!("Sysex7 bytes", Sysex7, u8, vec![0xF0, 0xF7], [0, 1, 2, 3, 4, 9]);
            newarr!("Sysex7 bytes", Sysex7, u8, [0xF0u8, 0xF7], [2, 3, 4, 9]);
        }
        _ => {
            one!("Sysex8", Sysex8, u32, vec![0x5001_0000, 0, 0, 0], [0, 1, 3, 4, 5, 8, 9]);
            newarr!("Sysex8", Sysex8, u32, [0x5001_0000u32, 0, 0, 0], [4, 5, 8, 9]);
        }
    });
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&prop);
    match prop.as_str() {
        "C07" => {
            ctx.note("property tables in spec.rs/code.rs transcribe the MIDI 2.0 UMP specification's bit layouts");
            ctx.note("values of properties wider than 16 bits: all two-bit patterns and their complements, prefixes/suffixes of ones, 16-bit windows (every 257th in quick)");
            c07(&ctx, UMP, "ump");
            c07(&ctx, BYTES, "bytes");
            bank_order(&ctx);
            if ctx.thorough() {
                full32(&ctx);
            }
        }
        "C08" => {
            ctx.note("property tables in spec.rs/code.rs transcribe the MIDI 2.0 UMP specification's codes");
            c08(&ctx, UMP, "ump");
            c08(&ctx, BYTES, "bytes");
            aliases(&ctx);
            products(&ctx);
        }
        "C09" => {
            ctx.note("default messages derived from the bit tables in spec.rs/code.rs");
            c09(&ctx, UMP, "ump");
            c09(&ctx, BYTES, "bytes");
            c09_sysex(&ctx);
            fb_discovery_size(&ctx);
        }
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(4);
        }
    }
    ctx.finish()
}
