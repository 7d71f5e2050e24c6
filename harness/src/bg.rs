//! Systematic background contents for messages of the table.
use crate::buf::Un;
use crate::spec::*;

pub const PATTERNS: [u32; 6] = [0, 0xFFFF_FFFF, 0x5555_5555, 0xAAAA_AAAA, 0x0F1E_2D3C, 0x89AB_CDEF];

/// words per packet of a spec
pub fn stamp<U: Un>(s: &Spec, p: &mut [U]) {
    let v = p[0].to32() & !s.hdr.0 | s.hdr.1;
    p[0] = U::from32(v);
    if s.name == "channel_voice2::ProgramChange" {
        // removing the bank also clears the reserved bits inside the bank octets; both are fine
        p[1] = U::from32(p[1].to32() & !0x8080);
    }
    for (k, f) in s.fields.iter().enumerate() {
        if f.value(p).is_none() {
            let c = (f.corners)();
            f.write(p, c[k % c.len()]);
        }
    }
}
fn text_units<U: Un>(t: TextKind, p: &mut [U], off: usize, full: bool) {
    let from = match t {
        TextKind::Flex => 4,
        TextKind::Stream(o) => 2 + o,
    };
    for k in from..16 {
        let sh = 24 - 8 * (k % 4) as u32;
        let c = if full || k < from + 5 { 0x41 + ((off + k) % 26) as u32 } else { 0 };
        let x = p[k / 4].to32() & !(0xFF << sh) | c << sh;
        p[k / 4] = U::from32(x);
    }
}
/// valid messages with every kind of content in the bits no field owns
pub fn backgrounds<U: Un>(s: &Spec, patterns: usize) -> Vec<Vec<U>> {
    let mut out: Vec<Vec<U>> = vec![];
    for (pi, p) in PATTERNS.iter().take(patterns).enumerate() {
        let mut m = vec![U::from32(*p); s.units];
        stamp(s, &mut m);
        match s.text {
            None => out.push(m),
            Some(t) => {
                text_units(t, &mut m, pi, false);
                out.push(m.clone());
                let fsh = match t {
                    TextKind::Flex => 22,
                    TextKind::Stream(_) => 26,
                };
                for n in if patterns > 2 { 2..=3usize } else { 3..=3 } {
                    let mut v = vec![];
                    for i in 0..n {
                        let f = if i == 0 { 1 } else if i + 1 == n { 3 } else { 2u32 };
                        let mut q = m.clone();
                        text_units(t, &mut q, pi + i, i + 1 < n);
                        q[0] = U::from32(q[0].to32() & !(3 << fsh) | f << fsh);
                        v.extend(q);
                    }
                    out.push(v);
                }
            }
        }
    }
    out.sort_by_key(|v| v.iter().map(|x| x.to32()).collect::<Vec<_>>());
    out.dedup();
    for m in &out {
        assert_eq!(accepts(s, m), Some(m.len()), "harness: background of {} not valid: {m:?}", s.name);
    }
    out
}
/// field written in every packet
pub fn write_all<U: Un>(s: &Spec, i: usize, c: u64, m: &mut [U]) {
    for p in m.chunks_mut(s.units) {
        s.fields[i].write(p, c);
    }
}
pub fn show<U: Un>(v: &[U]) -> String {
    if std::mem::size_of::<U>() == 1 {
        crate::hex8(&v.iter().map(|x| x.to32() as u8).collect::<Vec<_>>())
    } else {
        crate::hex32(&v.iter().map(|x| x.to32()).collect::<Vec<_>>())
    }
}
