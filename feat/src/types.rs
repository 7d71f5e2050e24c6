//! Access to one message type.
use crate::*;

pub struct Item<U: Un> {
    pub name: &'static str,
    /// message type of the words it can start with
    pub mt: u32,
    pub read: fn(&[U]) -> Option<String>,
    pub make: fn(usize) -> Option<String>,
}
pub fn family(module: &str) -> String {
    module.replace('_', "-")
}
pub fn mt(module: &str, bytes: bool) -> u32 {
    if bytes {
        return 0;
    }
    match module {
        "utility" => 0,
        "system_common" => 1,
        "channel_voice1" => 2,
        "channel_voice2" => 4,
        "flex_data" => 13,
        _ => 15,
    }
}
#[macro_export]
macro_rules! ty {
    ($v:ident, $m:ident, $t:ident, $U:ty, [$( ($g:ident $s:ident) )*] ()) => {
        $v.push($crate::types::Item {
            name: concat!(stringify!($m), "/", stringify!($t), " ", stringify!($U)),
            mt: $crate::types::mt(stringify!($m), stringify!($U) == "u8"),
            read: |w| {
                let m = midi2::$m::$t::try_from(w).ok()?;
                let mut s = format!("{m:?} {:X?}", m.data());
                $( write!(s, " {:?}", m.$g()).unwrap(); )*
                // the same properties on a fresh message, on a dirty buffer
                let mut b = vec![<$U as Un>::from32(0x6B6B_6B6B); 9];
                let mut n = midi2::$m::$t::try_new_with_buffer(&mut b[..]).unwrap();
                $( n.$s(m.$g()); )*
                write!(s, " {:X?}", n.data()).unwrap();
                settings(9, 0x77, true);
                let r: midi2::$m::$t<Fix<$U>> = m.clone().rebuffer_into();
                write!(s, " {:X?}", r.data()).unwrap();
                Some(s)
            },
            make: |n| {
                let mut b = vec![<$U as Un>::from32(0xC3C3_C3C3); n];
                let m = midi2::$m::$t::try_new_with_buffer(&mut b[..]).ok()?;
                Some(format!("{m:?} {:X?}", m.data()))
            },
        });
    };
}
#[macro_export]
macro_rules! tx {
    ($v:ident, $m:ident, $t:ident, $U:ty, [$( ($g:ident $s:ident) )*] ($b:ident $p:ident)) => {
        $v.push($crate::types::Item {
            name: concat!(stringify!($m), "/", stringify!($t), " ", stringify!($U)),
            mt: $crate::types::mt(stringify!($m), false),
            read: |w| {
                let m = midi2::$m::$t::try_from(w).ok()?;
                let mut s = format!("{m:?} {:X?}", m.data());
                $( write!(s, " {:?}", m.$g()).unwrap(); )*
                let t: Vec<u8> = m.$b().collect();
                write!(s, " {:X?} {:?}", t, m.$b().size_hint()).unwrap();
                let mut n = midi2::$m::$t::try_new_with_buffer(Fix { v: vec![0x6B6B_6B6Bu32; 12] }).unwrap();
                if let Ok(t) = core::str::from_utf8(&t) {
                    write!(s, " {:?}", n.$p(t).is_ok()).unwrap();
                }
                $( n.$s(m.$g()); )*
                write!(s, " {:X?}", n.data()).unwrap();
                Some(s)
            },
            make: |n| {
                let mut m = midi2::$m::$t::try_new_with_buffer(Fix { v: vec![0xC3C3_C3C3u32; n] }).ok()?;
                let mut s = format!("{:X?}", m.data());
                for t in ["a", "0123456789ab", "0123456789abc", "\u{e9}\u{20ac}\u{1f3b5} twenty eight bytes..", ""] {
                    let r = m.$p(t);
                    write!(s, " {:?} {:X?} {:X?}", r.is_ok(), m.data(), m.$b().collect::<Vec<u8>>()).unwrap();
                }
                Some(s)
            },
        });
    };
}
pub fn run<U: Un>(out: &mut Out, inputs: &[Input<U>], items: Vec<Item<U>>, key: impl Fn(&[U]) -> u32) {
    for it in &items {
        let (m, t) = it.name.split_once('/').unwrap();
        let item = format!("{}/{t}", family(m));
        let mut other = 0;
        for (blk, w) in inputs {
            if key(w) != it.mt {
                other += 1;
                if other % 97 != 0 {
                    continue;
                }
            }
            out.put(&item, blk, w, guard(|| (it.read)(w)).as_deref());
        }
        for n in 0..14 {
            out.put(&item, "make", &n, guard(|| (it.make)(n)).as_deref());
        }
    }
}
