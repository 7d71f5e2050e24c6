//! C12 texts of flex-data and UMP-stream messages, C13 header properties of multi-packet messages.
//!
//! The states are real messages (with everything behind them in their buffers); every operation of the menu is
//! executed from every state until no new state appears (or the depth bound is reached).
use mc::agg::*;
use mc::buf::*;
use mc::spec::*;
use mc::*;
use std::collections::{HashSet, VecDeque};
use std::fmt::Debug;
use std::sync::Arc;

trait Obj {
    fn dup(&self) -> Box<dyn Obj>;
    /// whole buffer content
    fn key(&self) -> String;
    /// Err = overflow reported
    fn put(&mut self, s: &str) -> Result<(), ()>;
    fn set(&mut self, i: usize, c: u64);
    fn get(&self, i: usize) -> u64;
    fn text(&self) -> String;
    fn bytes(&self) -> Vec<u8>;
    fn hint(&self) -> (usize, Option<usize>);
    fn units(&self) -> Vec<u32>;
}
macro_rules! obj {
    ($w:ident, $tr:ident, $s:ident, $t:ident => $put:expr) => {
        struct $w<M>(M);
        impl<M: Set<u32> + Txt + $tr + Clone + Debug + 'static> Obj for $w<M> {
            fn dup(&self) -> Box<dyn Obj> { Box::new($w(self.0.clone())) }
            fn key(&self) -> String { format!("{:?}", self.0) }
            fn put(&mut self, $t: &str) -> Result<(), ()> { let $s = &mut self.0; $put }
            fn set(&mut self, i: usize, c: u64) { self.0.set(i, c) }
            fn get(&self, i: usize) -> u64 { self.0.get(i) }
            fn text(&self) -> String { Txt::text(&self.0) }
            fn bytes(&self) -> Vec<u8> { Txt::bytes(&self.0) }
            fn hint(&self) -> (usize, Option<usize>) { Txt::hint(&self.0) }
            fn units(&self) -> Vec<u32> { Get::units(&self.0) }
        }
    };
}
obj!(Inf, TxtSet, s, t => { s.put(t); Ok(()) });
obj!(Fal, TxtTrySet, s, t => s.try_put(t));

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Vec,
    /// growable with fresh units of this value, shrinking or not
    Grow(u32, bool),
    Fix(usize),
    Bound(usize, u32),
    Arr(usize),
}
impl Kind {
    fn cap(&self) -> Option<usize> {
        match self {
            Kind::Fix(n) | Kind::Bound(n, _) | Kind::Arr(n) => Some(*n),
            _ => None,
        }
    }
}
#[derive(Clone, Debug)]
enum Start {
    New,
    /// new_with_buffer / try_new_with_buffer on a buffer with this content everywhere (of this length where possible)
    With(u32, usize),
    /// parsed from these units, then rebuffered
    Parsed(Vec<u32>),
}
type Made = Result<Box<dyn Obj>, ()>;
struct T {
    vt: &'static Vt<u32>,
    kind: TextKind,
    make: fn(&Kind, &Start) -> Option<Made>,
    /// try_new_with_buffer on a slice, then the given texts; (result, units, text) after each
    slice: fn(&mut [u32], &[&str], &mut dyn FnMut(usize, Result<(), ()>, Vec<u32>, String)) -> bool,
    /// the same on a borrowed vector
    vec: fn(&mut Vec<u32>, &[&str], &mut dyn FnMut(usize, Result<(), ()>, Vec<u32>, String)),
    read: fn(&[u32]) -> Option<(Vec<u32>, Vec<u64>)>,
    /// every concrete or aggregate reading of the bank and status bytes
    bank: fn(&[u32]) -> Vec<(u32, u32)>,
}
macro_rules! arrs {
    ($m:ident $t:ident, $n:expr, $s:expr, [$($N:literal),*]) => {
        match $n { $( $N => Some(match $s {
            Start::New => midi2::$m::$t::<[u32; $N]>::try_new().map(|m| Box::new(Fal(m)) as Box<dyn Obj>).map_err(|_| ()),
            Start::With(v, _) => midi2::$m::$t::try_new_with_buffer([*v; $N]).map(|m| Box::new(Fal(m)) as Box<dyn Obj>).map_err(|_| ()),
            Start::Parsed(u) => { let m = midi2::$m::$t::try_from(&u[..]).expect("start rejected"); let r: Result<midi2::$m::$t<[u32; $N]>, _> = midi2::prelude::TryRebufferInto::try_rebuffer_into(m); r.map(|m| Box::new(Fal(m)) as Box<dyn Obj>).map_err(|_| ()) }
        }), )* _ => None }
    };
}
macro_rules! banks {
    (flex_data $t:ident, $u:expr) => {{
        use midi2::flex_data::{Bank, FlexDataMessage};
        let b = |b: Bank| match b { Bank::SetupAndPerformance => 0, Bank::MetadataText => 1, Bank::PerformanceText => 2 };
        let m = midi2::flex_data::$t::try_from($u).expect("rejected");
        let a = midi2::flex_data::FlexData::try_from($u).expect("aggregate rejects");
        vec![(b(FlexDataMessage::bank(&m)), FlexDataMessage::status(&m) as u32), (b(FlexDataMessage::bank(&a)), FlexDataMessage::status(&a) as u32)]
    }};
    (ump_stream $t:ident, $u:expr) => {{ let _ = $u; vec![] }};
}
macro_rules! tys { ($(($m:ident $t:ident))*) => { vec![ $( {
    fn make(k: &Kind, s: &Start) -> Option<Made> {
        use midi2::prelude::*;
        let start = |u: &[u32]| -> midi2::$m::$t<Vec<u32>> { midi2::$m::$t::try_from(u).expect("start rejected").rebuffer_into() };
        Some(match k {
            Kind::Vec => Ok(match s {
                Start::New => Box::new(Inf(midi2::$m::$t::<Vec<u32>>::new())),
                Start::With(v, n) => Box::new(Inf(midi2::$m::$t::new_with_buffer(vec![*v; *n]))),
                Start::Parsed(u) => Box::new(Inf(start(u))),
            }),
            Kind::Grow(f, sh) => { settings(0, *f, *sh); Ok(match s {
                Start::New => Box::new(Inf(midi2::$m::$t::<Grow<u32>>::new())),
                Start::With(v, n) => Box::new(Inf(midi2::$m::$t::new_with_buffer(Grow::with(&vec![*v; *n])))),
                Start::Parsed(u) => { let m = midi2::$m::$t::try_from(&u[..]).expect("start rejected"); let r: midi2::$m::$t<Grow<u32>> = m.rebuffer_into(); Box::new(Inf(r)) }
            }) }
            Kind::Fix(n) => match s {
                Start::New => { settings(*n, 0, true); midi2::$m::$t::<Fix<u32>>::try_new().map(|m| Box::new(Fal(m)) as Box<dyn Obj>).map_err(|_| ()) }
                Start::With(v, _) => midi2::$m::$t::try_new_with_buffer(Fix { v: vec![*v; *n] }).map(|m| Box::new(Fal(m)) as Box<dyn Obj>).map_err(|_| ()),
                Start::Parsed(u) => { if u.len() > *n { return None; } settings(*n, 0xF0F0_F0F0, true);
                    let m = midi2::$m::$t::try_from(&u[..]).expect("start rejected"); let r: midi2::$m::$t<Fix<u32>> = m.rebuffer_into(); Ok(Box::new(Fal(r))) }
            },
            Kind::Bound(n, f) => { settings(*n, *f, true); match s {
                Start::New => midi2::$m::$t::<Bound<u32>>::try_new().map(|m| Box::new(Fal(m)) as Box<dyn Obj>).map_err(|_| ()),
                Start::With(v, l) => midi2::$m::$t::try_new_with_buffer(Bound { v: vec![*v; *l.min(n)], cap: *n, fill: *f }).map(|m| Box::new(Fal(m)) as Box<dyn Obj>).map_err(|_| ()),
                Start::Parsed(u) => { if u.len() > *n { return None; }
                    let m = midi2::$m::$t::try_from(&u[..]).expect("start rejected"); let r: midi2::$m::$t<Bound<u32>> = m.rebuffer_into(); Ok(Box::new(Fal(r))) }
            } }
            Kind::Arr(n) => return arrs!($m $t, *n, s, [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 18, 20]),
        })
    }
    fn slice(b: &mut [u32], texts: &[&str], o: &mut dyn FnMut(usize, Result<(), ()>, Vec<u32>, String)) -> bool {
        match midi2::$m::$t::try_new_with_buffer(b) {
            Err(_) => false,
            Ok(mut m) => { for (k, t) in texts.iter().enumerate() { let r = TxtTrySet::try_put(&mut m, t); o(k, r, Get::units(&m), Txt::text(&m)); } true }
        }
    }
    fn vec(b: &mut Vec<u32>, texts: &[&str], o: &mut dyn FnMut(usize, Result<(), ()>, Vec<u32>, String)) {
        let mut m = midi2::$m::$t::new_with_buffer(b);
        for (k, t) in texts.iter().enumerate() { TxtSet::put(&mut m, t); o(k, Ok(()), Get::units(&m), Txt::text(&m)); }
    }
    fn bank(u: &[u32]) -> Vec<(u32, u32)> { let _ = midi2::$m::$t::try_from(u); banks!($m $t, u) }
    let vt = *UMP.iter().find(|v| v.spec.name == concat!(stringify!($m), "::", stringify!($t))).unwrap();
    T { vt, kind: vt.spec.text.unwrap(), make, slice, vec, read: vt.read, bank }
}, )* ] } }

fn capacity(k: TextKind) -> usize {
    match k {
        TextKind::Flex => 12,
        TextKind::Stream(o) => 14 - o,
    }
}
/// a text of exactly n bytes; every position has another letter
fn letters(n: usize, seed: usize) -> String {
    (0..n).map(|k| (b'!' + ((k * 7 + seed * 13) % 90) as u8) as char).collect()
}
/// n bytes, `c` starting at byte `at`
fn with_char(n: usize, at: usize, c: char) -> String {
    let l = c.len_utf8();
    letters(at, 1) + &c.to_string() + &letters(n.saturating_sub(at + l), 2)
}
fn model_put(t: &T, m: &[u32], text: &str) -> Vec<u32> {
    let mut h = vec![m[0] & !t.vt.spec.hdr.0 | t.vt.spec.hdr.1];
    // the header of the message is kept
    for f in t.vt.spec.fields {
        let c = f.value(m).unwrap();
        f.write(&mut h, c);
    }
    pack_text(t.kind, h[0], text.as_bytes())
}
fn words_for(t: &T, text: &str) -> usize {
    4 * text.len().div_ceil(capacity(t.kind)).max(1)
}

/// compares a message with its model in every way it can be read
fn judge(ctx: &Ctx, t: &T, key: &str, o: &dyn Obj, m: &[u32], how: &dyn Fn() -> String) -> bool {
    let want = text_of(t.kind, m);
    let r = catch(|| {
        let u = o.units();
        let mut e = vec![];
        if u != m {
            e.push(format!("data {} expected {}", hex32(&u), hex32(m)));
        }
        if o.text().as_bytes() != want || o.bytes() != want {
            e.push(format!("text reads {:?} / {:?} expected {:?}", o.text(), o.bytes(), String::from_utf8_lossy(&want)));
        }
        let h = o.hint();
        if h.0 > want.len() || h.1.is_some_and(|h| h < want.len()) {
            e.push(format!("text byte iterator hints {h:?} for {} bytes", want.len()));
        }
        for (i, f) in t.vt.spec.fields.iter().enumerate().filter(|f| f.1.access) {
            if Some(o.get(i)) != f.value(m) {
                e.push(format!("{} reads {:X} expected {:X?}", f.name, o.get(i), f.value(m)));
            }
        }
        // and it parses back
        let reads = spec_reads(t.vt.spec, m);
        match (t.read)(&u) {
            None => e.push("does not parse back".to_string()),
            Some((d, r)) => {
                if d != m || r != reads {
                    e.push(format!("parses back as {} {r:X?}", hex32(&d)));
                }
            }
        }
        match midi2::UmpMessage::try_from(&u[..]) {
            Err(e2) => e.push(format!("UmpMessage rejects it: {e2:?}")),
            Ok(x) => {
                let p = ump_parsed(&x);
                if p.name != t.vt.spec.name || p.data != m || p.reads != reads {
                    e.push(format!("UmpMessage parses it as {p:X?}"));
                }
            }
        }
        for (b, s) in (t.bank)(&u) {
            if (b, s) != (m[0] >> 8 & 0xFF, m[0] & 0xFF) {
                e.push(format!("bank/status {b} {s}"));
            }
        }
        e
    });
    match r {
        Ok(e) if e.is_empty() => true,
        Ok(e) => {
            ctx.violation(key, &format!("{} {}: {}", t.vt.spec.name, how(), e.join("; ")));
            false
        }
        Err(e) => {
            ctx.violation(key, &format!("{} {}: reading panics: {e}", t.vt.spec.name, how()));
            false
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Text(String),
    Field(usize, u64),
}
/// every history over `ops` (to a fixpoint, or the depth bound) from one start, on the real message
fn explore(ctx: &Ctx, t: &T, kind: &Kind, start: &Start, ops: &[Op], depth: usize, max_states: usize) {
    let spec = t.vt.spec;
    let label = match kind {
        Kind::Vec => "vec".to_string(),
        Kind::Grow(..) => "grow".to_string(),
        Kind::Fix(_) => "fix".to_string(),
        Kind::Bound(..) => "bound".to_string(),
        Kind::Arr(_) => "array".to_string(),
    };
    let begin = || format!("{kind:X?} {}", match start { Start::New => "new".to_string(), Start::With(v, n) => format!("with buffer of {n} x {v:08X}"), Start::Parsed(u) => format!("parsed from {}", hex32(u)) });
    let made = match catch(|| (t.make)(kind, start)) {
        Err(e) => {
            ctx.violation(&format!("{}:{label}:start", spec.name), &format!("{} {}: panics: {e}", spec.name, begin()));
            return;
        }
        Ok(m) => m,
    };
    ctx.trace(1);
    let Some(made) = made else { return };
    let m0 = match start {
        Start::Parsed(u) => u[..accepts(spec, u).expect("harness: start")].to_vec(),
        _ => spec.default_units::<u32>(),
    };
    let total = if let Start::Parsed(u) = start { u.len() } else { 4 };
    let o0 = match made {
        Err(()) => {
            // an array which is too small (rebuffering judges the whole source: known finding of C11)
            if kind.cap().is_none_or(|c| c >= total) {
                ctx.violation(&format!("{}:{label}:start", spec.name), &format!("{} {}: fails although it fits", spec.name, begin()));
            }
            ctx.outcome("start does not fit", 1);
            return;
        }
        Ok(o) => o,
    };
    if !judge(ctx, t, &format!("{}:{label}:start", spec.name), &*o0, &m0, &begin) {
        return;
    }
    let mut seen: HashSet<u64> = HashSet::new();
    seen.insert(h64(&o0.key()));
    ctx.bulk(1, 0, 0);
    let mut queue: VecDeque<(Box<dyn Obj>, Vec<u32>, Vec<usize>)> = VecDeque::new();
    queue.push_back((o0, m0, vec![]));
    let (mut trans, mut states, mut fits, mut over) = (0u64, 0u64, 0u64, 0u64);
    while let Some((o, m, hist)) = queue.pop_front() {
        for (k, op) in ops.iter().enumerate() {
            trans += 1;
            let mut x = o.dup();
            let how = || {
                let mut h = begin();
                for i in hist.iter().chain([&k]) {
                    h += &match &ops[*i] {
                        Op::Text(s) => format!(", text {s:?} ({} bytes)", s.len()),
                        Op::Field(f, c) => format!(", {}={c:X}", spec.fields[*f].name),
                    };
                }
                h
            };
            let (kk, next) = match op {
                Op::Text(s) => {
                    let kk = format!("{}:{label}:text", spec.name);
                    let ok = kind.cap().is_none_or(|c| words_for(t, s) <= c);
                    let r = catch(|| x.put(s));
                    match r {
                        Err(e) => {
                            ctx.violation(&kk, &format!("{} {}: panics: {e}", spec.name, how()));
                            continue;
                        }
                        Ok(r) if r.is_ok() != ok => {
                            ctx.violation(&kk, &format!("{} {}: returned {r:?}, capacity {:?}, needs {}", spec.name, how(), kind.cap(), words_for(t, s)));
                            continue;
                        }
                        Ok(Ok(())) => { fits += 1; (kk, model_put(t, &m, s)) }
                        Ok(Err(())) => { over += 1; (kk, m.clone()) }
                    }
                }
                Op::Field(f, c) => {
                    let kk = format!("{}:{label}:{}", spec.name, spec.fields[*f].name);
                    if let Err(e) = catch(|| x.set(*f, *c)) {
                        ctx.violation(&kk, &format!("{} {}: panics: {e}", spec.name, how()));
                        continue;
                    }
                    let mut m = m.clone();
                    mc::bg::write_all(spec, *f, *c, &mut m);
                    (kk, m)
                }
            };
            if !judge(ctx, t, &kk, &*x, &next, &how) {
                continue;
            }
            if hist.len() + 1 < depth && seen.len() < max_states && seen.insert(h64(&x.key())) {
                states += 1;
                let mut h = hist.clone();
                h.push(k);
                queue.push_back((x, next, h));
            }
        }
    }
    if trans > 1000 {
        ctx.sample(|| format!("{} {}: {} operations from every state, {} states, depth bound {depth}", spec.name, begin(), ops.len(), seen.len()));
    }
    if seen.len() >= max_states {
        ctx.outcome("state limit reached", 1);
    } else {
        ctx.outcome("explored to the fixpoint or depth bound", 1);
    }
    ctx.outcome("text fits", fits);
    ctx.outcome("text overflow", over);
    ctx.bulk(states, trans, trans);
}

/// valid messages to start from: partly filled packets, dirty tails, 1 to 4 packets, several headers
fn parsed_starts(t: &T, thorough: bool) -> Vec<Vec<u32>> {
    let spec = t.vt.spec;
    let cap = capacity(t.kind);
    let from = 16 - cap;
    let mut out = vec![];
    let fsh = match t.kind { TextKind::Flex => 22, TextKind::Stream(_) => 26 };
    for n in 1..=4usize {
        for (fill, which) in [(cap, 0), (cap - 1, 1), (1, 2), (0, 1)] {
            let mut v = vec![];
            for i in 0..n {
                let f = if n == 1 { 0 } else if i == 0 { 1 } else if i + 1 == n { 3 } else { 2u32 };
                let mut p = spec.default_units::<u32>();
                for fl in spec.fields {
                    let c = (fl.corners)();
                    fl.write(&mut p, c[(which + 1) % c.len()]);
                }
                p[0] = p[0] & !(3 << fsh) | f << fsh;
                for k in 0..fill {
                    let at = from + k;
                    p[at / 4] |= (0x30 + ((i * 17 + k) % 64) as u32) << (24 - 8 * (at % 4));
                }
                v.extend(p);
            }
            assert_eq!(accepts(spec, &v), Some(v.len()), "harness: start");
            out.push(v.clone());
            if n == 2 || thorough {
                // data behind the message: another message, and garbage of another message type
                let mut a = v.clone();
                a.extend([0x4091_4142, 0xFFFF_FFFF, 0x2093_4050, 0x1234_5678]);
                out.push(a);
                let mut a = v.clone();
                a.extend([0x10F8_0000]);
                out.push(a);
            }
        }
    }
    out
}

/// (text type, packets)
fn long_jobs(ctx: &Ctx, ts: &[T]) -> Vec<(usize, usize)> {
    let mut jobs = vec![];
    for n in mc::long::packets(ctx, true) {
        for (j, t) in ts.iter().enumerate() {
            let some = ["flex_data::Lyrics", "ump_stream::EndpointName"].contains(&t.vt.spec.name);
            if if n > 5000 { some || ctx.thorough() && n > 60_000 } else { some || ctx.thorough() || n > 126 && n < 131 || n > 254 && n < 259 } {
                jobs.push((j, n));
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.1));
    jobs
}
fn c12(ctx: &Arc<Ctx>, ts: &[T]) {
    let th = ctx.thorough();
    // A: all histories over a menu of texts of every interesting length, on every kind of buffer
    let jobs: Vec<usize> = (0..ts.len()).collect();
    ctx.par("text histories", &jobs, |j| ts[*j].vt.spec.name.to_string(), |j| {
        let t = &ts[*j];
        let cap = capacity(t.kind);
        let mut lens: Vec<usize> = vec![0, 1, 2, cap - 1, cap, cap + 1, 2 * cap - 1, 2 * cap, 2 * cap + 1, 3 * cap, 3 * cap + 1, 4 * cap, 5 * cap + 3];
        if th {
            lens.extend([3, 5, cap + 2, cap + 5, 3 * cap - 1, 4 * cap - 1, 4 * cap + 1, 6 * cap, 7 * cap + 1]);
        }
        let mut ops: Vec<Op> = lens.iter().enumerate().map(|(k, n)| Op::Text(letters(*n, k))).collect();
        ops.push(Op::Text(with_char(cap + 3, cap - 1, '\u{1F30A}')));
        ops.push(Op::Text(with_char(2 * cap, cap - 2, '\u{20AC}')));
        ops.push(Op::Text("\u{FC}".repeat(cap)));
        let mut starts = vec![Start::New, Start::With(0, 9), Start::With(0xFFFF_FFFF, 12), Start::With(0xD5D5_D5D5, 7), Start::With(0xFC03_4142, 17), Start::With(0, 0)];
        starts.extend(parsed_starts(t, th).into_iter().map(Start::Parsed));
        let mut kinds = vec![Kind::Vec, Kind::Grow(0, true), Kind::Grow(0xFFFF_FFFF, true), Kind::Grow(0xFC03_4142, false), Kind::Grow(0xD0D0_5555, true)];
        kinds.extend((0..=if th { 30 } else { 18 }).map(Kind::Fix));
        kinds.extend((0..=if th { 30 } else { 18 }).map(|n| Kind::Bound(n, if n % 2 == 0 { 0xFFFF_FFFF } else { 0xFC03_4142 })));
        kinds.extend([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 18, 20].map(Kind::Arr));
        for k in &kinds {
            for s in &starts {
                explore(ctx, t, k, s, &ops, 4, 400);
            }
        }
    });
    // B: every length, once and after a longer and a shorter text
    let max = ctx.pick(420, 2000);
    ctx.par("every length", &jobs, |j| ts[*j].vt.spec.name.to_string(), |j| {
        let t = &ts[*j];
        let ns: Vec<usize> = (0..=max).chain([3071, 3072, 3073, 3327, 3328, 3329, 3583, 3584, 3585]).chain(if th { vec![65536 * 3 - 1, 65536 * 3, 65536 * 3 + 1, 262_144] } else { vec![] }).collect();
        for n in ns {
            explore(ctx, t, &Kind::Vec, &Start::New, &[Op::Text(letters(n, n))], 1, 4);
            if n <= 420 {
                let w = words_for(t, &letters(n, 0));
                for c in [w.saturating_sub(4), w - 1, w, w + 1, w + 4, w + 7] {
                    explore(ctx, t, &Kind::Fix(c), &Start::With(0xFFFF_FFFF, 0), &[Op::Text(letters(n, n))], 1, 4);
                    explore(ctx, t, &Kind::Bound(c, 0xFFFF_FFFF), &Start::New, &[Op::Text(letters(n, n))], 1, 4);
                }
            }
        }
    });
    let long = long_jobs(ctx, ts);
    ctx.par("long", &long, |j| format!("{} {} packets", ts[j.0].vt.spec.name, j.1), |&(j, n)| {
        let t = &ts[j];
        let cap = capacity(t.kind);
        let mut ops = vec![Op::Text(letters(n * cap, 1)), Op::Text(letters((n - 1) * cap, 4)), Op::Text(letters(cap + 1, 2))];
        if n < 5000 {
            ops.push(Op::Text(letters((n - 1) * cap + 1, 3)));
            ops.push(Op::Text("\u{20AC}".repeat((n * cap - 1) / 3)));
            ops.push(Op::Text(String::new()));
        }
        let start = Start::Parsed([pack_text(t.kind, t.vt.spec.default_units::<u32>()[0], letters((n - 1) * cap + 3, 5).as_bytes()), vec![0x2091_4142]].concat());
        for k in [Kind::Vec, Kind::Grow(0xFC03_4142, false), Kind::Fix(4 * n), Kind::Fix(4 * n - 1), Kind::Bound(4 * n + 1, 0xFFFF_FFFF), Kind::Bound(4 * n - 3, 0)] {
            if n < 5000 || matches!(k, Kind::Vec | Kind::Fix(_)) {
                explore(ctx, t, &k, &Start::New, &ops, if n < 5000 { 3 } else { 1 }, 400);
                if n < 5000 {
                    explore(ctx, t, &k, &start, &ops, 2, 400);
                }
            }
        }
    });
    // texts which are far too long, around the sizes where counters of eight and sixteen bits wrap
    ctx.par("far too long", &jobs, |j| ts[*j].vt.spec.name.to_string(), |j| {
        let t = &ts[*j];
        let cap = capacity(t.kind);
        let some = th || ["flex_data::Lyrics", "ump_stream::EndpointName", "ump_stream::FunctionBlockName"].contains(&t.vt.spec.name);
        let mut lens = vec![];
        for units in [256usize, 65_536] {
            // in bytes, in packets, and in units of the buffer
            for c in [units, units * cap, units / 4 * cap] {
                if c < 5_000 || some {
                    lens.extend(c - ctx.pick(2, cap)..=c + ctx.pick(2, cap));
                }
            }
        }
        for n in lens {
            let ops = [Op::Text(letters(n, 1)), Op::Text(letters(3, 2))];
            for k in [Kind::Arr(4), Kind::Arr(12), Kind::Fix(8), Kind::Bound(9, 0xFFFF_FFFF)] {
                explore(ctx, t, &k, &Start::New, &ops, if n < 5_000 { 3 } else { 1 }, 40);
            }
        }
    });
    // C: every character of a menu at every position of three packets
    ctx.par("characters", &jobs, |j| ts[*j].vt.spec.name.to_string(), |j| {
        let t = &ts[*j];
        let cap = capacity(t.kind);
        let mut chars: Vec<char> = (1u8..0x80).map(|b| b as char).collect();
        chars.extend((0x80u32..0x800).step_by(if th { 1 } else { 61 }).filter_map(char::from_u32));
        chars.extend(['\u{80}', '\u{FF}', '\u{100}', '\u{7FF}', '\u{800}', '\u{FFF}', '\u{1000}', '\u{D7FF}', '\u{E000}', '\u{FFFD}', '\u{FFFF}', '\u{10000}', '\u{1F30A}', '\u{3FFFF}', '\u{40000}', '\u{FFFFF}', '\u{100000}', '\u{10FFFF}']);
        if th {
            chars.extend((0x800u32..0x11_0000).step_by(997).filter_map(char::from_u32));
        }
        let mut o = (t.make)(&Kind::Vec, &Start::New).unwrap().unwrap();
        let m0 = t.vt.spec.default_units::<u32>();
        for c in &chars {
            for at in 0..(2 * cap + 2) {
                for rest in [0usize, 5] {
                    let s = with_char(at + c.len_utf8() + rest, at, *c);
                    let m = model_put(t, &m0, &s);
                    match catch(|| o.put(&s)) {
                        Err(e) => ctx.violation(&format!("{}:characters", t.vt.spec.name), &format!("{} text {s:?}: panics: {e}", t.vt.spec.name)),
                        Ok(_) => {
                            judge(ctx, t, &format!("{}:characters", t.vt.spec.name), &*o, &m, &|| format!("text {s:?}"));
                        }
                    }
                    ctx.bulk(1, 1, 1);
                }
            }
        }
    });
    // E: every Unicode character alone, first and last; every short text over characters which are often treated specially
    let four: Vec<(usize, u32)> = (0..ts.len())
        .filter(|j| th || ["flex_data::Lyrics", "ump_stream::EndpointName", "ump_stream::ProductInstanceId", "ump_stream::FunctionBlockName"].contains(&ts[*j].vt.spec.name))
        .flat_map(|j| (0..17).map(move |p| (j, p)))
        .collect();
    ctx.par("every character", &four, |j| format!("{} plane {}", ts[j.0].vt.spec.name, j.1), |&(j, plane)| {
        let t = &ts[j];
        let key = format!("{}:every character", t.vt.spec.name);
        let m0 = t.vt.spec.default_units::<u32>();
        let mut o = (t.make)(&Kind::Vec, &Start::New).unwrap().unwrap();
        let mut n = 0;
        let mut check = |s: &str| {
            n += 1;
            let m = model_put(t, &m0, s);
            match catch(|| {
                let r = o.put(s);
                (r, o.text(), o.bytes(), o.units())
            }) {
                Err(e) => ctx.violation(&key, &format!("{} text {s:?}: panics: {e}", t.vt.spec.name)),
                Ok((r, x, b, u)) => {
                    if r.is_err() || x != s || b != s.as_bytes() || u != m {
                        ctx.violation(&key, &format!("{} text {s:?}: {r:?}, reads {x:?} {b:X?} {}", t.vt.spec.name, hex32(&u)));
                    }
                }
            }
        };
        for c in (plane << 16..(plane + 1) << 16).filter_map(char::from_u32).filter(|c| *c != '\0') {
            for s in [format!("{c}"), format!("{c}a"), format!("a{c}")] {
                check(&s);
            }
        }
        if plane == 0 {
            let special = [" ", "\t", "\r", "\n", "\u{1}", "\u{7F}", "\u{A0}", "\u{301}", "\u{200B}", "\u{FEFF}", "\u{FFFD}", "\\", "A", "\u{1F30A}"];
            let depth = if th { 4 } else { 3 };
            for len in 1..=depth {
                for mut k in 0..special.len().pow(len) {
                    let mut s = String::new();
                    for _ in 0..len {
                        s += special[k % special.len()];
                        k /= special.len();
                    }
                    check(&s);
                    // behind a packet of letters and in front of letters
                    let l = letters(capacity(t.kind) - 1, 1);
                    check(&(l.clone() + &s));
                    check(&(s + &l));
                }
            }
        }
        ctx.bulk(n, n, n);
    });
    // D: borrowed buffers: every capacity x pairs of texts
    ctx.par("borrowed buffers", &jobs, |j| ts[*j].vt.spec.name.to_string(), |j| {
        let t = &ts[*j];
        let cap = capacity(t.kind);
        let key = format!("{}:borrowed", t.vt.spec.name);
        let texts: Vec<String> = [0, 1, cap - 1, cap, cap + 1, 2 * cap, 2 * cap + 1, 3 * cap, 3 * cap + 2].iter().enumerate().map(|(k, n)| letters(*n, k)).chain([with_char(2 * cap, cap - 1, '\u{20AC}')]).collect();
        for a in &texts {
            for b in &texts {
                for c in &texts {
                    for fill in [0u32, 0xFFFF_FFFF, 0xDC10_0101] {
                        for n in (0..=21).chain([usize::MAX]) {
                            let seq = [&a[..], &b[..], &c[..]];
                            let mut m = t.vt.spec.default_units::<u32>();
                            let mut steps = 0u64;
                            let mut bad = None;
                            let mut obs = |k: usize, r: Result<(), ()>, u: Vec<u32>, s: String| {
                                let fit = n == usize::MAX || words_for(t, seq[k]) <= n;
                                if fit {
                                    m = model_put(t, &m, seq[k]);
                                }
                                if bad.is_none() && (r.is_ok() != fit || u != m || s.as_bytes() != text_of(t.kind, &m)) {
                                    bad = Some(format!("step {k}: {r:?} {} {s:?}, expected fit={fit} {}", hex32(&u), hex32(&m)));
                                }
                                steps += 1;
                            };
                            let r = catch(|| {
                                if n == usize::MAX {
                                    let mut v = vec![fill; 6];
                                    (t.vec)(&mut v, &seq, &mut obs);
                                    true
                                } else {
                                    let mut v = vec![fill; n];
                                    (t.slice)(&mut v, &seq, &mut obs)
                                }
                            });
                            let what = || format!("{} in a borrowed buffer of {n} x {fill:08X}, texts {seq:?}", t.vt.spec.name);
                            match r {
                                Err(e) => ctx.violation(&key, &format!("{}: panics: {e}", what())),
                                Ok(made) if made != (n >= 4) => ctx.violation(&key, &format!("{}: construction {made}", what())),
                                Ok(_) => {
                                    if let Some(b) = bad {
                                        ctx.violation(&key, &format!("{}: {b}", what()))
                                    }
                                }
                            }
                            ctx.bulk(1, steps + 1, 1);
                        }
                    }
                }
            }
        }
    });
}

fn c13(ctx: &Arc<Ctx>, ts: &[T]) {
    let th = ctx.thorough();
    let jobs: Vec<usize> = (0..ts.len()).collect();
    // A: fixpoint over header writes and texts
    ctx.par("header histories", &jobs, |j| ts[*j].vt.spec.name.to_string(), |j| {
        let t = &ts[*j];
        let cap = capacity(t.kind);
        let mut ops = vec![];
        for (i, f) in t.vt.spec.fields.iter().enumerate() {
            let all = (f.corners)();
            let n = all.len();
            let pick: Vec<u64> = if th { all } else { let mut v = vec![all[0], all[n - 1], all[n / 2], all[1 % n]]; v.sort(); v.dedup(); v };
            ops.extend(pick.into_iter().map(|c| Op::Field(i, c)));
        }
        for n in [0, 1, cap, cap + 1, 2 * cap + 1, 3 * cap + 1, 4 * cap] {
            ops.push(Op::Text(letters(n, n)));
        }
        let mut starts = vec![Start::New, Start::With(0xFFFF_FFFF, 13)];
        starts.extend(parsed_starts(t, th).into_iter().map(Start::Parsed));
        let kinds = [Kind::Vec, Kind::Grow(0xFFFF_FFFF, false), Kind::Grow(0xFC12_4142, true), Kind::Grow(0, true), Kind::Fix(12), Kind::Fix(17), Kind::Fix(20), Kind::Bound(16, 0xFFFF_FFFF), Kind::Arr(12), Kind::Arr(18)];
        for k in &kinds {
            for s in &starts {
                explore(ctx, t, k, s, &ops, ctx.pick(4, 50), ctx.pick(100_000, 6_000));
            }
        }
    });
    let long = long_jobs(ctx, ts);
    ctx.par("long", &long, |j| format!("{} {} packets", ts[j.0].vt.spec.name, j.1), |&(j, n)| {
        let t = &ts[j];
        let cap = capacity(t.kind);
        let mut ops = vec![];
        for (i, f) in t.vt.spec.fields.iter().enumerate() {
            let all = (f.corners)();
            ops.push(Op::Field(i, all[all.len() - 1]));
            if n < 5000 {
                ops.push(Op::Field(i, all[all.len() / 2]));
                ops.push(Op::Field(i, all[0]));
            }
        }
        if n < 5000 {
            ops.push(Op::Text(letters((n + 1) * cap, 1)));
            ops.push(Op::Text(letters(2 * cap, 1)));
        }
        let start = Start::Parsed([pack_text(t.kind, t.vt.spec.default_units::<u32>()[0], letters((n - 1) * cap + 3, 5).as_bytes()), vec![0x2091_4142]].concat());
        explore(ctx, t, &Kind::Vec, &start, &ops, if n < 5000 { 2 } else { 1 }, 400);
    });
    // B: every value of every header property on messages of 1 to 4 packets, and after a text
    ctx.par("header values", &jobs, |j| ts[*j].vt.spec.name.to_string(), |j| {
        let t = &ts[*j];
        let cap = capacity(t.kind);
        for (i, f) in t.vt.spec.fields.iter().enumerate() {
            for c in (f.codes)(th) {
                let Some(c) = (f.canon)(c) else { continue };
                for s in std::iter::once(Start::New).chain(parsed_starts(t, th).into_iter().map(Start::Parsed)) {
                    for (k, n) in [(Kind::Vec, 3 * cap), (Kind::Fix(20), cap + 1)] {
                        explore(ctx, t, &k, &s, &[Op::Field(i, c), Op::Text(letters(n, 3))], 3, 100);
                    }
                }
            }
        }
    });
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&prop);
    let ts: Vec<T> = each_text!(tys);
    match prop.as_str() {
        "C12" => c12(&ctx, &ts),
        "C13" => c13(&ctx, &ts),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(4);
        }
    }
    ctx.finish()
}
