//! C18 every buffer form behaves alike.
//!
//! Every history up to the bound is executed once on a vector backed message made with `new()` and then on every
//! other buffer form; the observable state after every step must be the same. Content behind the message in buffers
//! that can be seen from outside must not change by property writes and must not influence anything.
use mc::buf::*;
use mc::hints::Hint;
use mc::spec::*;
use mc::sx;
use mc::sx::SxBase;
use mc::*;
use midi2::Sysex as _;
use std::sync::Arc;

/// one owned message in some buffer
trait Obj<U: Un> {
    fn set(&mut self, i: usize, c: u64);
    fn put(&mut self, s: &str) -> Result<(), ()>;
    fn units(&self) -> Vec<U>;
    fn reads(&self) -> Vec<u64>;
}
macro_rules! obj {
    ($w:ident, [$($tr:tt)*], $s:ident, $t:ident => $put:expr) => {
        struct $w<M>(M);
        impl<U: Un, M: Set<U> + Any<U> $($tr)*> Obj<U> for $w<M> {
            fn set(&mut self, i: usize, c: u64) { self.0.set(i, c) }
            #[allow(unused_variables)]
            fn put(&mut self, $t: &str) -> Result<(), ()> { let $s = &mut self.0; $put }
            fn units(&self) -> Vec<U> { Get::units(&self.0) }
            fn reads(&self) -> Vec<u64> { Any::reads(&self.0) }
        }
    };
}
obj!(Plain, [], s, t => panic!("harness: no text"));
obj!(Inf, [+ TxtSet], s, t => { s.put(t); Ok(()) });
obj!(Fal, [+ TxtTrySet], s, t => s.try_put(t));

#[derive(Clone, Debug, PartialEq)]
enum Form<U: Un> {
    VecNew,
    GrowNew(u32, bool),
    /// stale content of the vector
    VecWith(Vec<U>),
    VecRef(Vec<U>),
    /// content, fresh units, shrinks
    GrowWith(Vec<U>, u32, bool),
    FixNew(usize),
    Fix(Vec<U>),
    BoundNew(usize, u32),
    /// content, capacity, fresh units
    Bound(Vec<U>, usize, u32),
    /// array new() / try_new() / try_new_with_buffer(content)
    ArrNew(usize),
    ArrTryNew(usize),
    ArrWith(Vec<U>),
    Slice(Vec<U>),
    /// parsed from these units, then moved into another buffer
    ReVec(Vec<U>),
    ReGrow(Vec<U>, u32, bool),
    ReFix(Vec<U>, usize, u32),
    ReBound(Vec<U>, usize, u32),
    ReArr(Vec<U>, usize),
}
impl<U: Un> Form<U> {
    fn label(&self) -> &'static str {
        match self {
            Form::VecNew => "vec",
            Form::GrowNew(..) => "growable, new",
            Form::VecWith(_) => "vec with stale content",
            Form::VecRef(_) => "borrowed vec",
            Form::GrowWith(..) => "growable with stale content",
            Form::FixNew(_) => "fixed, try_new",
            Form::Fix(_) => "fixed with stale content",
            Form::BoundNew(..) => "bounded, try_new",
            Form::Bound(..) => "bounded with stale content",
            Form::ArrNew(_) => "array, new",
            Form::ArrTryNew(_) => "array, try_new",
            Form::ArrWith(_) => "array with stale content",
            Form::Slice(_) => "mutable slice",
            Form::ReVec(_) => "parsed into vec",
            Form::ReGrow(..) => "parsed into growable",
            Form::ReFix(..) => "parsed into fixed",
            Form::ReBound(..) => "parsed into bounded",
            Form::ReArr(..) => "parsed into array",
        }
    }
}
type Run<'a, U> = &'a mut dyn FnMut(&mut dyn Obj<U>);
struct T<U: Un> {
    vt: &'static Vt<U>,
    /// runs the closure on a message in that form; Some(content of the buffer afterwards) where it can be seen;
    /// Err = the constructor refused
    with: fn(&Form<U>, Run<U>) -> Result<Option<Vec<U>>, ()>,
}
macro_rules! arr {
    ($U:ty, $m:ident $t:ident $F:ident, $form:expr, $run:expr, [$($N:literal),*]) => {
        match $form {
            Form::ArrNew(n) => match n { $( $N => { $run(&mut $F(midi2::$m::$t::<[$U; $N]>::new())); Ok(None) } )* _ => panic!("harness: array size {n}") },
            Form::ArrTryNew(n) => match n { $( $N => { $run(&mut $F(midi2::$m::$t::<[$U; $N]>::try_new().map_err(|_| ())?)); Ok(None) } )* _ => panic!("harness: array size {n}") },
            Form::ArrWith(v) => match v.len() { $( $N => { $run(&mut $F(midi2::$m::$t::try_new_with_buffer(<[$U; $N]>::try_from(&v[..]).unwrap()).map_err(|_| ())?)); Ok(None) } )* n => panic!("harness: array size {n}") },
            Form::ReArr(u, n) => match n { $( $N => {
                let r: Result<midi2::$m::$t<[$U; $N]>, _> = midi2::prelude::TryRebufferInto::try_rebuffer_into(midi2::$m::$t::try_from(&u[..]).expect("rejected"));
                $run(&mut $F(r.map_err(|_| ())?)); Ok(None) } )* _ => panic!("harness: array size {n}") },
            _ => unreachable!(),
        }
    };
}
macro_rules! with {
    ($U:ty, $m:ident $t:ident, $I:ident $F:ident, $sizes:tt) => {{
        fn with(form: &Form<$U>, run: Run<$U>) -> Result<Option<Vec<$U>>, ()> {
            use midi2::prelude::*;
            type V<B> = midi2::$m::$t<B>;
            let from = |u: &'static [$U]| -> V<&'static [$U]> { V::try_from(u).expect("rejected") };
            let _ = from;
            match form {
                Form::VecNew => run(&mut $I(V::<Vec<$U>>::new())),
                Form::GrowNew(f, s) => { settings(0, *f, *s); run(&mut $I(V::<Grow<$U>>::new())) }
                Form::VecWith(v) => run(&mut $I(V::new_with_buffer(v.clone()))),
                Form::VecRef(v) => { let mut v = v.clone(); run(&mut $I(V::new_with_buffer(&mut v))); return Ok(Some(v)); }
                Form::GrowWith(v, f, s) => { settings(0, *f, *s); run(&mut $I(V::new_with_buffer(Grow::with(v)))) }
                Form::FixNew(n) => { settings(*n, 0, true); run(&mut $F(V::<Fix<$U>>::try_new().map_err(|_| ())?)) }
                Form::Fix(v) => run(&mut $F(V::try_new_with_buffer(Fix { v: v.clone() }).map_err(|_| ())?)),
                Form::BoundNew(n, f) => { settings(*n, *f, true); run(&mut $F(V::<Bound<$U>>::try_new().map_err(|_| ())?)) }
                Form::Bound(v, n, f) => run(&mut $F(V::try_new_with_buffer(Bound { v: v.clone(), cap: *n, fill: <$U as Un>::from32(*f) }).map_err(|_| ())?)),
                Form::Slice(v) => { let mut v = v.clone(); run(&mut $F(V::try_new_with_buffer(&mut v[..]).map_err(|_| ())?)); return Ok(Some(v)); }
                Form::ReVec(u) => { let r: V<Vec<$U>> = V::try_from(&u[..]).expect("rejected").rebuffer_into(); run(&mut $I(r)) }
                Form::ReGrow(u, f, s) => { settings(0, *f, *s); let r: V<Grow<$U>> = V::try_from(&u[..]).expect("rejected").rebuffer_into(); run(&mut $I(r)) }
                Form::ReFix(u, n, f) => { settings(*n, *f, true); let r: V<Fix<$U>> = V::try_from(&u[..]).expect("rejected").rebuffer_into(); run(&mut $F(r)) }
                Form::ReBound(u, n, f) => { settings(*n, *f, true); let r: V<Bound<$U>> = V::try_from(&u[..]).expect("rejected").rebuffer_into(); run(&mut $F(r)) }
                _ => return arr!($U, $m $t $F, form, run, $sizes),
            }
            Ok(None)
        }
        with
    }};
}
macro_rules! umps { ($(($m:ident $t:ident $min:literal [$($n:literal),*]))*) => { vec![ $( umps!(@ $m $t $min [$($n),*]) ),* ] };
    (@ $m:ident $t:ident $min:literal $s:tt) => { T { vt: find(UMP, concat!(stringify!($m), "::", stringify!($t))), with: with!(u32, $m $t, Plain Plain, $s) } };
}
macro_rules! bytes { ($(($m:ident $t:ident $min:literal [$($n:literal),*]))*) => { vec![ $( bytes!(@ $m $t $min [$($n),*]) ),* ] };
    (@ $m:ident $t:ident $min:literal $s:tt) => { T { vt: find(BYTES, concat!(stringify!($m), "::", stringify!($t))), with: with!(u8, $m $t, Plain Plain, $s) } };
}
macro_rules! texts { ($(($m:ident $t:ident))*) => { vec![ $( T { vt: find(UMP, concat!(stringify!($m), "::", stringify!($t))), with: with!(u32, $m $t, Inf Fal, [4, 5, 8, 9, 12, 13, 16, 24]) }, )* ] } }
fn find<U: Un>(t: &[&'static Vt<U>], n: &str) -> &'static Vt<U> {
    t.iter().find(|v| v.spec.name == n).unwrap_or_else(|| panic!("harness: {n}"))
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Set(usize, u64),
    Text(String),
}
/// what can be seen after a step
#[derive(Clone, Debug, PartialEq)]
struct Seen<U: Un> {
    ok: bool,
    units: Vec<U>,
    reads: Vec<u64>,
}
fn apply<U: Un>(o: &mut dyn Obj<U>, op: &Op) -> bool {
    match op {
        Op::Set(i, c) => { o.set(*i, *c); true }
        Op::Text(s) => o.put(s).is_ok(),
    }
}
fn see<U: Un>(o: &dyn Obj<U>, ok: bool) -> Seen<U> {
    Seen { ok, units: o.units(), reads: o.reads() }
}
const JUNK: [u32; 7] = [0xDEAD_BEEF, 0x1234_5678, 0xFFFF_FFFF, 0xF0F0_F0F0, 0x0000_0001, 0xD0C0_0100, 0x4142_4344];
fn junk<U: Un>(n: usize, k: usize) -> Vec<U> {
    (0..n).map(|i| U::from32(if k == 0 { 0xFFFF_FFFF } else { JUNK[(i + k) % 7] })).collect()
}
/// every buffer form with room for `need` units
fn forms<U: Un>(s: &Spec, need: usize, sizes: &[usize], wide: bool) -> Vec<Form<U>> {
    let min = s.units;
    let d = s.default_units::<U>();
    // what follows must not belong to the message
    let mut follow = junk::<U>(3, 1);
    if std::mem::size_of::<U>() == 4 {
        follow[0] = U::from32(0x2093_4050);
    }
    let dt: Vec<U> = d.iter().chain(&follow).copied().collect();
    let mut v = vec![Form::VecWith(junk(1, 0)), Form::VecWith(junk(need + 3, 1)), Form::VecRef(vec![]), Form::VecRef(junk(need + 3, 1)), Form::GrowWith(junk(min, 1), 0xFFFF_FFFF, false)];
    v.extend([Form::GrowNew(0xFFFF_FFFF, true), Form::GrowWith(junk(need + 2, 0), 0xAAAA_AAAA, false), Form::GrowWith(junk(need + 1, 2), 0x5555_5555, true)]);
    v.extend([Form::Fix(junk(need, 1)), Form::Fix(junk(need + 3, 0)), Form::FixNew(need + 2)]);
    v.extend([Form::Bound(vec![], need, 0xFFFF_FFFF), Form::Bound(junk(need, 0), need + 3, 0xA5A5_A5A5), Form::BoundNew(need, 0xFFFF_FFFF)]);
    v.extend([Form::Slice(junk(need, 1)), Form::Slice(junk(need + 3, 2))]);
    let fit: Vec<usize> = sizes.iter().copied().filter(|n| *n >= need).collect();
    for n in fit.iter().take(if wide { 3 } else { 2 }) {
        v.extend([Form::ArrNew(*n), Form::ArrTryNew(*n), Form::ArrWith(junk(*n, 1))]);
    }
    v.extend([Form::ReVec(d.clone()), Form::ReVec(dt.clone()), Form::ReGrow(dt.clone(), 0xFFFF_FFFF, false), Form::ReFix(d.clone(), need + 2, 0xFFFF_FFFF), Form::ReBound(dt.clone(), need.max(dt.len()), 0xFFFF_FFFF)]);
    if let Some(n) = fit.iter().find(|n| **n >= dt.len()) {
        v.push(Form::ReArr(dt.clone(), *n));
    }
    if let Some(n) = fit.first() {
        v.push(Form::ReArr(d.clone(), *n));
    }
    v
}

/// all histories of this length
fn each_history(ops: &[Op], depth: usize, first: usize, f: &mut dyn FnMut(&[Op])) {
    let mut h = vec![ops[first].clone()];
    fn go(ops: &[Op], depth: usize, h: &mut Vec<Op>, f: &mut dyn FnMut(&[Op])) {
        if h.len() == depth {
            f(h);
            return;
        }
        for o in ops {
            h.push(o.clone());
            go(ops, depth, h, f);
            h.pop();
        }
    }
    go(ops, depth, &mut h, f)
}
fn history<U: Un>(ctx: &Ctx, t: &T<U>, h: &[Op], sizes: &[usize], empty_tail: &dyn Fn(&Form<U>) -> Option<Vec<U>>) -> u64 {
    let s = t.vt.spec;
    let mut want: Vec<Seen<U>> = vec![];
    let r = catch(|| (t.with)(&Form::VecNew, &mut |o| {
        want.push(see(o, true));
        for op in h {
            let ok = apply(o, op);
            want.push(see(o, ok));
        }
    }));
    if !matches!(r, Ok(Ok(_))) {
        ctx.violation(&format!("{}:vec", s.name), &format!("{} on a new vector: {h:?}: {r:?}", s.name));
        return 1;
    }
    // borrowed view of the result reads the same
    let last = want.last().unwrap();
    match catch(|| (t.vt.read)(&last.units)) {
        Ok(Some((d, r))) if d == last.units && r == last.reads => {}
        x => ctx.violation(&format!("{}:view", s.name), &format!("{} after {h:?}: the message reads {:X?}, a view of its data {x:X?}", s.name, last)),
    }
    let need = want.iter().map(|w| w.units.len()).max().unwrap();
    let fixed = h.iter().all(|o| matches!(o, Op::Set(..)));
    let fs = forms::<U>(s, need, sizes, h.len() < 3);
    for f in &fs {
        let mut got: Vec<Seen<U>> = vec![];
        let r = catch(|| (t.with)(f, &mut |o| {
            got.push(see(o, true));
            for op in h {
                let ok = apply(o, op);
                got.push(see(o, ok));
            }
        }));
        let tell = || format!("{} {f:X?} {h:X?}", s.name);
        match r {
            Err(e) => ctx.violation(&format!("{}:{}:panic", s.name, f.label()), &format!("{}: panics: {e}; after {} steps", tell(), got.len())),
            Ok(Err(())) => ctx.violation(&format!("{}:{}:refused", s.name, f.label()), &format!("{}: constructor reports overflow although {need} units are there", tell())),
            Ok(Ok(after)) => {
                if got != want {
                    let k = (0..want.len()).find(|k| got.get(*k) != want.get(*k)).unwrap();
                    ctx.violation(&format!("{}:{}:differs", s.name, f.label()), &format!("{}: step {k}: {:X?}, in a new vector {:X?}", tell(), got[k], want[k]));
                }
                if let Some(a) = after {
                    let n = last.units.len();
                    if a.len() < n || a[..n] != last.units[..] {
                        ctx.violation(&format!("{}:{}:content", s.name, f.label()), &format!("{}: the buffer holds {a:X?}, the message is {:X?}", tell(), last.units));
                    } else if fixed && Some(&a[n..]) != empty_tail(f).as_deref() {
                        ctx.violation(&format!("{}:{}:behind", s.name, f.label()), &format!("{}: property writes changed what lies behind the message: {:X?}", tell(), &a[n..]));
                    }
                }
            }
        }
    }
    fs.len() as u64 + 1
}
fn ops_of(s: &Spec, few: bool) -> Vec<Op> {
    let mut v = vec![];
    for (i, f) in s.fields.iter().enumerate().filter(|f| f.1.access) {
        let c = (f.corners)();
        if few {
            // the default is where every history starts
            let mut c: Vec<u64> = c.into_iter().filter(|c| *c != f.def).collect();
            if c.len() > 2 {
                c = vec![c[c.len() / 2], c[c.len() - 1]];
            } else if c.len() == 1 {
                c.push(f.def);
            }
            v.extend(c.into_iter().map(|c| Op::Set(i, c)));
        } else {
            v.extend(c.into_iter().map(|c| Op::Set(i, c)));
        }
    }
    if let Some(t) = s.text {
        let cap = match t { TextKind::Flex => 12, TextKind::Stream(o) => 14 - o };
        let l = |n: usize, k: usize| -> String { (0..n).map(|i| (b'!' + ((i * 7 + k) % 90) as u8) as char).collect() };
        let mut ts = vec![String::new(), l(1, 3), l(cap, 5), l(cap + 1, 7), l(3 * cap + 2, 11)];
        if !few {
            ts.extend([l(cap - 1, 1), l(2 * cap, 2), l(5 * cap, 4), format!("{}\u{1F600}{}", l(cap - 2, 6), l(5, 9)), "\u{e9}".to_string()]);
        }
        v.extend(ts.into_iter().map(Op::Text));
    }
    v
}
fn part<U: Un>(ctx: &Arc<Ctx>, ts: &[T<U>], tag: &str, sizes: &(dyn Fn(&T<U>) -> Vec<usize> + Sync)) {
    // (type, alphabet, depth, first op)
    let mut jobs = vec![];
    for t in ts {
        let all = ops_of(t.vt.spec, false);
        let few = ops_of(t.vt.spec, true);
        let mut plans = vec![(all.clone(), 1), (all.clone(), 2)];
        let d = |n: usize, budget: u64| (1..=8u32).take_while(|d| (n as u64).pow(*d) <= budget).last().unwrap_or(1) as usize;
        if !few.is_empty() {
            plans.push((few.clone(), d(few.len(), ctx.pick(30_000, 600_000)).max(2)));
        }
        if ctx.thorough() && !all.is_empty() {
            plans.push((all.clone(), d(all.len(), 600_000).max(3)));
        }
        for (ops, depth) in plans {
            let ops = Arc::new(ops);
            for k in 0..ops.len() {
                jobs.push((t, ops.clone(), depth, k));
            }
            if ops.is_empty() && depth == 1 {
                jobs.push((t, ops.clone(), 0, 0));
            }
        }
    }
    ctx.par(tag, &jobs, |j| format!("{} depth {}", j.0.vt.spec.name, j.2), |(t, ops, depth, k)| {
        let sizes = sizes(t);
        // what is behind the message right after construction
        let cache: std::cell::RefCell<Vec<(Form<U>, Option<Vec<U>>)>> = Default::default();
        let tail = |f: &Form<U>| {
            if let Some(x) = cache.borrow().iter().find(|x| x.0 == *f) {
                return x.1.clone();
            }
            let mut n = 0;
            let r = catch(|| (t.with)(f, &mut |o| n = o.units().len())).ok().and_then(|r| r.ok()).flatten().map(|v| v[n..].to_vec());
            cache.borrow_mut().push((f.clone(), r.clone()));
            r
        };
        let mut n = 0u64;
        let mut runs = 0;
        let mut f = |h: &[Op]| {
            runs += history(ctx, t, h, &sizes, &tail);
            n += 1;
        };
        if *depth == 0 { f(&[]) } else { each_history(ops, *depth, *k, &mut f) }
        ctx.bulk(n * (*depth as u64 + 1), runs * *depth as u64, runs);
        ctx.outcome(&format!("histories of length {depth}"), n);
        ctx.sample(|| format!("{} {:?}.. depth {depth}: {n} histories, {runs} runs", t.vt.spec.name, ops.get(*k)));
    });
}

// ---- system exclusive messages ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum SForm {
    Bk(sx::Bk, usize, u32, usize),
    VecRef(u32, usize),
    ArrNew(usize),
    Arr(usize, u32),
    Slice(usize, u32),
}
macro_rules! sarr {
    ($w:ident, $m:ident $t:ident, $U:ty, $form:expr, $run:expr, [$($N:literal),*]) => {
        match $form {
            SForm::ArrNew(n) => match n { $( $N => $run(&mut sx::$w(midi2::$m::$t::<[$U; $N]>::new())), )* _ => panic!("harness: array size {n}") },
            SForm::Arr(n, f) => match n { $( $N => $run(&mut sx::$w(midi2::$m::$t::try_new_with_buffer([*f as $U; $N]).map_err(|_| ())?)), )* _ => panic!("harness: array size {n}") },
            _ => unreachable!(),
        }
    };
}
const SIZES: [usize; 12] = [2, 3, 4, 6, 8, 12, 16, 20, 24, 32, 48, 64];
fn swith(kind: sx::Kind, f: &SForm, run: &mut dyn FnMut(&mut dyn SxBase)) -> Result<(), ()> {
    use sx::Kind::*;
    match f {
        SForm::Bk(bk, cap, fill, pre) => run(&mut BoxSx(sx::fresh(kind, *bk, *cap, *fill, *pre)?)),
        SForm::VecRef(fill, n) => match kind {
            S7U => { let mut v = vec![*fill; *n]; run(&mut sx::G7u(midi2::sysex7::Sysex7::new_with_buffer(&mut v))) }
            S7B => { let mut v = vec![*fill as u8; *n]; run(&mut sx::G7b(midi2::sysex7::Sysex7::new_with_buffer(&mut v))) }
            S8 => { let mut v = vec![*fill; *n]; run(&mut sx::G8(midi2::sysex8::Sysex8::new_with_buffer(&mut v))) }
        },
        SForm::Slice(n, fill) => match kind {
            S7U => { let mut v = vec![*fill; *n]; run(&mut sx::F7u(midi2::sysex7::Sysex7::try_new_with_buffer(&mut v[..]).map_err(|_| ())?)) }
            S7B => { let mut v = vec![*fill as u8; *n]; run(&mut sx::F7b(midi2::sysex7::Sysex7::try_new_with_buffer(&mut v[..]).map_err(|_| ())?)) }
            S8 => { let mut v = vec![*fill; *n]; run(&mut sx::F8(midi2::sysex8::Sysex8::try_new_with_buffer(&mut v[..]).map_err(|_| ())?)) }
        },
        x => match kind {
            S7U => sarr!(F7u, sysex7 Sysex7, u32, x, run, [2, 3, 4, 6, 8, 12, 16, 20, 24, 32, 48, 64]),
            S7B => sarr!(F7b, sysex7 Sysex7, u8, x, run, [2, 3, 4, 6, 8, 12, 16, 20, 24, 32, 48, 64]),
            S8 => sarr!(F8, sysex8 Sysex8, u32, x, run, [4, 6, 8, 12, 16, 20, 24, 32, 48, 64]),
        },
    }
    Ok(())
}
struct BoxSx(Box<dyn sx::Sx>);
impl SxBase for BoxSx {
    fn data(&self) -> Vec<u32> { self.0.data() }
    fn payload(&self) -> Vec<u8> { self.0.payload() }
    fn size(&self) -> usize { self.0.size() }
    fn group(&self) -> u8 { self.0.group() }
    fn stream(&self) -> u8 { self.0.stream() }
    fn apply(&mut self, op: &sx::Op) -> Result<(), ()> { self.0.apply(op) }
}
type SSeen = (bool, Vec<u32>, Vec<u8>, usize, u8, u8);
fn ssee(o: &dyn SxBase, ok: bool) -> SSeen {
    (ok, o.data(), o.payload(), o.size(), o.group(), o.stream())
}
/// operations on a message of n bytes
fn sops(kind: sx::Kind, n: usize, many: bool) -> Vec<sx::Op> {
    use std::ops::Bound::*;
    use sx::Op::*;
    let per = if kind == sx::Kind::S7B { 5 } else { kind.per() };
    let b = |len: usize, k: usize| -> Vec<u8> { (0..len).map(|i| ((i * 5 + k * 17 + 1) % 127) as u8).collect() };
    let mut v = vec![Set(b(2 * per + 1, 1), Hint::None0), Set(vec![], Hint::Exact), Set(b(per, 2), Hint::Exact), Append(b(per + 1, 3), Hint::LoHalf), Insert(0, b(2, 4), Hint::Exact), AppendByte(0x55)];
    if kind.has_group() {
        v.push(Group(9));
    }
    if kind.has_stream() {
        v.push(Stream(0xC3));
    }
    if n > 0 {
        v.push(SetByte(n - 1, 0x2A));
        v.push(Splice((Included(0), Excluded(n.min(per))), b(1, 5), Hint::Exact));
        v.push(Splice((Included(n / 2), Unbounded), vec![], Hint::Exact));
    }
    if many {
        v.extend([Insert(n, b(per, 6), Hint::UpExact), Insert(n / 2, b(per - 1, 7), Hint::UpHuge), Set(b(3 * per, 8), Hint::LoExact), Append(vec![], Hint::Exact)]);
        if n > 1 {
            v.extend([SetByte(0, 0x7F), Splice((Excluded(0), Included(n - 1)), b(per, 9), Hint::None0)]);
        }
    }
    v
}
fn shistories(kind: sx::Kind, depth: usize, many: bool) -> Vec<Vec<sx::Op>> {
    let mut out = vec![];
    fn go(m: &sx::Model, depth: usize, many: bool, h: &mut Vec<sx::Op>, out: &mut Vec<Vec<sx::Op>>) {
        if h.len() == depth {
            out.push(h.clone());
            return;
        }
        for op in sops(m.kind, m.payload.len(), many) {
            let mut m2 = m.clone();
            assert_eq!(m2.apply(&op, None), sx::Exp::Ok);
            h.push(op);
            go(&m2, depth, many, h, out);
            h.pop();
        }
    }
    go(&sx::Model { kind, payload: vec![], group: 0, stream: 0, raw: None }, depth, many, &mut vec![], &mut out);
    out
}
fn shistory(ctx: &Ctx, kind: sx::Kind, h: &[sx::Op]) -> u64 {
    use sx::Bk;
    let mut want: Vec<SSeen> = vec![];
    let run = |f: &SForm, out: &mut Vec<SSeen>| {
        catch(|| swith(kind, f, &mut |o| {
            out.push(ssee(o, true));
            for op in h {
                let ok = o.apply(op).is_ok();
                out.push(ssee(o, ok));
            }
        }))
    };
    let r = run(&SForm::Bk(Bk::Vec, 0, 0, 0), &mut want);
    if r != Ok(Ok(())) {
        ctx.violation(&format!("sysex {kind:?}:vec"), &format!("{kind:?} new vector {h:X?}: {r:?}"));
        return 1;
    }
    let last = want.last().unwrap().clone();
    // borrowed view
    let v = catch(|| match kind {
        sx::Kind::S7B => { let b: Vec<u8> = last.1.iter().map(|x| *x as u8).collect(); let m = midi2::sysex7::Sysex7::try_from(&b[..]).ok()?; Some((m.payload().map(u8::from).collect::<Vec<_>>(), m.payload_size())) }
        sx::Kind::S7U => { let m = midi2::sysex7::Sysex7::try_from(&last.1[..]).ok()?; Some((m.payload().map(u8::from).collect(), m.payload_size())) }
        sx::Kind::S8 => { let m = midi2::sysex8::Sysex8::try_from(&last.1[..]).ok()?; Some((m.payload().collect(), m.payload_size())) }
    });
    if v != Ok(Some((last.2.clone(), last.3))) {
        ctx.violation(&format!("sysex {kind:?}:view"), &format!("{kind:?} {h:X?}: message {last:X?}, view of its data {v:X?}"));
    }
    let need = want.iter().map(|w| w.1.len()).max().unwrap();
    let mut fs = vec![
        SForm::Bk(Bk::Vec, 0, 0xFFFF_FFFF, need + 3), SForm::Bk(Bk::GrowDirty, 0, 0xA5A5_A5A5, 1), SForm::Bk(Bk::GrowSticky, 0, 0xFFFF_FFFF, need + 2), SForm::Bk(Bk::GrowSticky, 0, 0x3333_3333, 0),
        SForm::Bk(Bk::Fix, need, 0xFFFF_FFFF, 0), SForm::Bk(Bk::Fix, need + 5, 0x5757_5757, 0), SForm::Bk(Bk::Bound, need, 0xFFFF_FFFF, 0), SForm::Bk(Bk::Bound, need + 4, 0x3636_3636, need),
        SForm::VecRef(0xFFFF_FFFF, 0), SForm::VecRef(0x3333_3333, need + 4), SForm::Slice(need, 0xFFFF_FFFF), SForm::Slice(need + 3, 0x5555_5555),
    ];
    for n in SIZES.iter().filter(|n| **n >= need).take(2) {
        fs.extend([SForm::ArrNew(*n), SForm::Arr(*n, 0xF7F7_F7F7)]);
    }
    for f in &fs {
        let mut got = vec![];
        let r = run(f, &mut got);
        if r != Ok(Ok(())) || got != want {
            let k = (0..want.len()).find(|k| got.get(*k) != want.get(*k));
            ctx.violation(&format!("sysex {kind:?}:{f:?}"), &format!("{kind:?} {f:X?} {h:X?}: {r:?}, step {k:?}: {:X?}, in a new vector {:X?}", k.and_then(|k| got.get(k)), k.map(|k| &want[k])));
        }
    }
    fs.len() as u64 + 1
}
fn sysex(ctx: &Arc<Ctx>) {
    let mut jobs = vec![];
    for kind in sx::KINDS {
        let mut plans = vec![(1, true), (2, true), (3, true), (4, false)];
        if ctx.thorough() {
            plans.extend([(4, true), (5, false)]);
        }
        for (d, many) in plans {
            let all = shistories(kind, d, many);
            for c in all.chunks(400) {
                jobs.push((kind, d, c.to_vec()));
            }
        }
    }
    ctx.par("system exclusive histories on every buffer form", &jobs, |j| format!("{:?} depth {}", j.0, j.1), |(kind, d, hs)| {
        let mut runs = 0;
        for h in hs {
            runs += shistory(ctx, *kind, h);
        }
        ctx.bulk((hs.len() * (d + 1)) as u64, runs * *d as u64, runs);
        ctx.outcome(&format!("sysex histories of length {d}"), hs.len() as u64);
        ctx.sample(|| format!("{kind:?} {:X?}", hs[0]));
    });
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&prop);
    match prop.as_str() {
        "C18" => {
            let u: Vec<T<u32>> = each_ump!(umps);
            let b: Vec<T<u8>> = each_bytes!(bytes);
            let t: Vec<T<u32>> = each_text!(texts);
            let szs = |m: usize| -> Vec<usize> { if m == 4 { vec![4, 5, 8] } else { vec![m, m + 1, 8] } };
            let (plain, _): (Vec<T<u32>>, Vec<T<u32>>) = u.into_iter().partition(|t| t.vt.spec.text.is_none());
            part(&ctx, &plain, "fixed size UMP messages on every buffer form", &|t| szs(t.vt.spec.units));
            part(&ctx, &b, "MIDI 1 byte messages on every buffer form", &|t| szs(t.vt.spec.units));
            part(&ctx, &t, "text messages on every buffer form", &|_| vec![4, 5, 8, 9, 12, 13, 16, 24]);
            sysex(&ctx);
        }
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(4);
        }
    }
    ctx.finish()
}
