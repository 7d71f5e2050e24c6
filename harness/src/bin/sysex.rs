//! C01 / C02 / C03: exhaustive exploration of SysEx payload edit histories.
use mc::hints::*;
use mc::sx::*;
use mc::*;
use std::ops::Bound::*;
use std::sync::Arc;

#[derive(Clone)]
struct Start {
    kind: Kind,
    bk: Bk,
    cap: usize,
    fill: u32,
    pre: usize,
    /// None: constructor; Some(units): parsed
    units: Option<Vec<u32>>,
    model: Model,
}

impl Start {
    fn desc(&self) -> String {
        format!(
            "{:?} {:?} cap={} fill={:X} start={}",
            self.kind,
            self.bk,
            self.cap,
            self.fill,
            match &self.units {
                None => format!("constructed(pre={})", self.pre),
                Some(u) => format!("parsed{}", hex32(u)),
            }
        )
    }
    fn make(&self) -> Result<Box<dyn Sx>, String> {
        match &self.units {
            None => fresh(self.kind, self.bk, self.cap, self.fill, self.pre).map_err(|_| "constructor reported BufferOverflow".into()),
            Some(u) => parsed(self.kind, self.bk, self.cap, self.fill, u),
        }
    }
    fn cap(&self) -> Option<usize> {
        matches!(self.bk, Bk::Fix | Bk::Bound).then_some(self.cap)
    }
}

fn bytes(kind: Kind, n: usize, salt: usize) -> Vec<u8> {
    (0..n)
        .map(|i| {
            let v = (i * 5 + 1 + salt * 37) as u8;
            if kind == Kind::S8 {
                // covers values >= 0x80, 0xF0, 0xF7
                match (i + salt) % 7 {
                    0 => 0xF7,
                    1 => 0x80 | v,
                    _ => v,
                }
            } else {
                v & 0x7F
            }
        })
        .collect()
}

struct X<'a> {
    ctx: &'a Arc<Ctx>,
    c01: bool,
    c02: bool,
    c03: bool,
}

impl X<'_> {
    fn bad(&self, prop: u8, key: &str, start: &Start, path: &[Op], msg: &str) {
        let on = match prop {
            1 => self.c01,
            2 => self.c02,
            _ => self.c03,
        };
        if on {
            self.ctx.violation(&format!("{:?}:{key}", start.kind), &format!("{} ops={:?}: {msg}", start.desc(), path));
        }
    }
    fn make(&self, st: &Start) -> Option<Box<dyn Sx>> {
        match catch(|| st.make()) {
            Ok(Ok(m)) => self.compare(&*m, &st.model, st, &[], "start", false).then_some(m),
            Ok(Err(e)) | Err(e) => {
                self.bad(2, "start", st, &[], &format!("could not obtain the start message: {e}"));
                self.bad(1, "start", st, &[], &format!("could not obtain the start message: {e}"));
                self.bad(3, "start", st, &[], &format!("could not obtain the start message: {e}"));
                None
            }
        }
    }
    /// observe the whole message and compare with the model; true = agrees
    fn compare(&self, m: &dyn Sx, md: &Model, st: &Start, path: &[Op], what: &str, overflowed: bool) -> bool {
        let fallible = st.cap().is_some();
        let p = if overflowed { 3 } else { 1 };
        let mut ok = true;
        match catch(|| (m.payload(), m.size(), m.group(), m.stream())) {
            Err(e) => {
                self.bad(p, &format!("{what}-read-panic"), st, path, &e);
                self.bad(2, &format!("{what}-read-panic"), st, path, &e);
                if fallible {
                    self.bad(3, &format!("{what}-read-panic"), st, path, &e);
                }
                return false;
            }
            Ok((pl, sz, g, s)) => {
                let mut cmp = |key: &str, bad: bool, msg: String| {
                    if bad {
                        ok = false;
                        self.bad(p, &format!("{what}-{key}"), st, path, &msg);
                        if fallible && p != 3 {
                            self.bad(3, &format!("{what}-{key}"), st, path, &msg);
                        }
                    }
                };
                cmp("payload", pl != md.payload, format!("payload {} expected {}", hex8(&pl), hex8(&md.payload)));
                cmp("size", sz != md.payload.len(), format!("payload_size {sz} expected {}", md.payload.len()));
                cmp("group", g != md.group, format!("group {g} expected {}", md.group));
                cmp("stream", s != md.stream, format!("stream id {s} expected {}", md.stream));
            }
        }
        let want = md.data();
        match catch(|| m.data()) {
            Err(e) => {
                self.bad(2, &format!("{what}-data-panic"), st, path, &e);
                ok = false;
            }
            Ok(d) => {
                self.ctx.state(h64(&(st.kind, st.bk, st.cap, &d)));
                if d != want {
                    ok = false;
                    let msg = format!("data {} expected {}", hex32(&d), hex32(&want));
                    self.bad(2, &format!("{what}-data"), st, path, &msg);
                    if fallible {
                        self.bad(3, &format!("{what}-data"), st, path, &msg);
                    }
                } else if self.c02 {
                    // parse data() again
                    let r = catch(|| {
                        let m = parsed(st.kind, Bk::Vec, 0, 0, &d)?;
                        Ok::<_, String>((m.payload(), m.group(), m.stream(), m.data()))
                    });
                    let want = (md.payload.clone(), md.group, md.stream, want);
                    match r {
                        Ok(Ok(x)) if x == want => {}
                        other => {
                            ok = false;
                            self.bad(2, &format!("{what}-reparse"), st, path, &format!("data {} reparses as {other:?}", hex32(&d)));
                        }
                    }
                }
            }
        }
        ok
    }
    /// one transition. None = path ends (expected panic, or disagreement)
    fn step(&self, m: &mut Box<dyn Sx>, md: &mut Model, st: &Start, path: &[Op]) -> Option<Exp> {
        let op = path.last().unwrap();
        let exp = md.apply(op, st.cap());
        self.ctx.bulk(0, 1, 1);
        let name = match op {
            Op::Set(..) => "set",
            Op::Insert(..) => "insert",
            Op::Append(..) => "append",
            Op::Splice(..) => "splice",
            Op::SetByte(..) => "set_byte",
            Op::AppendByte(..) => "append_byte",
            Op::Group(..) => "set_group",
            Op::Stream(..) => "set_stream_id",
        };
        let got = catch(|| m.apply(op));
        let fallible = st.cap().is_some();
        match (exp, got) {
            (Exp::Panic, Err(_)) => return None,
            (Exp::Panic, Ok(r)) => {
                self.bad(1, &format!("{name}-past-end-accepted"), st, path, &format!("index past the end must panic; call returned {r:?}"));
                return None;
            }
            (_, Err(e)) => {
                self.bad(if exp == Exp::Overflow { 3 } else { 1 }, &format!("{name}-panic"), st, path, &e);
                self.bad(2, &format!("{name}-panic"), st, path, &e);
                if fallible && exp != Exp::Overflow {
                    self.bad(3, &format!("{name}-panic"), st, path, &e);
                }
                return None;
            }
            (Exp::Ok, Ok(Err(()))) => {
                self.bad(3, &format!("{name}-spurious-overflow"), st, path, &format!("result needs {} units of {}", md.data().len(), st.cap));
                if st.cap().is_none() {
                    self.bad(1, &format!("{name}-spurious-overflow"), st, path, "");
                }
                return None;
            }
            (Exp::Overflow, Ok(Ok(()))) => {
                self.bad(3, &format!("{name}-missed-overflow"), st, path, "edit that cannot fit returned Ok");
                return None;
            }
            _ => {}
        }
        self.compare(&**m, md, st, path, name, exp == Exp::Overflow).then_some(exp)
    }
    fn try1(&self, base: &dyn Sx, md: &Model, st: &Start, op: Op) {
        let mut m = base.dup();
        let mut md = md.clone();
        self.step(&mut m, &mut md, st, &[op]);
    }
    fn dfs(&self, m: &dyn Sx, md: &Model, st: &Start, path: &mut Vec<Op>, alphabet: &dyn Fn(usize) -> Vec<Op>, depth: usize) {
        if depth == 0 || self.ctx.violated() {
            return;
        }
        for op in alphabet(md.payload.len()) {
            let mut m2 = m.dup();
            let mut md2 = md.clone();
            path.push(op);
            if self.step(&mut m2, &mut md2, st, path).is_some() {
                self.dfs(&*m2, &md2, st, path, alphabet, depth - 1);
            }
            path.pop();
        }
    }
}

fn out_of_range(n: usize, k: Kind) -> Vec<Op> {
    let d = || bytes(k, 2, 9);
    let mut v = vec![];
    for i in [n + 1, n + 2, n + 6, n + 13, usize::MAX] {
        v.push(Op::Insert(i, d(), Hint::Exact));
        v.push(Op::Insert(i, vec![], Hint::Exact));
    }
    for i in [n, n + 1, n + 2, n + 5, n + 6, n + 13, usize::MAX, usize::MAX - 1] {
        v.push(Op::SetByte(i, 1));
    }
    v.push(Op::Splice((Included(0), Excluded(n + 1)), d(), Hint::Exact));
    v.push(Op::Splice((Included(0), Included(n)), d(), Hint::Exact));
    v.push(Op::Splice((Included(0), Included(n)), bytes(k, n + 1, 3), Hint::Exact));
    v.push(Op::Splice((Included(n), Excluded(n + 2)), vec![], Hint::Exact));
    v.push(Op::Splice((Included(n + 1), Unbounded), d(), Hint::Exact));
    v.push(Op::Splice((Excluded(n), Unbounded), d(), Hint::Exact));
    v.push(Op::Splice((Included(n + 1), Excluded(n + 1)), vec![], Hint::Exact));
    v.push(Op::Splice((Unbounded, Excluded(n + 13)), d(), Hint::None0));
    v.push(Op::Splice((Unbounded, Included(usize::MAX)), d(), Hint::Exact));
    v.push(Op::Splice((Excluded(usize::MAX), Unbounded), d(), Hint::Exact));
    if n >= 2 {
        v.push(Op::Splice((Included(2), Excluded(1)), d(), Hint::Exact));
        v.push(Op::Splice((Included(n), Excluded(0)), d(), Hint::Exact));
        v.push(Op::Splice((Excluded(1), Excluded(1)), d(), Hint::Exact));
    }
    v
}

/// every range over a payload of n bytes in every RangeBounds form
fn all_forms(n: usize) -> Vec<Rg> {
    let mut v: Vec<Rg> = vec![(Unbounded, Unbounded)];
    for a in 0..=n {
        v.push((Included(a), Unbounded));
        v.push((Unbounded, Excluded(a)));
        if a < n {
            v.push((Unbounded, Included(a)));
            v.push((Excluded(a), Unbounded));
        }
        for b in a..=n {
            v.push((Included(a), Excluded(b)));
            if b < n {
                v.push((Included(a), Included(b)));
            }
            if a < b {
                v.push((Excluded(a), Excluded(b)));
                if b < n {
                    v.push((Excluded(a), Included(b)));
                }
            }
        }
    }
    v
}

fn canonical_start(kind: Kind, bk: Bk, n: usize, trail: usize, extra_cap: usize, fill: u32) -> Start {
    let (g, s) = (0x9, 0xA5);
    let pl = bytes(kind, n, 0);
    let g = if kind.has_group() { g } else { 0 };
    let s = if kind.has_stream() { s } else { 0 };
    let mut units = kind.encode(g, s, &pl);
    let m = Model { kind, payload: pl, group: g, stream: s, raw: Some(units.clone()) };
    units.extend(kind.trailing(trail));
    Start { kind, bk, cap: units.len() + extra_cap, fill, pre: 0, units: Some(units), model: m }
}
fn packet_start(kind: Kind, bk: Bk, sizes: &[usize], trail: usize, extra_cap: usize, fill: u32) -> Start {
    let n: usize = sizes.iter().sum();
    let pl = bytes(kind, n, 1);
    let s = if kind.has_stream() { 0x3C } else { 0 };
    let mut units = kind.encode_sizes(0x6, s, &pl, sizes);
    let m = Model { kind, payload: pl, group: 0x6, stream: s, raw: Some(units.clone()) };
    units.extend(kind.trailing(trail));
    Start { kind, bk, cap: units.len() + extra_cap, fill, pre: 0, units: Some(units), model: m }
}
fn fresh_start(kind: Kind, bk: Bk, cap: usize, pre: usize, fill: u32) -> Start {
    Start { kind, bk, cap, fill, pre, units: None, model: Model { kind, payload: vec![], group: 0, stream: 0, raw: None } }
}

/// stale content that looks like packets of the same kind
fn fills(kind: Kind) -> [u32; 3] {
    match kind {
        Kind::S7U => [0, 0xFFFF_FFFF, 0x3336_3333],
        Kind::S8 => [0, 0xFFFF_FFFF, 0x5535_5555],
        Kind::S7B => [0, 0xFF, 0xF7],
    }
}

fn sizes_list(kind: Kind, ctx: &Ctx) -> Vec<usize> {
    match kind {
        Kind::S7U | Kind::S7B => (0..=ctx.pick(20, 26)).collect(),
        Kind::S8 => {
            if ctx.thorough() {
                (0..=42).collect()
            } else {
                vec![0, 1, 2, 3, 5, 9, 12, 13, 14, 15, 25, 26, 27, 28, 39, 40]
            }
        }
    }
}

/// edit1: every single edit from every canonical start
fn edit1(x: &X, st: &Start) {
    let ctx = x.ctx;
    let Some(base) = x.make(st) else { return };
    let k = st.kind;
    let md = &st.model;
    let n = md.payload.len();
    let ks: Vec<usize> = match k {
        Kind::S7U => (0..=14).collect(),
        Kind::S7B => vec![0, 1, 2, 3, 7],
        Kind::S8 => {
            if ctx.thorough() {
                (0..=28).collect()
            } else {
                vec![0, 1, 2, 3, 6, 12, 13, 14, 15, 26, 27]
            }
        }
    };
    let lookhints: &[Hint] = &HINTS;
    for &kk in &ks {
        let d = bytes(k, kk, 4);
        for a in 0..=n {
            for b in a..=n {
                // all hints for the interesting shapes, three otherwise
                let near = |v: usize| v <= 1 || v == n || v % k.per() <= 1;
                let hs = if ctx.thorough() || (near(a) && near(b)) { lookhints } else { &lookhints[..3] };
                for &h in hs {
                    x.try1(&*base, md, st, Op::Splice((Included(a), Excluded(b)), d.clone(), h));
                }
            }
            for &h in lookhints {
                x.try1(&*base, md, st, Op::Insert(a, d.clone(), h));
            }
        }
        for &h in lookhints {
            x.try1(&*base, md, st, Op::Set(d.clone(), h));
            x.try1(&*base, md, st, Op::Append(d.clone(), h));
        }
    }
    small_ops(x, &*base, st, n);
    if n <= ctx.pick(7, 14) {
        for r in all_forms(n) {
            for kk in [0, 1, 2, 7] {
                x.try1(&*base, md, st, Op::Splice(r, bytes(k, kk, 4), Hint::Exact));
                x.try1(&*base, md, st, Op::Splice(r, bytes(k, kk, 4), Hint::None0));
            }
        }
    }
}
fn small_ops(x: &X, base: &dyn Sx, st: &Start, n: usize) {
    let md = &st.model;
    for i in 0..n {
        for b in [0, 0x7F, if st.kind == Kind::S8 { 0xFF } else { 0x55 }] {
            x.try1(base, md, st, Op::SetByte(i, b));
        }
    }
    for b in [0, 0x41, if st.kind == Kind::S8 { 0xF7 } else { 0x7F }] {
        x.try1(base, md, st, Op::AppendByte(b));
    }
    for g in 0..16 {
        x.try1(base, md, st, Op::Group(g));
    }
    for s in [0, 1, 0x7F, 0x80, 0xFF] {
        x.try1(base, md, st, Op::Stream(s));
    }
    for op in out_of_range(n, st.kind) {
        x.try1(base, md, st, op);
    }
}
/// edits from a message parsed with an arbitrary packetisation
fn edit_noncanonical(x: &X, st: &Start) {
    let Some(base) = x.make(st) else { return };
    let k = st.kind;
    let md = &st.model;
    let n = md.payload.len();
    let per = k.per();
    let mut at: Vec<usize> = vec![0, 1, 2, per - 1, per, per + 1, n.saturating_sub(1), n / 2, n];
    at.retain(|v| *v <= n);
    at.sort();
    at.dedup();
    for &a in &at {
        for &b in at.iter().filter(|b| **b >= a) {
            for kk in [0, 1, 3, per, per + 1] {
                for h in [Hint::Exact, Hint::None0] {
                    x.try1(&*base, md, st, Op::Splice((Included(a), Excluded(b)), bytes(k, kk, 4), h));
                }
            }
        }
    }
    x.try1(&*base, md, st, Op::Set(bytes(k, 3, 4), Hint::Exact));
    x.try1(&*base, md, st, Op::Append(bytes(k, per * 2 + 1, 4), Hint::UpHuge));
    small_ops(x, &*base, st, n);
}
fn alphabet(kind: Kind, n: usize, deep: bool) -> Vec<Op> {
    let p = kind.per();
    let mut v = vec![
        Op::Set(vec![], Hint::Exact),
        Op::Set(bytes(kind, 1, 1), Hint::None0),
        Op::Set(bytes(kind, p, 2), Hint::Exact),
        Op::Set(bytes(kind, 2 * p + 1, 3), Hint::LoHalf),
        Op::Append(bytes(kind, p, 5), Hint::None0),
        Op::Append(bytes(kind, 2, 6), Hint::UpLoose),
        Op::AppendByte(0x33),
        Op::Splice((Unbounded, Unbounded), bytes(kind, 3, 7), Hint::Exact),
        Op::Splice((Included(n / 2), Unbounded), vec![], Hint::Exact),
        Op::Splice((Unbounded, Excluded(n / 2)), vec![], Hint::Exact),
        Op::Splice((Included(n / 3), Excluded(2 * n / 3)), bytes(kind, p + 1, 8), Hint::UpHuge),
        Op::Insert(0, bytes(kind, 1, 9), Hint::Exact),
        Op::Insert(n / 2, bytes(kind, p - 1, 10), Hint::UpExact),
        Op::Group(0xC),
        Op::Stream(0x81),
    ];
    if n > 0 {
        v.push(Op::SetByte(n - 1, 0x2A));
        v.push(Op::Splice((Included(n - 1), Excluded(n)), vec![], Hint::Exact));
    }
    if deep {
        v.push(Op::Set(bytes(kind, p + 1, 11), Hint::UpLoose));
        v.push(Op::Insert(n, bytes(kind, 2 * p, 12), Hint::LoHalfUpHuge));
        if n > p {
            v.push(Op::SetByte(p, 0x11));
            v.push(Op::Splice((Included(p - 1), Included(p)), bytes(kind, 1, 13), Hint::Exact));
        }
    }
    v
}

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let ctx = Ctx::new(&prop);
    ctx.note("SysEx payload bytes are explored as position-tagged values plus a full per-byte value sweep; packet layouts to 4 packets; edit histories to the stated depth");
    let x = X { ctx: &ctx, c01: prop == "C01", c02: prop == "C02", c03: prop == "C03" };
    if prop == "C01" || prop == "C02" {
        infallible(&ctx, &x);
    }
    fallible(&ctx, &x);
    if prop == "C03" {
        endless(&ctx);
    }
    ctx.finish()
}

fn infallible(ctx: &Arc<Ctx>, x: &X) {
    // --- single edits from every canonical message
    let mut jobs = vec![];
    for kind in KINDS {
        for n in sizes_list(kind, ctx) {
            for (bk, fill) in [(Bk::Vec, 0), (Bk::GrowDirty, fills(kind)[2]), (Bk::GrowSticky, fills(kind)[1])] {
                let trails: &[usize] = if bk == Bk::Vec { &[0] } else if ctx.thorough() { &[0, 1, 2, 3] } else { &[n % 4] };
                for &t in trails {
                    jobs.push(canonical_start(kind, bk, n, t, 0, fill));
                }
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.model.payload.len()));
    ctx.par("single edits, canonical starts", &jobs, |j| j.desc(), |j| edit1(x, j));
    // --- single edits from every packetisation
    let mut jobs = vec![];
    for kind in [Kind::S7U, Kind::S8] {
        let one: Vec<usize> = (0..=kind.per()).collect();
        let few: Vec<usize> = if kind == Kind::S7U { vec![0, 1, 2, 3, 4, 5, 6] } else { vec![0, 1, 5, 12, 13] };
        let mut lists: Vec<Vec<usize>> = one.iter().map(|a| vec![*a]).collect();
        for a in &one {
            for b in &one {
                lists.push(vec![*a, *b]);
            }
        }
        for a in &few {
            for b in &few {
                for c in &few {
                    lists.push(vec![*a, *b, *c]);
                    if ctx.thorough() {
                        for d in &few {
                            lists.push(vec![*a, *b, *c, *d]);
                        }
                    }
                }
            }
        }
        if !ctx.thorough() {
            for m in 0..81 {
                let f = [0, 2, kind.per()];
                lists.push(vec![f[m / 27], f[m / 9 % 3], f[m / 3 % 3], f[m % 3]]);
            }
        }
        for (i, l) in lists.iter().enumerate() {
            jobs.push(packet_start(kind, Bk::Vec, l, i % 4, 0, 0));
            jobs.push(packet_start(kind, Bk::GrowSticky, l, (i + 1) % 4, 0, fills(kind)[1 + i % 2]));
        }
    }
    ctx.par("single edits, every packetisation", &jobs, |j| j.desc(), |j| edit_noncanonical(x, j));
    ctx.sample(|| jobs[jobs.len() / 2].desc());
    // --- histories
    let mut jobs = vec![];
    for kind in KINDS {
        for (bk, fill) in [(Bk::Vec, 0), (Bk::GrowDirty, fills(kind)[1]), (Bk::GrowSticky, fills(kind)[2])] {
            jobs.push(fresh_start(kind, bk, 0, 0, fill));
            jobs.push(fresh_start(kind, bk, 0, 23, fill.max(0x1234_5678)));
            jobs.push(canonical_start(kind, bk, kind.per() * 2 + 3, 1, 0, fill));
            if kind != Kind::S7B {
                jobs.push(packet_start(kind, bk, &[2, 0, 5], 2, 0, fill));
                jobs.push(packet_start(kind, bk, &[kind.per(), 1], 0, 0, fill));
                jobs.push(packet_start(kind, bk, &[kind.per(), kind.per() - 1, kind.per(), 0], 3, 0, fill));
            }
        }
    }
    let depth = ctx.pick(4, 5);
    // split on the first operation for parallelism
    let jobs: Vec<(Start, usize)> = jobs.iter().flat_map(|s| (0..alphabet(s.kind, s.model.payload.len(), true).len()).map(|i| (s.clone(), i))).collect();
    ctx.sample(|| format!("history depth {depth} from {} with alphabet {:?}", jobs[0].0.desc(), alphabet(Kind::S7U, 8, true)));
    ctx.par("edit histories", &jobs, |(j, i)| format!("{} first op #{i}", j.desc()), |(st, i)| {
        let Some(base) = x.make(st) else { return };
        let op = alphabet(st.kind, st.model.payload.len(), true)[*i].clone();
        let mut m = base.dup();
        let mut md = st.model.clone();
        let mut path = vec![op];
        if x.step(&mut m, &mut md, st, &path).is_some() {
            let kind = st.kind;
            x.dfs(&*m, &md, st, &mut path, &move |n| alphabet(kind, n, true), depth - 1);
        }
    });
    // --- every byte value at every position of a packet
    let jobs: Vec<Kind> = KINDS.to_vec();
    ctx.par("byte values", &jobs, |k| format!("{k:?}"), |&kind| {
        let top = if kind == Kind::S8 { 255u8 } else { 127 };
        for n in 1..=kind.per() + 2 {
            let st = canonical_start(kind, Bk::Vec, n, 0, 0, 0);
            let Some(base) = x.make(&st) else { return };
            for v in 0..=top {
                x.try1(&*base, &st.model, &st, Op::AppendByte(v));
                x.try1(&*base, &st.model, &st, Op::Set(vec![v; n], Hint::Exact));
                x.try1(&*base, &st.model, &st, Op::SetByte(n - 1, v));
            }
        }
    });
    header_values(ctx, x, false);
    borrowed(ctx, x, false);
    long(ctx, x, false);
}

/// every group and every stream id, on messages of one to three packets, with every kind of edit after (and overflowing)
fn header_values(ctx: &Arc<Ctx>, x: &X, fallible: bool) {
    let mut jobs = vec![];
    for kind in [Kind::S7U, Kind::S8] {
        let per = kind.per();
        for n in [0, per - 1, per, per + 1, 2 * per + 2] {
            for v in 0..if kind == Kind::S8 { 256usize } else { 16 } {
                let gs: Vec<u8> = if kind == Kind::S8 && !ctx.thorough() && v % 16 != n % 16 { vec![v as u8 & 15] } else { (0..16).collect() };
                jobs.push((kind, n, v as u8, gs));
            }
        }
    }
    ctx.par(if fallible { "header values, bounded" } else { "header values" }, &jobs, |j| format!("{j:?}"), |(kind, n, v, gs)| {
        let (kind, n, v) = (*kind, *n, *v);
        let st = if fallible { canonical_start(kind, Bk::Fix, n, 0, v as usize % 3, fills(kind)[1]) } else { canonical_start(kind, Bk::Vec, n, v as usize % 3, 0, 0) };
        let Some(base) = x.make(&st) else { return };
        for &g in gs {
            let (mut m, mut md) = (base.dup(), st.model.clone());
            let mut path = vec![];
            for op in [Op::Group(if kind == Kind::S8 { g } else { v }), Op::Stream(v)].into_iter().take(if kind == Kind::S8 { 2 } else { 1 }) {
                path.push(op);
                if x.step(&mut m, &mut md, &st, &path).is_none() { return; }
            }
            for op in alphabet(kind, n, true) {
                let (mut m2, mut md2) = (m.dup(), md.clone());
                path.push(op);
                if x.step(&mut m2, &mut md2, &st, &path).is_some() {
                    path.push(Op::Append(bytes(kind, 2, 1), Hint::Exact));
                    x.step(&mut m2, &mut md2, &st, &path);
                    path.pop();
                }
                path.pop();
            }
        }
    });
}

/// long messages: around the limits of narrow counters of bytes and of packets
fn long(ctx: &Arc<Ctx>, x: &X, fallible: bool) {
    let mut jobs: Vec<Start> = vec![];
    let huge = ctx.thorough() || matches!((ctx.prop.as_str(), fallible), ("C01" | "C02", false) | ("C03", _));
    for kind in KINDS {
        let mut lens = mc::long::bytes(ctx, huge);
        if ctx.thorough() && !fallible {
            lens.extend([131_073, 200_000]);
        }
        for (i, &n) in lens.iter().enumerate() {
            if fallible {
                for (bk, extra) in [(Bk::Fix, 0), (Bk::Bound, 1), (Bk::Fix, kind.words()), (Bk::Bound, 300)] {
                    if n < 5000 || (extra == 0) == (i % 2 == 0) {
                        jobs.push(canonical_start(kind, bk, n, 0, extra, fills(kind)[1 + i % 2]));
                    }
                }
            } else {
                jobs.push(canonical_start(kind, Bk::Vec, n, i % 4, 0, 0));
                if n < 5000 {
                    jobs.push(canonical_start(kind, if i % 2 == 0 { Bk::GrowDirty } else { Bk::GrowSticky }, n, 3 - i % 4, 0, fills(kind)[1 + i % 2]));
                    let mut f = fresh_start(kind, [Bk::Vec, Bk::GrowSticky, Bk::VecRef][i % 3], 0, 0, fills(kind)[2]);
                    f.pre = n; // set through the first operation
                    jobs.push(f);
                }
            }
        }
        if kind == Kind::S7B {
            continue;
        }
        for (i, p) in mc::long::packets(ctx, huge && !fallible).into_iter().enumerate() {
            let per = kind.per();
            for (j, pat) in [[2, 2], [per, per - 1], [0, 1], [1, per]].into_iter().enumerate() {
                if p > 5000 && j != i % 4 || !ctx.thorough() && (i + j) % 2 == 1 {
                    continue;
                }
                let sizes: Vec<usize> = (0..p).map(|q| pat[q % 2]).collect();
                if fallible {
                    jobs.push(packet_start(kind, [Bk::Fix, Bk::Bound][j % 2], &sizes, 0, i % 3 * kind.words(), fills(kind)[1]));
                } else {
                    jobs.push(packet_start(kind, [Bk::Vec, Bk::GrowSticky][j % 2], &sizes, j, 0, fills(kind)[2]));
                    // one short packet far into the message, all the others full
                    let mut sizes = vec![per; p];
                    sizes[[0, 128.min(p - 2), p - 2, 255.min(p - 2)][j]] = [per - 1, 0, 1, 2][j];
                    jobs.push(packet_start(kind, Bk::Vec, &sizes, 0, 0, 0));
                }
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.model.payload.len() + j.pre));
    ctx.par(if fallible { "long payloads, bounded" } else { "long payloads" }, &jobs, |st| format!("{:?} {:?} {} bytes, {} units", st.kind, st.bk, st.model.payload.len() + st.pre, st.cap), |st| {
        let kind = st.kind;
        let mut st = st.clone();
        let set = (st.units.is_none()).then(|| Op::Set(bytes(kind, st.pre, 2), Hint::None0));
        if st.units.is_none() { st.pre = 0; }
        let st = &st;
        let Some(mut base) = x.make(st) else { return };
        let mut md = st.model.clone();
        let mut path = vec![];
        if let Some(set) = set {
            path.push(set);
            if x.step(&mut base, &mut md, st, &path).is_none() { return; }
        }
        let n = md.payload.len();
        let per = kind.per();
        let big = n > 20_000;
        let h = HINTS[(n + per) % HINTS.len()];
        let mut ops = vec![Op::AppendByte(0x44), Op::Append(bytes(kind, per + 1, 8), h), Op::SetByte(n, 1)];
        if kind.has_group() { ops.push(Op::Group(3)); }
        if kind.has_stream() { ops.push(Op::Stream(0x77)); }
        let mut at: Vec<usize> = if big { vec![1, n / 2, n - 1] } else { [254usize, 255, 256, 257].iter().map(|k| k * per).chain(mc::long::spots(n + 1)).filter(|a| *a <= n).collect() };
        at.sort();
        at.dedup();
        for a in at {
            if a < n { ops.push(Op::SetByte(a, 0x2B)); }
            ops.push(Op::Insert(a, bytes(kind, 1, 3), h));
            if a < n {
                ops.push(Op::Splice((Included(a), Excluded(a + 1)), vec![], h));
                ops.push(Op::Splice((Excluded(a), Unbounded), bytes(kind, 2, 5), h));
                ops.push(Op::Splice((Unbounded, Included(a)), bytes(kind, per, 6), Hint::Exact));
            }
            if !big {
                ops.push(Op::Insert(a, bytes(kind, 300, 4), Hint::None0));
                if a + 9 <= n { ops.push(Op::Splice((Included(a), Excluded(a + 9)), bytes(kind, 9, 4), h)); }
            }
        }
        for m in [0, 1, per, n - 1, n, n + 1, n + per + 1, 2 * n] {
            if !big || m % 2 == 0 || m == n + 1 { ops.push(Op::Set(bytes(kind, m, 7), if m % 3 == 0 { Hint::None0 } else { h })); }
        }
        if ctx.thorough() && !big {
            for h in HINTS { ops.push(Op::Append(bytes(kind, n / 3, 8), h)); ops.push(Op::Splice((Included(2), Excluded(n - 3)), bytes(kind, 1, 4), h)); }
        }
        for (i, op) in ops.iter().enumerate() {
            let (mut m2, mut md2) = (base.dup(), md.clone());
            let mut p2 = path.clone();
            p2.push(op.clone());
            if x.step(&mut m2, &mut md2, st, &p2).is_some() && (!big || i % 4 == 0) {
                let n = md2.payload.len();
                p2.push(match i % 4 { 0 if kind.has_group() => Op::Group(9), 2 if kind.has_stream() => Op::Stream(0x15), 0 | 1 => Op::AppendByte(0x31), _ => Op::Splice((Included(n / 2), Excluded(n)), bytes(kind, per + 1, 1), h) });
                x.step(&mut m2, &mut md2, st, &p2);
            }
        }
    });
}

fn fallible(ctx: &Arc<Ctx>, x: &X) {
    let caps = |kind: Kind| -> Vec<usize> {
        match kind {
            Kind::S7U => (2..=ctx.pick(9, 12)).collect(),
            Kind::S7B => (2..=ctx.pick(10, 18)).collect(),
            Kind::S8 => ctx.pick(vec![4, 5, 7, 8, 9, 11, 12, 14], (4..=18).collect()),
        }
    };
    let quick_side = ctx.prop != "C03" && !ctx.thorough();
    // single edit (then, after an overflow, a follow-up edit) for every capacity
    let mut jobs = vec![];
    for kind in KINDS {
        for cap in caps(kind) {
            for bk in [Bk::Fix, Bk::Bound] {
                let fill = fills(kind)[1 + cap % 2];
                jobs.push(fresh_start(kind, bk, cap, if bk == Bk::Bound { cap / 2 } else { 0 }, fill));
                let maxn = if kind == Kind::S7B { cap - 2 } else { cap / kind.words() * kind.per() };
                for n in 0..=maxn {
                    if kind == Kind::S8 && !ctx.thorough() && !(n % 13 <= 2 || n % 13 >= 12 || n + 1 >= maxn) {
                        continue;
                    }
                    let used = kind.enc_len(n);
                    jobs.push(canonical_start(kind, bk, n, 0, cap - used, fill));
                }
                // non canonical, with unrelated data behind
                if kind != Kind::S7B {
                    let w = kind.words();
                    for sizes in [vec![1, 1], vec![0, 0], vec![kind.per(), 0], vec![2, 0, 3], vec![kind.per(), 1, 1]] {
                        let used = sizes.len() * w;
                        if used <= cap {
                            jobs.push(packet_start(kind, bk, &sizes, 0, cap - used, fill));
                            if used < cap {
                                let mut s = packet_start(kind, bk, &sizes, 1, 0, fill);
                                s.cap = cap;
                                jobs.push(s);
                            }
                        }
                    }
                }
            }
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.model.payload.len()));
    ctx.sample(|| format!("fallible: {}", jobs[0].desc()));
    ctx.par("fallible edits, every capacity", &jobs, |j| j.desc(), |st| {
        let Some(base) = x.make(st) else { return };
        let k = st.kind;
        let n = st.model.payload.len();
        let maxn = if k == Kind::S7B { st.cap - 2 } else { st.cap / k.words() * k.per() };
        let mut ks: Vec<usize> = (0..=maxn + k.per() + 2).collect();
        if quick_side || k == Kind::S8 && !ctx.thorough() {
            ks.retain(|v| *v <= 2 || v % k.per() <= 1 || v % k.per() == k.per() - 1 || *v > maxn);
        }
        let pos: Vec<usize> = if quick_side || (k == Kind::S8 && !ctx.thorough()) { vec![0, n / 2, n.saturating_sub(1), n] } else { (0..=n).collect() };
        let go = |op: Op| {
            let mut m = base.dup();
            let mut md = st.model.clone();
            let path = [op];
            if let Some(Exp::Overflow) = x.step(&mut m, &mut md, st, &path) {
                ctx.outcome("overflow", 1);
                // later edits work normally
                for op2 in [
                    Op::Set(bytes(k, maxn.min(k.per() + 1), 5), Hint::Exact),
                    Op::Append(bytes(k, maxn, 6), Hint::None0),
                    Op::AppendByte(0x12),
                    Op::Append(bytes(k, maxn + 1, 6), Hint::Exact),
                    Op::Group(3),
                    Op::Stream(0x44),
                ] {
                    let mut m2 = m.dup();
                    let mut md2 = md.clone();
                    let p2 = [path[0].clone(), op2];
                    if x.step(&mut m2, &mut md2, st, &p2) == Some(Exp::Ok) {
                        let p3 = [p2[0].clone(), p2[1].clone(), Op::AppendByte(7)];
                        x.step(&mut m2, &mut md2, st, &p3);
                    }
                }
            }
        };
        for &kk in &ks {
            for h in HINTS {
                let d = bytes(k, kk, 4);
                go(Op::Set(d.clone(), h));
                go(Op::Append(d.clone(), h));
                for &a in &pos {
                    go(Op::Insert(a, d.clone(), h));
                    if quick_side && h != Hint::Exact {
                        continue;
                    }
                    for &b in pos.iter().filter(|b| **b >= a) {
                        go(Op::Splice((Included(a), Excluded(b)), d.clone(), h));
                    }
                }
            }
        }
        small_ops(x, &*base, st, n);
    });
    // histories on bounded buffers
    let mut jobs = vec![];
    for kind in KINDS {
        let w = kind.words();
        for cap in if kind == Kind::S7B { vec![2, 5, 9, 14] } else { vec![w, 2 * w, 2 * w + 1, 3 * w, 4 * w] } {
            for bk in [Bk::Fix, Bk::Bound] {
                let s = fresh_start(kind, bk, cap, if bk == Bk::Bound { cap } else { 0 }, fills(kind)[2]);
                for i in 0..alphabet(kind, 0, true).len() {
                    jobs.push((s.clone(), i));
                }
            }
        }
    }
    let depth = ctx.pick(4, 5);
    ctx.par("fallible histories", &jobs, |(j, i)| format!("{} first op #{i}", j.desc()), |(st, i)| {
        let Some(base) = x.make(st) else { return };
        let op = alphabet(st.kind, 0, true)[*i].clone();
        let mut m = base.dup();
        let mut md = st.model.clone();
        let mut path = vec![op];
        if x.step(&mut m, &mut md, st, &path).is_some() {
            let kind = st.kind;
            x.dfs(&*m, &md, st, &mut path, &move |n| alphabet(kind, n, true), depth - 1);
        }
    });
    header_values(ctx, x, true);
    arrays(ctx, x);
    borrowed(ctx, x, true);
    long(ctx, x, true);
}

/// the library's own fixed buffers
fn arrays(ctx: &Arc<Ctx>, x: &X) {
    use midi2::sysex7::Sysex7;
    use midi2::sysex8::Sysex8;
    let mut starts: Vec<(Start, Box<dyn Fn() -> Box<dyn Sx> + Sync>)> = vec![];
    macro_rules! arr {
        ($($n:literal)*) => { $(
            starts.push((fresh_start(Kind::S7U, Bk::Fix, $n, 0, 0), Box::new(|| Box::new(F7u(Sysex7::<[u32; $n]>::new())))));
            starts.push((fresh_start(Kind::S7B, Bk::Fix, $n, 0, 0), Box::new(|| Box::new(F7b(Sysex7::<[u8; $n]>::new())))));
            starts.push((fresh_start(Kind::S7U, Bk::Fix, $n, 0, 1), Box::new(|| Box::new(F7u(Sysex7::try_new_with_buffer([0xFFFF_FFFFu32; $n]).unwrap())))));
        )* };
    }
    macro_rules! arr8 {
        ($($n:literal)*) => { $(
            starts.push((fresh_start(Kind::S8, Bk::Fix, $n, 0, 0), Box::new(|| Box::new(F8(Sysex8::<[u32; $n]>::new())))));
            starts.push((fresh_start(Kind::S8, Bk::Fix, $n, 0, 1), Box::new(|| Box::new(F8(Sysex8::try_new_with_buffer([0xFFFF_FFFFu32; $n]).unwrap())))));
        )* };
    }
    arr!(2 3 4 5 6 7 8 12);
    arr8!(4 5 6 7 8 9 12 16);
    ctx.par("arrays", &starts, |(s, _)| format!("array {}", s.desc()), |(st, mk)| {
        let m = match catch(|| mk()) {
            Ok(m) => m,
            Err(e) => {
                x.bad(3, "array-new-panic", st, &[], &e);
                return;
            }
        };
        if !x.compare(&*m, &st.model, st, &[], "array-start", false) {
            return;
        }
        let kind = st.kind;
        x.dfs(&*m, &st.model, st, &mut vec![], &move |n| alphabet(kind, n, true), if ctx.thorough() { 4 } else { 3 });
        too_long(x, &*m, st);
    });
}

/// payloads which are far too long, around the sizes where counters of eight and sixteen bits wrap
fn too_long(x: &X, m: &dyn Sx, st: &Start) {
    let (ctx, kind) = (x.ctx, st.kind);
    let cap = |n: usize| st.cap().is_some_and(|c| kind.enc_len(n) > c);
    let (w, per) = (kind.words(), kind.per());
    let mut lens: Vec<usize> = vec![];
    for units in [256usize, 65_536] {
        // in bytes, in packets, and in units of the buffer
        let around = if ctx.thorough() { 3 * per } else { per + 3 };
        for c in [units, units * per, units / w * per] {
            lens.extend(c.saturating_sub(around)..=c + around);
        }
    }
    lens.sort();
    lens.dedup();
    lens.retain(|l| cap(*l));
    for l in lens {
        let d = bytes(kind, l, 2);
        let hs: &[Hint] = if l < 5_000 || ctx.thorough() { &[Hint::Exact, Hint::None0, Hint::LoHalf] } else { &[Hint::Exact] };
        for h in hs {
            for op in [Op::Set(d.clone(), *h), Op::Append(d.clone(), *h), Op::Insert(0, d.clone(), *h)] {
                let (mut m2, mut md) = (m.dup(), st.model.clone());
                let mut path = vec![op];
                if x.step(&mut m2, &mut md, st, &path).is_some() {
                    path.push(Op::Append(bytes(kind, 2, 3), Hint::Exact));
                    x.step(&mut m2, &mut md, st, &path);
                }
            }
        }
    }
}

/// messages living in the caller's memory
fn borrowed(ctx: &Arc<Ctx>, x: &X, slices: bool) {
    let mut jobs = vec![];
    for kind in KINDS {
        for f in fills(kind) {
            let top = match kind { Kind::S8 => 18, Kind::S7U => 11, Kind::S7B => 12 };
            for n in if slices { 0..=top } else { 0..=6 } {
                jobs.push((kind, n, f));
            }
        }
    }
    ctx.par(if slices { "borrowed slices" } else { "borrowed vectors" }, &jobs, |j| format!("{j:X?}"), |&(kind, n, f)| {
        let mut st = fresh_start(kind, if slices { Bk::Fix } else { Bk::VecRef }, n, 0, f);
        if !slices { st.pre = n; }
        let st = &st;
        let room = !slices || n >= kind.enc_len(0);
        let m = match catch(|| if slices { in_slice(kind, n, f) } else { in_vec(kind, n, f) }) {
            Err(e) => return x.bad(3, "borrowed-new-panic", st, &[], &e),
            Ok(m) if m.is_some() != room => return x.bad(3, "borrowed-new", st, &[], &format!("constructor in {n} units: made={}", m.is_some())),
            Ok(m) => m,
        };
        let Some(m) = m else { return };
        if !x.compare(&*m, &st.model, st, &[], "borrowed-start", false) {
            return;
        }
        // every length in one edit, then another edit
        let top = if slices { n / kind.words() * kind.per() + 2 } else { 3 * kind.per() + 2 };
        for l in 0..=top {
            for h in [Hint::Exact, Hint::None0] {
                let mut m2 = m.dup();
                let mut md = st.model.clone();
                let mut path = vec![Op::Set(bytes(kind, l, 1), h)];
                if x.step(&mut m2, &mut md, st, &path).is_some() {
                    let n = md.payload.len();
                    for op in alphabet(kind, n, true) {
                        let (mut m3, mut md3) = (m2.dup(), md.clone());
                        path.push(op);
                        x.step(&mut m3, &mut md3, st, &path);
                        path.pop();
                    }
                }
            }
        }
        x.dfs(&*m, &st.model, st, &mut vec![], &move |n| alphabet(kind, n, true), ctx.pick(2, 3));
        if slices && n % 5 == kind.words() % 5 {
            too_long(x, &*m, st);
        }
    });
}

/// an endless iterator never fits: BufferOverflow, no hang, no panic
fn endless(ctx: &Arc<Ctx>) {
    use midi2::prelude::*;
    use midi2::sysex7::Sysex7;
    use midi2::sysex8::Sysex8;
    let jobs = [0, 1, 2, 3, 4, 5, 6, 7, 8];
    ctx.par("endless iterators", &jobs, |j| format!("endless {j}"), |&j| {
        ctx.bulk(1, 1, 1);
        let r: Result<(bool, usize), String> = catch(|| match j {
            0 => {
                let mut m = Sysex7::<[u32; 6]>::new();
                (m.try_set_payload(std::iter::repeat(u7::new(3))).is_err(), m.payload_size())
            }
            1 => {
                let mut m = Sysex7::<[u8; 9]>::new();
                (m.try_set_payload(std::iter::repeat(u7::new(3))).is_err(), m.payload_size())
            }
            2 => {
                let mut m = Sysex8::<[u32; 8]>::new();
                (m.try_set_payload(std::iter::repeat(3)).is_err(), m.payload_size())
            }
            3 => {
                let mut m = Sysex8::<[u32; 8]>::new();
                m.try_set_payload(0..20).unwrap();
                (m.try_insert_payload(std::iter::repeat(3), 2).is_err(), m.payload_size())
            }
            4 => {
                let mut m = Sysex7::<[u32; 8]>::new();
                m.try_set_payload((0..20).map(u7::new)).unwrap();
                (m.try_append_payload((0u8..).map(|v| u7::new(v & 0x7F))).is_err(), m.payload_size())
            }
            5 => {
                let mut m = Sysex7::<[u8; 24]>::new();
                m.try_set_payload((0..20).map(u7::new)).unwrap();
                (m.try_append_payload(std::iter::from_fn(|| Some(u7::new(1)))).is_err(), m.payload_size())
            }
            6 => {
                let mut m = Sysex8::<[u32; 9]>::new();
                m.try_set_payload(0..20).unwrap();
                (m.try_splice_payload(std::iter::from_fn(|| Some(1)), 3..=7).is_err(), m.payload_size())
            }
            7 => {
                let mut m = Sysex7::<[u32; 2]>::new();
                (m.try_append_payload(std::iter::from_fn(|| Some(u7::new(1)))).is_err(), m.payload_size())
            }
            _ => {
                let mut m = Sysex7::<[u8; 2]>::new();
                (m.try_append_payload(std::iter::from_fn(|| Some(u7::new(1)))).is_err(), m.payload_size())
            }
        });
        if r != Ok((true, 0)) {
            ctx.violation("endless-iterator", &format!("case {j}: (overflow, size after) = {r:?}, expected (true, 0)"));
        }
    });
}
