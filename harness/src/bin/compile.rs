//! C22 what a buffer cannot hold or do is refused at compile time.
//!
//! The state space is the set of (message type, operation, buffer) triples: every array length below the smallest
//! representation of every message type with every constructor, and every operation on every buffer which lacks one of
//! the traits it needs. For each a program is compiled against the current tree; it has to be refused, while the same
//! program with a capable buffer (or enough room) has to compile.
use mc::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

const LIST: &str = include_str!("../../../feat/src/list.rs");
/// buffers which have exactly the named abilities
const PRELUDE: &str = r#"
    pub struct R0<U>(std::vec::Vec<U>);
    impl<U: Unit> Buffer for R0<U> { type Unit = U; fn buffer(&self) -> &[U] { &self.0 } }
    macro_rules! m { ($($n:ident)*) => { $(
        pub struct $n<U>(std::vec::Vec<U>);
        impl<U: Unit> Buffer for $n<U> { type Unit = U; fn buffer(&self) -> &[U] { &self.0 } }
        impl<U: Unit> BufferMut for $n<U> { fn buffer_mut(&mut self) -> &mut [U] { &mut self.0 } }
    )* } }
    macro_rules! d { ($($n:ident)*) => { $( impl<U: Unit> BufferDefault for $n<U> { fn default() -> Self { $n(vec![]) } } )* } }
    macro_rules! r { ($($n:ident)*) => { $( impl<U: Unit> BufferResize for $n<U> { fn resize(&mut self, n: usize) { self.0.resize(n, U::zero()) } } )* } }
    macro_rules! t { ($($n:ident)*) => { $( impl<U: Unit> BufferTryResize for $n<U> { fn try_resize(&mut self, n: usize) -> Result<(), midi2::error::BufferOverflow> { self.0.resize(n, U::zero()); Ok(()) } } )* } }
    m! { Mu MuD MuR MuT MuDR MuDT }
    d! { MuD MuDR MuDT }
    r! { MuR MuDR }
    t! { MuT MuDT }
"#;

#[derive(Clone)]
struct Ty {
    path: String,
    unit: &'static str,
    min: usize,
    setters: Vec<String>,
    /// name of the try_ setter of the text
    text: Option<String>,
}
fn mins() -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    macro_rules! add { ($(($a:ident $b:ident $n:literal $x:tt))*) => { $( m.insert(concat!(stringify!($a), "::", stringify!($b)).to_string(), $n); )* } }
    each_bytes!(add);
    m
}
fn types() -> Vec<Ty> {
    let mut v = vec![];
    let mins = mins();
    for l in LIST.lines().map(str::trim).filter(|l| l.starts_with("ty!(v") || l.starts_with("tx!(v")) {
        let p: Vec<&str> = l[4..].split(", ").collect();
        let path = format!("{}::{}", p[1], p[2]);
        let bytes = p[3] == "u8";
        let min = match p[1] {
            _ if bytes => mins[&path],
            "utility" | "system_common" | "channel_voice1" => 1,
            "channel_voice2" => 2,
            _ => 4,
        };
        let f = |s: &str| -> Vec<String> { s.split(|c| "()[]; ".contains(c)).filter(|s| s.contains("set_")).map(String::from).collect() };
        let (a, b) = l.split_once(']').unwrap();
        v.push(Ty { path, unit: if bytes { "u8" } else { "u32" }, min, setters: f(a), text: f(b).first().cloned() });
    }
    v
}
#[derive(Clone)]
struct Probe {
    key: String,
    code: String,
}
struct Env {
    work: PathBuf,
    deps: PathBuf,
    ext: Vec<(String, String)>,
}
fn environment() -> Env {
    let vd = verif_dir();
    let target = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or(vd.join("target"));
    let out = Command::new("cargo")
        .args(["build", "--offline", "--locked", "--quiet", "--message-format=json", "-p", "midi2"])
        .env("CARGO_TARGET_DIR", &target)
        .current_dir(vd.join("feat"))
        .output()
        .expect("cargo");
    if !out.status.success() {
        eprintln!("{}", String::from_utf8_lossy(&out.stderr));
        eprintln!("BUILD FAILED (midi2 and its dependencies)");
        std::process::exit(4);
    }
    let mut ext = vec![];
    let mut deps = PathBuf::new();
    for l in String::from_utf8_lossy(&out.stdout).lines().filter(|l| l.contains("\"reason\":\"compiler-artifact\"")) {
        let name = l.split("\"target\":{").nth(1).and_then(|t| t.split("\"name\":\"").nth(1)).and_then(|t| t.split('"').next()).unwrap_or("").to_string();
        let file = l.split("\"filenames\":[").nth(1).and_then(|t| t.split(']').next()).unwrap_or("").split(',').map(|f| f.trim_matches('"')).find(|f| f.ends_with(".rlib"));
        if let (true, Some(f)) = (["midi2", "ux"].contains(&name.as_str()), file) {
            if name == "midi2" {
                deps = Path::new(f).parent().unwrap().to_path_buf();
                if !deps.ends_with("deps") {
                    deps = deps.join("deps");
                }
            }
            ext.push((name, f.to_string()));
        }
    }
    let work = target.join("compile");
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).expect("work dir");
    Env { work, deps, ext }
}
static SERIAL: AtomicU64 = AtomicU64::new(0);
/// compiles one library of all probes, one per line; the messages per probe, and whether it compiled
fn compile(e: &Env, probes: &[Probe]) -> (bool, BTreeMap<usize, String>, String) {
    let n = SERIAL.fetch_add(1, Ordering::Relaxed);
    let dir = e.work.join(format!("p{n}"));
    std::fs::create_dir_all(&dir).expect("dir");
    let mut src = String::from("#![allow(unused, unreachable_code)] use midi2::{prelude::*, buffer::{Buffer, BufferMut, BufferDefault, BufferResize, BufferTryResize, Unit}}; use std::vec::Vec; #[macro_export] macro_rules! _x { () => {} }");
    src.push_str(&PRELUDE.replace('\n', " "));
    src.push('\n');
    for (i, p) in probes.iter().enumerate() {
        src.push_str(&format!("pub mod p{i} {{ use super::*; {} }}\n", p.code));
    }
    let file = dir.join("src.rs");
    std::fs::write(&file, &src).expect("source");
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--color", "never", "--error-format=short", "-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=1", "--emit=obj", "--crate-type", "rlib", "--crate-name", "probe"]);
    c.arg("-L").arg(format!("dependency={}", e.deps.display())).arg("--out-dir").arg(&dir);
    for (n, f) in &e.ext {
        c.arg("--extern").arg(format!("{n}={f}"));
    }
    let o = c.arg(&file).output().expect("rustc");
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let _ = std::fs::remove_dir_all(&dir);
    let mut m = BTreeMap::new();
    let prefix = format!("{}:", file.display());
    for l in err.lines() {
        let Some(r) = l.strip_prefix(&prefix) else { continue };
        if !r.contains(" error") && !r.contains("encountered while instantiating") {
            continue;
        }
        if let Some(n) = r.split(':').next().and_then(|n| n.parse::<usize>().ok()) {
            if n >= 2 {
                m.entry(n - 2).or_insert(r.chars().take(300).collect());
            }
        }
    }
    (o.status.success(), m, err)
}
/// every probe has to be refused. Probes are compiled together first; those the compiler is silent about, alone.
fn refused(ctx: &Arc<Ctx>, e: &Env, group: &str, probes: &[Probe], alone: bool) {
    let mut left: Vec<usize> = (0..probes.len()).collect();
    if !alone {
        let (_, m, _) = compile(e, probes);
        left.retain(|i| !m.contains_key(i));
    }
    let n = left.len();
    ctx.par(group, &left, |i| probes[*i].key.clone(), |&i| {
        let (ok, _, err) = compile(e, &probes[i..=i]);
        if ok {
            ctx.violation(&probes[i].key, &format!("compiles but must not: {}", probes[i].code));
        } else if !err.contains("error") {
            ctx.violation(&probes[i].key, &format!("the compiler does not finish: {} {}", probes[i].code, err.chars().take(300).collect::<String>()));
        }
    });
    ctx.bulk(probes.len() as u64, probes.len() as u64, probes.len() as u64);
    ctx.outcome("refused by the compiler", probes.len() as u64);
    ctx.sample(|| format!("{group}: {} programs refused ({n} compiled alone), such as: {}", probes.len(), probes[probes.len() / 2].code));
}
fn compiles(ctx: &Arc<Ctx>, e: &Env, group: &str, probes: &[Probe]) {
    let chunks: Vec<&[Probe]> = probes.chunks(probes.len().div_ceil(4).max(1)).collect();
    ctx.par(group, &chunks, |c| format!("{group} from {}", c[0].key), |c| {
        let (ok, m, err) = compile(e, c);
        if ok {
            return;
        }
        let bad: BTreeSet<usize> = if m.is_empty() { (0..c.len()).filter(|&i| !compile(e, &c[i..=i]).0).collect() } else { m.keys().copied().collect() };
        for &i in &bad {
            ctx.violation(&format!("capable-{}", c[i].key), &format!("must compile but does not: {} {}", c[i].code, m.get(&i).cloned().unwrap_or(err.chars().take(300).collect())));
        }
        if bad.is_empty() {
            ctx.violation("capable", &format!("{group}: {}", err.chars().take(600).collect::<String>()));
        }
    });
    ctx.bulk(probes.len() as u64, probes.len() as u64, probes.len() as u64);
    ctx.outcome("compiled", probes.len() as u64);
}

fn main() {
    let ctx = Ctx::new("C22");
    let e = environment();
    let types = types();
    let thorough = ctx.thorough();
    let both: BTreeSet<String> = types.iter().filter(|t| t.unit == "u8").map(|t| t.path.clone()).collect();
    let mut no: BTreeMap<&str, Vec<Probe>> = BTreeMap::new();
    let mut yes: BTreeMap<&str, Vec<Probe>> = BTreeMap::new();
    macro_rules! no { ($g:expr, $k:expr, $($c:tt)*) => { no.entry($g).or_default().push(Probe { key: $k.to_string(), code: format!($($c)*) }) } }
    macro_rules! yes { ($g:expr, $k:expr, $($c:tt)*) => { yes.entry($g).or_default().push(Probe { key: $k.to_string(), code: format!($($c)*) }) } }

    // arrays: every length around the smallest representation
    for t in types.iter().cloned().chain([("sysex7::Sysex7", "u32", 2), ("sysex7::Sysex7", "u8", 2), ("sysex8::Sysex8", "u32", 4)].map(|(p, unit, min)| Ty { path: p.into(), unit, min, setters: vec![], text: None })) {
        let (p, u, min) = (&t.path, t.unit, t.min);
        let short = p.replace("::", "-");
        for n in 0..=min + ctx.pick(1, 4) {
            let known = p == "ump_stream::FunctionBlockDiscovery" && (1..4).contains(&n);
            let key = if known { "function-block-discovery-size".to_string() } else { format!("array-{short}-{u}-{n}") };
            let mut forms = vec![
                ("array new", format!("pub fn f() {{ let m = midi2::{p}::<[{u}; {n}]>::new(); }}")),
                ("array rebuffer from Vec", format!("pub fn f(m: midi2::{p}<Vec<{u}>>) {{ let m = midi2::{p}::<[{u}; {n}]>::array_rebuffer_from(m); }}")),
                ("array rebuffer from slice", format!("pub fn f(m: midi2::{p}<&[{u}]>) {{ let m = midi2::{p}::<[{u}; {n}]>::array_rebuffer_from(m); }}")),
                ("array rebuffer from array", format!("pub fn f(m: midi2::{p}<[{u}; 20]>) {{ let m = midi2::{p}::<[{u}; {n}]>::array_rebuffer_from(m); }}")),
            ];
            if both.contains(p) {
                let (o, tr) = if u == "u8" { ("u32", "FromUmp") } else { ("u8", "FromBytes") };
                let f = if u == "u8" { "from_ump" } else { "from_bytes" };
                forms.push(("array conversion of Vec", format!("pub fn f(m: midi2::{p}<Vec<{o}>>) {{ let m = <midi2::{p}<[{u}; {n}]> as midi2::{tr}<_>>::{f}(m); }}")));
                forms.push(("array conversion of slice", format!("pub fn f(m: midi2::{p}<&[{o}]>) {{ let m = <midi2::{p}<[{u}; {n}]> as midi2::{tr}<_>>::{f}(m); }}")));
            }
            for (g, code) in forms {
                if n < min {
                    no!(g, key, "{code}");
                } else {
                    yes!(g, format!("array-{short}-{u}-{n}"), "{code}");
                }
            }
        }
    }
    // operations on buffers which lack what the operation needs
    for t in &types {
        let (p, u) = (&t.path, t.unit);
        let short = format!("{}-{u}", p.replace("::", "-"));
        for s in &t.setters {
            for b in [format!("&[{u}]"), format!("R0<{u}>")] {
                no!("setters", format!("read-only-{short}-{s}"), "pub fn f(m: &mut midi2::{p}<{b}>) {{ m.{s}(todo!()) }}");
            }
            for b in [format!("&mut [{u}]"), format!("[{u}; 9]"), format!("Vec<{u}>"), format!("&mut Vec<{u}>"), format!("Mu<{u}>")] {
                yes!("setters", format!("writable-{short}-{s}"), "pub fn f(m: &mut midi2::{p}<{b}>) {{ m.{s}(todo!()) }}");
            }
        }
        for b in [format!("&[{u}]"), format!("&mut [{u}]"), format!("&mut Vec<{u}>"), format!("R0<{u}>"), format!("Mu<{u}>"), format!("MuD<{u}>"), format!("MuR<{u}>"), format!("MuDT<{u}>")] {
            no!("new", format!("new-{short}"), "pub fn f() {{ midi2::{p}::<{b}>::new(); }}");
        }
        for b in [format!("&[{u}]"), format!("&mut [{u}]"), format!("R0<{u}>"), format!("Mu<{u}>"), format!("MuD<{u}>"), format!("MuT<{u}>"), format!("MuDR<{u}>")] {
            no!("try_new", format!("try-new-{short}"), "pub fn f() {{ midi2::{p}::<{b}>::try_new(); }}");
        }
        for b in [format!("&[{u}]"), format!("&mut [{u}]"), format!("[{u}; 9]"), format!("R0<{u}>"), format!("Mu<{u}>"), format!("MuT<{u}>")] {
            no!("new_with_buffer", format!("new-with-buffer-{short}"), "pub fn f(b: {b}) {{ midi2::{p}::<{b}>::new_with_buffer(b); }}");
        }
        for b in [format!("&[{u}]"), format!("R0<{u}>"), format!("Mu<{u}>"), format!("MuR<{u}>")] {
            no!("try_new_with_buffer", format!("try-new-with-buffer-{short}"), "pub fn f(b: {b}) {{ midi2::{p}::<{b}>::try_new_with_buffer(b); }}");
        }
        for (op, b) in [("new()", format!("Vec<{u}>")), ("new()", format!("MuDR<{u}>")), ("try_new()", format!("[{u}; 9]")), ("try_new()", format!("MuDT<{u}>")), ("new_with_buffer(b)", format!("Vec<{u}>")), ("new_with_buffer(b)", format!("&mut Vec<{u}>")), ("new_with_buffer(b)", format!("MuR<{u}>")), ("try_new_with_buffer(b)", format!("&mut [{u}]")), ("try_new_with_buffer(b)", format!("[{u}; 9]")), ("try_new_with_buffer(b)", format!("MuT<{u}>"))] {
            yes!("constructors", format!("{}-{short}", op.split('(').next().unwrap()), "pub fn f(b: {b}) {{ midi2::{p}::<{b}>::{op}; }}");
        }
        // rebuffering
        for (a, b) in [("Vec<U>", "[U; 9]"), ("&[U]", "[U; 9]"), ("Vec<U>", "&[U]"), ("[U; 9]", "&[U]"), ("&[U]", "&mut [U]"), ("Vec<U>", "&mut [U]"), ("Vec<U>", "Mu<U>"), ("[U; 9]", "[U; 4]")] {
            let (a, b) = (a.replace('U', u), b.replace('U', u));
            let mu = if b.contains("Mu<") || b.starts_with("Mu") { format!("Mu<{u}>") } else { b.clone() };
            let lt = mu.replace('&', "&'static ");
            no!("rebuffer", format!("rebuffer-{short}"), "pub fn f(m: midi2::{p}<{a}>) {{ let m = <midi2::{p}<{lt}> as midi2::RebufferFrom<_>>::rebuffer_from(m); }}");
        }
        for (a, b) in [("[U; 9]", "Vec<U>"), ("&[U]", "Vec<U>"), ("&mut [U]", "Vec<U>")] {
            let (a, b) = (a.replace('U', u), b.replace('U', u));
            yes!("rebuffer", format!("rebuffer-{short}"), "pub fn f(m: midi2::{p}<{a}>) {{ let m = <midi2::{p}<{b}> as midi2::RebufferFrom<_>>::rebuffer_from(m); }}");
        }
        for a in ["Vec<U>", "&[U]", "&mut [U]"] {
            let a = a.replace('U', u);
            yes!("rebuffer", format!("try-rebuffer-{short}"), "pub fn f(m: midi2::{p}<{a}>) {{ let m: Result<midi2::{p}<[{u}; 9]>, _> = m.try_rebuffer_into(); }}");
        }
        // text
        if let Some(ts) = &t.text {
            let s = ts.trim_start_matches("try_");
            for b in ["&[u32]", "&mut [u32]", "[u32; 16]", "R0<u32>", "Mu<u32>", "MuT<u32>", "MuDT<u32>"] {
                no!("text", format!("set-text-{short}"), "pub fn f(m: &mut midi2::{p}<{b}>) {{ m.{s}(\"a\"); }}");
            }
            for b in ["&[u32]", "R0<u32>", "Mu<u32>", "MuR<u32>"] {
                no!("text", format!("try-set-text-{short}"), "pub fn f(m: &mut midi2::{p}<{b}>) {{ m.{ts}(\"a\"); }}");
            }
            for b in ["Vec<u32>", "&mut Vec<u32>", "MuR<u32>"] {
                yes!("text", format!("set-text-{short}"), "pub fn f(m: &mut midi2::{p}<{b}>) {{ m.{s}(\"a\"); }}");
            }
            for b in ["[u32; 16]", "&mut [u32]", "MuT<u32>"] {
                yes!("text", format!("try-set-text-{short}"), "pub fn f(m: &mut midi2::{p}<{b}>) {{ m.{ts}(\"a\"); }}");
            }
        }
        // a group only exists in packets; messages without a byte form have none
        if u == "u8" {
            no!("representation", format!("group-{short}"), "pub fn f(m: &midi2::{p}<Vec<u8>>) {{ m.group(); }}");
            no!("representation", format!("set-group-{short}"), "pub fn f(m: &mut midi2::{p}<Vec<u8>>) {{ m.set_group(todo!()); }}");
            no!("representation", format!("packets-{short}"), "pub fn f(m: &midi2::{p}<Vec<u8>>) {{ m.packets(); }}");
            yes!("representation", format!("group-{short}"), "pub fn f(m: &mut midi2::{p}<Vec<u32>>) {{ m.group(); m.set_group(todo!()); m.packets(); }}");
            for (tr, f, a, b) in [("FromUmp", "from_ump", "u32", "u8"), ("FromBytes", "from_bytes", "u8", "u32")] {
                for x in ["&'static mut [U]", "MuT<U>", "MuDT<U>", "MuD<U>"] {
                    let x = x.replace('U', b).replace(&format!("M{b}"), "Mu");
                    no!("conversion", format!("{f}-{short}"), "pub fn f(m: midi2::{p}<Vec<{a}>>) {{ let m = <midi2::{p}<{x}> as midi2::{tr}<_>>::{f}(m); }}");
                }
                for x in ["&'static mut [U]", "MuT<U>", "MuDR<U>", "MuD<U>"] {
                    let x = x.replace('U', b).replace(&format!("M{b}"), "Mu");
                    no!("conversion", format!("try-{f}-{short}"), "pub fn f(m: midi2::{p}<Vec<{a}>>) {{ let m = <midi2::{p}<{x}> as midi2::Try{tr}<_>>::try_{f}(m); }}");
                }
                yes!("conversion", format!("{f}-{short}"), "pub fn f(m: midi2::{p}<&[{a}]>) {{ let m = <midi2::{p}<Vec<{b}>> as midi2::{tr}<_>>::{f}(m); }}");
                yes!("conversion", format!("try-{f}-{short}"), "pub fn f(m: midi2::{p}<&[{a}]>) {{ let m = <midi2::{p}<[{b}; 9]> as midi2::Try{tr}<_>>::try_{f}(m); }}");
            }
        } else if !both.contains(p) {
            no!("representation in a signature", format!("bytes-{short}"), "pub fn f(m: midi2::{p}<Vec<u8>>) {{ }}");
            yes!("representation in a signature", format!("bytes-{short}"), "pub fn f(m: midi2::{p}<Vec<u32>>) {{ }}");
        }
        // borrowed messages
        no!("borrowing", format!("outlive-{short}"), "pub fn f() -> midi2::{p}<&'static [{u}]> {{ let v = vec![0 as {u}; 9]; midi2::{p}::try_from(&v[..]).unwrap() }}");
        yes!("borrowing", format!("outlive-{short}"), "pub fn f() -> midi2::{p}<&'static [{u}]> {{ static V: [{u}; 9] = [0; 9]; midi2::{p}::try_from(&V[..]).unwrap() }}");
        no!("borrowing", format!("changed-{short}"), "pub fn f(v: &mut Vec<{u}>) {{ let m = midi2::{p}::try_from(&v[..]).unwrap(); v[0] = 1; m.data(); }}");
        yes!("borrowing", format!("changed-{short}"), "pub fn f(v: &mut Vec<{u}>) {{ let m = midi2::{p}::try_from(&v[..]).unwrap(); m.data(); v[0] = 1; }}");
        no!("borrowing", format!("data-{short}"), "pub fn f(m: &mut midi2::{p}<Vec<{u}>>, n: midi2::{p}<Vec<{u}>>) {{ let d = m.data(); *m = n; d.len(); }}");
        yes!("borrowing", format!("data-{short}"), "pub fn f(m: &mut midi2::{p}<Vec<{u}>>, n: midi2::{p}<Vec<{u}>>) {{ let d = m.data(); d.len(); *m = n; }}");
        if u == "u32" {
            no!("borrowing", format!("packets-{short}"), "pub fn f(m: &mut midi2::{p}<Vec<{u}>>, n: midi2::{p}<Vec<{u}>>) {{ let d = m.packets(); *m = n; d.count(); }}");
            yes!("borrowing", format!("packets-{short}"), "pub fn f(m: &mut midi2::{p}<Vec<{u}>>, n: midi2::{p}<Vec<{u}>>) {{ let d = m.packets(); d.count(); *m = n; }}");
        }
    }
    // system exclusive
    for (p, u) in [("sysex7::Sysex7", "u32"), ("sysex7::Sysex7", "u8"), ("sysex8::Sysex8", "u32")] {
        let short = format!("{}-{u}", p.replace("::", "-"));
        let b = |s: &str| s.replace("<U>", &format!("<{u}>")).replace("[U", &format!("[{u}"));
        let it = "core::iter::empty()";
        let plain = [format!("set_payload({it})"), format!("insert_payload({it}, 0)"), format!("append_payload({it})"), format!("splice_payload({it}, 0..0)")];
        for op in &plain {
            let k = op.split('(').next().unwrap();
            for x in ["&[U]", "&mut [U]", "[U; 20]", "R0<U>", "Mu<U>", "MuT<U>", "MuDT<U>"] {
                no!("payload", format!("{k}-{short}"), "pub fn f(m: &mut midi2::{p}<{}>) {{ m.{op}; }}", b(x));
            }
            for x in ["Vec<U>", "&mut Vec<U>", "MuR<U>"] {
                yes!("payload", format!("{k}-{short}"), "pub fn f(m: &mut midi2::{p}<{}>) {{ m.{op}; }}", b(x));
            }
            for x in ["&[U]", "R0<U>", "Mu<U>", "MuR<U>"] {
                no!("payload", format!("try-{k}-{short}"), "pub fn f(m: &mut midi2::{p}<{}>) {{ m.try_{op}; }}", b(x));
            }
            for x in ["[U; 20]", "&mut [U]", "MuT<U>"] {
                yes!("payload", format!("try-{k}-{short}"), "pub fn f(m: &mut midi2::{p}<{}>) {{ m.try_{op}; }}", b(x));
            }
        }
        for op in ["set_byte(todo!(), 0)"].iter().chain(if u == "u32" { &["set_group(todo!())"][..] } else { &[] }).chain(if p.contains('8') { &["set_stream_id(0)"][..] } else { &[] }) {
            let k = op.split('(').next().unwrap();
            for x in ["&[U]", "R0<U>"] {
                no!("payload", format!("{k}-{short}"), "pub fn f(m: &mut midi2::{p}<{}>) {{ m.{op}; }}", b(x));
            }
            for x in ["&mut [U]", "[U; 20]", "Mu<U>", "Vec<U>"] {
                yes!("payload", format!("{k}-{short}"), "pub fn f(m: &mut midi2::{p}<{}>) {{ m.{op}; }}", b(x));
            }
        }
        for (x, op) in [("&[U]", "new()"), ("&mut [U]", "new()"), ("MuDT<U>", "new()"), ("&[U]", "try_new()"), ("MuDR<U>", "try_new()"), ("[U; 20]", "new_with_buffer(b)"), ("&mut [U]", "new_with_buffer(b)"), ("MuT<U>", "new_with_buffer(b)"), ("&[U]", "try_new_with_buffer(b)"), ("MuR<U>", "try_new_with_buffer(b)")] {
            no!("payload", format!("{}-{short}", op.split('(').next().unwrap()), "pub fn f(b: {0}) {{ midi2::{p}::<{0}>::{op}; }}", b(x));
        }
        for (x, op) in [("Vec<U>", "new()"), ("MuDR<U>", "new()"), ("MuDT<U>", "try_new()"), ("[U; 20]", "try_new()"), ("Vec<U>", "new_with_buffer(b)"), ("MuR<U>", "new_with_buffer(b)"), ("[U; 20]", "try_new_with_buffer(b)"), ("&mut [U]", "try_new_with_buffer(b)"), ("MuT<U>", "try_new_with_buffer(b)")] {
            yes!("payload", format!("{}-{short}", op.split('(').next().unwrap()), "pub fn f(b: {0}) {{ midi2::{p}::<{0}>::{op}; }}", b(x));
        }
        for (x, y) in [("Vec<U>", "[U; 20]"), ("&[U]", "[U; 20]"), ("Vec<U>", "&'static [U]"), ("&'static [U]", "&'static mut [U]"), ("[U; 20]", "[U; 8]")] {
            no!("payload", format!("rebuffer-{short}"), "pub fn f(m: midi2::{p}<{}>) {{ let m = <midi2::{p}<{}> as midi2::RebufferFrom<_>>::rebuffer_from(m); }}", b(x), b(y));
        }
        for (x, y) in [("[U; 20]", "Vec<U>"), ("&[U]", "Vec<U>")] {
            yes!("payload", format!("rebuffer-{short}"), "pub fn f(m: midi2::{p}<{}>) {{ let m = <midi2::{p}<{}> as midi2::RebufferFrom<_>>::rebuffer_from(m); }}", b(x), b(y));
        }
        for (k, a, z) in [("payload", "let d = m.payload();", "d.count();"), ("data", "let d = m.data();", "d.len();")] {
            no!("borrowing", format!("{k}-{short}"), "pub fn f(m: &mut midi2::{p}<Vec<{u}>>) {{ {a} m.set_payload(core::iter::empty()); {z} }}");
            yes!("borrowing", format!("{k}-{short}"), "pub fn f(m: &mut midi2::{p}<Vec<{u}>>) {{ {a} {z} m.set_payload(core::iter::empty()); }}");
        }
        no!("borrowing", format!("outlive-{short}"), "pub fn f() -> midi2::{p}<&'static [{u}]> {{ let v = vec![0 as {u}; 9]; midi2::{p}::try_from(&v[..]).unwrap() }}");
    }
    no!("representation", "group-sysex7", "pub fn f(m: &midi2::sysex7::Sysex7<Vec<u8>>) {{ m.group(); }}");
    no!("representation", "packets-sysex7", "pub fn f(m: &midi2::sysex7::Sysex7<Vec<u8>>) {{ m.packets(); }}");
    yes!("representation", "group-sysex7", "pub fn f(m: &midi2::sysex7::Sysex7<Vec<u32>>) {{ m.group(); m.packets(); }}");
    no!("representation in a signature", "bytes-sysex8", "pub fn f(m: midi2::sysex8::Sysex8<Vec<u8>>) {{ }}");
    // a system exclusive message has no largest size: no infallible conversion into something that cannot grow
    for (tr, f, a, z) in [("FromUmp", "from_ump", "u32", "u8"), ("FromBytes", "from_bytes", "u8", "u32")] {
        for x in [format!("[{z}; 20]"), format!("&'static mut [{z}]"), format!("MuDT<{z}>"), format!("MuR<{z}>")] {
            no!("conversion", format!("{f}-sysex7"), "pub fn f(m: midi2::sysex7::Sysex7<Vec<{a}>>) {{ let m = <midi2::sysex7::Sysex7<{x}> as midi2::{tr}<_>>::{f}(m); }}");
        }
        for x in [format!("&'static mut [{z}]"), format!("MuDR<{z}>"), format!("MuT<{z}>")] {
            no!("conversion", format!("try-{f}-sysex7"), "pub fn f(m: midi2::sysex7::Sysex7<Vec<{a}>>) {{ let m = <midi2::sysex7::Sysex7<{x}> as midi2::Try{tr}<_>>::try_{f}(m); }}");
        }
        for x in [format!("Vec<{z}>"), format!("MuDR<{z}>")] {
            yes!("conversion", format!("{f}-sysex7"), "pub fn f(m: midi2::sysex7::Sysex7<Vec<{a}>>) {{ let m = <midi2::sysex7::Sysex7<{x}> as midi2::{tr}<_>>::{f}(m); }}");
        }
        for x in [format!("[{z}; 20]"), format!("MuDT<{z}>")] {
            yes!("conversion", format!("try-{f}-sysex7"), "pub fn f(m: midi2::sysex7::Sysex7<Vec<{a}>>) {{ let m = <midi2::sysex7::Sysex7<{x}> as midi2::Try{tr}<_>>::try_{f}(m); }}");
        }
    }
    // aggregates
    for (p, u, o) in [("UmpMessage", "u32", "u8"), ("BytesMessage", "u8", "u32"), ("flex_data::FlexData", "u32", "u8"), ("channel_voice2::ChannelVoice2", "u32", "u8"), ("ump_stream::UmpStream", "u32", "u8"), ("utility::Utility", "u32", "u8")] {
        no!("representation in a signature", format!("units-{p}"), "pub fn f(m: midi2::{p}<Vec<{o}>>) {{ }}");
        yes!("representation in a signature", format!("units-{p}"), "pub fn f(m: midi2::{p}<Vec<{u}>>) {{ }}");
        for (x, y) in [("Vec<U>", "[U; 20]"), ("&[U]", "[U; 20]"), ("Vec<U>", "&'static [U]")] {
            no!("aggregates", format!("rebuffer-{p}"), "pub fn f(m: midi2::{p}<{}>) {{ let m = <midi2::{p}<{}> as midi2::RebufferFrom<_>>::rebuffer_from(m); }}", x.replace('U', u), y.replace('U', u));
        }
        yes!("aggregates", format!("rebuffer-{p}"), "pub fn f(m: midi2::{p}<&[{u}]>) {{ let m = <midi2::{p}<Vec<{u}>> as midi2::RebufferFrom<_>>::rebuffer_from(m); }}");
        no!("borrowing", format!("outlive-{p}"), "pub fn f() -> midi2::{p}<&'static [{u}]> {{ let v = vec![0 as {u}; 9]; midi2::{p}::try_from(&v[..]).unwrap() }}");
        yes!("borrowing", format!("outlive-{p}"), "pub fn f() -> midi2::{p}<&'static [{u}]> {{ static V: [{u}; 9] = [0; 9]; midi2::{p}::try_from(&V[..]).unwrap() }}");
    }
    for p in ["channel_voice1::ChannelVoice1", "channel_voice2::ChannelVoice2"] {
        no!("aggregates", format!("set-channel-{p}"), "pub fn f(m: &mut midi2::{p}<&[u32]>) {{ m.set_channel(todo!()); m.channel(); }}");
        no!("aggregates", format!("set-group-{p}"), "pub fn f(m: &mut midi2::{p}<&[u32]>) {{ m.set_group(todo!()); m.group(); }}");
        yes!("aggregates", format!("set-{p}"), "pub fn f(m: &mut midi2::{p}<&mut [u32]>) {{ m.set_channel(todo!()); m.set_group(todo!()); m.group(); m.channel(); }}");
    }
    // MIDI-CI: what came with version 2 does not exist in version 1
    for g in ["output_path_id()", "set_output_path_id(todo!())"] {
        no!("ci", format!("version-{g}"), "pub fn f(m: &mut midi2::ci::DiscoveryQuery<0x1, Vec<u8>>) {{ m.{g}; }}");
        yes!("ci", format!("version-{g}"), "pub fn f(m: &mut midi2::ci::DiscoveryQuery<0x2, Vec<u8>>) {{ m.{g}; }}");
    }
    for v in ["0x1", "0x2"] {
        for s in ["source", "device_manufacturer", "device_family", "model_number", "software_version", "max_sysex_size", "process_inquiry_supported"] {
            no!("ci", format!("read-only-{s}"), "pub fn f(m: &mut midi2::ci::DiscoveryQuery<{v}, &[u8]>) {{ m.set_{s}(todo!()); }}");
            yes!("ci", format!("read-only-{s}"), "pub fn f(m: &mut midi2::ci::DiscoveryQuery<{v}, &mut [u8]>) {{ m.set_{s}(todo!()); }}");
        }
        for x in ["[u8; 48]", "&'static mut [u8]", "MuDT<u8>"] {
            no!("ci", "new", "pub fn f() {{ midi2::ci::DiscoveryQuery::<{v}, {x}>::new(); }}");
        }
        yes!("ci", "new", "pub fn f() {{ midi2::ci::DiscoveryQuery::<{v}, Vec<u8>>::new(); midi2::ci::DiscoveryQuery::<{v}, [u8; 48]>::try_new(); }}");
        no!("ci", "ump", "pub fn f() {{ midi2::ci::DiscoveryQuery::<{v}, Vec<u32>>::new(); }}");
    }
    // nothing but bytes and words
    no!("units", "sealed-unit", "#[derive(Clone, Copy)] pub struct X; impl Unit for X {{ fn zero() -> Self {{ X }} }}");

    if let Ok(g) = std::env::var("MC_GROUP") {
        no.retain(|k, _| k.contains(&g));
        yes.retain(|k, _| k.contains(&g));
    }
    // capable ones first: everything else is judged by comparison
    let jobs: Vec<(&str, Vec<Probe>)> = yes.into_iter().collect();
    let all: Vec<Probe> = jobs.iter().flat_map(|j| j.1.clone()).collect();
    compiles(&ctx, &e, "capable", &all);
    let jobs: Vec<(&str, Vec<Probe>)> = no.into_iter().collect();
    std::thread::scope(|s| {
        for (g, v) in &jobs {
            let (ctx, e) = (&ctx, &e);
            s.spawn(move || refused(ctx, e, g, v, thorough && g.starts_with("array")));
        }
    });
    let _ = std::fs::remove_dir_all(&e.work);
    ctx.finish()
}
