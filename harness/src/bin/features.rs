//! C19 feature selection.
//!
//! The state space is the set of feature selections. For every selection midi2 and the probe program (feat/) are
//! compiled from the current tree; the probe runs the same systematic inputs and operations on whatever is compiled in.
//! Every outcome has to equal the outcome in the build with all features, and nothing may be made of inputs of families
//! which are not compiled in. (std only matters for texts which are not UTF-8: only a build with std checks that.)
use mc::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;

const FAMILIES: [&str; 9] = ["utility", "system-common", "channel-voice1", "channel-voice2", "sysex7", "sysex8", "flex-data", "ump-stream", "ci"];
type Set = BTreeSet<String>;
/// item, block -> (hash, inputs, accepted)
type Lines = BTreeMap<(String, String), (String, u64, u64)>;

/// the [features] table of midi2
fn table(repo: &Path) -> BTreeMap<String, Vec<String>> {
    let txt = std::fs::read_to_string(repo.join("midi2/Cargo.toml")).expect("midi2/Cargo.toml");
    let mut m = BTreeMap::new();
    let mut on = false;
    for l in txt.lines() {
        let l = l.split('#').next().unwrap().trim();
        if l.starts_with('[') {
            on = l == "[features]";
        } else if let (true, Some((k, v))) = (on, l.split_once('=')) {
            let v: Vec<String> = v.split(|c| "[], \"".contains(c)).filter(|x| !x.is_empty()).map(String::from).collect();
            m.insert(k.trim().trim_matches('"').to_string(), v);
        }
    }
    m
}
fn close(t: &BTreeMap<String, Vec<String>>, s: &Set) -> Set {
    let mut r = s.clone();
    loop {
        let n: Set = r.iter().flat_map(|f| t.get(f).cloned().unwrap_or_default()).filter(|f| t.contains_key(f)).collect();
        let l = r.len();
        r.extend(n);
        if r.len() == l {
            return r;
        }
    }
}
struct Env {
    repo: PathBuf,
    feat: PathBuf,
    work: PathBuf,
    deps: PathBuf,
    externs: Vec<(String, String)>,
    table: BTreeMap<String, Vec<String>>,
}
/// compiles the dependencies of midi2 with cargo and finds them
fn environment() -> Env {
    let vd = verif_dir();
    let feat = vd.join("feat");
    let target = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or(vd.join("target"));
    let out = Command::new("cargo")
        .args(["build", "--offline", "--locked", "--quiet", "--message-format=json", "-p", "midi2"])
        .env("CARGO_TARGET_DIR", &target)
        .current_dir(&feat)
        .output()
        .expect("cargo");
    if !out.status.success() {
        eprintln!("{}", String::from_utf8_lossy(&out.stderr));
        eprintln!("BUILD FAILED (midi2 and its dependencies)");
        std::process::exit(4);
    }
    let mut externs = vec![];
    let mut deps = PathBuf::new();
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        if !l.contains("\"reason\":\"compiler-artifact\"") {
            continue;
        }
        let name = l.split("\"target\":{").nth(1).and_then(|t| t.split("\"name\":\"").nth(1)).and_then(|t| t.split('"').next()).unwrap_or("").replace('-', "_");
        let files: Vec<&str> = l.split("\"filenames\":[").nth(1).and_then(|t| t.split(']').next()).unwrap_or("").split(',').map(|f| f.trim_matches('"')).collect();
        if let Some(f) = files.iter().find(|f| f.ends_with(".rlib") || f.ends_with(".so")) {
            if name == "midi2" {
                deps = Path::new(f).parent().unwrap().to_path_buf();
                if !deps.ends_with("deps") {
                    deps = deps.join("deps");
                }
            } else if ["ux", "fixed", "derive_more", "midi2_proc"].contains(&name.as_str()) {
                externs.push((name, f.to_string()));
            }
        }
    }
    let repo = std::env::var("MIDI2_REPO").map(PathBuf::from).unwrap_or("/repo".into());
    let table = table(&repo);
    let work = target.join("features");
    let _ = std::fs::create_dir_all(&work);
    Env { repo, feat, work, deps, externs, table }
}
fn name(s: &Set) -> String {
    if s.is_empty() { "none".into() } else { s.iter().cloned().collect::<Vec<_>>().join("+") }
}
fn rustc(e: &Env, set: &Set, dir: &Path, what: &str) -> Result<(), String> {
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--cap-lints", "allow", "--color", "never", "-Copt-level=1", "-Cdebuginfo=0", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Ccodegen-units=4"]);
    for f in set {
        c.arg("--cfg").arg(format!("feature=\"{f}\""));
    }
    c.arg("-L").arg(format!("dependency={}", e.deps.display()));
    c.arg("--out-dir").arg(dir);
    if what == "midi2" {
        for (n, f) in &e.externs {
            c.arg("--extern").arg(format!("{n}={f}"));
        }
        c.args(["--crate-name", "midi2", "--crate-type", "rlib"]).arg(e.repo.join("midi2/src/lib.rs"));
        c.env("CARGO_MANIFEST_DIR", e.repo.join("midi2")).env("CARGO_PKG_NAME", "midi2").env("CARGO_PKG_VERSION", "0.0.0").env("CARGO_CRATE_NAME", "midi2");
    } else {
        for (n, f) in e.externs.iter().filter(|x| x.0 == "ux") {
            c.arg("--extern").arg(format!("{n}={f}"));
        }
        c.arg("--extern").arg(format!("midi2={}", dir.join("libmidi2.rlib").display()));
        c.args(["--crate-name", "probe", "--crate-type", "bin"]).arg(e.feat.join("src/main.rs"));
    }
    let o = c.output().map_err(|e| format!("cannot run rustc: {e}"))?;
    if o.status.success() {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    Err(err.lines().filter(|l| l.starts_with("error") || l.trim_start().starts_with("-->")).take(4).collect::<Vec<_>>().join(" / "))
}
enum Built {
    /// (which crate, why)
    No(&'static str, String),
    Yes(String),
}
fn run(e: &Env, set: &Set, args: &[&str]) -> Built {
    let dir = e.work.join(name(set));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("work dir");
    for what in ["midi2", "probe"] {
        if let Err(x) = rustc(e, set, &dir, what) {
            let _ = std::fs::remove_dir_all(&dir);
            return Built::No(if what == "midi2" { "midi2" } else { "a program using it" }, x);
        }
    }
    let o = Command::new(dir.join("probe")).args(args).output().expect("probe");
    let _ = std::fs::remove_dir_all(&dir);
    if !o.status.success() {
        return Built::No("probe run", format!("{} {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()));
    }
    Built::Yes(String::from_utf8_lossy(&o.stdout).into_owned())
}
fn lines(ctx: &Ctx, set: &Set, txt: &str) -> Lines {
    let mut m = Lines::new();
    for l in txt.lines() {
        let p: Vec<&str> = l.split('|').collect();
        if p[0] == "MISREAD" {
            ctx.violation(&format!("misread-{}", p[1]), &format!("features {}: {} accepts {} of a family which is not compiled in: {}", name(set), p[1], p[2], p[3]));
        } else if p[0] == "PANIC" {
            ctx.violation(&format!("panic-{}", p[1]), &format!("features {}: {l}", name(set)));
        } else if p.len() == 5 {
            m.insert((p[0].into(), p[1].into()), (p[2].into(), p[3].parse().unwrap_or(0), p[4].parse().unwrap_or(0)));
        }
    }
    m
}
/// the first input of a block on which two builds differ
fn first_difference(e: &Env, a: &Set, b: &Set, item: &str, block: &str) -> String {
    match (run(e, a, &["--dump", item, block]), run(e, b, &["--dump", item, block])) {
        (Built::Yes(x), Built::Yes(y)) => x
            .lines()
            .zip(y.lines())
            .find(|(x, y)| x != y)
            .map(|(x, y)| format!("{x} but {y}").chars().take(1500).collect())
            .unwrap_or("different inputs".into()),
        _ => String::new(),
    }
}

fn main() {
    let ctx = Ctx::new("C19");
    let e = environment();
    let set = |v: &[&str]| -> Set { close(&e.table, &v.iter().map(|s| s.to_string()).collect()) };
    let all: Vec<&str> = FAMILIES.to_vec();
    let all_std: Vec<&str> = [&all[..], &["std"]].concat();
    let refs = [set(&all), set(&all_std)];
    let mut out: Vec<Option<Lines>> = vec![None, None];
    std::thread::scope(|s| {
        let hs: Vec<_> = refs.iter().map(|r| s.spawn(|| run(&e, r, &[]))).collect();
        for (i, h) in hs.into_iter().enumerate() {
            match h.join().unwrap() {
                Built::Yes(t) => out[i] = Some(lines(&ctx, &refs[i], &t)),
                Built::No(w, x) => {
                    // with all features nothing can be said if it does not even build; without std it is a finding
                    if i == 1 {
                        eprintln!("{w}: {x}");
                        std::process::exit(4);
                    }
                    ctx.violation("build-all-no-std", &format!("features {}: {w} does not compile: {x}", name(&refs[0])));
                }
            }
        }
    });
    let full = out[1].take().unwrap();
    let full_no_std = out[0].take().unwrap_or_else(|| full.clone());
    let count = |l: &Lines| l.values().map(|v| v.1).sum::<u64>();
    // std against no std
    for (k, v) in &full {
        if !k.1.starts_with('+') && full_no_std.get(k) != Some(v) {
            let d = first_difference(&e, &refs[1], &refs[0], &k.0, &k.1);
            ctx.violation(&format!("std-{}", k.0), &format!("{} (inputs {}) with and without std: {d}", k.0, k.1));
        }
    }
    ctx.bulk(2 * full.len() as u64, count(&full) + count(&full_no_std), count(&full) + count(&full_no_std));
    ctx.outcome("outcomes of the full build", count(&full));
    ctx.outcome("accepted inputs of the full build", full.values().map(|v| v.2).sum());

    let mut sets: BTreeSet<Set> = BTreeSet::new();
    let n = FAMILIES.len();
    for m in 0..1u32 << n {
        for std in [false, true] {
            let mut f: Vec<&str> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| FAMILIES[i]).collect();
            let k = f.len();
            // quick: none, every one, every two (with std), every all but one (with std)
            let want = ctx.thorough() || k <= 1 || (std && (k == 2 || k == n - 1));
            if std {
                f.push("std");
            }
            let s = set(&f);
            if want && !refs.contains(&s) {
                sets.insert(s);
            }
        }
    }
    let sets: Vec<Set> = sets.into_iter().collect();
    ctx.note(&format!("{} feature selections compiled and run, besides all features with and without std", sets.len()));
    let reported = std::sync::Mutex::new(BTreeSet::new());
    ctx.par("selections", &sets, name, |s| {
        let txt = match run(&e, s, &[]) {
            Built::Yes(t) => t,
            Built::No(w, x) => {
                ctx.violation(&format!("build-{w}"), &format!("features {}: {w} does not compile or run: {x}", name(s)));
                return;
            }
        };
        let got = lines(&ctx, s, &txt);
        let (full, r) = if s.contains("std") { (&full, &refs[1]) } else { (&full_no_std, &refs[0]) };
        let mut n = 0;
        for (k, v) in full {
            let fam = k.0.split('/').next().unwrap();
            if fam == "none" || !s.contains(fam) {
                if fam != "none" && got.contains_key(k) {
                    ctx.violation("extra", &format!("features {}: {k:?} exists", name(s)));
                }
                continue;
            }
            n += v.1;
            if got.get(k) != Some(v) {
                let first = reported.lock().unwrap().insert(k.0.clone());
                let d = if first { first_difference(&e, r, s, &k.0, &k.1) } else { String::new() };
                ctx.violation(&format!("differs-{}", k.0), &format!("{} (inputs {}) with all features and with {}: {d}", k.0, k.1, name(s)));
            }
        }
        let none: u64 = got.iter().filter(|(k, _)| k.0.starts_with("none/")).map(|(_, v)| v.1).sum();
        ctx.outcome("rejected inputs of other families", none);
        ctx.outcome("compared outcomes", n);
        ctx.bulk(got.len() as u64, n + none, n + none);
        if s.len() == 2 {
            ctx.sample(|| format!("features {}: {n} outcomes equal, {none} inputs of other families rejected", name(s)));
        }
    });
    let _ = std::fs::remove_dir_all(&e.work);
    ctx.finish()
}
