use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Slot {
    seq: AtomicU64,
    inside: AtomicBool,
    what: Mutex<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
    static IN_CATCH: Cell<u32> = const { Cell::new(0) };
}

const SHARDS: usize = 64;

fn resident_gb() -> u64 {
    let statm = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    let pages: u64 = statm.split(' ').nth(1).and_then(|p| p.parse().ok()).unwrap_or(0);
    pages * 4096 >> 30
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    seen: Vec<Mutex<HashSet<u64>>>,
    bulk_states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    parts: Mutex<BTreeMap<String, (u64, u64, u64)>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<BTreeMap<String, Vec<String>>>,
    violation_count: AtomicU64,
    slots: Mutex<Vec<Arc<Slot>>>,
    notes: Mutex<Vec<String>>,
    known: Vec<(String, String)>,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    // deterministic FNV/mix hasher (std's SipHash with fixed keys is fine too)
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Runs library code; a panic becomes Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            s.seq.fetch_add(1, Relaxed);
            s.inside.store(true, Relaxed);
        }
    });
    IN_CATCH.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CATCH.with(|c| c.set(c.get() - 1));
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            s.seq.fetch_add(1, Relaxed);
            if IN_CATCH.with(|c| c.get()) == 0 {
                s.inside.store(false, Relaxed);
            }
        }
    });
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl Ctx {
    pub fn new(prop: &str) -> Arc<Ctx> {
        let tier = match std::env::args().find_map(|a| a.strip_prefix("--tier=").map(String::from)) {
            Some(t) if t == "thorough" => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        if let Ok(txt) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in txt.lines() {
                // KNOWN-FINDING: property=C09 key=<key> <text>
                if let Some(rest) = l.strip_prefix("KNOWN-FINDING: property=") {
                    let mut it = rest.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let k = it.next().unwrap_or("").trim_start_matches("key=");
                    if p == prop {
                        known.push((k.to_string(), it.next().unwrap_or("").to_string()));
                    }
                }
            }
        }
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            if IN_CATCH.with(|c| c.get()) > 0 {
                LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {msg}"));
            } else {
                eprintln!("HARNESS PANIC at {loc}: {msg}");
            }
        }));
        let ctx = Arc::new(Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            start: Instant::now(),
            seen: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            bulk_states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            outcomes: Mutex::new(BTreeMap::new()),
            parts: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            violations: Mutex::new(BTreeMap::new()),
            violation_count: AtomicU64::new(0),
            slots: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            known,
        });
        let wd = ctx.clone();
        std::thread::spawn(move || wd.watchdog());
        ctx
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() { t } else { q }
    }

    fn watchdog(&self) {
        let mut last: Vec<(u64, Instant)> = vec![];
        loop {
            std::thread::sleep(Duration::from_millis(250));
            // an operation that never ends may fill the memory before its time is over
            if resident_gb() >= 16 {
                let inside: Vec<String> = (self.slots.lock().unwrap().iter())
                    .filter(|s| s.inside.load(Relaxed))
                    .map(|s| s.what.lock().map(|w| w.clone()).unwrap_or_default())
                    .collect();
                self.violation("runaway", &format!("16 GB of memory are in use; library calls under way while exploring: {inside:?}"));
                let code = self.finish_inner();
                std::process::exit(code);
            }
            let slots = self.slots.lock().unwrap().clone();
            last.resize(slots.len(), (u64::MAX, Instant::now()));
            for (i, s) in slots.iter().enumerate() {
                let q = s.seq.load(Relaxed);
                if q != last[i].0 || !s.inside.load(Relaxed) {
                    last[i] = (q, Instant::now());
                } else if last[i].1.elapsed() > Duration::from_secs(150) {
                    let what = s.what.lock().map(|w| w.clone()).unwrap_or_default();
                    self.violation("hang", &format!("a library call did not return within 150 s while exploring: {what}"));
                    let code = self.finish_inner();
                    std::process::exit(code);
                }
            }
        }
    }

    /// A state reached (deduplicated by hash). Returns true when new.
    pub fn state(&self, h: u64) -> bool {
        self.seen[(h % SHARDS as u64) as usize].lock().unwrap().insert(h)
    }
    pub fn bulk(&self, states: u64, transitions: u64, traces: u64) {
        self.bulk_states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    /// how often each distinct kind of outcome was observed (vacuity guard)
    pub fn outcome(&self, k: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(k.to_string()).or_default() += n;
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 24 {
            v.push(s());
        }
    }
    pub fn note(&self, s: &str) {
        self.notes.lock().unwrap().push(s.to_string());
    }

    /// key identifies the defect (stable, short); detail the concrete failing case.
    pub fn violation(&self, key: &str, detail: &str) {
        self.violation_count.fetch_add(1, Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() > 400 && !v.contains_key(key) {
            return;
        }
        let e = v.entry(key.to_string()).or_default();
        // keep the shortest, then lexicographically smallest details: deterministic
        if detail.len() > 20_000 {
            let cut = |mut i: usize| {
                while !detail.is_char_boundary(i) {
                    i += 1;
                }
                i
            };
            e.push(format!("{} ... {} characters ... {}", &detail[..cut(8000)], detail.len(), &detail[cut(detail.len() - 4000)..]));
        } else {
            e.push(detail.to_string());
        }
        e.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
        e.truncate(3);
    }
    pub fn violated(&self) -> bool {
        self.violation_count.load(Relaxed) > 5_000_000
    }

    /// Run the named jobs on all cores. The jobs partition the bounded space.
    pub fn par<J: Sync, F: Fn(&J) + Sync>(self: &Arc<Self>, part: &str, jobs: &[J], name: impl Fn(&J) -> String + Sync, f: F) {
        let t0 = Instant::now();
        let (s0, t_0, r0) = self.counts();
        let next = AtomicUsize::new(0);
        let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        std::thread::scope(|sc| {
            for _ in 0..n.min(jobs.len().max(1)) {
                sc.spawn(|| {
                    let slot = Arc::new(Slot { seq: AtomicU64::new(0), inside: AtomicBool::new(false), what: Mutex::new(String::new()) });
                    self.slots.lock().unwrap().push(slot.clone());
                    SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= jobs.len() {
                            break;
                        }
                        *slot.what.lock().unwrap() = format!("{part}: {}", name(&jobs[i]));
                        f(&jobs[i]);
                    }
                    slot.inside.store(false, Relaxed);
                    SLOT.with(|s| *s.borrow_mut() = None);
                });
            }
        });
        let (s1, t_1, r1) = self.counts();
        let mut p = self.parts.lock().unwrap();
        let e = p.entry(part.to_string()).or_default();
        e.0 += s1 - s0;
        e.1 += t_1 - t_0;
        e.2 += r1 - r0;
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("part {part}: states+{} transitions+{} traces+{} in {:?}", s1 - s0, t_1 - t_0, r1 - r0, t0.elapsed());
        }
    }

    fn counts(&self) -> (u64, u64, u64) {
        let s: u64 = self.seen.iter().map(|m| m.lock().unwrap().len() as u64).sum();
        (s + self.bulk_states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed))
    }

    fn finish_inner(&self) -> i32 {
        let (states, transitions, traces) = self.counts();
        let viol = self.violations.lock().unwrap().clone();
        let mut open: Vec<(&String, &Vec<String>)> = vec![];
        let mut known_seen: Vec<(String, String)> = vec![];
        for (k, d) in &viol {
            if let Some((k, t)) = self.known.iter().find(|(kk, _)| kk == k) {
                known_seen.push((k.clone(), t.clone()));
            } else {
                open.push((k, d));
            }
        }
        for (k, t) in &known_seen {
            println!("KNOWN-FINDING: property={} {} [{}]", self.prop, t, k);
        }
        let vd = verif_dir();
        let outdir = vd.join("out");
        let _ = std::fs::create_dir_all(&outdir);
        let replay = outdir.join(format!("{}.replay.txt", self.prop));
        let mut code = 0;
        if !open.is_empty() {
            code = 1;
            let mut s = format!("property {} violated; failing cases (shortest first per kind):\n", self.prop);
            for (k, d) in &open {
                s += &format!("\n[{k}]\n");
                for x in d.iter() {
                    s += &format!("  {x}\n");
                }
            }
            let _ = std::fs::write(&replay, &s);
            for (k, d) in open.iter().take(40) {
                println!("  [{k}] {}", d[0]);
            }
            println!("VIOLATION property={} replay={}", self.prop, replay.display());
        }
        let esc = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o += "\\\"",
                    '\\' => o += "\\\\",
                    '\n' => o += "\\n",
                    c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
                    c => o.push(c),
                }
            }
            o + "\""
        };
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|s| esc(s)).collect();
        let parts: Vec<String> = self
            .parts
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| format!("{}: {{\"states\": {}, \"transitions\": {}, \"traces\": {}}}", esc(k), v.0, v.1, v.2))
            .collect();
        let outcomes: Vec<String> = self.outcomes.lock().unwrap().iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
        if std::env::var_os("MC_AFTER_RELEASE_PASS").is_some() {
            self.notes.lock().unwrap().push("before this run the quick exploration was run on a release build (no debug assertions, wrapping arithmetic) without a violation".into());
        }
        let notes: Vec<String> = self.notes.lock().unwrap().iter().map(|s| esc(s)).collect();
        let vs: Vec<String> = open.iter().map(|(k, d)| esc(&format!("{k}: {}", d[0]))).collect();
        let kf: Vec<String> = known_seen.iter().map(|(k, _)| esc(k)).collect();
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"wall_s\": {:.2},\n \"assumptions\": [{}],\n \"violations\": {},\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": true,\n  \"samples\": [{}],\n  \"parts\": {{{}}},\n  \"outcomes\": {{{}}},\n  \"violation_keys\": [{}],\n  \"known_findings_seen\": [{}]\n }}\n}}\n",
            esc(&self.prop),
            if self.thorough() { "thorough" } else { "quick" },
            self.seed,
            self.start.elapsed().as_secs_f64(),
            notes.join(", "),
            open.len(),
            states,
            transitions,
            traces,
            samples.join(", "),
            parts.join(", "),
            outcomes.join(", "),
            vs.join(", "),
            kf.join(", ")
        );
        let _ = std::fs::create_dir_all(vd.join("evidence"));
        // (the release pass of a thorough run leaves the evidence to the pass which follows it)
        if std::env::var_os("MC_RELEASE_PASS").is_some() {
            println!("{} release pass: states={states} transitions={transitions} violations={} wall={:.1}s", self.prop, open.len(), self.start.elapsed().as_secs_f64());
        } else if let Err(e) = std::fs::write(vd.join("evidence").join(format!("{}.json", self.prop)), ev) {
            eprintln!("cannot write evidence: {e}");
            return 3;
        }
        println!(
            "{} {}: states={states} transitions={transitions} traces={traces} violations={} known={} wall={:.1}s",
            self.prop,
            if self.thorough() { "thorough" } else { "quick" },
            open.len(),
            known_seen.len(),
            self.start.elapsed().as_secs_f64()
        );
        if traces == 0 || transitions == 0 {
            eprintln!("vacuous exploration");
            return 3;
        }
        code
    }

    pub fn finish(&self) -> ! {
        std::process::exit(self.finish_inner())
    }
}

pub fn hex32(w: &[u32]) -> String {
    format!("[{}]", w.iter().map(|x| format!("{x:08X}")).collect::<Vec<_>>().join(" "))
}
pub fn hex8(w: &[u8]) -> String {
    format!("[{}]", w.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" "))
}
