//! A small property-based testing engine: imperative generators over a recorded choice sequence,
//! generic shrinking on that sequence, deterministic case seeds, crash/hang containment by running
//! the cases in a child process.

use std::{
    collections::{BTreeMap, HashSet},
    fs::{self, File},
    hash::{Hash, Hasher},
    io::Write,
    os::unix::{fs::FileExt, process::ExitStatusExt},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::Command,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

#[path = "fuzz.rs"]
pub mod fuzz;

// ---------------------------------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

// ---------------------------------------------------------------------------------------- case

/// Why a case failed. `kind` keeps shrinking on one failure; `sig` identifies a known finding.
#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
    pub sig: Option<String>,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(kind: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        kind: kind.to_string(),
        msg: msg.into(),
        sig: None,
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::engine::fail($kind, format!($($arg)*));
        }
    };
}

pub struct Cx {
    replay: Option<Vec<u64>>,
    /// what follows the replayed choices; none: zeros
    tail: Option<Rng>,
    rng: Rng,
    pub choices: Vec<u64>,
    trace: Option<File>,
    nontrivial: bool,
    key: Option<u64>,
    labels: Vec<&'static str>,
    desc: Vec<String>,
    want_desc: bool,
    /// true in the thorough tier: generators may use larger sizes
    pub big: bool,
}

impl Cx {
    fn random(seed: u64, want_desc: bool, big: bool) -> Cx {
        Cx {
            replay: None,
            tail: None,
            rng: Rng::new(seed),
            choices: vec![],
            trace: None,
            nontrivial: false,
            key: None,
            labels: vec![],
            desc: vec![],
            want_desc,
            big,
        }
    }
    fn replaying(seq: Vec<u64>, want_desc: bool, big: bool) -> Cx {
        Cx {
            replay: Some(seq),
            ..Cx::random(0, want_desc, big)
        }
    }

    /// A choice in 0..n; 0 is the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match (&self.replay, &mut self.tail) {
            (Some(seq), Some(tail)) => seq.get(self.choices.len()).map_or_else(|| tail.below(n), |v| v % n),
            (Some(seq), None) => seq.get(self.choices.len()).copied().unwrap_or(0).min(n - 1),
            (None, _) => self.rng.below(n),
        };
        self.choices.push(v);
        if let Some(t) = &mut self.trace {
            let _ = t.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        (self.draw(1 << 32) << 32) | self.draw(1 << 32)
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo + 1) as u64) as usize
    }
    /// true with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len() as u64) as usize]
    }
    /// A weighted choice of an index; the first alternative is the simplest.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// A list whose elements can be deleted one by one while shrinking.
    pub fn vec<T>(&mut self, max: usize, avg: u64, mut f: impl FnMut(&mut Cx) -> T) -> Vec<T> {
        let mut out = vec![];
        while out.len() < max && self.draw(avg + 1) != 0 {
            out.push(f(self));
        }
        out
    }
    /// 0..=max, every power of two as likely as the others.
    pub fn size(&mut self, max: usize) -> usize {
        let k = self.range(0, (usize::BITS - max.leading_zeros()) as usize);
        if k == 0 {
            return 0;
        }
        let (lo, hi) = (1 << (k - 1), ((1 << k) - 1).min(max));
        match self.weighted(&[3, 1, 1]) {
            0 => self.range(lo, hi),
            1 => lo,
            _ => hi,
        }
    }
    /// Exactly n draws' worth of bytes.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.draw(256) as u8).collect()
    }
    /// n pseudo-random bytes for the price of two choices.
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let s = self.draw(1 << 20);
        if s == 0 {
            return vec![0; n];
        }
        let mut r = Rng::new(s);
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&r.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.draw(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }

    // --- bookkeeping
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Undoes what was said about the case so far.
    pub fn forget(&mut self) {
        self.nontrivial = false;
        self.key = None;
        self.labels.clear();
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// What makes two cases the same case (default: the sequence of choices).
    pub fn key(&mut self, x: impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        self.key = Some(h.finish());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let mut s = f();
            if s.len() > 4000 {
                let mut end = 4000;
                while !s.is_char_boundary(end) {
                    end -= 1;
                }
                s.truncate(end);
                s.push('…');
            }
            self.desc.push(s);
        }
    }
}

// ------------------------------------------------------------------------------------- properties

pub struct Sub {
    pub name: &'static str,
    pub f: fn(&mut Cx) -> Res,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

pub fn sub(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Cx) -> Res) -> Sub {
    Sub {
        name,
        f,
        quick,
        thorough,
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs `f`, turning a panic into Err(text).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn run_case(s: &Sub, cx: &mut Cx) -> Res {
    match no_panic(|| (s.f)(cx)) {
        Ok(r) => r,
        Err(p) => fail("panic", format!("panicked: {p}")),
    }
}

fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    mix(mix(seed ^ fnv(prop.as_bytes())) ^ fnv(sub.as_bytes())).wrapping_add(mix(i))
}

// ----------------------------------------------------------------------------------- environment

pub struct Env {
    pub verif: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub run_dir: PathBuf,
}

#[derive(Clone)]
struct Known {
    prop: String,
    sig: String,
    text: String,
}

fn known_findings(verif: &Path) -> Vec<Known> {
    let text = fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (prop, rest) = l.split_once(' ')?;
            let (sig, text) = rest.strip_prefix("sig=")?.split_once(' ')?;
            Some(Known {
                prop: prop.into(),
                sig: sig.into(),
                text: text.into(),
            })
        })
        .collect()
}

// ----------------------------------------------------------------------------------- shrinking

fn shrink(s: &Sub, start: Vec<u64>, first: Fail, big: bool, budget: Duration) -> (Vec<u64>, Fail) {
    let t0 = Instant::now();
    let mut runs = 0u32;
    let mut best = start;
    let mut best_fail = first;
    let (kind, sig) = (best_fail.kind.clone(), best_fail.sig.clone());
    let attempt = |cand: &Vec<u64>, runs: &mut u32| -> Option<(Vec<u64>, Fail)> {
        *runs += 1;
        let mut cx = Cx::replaying(cand.clone(), false, big);
        match run_case(s, &mut cx) {
            Err(f) if f.kind == kind && f.sig == sig => Some((cx.choices, f)),
            _ => None,
        }
    };
    let smaller = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    let mut improved = true;
    while improved && t0.elapsed() < budget && runs < 20_000 {
        improved = false;
        // delete blocks
        for k in [64usize, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 && t0.elapsed() < budget {
                i = i.saturating_sub(1);
                if i + k > best.len() {
                    continue;
                }
                let mut c = best.clone();
                c.drain(i..i + k);
                if let Some((c2, f)) = attempt(&c, &mut runs) {
                    if smaller(&c2, &best) {
                        best = c2;
                        best_fail = f;
                        improved = true;
                        i = i.min(best.len());
                    }
                }
            }
        }
        // zero, then lower single values
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            if best[i] != 0 {
                let mut lo = 0u64;
                let mut hi = best[i];
                // try 0 first, then binary search
                let mut cand = 0u64;
                while lo < hi && t0.elapsed() < budget {
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = cand;
                    match attempt(&c, &mut runs) {
                        Some((c2, f)) if smaller(&c2, &best) => {
                            best = c2;
                            best_fail = f;
                            improved = true;
                            hi = cand;
                        }
                        _ => lo = cand + 1,
                    }
                    cand = lo + (hi - lo) / 2;
                }
                // decrement (and delete what the decrement orphans)
                if i < best.len() && best[i] > 0 {
                    for del in 1..=6usize {
                        for at in [i + 1, best.len().saturating_sub(del)] {
                            if i >= best.len() || best[i] == 0 || at + del > best.len() || at <= i {
                                continue;
                            }
                            let mut c = best.clone();
                            c[i] -= 1;
                            c.drain(at..at + del);
                            if let Some((c2, f)) = attempt(&c, &mut runs) {
                                if smaller(&c2, &best) {
                                    best = c2;
                                    best_fail = f;
                                    improved = true;
                                }
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, best_fail)
}

// ----------------------------------------------------------------------------------- driver

#[derive(Default)]
struct SubStats {
    evaluations: u64,
    nontrivial: u64,
    keys: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    known: BTreeMap<String, u64>,
}

struct Violation {
    sub: String,
    index: u64,
    choices: Vec<u64>,
    fail: Fail,
    rendered: Vec<String>,
}

fn json_str(s: &str) -> serde_json::Value {
    serde_json::Value::String(s.to_string())
}

fn write_replay(env: &Env, prop: &str, v: &Violation) -> PathBuf {
    let dir = env.verif.join("replays");
    let _ = fs::create_dir_all(&dir);
    let body = serde_json::json!({
        "property": prop,
        "sub": v.sub,
        "seed": env.seed,
        "index": v.index,
        "thorough": env.thorough,
        "kind": v.fail.kind,
        "message": v.fail.msg,
        "signature": v.fail.sig,
        "case": v.rendered,
        "choices": v.choices,
        "how": format!("bash check.sh --replay <this file>   (run in /verif)"),
    });
    let h = fnv(format!("{}{:?}", v.sub, v.choices).as_bytes()) as u32;
    let path = dir.join(format!("{prop}-{}-{h:08x}.json", v.sub));
    fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
    path
}

const CASE_TIMEOUT: Duration = Duration::from_secs(120);
const STACK: usize = 8 << 20;

/// Runs the whole property in this process. Exit code.
pub fn run_child(p: &Prop, env: &Env) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let soft_limit = Duration::from_secs(if env.thorough { 6 * 3600 } else { 600 });
    let known = known_findings(&env.verif);
    let workers = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(8)
        .clamp(1, 16);
    let scale: f64 = std::env::var("PBT_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let only = std::env::var("PBT_SUB").ok();
    let mut all: Vec<(&Sub, SubStats)> = vec![];
    let mut violations: Vec<Violation> = vec![];
    let slots = File::create(env.run_dir.join("slots")).unwrap();

    for (si, s) in p.subs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != s.name) {
            continue;
        }
        let total = ((if env.thorough { s.thorough } else { s.quick }) as f64 * scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let stats = Mutex::new(SubStats::default());
        let found: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        // per worker: (start ms since t0 + 1, 0 when idle), case index
        let progress: Vec<(AtomicU64, AtomicU64)> =
            (0..workers).map(|_| Default::default()).collect();
        let done = AtomicU64::new(0);
        let sub_t0 = Instant::now();

        std::thread::scope(|scope| {
            for w in 0..workers {
                let (next, stop, stats, found, progress, slots, known, done) = (
                    &next, &stop, &stats, &found, &progress, &slots, &known, &done,
                );
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(scope, move || {
                        let mut local = SubStats::default();
                        loop {
                            if stop.load(Ordering::Relaxed) || t0.elapsed() > soft_limit {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= total {
                                break;
                            }
                            let mut slot = [0u8; 24];
                            slot[0..8].copy_from_slice(&1u64.to_le_bytes());
                            slot[8..16].copy_from_slice(&(si as u64).to_le_bytes());
                            slot[16..24].copy_from_slice(&i.to_le_bytes());
                            let _ = slots.write_at(&slot, w as u64 * 24);
                            progress[w].1.store(i, Ordering::Relaxed);
                            progress[w]
                                .0
                                .store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let seed = case_seed(env.seed, p.id, s.name, i);
                            let want = i < 64;
                            let mut cx = Cx::random(seed, want, env.thorough);
                            let r = run_case(s, &mut cx);
                            progress[w].0.store(0, Ordering::Relaxed);
                            local.evaluations += 1;
                            for l in &cx.labels {
                                *local.labels.entry(l).or_default() += 1;
                            }
                            if cx.nontrivial {
                                local.nontrivial += 1;
                                let k = cx.key.unwrap_or_else(|| {
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    cx.choices.hash(&mut h);
                                    h.finish()
                                });
                                local.keys.insert(k);
                                if want && !cx.desc.is_empty() {
                                    local.samples.push((i, cx.desc.join(" | ")));
                                }
                            }
                            if let Err(f) = r {
                                let is_known = f.sig.as_ref().is_some_and(|sig| {
                                    known.iter().any(|k| k.prop == p.id && &k.sig == sig)
                                });
                                if is_known {
                                    *local.known.entry(f.sig.clone().unwrap()).or_default() += 1;
                                } else {
                                    stop.store(true, Ordering::Relaxed);
                                    found.lock().unwrap().push(Violation {
                                        sub: s.name.into(),
                                        index: i,
                                        choices: cx.choices,
                                        fail: f,
                                        rendered: vec![],
                                    });
                                }
                            }
                        }
                        let _ = slots.write_at(&[0u8; 24], w as u64 * 24);
                        let mut g = stats.lock().unwrap();
                        g.evaluations += local.evaluations;
                        g.nontrivial += local.nontrivial;
                        g.keys.extend(local.keys);
                        g.samples.extend(local.samples);
                        for (k, v) in local.labels {
                            *g.labels.entry(k).or_default() += v;
                        }
                        for (k, v) in local.known {
                            *g.known.entry(k).or_default() += v;
                        }
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let mut poll = Duration::from_millis(2);
            while done.load(Ordering::SeqCst) < workers as u64 {
                std::thread::sleep(poll);
                poll = (poll * 2).min(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64;
                for pr in &progress {
                    let st = pr.0.load(Ordering::Relaxed);
                    if st != 0 && now > st && now - st > CASE_TIMEOUT.as_millis() as u64 {
                        let i = pr.1.load(Ordering::Relaxed);
                        // does not return: replay by seed, not by choices
                        let v = Violation {
                            sub: s.name.into(),
                            index: i,
                            choices: vec![],
                            fail: Fail {
                                kind: "hang".into(),
                                msg: format!("case did not finish within {CASE_TIMEOUT:?}"),
                                sig: None,
                            },
                            rendered: vec![],
                        };
                        let path = write_replay(env, p.id, &v);
                        // not println: a panic here would wait for the workers
                        let mut o = std::io::stdout();
                        let _ = writeln!(o, "property {} [{}]: {}", p.id, s.name, v.fail.msg);
                        let _ = writeln!(o, "VIOLATION property={} replay={}", p.id, path.display());
                        let _ = o.flush();
                        std::process::exit(1);
                    }
                }
            }
        });

        let stats = stats.into_inner().unwrap();
        let mut found = found.into_inner().unwrap();
        eprintln!(
            "  [{}] {} cases, {} nontrivial, {} distinct, {:.1}s {:?}",
            s.name,
            stats.evaluations,
            stats.nontrivial,
            stats.keys.len(),
            sub_t0.elapsed().as_secs_f64(),
            stats.labels
        );
        found.sort_by_key(|v| v.index);
        let any = !found.is_empty();
        if let Some(v) = found.into_iter().next() {
            // shrink on a thread with the same stack
            let shrunk = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, || {
                        let (choices, fail) = shrink(
                            s,
                            v.choices,
                            v.fail,
                            env.thorough,
                            Duration::from_secs(30),
                        );
                        let mut cx = Cx::replaying(choices.clone(), true, env.thorough);
                        let _ = run_case(s, &mut cx);
                        Violation {
                            choices,
                            fail,
                            rendered: cx.desc,
                            sub: v.sub,
                            index: v.index,
                        }
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            });
            violations.push(shrunk);
        }
        all.push((s, stats));
        if any {
            break;
        }
    }

    // known findings are printed whether or not a violation was found as well
    let mut printed = HashSet::new();
    for (_, st) in &all {
        for sig in st.known.keys() {
            if printed.insert(sig.clone()) {
                let text = known
                    .iter()
                    .find(|k| k.prop == p.id && &k.sig == sig)
                    .map(|k| k.text.clone())
                    .unwrap_or_default();
                println!("KNOWN-FINDING: property={} {}", p.id, text);
            }
        }
    }

    write_evidence(p, env, &all, violations.len(), t0.elapsed());

    for v in &violations {
        let path = write_replay(env, p.id, v);
        println!("property {} [{}] case {}: {}", p.id, v.sub, v.index, v.fail.msg);
        for d in &v.rendered {
            println!("    {d}");
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    if !violations.is_empty() {
        return 1;
    }
    if only.is_none() {
        for (s, st) in &all {
            if st.nontrivial == 0 {
                eprintln!("error: [{}] generated no non-trivial case", s.name);
                return 2;
            }
        }
    }
    0
}

fn write_evidence(p: &Prop, env: &Env, all: &[(&Sub, SubStats)], violations: usize, wall: Duration) {
    let evaluations: u64 = all.iter().map(|(_, s)| s.evaluations).sum();
    let distinct: u64 = all.iter().map(|(_, s)| s.keys.len() as u64).sum();
    let mut samples = vec![];
    let mut subs = serde_json::Map::new();
    for (s, st) in all {
        let mut sm = st.samples.clone();
        sm.sort();
        for (i, d) in sm.iter().take(2) {
            let mut d = d.clone();
            if d.len() > 1500 {
                let mut e = 1500;
                while !d.is_char_boundary(e) {
                    e -= 1;
                }
                d.truncate(e);
                d.push('…');
            }
            samples.push(json_str(&format!("{}#{}: {}", s.name, i, d)));
        }
        subs.insert(
            s.name.to_string(),
            serde_json::json!({
                "evaluations": st.evaluations,
                "nontrivial": st.nontrivial,
                "distinct_nontrivial": st.keys.len(),
                "classes": st.labels,
                "known_findings_hit": st.known,
            }),
        );
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if env.thorough { "thorough" } else { "quick" },
        "seed": env.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples,
            "subchecks": subs,
        },
        "assumptions": p.assumptions,
        "wall_s": wall.as_secs_f64(),
        "violations": violations,
    });
    let dir = env.verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .unwrap();
}

// ------------------------------------------------------------------------- one case, own process

/// Runs one case; the choices go to `trace` as they are drawn. 0 pass, 1 fail.
pub fn run_one(p: &Prop, env: &Env, sub: &str, index: u64, choices: Option<Vec<u64>>, trace: Option<&Path>) -> i32 {
    install_hook();
    let s = p.subs.iter().find(|s| s.name == sub).expect("no such sub-check");
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || {
                let mut cx = match choices {
                    Some(c) => {
                        let mut cx = Cx::replaying(c, true, env.thorough);
                        cx.tail = std::env::var("PBT_TAIL").ok().and_then(|s| s.parse().ok()).map(Rng::new);
                        cx
                    }
                    None => Cx::random(case_seed(env.seed, p.id, sub, index), true, env.thorough),
                };
                cx.trace = trace.map(|t| File::create(t).unwrap());
                let r = run_case(s, &mut cx);
                if trace.is_none() {
                    for d in &cx.desc {
                        println!("    {d}");
                    }
                }
                match r {
                    Ok(()) => {
                        if trace.is_none() {
                            println!("case passes");
                        }
                        0
                    }
                    Err(f) => {
                        if trace.is_none() {
                            println!("case fails [{}]: {}", f.kind, f.msg);
                        }
                        1
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

fn read_trace(path: &Path) -> Vec<u64> {
    fs::read(path)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

/// Some(signal) when the case kills the process.
fn crashes(env: &Env, p: &Prop, sub: &str, index: u64, choices: Option<&[u64]>) -> Option<(i32, Vec<u64>)> {
    let trace = env.run_dir.join("trace");
    let cfile = env.run_dir.join("choices");
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("one").arg(p.id).arg(sub).arg(index.to_string()).arg(&trace);
    if let Some(c) = choices {
        fs::write(&cfile, serde_json::to_string(c).unwrap()).unwrap();
        cmd.arg(&cfile);
    }
    cmd.env("VERIF_SEED", env.seed.to_string())
        .env("VERIF_TIER", if env.thorough { "thorough" } else { "quick" })
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null());
    let st = cmd.status().ok()?;
    st.signal().map(|s| (s, read_trace(&trace)))
}

/// Runs the property in a child process; if that dies from a signal, finds the case that kills it.
pub fn run_parent(p: &Prop, env: &Env) -> i32 {
    let t0 = Instant::now();
    let st = Command::new(std::env::current_exe().unwrap())
        .arg("child")
        .arg(p.id)
        .env("PBT_RUN_DIR", &env.run_dir)
        .status()
        .expect("cannot start the child");
    if let Some(code) = st.code() {
        return code;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("child died from signal {sig}; looking for the case");
    let slots = fs::read(env.run_dir.join("slots")).unwrap_or_default();
    let mut cands = vec![];
    for c in slots.chunks_exact(24) {
        let g = |i: usize| u64::from_le_bytes(c[i * 8..i * 8 + 8].try_into().unwrap());
        if g(0) == 1 {
            cands.push((g(1) as usize, g(2)));
        }
    }
    cands.sort();
    for (si, i) in cands {
        let Some(s) = p.subs.get(si) else { continue };
        if let Some((sig, trace)) = crashes(env, p, s.name, i, None) {
            let mut best = trace;
            let ts = Instant::now();
            let mut k = (best.len() / 2).max(1);
            while ts.elapsed() < Duration::from_secs(30) {
                let mut pos = 0;
                let mut improved = false;
                while pos + k <= best.len() && ts.elapsed() < Duration::from_secs(30) {
                    let mut c = best.clone();
                    c.drain(pos..pos + k);
                    match crashes(env, p, s.name, i, Some(&c)) {
                        Some((_, t)) if t.len() < best.len() => {
                            best = t;
                            improved = true;
                        }
                        _ => pos += k,
                    }
                }
                if k == 1 && !improved {
                    break;
                }
                if !improved || k > best.len() {
                    k = (k / 2).max(1);
                }
            }
            let v = Violation {
                sub: s.name.into(),
                index: i,
                choices: best,
                fail: Fail {
                    kind: "crash".into(),
                    msg: format!("the process died from signal {sig} (6: abort/stack overflow/out of memory, 11: segmentation fault)"),
                    sig: None,
                },
                rendered: vec![],
            };
            let path = write_replay(env, p.id, &v);
            println!("property {} [{}] case {}: {}", p.id, v.sub, v.index, v.fail.msg);
            let mut st = SubStats {
                evaluations: i + 1,
                ..Default::default()
            };
            st.labels.insert("crashed", 1);
            write_evidence(p, env, &[(s, st)], 1, t0.elapsed());
            println!("VIOLATION property={} replay={}", p.id, path.display());
            return 1;
        }
    }
    eprintln!("error: child died from signal {sig} and no single case reproduces it");
    2
}

pub fn replay(props: &[Prop], env: &mut Env, file: &Path) -> i32 {
    let v: serde_json::Value =
        serde_json::from_str(&fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let sub = v["sub"].as_str().unwrap();
    let choices: Vec<u64> = v["choices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| c.as_u64().unwrap())
        .collect();
    env.seed = v["seed"].as_u64().unwrap();
    env.thorough = v["thorough"].as_bool().unwrap_or(false);
    let index = v["index"].as_u64().unwrap();
    let p = props.iter().find(|p| p.id == id).expect("property");
    let choices = if v["kind"] == "hang" { None } else { Some(choices) };
    run_one(p, env, sub, index, choices, None)
}
