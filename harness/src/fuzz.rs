//! Coverage-guided search over the choice sequences of the properties: the thorough tier runs it on a build whose
//! edges are counted (see check.sh). Each worker is a process of its own; they share the sequences that reached
//! something new.
use super::*;
use std::sync::atomic::AtomicUsize;

static REGIONS: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);

/// Called at the start by code compiled with edge counters.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let r = (start as usize, stop as usize);
    let mut g = REGIONS.lock().unwrap();
    if r.1 > r.0 && !g.contains(&r) {
        g.push(r);
    }
}

/// Constants the code compares with.
const WORDS: usize = 1024;
static WORD: [AtomicU64; WORDS] = {
    const NONE: AtomicU64 = AtomicU64::new(0);
    [NONE; WORDS]
};
static SEEN: AtomicUsize = AtomicUsize::new(0);

fn word(c: u64, x: u64) {
    if c != x && c > 1 {
        let slot = &WORD[(mix(c) as usize) % WORDS];
        if slot.load(Ordering::Relaxed) != c {
            slot.store(c, Ordering::Relaxed);
            SEEN.fetch_add(1, Ordering::Relaxed);
        }
    }
}
macro_rules! compare {
    ($($c:ident $p:ident $t:ty),*) => { $(
        #[no_mangle]
        pub extern "C" fn $c(a: $t, b: $t) {
            word(a as u64, b as u64);
        }
        #[no_mangle]
        pub extern "C" fn $p(_: $t, _: $t) {}
    )* };
}
compare!(
    __sanitizer_cov_trace_const_cmp1 __sanitizer_cov_trace_cmp1 u8,
    __sanitizer_cov_trace_const_cmp2 __sanitizer_cov_trace_cmp2 u16,
    __sanitizer_cov_trace_const_cmp4 __sanitizer_cov_trace_cmp4 u32,
    __sanitizer_cov_trace_const_cmp8 __sanitizer_cov_trace_cmp8 u64
);
/// The number of cases, the size of the value, the cases.
///
/// # Safety
/// Called by instrumented code only.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(x: u64, cases: *const u64) {
    for i in 0..(*cases).min(64) as usize {
        word(*cases.add(2 + i), x);
    }
}

/// A value the code under test compares something with, or one beside it.
fn a_word(rng: &mut Rng) -> u64 {
    for _ in 0..8 {
        let w = WORD[rng.below(WORDS as u64) as usize].load(Ordering::Relaxed);
        if w != 0 {
            return w.wrapping_add(rng.below(3)).wrapping_sub(1);
        }
    }
    rng.below(256)
}

struct Coverage {
    regions: Vec<(usize, usize)>,
    /// per edge: which numbers of hits (as bits) have been seen
    seen: Vec<Vec<u8>>,
    edges: usize,
}

impl Coverage {
    fn clear(&self) {
        for r in &self.regions {
            unsafe { std::ptr::write_bytes(r.0 as *mut u8, 0, r.1 - r.0) };
        }
    }
    /// Takes in the last run; whether it did anything new.
    fn take(&mut self) -> bool {
        let mut new = false;
        for (r, seen) in self.regions.iter().zip(&mut self.seen) {
            let hits = unsafe { std::slice::from_raw_parts(r.0 as *const u8, r.1 - r.0) };
            let mut i = 0;
            while i < hits.len() {
                // most edges were not taken
                if i % 8 == 0 && i + 8 <= hits.len() && hits[i..i + 8] == [0; 8] {
                    i += 8;
                    continue;
                }
                let (h, s) = (&hits[i], &mut seen[i]);
                i += 1;
                if *h == 0 {
                    continue;
                }
                let bit = match h {
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if *s & bit == 0 {
                    self.edges += (*s == 0) as usize;
                    *s |= bit;
                    new = true;
                }
            }
        }
        new
    }
}

fn mutate(rng: &mut Rng, corpus: &[Vec<u64>]) -> Vec<u64> {
    let at = |rng: &mut Rng| {
        // the newest are the most interesting
        let n = corpus.len() as u64;
        let i = if rng.below(2) == 0 { rng.below(n) } else { n - 1 - rng.below(n.min(16)) };
        &corpus[i as usize]
    };
    let mut c = at(rng).clone();
    for _ in 0..1 + rng.below(4) {
        let n = c.len() as u64;
        if n == 0 {
            break;
        }
        let i = rng.below(n) as usize;
        let k = (1 + rng.below(8)).min(n - i as u64) as usize;
        match rng.below(10) {
            0 | 1 => c[i] = rng.next() >> rng.below(64),
            2 => c[i] = c[i].wrapping_add(1 + rng.below(4)).wrapping_sub(rng.below(6)),
            3 => c[i] = a_word(rng),
            4 => {
                c.drain(i..i + k);
            }
            5 => {
                let block = c[i..i + k].to_vec();
                let j = rng.below(n + 1) as usize;
                c.splice(j..j, block);
            }
            6 => {
                let block: Vec<u64> = (0..k).map(|_| rng.next() >> rng.below(64)).collect();
                c.splice(i..i, block);
            }
            7 => {
                let other = at(rng);
                if !other.is_empty() {
                    let j = rng.below(other.len() as u64) as usize;
                    let l = (1 + rng.below(32)).min((other.len() - j) as u64) as usize;
                    let end = if rng.below(2) == 0 { i } else { (i + l).min(c.len()) };
                    c.splice(i..end, other[j..j + l].iter().copied());
                }
            }
            8 => c[i] = if c[i] == 0 { 1 } else { 0 },
            _ => c.truncate(i),
        }
    }
    c.truncate(60_000);
    c
}

/// One worker. Exit code.
pub fn worker(p: &Prop, env: &Env, sub: &str, w: usize, workers: usize, secs: f64) -> i32 {
    install_hook();
    let s = p.subs.iter().find(|s| s.name == sub).expect("no such sub-check");
    let regions = REGIONS.lock().unwrap().clone();
    if regions.is_empty() {
        eprintln!("error: nothing counts the edges");
        return 2;
    }
    let known = known_findings(&env.verif);
    let started = AtomicU64::new(0);
    let t0 = Instant::now();
    let file = |kind: &str, w: usize| env.run_dir.join(format!("{kind}-{sub}-{w}"));
    let (mut found, mut cases, mut nontrivial, mut edges, mut kept) = (None, 0u64, 0u64, 0, 0);
    let done = AtomicBool::new(false);
    std::thread::scope(|scope| {
        let (done, started) = (&done, &started);
        scope.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let st = started.load(Ordering::Relaxed);
                if st != 0 && t0.elapsed().as_millis() as u64 > st + CASE_TIMEOUT.as_millis() as u64 {
                    std::process::exit(70);
                }
            }
        });
        let search = || {
            let mut cov = Coverage { seen: regions.iter().map(|r| vec![0; r.1 - r.0]).collect(), regions, edges: 0 };
            let mut rng = Rng::new(case_seed(env.seed, p.id, sub, 1 << 40 | w as u64));
            let mut corpus: Vec<Vec<u64>> = vec![];
            let last = File::create(file("last", w)).unwrap();
            let mut own = File::create(file("corpus", w)).unwrap();
            let mut read: Vec<u64> = vec![0; workers];
            let mut polled = Instant::now();
            let mut imports: Vec<Vec<u64>> = vec![];
            while t0.elapsed().as_secs_f64() < secs {
                if polled.elapsed() > Duration::from_secs(2) {
                    polled = Instant::now();
                    for (o, at) in read.iter_mut().enumerate().filter(|o| o.0 != w) {
                        let Ok(f) = File::open(file("corpus", o)) else { continue };
                        let mut n = [0u8; 8];
                        while f.read_exact_at(&mut n, *at).is_ok() {
                            let mut b = vec![0u8; u64::from_le_bytes(n) as usize * 8];
                            if f.read_exact_at(&mut b, *at + 8).is_err() {
                                break;
                            }
                            *at += 8 + b.len() as u64;
                            imports.push(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect());
                        }
                    }
                }
                let imported = imports.pop();
                let foreign = imported.is_some();
                let seq = match imported {
                    Some(c) => c,
                    None if corpus.is_empty() || rng.below(6) == 0 => vec![],
                    None => mutate(&mut rng, &corpus),
                };
                let tail = rng.next();
                let record: Vec<u8> = [&[seq.len() as u64, tail][..], &seq].concat().iter().flat_map(|v| v.to_le_bytes()).collect();
                let _ = last.write_at(&record, 0);
                let mut cx = Cx::replaying(seq, false, env.thorough);
                cx.tail = Some(Rng::new(tail));
                started.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                cov.clear();
                let r = run_case(s, &mut cx);
                let new = cov.take();
                started.store(0, Ordering::Relaxed);
                cases += 1;
                nontrivial += cx.nontrivial as u64;
                if new {
                    if !foreign {
                        let b: Vec<u8> = [&[cx.choices.len() as u64][..], &cx.choices].concat().iter().flat_map(|v| v.to_le_bytes()).collect();
                        let _ = own.write_all(&b);
                        kept += 1;
                    }
                    corpus.push(cx.choices.clone());
                }
                if let Err(f) = r {
                    let is_known = f.sig.as_ref().is_some_and(|sig| known.iter().any(|k| k.prop == p.id && &k.sig == sig));
                    if !is_known {
                        let (choices, fail) = shrink(s, cx.choices, f, env.thorough, Duration::from_secs(30));
                        let mut cx = Cx::replaying(choices.clone(), true, env.thorough);
                        let _ = run_case(s, &mut cx);
                        found = Some(Violation { sub: sub.into(), index: 0, choices, fail, rendered: cx.desc });
                        break;
                    }
                }
            }
            edges = cov.edges;
            done.store(true, Ordering::Relaxed);
        };
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(scope, search).unwrap().join().unwrap();
    });
    let stats = serde_json::json!({"cases": cases, "nontrivial": nontrivial, "edges": edges, "kept": kept});
    fs::write(file("stats", w), stats.to_string()).unwrap();
    let Some(v) = found else { return 0 };
    let path = write_replay(env, p.id, &v);
    println!("property {} [{}] coverage-guided: {}", p.id, v.sub, v.fail.msg);
    for d in &v.rendered {
        println!("    {d}");
    }
    println!("VIOLATION property={} replay={}", p.id, path.display());
    1
}

/// All sub-checks of a property, `secs` seconds in total; adds what was done to the evidence. Exit code.
pub fn search(p: &Prop, env: &Env, secs: f64) -> i32 {
    let workers = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(1, 16);
    let only = std::env::var("PBT_SUB").ok();
    let subs: Vec<_> = p.subs.iter().filter(|s| only.as_deref().map_or(true, |o| o == s.name)).collect();
    let each = secs / subs.len() as f64;
    let mut shown = serde_json::Map::new();
    let (mut all, mut code) = (0, 0);
    for s in subs {
        let mut children: Vec<_> = (0..workers)
            .map(|w| {
                Command::new(std::env::current_exe().unwrap())
                    .args(["fuzzer", p.id, s.name, &w.to_string(), &workers.to_string(), &each.to_string()])
                    .env("PBT_RUN_DIR", &env.run_dir)
                    .stderr(std::process::Stdio::null())
                    .spawn()
                    .expect("cannot start a worker")
            })
            .collect();
        let (mut cases, mut nontrivial, mut edges, mut kept) = (0, 0, 0, 0);
        for (w, c) in children.iter_mut().enumerate() {
            let st = c.wait().unwrap();
            if let Ok(t) = fs::read_to_string(env.run_dir.join(format!("stats-{}-{w}", s.name))) {
                let v: serde_json::Value = serde_json::from_str(&t).unwrap();
                let n = |k: &str| v[k].as_u64().unwrap();
                cases += n("cases");
                nontrivial += n("nontrivial");
                kept += n("kept");
                edges = edges.max(n("edges"));
            }
            match st.code() {
                Some(0) => continue,
                Some(1) => code = 1,
                Some(2) => return 2,
                other => {
                    // the case it was at
                    let record: Vec<u64> = read_trace(&env.run_dir.join(format!("last-{}-{w}", s.name)));
                    let (seq, tail) = match &record[..] {
                        [n, tail, seq @ ..] => (seq[..(*n as usize).min(seq.len())].to_vec(), *tail),
                        _ => (vec![], 0),
                    };
                    std::env::set_var("PBT_TAIL", tail.to_string());
                    let (choices, why) = if other == Some(70) {
                        (seq, "the case did not finish".to_string())
                    } else {
                        match crashes(env, p, s.name, 0, Some(&seq)) {
                            Some((sig, trace)) => (trace, format!("the process died from signal {sig}")),
                            None => {
                                eprintln!("error: a worker ended with {st} and its case does not reproduce it");
                                return 2;
                            }
                        }
                    };
                    std::env::remove_var("PBT_TAIL");
                    let fail = Fail { kind: "crash".into(), msg: why, sig: None };
                    let v = Violation { sub: s.name.into(), index: 0, choices, fail, rendered: vec![] };
                    let path = write_replay(env, p.id, &v);
                    println!("property {} [{}] coverage-guided: {}", p.id, s.name, v.fail.msg);
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    code = 1;
                }
            }
        }
        eprintln!("  [{}] coverage-guided: {cases} cases, {nontrivial} nontrivial, {edges} edges, {kept} kept", s.name);
        all += cases;
        shown.insert(s.name.into(), serde_json::json!({"evaluations": cases, "nontrivial": nontrivial, "edges": edges, "kept": kept}));
        if code != 0 {
            break;
        }
    }
    let path = env.verif.join(format!("evidence/{}.json", p.id));
    if let Some(mut ev) = fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) {
        ev["coverage"]["coverage_guided"] = shown.into();
        ev["coverage"]["evaluations"] = (ev["coverage"]["evaluations"].as_u64().unwrap_or(0) + all).into();
        ev["wall_s"] = (ev["wall_s"].as_f64().unwrap_or(0.0) + secs).into();
        if code != 0 {
            ev["violations"] = 1.into();
        }
        fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    }
    code
}
