//! Stateless explorer: a *space* is a deterministic body that asks the context to `choose`
//! among n alternatives; the explorer runs the body once for every leaf of the choice tree.
//! Nothing is sampled. Work is shared between threads as ranges of sibling choices.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
/// Small deterministic 64-bit hasher (fx-style multiply/rotate with a final avalanche).
pub struct Fx(u64);
impl Fx {
    fn add(&mut self, v: u64) {
        let x = (self.0.rotate_left(23) ^ v).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 = x ^ (x >> 29);
    }
}
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(x));
        }
        self.add(b.len() as u64);
    }
    fn write_u8(&mut self, i: u8) {
        self.add(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.add(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64)
    }
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 32;
        x
    }
}

pub struct Shards(Vec<Mutex<HashSet<u64>>>);
impl Shards {
    pub fn new() -> Self {
        Shards((0..64).map(|_| Mutex::new(HashSet::new())).collect())
    }
    pub fn insert(&self, h: u64) -> bool {
        self.0[(h >> 58) as usize].lock().unwrap().insert(h)
    }
    pub fn len(&self) -> usize {
        self.0.iter().map(|s| s.lock().unwrap().len()).sum()
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    /// short stable class of the failure, used for grouping
    pub sig: String,
    /// one-line description
    pub msg: String,
    /// the input, written out
    pub input: String,
}
pub enum Res {
    /// executed and agreed; payload is a hash of the observed outcome
    Ok(u64),
    /// nothing to execute at this leaf (duplicate or degenerate)
    Skip,
    Fail(Failure),
}
pub fn fail(sig: impl Into<String>, msg: impl Into<String>, input: impl Into<String>) -> Res {
    Res::Fail(Failure { sig: sig.into(), msg: msg.into(), input: input.into() })
}

pub struct Ctx<'a> {
    prefix: &'a [u32],
    pub log: Vec<(u32, u32)>,
    states: &'a Shards,
    /// extra executions of the implementation inside this leaf
    pub execs: u64,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub dedupe: bool,
}
impl<'a> Ctx<'a> {
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "engine: choose(0)");
        if n == 1 {
            return 0;
        }
        let i = self.log.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "engine: replay diverged at choice {i}: {c} >= {n}");
        self.log.push((c, n as u32));
        c as usize
    }
    pub fn pick<'b, T>(&mut self, s: &'b [T]) -> &'b T {
        &s[self.choose(s.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// Record the canonical input of this leaf. Returns false when it was seen before.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) -> bool {
        let new = self.states.insert(h64(t));
        new || !self.dedupe
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let q = QUIET.with(|q| *q.borrow());
        if q {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} ({loc})")));
        } else {
            old(info);
        }
    }));
}
/// Run code under test; a panic in it becomes an Err with its message.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| format!("PANIC {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()))
}

pub type Body = Box<dyn Fn(&mut Ctx) -> Res + Sync + Send>;
pub struct Space {
    pub name: String,
    pub bound: String,
    pub body: Body,
    pub dedupe: bool,
}
pub fn space(name: impl Into<String>, bound: impl Into<String>, body: impl Fn(&mut Ctx) -> Res + Sync + Send + 'static) -> Space {
    Space { name: name.into(), bound: bound.into(), body: Box::new(body), dedupe: true }
}

#[derive(Default, Debug)]
pub struct SpaceResult {
    pub name: String,
    pub bound: String,
    pub leaves: u64,
    pub skipped: u64,
    pub execs: u64,
    pub transitions: u64,
    pub complete: bool,
    pub wall: f64,
    pub states: usize,
    pub outcomes: usize,
    pub samples: Vec<String>,
    pub failures: Vec<(Vec<u32>, Failure)>,
    pub n_failures: u64,
}

struct Item {
    base: Vec<u32>,
    lo: u32,
    hi: u32,
}

pub struct Slots {
    pub file: std::fs::File,
}
pub const SLOT: usize = 512;
impl Slots {
    pub fn put(&self, thread: usize, space: usize, prefix: &[u32]) {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; SLOT];
        let n = prefix.len().min(SLOT / 4 - 2);
        b[0..4].copy_from_slice(&(space as u32 + 1).to_le_bytes());
        b[4..8].copy_from_slice(&(n as u32).to_le_bytes());
        for i in 0..n {
            b[8 + 4 * i..12 + 4 * i].copy_from_slice(&prefix[i].to_le_bytes());
        }
        let _ = self.file.write_at(&b[..8 + 4 * n], (thread * SLOT) as u64);
    }
    pub fn clear(&self, thread: usize) {
        use std::os::unix::fs::FileExt;
        let _ = self.file.write_at(&[0u8; 8], (thread * SLOT) as u64);
    }
}
pub fn read_slots(path: &str) -> Vec<(usize, Vec<u32>)> {
    let d = std::fs::read(path).unwrap_or_default();
    let mut out = vec![];
    for s in d.chunks(SLOT) {
        if s.len() < 8 {
            continue;
        }
        let u = |i: usize| u32::from_le_bytes(s[i..i + 4].try_into().unwrap());
        let sp = u(0);
        if sp == 0 {
            continue;
        }
        let n = u(4) as usize;
        if s.len() < 8 + 4 * n {
            continue;
        }
        out.push((sp as usize - 1, (0..n).map(|i| u(8 + 4 * i)).collect()));
    }
    out
}

pub struct Opts<'a> {
    pub threads: usize,
    pub deadline: Instant,
    pub slots: Option<&'a Slots>,
    pub hang_after: Duration,
    pub stack: usize,
}

pub fn run_one(sp: &Space, prefix: &[u32]) -> (Res, Vec<(u32, u32)>) {
    let st = Shards::new();
    let mut c = Ctx { prefix, log: vec![], states: &st, execs: 0, sample: None, want_sample: true, dedupe: false };
    let r = (sp.body)(&mut c);
    (r, c.log)
}

pub fn explore(idx: usize, sp: &Space, o: &Opts) -> SpaceResult {
    let t0 = Instant::now();
    let states = Shards::new();
    let outcomes = Shards::new();
    let global: Mutex<Vec<Item>> = Mutex::new(vec![Item { base: vec![], lo: 0, hi: 0 }]);
    let glen = AtomicUsize::new(1);
    let pending = AtomicUsize::new(1);
    let stop = AtomicBool::new(false);
    let out: Mutex<SpaceResult> = Mutex::new(SpaceResult { name: sp.name.clone(), bound: sp.bound.clone(), ..Default::default() });
    let epoch = Instant::now();
    let started: Vec<AtomicU64> = (0..o.threads).map(|_| AtomicU64::new(0)).collect();
    let live = AtomicUsize::new(o.threads);
    let engine_err: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..o.threads {
            let (states, outcomes, global, glen, pending, stop, out, started, live, engine_err) =
                (&states, &outcomes, &global, &glen, &pending, &stop, &out, &started, &live, &engine_err);
            std::thread::Builder::new()
                .stack_size(o.stack)
                .spawn_scoped(s, move || {
                    struct Dec<'a>(&'a AtomicUsize);
                    impl Drop for Dec<'_> {
                        fn drop(&mut self) {
                            self.0.fetch_sub(1, SeqCst);
                        }
                    }
                    let _d = Dec(live);
                    let mut local: Vec<Item> = vec![];
                    let mut r = SpaceResult::default();
                    let mut next_sample = 1u64;
                    loop {
                        if stop.load(Relaxed) {
                            break;
                        }
                        let it = match local.pop() {
                            Some(i) => Some(i),
                            None => {
                                let mut g = global.lock().unwrap();
                                let i = g.pop();
                                if i.is_some() {
                                    glen.fetch_sub(1, SeqCst);
                                }
                                i
                            }
                        };
                        let Some(mut it) = it else {
                            if pending.load(SeqCst) == 0 {
                                break;
                            }
                            std::thread::sleep(Duration::from_micros(50));
                            continue;
                        };
                        if it.hi - it.lo > 1 && glen.load(Relaxed) < o.threads {
                            // give the upper half away
                            let mid = it.lo + (it.hi - it.lo) / 2;
                            pending.fetch_add(1, SeqCst);
                            global.lock().unwrap().push(Item { base: it.base.clone(), lo: mid, hi: it.hi });
                            glen.fetch_add(1, SeqCst);
                            it.hi = mid;
                        }
                        let mut prefix = it.base.clone();
                        if it.hi > 0 {
                            prefix.push(it.lo);
                            it.lo += 1;
                        }
                        if it.lo < it.hi {
                            local.push(it);
                        } else {
                            pending.fetch_sub(1, SeqCst);
                        }
                        // account for this leaf while it runs, so that idle threads do not leave
                        pending.fetch_add(1, SeqCst);
                        if let Some(s) = o.slots {
                            s.put(t, idx, &prefix);
                        }
                        started[t].store(epoch.elapsed().as_millis() as u64 + 1, Relaxed);
                        let want = r.leaves + 1 >= next_sample;
                        let mut c = Ctx { prefix: &prefix, log: vec![], states, execs: 0, sample: None, want_sample: want, dedupe: sp.dedupe };
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sp.body)(&mut c)));
                        started[t].store(0, Relaxed);
                        let log = std::mem::take(&mut c.log);
                        let (execs, sample) = (c.execs, c.sample.take());
                        r.leaves += 1;
                        match res {
                            Err(_) => {
                                *engine_err.lock().unwrap() = Some(format!("space {} choices {:?}", sp.name, prefix));
                                stop.store(true, SeqCst);
                                pending.fetch_sub(1, SeqCst);
                                break;
                            }
                            Ok(Res::Skip) => r.skipped += 1,
                            Ok(Res::Ok(h)) => {
                                r.execs += 1 + execs;
                                outcomes.insert(h);
                                if let Some(s) = sample {
                                    next_sample = next_sample * 40 + 1;
                                    if r.samples.len() < 3 {
                                        r.samples.push(s);
                                    }
                                }
                            }
                            Ok(Res::Fail(f)) => {
                                r.execs += 1 + execs;
                                r.n_failures += 1;
                                let same = r.failures.iter().filter(|(_, g)| g.sig == f.sig).count();
                                if same < 20 && r.failures.len() < 400 {
                                    r.failures.push((log.iter().map(|x| x.0).collect(), f));
                                }
                            }
                        }
                        r.transitions += (log.len().max(prefix.len()) - prefix.len()) as u64 + u64::from(!prefix.is_empty());
                        let choices: Vec<u32> = log.iter().map(|x| x.0).collect();
                        for i in prefix.len()..log.len() {
                            if log[i].1 > 1 {
                                pending.fetch_add(1, SeqCst);
                                local.push(Item { base: choices[..i].to_vec(), lo: 1, hi: log[i].1 });
                            }
                        }
                        pending.fetch_sub(1, SeqCst);
                        if r.leaves % 64 == 0 && Instant::now() > o.deadline {
                            stop.store(true, SeqCst);
                        }
                        if local.len() > 8 && glen.load(Relaxed) < o.threads / 2 {
                            let k = local.len() / 2;
                            let give: Vec<Item> = local.drain(..k).collect();
                            glen.fetch_add(give.len(), SeqCst);
                            global.lock().unwrap().extend(give);
                        }
                    }
                    if let Some(s) = o.slots {
                        s.clear(t);
                    }
                    let mut g = out.lock().unwrap();
                    g.leaves += r.leaves;
                    g.skipped += r.skipped;
                    g.execs += r.execs;
                    g.transitions += r.transitions;
                    g.n_failures += r.n_failures;
                    g.samples.extend(r.samples);
                    g.failures.extend(r.failures);
                })
                .unwrap();
        }
        // watchdog
        while live.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(5));
            let now = epoch.elapsed().as_millis() as u64 + 1;
            for st in &started {
                let b = st.load(Relaxed);
                if b != 0 && now > b + o.hang_after.as_millis() as u64 {
                    eprintln!("engine: a case is still running after {:?}", o.hang_after);
                    std::process::exit(97);
                }
            }
        }
    });
    if let Some(e) = engine_err.into_inner().unwrap() {
        eprintln!("engine: harness panicked in {e}");
        std::process::exit(98);
    }
    let mut r = out.into_inner().unwrap();
    r.complete = !stop.load(SeqCst);
    r.states = states.len();
    r.outcomes = outcomes.len();
    r.wall = t0.elapsed().as_secs_f64();
    r.failures.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    r
}
