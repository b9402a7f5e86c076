//! Exhaustive exploration of choice trees on the real code.
//!
//! A scenario is a function that makes all of its choices through [`Ctx`]; the explorer runs it
//! once for every leaf of the tree of choices.  Nothing is sampled: an exploration either covers
//! the tree or says how far it came.
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub mod json;
pub mod cli;

/// What a scenario run ends with: `Err` is a violation of the property.
pub type Outcome = Result<(), String>;
pub type Body = dyn Fn(&mut Ctx) -> Outcome + Sync;

/// One explored tree.
pub struct Scenario {
    pub name: &'static str,
    /// What the tree ranges over, for the evidence.
    pub about: String,
    pub body: Box<Body>,
    /// Prefixes that cover the tree, for executions too long to be repeated for finding them.
    pub roots: Vec<Vec<u32>>,
    /// Executions must not run at the same time.
    pub serial: bool,
}

impl Scenario {
    pub fn new(
        name: &'static str,
        about: impl Into<String>,
        body: impl Fn(&mut Ctx) -> Outcome + Sync + 'static,
    ) -> Self {
        Scenario { name, about: about.into(), body: Box::new(body), roots: Vec::new(), serial: false }
    }
}

impl Scenario {
    /// Explores from the given prefixes (which must cover the tree) at once.
    pub fn roots(mut self, roots: Vec<Vec<u32>>) -> Self {
        self.roots = roots;
        self
    }

    /// One execution at a time: what is shared by the whole process is shared by the threads of an
    /// execution only.
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
}

/// The source of all choices of one execution.
pub struct Ctx {
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    notes: Option<Vec<String>>,
    flight: Flight,
    counts: Counts,
    outcomes: BTreeMap<&'static str, u64>,
    diverged: bool,
    deadline: Option<Instant>,
    /// The execution was ended because the deadline has passed.
    cut: bool,
}

/// How often an execution that differs from what it was is run again.
const RETRIES: usize = 4;

/// Unwinds an execution past the deadline.
struct Cut;

#[derive(Default, Clone)]
struct Counts {
    steps: u64,
    choices: u64,
    new_states: u64,
    bulk_states: u64,
}

impl Ctx {
    fn new(flight: Flight) -> Ctx {
        Ctx {
            prefix: Vec::new(),
            trace: Vec::new(),
            notes: None,
            flight,
            counts: Counts::default(),
            outcomes: BTreeMap::new(),
            diverged: false,
            deadline: None,
            cut: false,
        }
    }

    /// Picks one of `n` alternatives; every one of them is explored.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        let at = self.trace.len();
        let pick = match self.prefix.get(at) {
            Some(&p) => {
                if p as usize >= n {
                    // The tree is not the one the prefix was taken from.
                    self.diverged = true;
                    0
                } else {
                    p
                }
            }
            None => 0,
        };
        self.trace.push((pick, n as u32));
        self.flight.choice(at, pick);
        self.counts.choices += 1;
        pick as usize
    }

    #[inline]
    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }

    #[inline]
    pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T {
        &from[self.choose(from.len())]
    }

    /// Picks from `from`, of which all but the first cost one unit of `budget`; without budget the
    /// first is taken.
    #[inline]
    pub fn dev<T: Clone>(&mut self, budget: &mut u32, from: &[T]) -> T {
        if *budget == 0 || from.len() == 1 {
            return from[0].clone();
        }
        let i = self.choose(from.len());
        if i != 0 {
            *budget -= 1;
        }
        from[i].clone()
    }

    /// Something is done to the code under test.
    #[inline]
    pub fn step(&mut self) {
        self.counts.steps += 1;
    }

    #[inline]
    pub fn steps(&mut self, n: u64) {
        self.counts.steps += n;
    }

    /// Marks a model state or input as visited.
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, s: &T) {
        let mut h = Fx(0xcbf29ce484222325);
        s.hash(&mut h);
        if seen(h.finish()) {
            self.counts.new_states += 1;
        }
    }

    /// Counts states visited in bulk, known to be distinct.
    pub fn bulk_states(&mut self, n: u64) {
        self.counts.bulk_states += n;
    }

    #[inline]
    pub fn outcome(&mut self, label: &'static str) {
        *self.outcomes.entry(label).or_insert(0) += 1;
    }

    /// Describes what happens, for counterexamples and samples.
    #[inline]
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(n) = &mut self.notes {
            n.push(f());
        }
    }

    /// The choices made so far.
    pub fn taken(&self) -> Vec<u32> {
        self.trace.iter().map(|t| t.0).collect()
    }

    pub fn noting(&self) -> bool {
        self.notes.is_some()
    }

    /// Tells the watchdog that a long execution makes progress; past the deadline, ends it.
    #[inline]
    pub fn heartbeat(&mut self) {
        self.flight.beat();
        if self.deadline.map_or(false, |d| Instant::now() > d) {
            self.cut = true;
            std::panic::resume_unwind(Box::new(Cut));
        }
    }

    /// Runs `f` in a new process, a copy of this one that has nothing but this thread: what it
    /// leaves behind in the process is gone afterwards.
    pub fn forked(&mut self, f: impl FnOnce(&mut Ctx) -> Outcome) -> Outcome {
        thread_local! {
            static REGION: *mut u8 = {
                // PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS
                let p = unsafe { mmap(std::ptr::null_mut(), REGION_SIZE, 3, 0x1 | 0x20, -1, 0) };
                assert!(p as isize != -1, "mmap");
                p
            };
        }
        let region = REGION.with(|r| unsafe { std::slice::from_raw_parts_mut(*r, REGION_SIZE) });
        region[..8].fill(0);
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            self.counts = Counts::default();
            let r = match catch_unwind(AssertUnwindSafe(|| f(self))) {
                Ok(r) => r,
                Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())),
            };
            let mut o: Vec<u8> = vec![];
            let mut word = |w: u32| o.extend_from_slice(&w.to_le_bytes());
            word(self.counts.steps as u32);
            word(self.diverged as u32);
            word(self.trace.len() as u32);
            for (p, n) in &self.trace {
                word(*p);
                word(*n);
            }
            word(r.is_err() as u32);
            let mut text = r.err().unwrap_or_default();
            text.truncate((0..=2000.min(text.len())).rev().find(|i| text.is_char_boundary(*i)).unwrap_or(0));
            text.push('\0');
            text.push_str(&self.notes.take().unwrap_or_default().join("\0"));
            o.extend_from_slice(text.as_bytes());
            o.truncate(REGION_SIZE - 8);
            region[8..8 + o.len()].copy_from_slice(&o);
            region[4..8].copy_from_slice(&(o.len() as u32).to_le_bytes());
            region[0] = 1;
            unsafe { _exit(0) };
        }
        let started = Instant::now();
        let mut status = 0i32;
        let mut pause = 20;
        loop {
            // WNOHANG
            if unsafe { waitpid(pid, &mut status, 1) } == pid {
                break;
            }
            self.flight.beat();
            if started.elapsed() > Duration::from_secs(20) {
                unsafe {
                    kill(pid, 9);
                    waitpid(pid, &mut status, 0);
                }
                return Err("does not end".into());
            }
            std::thread::sleep(Duration::from_micros(pause));
            pause = (pause * 2).min(2000);
        }
        if region[0] != 1 {
            return Err(format!("ends the process (status {:#x})", status));
        }
        let n = u32::from_le_bytes(region[4..8].try_into().unwrap()) as usize;
        let o = &region[8..8 + n];
        let word = |i: usize| u32::from_le_bytes(o[4 * i..4 * i + 4].try_into().unwrap());
        self.counts.steps += word(0) as u64;
        self.diverged |= word(1) != 0;
        let len = word(2) as usize;
        self.trace.clear();
        self.trace.extend((0..len).map(|i| (word(3 + 2 * i), word(4 + 2 * i))));
        let bad = word(3 + 2 * len) != 0;
        let text = String::from_utf8_lossy(&o[4 * (4 + 2 * len)..]).into_owned();
        let mut text = text.split('\0');
        let message = text.next().unwrap_or("").to_string();
        if let Some(n) = &mut self.notes {
            n.clear();
            n.extend(text.map(|s| s.to_string()));
        }
        if bad {
            if message.starts_with("panicked") && (message.contains("/verif/harness/") || message.contains(" at src/")) {
                panic!("{}", message);
            }
            return Err(message);
        }
        Ok(())
    }

    /// Runs `f`, telling a panic from a return.
    #[inline]
    pub fn may_panic<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        guarded(f)
    }
}

/// Runs `f`, telling a panic (with its message) from a return.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

struct Fx(u64);

impl Hasher for Fx {
    #[inline]
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 33;
        h
    }
    #[inline]
    fn write(&mut self, bytes: &[u8]) {
        let mut c = bytes.chunks_exact(8);
        for w in &mut c {
            self.write_u64(u64::from_le_bytes(w.try_into().unwrap()));
        }
        for &b in c.remainder() {
            self.write_u64(b as u64 + 1);
        }
    }
    #[inline]
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    #[inline]
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}

// Distinct states are counted in a bitmap of hashes: a collision makes the count too small, never
// too large.
const SEEN_BITS: usize = 30;
static SEEN: OnceLock<Vec<AtomicU64>> = OnceLock::new();

#[inline]
fn seen(h: u64) -> bool {
    let map = SEEN.get_or_init(|| {
        let mut v = Vec::with_capacity(1 << (SEEN_BITS - 6));
        v.resize_with(1 << (SEEN_BITS - 6), || AtomicU64::new(0));
        v
    });
    let i = (h >> (64 - SEEN_BITS)) as usize;
    let bit = 1u64 << (i & 63);
    let word = &map[i >> 6];
    if word.load(Relaxed) & bit != 0 {
        return false;
    }
    word.fetch_or(bit, Relaxed) & bit == 0
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn install_hook() {
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| {
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!(" at {}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{}{}", msg, loc)));
        }));
    });
}

// ---- flight recorder: choices of running executions, readable after a crash ----

const LANE: usize = 8192;
const LANES: usize = 64;

#[derive(Clone, Copy)]
struct Flight {
    lane: *mut u32,
}

unsafe impl Send for Flight {}
unsafe impl Sync for Flight {}

const REGION_SIZE: usize = 1 << 16;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, signal: i32) -> i32;
    fn _exit(status: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Readable zeros that take no memory until read.
pub fn address_space(n: usize) -> &'static [u8] {
    // PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
    let p = unsafe { mmap(std::ptr::null_mut(), n, 1, 0x2 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap");
    unsafe { std::slice::from_raw_parts(p, n) }
}

/// Lane layout (u32 words): 0 active, 1 scenario, 2 length, 3 beat, 4.. choices.
impl Flight {
    fn file(path: &str) -> Vec<Flight> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .expect("flight recorder file");
        f.set_len((LANE * LANES) as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), LANE * LANES, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        (0..LANES).map(|i| Flight { lane: unsafe { p.add(i * LANE) } as *mut u32 }).collect()
    }

    #[inline]
    fn word(&self, i: usize) -> &AtomicU32 {
        unsafe { &*(self.lane.add(i) as *const AtomicU32) }
    }

    #[inline]
    fn begin(&self, scenario: u32) {
        self.word(2).store(0, Relaxed);
        self.word(1).store(scenario, Relaxed);
        self.word(0).store(1, Relaxed);
        self.beat();
    }

    #[inline]
    fn end(&self) {
        self.word(0).store(0, Relaxed);
    }

    #[inline]
    fn beat(&self) {
        let w = self.word(3);
        w.store(w.load(Relaxed).wrapping_add(1), Relaxed);
    }

    #[inline]
    fn choice(&self, at: usize, pick: u32) {
        if at + 4 < LANE / 4 {
            self.word(4 + at).store(pick, Relaxed);
            self.word(2).store(at as u32 + 1, Relaxed);
        }
    }
}

// ---- the explorer ----

#[derive(Clone)]
pub struct Violation {
    pub scenario: &'static str,
    pub choices: Vec<u32>,
    pub message: String,
    pub notes: Vec<String>,
    pub reproduced: bool,
}

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub steps: u64,
    pub choices: u64,
    pub states: u64,
    pub max_depth: usize,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<Vec<String>>,
    pub complete: bool,
    pub wall: f64,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    /// Executions that did not have the choices they had before, again and again; what they lead to
    /// was not explored.
    pub diverged: u64,
}

pub struct Explorer {
    lanes: Vec<Flight>,
    pub threads: usize,
    pub deadline: Instant,
    /// An execution that runs this long without a heartbeat hangs.
    pub hang_after: Duration,
    on_hang: Arc<dyn Fn() + Send + Sync>,
    stop_watchdog: Arc<AtomicBool>,
}

struct Run<'a> {
    index: u32,
    scenario: &'a Scenario,
}

impl<'a> Run<'a> {
    /// Runs the scenario once, with the given choices first and zeros after them.
    fn once(&self, ctx: &mut Ctx, prefix: &[u32], notes: bool) -> Result<Outcome, String> {
        ctx.prefix.clear();
        ctx.prefix.extend_from_slice(prefix);
        self.again(ctx, notes)
    }

    /// Runs an execution again if it does not have the choices it is expected to have.
    fn surely(&self, ctx: &mut Ctx, prefix: &[u32], notes: bool) -> Result<Outcome, String> {
        let mut r = self.once(ctx, prefix, notes);
        for _ in 0..RETRIES {
            if !ctx.diverged || ctx.cut || !matches!(r, Ok(Ok(()))) {
                break;
            }
            r = self.once(ctx, prefix, notes);
        }
        r
    }

    fn again(&self, ctx: &mut Ctx, notes: bool) -> Result<Outcome, String> {
        ctx.trace.clear();
        ctx.diverged = false;
        ctx.cut = false;
        ctx.notes = if notes { Some(Vec::new()) } else { None };
        ctx.flight.begin(self.index);
        let body = &self.scenario.body;
        let r = match catch_unwind(AssertUnwindSafe(|| body(ctx))) {
            Ok(r) => Ok(r),
            Err(p) if p.is::<Cut>() => {
                ctx.flight.end();
                return Ok(Ok(()));
            }
            Err(_) => {
                let m = PANIC
                    .with(|p| p.borrow_mut().take())
                    .unwrap_or_else(|| "panic".to_string());
                if m.contains("/verif/harness/") || m.contains(" at src/") {
                    Err(format!("harness panic: {}", m))
                } else {
                    Ok(Err(format!("panicked: {}", m)))
                }
            }
        };
        ctx.flight.end();
        ctx.diverged |= ctx.trace.len() < ctx.prefix.len();
        r
    }
}

impl Explorer {
    pub fn new(
        flight_file: &str,
        deadline: Instant,
        on_hang: impl Fn() + Send + Sync + 'static,
    ) -> Explorer {
        install_hook();
        let lanes = Flight::file(flight_file);
        let threads = std::env::var("VERIF_THREADS")
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
            });
        let e = Explorer {
            lanes,
            threads,
            deadline,
            hang_after: Duration::from_secs(30),
            on_hang: Arc::new(on_hang),
            stop_watchdog: Arc::new(AtomicBool::new(false)),
        };
        e.watch();
        e
    }

    fn watch(&self) {
        let lanes = self.lanes.clone();
        let stop = self.stop_watchdog.clone();
        let on_hang = self.on_hang.clone();
        let limit = self.hang_after;
        std::thread::spawn(move || {
            let mut last: Vec<(u32, Instant)> =
                lanes.iter().map(|_| (0, Instant::now())).collect();
            while !stop.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(250));
                for (i, l) in lanes.iter().enumerate() {
                    let beat = l.word(3).load(Relaxed);
                    if l.word(0).load(Relaxed) == 0 || beat != last[i].0 {
                        last[i] = (beat, Instant::now());
                    } else if last[i].1.elapsed() > limit {
                        on_hang();
                    }
                }
            }
        });
    }

    /// Explores the whole tree of a scenario.
    pub fn explore(&self, index: u32, scenario: &Scenario) -> Stats {
        let start = Instant::now();
        let run = Run { index, scenario };
        let mut stats = Stats { complete: true, ..Stats::default() };
        let mut ctx = Ctx::new(self.lanes[0]);
        ctx.deadline = Some(self.deadline);

        // Replaying an execution must give the same execution, but the first ones may prepare
        // something for the rest of the process.
        let mut shapes = Vec::new();
        for _ in 0..if scenario.roots.is_empty() { RETRIES } else { 0 } {
            match run.once(&mut ctx, &[], true) {
                Ok(_) if ctx.cut => {
                    stats.complete = false;
                    return stats;
                }
                Ok(_) => shapes.push((ctx.trace.clone(), ctx.notes.take())),
                Err(e) => {
                    stats.errors.push(e);
                    return stats;
                }
            }
            if shapes.len() > 1 && shapes[shapes.len() - 2] == shapes[shapes.len() - 1] {
                break;
            }
        }
        let same = shapes.len() < RETRIES;
        ctx.outcomes.clear();

        // Breadth-first split into subtrees.
        let threads = if scenario.serial { 1 } else { self.threads };
        let want = if threads == 1 { 1 } else { threads * 128 };
        let mut leaves: Vec<Vec<u32>> = scenario.roots.clone();
        let mut open: VecDeque<Vec<u32>> = if leaves.is_empty() { VecDeque::from([Vec::new()]) } else { VecDeque::new() };
        let split_until = Instant::now() + Duration::from_secs(10);
        while leaves.len() + open.len() < want && Instant::now() < split_until {
            let Some(p) = open.pop_front() else { break };
            match run.surely(&mut ctx, &p, false) {
                Ok(Ok(())) if ctx.cut => {
                    stats.complete = false;
                    return stats;
                }
                Ok(Err(m)) => {
                    let c: Vec<u32> = ctx.trace.iter().map(|t| t.0).collect();
                    stats.violations.push(self.confirm(&run, &mut ctx, c, m));
                    break;
                }
                Err(e) => {
                    stats.errors.push(e);
                    break;
                }
                Ok(Ok(())) if ctx.diverged => {
                    stats.diverged += 1;
                    continue;
                }
                Ok(Ok(())) => (),
            }
            if ctx.trace.len() == p.len() {
                leaves.push(p);
                continue;
            }
            let n = ctx.trace[p.len()].1;
            for i in 0..n {
                let mut q = p.clone();
                q.push(i);
                open.push_back(q);
            }
        }
        stats.states = ctx.counts.new_states;
        ctx.counts = Counts::default();
        ctx.outcomes.clear();
        leaves.extend(open);
        if !same {
            stats.diverged += 1;
        }
        if !stats.violations.is_empty() || !stats.errors.is_empty() {
            stats.wall = start.elapsed().as_secs_f64();
            return stats;
        }

        let tasks = leaves;
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let total = Mutex::new(stats);
        std::thread::scope(|s| {
            for t in 0..threads.min(tasks.len()).max(1) {
                let (tasks, next, stop, total, run) = (&tasks, &next, &stop, &total, &run);
                let flight = self.lanes[1 + t];
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut ctx = Ctx::new(flight);
                        ctx.deadline = Some(self.deadline);
                        let mut st = Stats { complete: true, ..Stats::default() };
                        let mut plan: Vec<(u32, u32)> = Vec::new();
                        'tasks: loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= tasks.len() {
                                break;
                            }
                            let root = tasks[i].len();
                            ctx.prefix.clear();
                            ctx.prefix.extend_from_slice(&tasks[i]);
                            plan.clear();
                            loop {
                                if stop.load(Relaxed) {
                                    st.complete = false;
                                    break 'tasks;
                                }
                                let n = st.executions;
                                if n & 0xff == 0 && Instant::now() > self.deadline {
                                    st.complete = false;
                                    stop.store(true, Relaxed);
                                    break 'tasks;
                                }
                                let noting = t < 3 && (n == 0 || n == 77 || n == 5432);
                                let mut r = run.again(&mut ctx, noting);
                                for _ in 0..RETRIES {
                                    if !ctx.diverged || ctx.cut || !matches!(r, Ok(Ok(()))) {
                                        break;
                                    }
                                    r = run.again(&mut ctx, noting);
                                }
                                match r {
                                    Ok(Ok(())) if ctx.cut => {
                                        st.complete = false;
                                        stop.store(true, Relaxed);
                                        break 'tasks;
                                    }
                                    Ok(Ok(())) if ctx.diverged => {
                                        // On to the next, by the choices there were.
                                        st.diverged += 1;
                                        ctx.trace.clear();
                                        ctx.trace.extend_from_slice(&plan);
                                    }
                                    Ok(Ok(())) => (),
                                    Ok(Err(m)) => {
                                        let c: Vec<u32> =
                                            ctx.trace.iter().map(|t| t.0).collect();
                                        st.violations
                                            .push(self.confirm(run, &mut ctx, c, m));
                                        stop.store(true, Relaxed);
                                        break 'tasks;
                                    }
                                    Err(e) => {
                                        st.errors.push(e);
                                        stop.store(true, Relaxed);
                                        break 'tasks;
                                    }
                                }
                                st.executions += 1;
                                st.max_depth = st.max_depth.max(ctx.trace.len());
                                if noting {
                                    if let Some(n) = ctx.notes.take() {
                                        st.samples.push(n);
                                    }
                                }
                                // Next leaf of this subtree.
                                let tr = &mut ctx.trace;
                                while tr.len() > root
                                    && tr[tr.len() - 1].0 + 1 == tr[tr.len() - 1].1
                                {
                                    tr.pop();
                                }
                                if tr.len() <= root {
                                    break;
                                }
                                let last = tr.len() - 1;
                                tr[last].0 += 1;
                                plan.clear();
                                plan.extend_from_slice(tr);
                                ctx.prefix.clear();
                                ctx.prefix.extend(tr.iter().map(|t| t.0));
                            }
                        }
                        let mut g = total.lock().unwrap();
                        g.executions += st.executions;
                        g.steps += ctx.counts.steps;
                        g.choices += ctx.counts.choices;
                        g.states += ctx.counts.new_states + ctx.counts.bulk_states;
                        g.max_depth = g.max_depth.max(st.max_depth);
                        for (k, v) in &ctx.outcomes {
                            *g.outcomes.entry(k).or_insert(0) += v;
                        }
                        g.samples.extend(st.samples);
                        g.complete &= st.complete;
                        g.diverged += st.diverged;
                        g.violations.extend(st.violations);
                        g.errors.extend(st.errors);
                    })
                    .unwrap();
            }
        });
        let mut stats = total.into_inner().unwrap();
        stats.complete &= stats.diverged == 0;
        stats.samples.truncate(6);
        stats.violations.sort_by(|a, b| {
            (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices))
        });
        stats.wall = start.elapsed().as_secs_f64();
        stats
    }

    /// Runs a violating execution again, for its description and to see whether it fails alone.
    fn confirm(&self, run: &Run, ctx: &mut Ctx, choices: Vec<u32>, message: String) -> Violation {
        let (again, notes) = match run.once(ctx, &choices, true) {
            Ok(Err(m)) => (m == message, ctx.notes.take().unwrap_or_default()),
            _ => (false, ctx.notes.take().unwrap_or_default()),
        };
        Violation {
            scenario: run.scenario.name,
            choices,
            message,
            notes,
            reproduced: again,
        }
    }

    /// Runs one execution.
    pub fn replay(&self, index: u32, scenario: &Scenario, choices: &[u32]) -> (Result<Outcome, String>, Vec<String>) {
        let run = Run { index, scenario };
        let lane = self.lanes[0];
        let choices = choices.to_vec();
        // On a thread, for the same stack size as in the exploration.
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || {
                    let mut ctx = Ctx::new(lane);
                    // A crashed execution leaves only the choices it had made.
                    let r = run.once(&mut ctx, &choices, true);
                    (r, ctx.notes.take().unwrap_or_default())
                })
                .unwrap()
                .join()
                .unwrap()
        })
    }
}
