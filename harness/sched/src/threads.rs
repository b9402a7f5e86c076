//! A cooperative scheduler: of the threads of an execution, one runs at a time, and at every
//! scheduling point the explorer chooses which one goes on.
//!
//! Switching away from a thread that could go on is a preemption; their number is bounded.
//! Switching where a thread waits or ends is free.  A thread that waits is not resumed for free
//! before the others had their turn.
//!
//! Threads are coroutines (`run`) or threads of the system (`run_apart`), which have thread-local
//! memory of their own.  What a thread does between two scheduling points is one step.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use explore::{guarded, Ctx};
use shimstd::verif::{set_hook, set_spurious, Point};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::OnceLock;
use std::thread::Thread;

/// More points than this in one execution: the threads wait for each other without end.
const HORIZON: usize = 20_000;
const NONE: usize = usize::MAX;

/// What an execution may have at most.
#[derive(Clone, Copy)]
pub struct Bounds {
    pub preemptions: usize,
    /// Weak compare-and-exchange operations that fail without a reason.
    pub spurious: usize,
    /// Threads of the system instead of coroutines.
    pub apart: bool,
}

impl Bounds {
    pub fn apart(preemptions: usize) -> Self {
        Bounds { preemptions, spurious: 0, apart: true }
    }
}

impl From<usize> for Bounds {
    fn from(preemptions: usize) -> Self {
        Bounds { preemptions, spurious: 0, apart: false }
    }
}

struct Exec {
    spurious: usize,
    ctx: *mut Ctx,
    alive: Vec<bool>,
    waiting: Vec<bool>,
    budget: usize,
    points: usize,
    clock: usize,
    failed: Option<String>,
    schedule: Vec<u8>,
    /// The thread that runs.
    current: usize,
    yielders: Vec<*const Yielder<(), usize>>,
    /// For threads of the system: whose turn it is.
    turn: Option<Turn>,
}

struct Turn {
    whose: AtomicUsize,
    threads: OnceLock<Vec<Thread>>,
}

impl Turn {
    fn pass(&self, to: usize) {
        if to != NONE {
            self.whose.store(to, SeqCst);
            self.threads.get().unwrap()[to].unpark();
        }
    }

    fn wait(&self, me: usize) {
        while self.whose.load(SeqCst) != me {
            std::thread::park();
        }
    }
}

thread_local! {
    static EXEC: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(vec![]) };
}

fn exec() -> Option<&'static mut Exec> {
    unsafe { EXEC.with(|e| e.get()).as_mut() }
}

impl Exec {
    fn new(ctx: &mut Ctx, bounds: Bounds, n: usize) -> Exec {
        assert!(n <= 16);
        Exec {
            ctx,
            alive: vec![true; n],
            waiting: vec![false; n],
            budget: bounds.preemptions,
            spurious: bounds.spurious,
            points: 0,
            clock: 0,
            failed: None,
            schedule: Vec::with_capacity(64),
            current: NONE,
            yielders: vec![std::ptr::null(); n],
            turn: None,
        }
    }

    /// Makes this the execution the running thread of the system belongs to.
    fn enter(&mut self) -> Cleared {
        EXEC.with(|e| e.set(self));
        set_hook(Some(hook));
        if self.spurious > 0 {
            set_spurious(Some(spurious));
        }
        Cleared
    }

    /// A thread has ended: who goes on.
    fn ended(&mut self) -> usize {
        self.alive[self.current] = false;
        if self.failed.is_some() {
            // The others end at their next point.
            (0..self.alive.len()).find(|j| self.alive[*j]).unwrap_or(NONE)
        } else {
            self.next(None, false)
        }
    }

    fn finish(&mut self) -> Result<(), String> {
        let ctx = unsafe { &mut *self.ctx };
        ctx.note(|| format!("schedule {}", self.schedule.iter().map(|i| (b'0' + i) as char).collect::<String>()));
        self.failed.take().map_or(Ok(()), Err)
    }

    /// Which thread goes on; `from` is at a point (or ended).
    fn next(&mut self, from: Option<usize>, wait: bool) -> usize {
        let t = self;
        let ctx = unsafe { &mut *t.ctx };
        let n = t.alive.len();
        let mut c = [0usize; 16];
        let mut k = 0;
        let may_stay = from.map_or(false, |i| t.alive[i]) && !wait;
        if may_stay {
            c[0] = from.unwrap();
            k = 1;
            if t.budget > 0 {
                for i in 0..n {
                    if t.alive[i] && Some(i) != from {
                        c[k] = i;
                        k += 1;
                    }
                }
            }
        } else {
            for round in 0..2 {
                for i in 0..n {
                    if t.alive[i] && !t.waiting[i] && Some(i) != from {
                        c[k] = i;
                        k += 1;
                    }
                }
                if k > 0 || round == 1 {
                    break;
                }
                // Everyone waits: everyone may look again.
                t.waiting.iter_mut().for_each(|w| *w = false);
            }
            if k == 0 {
                if let Some(i) = from.filter(|i| t.alive[*i]) {
                    c[0] = i;
                    k = 1;
                } else {
                    return NONE;
                }
            }
        }
        let pick = if k == 1 { c[0] } else { c[ctx.choose(k)] };
        if may_stay && Some(pick) != from {
            t.budget -= 1;
        }
        t.waiting[pick] = false;
        t.schedule.push(pick as u8);
        pick
    }

    /// Whether the running thread is to be abandoned.
    fn abandon(&self) -> bool {
        self.failed.is_some()
    }
}

fn hook(p: Point) {
    let Some(t) = exec() else { return };
    if std::thread::panicking() {
        return;
    }
    if t.abandon() {
        panic!("abandoned");
    }
    t.points += 1;
    t.clock += 1;
    if t.points > HORIZON {
        t.failed = Some("the threads make no progress".into());
        panic!("abandoned");
    }
    unsafe { &mut *t.ctx }.step();
    let i = t.current;
    let wait = p == Point::Wait;
    if wait {
        t.waiting[i] = true;
    }
    let next = t.next(Some(i), wait);
    if next != i {
        match &t.turn {
            Some(turn) => {
                t.current = next;
                turn.pass(next);
                turn.wait(i);
            }
            None => {
                let y = t.yielders[i];
                unsafe { &*y }.suspend(next);
            }
        }
        if exec().map_or(false, |t| t.abandon()) {
            panic!("abandoned");
        }
    }
}

fn spurious() -> bool {
    let Some(t) = exec() else { return false };
    if t.spurious == 0 || std::thread::panicking() {
        return false;
    }
    let yes = unsafe { &mut *t.ctx }.choose(2) == 1;
    if yes {
        t.spurious -= 1;
        t.schedule.push(b'f' - b'0');
    }
    yes
}

/// A scheduling point of the harness.
pub fn point() {
    hook(Point::Op("harness"))
}

/// A time that orders what threads of this execution do.
pub fn tick() -> usize {
    match exec() {
        Some(t) => {
            t.clock += 1;
            t.clock
        }
        None => 0,
    }
}

/// The number of the running thread.
#[allow(dead_code)]
pub fn me() -> usize {
    exec().map_or(NONE, |t| t.current)
}

/// Ends the execution on every way out of `run`.
struct Cleared;

impl Drop for Cleared {
    fn drop(&mut self) {
        set_hook(None);
        set_spurious(None);
        EXEC.with(|e| e.set(std::ptr::null_mut()));
    }
}

/// Runs the threads within the bounds; gives their results.
pub fn run<'a, T: 'a>(ctx: &mut Ctx, bounds: impl Into<Bounds>, bodies: Vec<Box<dyn FnOnce() -> T + Send + 'a>>) -> Result<Vec<T>, String> {
    let bounds = bounds.into();
    if bounds.apart {
        return run_apart(ctx, bounds, bodies);
    }
    let n = bodies.len();
    let mut t = Exec::new(ctx, bounds, n);
    let mut results: Vec<Option<T>> = (0..n).map(|_| None).collect();
    let out = results.as_mut_ptr();
    let mut threads: Vec<Coroutine<(), usize, (), DefaultStack>> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, body)| {
            let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(256 << 10).expect("a stack"));
            let main = move |y: &Yielder<(), usize>, _: ()| {
                exec().unwrap().yielders[i] = y;
                if exec().unwrap().abandon() {
                    return;
                }
                match guarded(body) {
                    // No other reference to `results` exists while the threads run.
                    Ok(r) => unsafe { *out.add(i) = Some(r) },
                    Err(e) => {
                        exec().unwrap().failed.get_or_insert_with(|| format!("a thread panicked: {}", e));
                    }
                }
            };
            let main: Box<dyn FnOnce(&Yielder<(), usize>, ()) + 'a> = Box::new(main);
            // They all end before this function does.
            let main: Box<dyn FnOnce(&Yielder<(), usize>, ()) + 'static> = unsafe { std::mem::transmute(main) };
            Coroutine::with_stack(stack, main)
        })
        .collect();
    let exec_ptr: *mut Exec = &mut t;
    let t = unsafe { &mut *exec_ptr };
    let cleared = t.enter();
    let mut next = t.next(None, false);
    while next != NONE {
        t.current = next;
        next = match threads[next].resume(()) {
            CoroutineResult::Yield(to) => to,
            CoroutineResult::Return(()) => t.ended(),
        };
    }
    drop(cleared);
    STACKS.with(|s| s.borrow_mut().extend(threads.into_iter().map(|t| t.into_stack())));
    t.finish()?;
    Ok(results.into_iter().map(|r| r.expect("the thread ended")).collect())
}

/// Like `run`, but on threads of the system.
pub fn run_apart<'a, T: 'a>(ctx: &mut Ctx, bounds: impl Into<Bounds>, bodies: Vec<Box<dyn FnOnce() -> T + Send + 'a>>) -> Result<Vec<T>, String> {
    struct Shared<P>(*mut P);
    unsafe impl<P> Send for Shared<P> {}
    impl<P> Shared<P> {
        fn get(&self) -> *mut P {
            self.0
        }
    }
    let n = bodies.len();
    let mut t = Exec::new(ctx, bounds.into(), n);
    t.turn = Some(Turn { whose: AtomicUsize::new(NONE), threads: OnceLock::new() });
    let mut results: Vec<Option<T>> = (0..n).map(|_| None).collect();
    let out = results.as_mut_ptr();
    let exec_ptr: *mut Exec = &mut t;
    std::thread::scope(|s| {
        let turn = unsafe { (*exec_ptr).turn.as_ref().unwrap() };
        let threads = bodies
            .into_iter()
            .enumerate()
            .map(|(i, body)| {
                let (exec, out) = (Shared(exec_ptr), Shared(out));
                // They all end before this function does.
                let body: Box<dyn FnOnce() -> T + Send + 'static> = unsafe { std::mem::transmute(body) };
                let body = Shared(Box::into_raw(Box::new(body)));
                let main = move || {
                    let body = unsafe { *Box::from_raw(body.get()) };
                    let out = out.get();
                    // Only the one whose turn it is looks at it.
                    turn.wait(i);
                    let t = unsafe { &mut *exec.get() };
                    let cleared = t.enter();
                    if !t.abandon() {
                        match guarded(body) {
                            Ok(r) => unsafe { *out.add(i) = Some(r) },
                            Err(e) => {
                                t.failed.get_or_insert_with(|| format!("a thread panicked: {}", e));
                            }
                        }
                    }
                    drop(cleared);
                    t.current = i;
                    let next = t.ended();
                    t.current = next;
                    turn.pass(next);
                };
                let main: Box<dyn FnOnce() + Send + 'a> = Box::new(main);
                let main: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(main) };
                s.spawn(main).thread().clone()
            })
            .collect();
        turn.threads.set(threads).ok().unwrap();
        let t = unsafe { &mut *exec_ptr };
        let first = t.next(None, false);
        t.current = first;
        turn.pass(first);
    });
    t.finish()?;
    Ok(results.into_iter().map(|r| r.expect("the thread ended")).collect())
}
