//! The permit counter.
use crate::threads::{run, tick, Bounds};
use binate::connection::RequestCounter;
use explore::{Ctx, Outcome, Scenario};

const MAX: i32 = i32::MAX;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add(u32),
    Dec,
    Zero,
    Load,
}
use Op::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Got {
    Unit,
    Count(i32),
    Bool(bool),
}

/// The sequential behaviour. A grant no frame can carry (more than 2^31-1) may be cut to 2^31-1
/// before or after it is added.
fn model(v: &mut i32, op: Op, cut_first: bool) -> Got {
    match op {
        Add(n) => {
            let n = if cut_first { n.min(MAX as u32) } else { n };
            *v = (*v as i64 + n as i64).min(MAX as i64) as i32;
            Got::Unit
        }
        Dec => {
            let r = *v;
            *v = v.wrapping_sub(1);
            Got::Count(r)
        }
        Zero => Got::Bool(*v == 0),
        Load => Got::Count(*v),
    }
}

fn apply(c: &RequestCounter, op: Op) -> Got {
    match op {
        Add(n) => {
            c.add(n);
            Got::Unit
        }
        Dec => Got::Count(c.dec()),
        Zero => Got::Bool(c.is_zero()),
        Load => Got::Count(c.load()),
    }
}

/// One operation of a history.
#[derive(Clone, Debug)]
struct Event {
    thread: usize,
    op: Op,
    got: Got,
    start: usize,
    end: usize,
}

/// Whether some sequential order of the operations, respecting real time, explains all results.
fn linearizable(done: &mut Vec<bool>, h: &[Event], v: i32, last: i32) -> bool {
    if done.iter().all(|d| *d) {
        return v == last;
    }
    // An operation may be next if no other one that is left ended before it began.
    let first_end = (0..h.len()).filter(|i| !done[*i]).map(|i| h[i].end).min().unwrap();
    for i in 0..h.len() {
        if done[i] || h[i].start > first_end {
            continue;
        }
        for cut_first in [false, true] {
            let mut w = v;
            if model(&mut w, h[i].op, cut_first) == h[i].got {
                if cut_first && !matches!(h[i].op, Add(n) if n > MAX as u32) {
                    continue;
                }
                done[i] = true;
                let ok = linearizable(done, h, w, last);
                done[i] = false;
                if ok {
                    return true;
                }
            }
        }
    }
    false
}

fn concurrent(ctx: &mut Ctx, initial: u32, programs: &[Vec<Op>], bounds: impl Into<Bounds>) -> Outcome {
    ctx.note(|| format!("initially {}: {:?}", initial, programs));
    let c = RequestCounter::new(initial);
    let bodies = programs
        .iter()
        .enumerate()
        .map(|(thread, p)| {
            let c = &c;
            Box::new(move || {
                p.iter()
                    .map(|op| {
                        let start = tick();
                        let got = apply(c, *op);
                        Event { thread, op: *op, got, start, end: tick() }
                    })
                    .collect::<Vec<_>>()
            }) as Box<dyn FnOnce() -> Vec<Event> + Send>
        })
        .collect();
    let h: Vec<Event> = run(ctx, bounds, bodies)?.into_iter().flatten().collect();
    let last = c.load();
    ctx.state(&(initial, format!("{:?} {}", h, last)));
    if !linearizable(&mut vec![false; h.len()], &h, initial as i32, last) {
        return Err(format!(
            "no sequential order of the operations gives these results and {} in the end: {}",
            last,
            h.iter().map(|e| format!("thread {} {:?} -> {:?} [{}-{}]", e.thread, e.op, e.got, e.start, e.end)).collect::<Vec<_>>().join("; ")
        ));
    }
    Ok(())
}

/// Many operations by each of two threads, one after the other. Nothing is lost and nothing
/// changes when the threads end.
fn many(ctx: &mut Ctx, initial: u32, n: usize) -> Outcome {
    let ops = [Add(1), Dec];
    let p: Vec<Op> = (0..2).map(|_| *ctx.pick(&ops)).collect();
    ctx.note(|| format!("initially {}: {} times each of {:?}", initial, n, p));
    let c = RequestCounter::new(initial);
    let mut v = initial as i32;
    for op in &p {
        let c = &c;
        let got = run(
            ctx,
            Bounds::apart(0),
            vec![Box::new(move || (0..n).map(|_| (apply(c, *op), c.load())).collect::<Vec<_>>()) as Box<dyn FnOnce() -> Vec<(Got, i32)> + Send>],
        )?;
        for g in &got[0] {
            let want = model(&mut v, *op, false);
            if *g != (want, v) {
                return Err(format!("{:?} gives {:?}, expected {:?}", op, g, (want, v)));
            }
        }
        ctx.state(&("many", initial, v, &format!("{:?}", p)));
        if c.load() != v {
            return Err(format!("{} when the thread has ended, expected {}", c.load(), v));
        }
    }
    Ok(())
}

/// All programs of `n` operations.
fn program(ctx: &mut Ctx, ops: &[Op], n: usize) -> Vec<Op> {
    (0..n).map(|_| *ctx.pick(ops)).collect()
}

/// Threads with equal programs are interchangeable: only sorted choices are explored.
fn sorted_programs(ctx: &mut Ctx, ops: &[Op], threads: usize, n: usize) -> Vec<Vec<Op>> {
    let all = ops.len().pow(n as u32);
    let mut lo = 0;
    (0..threads)
        .map(|_| {
            let mut i = lo + ctx.choose(all - lo);
            lo = i;
            (0..n)
                .map(|_| {
                    let o = ops[i % ops.len()];
                    i /= ops.len();
                    o
                })
                .collect()
        })
        .collect()
}

pub fn c15(thorough: bool) -> Vec<Scenario> {
    const INITIAL: [u32; 8] = [0, 1, 2, 3, MAX as u32, MAX as u32 - 1, MAX as u32 - 2, 1 << 30];
    const GRANTS: [u32; 12] =
        [0, 1, 2, 3, 255, 65536, 1 << 30, (1 << 30) + 1, MAX as u32 - 1, MAX as u32, 1 << 31, u32::MAX];
    let len = if thorough { 5 } else { 4 };
    let few = [Add(1), Dec, Zero, Load, Add(MAX as u32), Add(u32::MAX)];
    vec![
        Scenario::new(
            "sequential",
            format!("all sequences of {} operations (12 grants, dec, is_zero, load) from 8 initial counts", len),
            move |ctx| {
                let initial = *ctx.pick(&INITIAL);
                let c = RequestCounter::new(initial);
                let mut v = initial as i32;
                let mut ops: Vec<Op> = GRANTS.iter().map(|n| Add(*n)).collect();
                ops.extend([Dec, Zero, Load]);
                ctx.note(|| format!("initially {}", initial));
                if c.load() != v {
                    return Err(format!("the initial count {} is {}", initial, c.load()));
                }
                for op in program(ctx, &ops, len) {
                    ctx.step();
                    let (mut a, mut b) = (v, v);
                    let want = model(&mut a, op, false);
                    model(&mut b, op, true);
                    let got = apply(&c, op);
                    v = if c.load() == b { b } else { a };
                    ctx.note(|| format!("{:?} -> {:?}", op, got));
                    if got != want || c.load() != v || c.is_zero() != (v == 0) {
                        return Err(format!("{:?} gives {:?} and {}, expected {:?} and {}", op, got, c.load(), want, v));
                    }
                    ctx.state(&("sequential", v));
                }
                Ok(())
            },
        ),
        Scenario::new(
            "counts",
            "every value of each of two 16-bit windows of the initial count (the other bits clear or set): what is granted is 0, 1, \
             what is missing to 2^31 - 1, the count itself, or these and one less or more, or a power of two, then again",
            |ctx| {
                let high = ctx.flip();
                let rest = ctx.flip();
                let block = ctx.choose(256) as u32;
                // A block of counts at a time.
                for low in 0..256 {
                    let window = block << 8 | low;
                    let initial = match (high, rest) {
                        (false, false) => window,
                        (false, true) => 0x7FFF_0000 | window,
                        (true, false) => window << 15 & MAX as u32,
                        (true, true) => (window << 15 | 0x7FFF) & MAX as u32,
                    };
                    let missing = MAX as u32 - initial;
                    let mut grants = vec![0, 1, initial, initial.wrapping_sub(1), initial + 1, missing, missing.wrapping_sub(1), missing + 1];
                    grants.extend((1..31).map(|i| 1 << i));
                    for g in grants {
                        let c = RequestCounter::new(initial);
                        let mut v = initial as i32;
                        for op in [Zero, Dec, Add(g), Dec, Load, Add(g), Zero, Load] {
                            if v < 0 && matches!(op, Add(n) if n > MAX as u32) {
                                break;
                            }
                            let (want, got) = (model(&mut v, op, false), apply(&c, op));
                            if got != want {
                                return Err(format!("{:?} gives {:?}, expected {:?}, initially {}", op, got, want, initial));
                            }
                        }
                    }
                    ctx.step();
                }
                ctx.state(&("counts", high, rest, block));
                Ok(())
            },
        ),
        Scenario::new(
            "all counts",
            "every initial count there is: zero or not, consumed, granted 2, granted what is missing to 2^31 - 1 and one more",
            |ctx| {
                let block = ctx.choose(1 << 15) as u32;
                for low in 0..1 << 16 {
                    let initial = block << 16 | low;
                    let c = RequestCounter::new(initial);
                    let mut v = initial as i32;
                    for op in [Zero, Dec, Load, Add(2), Zero, Add((MAX as u32 - initial).max(1)), Load] {
                        let (want, got) = (model(&mut v, op, false), apply(&c, op));
                        if got != want {
                            return Err(format!("{:?} gives {:?}, expected {:?}, initially {}", op, got, want, initial));
                        }
                    }
                }
                ctx.step();
                ctx.state(&("all counts", block));
                Ok(())
            },
        ),
        Scenario::new(
            "long sequences",
            "0 to 2000 consumptions from 8 initial counts, with a grant of 12 amounts after them, and again",
            |ctx| {
                let initial = *ctx.pick(&INITIAL);
                let n = *ctx.pick(&[0usize, 1, 2, 7, 100, 2000]);
                let g = *ctx.pick(&GRANTS);
                let c = RequestCounter::new(initial);
                let mut v = initial as i32;
                for _ in 0..3 {
                    for op in std::iter::repeat(Dec).take(n).chain([Add(g), Load, Zero]) {
                        ctx.step();
                        if v < 0 && matches!(op, Add(n) if n > MAX as u32) {
                            return Ok(());
                        }
                        let (want, got) = (model(&mut v, op, false), apply(&c, op));
                        if got != want {
                            return Err(format!("{:?} gives {:?}, expected {:?}", op, got, want));
                        }
                    }
                }
                ctx.state(&("long", initial, n, g));
                Ok(())
            },
        ),
        Scenario::new(
            "2 threads of 2",
            format!("2 threads of 2 of {:?} each, from 4 initial counts, all interleavings", few),
            move |ctx| {
                let initial = *ctx.pick(&[1, 0, MAX as u32, MAX as u32 - 1]);
                let p = sorted_programs(ctx, &few, 2, 2);
                concurrent(ctx, initial, &p, usize::MAX)
            },
        ),
        Scenario::new(
            "2 threads of 3",
            format!("2 threads of 3 of {:?} each, from 3 initial counts, up to {} preemptions", few, if thorough { 9 } else { 5 }),
            move |ctx| {
                let initial = *ctx.pick(&[1, 0, MAX as u32 - 1]);
                let p = sorted_programs(ctx, &few, 2, 3);
                concurrent(ctx, initial, &p, if thorough { 9 } else { 5 })
            },
        ),
        Scenario::new(
            "3 threads",
            format!("3 threads of 2 of add 1, dec, is_zero, add 2^31-1 each, from 2 initial counts, up to {} preemptions", if thorough { 6 } else { 4 }),
            move |ctx| {
                let initial = *ctx.pick(&[1, MAX as u32]);
                let p = sorted_programs(ctx, &[Add(1), Dec, Zero, Add(MAX as u32)], 3, 2);
                concurrent(ctx, initial, &p, if thorough { 6 } else { 4 })
            },
        ),
        Scenario::new(
            "4 threads",
            format!("4 threads of one of add 1, add 2^31-1, dec, load, is_zero each, from 3 initial counts, up to {} preemptions", if thorough { 8 } else { 4 }),
            move |ctx| {
                let initial = *ctx.pick(&[1, 0, MAX as u32 - 1]);
                let p = sorted_programs(ctx, &[Add(1), Dec, Add(MAX as u32), Load, Zero], 4, 1);
                concurrent(ctx, initial, &p, if thorough { 8 } else { 4 })
            },
        ),
        Scenario::new(
            "weak exchanges",
            "2 threads of 2 of add 1, add 2, add 2^31-1, dec each, from 2 initial counts, up to 4 preemptions and 2 weak \
             exchanges that fail for no reason",
            move |ctx| {
                let initial = *ctx.pick(&[1, MAX as u32 - 1]);
                let p = sorted_programs(ctx, &[Add(1), Add(2), Dec, Add(MAX as u32)], 2, 2);
                concurrent(ctx, initial, &p, Bounds { preemptions: 4, spurious: 2, apart: false })
            },
        ),
        Scenario::new(
            "threads of the system",
            format!(
                "2 threads of 3 and 3 threads of 2 of add 1, dec, is_zero, add 2^31-1 each, or 2 threads of 2000 times dec or \
                 add 1, up to {} preemptions",
                if thorough { 3 } else { 1 }
            ),
            move |ctx| {
                let initial = *ctx.pick(&[1, MAX as u32 - 1]);
                let ops = [Add(1), Dec, Zero, Add(MAX as u32)];
                let b = Bounds::apart(if thorough { 3 } else { 1 });
                let p = match ctx.choose(3) {
                    0 => sorted_programs(ctx, &ops, 2, 3),
                    1 => sorted_programs(ctx, &ops, 3, 2),
                    _ => return many(ctx, initial, 2000),
                };
                concurrent(ctx, initial, &p, b)
            },
        ),
        Scenario::new(
            "outnumbered",
            format!(
                "one of add 1, add 2, dec, add 2^31-1 by a thread while another does {} times dec, or {} times add 1, all \
                 interleavings; each of the four by one thread with up to 40 weak exchanges that fail for no reason",
                if thorough { 15 } else { 13 },
                if thorough { 7 } else { 6 }
            ),
            move |ctx| {
                let initial = *ctx.pick(&[1, MAX as u32 - 3]);
                let one = vec![*ctx.pick(&[Add(1), Add(2), Dec, Add(MAX as u32)])];
                match ctx.choose(3) {
                    0 => concurrent(ctx, initial, &[one, vec![Dec; if thorough { 15 } else { 13 }]], usize::MAX),
                    1 => concurrent(ctx, initial, &[one, vec![Add(1); if thorough { 7 } else { 6 }]], usize::MAX),
                    _ => concurrent(ctx, initial, &[one], Bounds { preemptions: 0, spurious: 40, apart: false }),
                }
            },
        ),
        Scenario::new(
            "long threads",
            format!("2 threads of {} times dec or add 1 each, up to 3 preemptions", if thorough { 12 } else { 8 }),
            move |ctx| {
                let n = if thorough { 12 } else { 8 };
                let initial = *ctx.pick(&[1, MAX as u32 - 3]);
                let ops = [Add(1), Dec];
                let p: Vec<Vec<Op>> = (0..2).map(|_| vec![*ctx.pick(&ops); n]).collect();
                concurrent(ctx, initial, &p, 3)
            },
        ),
    ]
}
