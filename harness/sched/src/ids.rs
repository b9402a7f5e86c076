//! Stream id allocation by several threads.
use crate::threads::{point, run, tick, Bounds};
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
use explore::{Ctx, Outcome, Scenario};

const MASK: u32 = 0x7FFF_FFFF;

/// Where the provider's counter starts.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Start {
    Client,
    Server,
    #[cfg_attr(not(binate_verif), allow(dead_code))]
    At(i32),
}

impl Start {
    fn provider(self) -> StreamIdProvider {
        match self {
            Start::Client => StreamIdProvider::new_for_client(),
            Start::Server => StreamIdProvider::new_for_server(),
            #[cfg(binate_verif)]
            Start::At(n) => StreamIdProvider::verif_new(n),
            #[cfg(not(binate_verif))]
            Start::At(_) => unreachable!(),
        }
    }

    fn first(self) -> u32 {
        match self {
            Start::Client => 1,
            Start::Server => 2,
            Start::At(n) => n as u32 & MASK,
        }
    }

    /// The next `n` ids of the parity, in use or not; 0 is none.
    fn next_ids(self, n: usize) -> Vec<u32> {
        let first = self.first();
        (0..).map(|i| first.wrapping_add(2 * i) & MASK).filter(|i| *i != 0).take(n).collect()
    }
}

/// Starts: both roles, and around the wrap-around where the hook allows it.
fn starts(few: bool) -> Vec<Start> {
    #[allow(unused_mut)]
    let mut v = vec![Start::Client, Start::Server];
    #[cfg(binate_verif)]
    if few {
        v.extend([i32::MAX - 2, i32::MAX - 1, -3, -2].map(Start::At));
    } else {
        v.extend((i32::MAX - 5..=i32::MAX).chain(-6..0).map(Start::At));
    }
    let _ = few;
    v
}

/// An id handed out, and when.
#[derive(Clone, Copy, Debug, Hash)]
struct Got {
    id: u32,
    from: usize,
    to: usize,
}

fn valid(s: Start, all: &[Got]) -> Outcome {
    for (i, g) in all.iter().enumerate() {
        if g.id == 0 || g.id > MASK || g.id % 2 != s.first() % 2 {
            return Err(format!("{:#x} is handed out", g.id));
        }
        if all[..i].iter().any(|h| h.id == g.id) {
            return Err(format!("{:#x} is handed out twice", g.id));
        }
    }
    Ok(())
}

/// `counts[i]` allocations by thread i, while the ids in use do not change.
fn fixed(ctx: &mut Ctx, s: Start, busy: &[u32], counts: &[usize], bounds: impl Into<Bounds>) -> Outcome {
    around(ctx, s, busy, 0, counts, 0, bounds)
}

/// With `before` and `after` allocations by the thread that starts the others.
fn around(ctx: &mut Ctx, s: Start, busy: &[u32], before: usize, counts: &[usize], after: usize, bounds: impl Into<Bounds>) -> Outcome {
    ctx.note(|| format!("{:?}, in use {:x?}, allocations {}, {:?}, {}", s, busy, before, counts, after));
    let store: DashMap<u32, ()> = busy.iter().map(|i| (*i, ())).collect();
    let p = s.provider();
    let alone = |n: usize| (0..n).map(|_| Got { id: p.next_stream_id(&store), from: 0, to: 0 }).collect::<Vec<_>>();
    let first = alone(before);
    let bodies = counts
        .iter()
        .map(|n| {
            let (p, store, n) = (&p, &store, *n);
            Box::new(move || {
                (0..n)
                    .map(|_| {
                        let from = tick();
                        let id = p.next_stream_id(store);
                        Got { id, from, to: tick() }
                    })
                    .collect::<Vec<_>>()
            }) as Box<dyn FnOnce() -> Vec<Got> + Send>
        })
        .collect();
    let mut per_thread = run(ctx, bounds, bodies)?;
    per_thread.push(first);
    per_thread.push(alone(after));
    let got: Vec<Got> = per_thread.iter().flatten().copied().collect();
    ctx.state(&("fixed", format!("{:?}", s), busy, per_thread.iter().map(|v| v.iter().map(|g| g.id).collect::<Vec<_>>()).collect::<Vec<_>>()));
    ctx.note(|| format!("ids {:x?}", per_thread.iter().map(|v| v.iter().map(|g| g.id).collect::<Vec<_>>()).collect::<Vec<_>>()));
    valid(s, &got)?;
    let mut ids: Vec<u32> = got.iter().map(|g| g.id).collect();
    if let Some(id) = ids.iter().find(|i| busy.contains(i)) {
        return Err(format!("{:#x} is handed out though in use", id));
    }
    // None is lost: what is handed out is what one thread would have got.
    let mut want = s.next_ids(ids.len() + busy.len() + 2);
    want.retain(|i| !busy.contains(i));
    want.truncate(ids.len());
    ids.sort_unstable();
    want.sort_unstable();
    if ids != want {
        return Err(format!("the ids handed out are {:x?}, expected {:x?}", ids, want));
    }
    Ok(())
}

/// Any subset of these.
fn subset(ctx: &mut Ctx, of: &[u32]) -> Vec<u32> {
    of.iter().copied().filter(|_| ctx.flip()).collect()
}

#[derive(Clone, Copy, Debug)]
enum Change {
    Use(u32),
    Release(u32),
}

/// Allocations while ids are put to use and released by another thread, and by the allocating
/// threads themselves.
fn changing(ctx: &mut Ctx, s: Start, busy: &[u32], changes: &[Change], own: bool, counts: &[usize], bounds: impl Into<Bounds>) -> Outcome {
    ctx.note(|| {
        format!("{:?}, in use {:x?}, allocations {:?}{}, meanwhile {:x?}", s, busy, counts, if own { " put to use" } else { "" }, changes)
    });
    let store: DashMap<u32, ()> = busy.iter().map(|i| (*i, ())).collect();
    let p = s.provider();
    // (allocations, (id, is in use from, until) )
    type Log = (Vec<Got>, Vec<(Change, usize, usize)>);
    let mut bodies: Vec<Box<dyn FnOnce() -> Log + Send>> = vec![];
    for n in counts {
        let (p, store, n) = (&p, &store, *n);
        bodies.push(Box::new(move || {
            let (mut got, mut log) = (vec![], vec![]);
            for _ in 0..n {
                let from = tick();
                let id = p.next_stream_id(store);
                got.push(Got { id, from, to: tick() });
                if own {
                    let from = tick();
                    store.insert(id, ());
                    log.push((Change::Use(id), from, tick()));
                }
            }
            (got, log)
        }));
    }
    let store_ref = &store;
    bodies.push(Box::new(move || {
        let mut log = vec![];
        for c in changes {
            point();
            let from = tick();
            match c {
                Change::Use(id) => {
                    store_ref.insert(*id, ());
                }
                Change::Release(id) => {
                    store_ref.remove(id);
                }
            }
            log.push((*c, from, tick()));
        }
        (vec![], log)
    }));
    let all = run(ctx, bounds, bodies)?;
    let got: Vec<Got> = all.iter().flat_map(|a| a.0.iter().copied()).collect();
    let log: Vec<(Change, usize, usize)> = all.iter().flat_map(|a| a.1.iter().copied()).collect();
    ctx.state(&("changing", format!("{:?} {:?}", s, changes), busy, &got));
    ctx.note(|| format!("{:?}; {:x?}", got, log));
    valid(s, &got)?;
    for g in &got {
        // In use before the call began, and no release began before it ended.
        let mut used_since = if busy.contains(&g.id) { Some(0) } else { None };
        for (c, _, to) in &log {
            if matches!(c, Change::Use(id) if *id == g.id) && *to < g.from {
                used_since = Some(used_since.map_or(*to, |u: usize| u.max(*to)));
            }
        }
        let Some(since) = used_since else { continue };
        let released = log.iter().any(|(c, from, to)| matches!(c, Change::Release(id) if *id == g.id) && *from < g.to && *to > since);
        if !released {
            return Err(format!("{:#x} is handed out though in use all the time", g.id));
        }
    }
    Ok(())
}

pub fn c14(thorough: bool) -> Vec<Scenario> {
    let pick = move |quick: usize, deep: usize| if thorough { deep } else { quick };
    let (two, three, long, many, change) = (pick(6, 9), pick(4, 7), pick(3, 5), pick(4, 6), pick(3, 5));
    let apart = pick(2, 4);
    let outnumbered = pick(12, 15);
    vec![
        Scenario::new(
            "2 threads of 1",
            "one allocation by each of 2 threads; both roles and counters around 2^31 and 2^32; every set of ids in use among the \
             next 4; all interleavings",
            |ctx| {
                let s = *ctx.pick(&starts(false));
                let busy = subset(ctx, &s.next_ids(4));
                fixed(ctx, s, &busy, &[1, 1], usize::MAX)
            },
        ),
        Scenario::new(
            "2 threads of 2",
            format!(
                "2 allocations by each of 2 threads; both roles and counters around 2^31 and 2^32; every set of ids in use among \
                 the next 4; up to {} preemptions",
                two
            ),
            move |ctx| {
                let s = *ctx.pick(&starts(false));
                let busy = subset(ctx, &s.next_ids(4));
                fixed(ctx, s, &busy, &[2, 2], two)
            },
        ),
        Scenario::new(
            "2 threads of 3",
            format!("3 allocations by each of 2 threads; every set of ids in use among the next 4; up to {} preemptions", three),
            move |ctx| {
                let s = *ctx.pick(&starts(true));
                let busy = subset(ctx, &s.next_ids(4));
                fixed(ctx, s, &busy, &[3, 3], three)
            },
        ),
        Scenario::new(
            "long threads",
            format!("8 allocations by each of 2 threads; every set of ids in use among the next 3; up to {} preemptions", long),
            move |ctx| {
                let s = *ctx.pick(&starts(true));
                let busy = subset(ctx, &s.next_ids(3));
                fixed(ctx, s, &busy, &[8, 8], long)
            },
        ),
        Scenario::new(
            "3 and 4 threads",
            format!("1 or 2 allocations by each of 3 or 4 threads; every set of ids in use among the next 3; up to {} preemptions", many),
            move |ctx| {
                let s = *ctx.pick(&starts(true));
                let busy = subset(ctx, &s.next_ids(3));
                let counts = *ctx.pick(&[&[1, 1, 1][..], &[2, 1, 1], &[2, 2, 2], &[1, 1, 1, 1]]);
                fixed(ctx, s, &busy, counts, many)
            },
        ),
        Scenario::new(
            "weak exchanges",
            "2 allocations by each of 2 threads; every set of ids in use among the next 2; up to 3 preemptions and 2 weak exchanges \
             that fail for no reason",
            |ctx| {
                let s = *ctx.pick(&starts(true));
                let busy = subset(ctx, &s.next_ids(2));
                fixed(ctx, s, &busy, &[2, 2], Bounds { preemptions: 3, spurious: 2, apart: false })
            },
        ),
        Scenario::new(
            "outnumbered",
            format!(
                "one allocation by a thread while another does {}, none or all of the next 2 ids in use, all interleavings; 2 \
                 allocations by one thread with up to 40 weak exchanges that fail for no reason",
                outnumbered
            ),
            move |ctx| {
                let s = *ctx.pick(&starts(true));
                let busy = if ctx.flip() { s.next_ids(2) } else { vec![] };
                if ctx.flip() {
                    fixed(ctx, s, &busy, &[1, outnumbered], usize::MAX)
                } else {
                    fixed(ctx, s, &busy, &[2], Bounds { preemptions: 0, spurious: 40, apart: false })
                }
            },
        ),
        Scenario::new(
            "threads of the system",
            format!(
                "0, 1, 2, 40 or 300 allocations by one thread, then 3 by each of 2, or 2 by each of 3 threads, then 3 by the first \
                 thread; every set of ids in use among the next 2; up to {} preemptions",
                apart
            ),
            move |ctx| {
                let s = *ctx.pick(&starts(true));
                let busy = subset(ctx, &s.next_ids(2));
                let before = *ctx.pick(&[0usize, 1, 2, 40, 300]);
                let counts = *ctx.pick(&[&[3, 3][..], &[2, 2, 2]]);
                around(ctx, s, &busy, before, counts, 3, Bounds::apart(apart))
            },
        ),
        Scenario::new(
            "ids put to use and released",
            format!(
                "1 or 2 allocations by 1 or 2 threads, with or without putting their ids to use, while another thread does 2 \
                 changes to the next 3 ids; up to {} preemptions",
                change
            ),
            move |ctx| {
                let s = *ctx.pick(&starts(true));
                let ids = s.next_ids(3);
                let busy = subset(ctx, &ids);
                let changes: Vec<Change> = (0..2)
                    .map(|_| {
                        let id = *ctx.pick(&ids);
                        if ctx.flip() {
                            Change::Use(id)
                        } else {
                            Change::Release(id)
                        }
                    })
                    .collect();
                let own = ctx.flip();
                let counts = *ctx.pick(&[&[2][..], &[1, 1], &[2, 1]]);
                changing(ctx, s, &busy, &changes, own, counts, change)
            },
        ),
    ]
}
