//! Stream id allocation by one thread.
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
use explore::{Ctx, Outcome, Scenario};
use std::collections::HashSet;

const MASK: u32 = 0x7FFF_FFFF;
/// Ids of one parity: 1, 3, .. 2^31-1, or 2, 4, .. 2^31-2.
fn count(server: bool) -> u64 {
    if server {
        (1 << 30) - 1
    } else {
        1 << 30
    }
}

fn provider(server: bool) -> StreamIdProvider {
    if server {
        StreamIdProvider::new_for_server()
    } else {
        StreamIdProvider::new_for_client()
    }
}

/// In-use sets for whole cycles.
fn in_use(which: usize) -> (&'static str, Vec<u32>) {
    match which {
        0 => ("nothing in use", vec![]),
        1 => ("the lowest and highest ids of either parity, runs of 1000 and 70000, powers of two in use", {
            let mut v: Vec<u32> = (1..=5).chain(9..=10).chain(1_000_001..1_001_001).chain(0x4000_0000..0x4001_1170).collect();
            v.extend(MASK - 9..=MASK);
            for i in 0..31 {
                v.push(1 << i);
                v.push((1 << i) + 1);
            }
            v
        }),
        _ => ("every other parity's id up to 20000 and a few more in use", {
            let mut v: Vec<u32> = (1..20_000).collect();
            v.extend((20_000..90_000).step_by(3));
            v.extend([MASK, MASK - 1, MASK - 4, MASK - 5]);
            v
        }),
    }
}

/// A whole cycle: every id that is not in use, once; then again.
fn cycle(ctx: &mut Ctx, server: bool, used: usize, laps: u32) -> Outcome {
    let (about, ids) = in_use(used);
    ctx.note(|| format!("{}, {}", if server { "server" } else { "client" }, about));
    let store: DashMap<u32, ()> = ids.iter().map(|i| (*i, ())).collect();
    let parity = if server { 0 } else { 1 };
    let busy = ids.iter().collect::<HashSet<_>>().iter().filter(|i| ***i % 2 == parity && ***i != 0).count() as u64;
    let p = provider(server);
    let want = count(server) - busy;
    // One bit per id of the parity.
    let mut seen = vec![0u64; 1 << 24];
    for lap in 0..laps {
        let mut first = None;
        for n in 0..want {
            if n & 0xFFFFF == 0 {
                ctx.heartbeat();
            }
            let id = p.next_stream_id(&store);
            if id == 0 || id > MASK || id % 2 != parity {
                return Err(format!("allocation {} of lap {} gives {:#x}", n, lap, id));
            }
            let i = (id >> 1) as usize;
            let bit = 1u64 << (i & 63);
            let fresh = (seen[i >> 6] & bit == 0) == (lap % 2 == 0);
            if !fresh {
                return Err(format!(
                    "allocation {} of lap {} gives {:#x} again although {} other ids are unused",
                    n, lap, id, want - n
                ));
            }
            seen[i >> 6] ^= bit;
            if first.is_none() {
                first = Some(id);
            }
        }
        ctx.steps(want);
        // Exactly once each: as many as there are, none twice, none in use.
        for id in ids.iter().filter(|i| **i % 2 == parity && **i != 0) {
            let i = (id >> 1) as usize;
            if (seen[i >> 6] >> (i & 63)) & 1 != 0 {
                return Err(format!("{:#x} is in use and was handed out", id));
            }
        }
        let lowest = (0..).map(|i| 2 * i + if server { 2 } else { 1 }).find(|i| !store.contains_key(i)).unwrap();
        if lap == 0 && first != Some(lowest) {
            return Err(format!("the first id is {:?}, expected {}", first, lowest));
        }
    }
    ctx.bulk_states(want);
    Ok(())
}

/// Next id after `at` (inclusive) in cyclic order that is not 0 and not in use.
fn model(at: &mut u32, store: &DashMap<u32, u8>) -> u32 {
    loop {
        let id = *at;
        *at = at.wrapping_add(2) & MASK;
        if id != 0 && !store.contains_key(&id) {
            return id;
        }
    }
}

fn compare(ctx: &mut Ctx, p: &StreamIdProvider, at: &mut u32, store: &DashMap<u32, u8>) -> Result<u32, String> {
    ctx.step();
    let want = model(at, store);
    let got = p.next_stream_id(store);
    ctx.note(|| format!("allocate: {:#x}", got));
    if got != want {
        return Err(format!("gives {:#x}, expected {:#x}", got, want));
    }
    Ok(got)
}

#[cfg(binate_verif)]
fn provider_at(counter: i32) -> StreamIdProvider {
    StreamIdProvider::verif_new(counter)
}

/// Without the hook, providers can only start at the beginning.
#[cfg(not(binate_verif))]
fn provider_at(counter: i32) -> StreamIdProvider {
    provider(counter & 1 == 0)
}

/// Whether a provider can start at this counter.
fn reachable(counter: i32) -> bool {
    cfg!(binate_verif) || counter == 1 || counter == 2
}

/// Counter values around the start, the wrap-around and the change of sign.
fn starts() -> Vec<(i32, &'static str)> {
    let mut v = vec![];
    for d in -10..10i32 {
        v.push((i32::MAX.wrapping_add(d), "around 2^31"));
        v.push((d, "around 2^32"));
    }
    v
}

pub fn c13(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let n = if thorough { 12 } else { 10 };
    v.push(Scenario::new(
        "from the start",
        format!("both roles, every set of in-use ids among the first {} ids (of both parities) x 8 allocations", n),
        move |ctx| {
            let server = ctx.flip();
            let store = DashMap::new();
            let mut set = 0u32;
            for i in 1..=n {
                if ctx.flip() {
                    store.insert(i, 0u8);
                    set |= 1 << i;
                }
            }
            ctx.state(&("start", server, set));
            ctx.note(|| format!("{} with {:#b} in use", if server { "server" } else { "client" }, set));
            let p = provider(server);
            let mut at = if server { 2 } else { 1 };
            for _ in 0..8 {
                compare(ctx, &p, &mut at, &store)?;
            }
            Ok(())
        },
    ));
    let w = if thorough { 9 } else { 7 };
    v.push(Scenario::new(
        "windows",
        format!(
            "counters of either parity within 10 of 2^31 and of 2^32 (through the hook), every set of in-use ids among \
             the {} next of their parity and the 2 first of the other, 12 allocations",
            w
        ),
        move |ctx| {
            let (start, place) = *ctx.pick(&starts());
            if !reachable(start) {
                return Ok(());
            }
            let store = DashMap::new();
            let mut at = start as u32 & MASK;
            let mut set = 0;
            for i in 0..w {
                if ctx.flip() {
                    store.insert(at.wrapping_add(2 * i) & MASK, 0u8);
                    set |= 1 << i;
                }
            }
            for i in 0..2 {
                if ctx.flip() {
                    store.insert(at.wrapping_add(2 * i + 1) & MASK, 0u8);
                    set |= 1 << (i + w);
                }
            }
            ctx.state(&("windows", start, set));
            ctx.note(|| format!("counter {:#x} ({}), in use {:#b}", start, place, set));
            let p = provider_at(start);
            for _ in 0..12 {
                compare(ctx, &p, &mut at, &store)?;
            }
            Ok(())
        },
    ));
    let d = if thorough { 8 } else { 6 };
    v.push(Scenario::new(
        "histories",
        format!(
            "all sequences of {} of: allocate, allocate and put to use, put one of the next 3 ids to use, release one \
             of the oldest 2; from the start and from counters around 2^31 and 2^32; then 4 allocations",
            d
        ),
        move |ctx| {
            let from = ctx.choose(8);
            let (p, mut at) = match from {
                0 => (provider(false), 1),
                1 => (provider(true), 2),
                _ => {
                    let c = [i32::MAX - 2, i32::MAX - 1, i32::MAX, -1, -2, -4][from - 2];
                    if !reachable(c) {
                        return Ok(());
                    }
                    (provider_at(c), c as u32 & MASK)
                }
            };
            ctx.note(|| format!("counter {:#x}", at));
            let store: DashMap<u32, u8> = DashMap::new();
            let mut used: Vec<u32> = vec![];
            for _ in 0..d {
                match ctx.choose(7) {
                    0 => {
                        compare(ctx, &p, &mut at, &store)?;
                    }
                    1 => {
                        let id = compare(ctx, &p, &mut at, &store)?;
                        store.insert(id, 1);
                        used.push(id);
                    }
                    i @ 2..=4 => {
                        let id = at.wrapping_add(2 * (i as u32 - 2)) & MASK;
                        ctx.note(|| format!("{:#x} is put to use", id));
                        store.insert(id, 2);
                        used.push(id);
                    }
                    i => {
                        if let Some(id) = used.get(i - 5).copied() {
                            ctx.note(|| format!("{:#x} is released", id));
                            store.remove(&id);
                            used.retain(|u| *u != id);
                        }
                    }
                }
                let mut sorted = used.clone();
                sorted.sort_unstable();
                ctx.state(&("histories", from, at, sorted));
            }
            for _ in 0..4 {
                compare(ctx, &p, &mut at, &store)?;
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "long runs",
        "runs of 1, 100, 1500, 65536 or 300000 in-use ids of the provider's parity at the start, before or across 2^31 \
         and 2^32; without gaps or with every 2nd, 3rd, 7th or 1000th of them free; alone or with 5000 ids of the \
         other parity in use; 24 allocations, all put to use or none",
        |ctx| {
            let n = *ctx.pick(&[1u32, 100, 1500, 65536, 300_000]);
            let c = *ctx.pick(&[1, 2, i32::MAX, i32::MAX - 1, i32::MAX - 2000, i32::MAX - 2001, -1, -2, -2000, -2001]);
            if !reachable(c) {
                return Ok(());
            }
            let gap = if n == 1 { 0 } else { *ctx.pick(&[0u32, 2, 3, 7, 1000]) };
            let (crowd, keep) = (ctx.flip(), ctx.flip());
            ctx.state(&("runs", n, c, gap, crowd, keep));
            ctx.note(|| {
                format!("counter {:#x}, the next {} ids are in use, but every {}th; crowd {}, keep {}", c, n, gap, crowd, keep)
            });
            let store = DashMap::new();
            let mut at = c as u32 & MASK;
            for i in 0..n {
                if gap == 0 || i % gap != gap - 1 {
                    store.insert(at.wrapping_add(2 * i) & MASK, 0u8);
                }
            }
            if crowd {
                for i in 0..5000 {
                    store.insert(at.wrapping_add(2 * i + 1) & MASK, 0);
                }
            }
            let p = provider_at(c);
            for _ in 0..24 {
                let id = compare(ctx, &p, &mut at, &store)?;
                if keep {
                    store.insert(id, 0);
                }
            }
            Ok(())
        },
    ));
    let sets = if thorough { 3 } else { 2 };
    let laps = if thorough { 2 } else { 1 };
    v.push(Scenario::new(
        "cycles",
        format!(
            "{} complete cycles per role with {} sets of in-use ids: about 2^30 allocations each, every id of the \
             parity handed out exactly once",
            laps, sets
        ),
        move |ctx| {
            let server = ctx.flip();
            let used = ctx.choose(sets);
            cycle(ctx, server, used, laps)
        },
    ).roots((0..2).flat_map(|r| (0..sets as u32).map(move |u| vec![r, u])).collect()));
    v
}
