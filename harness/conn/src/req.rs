//! Fire-and-forget requests and metadata pushes.
use crate::judge::{self, on_wire, part, request_frames, show, Parts};
use crate::mock::{self, Call, Mock};
use binate::connection::verif::Requester;
use binate::connection::ConnectionStatus;
use binate::frame::Encode;
use binate::{Mono, Payload, RSocket, Result};
use bytes::Bytes;
use codec::gen::{self, Role};
use codec::spec::{self, K, M};
use codec::subject;
use explore::{Ctx, Outcome, Scenario};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;
use tokio::runtime::{Builder, Runtime};

fn runtime() -> Runtime {
    Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}

fn start(rt: &Runtime, server: bool, mock: &Mock) -> Requester {
    rt.block_on(Requester::start(server, mock.clone(), Duration::from_secs(3600)))
}

/// Issues one request and judges it. `refuse`: index of its frame the connection refuses.
fn request(
    ctx: &mut Ctx,
    r: &dyn RSocket,
    mock: &Mock,
    server: bool,
    payload: Parts,
    size: Option<usize>,
    refuse: Option<usize>,
) -> std::result::Result<u32, String> {
    mock.take();
    {
        let mut s = mock.0.lock().unwrap();
        let at = s.forgets;
        s.refuse = refuse.map(|n| at + n).into_iter().collect();
    }
    let before = mock.0.lock().unwrap().forgets;
    let p: Payload = subject::payload(&payload.0, &payload.1);
    let got = r.fire_and_forget(p);
    ctx.step();
    let mut frames = vec![];
    for c in mock.take() {
        match c {
            Call::Forget(f) => frames.push(on_wire(&f)?),
            c => return Err(format!("the connection is asked for {:?}", c)),
        }
    }
    ctx.note(|| format!("{} -> {:?}, {} frames", show(&payload), got.is_ok(), frames.len()));
    let refused = refuse.map_or(false, |n| frames.len() > n);
    match (&got, refused) {
        (Ok(()), false) => (),
        (Err(e), true) => {
            let n = refuse.unwrap();
            if frames.len() != n + 1 {
                return Err(format!("{} frames are sent although frame {} was refused", frames.len(), n));
            }
            let kind = mock.0.lock().unwrap().kind;
            if !mock::same(e, before + n, kind) {
                let want = mock::told(&mock::refusal(before + n, kind));
                return Err(format!("the caller gets {} instead of the connection's error {}", mock::told(e), want));
            }
            ctx.outcome("refused");
        }
        (got, _) => {
            return Err(format!("the caller gets {:?} though the connection {}", got, if refused { "refused a frame" } else { "took every frame" }))
        }
    }
    request_frames(&frames, server, &payload, size, refused)
}

fn lens(v: &[usize]) -> Vec<Option<usize>> {
    std::iter::once(None).chain(v.iter().map(|n| Some(*n))).collect()
}

const EVENTS: usize = 8;

/// Something that has nothing to do with requests.
fn happen(ctx: &mut Ctx, rt: &Runtime, mock: &Mock, event: usize) {
    let wait = match event {
        0 => return,
        n @ 1..=4 => {
            let s = [
                ConnectionStatus::Connected,
                ConnectionStatus::Closed,
                ConnectionStatus::Error("failed".into()),
                ConnectionStatus::Unconnected,
            ][n - 1]
                .clone();
            ctx.note(|| format!("the connection becomes {:?}", s));
            mock.publish(s);
            Duration::from_millis(1)
        }
        n => {
            let d = Duration::from_secs([1800, 7300, 8_640_000][n - 5]);
            ctx.note(|| format!("{:?} pass", d));
            d
        }
    };
    ctx.step();
    rt.block_on(tokio::time::sleep(wait));
}

fn interference(ctx: &mut Ctx) -> Outcome {
    let server = ctx.flip();
    let base = if server { 2 } else { 1 };
    let size = *ctx.pick(&[Some(2), None]);
    let frames = size.map_or(1, |_| 3);
    let plan: Vec<(usize, bool)> = (0..frames)
        .map(|_| {
            let a = ctx.choose(6);
            (a, a > 2 && ctx.flip())
        })
        .collect();
    let refuse = ctx.choose(frames + 1).checked_sub(1);
    ctx.state(&("interference", server, size, &plan, refuse));
    ctx.note(|| format!("server {} size {:?} refuse {:?}, during the frames: {:?}", server, size, refuse, plan));
    let rt = runtime();
    let _in = rt.enter();
    let m = Mock::default();
    let mut r = start(&rt, server, &m);
    r.set_fragment_size(size);
    m.take();
    // What came of the requests made meanwhile: their payloads, sizes, results; and the ids put into use with the
    // number of frames sent till then.
    type Made = Vec<(Parts, Option<usize>, std::result::Result<(), String>)>;
    let made: Arc<Mutex<Made>> = Default::default();
    let busy: Arc<Mutex<Vec<(usize, u32)>>> = Default::default();
    {
        let (made, busy, m2, r2) = (made.clone(), busy.clone(), m.clone(), r.clone());
        let plan = plan.clone();
        let mut at = 0;
        m.0.lock().unwrap().hook = Some(Box::new(move |n, f| {
            let Ok(f) = on_wire(f) else { return };
            let occupy = |id: u32| {
                let id = id & 0x7FFF_FFFF;
                busy.lock().unwrap().push((m2.0.lock().unwrap().calls.len(), id));
                r2.occupy(id);
            };
            let Some((what, deep)) = plan.get(at).copied() else { return };
            let first = at == 0;
            at += 1;
            if Some(at - 1) == refuse {
                m2.0.lock().unwrap().refuse.push(n);
            }
            match what {
                0 => (),
                1 => occupy(f.sid),
                2 => {
                    occupy(f.sid + 2 * (1 + at as u32));
                    occupy(f.sid + 2 * (2 + at as u32));
                }
                k => {
                    let mut other = r2.clone();
                    let size = [None, Some(2), Some(1)][k - 3];
                    other.set_fragment_size(size);
                    let parts = (
                        if first { None } else { Some(gen::pat(Role::Token, 32 * at + 2).slice(32 * at..)) },
                        Some(gen::pat(Role::Token, 64 * at + 4).slice(64 * at - 1..)),
                    );
                    if deep {
                        let (r3, busy, m3) = (r2.clone(), busy.clone(), m2.clone());
                        let mut done = false;
                        m2.0.lock().unwrap().hook = Some(Box::new(move |_, f| {
                            if !done {
                                done = true;
                                let id = (f_sid(f) + 2) & 0x7FFF_FFFF;
                                busy.lock().unwrap().push((m3.0.lock().unwrap().calls.len(), id));
                                r3.occupy(id);
                            }
                        }));
                    }
                    let p = subject::payload(&parts.0, &parts.1);
                    let got = other.rsocket().fire_and_forget(p).map_err(|e| e.to_string());
                    made.lock().unwrap().push((parts, size, got));
                }
            }
        }));
    }
    let payload = (part(Role::Md, Some(3)), part(Role::Data, Some(6)));
    let got = r.rsocket().fire_and_forget(subject::payload(&payload.0, &payload.1));
    ctx.steps(1 + made.lock().unwrap().len() as u64);
    // Breaks the cycle.
    m.0.lock().unwrap().hook = None;
    match (&got, refuse) {
        (Ok(()), None) | (Err(_), Some(_)) => (),
        _ => return Err(format!("the caller gets {:?}", got)),
    }
    // The frames by their streams, in the order of their first frames.
    let mut streams: Vec<(u32, usize, Vec<M>)> = vec![];
    for (i, c) in m.take().into_iter().enumerate() {
        let Call::Forget(f) = c else { return Err(format!("the connection is asked for {:?}", c)) };
        let f = on_wire(&f)?;
        match streams.iter_mut().find(|s| s.0 == f.sid) {
            Some(s) => s.2.push(f),
            None => streams.push((f.sid, i, vec![f])),
        }
    }
    let made = std::mem::take(&mut *made.lock().unwrap());
    if streams.len() != 1 + made.len() {
        return Err(format!("{} requests use {} streams", 1 + made.len(), streams.len()));
    }
    let busy = busy.lock().unwrap().clone();
    for (i, (id, at, frames)) in streams.iter().enumerate() {
        let (parts, size, refused) = match i {
            0 => (&payload, size, refuse.is_some()),
            _ => {
                let (parts, size, got) = &made[i - 1];
                if let Err(e) = got {
                    return Err(format!("a request made meanwhile fails with {}", e));
                }
                (parts, *size, false)
            }
        };
        request_frames(frames, server, parts, size, refused)?;
        if refused && frames.len() != refuse.unwrap() + 1 {
            return Err(format!("{} frames are sent although frame {} was refused", frames.len(), refuse.unwrap()));
        }
        if busy.iter().any(|(then, b)| b == id && then <= at) {
            return Err(format!("stream {} is in use", id));
        }
        if *id < base {
            return Err(format!("stream {} is not valid", id));
        }
    }
    m.0.lock().unwrap().refuse.clear();
    let id = request(ctx, r.rsocket(), &m, server, payload, size, None)?;
    if busy.iter().any(|b| b.1 == id) || streams.iter().any(|s| s.0 == id) {
        return Err(format!("stream {} is used again", id));
    }
    Ok(())
}

fn f_sid(f: &binate::frame::Frame) -> u32 {
    on_wire(f).map_or(0, |m| m.sid)
}

pub fn c11(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let top = if thorough { 14 } else { 9 };
    let ps = lens(&(0..=top).collect::<Vec<_>>());
    v.push(Scenario::new(
        "one request",
        format!(
            "both roles; metadata and data absent or of 0-{} bytes; fragmentation off or by 1-{} or unlimited; the \
             connection refuses no frame or any one of them",
            top,
            top + 2
        ),
        move |ctx| {
            let server = ctx.flip();
            let md = *ctx.pick(&ps);
            let data = *ctx.pick(&ps);
            let size = match ctx.choose(top + 4) {
                0 => None,
                n if n == top + 3 => Some(usize::MAX),
                n => Some(n),
            };
            // Refusing a frame that is never sent is the same as refusing none.
            let most = size.map_or(1, |s| ((md.unwrap_or(0).max(data.unwrap_or(0)) + s.min(100) - 1) / s.min(100)).max(1));
            let refuse = ctx.choose(most + 1).checked_sub(1);
            ctx.state(&("one", server, md, data, size, refuse));
            ctx.note(|| format!("server {} size {:?} refuse {:?}", server, size, refuse));
            let rt = runtime();
            let _in = rt.enter();
            let m = Mock::default();
            let mut r = start(&rt, server, &m);
            r.set_fragment_size(size);
            request(ctx, r.rsocket(), &m, server, (part(Role::Md, md), part(Role::Data, data)), size, refuse)?;
            Ok(())
        },
    ));
    let depth = if thorough { 4 } else { 3 };
    v.push(Scenario::new(
        "histories",
        format!(
            "both roles; sequences of {} requests, each one of 7 payloads, by the requester or a clone of it, \
             fragmentation off, by 1 or by 2, refused at frame 0, 1, 2 or not; two ids in use in 5 ways",
            depth
        ),
        move |ctx| {
            let server = ctx.flip();
            let base = if server { 2 } else { 1 };
            let busy = *ctx.pick(&[&[][..], &[0], &[1], &[0, 1], &[1, 3]]);
            let rt = runtime();
            let _in = rt.enter();
            let m = Mock::default();
            let r = start(&rt, server, &m);
            let c = r.clone();
            let busy: Vec<u32> = busy.iter().map(|i| base + 2 * i).collect();
            for b in &busy {
                r.occupy(*b);
            }
            ctx.note(|| format!("server {} in use {:?}", server, busy));
            let mut ids = vec![];
            for _ in 0..depth {
                let mut who = if ctx.flip() { c.clone() } else { r.clone() };
                let (md, data) = *ctx.pick(&[
                    (Some(2), Some(3)),
                    (None, None),
                    (Some(0), None),
                    (None, Some(0)),
                    (Some(3), None),
                    (None, Some(1)),
                    (Some(1), Some(5)),
                ]);
                let size = *ctx.pick(&[None, Some(1), Some(2)]);
                let frames = size.map_or(1, |s| ((md.unwrap_or(0usize).max(data.unwrap_or(0)) + s - 1) / s).max(1));
                let refuse = ctx.choose(frames.min(3) + 1).checked_sub(1);
                who.set_fragment_size(size);
                let id = request(ctx, who.rsocket(), &m, server, (part(Role::Md, md), part(Role::Data, data)), size, refuse)?;
                if busy.contains(&id) {
                    return Err(format!("stream {} is in use", id));
                }
                if ids.contains(&id) {
                    return Err(format!("stream {} is used for two requests", id));
                }
                ids.push(id);
                ctx.state(&("histories", server, &busy, &ids, md, data, size, refuse));
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "refusals",
        format!(
            "the connection refuses frame 0, 1, 2 or 3 of 4 with every one of {} errors (I/O, protocol, decoding), or one \
             without fragmentation; then another request is made, which is refused with another of them or not",
            mock::KINDS
        ),
        |ctx| {
            let server = ctx.flip();
            let rt = runtime();
            let _in = rt.enter();
            let m = Mock::default();
            let mut r = start(&rt, server, &m);
            let mut ids = vec![];
            for first in [true, false] {
                let size = *ctx.pick(&[Some(2), None]);
                let refuse = match (first, size) {
                    (true, Some(_)) => Some(ctx.choose(4)),
                    (true, None) => Some(0),
                    (false, _) => *ctx.pick(&[None, Some(0)]),
                };
                let kind = if refuse.is_some() { ctx.choose(mock::KINDS) } else { 0 };
                m.0.lock().unwrap().kind = kind;
                r.set_fragment_size(size);
                ctx.note(|| format!("size {:?}, frame {:?} refused by {}", size, refuse, mock::told(&mock::refusal(0, kind))));
                let p = (part(Role::Md, Some(3)), part(Role::Data, Some(8)));
                let id = request(ctx, r.rsocket(), &m, server, p, size, refuse)?;
                if ids.contains(&id) {
                    return Err(format!("stream {} is used for two requests", id));
                }
                ids.push(id);
                ctx.state(&("refusals", server, first, size, refuse, kind));
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "interference",
        "a request of 3 fragments and one without fragmentation; while the connection is handed each of the frames, the \
         stream of the request or the next two are put into use, another request is made (whole, in 2 or in 5 fragments, \
         during whose first frame the next stream is put into use or not), or nothing; the connection refuses any or \
         none of the frames; then another request",
        interference,
    ));
    v.push(Scenario::new(
        "supervised",
        "3 requests, whole or in 2 fragments, refused or not; before each the connection publishes one of 4 statuses, or half \
         a keepalive timeout, two of them or 100 days pass, or nothing happens",
        |ctx| {
            let server = ctx.flip();
            let rt = runtime();
            let _in = rt.enter();
            let m = Mock::default();
            let mut r = start(&rt, server, &m);
            let mut path = vec![];
            for i in 0..3 {
                let event = ctx.choose(EVENTS);
                happen(ctx, &rt, &m, event);
                let size = *ctx.pick(&[None, Some(4)]);
                let refuse = ctx.choose(size.map_or(2, |_| 3)).checked_sub(1);
                r.set_fragment_size(size);
                path.push((event, size, refuse));
                ctx.state(&("supervised", server, &path));
                let p = (part(Role::Md, Some(5)), part(Role::Data, Some(7)));
                let id = request(ctx, r.rsocket(), &m, server, p, size, refuse)?;
                let want = 2 * i + if server { 2 } else { 1 };
                if id != want {
                    return Err(format!("stream {} is used instead of {}", id, want));
                }
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "many requests",
        "3000 requests in a row, of 5 shapes in turn, fragmented by 1-3, not at all, or alternately; every 7th, every 256th or \
         none of the frames refused",
        |ctx| {
            let server = ctx.flip();
            let sizes = *ctx.pick(&[&[None][..], &[Some(1)], &[Some(2), None], &[None, Some(3), Some(2)]]);
            let every = *ctx.pick(&[0usize, 7, 256]);
            ctx.note(|| format!("server {} sizes {:?}, every {}th frame refused", server, sizes, every));
            let rt = runtime();
            let _in = rt.enter();
            let m = Mock::default();
            let mut r = start(&rt, server, &m);
            let mut used = std::collections::HashSet::new();
            for i in 0..3000usize {
                ctx.heartbeat();
                let size = sizes[i % sizes.len()];
                r.set_fragment_size(size);
                let (md, data) = [(Some(2), Some(3)), (None, None), (Some(0), Some(1)), (Some(4), None), (None, Some(5))][i % 5];
                let n: usize = md.unwrap_or(0).max(data.unwrap_or(0));
                let frames = size.map_or(1, |s| (n + s - 1) / s).max(1);
                let at = m.0.lock().unwrap().forgets;
                let refuse = (0..frames).find(|n| every > 0 && (at + n + 1) % every == 0);
                m.0.lock().unwrap().kind = i;
                let p = (part(Role::Md, md), part(Role::Data, data));
                let id = request(ctx, r.rsocket(), &m, server, p, size, refuse)?;
                if !used.insert(id) {
                    return Err(format!("stream {} is used for two requests", id));
                }
            }
            ctx.state(&("many", server, sizes, every));
            ctx.bulk_states(3000);
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "contents",
        "parts made of fillers (zeros, 0xFF, one repeated byte, text, ramps) of 0-9 bytes, both sides alike or not, \
         fragmentation off or by 1-4",
        |ctx| {
            let server = ctx.flip();
            let n = ctx.choose(11).checked_sub(1);
            let k = ctx.choose(11).checked_sub(1);
            let (a, b) = (ctx.choose(judge::FILLERS), ctx.choose(judge::FILLERS));
            let size = ctx.choose(5).checked_sub(1).map(|n| n + 1);
            let md = n.map(|n| judge::filler(a, Role::Md, n));
            let data = k.map(|n| judge::filler(b, Role::Data, n));
            ctx.state(&("contents", server, n, k, a, b, size));
            ctx.note(|| format!("server {} fillers {} {} size {:?}", server, a, b, size));
            let rt = runtime();
            let _in = rt.enter();
            let m = Mock::default();
            let mut r = start(&rt, server, &m);
            r.set_fragment_size(size);
            let mut last = 0;
            for _ in 0..2 {
                // Twice the very same payload.
                let id = request(ctx, r.rsocket(), &m, server, (md.clone(), data.clone()), size, None)?;
                if id == last {
                    return Err(format!("stream {} is used for two requests", id));
                }
                last = id;
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "wrap-around",
        "counters around 2^31 and 2^32, every set of in-use ids among the next 3 and the first 2 of the parity, 4 requests \
         with and without fragmentation",
        |ctx| {
            let start_at = *ctx.pick(&[i32::MAX - 4, i32::MAX - 3, i32::MAX - 2, i32::MAX - 1, i32::MAX, i32::MIN, -6, -5, -4, -3, -2, -1, 0]);
            let server = start_at & 1 == 0;
            let mut at = start_at as u32 & 0x7FFF_FFFF;
            let rt = runtime();
            let _in = rt.enter();
            let m = Mock::default();
            let mut r = start(&rt, server, &m);
            r.set_stream_id_counter(start_at);
            let mut busy = vec![];
            let first = if server { 2 } else { 1 };
            for _ in 0..3 {
                if ctx.flip() {
                    busy.push(at);
                }
                at = at.wrapping_add(2) & 0x7FFF_FFFF;
            }
            for i in [first, first + 2] {
                if ctx.flip() {
                    busy.push(i);
                }
            }
            for b in &busy {
                r.occupy(*b);
            }
            let size = *ctx.pick(&[None, Some(2)]);
            r.set_fragment_size(size);
            ctx.state(&("wrap", start_at, &busy, size));
            ctx.note(|| format!("counter {:#x}, in use {:x?}, size {:?}", start_at, busy, size));
            let mut ids = vec![];
            for _ in 0..4 {
                let p = (part(Role::Md, Some(3)), part(Role::Data, Some(1)));
                let id = request(ctx, r.rsocket(), &m, server, p, size, None)?;
                if busy.contains(&id) || ids.contains(&id) {
                    return Err(format!("stream {:#x} is already in use", id));
                }
                ids.push(id);
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "large",
        "parts of 255 to 2^24+5 bytes (metadata up to 2^24-1), fragmentation off or by 1 (up to 70001 frames) to 2^24",
        |ctx| {
            let top = (1 << 24) - 1;
            let md = *ctx.pick(&[None, Some(255), Some(65536), Some(70000), Some(top)]);
            let data = *ctx.pick(&[None, Some(256), Some(65535), Some(70001), Some(top + 6)]);
            let size = *ctx.pick(&[None, Some(1), Some(3), Some(255), Some(256), Some(65536), Some(1 << 20), Some(top)]);
            if size.map_or(false, |s| s < 65536 && md.max(data).unwrap_or(0) / s > 70001) {
                return Ok(());
            }
            let refuse = *ctx.pick(&[None, Some(0), Some(1)]);
            ctx.state(&("large", md, data, size, refuse));
            ctx.note(|| format!("size {:?} refuse {:?}", size, refuse));
            let rt = runtime();
            let _in = rt.enter();
            let m = Mock::default();
            let mut r = start(&rt, false, &m);
            r.set_fragment_size(size);
            request(ctx, r.rsocket(), &m, false, (part(Role::Md, md), part(Role::Data, data)), size, refuse)?;
            Ok(())
        },
    ));
    v
}

// ---- C25 ----

#[derive(Default)]
struct Flag(AtomicUsize);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// A push under way.
struct Push {
    future: Mono<Result<()>>,
    metadata: Bytes,
    /// Its answer at the connection, once its frame was handed over.
    answer: Option<Arc<Mutex<mock::Answer>>>,
    settled: Option<mock::Reply>,
    done: bool,
    waker: Arc<Flag>,
    polled: bool,
    woken_at: usize,
}

impl Push {
    fn new(r: &Requester, metadata: Bytes) -> Push {
        Push {
            future: r.rsocket().metadata_push(metadata.clone()),
            metadata,
            answer: None,
            settled: None,
            done: false,
            waker: Default::default(),
            polled: false,
            woken_at: 0,
        }
    }
}

/// Sorts the calls the connection got: pushes' frames to their pushes.
fn attribute(pushes: &mut [Push], mock: &Mock, seen: &mut usize) -> Outcome {
    for c in mock.take() {
        let f = match c {
            Call::Send(f) => f,
            // Either way of sending would do, but only `send` answers.
            // The supervisor's business.
            Call::Close | Call::Status => continue,
            c => return Err(format!("the connection is asked for {:?}", c)),
        };
        let m = on_wire(&f)?;
        let mut want = vec![];
        let a = mock.0.lock().unwrap().answers[*seen].clone();
        *seen += 1;
        if m.k != K::MetadataPush || m.sid != 0 {
            return Err(format!("a metadata push sends {}", m.short()));
        }
        let raw = f.to_bytes();
        let p = pushes.iter_mut().find(|p| p.answer.is_none() && Some(&p.metadata) == m.md.as_ref());
        let Some(p) = p else {
            return Err(format!("a frame with {} bytes of metadata is sent that no push asked for", m.md.map_or(0, |b| b.len())));
        };
        let mut e = M::new(K::MetadataPush);
        e.md = Some(p.metadata.clone());
        spec::encode(&e, &mut want);
        if raw[..] != want[..] {
            return Err(format!("the frame is {} on the wire", subject::clip(&&raw[..raw.len().min(40)])));
        }
        p.answer = Some(a);
    }
    Ok(())
}

fn settle(a: &Arc<Mutex<mock::Answer>>, r: mock::Reply) {
    let w = {
        let mut a = a.lock().unwrap();
        a.ready = Some(r);
        a.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

fn pushes_scenario(ctx: &mut Ctx, ops: usize, most: usize, sizes: &[usize]) -> Outcome {
    let server = ctx.flip();
    let size = *ctx.pick(&[None, Some(1), Some(2)]);
    let rt = runtime();
    let _in = rt.enter();
    let mock = Mock::default();
    let mut r = start(&rt, server, &mock);
    r.set_fragment_size(size);
    ctx.note(|| format!("server {} size {:?}", server, size));
    let mut pushes: Vec<Push> = vec![];
    let mut seen = 0;
    let mut fnf = 0u32;
    mock.take();
    let mut history = vec![];
    for _ in 0..ops {
        let n = ctx.choose(sizes.len() + 1 + 3 * most);
        history.push(n);
        ctx.step();
        if n < sizes.len() {
            if pushes.len() == most {
                continue;
            }
            // Told apart by their bytes.
            let k = pushes.len();
            let twice = pushes.iter().any(|p| p.metadata.is_empty());
            let len = if sizes[n] == 0 && twice { 1 } else { sizes[n] };
            let metadata = gen::pat(Role::Md, 64 * k + len).slice(64 * k..);
            ctx.note(|| format!("push {} bytes", metadata.len()));
            pushes.push(Push::new(&r, metadata));
        } else if n == sizes.len() {
            // A request in between: takes the next stream id as if there were no pushes.
            ctx.note(|| "fire and forget".to_string());
            attribute(&mut pushes, &mock, &mut seen)?;
            let p = (Some(gen::pat(Role::Token, 2)), Some(gen::pat(Role::Data, 3)));
            let id = request(ctx, r.rsocket(), &mock, server, p, size, None)?;
            let want = fnf * 2 + if server { 2 } else { 1 };
            if id != want {
                return Err(format!("a request uses stream {} instead of {}", id, want));
            }
            fnf += 1;
        } else {
            let i = (n - sizes.len() - 1) / 3;
            let what = (n - sizes.len() - 1) % 3;
            let Some(p) = pushes.get_mut(i) else { continue };
            if what < 2 {
                // The connection answers.
                if let (Some(a), None) = (&p.answer, p.settled) {
                    let answer = if what == 0 { Ok(()) } else { Err((900 + i, i)) };
                    ctx.note(|| format!("the connection answers push {} with {:?}", i, answer));
                    settle(a, answer);
                    p.settled = Some(answer);
                    if p.polled && p.waker.0.load(Ordering::SeqCst) == p.woken_at && !p.done {
                        return Err(format!("push {} is not woken when the connection answers", i));
                    }
                }
            } else if !p.done {
                poll(ctx, p, i)?;
            }
        }
        attribute(&mut pushes, &mock, &mut seen)?;
    }
    // In the end everything is answered.
    for i in 0..pushes.len() {
        if !pushes[i].done {
            poll(ctx, &mut pushes[i], i)?;
            attribute(&mut pushes, &mock, &mut seen)?;
        }
        let p = &mut pushes[i];
        let Some(a) = p.answer.clone() else {
            return Err(format!("push {} sent no frame though it was polled", i));
        };
        if p.settled.is_none() {
            settle(&a, Err((900 + i, i)));
            p.settled = Some(Err((900 + i, i)));
        }
        for _ in 0..3 {
            if !p.done {
                poll(ctx, p, i)?;
            }
        }
        if !p.done {
            return Err(format!("push {} is still pending though the connection answered", i));
        }
    }
    attribute(&mut pushes, &mock, &mut seen)?;
    ctx.state(&(server, size, &history));
    Ok(())
}

fn poll(ctx: &mut Ctx, p: &mut Push, i: usize) -> Outcome {
    let w = Waker::from(p.waker.clone());
    p.woken_at = p.waker.0.load(Ordering::SeqCst);
    let got = Pin::new(&mut p.future).poll(&mut Context::from_waker(&w));
    p.polled = true;
    ctx.note(|| format!("poll push {}: {}", i, match &got { Poll::Pending => "pending".into(), Poll::Ready(r) => format!("{:?}", r.as_ref().map_err(|e| e.to_string())) }));
    match got {
        Poll::Pending => {
            if p.settled.is_some() && p.waker.0.load(Ordering::SeqCst) == p.woken_at {
                return Err(format!("push {} is pending though the connection answered", i));
            }
        }
        Poll::Ready(r) => {
            p.done = true;
            let right = match (&r, p.settled) {
                (Ok(()), Some(Ok(()))) => true,
                (Err(e), Some(Err((t, k)))) => mock::same(e, t, k),
                _ => false,
            };
            if !right {
                let answered = p.settled.map(|a| a.map_err(|(t, k)| mock::refusal(t, k)));
                return Err(format!("push {} resolves to {:?} but the connection answered {:?}", i, r, answered));
            }
            ctx.outcome(if r.is_ok() { "success" } else { "error" });
        }
    }
    Ok(())
}

pub fn c25(thorough: bool) -> Vec<Scenario> {
    let ops = if thorough { 6 } else { 5 };
    vec![
        Scenario::new(
            "answers",
            format!(
                "both roles, fragmentation off, by 1 or by 2; all sequences of {} of: push 0 or 3 bytes, fire and forget, \
                 answer push 1/2 with success or an error, poll push 1/2; then all is answered and polled",
                ops
            ),
            move |ctx| pushes_scenario(ctx, ops, 2, &[3, 0]),
        ),
        Scenario::new(
            "every answer",
            format!(
                "a push answered with success or every one of {} errors (I/O, protocol, decoding), before it is first \
                 polled or after, or after a second poll; then another push of the same or other metadata, answered likewise",
                mock::KINDS
            ),
            |ctx| {
                let server = ctx.flip();
                let rt = runtime();
                let _in = rt.enter();
                let mock = Mock::default();
                let r = start(&rt, server, &mock);
                mock.take();
                let mut seen = 0;
                let mut path = vec![];
                let alike = ctx.flip();
                for i in 0..2 {
                    let early = ctx.choose(3);
                    let answer = match ctx.choose(mock::KINDS + 1) {
                        0 => Ok(()),
                        n => Err((7, n - 1)),
                    };
                    path.push((early, answer));
                    ctx.note(|| format!("push {}, answered {:?} after {} polls", i, answer.map_err(|(t, k)| mock::refusal(t, k)), early));
                    let n = if alike { 4 } else { 4 + i };
                    let mut p = [Push::new(&r, gen::pat(Role::Md, n))];
                    ctx.step();
                    attribute(&mut p, &mock, &mut seen)?;
                    for _ in 0..early {
                        poll(ctx, &mut p[0], i)?;
                        attribute(&mut p, &mock, &mut seen)?;
                    }
                    if p[0].answer.is_none() {
                        // Sends nothing before it is polled.
                        poll(ctx, &mut p[0], i)?;
                        attribute(&mut p, &mock, &mut seen)?;
                    }
                    let Some(a) = p[0].answer.clone() else { return Err("no frame is sent".into()) };
                    settle(&a, answer);
                    p[0].settled = Some(answer);
                    for _ in 0..3 {
                        if !p[0].done {
                            poll(ctx, &mut p[0], i)?;
                            attribute(&mut p, &mock, &mut seen)?;
                        }
                    }
                    if !p[0].done {
                        return Err("the push is still pending though the connection answered".into());
                    }
                }
                ctx.state(&(server, alike, path));
                Ok(())
            },
        ),
        Scenario::new(
            "alike",
            "2-4 pushes of the same metadata (0 or 3 bytes) at once, polled in their order; each is dropped at the start, \
             dropped once polled, or answered with success or an error, in either order",
            |ctx| {
                let server = ctx.flip();
                let n = 2 + ctx.choose(3);
                let bytes = gen::pat(Role::Md, *ctx.pick(&[3, 0]));
                let backwards = ctx.flip();
                let rt = runtime();
                let _in = rt.enter();
                let mock = Mock::default();
                let r = start(&rt, server, &mock);
                mock.take();
                let mut fates = vec![];
                let mut pushes = vec![];
                let mut seen = 0;
                let mut sent = 0;
                for i in 0..n {
                    let fate = ctx.choose(4);
                    ctx.note(|| format!("push {} {}", i, ["is dropped", "is dropped once polled", "succeeds", "fails"][fate]));
                    fates.push(fate);
                    let mut p = [Push::new(&r, bytes.clone())];
                    ctx.step();
                    attribute(&mut p, &mock, &mut seen)?;
                    if fate > 0 {
                        poll(ctx, &mut p[0], i)?;
                        attribute(&mut p, &mock, &mut seen)?;
                        if p[0].answer.is_none() {
                            return Err(format!("push {} sent no frame though it was polled", i));
                        }
                    }
                    sent += usize::from(p[0].answer.is_some());
                    if fate > 1 {
                        let [p] = p;
                        pushes.push((i, fate, p));
                    }
                }
                if backwards {
                    pushes.reverse();
                }
                for (i, fate, p) in &mut pushes {
                    let answer = if *fate == 2 { Ok(()) } else { Err((70 + *i, *i)) };
                    let before = p.waker.0.load(Ordering::SeqCst);
                    settle(p.answer.as_ref().unwrap(), answer);
                    p.settled = Some(answer);
                    if p.waker.0.load(Ordering::SeqCst) == before {
                        return Err(format!("push {} is not woken when the connection answers", i));
                    }
                }
                for (i, _, p) in &mut pushes {
                    for _ in 0..3 {
                        if !p.done {
                            poll(ctx, p, *i)?;
                        }
                    }
                    if !p.done {
                        return Err(format!("push {} is still pending though the connection answered", i));
                    }
                }
                if seen != sent || !mock.take().is_empty() {
                    return Err("more frames are sent than pushes made".into());
                }
                ctx.state(&(server, backwards, bytes.len(), fates));
                Ok(())
            },
        ),
        Scenario::new(
            "late answers",
            "one or two pushes at once, polled twice before and after each of two events: the connection publishes one of 4 \
             statuses, half a keepalive timeout, two of them or 100 days pass, or nothing; then success or one of 4 errors",
            |ctx| {
                let server = ctx.flip();
                let n = 1 + ctx.choose(2);
                let rt = runtime();
                let _in = rt.enter();
                let mock = Mock::default();
                let r = start(&rt, server, &mock);
                mock.take();
                let mut seen = 0;
                let mut pushes: Vec<Push> = (0..n).map(|i| Push::new(&r, gen::pat(Role::Md, 3 + i))).collect();
                let mut path = vec![];
                for _ in 0..2 {
                    for i in 0..n {
                        poll(ctx, &mut pushes[i], i)?;
                        attribute(&mut pushes, &mock, &mut seen)?;
                    }
                    let event = ctx.choose(EVENTS);
                    path.push(event);
                    happen(ctx, &rt, &mock, event);
                    attribute(&mut pushes, &mock, &mut seen)?;
                    for i in 0..n {
                        poll(ctx, &mut pushes[i], i)?;
                    }
                }
                for i in 0..n {
                    let answer = match ctx.choose(5) {
                        0 => Ok(()),
                        k => Err((8 + i, [3, 16, 20, 34][k - 1])),
                    };
                    ctx.note(|| format!("push {} is answered with {:?}", i, answer.map_err(|(t, k)| mock::refusal(t, k))));
                    let p = &mut pushes[i];
                    let Some(a) = p.answer.clone() else { return Err("no frame is sent".into()) };
                    settle(&a, answer);
                    p.settled = Some(answer);
                    for _ in 0..3 {
                        if !p.done {
                            poll(ctx, p, i)?;
                        }
                    }
                    if !p.done {
                        return Err("the push is still pending though the connection answered".into());
                    }
                    ctx.state(&(server, n, &path, i, answer));
                }
                Ok(())
            },
        ),
        Scenario::new(
            "contents",
            "metadata of 0-9 bytes of each of 6 fillers, twice in a row, each answered by success or an error",
            |ctx| {
                let server = ctx.flip();
                let n = ctx.choose(10);
                let f = ctx.choose(judge::FILLERS);
                let rt = runtime();
                let _in = rt.enter();
                let mock = Mock::default();
                let r = start(&rt, server, &mock);
                mock.take();
                let mut seen = 0;
                for i in 0..2 {
                    let answer = if ctx.flip() { Ok(()) } else { Err((5, i)) };
                    ctx.note(|| format!("{} bytes of filler {}, {:?}", n, f, answer.is_ok()));
                    let mut p = [Push::new(&r, judge::filler(f, Role::Md, n))];
                    ctx.step();
                    attribute(&mut p, &mock, &mut seen)?;
                    poll(ctx, &mut p[0], i)?;
                    attribute(&mut p, &mock, &mut seen)?;
                    let Some(a) = p[0].answer.clone() else { return Err("no frame is sent".into()) };
                    settle(&a, answer);
                    p[0].settled = Some(answer);
                    for _ in 0..3 {
                        if !p[0].done {
                            poll(ctx, &mut p[0], i)?;
                        }
                    }
                    if !p[0].done {
                        return Err("the push is still pending though the connection answered".into());
                    }
                    ctx.state(&(server, n, f, i, answer));
                }
                Ok(())
            },
        ),
        Scenario::new(
            "sizes",
            "metadata of 0-40, 255-257, 65535-65537, 2^24-1, 2^24 and 2^24+5 bytes, answered at once or later, both roles, \
             three fragment sizes",
            |ctx| {
                let mut all: Vec<usize> = (0..=40).collect();
                all.extend([255, 256, 257, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24, (1 << 24) + 5]);
                let n = *ctx.pick(&all);
                let server = ctx.flip();
                let size = *ctx.pick(&[None, Some(1), Some(7)]);
                let late = ctx.flip();
                let ok = ctx.flip();
                ctx.state(&("sizes", n, server, size, late, ok));
                ctx.note(|| format!("{} bytes, server {}, size {:?}, late {}, ok {}", n, server, size, late, ok));
                let rt = runtime();
                let _in = rt.enter();
                let mock = Mock::default();
                let mut r = start(&rt, server, &mock);
                r.set_fragment_size(size);
                mock.take();
                let metadata = gen::pat(Role::Md, n);
                let mut p = vec![Push::new(&r, metadata)];
                let mut seen = 0;
                ctx.step();
                attribute(&mut p, &mock, &mut seen)?;
                if late || p[0].answer.is_none() {
                    poll(ctx, &mut p[0], 0)?;
                    attribute(&mut p, &mock, &mut seen)?;
                }
                let Some(a) = p[0].answer.clone() else { return Err("no frame is sent".into()) };
                let r = if ok { Ok(()) } else { Err((7, n)) };
                settle(&a, r);
                p[0].settled = Some(r);
                if !p[0].done {
                    poll(ctx, &mut p[0], 0)?;
                }
                attribute(&mut p, &mock, &mut seen)?;
                if !p[0].done {
                    return Err("the push is still pending though the connection answered".into());
                }
                Ok(())
            },
        ),
    ]
}
