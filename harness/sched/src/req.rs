//! Fire-and-forget requests by several threads on one connection.
use crate::judge::{on_wire, part, request_frames, show, Parts};
use crate::threads::{me, point, run, Bounds};
use binate::connection::verif::Requester;
use binate::connection::{ConnectionStatus, DuplexConnection};
use binate::frame::Frame;
use binate::{Flux, Mono, Result};
use codec::gen::Role;
use bytes::Bytes;
use codec::spec::{K, M};
use codec::subject;
use explore::{Ctx, Outcome, Scenario};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::runtime::{Builder, Runtime};

#[derive(Default)]
struct State {
    /// Who sent what, in the order it arrived.
    frames: Vec<(usize, Frame)>,
    /// Frames to refuse: the n-th of a thread.
    refuse: Vec<(usize, usize)>,
    other: Option<&'static str>,
    /// Metadata pushes: who sent what.
    pushes: Vec<(usize, Frame)>,
    /// Which metadata is refused, and how often an answer is pending first.
    refused: Vec<Bytes>,
    pending: usize,
}

#[derive(Clone, Default)]
struct Mock(Arc<Mutex<State>>);

impl Mock {
    fn unasked(&self, what: &'static str) {
        self.0.lock().unwrap().other = Some(what);
    }
}

impl DuplexConnection for Mock {
    fn send(&self, frame: Frame) -> Mono<Result<()>> {
        point();
        let who = me();
        let md = on_wire(&frame).ok().and_then(|m| m.md).unwrap_or_default();
        let mut s = self.0.lock().unwrap();
        s.pushes.push((who, frame));
        let refuse = s.refused.contains(&md);
        Box::pin(Answer { md, refuse, pending: s.pending })
    }

    fn send_and_forget(&self, frame: Frame) -> Result<()> {
        point();
        let who = me();
        let mut s = self.0.lock().unwrap();
        let n = s.frames.iter().filter(|(w, _)| *w == who).count();
        s.frames.push((who, frame));
        if s.refuse.contains(&(who, n)) {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, format!("refusal {} {}", who, n)).into());
        }
        Ok(())
    }

    fn send_stream(&self, _: Flux<Frame>) {
        self.unasked("send_stream");
    }

    fn receive(&self) -> Flux<Frame> {
        Box::pin(tokio_stream::pending())
    }

    fn connect(&self) {
        self.unasked("connect");
    }

    fn close(&self) {
        self.unasked("close");
    }

    fn connection_status(&self) -> Flux<ConnectionStatus> {
        Box::pin(tokio_stream::pending())
    }
}

/// What the connection answers to a push.
struct Answer {
    md: Bytes,
    refuse: bool,
    pending: usize,
}

impl Future for Answer {
    type Output = Result<()>;

    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> {
        point();
        if self.pending > 0 {
            self.pending -= 1;
            c.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(if self.refuse {
            Err(io::Error::new(io::ErrorKind::BrokenPipe, format!("refusal of {:?}", self.md)).into())
        } else {
            Ok(())
        })
    }
}

/// What a thread does for C25.
#[derive(Clone, Debug)]
enum Act {
    Push(Bytes),
    Request(usize),
}

fn wait(mut f: Mono<Result<()>>) -> std::result::Result<(), String> {
    let mut c = Context::from_waker(Waker::noop());
    for _ in 0..50 {
        point();
        if let Poll::Ready(r) = f.as_mut().poll(&mut c) {
            return r.map_err(|e| refusal(&e));
        }
    }
    Err("is pending although the connection has answered".into())
}

fn pushes(ctx: &mut Ctx, setup: &Setup, programs: &[Vec<Act>], refused: Vec<Bytes>, pending: usize, bounds: impl Into<Bounds>) -> Outcome {
    let bounds = bounds.into();
    ctx.note(|| format!("server {} fragments of {:?}, pending {} times, refused {:?}: {:?}", setup.server, setup.size, pending, refused, programs));
    let mock = Mock::default();
    {
        let mut s = mock.0.lock().unwrap();
        s.refused = refused.clone();
        s.pending = pending;
    }
    let rt = runtime();
    let _in = rt.enter();
    let mut r = rt.block_on(Requester::start(setup.server, mock.clone(), Duration::from_secs(3600)));
    r.set_fragment_size(setup.size);
    let clones: Vec<Requester> = programs.iter().map(|_| r.clone()).collect();
    let bodies = programs
        .iter()
        .enumerate()
        .map(|(i, acts)| {
            let who = if setup.cloned { &clones[i] } else { &r };
            let who = who.rsocket();
            let rt = rt.handle();
            Box::new(move || {
                let _in = bounds.apart.then(|| rt.enter());
                acts.iter()
                    .map(|a| match a {
                        Act::Push(md) => wait(who.metadata_push(md.clone())),
                        Act::Request(n) => who
                            .fire_and_forget(subject::payload(&None, &Some(part(Role::Data, Some(*n)).unwrap())))
                            .map_err(|e| refusal(&e)),
                    })
                    .collect::<Vec<_>>()
            }) as Box<dyn FnOnce() -> Vec<std::result::Result<(), String>> + Send>
        })
        .collect();
    let results = run(ctx, bounds, bodies)?;
    let s = std::mem::take(&mut *mock.0.lock().unwrap());
    if let Some(o) = s.other {
        return Err(format!("the connection is asked to {}", o));
    }
    let mut seen = vec![];
    for (who, f) in &s.pushes {
        let m = on_wire(f)?;
        if m.k != K::MetadataPush || m.sid != 0 {
            return Err(format!("a metadata push sends {}", m.short()));
        }
        seen.push((*who, m.md.unwrap_or_default()));
    }
    ctx.note(|| format!("pushed {:?}", seen));
    ctx.state(&("pushes", setup.server, &seen, s.frames.iter().map(|f| f.0).collect::<Vec<_>>()));
    for (i, acts) in programs.iter().enumerate() {
        let mine: Vec<&Bytes> = seen.iter().filter(|(w, _)| *w == i).map(|(_, md)| md).collect();
        let want: Vec<&Bytes> = acts.iter().filter_map(|a| if let Act::Push(md) = a { Some(md) } else { None }).collect();
        if mine != want {
            return Err(format!("thread {} pushes {:?}, the connection is handed {:?}", i, want, mine));
        }
        for (a, r) in acts.iter().zip(&results[i]) {
            let want = match a {
                Act::Push(md) if refused.contains(md) => Err(format!("refusal of {:?}", md)),
                _ => Ok(()),
            };
            if *r != want {
                return Err(format!("{:?} by thread {} gives {:?}, the connection answered {:?}", a, i, r, want));
            }
            ctx.outcome(if want.is_ok() { "success" } else { "error" });
        }
        let requests = acts.iter().filter(|a| matches!(a, Act::Request(_))).count();
        let mut ids = vec![];
        for (who, f) in &s.frames {
            let m = on_wire(f)?;
            if *who == i && !ids.contains(&m.sid) {
                ids.push(m.sid);
            }
        }
        if ids.len() != requests {
            return Err(format!("thread {} makes {} requests on {} streams", i, requests, ids.len()));
        }
    }
    Ok(())
}

fn metadata(who: usize, n: usize) -> Bytes {
    // The first two are alike.
    let sizes = [3, 3, 0, 40];
    (0..sizes[n % 4]).map(|i| (n % 2 * 16 + i * 5 + if n == 1 { 7 } else { who * 64 }) as u8).collect::<Vec<u8>>().into()
}

fn acts(ctx: &mut Ctx, who: usize, n: usize) -> Vec<Act> {
    (0..n)
        .map(|_| match ctx.choose(4) {
            3 => Act::Request(5),
            i => Act::Push(metadata(who, i)),
        })
        .collect()
}

pub fn c25(thorough: bool) -> Vec<Scenario> {
    let b = if thorough { 2 } else { 0 };
    let plain = |ctx: &mut Ctx| Setup { server: false, counter: None, busy: vec![], size: *ctx.pick(&[None, Some(2)]), cloned: ctx.flip() };
    vec![
        Scenario::new(
            "2 threads",
            format!(
                "2 threads, on a shared requester or clones, of 2 of: pushing metadata (3 contents, one of them the same for                  both), a request; answers at once or pending once first, none, one or all of them refusals; up to {} preemptions",
                2 + b
            ),
            move |ctx| {
                let s = plain(ctx);
                let p = [acts(ctx, 0, 2), acts(ctx, 1, 2)];
                let refused = match ctx.choose(3) {
                    0 => vec![],
                    1 => vec![metadata(0, 0), metadata(1, 1)],
                    _ => (0..8).map(|i| metadata(i / 4, i % 4)).collect(),
                };
                let pending = ctx.choose(2);
                pushes(ctx, &s, &p, refused, pending, 2 + b)
            },
        ),
        Scenario::new(
            "threads of the system",
            format!("2 threads of the system, of 2 pushes or requests each, as above, up to {} preemptions", 1 + b),
            move |ctx| {
                let s = plain(ctx);
                let p = [acts(ctx, 0, 2), acts(ctx, 1, 2)];
                let refused = if ctx.flip() { vec![metadata(0, 0), metadata(1, 1)] } else { vec![] };
                pushes(ctx, &s, &p, refused, 1, Bounds::apart(1 + b))
            },
        ),
        Scenario::new("3 threads", format!("3 threads of one push or request each, as above, up to {} preemptions", 3 + b), move |ctx| {
            let s = plain(ctx);
            let p = [acts(ctx, 0, 1), acts(ctx, 1, 1), acts(ctx, 2, 1)];
            let refused = if ctx.flip() { vec![metadata(0, 0), metadata(2, 2)] } else { vec![] };
            pushes(ctx, &s, &p, refused, 1, 3 + b)
        }),
    ]
}

fn runtime() -> Runtime {
    Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}

/// One thread's requests.
#[derive(Clone, Debug)]
struct Program {
    sizes: Vec<(Option<usize>, Option<usize>)>,
    refuse: Option<usize>,
}

struct Setup {
    server: bool,
    counter: Option<i32>,
    busy: Vec<u32>,
    size: Option<usize>,
    cloned: bool,
}

/// Tells the payloads of different requests apart.
fn stamped(p: Parts, tag: usize) -> Parts {
    let stamp = |b: bytes::Bytes| b.iter().map(|x| x.wrapping_add(37 * tag as u8 + tag as u8)).collect::<Vec<u8>>().into();
    (p.0.map(stamp), p.1.map(stamp))
}

fn requests(ctx: &mut Ctx, setup: &Setup, programs: &[Program], bounds: impl Into<Bounds>) -> Outcome {
    let bounds = bounds.into();
    ctx.note(|| {
        format!(
            "server {} counter {:x?} in use {:x?} fragments of {:?} {}: {:?}",
            setup.server,
            setup.counter,
            setup.busy,
            setup.size,
            if setup.cloned { "clones" } else { "shared" },
            programs
        )
    });
    let mock = Mock::default();
    mock.0.lock().unwrap().refuse = programs.iter().enumerate().filter_map(|(i, p)| p.refuse.map(|n| (i, n))).collect();
    let rt = runtime();
    let _in = rt.enter();
    let mut r = rt.block_on(Requester::start(setup.server, mock.clone(), Duration::from_secs(3600)));
    r.set_fragment_size(setup.size);
    if let Some(c) = setup.counter {
        r.set_stream_id_counter(c);
    }
    for id in &setup.busy {
        r.occupy(*id);
    }
    let clones: Vec<Requester> = programs.iter().map(|_| r.clone()).collect();
    let payloads: Vec<Vec<Parts>> = programs
        .iter()
        .enumerate()
        .map(|(i, p)| {
            p.sizes.iter().enumerate().map(|(k, (md, data))| stamped((part(Role::Md, *md), part(Role::Data, *data)), 3 * i + k)).collect()
        })
        .collect();
    let bodies = payloads
        .iter()
        .enumerate()
        .map(|(i, ps)| {
            let who = if setup.cloned { &clones[i] } else { &r };
            let who = who.rsocket();
            let rt = rt.handle();
            Box::new(move || {
                let _in = bounds.apart.then(|| rt.enter());
                ps.iter().map(|(md, data)| who.fire_and_forget(subject::payload(md, data)).map_err(|e| refusal(&e))).collect::<Vec<_>>()
            }) as Box<dyn FnOnce() -> Vec<std::result::Result<(), String>> + Send>
        })
        .collect();
    let results = run(ctx, bounds, bodies)?;
    let s = std::mem::take(&mut *mock.0.lock().unwrap());
    if let Some(o) = s.other {
        return Err(format!("the connection is asked to {}", o));
    }
    let mut sent: Vec<(usize, M)> = vec![];
    for (who, f) in &s.frames {
        sent.push((*who, on_wire(f)?));
    }
    ctx.note(|| format!("frames {:?}", sent.iter().map(|(w, m)| format!("{}: {}", w, m.short())).collect::<Vec<_>>()));
    ctx.state(&("requests", setup.server, setup.size, &setup.busy, sent.iter().map(|(w, m)| (*w, m.sid, m.flags)).collect::<Vec<_>>()));
    // Streams, in the order they begin, by thread.
    let mut ids: Vec<u32> = vec![];
    for (i, program) in programs.iter().enumerate() {
        let mine: Vec<&M> = sent.iter().filter(|(w, _)| *w == i).map(|(_, m)| m).collect();
        let mut at = 0;
        for (k, parts) in payloads[i].iter().enumerate() {
            let Some(first) = mine.get(at) else {
                return Err(format!("request {} of thread {} sends nothing", k, i));
            };
            let frames: Vec<M> = mine[at..].iter().take_while(|m| m.sid == first.sid).map(|m| (*m).clone()).collect();
            let refused = program.refuse.map_or(false, |n| n >= at && n < at + frames.len());
            let sid = request_frames(&frames, setup.server, parts, setup.size, refused)
                .map_err(|e| format!("request {} of thread {} ({}): {}", k, i, show(parts), e))?;
            if setup.busy.contains(&sid) {
                return Err(format!("stream {:#x} is in use", sid));
            }
            if ids.contains(&sid) {
                return Err(format!("stream {:#x} is used for two requests", sid));
            }
            ids.push(sid);
            match &results[i][k] {
                Ok(()) if !refused => (),
                Err(e) if refused => {
                    let n = program.refuse.unwrap();
                    if n + 1 != at + frames.len() {
                        return Err(format!("thread {} goes on with a request after a frame of it was refused", i));
                    }
                    if *e != format!("refusal {} {}", i, n) {
                        return Err(format!("thread {} gets {:?} instead of the connection's error", i, e));
                    }
                    ctx.outcome("refused");
                }
                other => return Err(format!("request {} of thread {} gives {:?}, its frame was {}refused", k, i, other, if refused { "" } else { "not " })),
            }
            at += frames.len();
        }
        if at != mine.len() {
            return Err(format!("thread {} sends {} more frames", i, mine.len() - at));
        }
    }
    Ok(())
}

fn refusal(e: &binate::Error) -> String {
    use std::error::Error as _;
    e.source().and_then(|s| s.downcast_ref::<io::Error>()).map_or_else(|| format!("another error: {}", e), |e| e.to_string())
}

fn setup(ctx: &mut Ctx, subsets: usize) -> Setup {
    let (server, counter) = *ctx.pick(&[(false, None), (true, None), (false, Some(i32::MAX - 2)), (true, Some(-2)), (false, Some(-3))]);
    let first = counter.map_or(if server { 2 } else { 1 }, |c| c as u32 & 0x7FFF_FFFF);
    let mut busy = vec![];
    for i in 0..subsets as u32 {
        let id = first.wrapping_add(2 * i) & 0x7FFF_FFFF;
        if id != 0 && ctx.flip() {
            busy.push(id);
        }
    }
    Setup { server, counter, busy, size: *ctx.pick(&[Some(2), Some(1), None]), cloned: ctx.flip() }
}

fn frames(p: (Option<usize>, Option<usize>), size: Option<usize>) -> usize {
    size.map_or(1, |s| ((p.0.unwrap_or(0).max(p.1.unwrap_or(0)) + s - 1) / s).max(1))
}

type Shape = (Option<usize>, Option<usize>);

const SHAPES: [Shape; 5] = [(Some(2), Some(3)), (None, Some(4)), (Some(3), None), (None, None), (Some(0), Some(1))];

fn program(ctx: &mut Ctx, n: usize, shapes: &[Shape], size: Option<usize>) -> Program {
    let sizes: Vec<Shape> = (0..n).map(|_| *ctx.pick(shapes)).collect();
    let total: usize = sizes.iter().map(|p| frames(*p, size)).sum();
    let refuse = ctx.choose(total + 1).checked_sub(1);
    Program { sizes, refuse }
}

pub fn c11(thorough: bool) -> Vec<Scenario> {
    let b = if thorough { 2 } else { 0 };
    vec![
        Scenario::new(
            "2 threads of 1 request",
            format!(
                "a request of one of 5 payloads by each of 2 threads, on a shared requester or clones, fragments of 1 or 2 or none, \
                 every set of the next 2 ids in use, both roles and wrap-around, any one frame of each refused, up to {} preemptions",
                4 + b
            ),
            move |ctx| {
                let s = setup(ctx, 2);
                let p = [program(ctx, 1, &SHAPES, s.size), program(ctx, 1, &SHAPES, s.size)];
                requests(ctx, &s, &p, 4 + b)
            },
        ),
        Scenario::new(
            "2 threads of 2 requests",
            format!("2 requests of one of 2 payloads by each of 2 threads, as above, one thread's frame refused, up to {} preemptions", 3 + b),
            move |ctx| {
                let s = setup(ctx, 1);
                let mut p = [program(ctx, 2, &SHAPES[..2], s.size), Program { sizes: vec![SHAPES[0], SHAPES[1]], refuse: None }];
                if ctx.flip() {
                    p.reverse();
                }
                requests(ctx, &s, &p, 3 + b)
            },
        ),
        Scenario::new(
            "threads of the system",
            format!("2 threads of the system, of 1 or 2 requests each, as above, no frame refused, up to {} preemptions", 1 + b),
            move |ctx| {
                let s = setup(ctx, 1);
                let n = 1 + ctx.choose(2);
                let p: Vec<Program> = (0..2)
                    .map(|_| Program { sizes: (0..n).map(|_| *ctx.pick(&SHAPES[..2])).collect(), refuse: None })
                    .collect();
                requests(ctx, &s, &p, Bounds::apart(1 + b))
            },
        ),
        Scenario::new(
            "3 threads of 1 request",
            format!("a request by each of 3 threads, as above, up to {} preemptions", 3 + b),
            move |ctx| {
                let s = setup(ctx, 1);
                let mut p = vec![program(ctx, 1, &SHAPES[..2], s.size)];
                p.push(Program { sizes: vec![SHAPES[0]], refuse: None });
                p.push(Program { sizes: vec![SHAPES[2]], refuse: None });
                requests(ctx, &s, &p, 3 + b)
            },
        ),
    ]
}
