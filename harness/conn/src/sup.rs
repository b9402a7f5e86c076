//! Supervision of a connection, in virtual time.
use binate::connection::verif::Requester;
use binate::connection::{ConnectionStatus, DuplexConnection};
use binate::frame::Frame;
use binate::{Flux, Mono, Result};
use explore::{Ctx, Outcome, Scenario};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::pin::Pin;
use std::sync::{Arc, Mutex, Once};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::time::Instant;
use tokio_stream::Stream;
use tracing::{span, Event, Level, Metadata, Subscriber};

// ---- what is reported ----

thread_local! {
    static REPORTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

struct Reports;

struct Text(String);

impl tracing::field::Visit for Text {
    fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn std::fmt::Debug) {
        let _ = write!(self.0, "{}={:?} ", field.name(), value);
    }
    fn record_str(&mut self, field: &tracing::field::Field, value: &str) {
        let _ = write!(self.0, "{}={} ", field.name(), value);
    }
}

impl Subscriber for Reports {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &span::Attributes<'_>) -> span::Id {
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, event: &Event<'_>) {
        // Less severe events are no reports.
        if *event.metadata().level() > Level::WARN {
            return;
        }
        let mut t = Text(String::new());
        event.record(&mut t);
        REPORTS.with(|r| r.borrow_mut().push(t.0));
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| tracing::subscriber::set_global_default(Reports).unwrap());
}

fn reports() -> Vec<String> {
    REPORTS.with(|r| r.borrow().clone())
}

// ---- the connection ----

#[derive(Default)]
struct Sub {
    queue: VecDeque<ConnectionStatus>,
    waker: Option<Waker>,
}

struct State {
    current: ConnectionStatus,
    ended: bool,
    subs: Vec<Arc<Mutex<Sub>>>,
    closes: Vec<Instant>,
    /// Polls of the status stream and subscriptions that nothing called for.
    idle: usize,
    spins: bool,
    publish_close: bool,
}

const SPIN: usize = 200;

#[derive(Clone)]
struct Conn(Arc<Mutex<State>>);

struct Statuses(Conn, Arc<Mutex<Sub>>);

impl Conn {
    fn new(current: ConnectionStatus, publish_close: bool) -> Conn {
        Conn(Arc::new(Mutex::new(State {
            current,
            ended: false,
            subs: vec![],
            closes: vec![],
            idle: 0,
            spins: false,
            publish_close,
        })))
    }

    fn publish(&self, status: ConnectionStatus) {
        let mut wake = vec![];
        {
            let mut s = self.0.lock().unwrap();
            if s.ended {
                return;
            }
            s.current = status.clone();
            s.idle = 0;
            for sub in &s.subs {
                let mut sub = sub.lock().unwrap();
                sub.queue.push_back(status.clone());
                wake.extend(sub.waker.take());
            }
        }
        wake.into_iter().for_each(Waker::wake);
    }

    fn end(&self) {
        let mut wake = vec![];
        {
            let mut s = self.0.lock().unwrap();
            s.ended = true;
            s.idle = 0;
            for sub in &s.subs {
                wake.extend(sub.lock().unwrap().waker.take());
            }
        }
        wake.into_iter().for_each(Waker::wake);
    }
}

impl State {
    /// Counts what happens although nothing called for it.
    fn busy(&mut self) -> bool {
        self.idle += 1;
        if self.idle > SPIN {
            self.spins = true;
        }
        self.spins
    }
}

impl Stream for Statuses {
    type Item = ConnectionStatus;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<ConnectionStatus>> {
        let mut s = self.0 .0.lock().unwrap();
        let mut sub = self.1.lock().unwrap();
        if s.spins {
            return Poll::Pending;
        }
        if let Some(x) = sub.queue.pop_front() {
            return Poll::Ready(Some(x));
        }
        if s.busy() {
            return Poll::Pending;
        }
        if s.ended {
            return Poll::Ready(None);
        }
        sub.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl DuplexConnection for Conn {
    fn send(&self, _: Frame) -> Mono<Result<()>> {
        Box::pin(async { Ok(()) })
    }
    fn send_and_forget(&self, _: Frame) -> Result<()> {
        Ok(())
    }
    fn send_stream(&self, _: Flux<Frame>) {}
    fn receive(&self) -> Flux<Frame> {
        Box::pin(tokio_stream::pending())
    }
    fn connect(&self) {}
    fn close(&self) {
        let publish = {
            let mut s = self.0.lock().unwrap();
            s.closes.push(Instant::now());
            s.publish_close
        };
        if publish {
            self.publish(ConnectionStatus::Closed);
        }
    }
    /// The current status first, then every change.
    fn connection_status(&self) -> Flux<ConnectionStatus> {
        let mut s = self.0.lock().unwrap();
        let sub = Arc::new(Mutex::new(Sub::default()));
        if !s.busy() {
            sub.lock().unwrap().queue.push_back(s.current.clone());
            s.subs.push(sub.clone());
        }
        Box::pin(Statuses(self.clone(), sub))
    }
}

// ---- judging ----

/// What must be reported for a status.
fn reported(s: &ConnectionStatus) -> Option<String> {
    match s {
        ConnectionStatus::Closed => Some("closed".into()),
        ConnectionStatus::Error(e) => Some(e.clone()),
        _ => None,
    }
}

fn is_timeout(r: &str) -> bool {
    let r = r.to_lowercase();
    r.contains("keepalive") || r.contains("timed out") || r.contains("timeout")
}

struct Watched {
    conn: Conn,
    timeout: Duration,
    began: Instant,
    /// Statuses that must be reported, in order.
    want: Vec<String>,
    _requester: Requester,
}

const SLACK: Duration = Duration::from_millis(3);

/// After time has passed, everything that could run has run.
fn judge(all: &mut [Watched], now: Instant) -> Outcome {
    let mut closed = 0;
    for w in all.iter_mut() {
        let s = w.conn.0.lock().unwrap();
        if s.spins {
            return Err("the status is asked for over and over although nothing changed".into());
        }
        if s.closes.len() > 1 {
            return Err(format!(
                "the connection is closed {} times, after {:?}",
                s.closes.len(),
                s.closes.iter().map(|t| *t - w.began).collect::<Vec<_>>()
            ));
        }
        if let Some(t) = s.closes.first() {
            let t = *t - w.began;
            if t < w.timeout {
                return Err(format!("closed after {:?}, before the timeout of {:?} has passed", t, w.timeout));
            }
            if t > 2 * w.timeout + SLACK {
                return Err(format!("closed after {:?}, later than two timeouts of {:?}", t, w.timeout));
            }
            closed += 1;
        } else if now - w.began > 2 * w.timeout + SLACK {
            return Err(format!("not closed after {:?} with a timeout of {:?}", now - w.began, w.timeout));
        }
    }
    let got = reports();
    let timeouts = got.iter().filter(|r| is_timeout(r)).count();
    if timeouts != closed {
        return Err(format!("{} keepalive timeouts are reported, {} connections were closed: {:?}", timeouts, closed, got));
    }
    let rest: Vec<&String> = got.iter().filter(|r| !is_timeout(r)).collect();
    // Each connection's reports in order, and no others.
    let total: usize = all.iter().map(|w| w.want.len()).sum();
    if rest.len() != total {
        return Err(format!(
            "{} reports, expected {}: {:?} for {:?}",
            rest.len(),
            total,
            rest,
            all.iter().map(|w| &w.want).collect::<Vec<_>>()
        ));
    }
    if !merge(&rest, &all.iter().map(|w| &w.want[..]).collect::<Vec<_>>()) {
        return Err(format!("reported {:?}, expected {:?}", rest, all.iter().map(|w| &w.want).collect::<Vec<_>>()));
    }
    Ok(())
}

/// Whether the reports are an interleaving of the expected ones.
fn merge(got: &[&String], want: &[&[String]]) -> bool {
    let Some(first) = got.first() else {
        return want.iter().all(|w| w.is_empty());
    };
    (0..want.len()).any(|i| {
        want[i].first().map_or(false, |t| first.to_lowercase().contains(&t.to_lowercase())) && {
            let mut rest = want.to_vec();
            rest[i] = &want[i][1..];
            merge(&got[1..], &rest)
        }
    })
}

fn statuses() -> Vec<ConnectionStatus> {
    vec![
        ConnectionStatus::Closed,
        ConnectionStatus::Error("first failure".into()),
        ConnectionStatus::Connected,
        ConnectionStatus::Error("other {} cause".into()),
        ConnectionStatus::Connecting,
        ConnectionStatus::Unconnected,
        ConnectionStatus::Error(String::new()),
    ]
}

struct Plan {
    servers: Vec<bool>,
    timeouts: Vec<Duration>,
    initial: Vec<ConnectionStatus>,
    publish_close: bool,
    drop_clone: bool,
}

async fn settle() {
    for _ in 0..6 {
        let _ = tokio::task::yield_now().await;
    }
}

/// Runs a sequence of events, then lets three timeouts pass.
async fn drive(ctx: &mut Ctx, plan: Plan, depth: usize, kinds: usize) -> Outcome {
    REPORTS.with(|r| r.borrow_mut().clear());
    let zero = Instant::now();
    let mut all = vec![];
    let longest = *plan.timeouts.iter().max().unwrap();
    for i in 0..plan.timeouts.len() {
        let conn = Conn::new(plan.initial[i].clone(), plan.publish_close);
        let began = Instant::now();
        let requester = Requester::start(plan.servers[i], conn.clone(), plan.timeouts[i]).await;
        if plan.drop_clone {
            drop(requester.clone());
        }
        let want = reported(&plan.initial[i]).into_iter().collect();
        all.push(Watched { conn, timeout: plan.timeouts[i], began, want, _requester: requester });
    }
    let mut history: Vec<u32> = vec![];
    let statuses = statuses();
    // The supervisor subscribes when it first runs.
    settle().await;
    for _ in 0..depth {
        ctx.step();
        let per = kinds + 1;
        let n = ctx.choose(all.len() * per + 4);
        history.push(n as u32);
        if n < all.len() * per {
            let w = &mut all[n / per];
            if n % per == kinds {
                ctx.note(|| format!("status stream {} ends", n / per));
                w.conn.end();
                continue;
            }
            let s = &statuses[n % per];
            ctx.note(|| format!("connection {} is {:?}", n / per, s));
            if !w.conn.0.lock().unwrap().ended {
                w.want.extend(reported(s));
            }
            w.conn.publish(s.clone());
            continue;
        }
        let t = plan.timeouts[0];
        match n - all.len() * per {
            0 => {
                settle().await;
                continue;
            }
            1 => pass(ctx, &mut all, Duration::from_millis(1)).await?,
            2 => pass(ctx, &mut all, t / 2).await?,
            _ => pass(ctx, &mut all, t).await?,
        }
    }
    ctx.state(&(
        &history,
        plan.servers,
        plan.timeouts,
        plan.initial.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>(),
        plan.publish_close,
        plan.drop_clone,
    ));
    pass(ctx, &mut all, Duration::from_millis(1)).await?;
    let spent = Instant::now() - zero;
    let end = 2 * longest + 2 * SLACK;
    if spent < end {
        pass(ctx, &mut all, end - spent).await?;
    }
    // Nothing more happens, but later changes are still reported.
    for w in &mut all {
        if !w.conn.0.lock().unwrap().ended {
            w.conn.publish(ConnectionStatus::Error("last failure".into()));
            w.want.push("last failure".into());
        }
    }
    pass(ctx, &mut all, 3 * longest).await
}

async fn pass(ctx: &mut Ctx, all: &mut [Watched], d: Duration) -> Outcome {
    let d = d.max(Duration::from_millis(1));
    ctx.note(|| format!("{:?} pass", d));
    ctx.heartbeat();
    let before: Vec<usize> = all.iter().map(|w| w.conn.0.lock().unwrap().closes.len()).collect();
    tokio::time::sleep(d).await;
    let now = Instant::now();
    // What became due at this very moment may not have run yet.
    settle().await;
    for (w, n) in all.iter_mut().zip(before) {
        let s = w.conn.0.lock().unwrap();
        if s.publish_close && !s.ended && s.closes.len() > n {
            w.want.push("closed".into());
        }
    }
    judge(all, now)
}

fn execute(ctx: &mut Ctx, plan: Plan, depth: usize, kinds: usize) -> Outcome {
    install();
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    ctx.note(|| {
        format!(
            "servers {:?}, timeouts {:?}, initially {:?}, close() publishes: {}, a clone is dropped: {}",
            plan.servers, plan.timeouts, plan.initial, plan.publish_close, plan.drop_clone
        )
    });
    rt.block_on(drive(ctx, plan, depth, kinds))
}

/// Many changes at once: each of them is reported, in order.
async fn burst(ctx: &mut Ctx, n: usize, pattern: usize, when: usize, server: bool) -> Outcome {
    REPORTS.with(|r| r.borrow_mut().clear());
    let t = Duration::from_millis(50);
    let conn = Conn::new(ConnectionStatus::Connected, false);
    let began = Instant::now();
    let requester = Requester::start(server, conn.clone(), t).await;
    let mut all = vec![Watched { conn, timeout: t, began, want: vec![], _requester: requester }];
    if when > 0 {
        settle().await;
    }
    if when == 2 {
        pass(ctx, &mut all, t).await?;
    }
    for round in 0..2 {
        for i in 0..n {
            let s = match pattern {
                0 => ConnectionStatus::Error(format!("failure {} of round {}.", i, round)),
                1 if i % 2 == 0 => ConnectionStatus::Closed,
                1 => ConnectionStatus::Connected,
                2 => ConnectionStatus::Closed,
                _ if i + 1 == n => ConnectionStatus::Error("the last".into()),
                _ => ConnectionStatus::Connecting,
            };
            ctx.step();
            // A supervisor that has not subscribed yet sees the latest status only.
            if all[0].conn.0.lock().unwrap().subs.is_empty() {
                all[0].want.clear();
            }
            all[0].want.extend(reported(&s));
            all[0].conn.publish(s);
        }
        if when == 1 {
            all[0].conn.end();
        }
        pass(ctx, &mut all, Duration::from_millis(2)).await?;
        if when == 1 {
            break;
        }
    }
    pass(ctx, &mut all, 3 * t).await
}

/// What a failure is described by.
fn texts(thorough: bool) -> Vec<String> {
    let mut all: Vec<String> = vec![];
    let kinds = ["x", "\u{e9}", "\u{20ac}", "\u{1f600}", " ", "\n", "\r\n", "{}", "{0}", "%s", "\"", "\\", "\0", "\u{1b}[31m", "a b\tc"];
    let most = if thorough { 1100 } else { 300 };
    for k in kinds {
        let step = if k == "x" { 1 } else { 7 };
        all.extend((1..=most).step_by(step).map(|n| format!("<{}>", k.repeat(n))));
    }
    for n in [511, 512, 1023, 1024, 1025, 2048, 4096, 4097, 8192, 65_535, 65_536, 70_000] {
        all.push(format!("<{}>", "x".repeat(n)));
    }
    for t in [
        "closed", "Closed", "connection was closed", "Connected", "Unconnected", "Connecting", "error", "Ok", "None",
        "(code 1) \"reset\"", "broken pipe (os error 32)", "end", "0", "null", "first line\nsecond line\n", " padded ",
        "\nleading", "trailing\n", "done", "WARN", "true",
    ] {
        all.push(t.into());
    }
    all
}

/// Two failures, what was published is what is reported.
async fn told(ctx: &mut Ctx, one: &str, two: &str, initial: bool, server: bool) -> Outcome {
    REPORTS.with(|r| r.borrow_mut().clear());
    let t = Duration::from_millis(50);
    let first = ConnectionStatus::Error(one.to_string());
    let conn = Conn::new(if initial { first.clone() } else { ConnectionStatus::Connected }, false);
    let began = Instant::now();
    let requester = Requester::start(server, conn.clone(), t).await;
    let mut want = vec![];
    if initial {
        want.extend(reported(&first));
    }
    let mut all = vec![Watched { conn, timeout: t, began, want, _requester: requester }];
    settle().await;
    pass(ctx, &mut all, Duration::from_millis(1)).await?;
    for s in [first, ConnectionStatus::Error(two.to_string())] {
        ctx.step();
        all[0].want.extend(reported(&s));
        all[0].conn.publish(s);
        pass(ctx, &mut all, Duration::from_millis(1)).await?;
    }
    pass(ctx, &mut all, 3 * t).await
}

/// Longer than any execution.
fn endless() -> Vec<Duration> {
    // Between two years and this, the timer of the library's runtime is out of its depth.
    [0, 1, 999_999_999].iter().map(|ns| Duration::new(u64::MAX, *ns)).chain((55..64).map(|b| Duration::from_secs(1 << b))).collect()
}

async fn never(ctx: &mut Ctx, t: Duration, passes: u64, server: bool) -> Outcome {
    REPORTS.with(|r| r.borrow_mut().clear());
    let conn = Conn::new(ConnectionStatus::Connected, false);
    let began = Instant::now();
    let _r = Requester::start(server, conn.clone(), t).await;
    settle().await;
    let mut want = vec![];
    for i in 0..3 {
        ctx.step();
        let s = ConnectionStatus::Error(format!("failure {}.", i));
        want.extend(reported(&s));
        conn.publish(s);
        tokio::time::sleep(Duration::from_secs(passes)).await;
        settle().await;
        let s = conn.0.lock().unwrap();
        let when: Vec<Duration> = s.closes.iter().map(|c| *c - began).collect();
        if when.len() == 1 && when[0] >= t && !s.spins {
            // The clock may leap when a timer is beyond its range.
            ctx.outcome("closed in time");
            return Ok(());
        }
        if s.spins || !s.closes.is_empty() {
            return Err(format!("closed after {:?} of {:?} with a timeout of {:?}", when, Instant::now() - began, t));
        }
        let got = reports();
        if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| !g.contains(w.as_str())) {
            return Err(format!("reported {:?}, expected {:?}", got, want));
        }
    }
    Ok(())
}

pub fn c21(thorough: bool) -> Vec<Scenario> {
    let us = Duration::from_micros;
    let depth = if thorough { 7 } else { 5 };
    let deep = if thorough { 9 } else { 7 };
    let pair = if thorough { 6 } else { 5 };
    let mut times: Vec<Duration> = (1..=12).map(|n| us(n * 1000)).collect();
    times.extend([Duration::from_nanos(1), us(1), us(250), us(999)]);
    times.extend([us(1500), us(2001), us(2999), us(10_500), us(63_000), us(64_000), us(65_000), us(90_001_000)]);
    times.extend([30, 60, 90, 3600].map(Duration::from_secs));
    // The timer reaches two years, and each execution lets five timeouts pass.
    let mut far = vec![];
    for p in 17..=if thorough { 35 } else { 34 } {
        for d in [-1i64, 0, 1] {
            far.push(Duration::from_millis(((1i64 << p) + d) as u64));
        }
    }
    for p in 8..=if thorough { 25 } else { 24 } {
        far.extend([Duration::from_secs((1 << p) - 1), Duration::from_secs(1 << p)]);
    }
    for days in [1, 7, 30, 31, 49, 50, 100, 199] {
        far.push(Duration::from_secs(days * 86_400));
    }
    let bursts: Vec<usize> =
        (1..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 150, 255, 256, 257, 300]).collect();
    let told_texts = texts(thorough);
    vec![
        Scenario::new(
            "events",
            format!(
                "all sequences of {} events: a status (7 kinds), the end of the statuses, letting tasks run, 1 ms, half a \
                 timeout or a timeout passing; timeouts of 5 ms and 60 s; then at least 5 timeouts pass",
                depth
            ),
            move |ctx| {
                let t = *ctx.pick(&[us(5000), us(60_000_000)]);
                let plan = Plan {
                    servers: vec![false],
                    timeouts: vec![t],
                    initial: vec![ConnectionStatus::Connected],
                    publish_close: false,
                    drop_clone: false,
                };
                execute(ctx, plan, depth, 7)
            },
        ),
        Scenario::new(
            "long sequences",
            format!("all sequences of {} events with statuses closed and failed only, timeout of 4 ms", deep),
            move |ctx| {
                let plan = Plan {
                    servers: vec![true],
                    timeouts: vec![us(4000)],
                    initial: vec![ConnectionStatus::Connecting],
                    publish_close: false,
                    drop_clone: false,
                };
                execute(ctx, plan, deep, 2)
            },
        ),
        Scenario::new(
            "settings",
            "28 timeouts of 1 ns to 1 h x both roles x 7 initial statuses x connection publishing its close or not x a \
             clone being dropped or not x all sequences of 2 events",
            move |ctx| {
                let t = *ctx.pick(&times);
                let plan = Plan {
                    servers: vec![ctx.flip()],
                    timeouts: vec![t],
                    initial: vec![ctx.pick(&statuses()).clone()],
                    publish_close: ctx.flip(),
                    drop_clone: ctx.flip(),
                };
                execute(ctx, plan, 2, 3)
            },
        ),
        Scenario::new(
            "long timeouts",
            format!(
                "{} timeouts around powers of two of milliseconds and seconds and of 1 day to {} x both roles x connection \
                 publishing its close or not x all sequences of 2 events",
                far.len(),
                if thorough { "600 days" } else { "200 days" }
            ),
            move |ctx| {
                let t = *ctx.pick(&far);
                let plan = Plan {
                    servers: vec![ctx.flip()],
                    timeouts: vec![t],
                    initial: vec![ConnectionStatus::Connected],
                    publish_close: ctx.flip(),
                    drop_clone: false,
                };
                execute(ctx, plan, 2, 2)
            },
        ),
        Scenario::new(
            "never",
            "timeouts of 2^55 s to the longest there are, both roles; 2 s to 231 days pass, three times, with status changes \
             before and after: nothing is closed, every change is reported",
            |ctx| {
                let t = *ctx.pick(&endless());
                let passes = *ctx.pick(&[2u64, 3600, 5_000_000, 20_000_000]);
                let server = ctx.flip();
                install();
                let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
                ctx.note(|| format!("timeout {:?}, {} s, server {}", t, passes, server));
                ctx.state(&("never", t, passes, server));
                rt.block_on(never(ctx, t, passes, server))
            },
        ),
        Scenario::new(
            "texts",
            format!(
                "failures described by each of {} texts (lengths of 1 to {} and up to 70,000; characters of 1 to 4 bytes, \
                 line breaks, braces, control characters; words that name statuses), published twice, once as the initial \
                 status, then one of 3 others; both roles",
                told_texts.len(),
                if thorough { 1100 } else { 300 }
            ),
            move |ctx| {
                let one = ctx.pick(&told_texts).clone();
                let two = match ctx.choose(3) {
                    0 => one.clone(),
                    1 => format!("{}.", one),
                    _ => "other".to_string(),
                };
                let initial = ctx.flip();
                let server = ctx.flip();
                install();
                let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
                ctx.note(|| format!("{:?} of {} bytes, initial {}, server {}", one.chars().take(40).collect::<String>(), one.len(), initial, server));
                ctx.state(&("text", &one, &two, initial, server));
                rt.block_on(told(ctx, &one, &two, initial, server))
            },
        ),
        Scenario::new(
            "bursts",
            "1 to 20 and 31 to 300 status changes of 4 patterns at once, before the supervisor has run, after it, or after \
             its timeout; then again as many; both roles",
            move |ctx| {
                let n = *ctx.pick(&bursts);
                let pattern = ctx.choose(4);
                let when = ctx.choose(3);
                let server = ctx.flip();
                install();
                let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
                ctx.note(|| format!("{} changes, pattern {}, when {}, server {}", n, pattern, when, server));
                ctx.state(&("burst", n, pattern, when, server));
                rt.block_on(burst(ctx, n, pattern, when, server))
            },
        ),
        Scenario::new(
            "two connections",
            format!("two supervised connections with timeouts 3/7, 5/5 or 4/60000 ms, all sequences of {} events", pair),
            move |ctx| {
                let (a, b) = *ctx.pick(&[(3, 7), (5, 5), (4, 60_000)]);
                let plan = Plan {
                    servers: vec![false, true],
                    timeouts: vec![us(a * 1000), us(b * 1000)],
                    initial: vec![ConnectionStatus::Connected, ConnectionStatus::Unconnected],
                    publish_close: ctx.flip(),
                    drop_clone: false,
                };
                execute(ctx, plan, pair, 3)
            },
        ),
    ]
}
