//! A connection that records what is done to it.
use binate::connection::verif::protocol_error;
use binate::connection::{ConnectionStatus, DuplexConnection};
use binate::frame::{DecodeError, Frame};
use binate::{Code, Error, Flux, Mono, Result};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio_stream::Stream;

#[derive(Debug, Clone)]
pub enum Call {
    Forget(Frame),
    Send(Frame),
    SendStream,
    Receive,
    Connect,
    Close,
    Status,
}

/// The kinds of errors a connection answers with.
pub const KINDS: usize = 120;

const CODES: [Code; 10] = [
    Code::InvalidSetup,
    Code::UnsupportedSetup,
    Code::RejectedSetup,
    Code::RejectedResume,
    Code::ConnectionError,
    Code::ConnectionClose,
    Code::ApplicationError,
    Code::Rejected,
    Code::Canceled,
    Code::Invalid,
];

const IO: [io::ErrorKind; 12] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::Interrupted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Other,
];

/// `EPERM`, `EINTR`, `EIO`, `EAGAIN` and so on.
const OS: [i32; 16] = [1, 4, 5, 9, 11, 12, 22, 28, 32, 90, 103, 104, 105, 110, 111, 115];

/// An error of the given kind; `tag` tells those of a kind apart where it can.
pub fn refusal(tag: usize, kind: usize) -> Error {
    let text = format!("refusal {}", tag);
    match kind % KINDS {
        n @ 0..=11 => io::Error::new(IO[n], text).into(),
        n @ 12..=21 => protocol_error(CODES[n - 12], Some(text)),
        n @ 22..=31 => protocol_error(CODES[n - 22], None),
        32 => io::Error::from(io::ErrorKind::Interrupted).into(),
        33 => io::Error::from_raw_os_error(11).into(),
        34 => DecodeError::InComplete.into(),
        35 => DecodeError::UnrecognizedFrameType(tag as u16).into(),
        36 => DecodeError::InvalidStreamId { expected: "0", found: tag as u32 }.into(),
        n @ 37..=73 => io::Error::from(crate::errs::IO[n - 37]).into(),
        n @ 74..=98 => {
            let rest = crate::errs::IO.iter().filter(|k| !IO.contains(k)).nth(n - 74);
            io::Error::new(*rest.unwrap_or(&io::ErrorKind::Other), text).into()
        }
        n @ 99..=114 => io::Error::from_raw_os_error(OS[n - 99]).into(),
        115 => io::Error::new(io::ErrorKind::WouldBlock, String::new()).into(),
        116 => io::Error::new(io::ErrorKind::Other, text.repeat(500)).into(),
        // Others' errors inside.
        117 => io::Error::new(io::ErrorKind::Other, Error::from(DecodeError::InComplete)).into(),
        118 => io::Error::new(io::ErrorKind::Other, io::Error::new(io::ErrorKind::WouldBlock, text)).into(),
        _ => io::Error::new(io::ErrorKind::Interrupted, protocol_error(Code::Rejected, Some(text))).into(),
    }
}

/// Everything that can be told about an error.
pub fn told(e: &Error) -> String {
    use std::error::Error as _;
    let mut sources = vec![];
    let mut at = e.source();
    while let Some(s) = at {
        let io = s.downcast_ref::<io::Error>().map(|s| (s.kind(), s.raw_os_error()));
        sources.push(format!("{} {:?}", s, io));
        at = s.source();
    }
    let is = [
        e.is_decode(),
        e.is_protocol(),
        e.is_setup(),
        e.is_invalid_setup(),
        e.is_unsupported_setup(),
        e.is_rejected_setup(),
        e.is_rejected_resume(),
        e.is_connection_error(),
        e.is_connection_close(),
        e.is_application_error(),
        e.is_rejected(),
        e.is_cancel(),
        e.is_invalid(),
    ];
    let is: String = is.iter().map(|b| if *b { '1' } else { '0' }).collect();
    format!("{:?} {} {:?}", e.to_string(), is, sources)
}

/// How one call of a connection is answered: with success, or with `refusal(tag, kind)`.
pub type Reply = std::result::Result<(), (usize, usize)>;

pub fn same(e: &Error, tag: usize, kind: usize) -> bool {
    told(e) == told(&refusal(tag, kind))
}

/// One answer to `send` that is under way.
#[derive(Default)]
pub struct Answer {
    pub ready: Option<Reply>,
    pub waker: Option<Waker>,
    pub polls: usize,
}

#[derive(Default)]
pub struct State {
    pub calls: Vec<Call>,
    /// Refuses these calls of `send_and_forget` (counted from 0), with their number as tag.
    pub refuse: Vec<usize>,
    /// The kind of error these are refused with.
    pub kind: usize,
    pub forgets: usize,
    pub answers: Vec<Arc<Mutex<Answer>>>,
    /// Called with the number of each call of `send_and_forget` before it is answered, unless it is running.
    pub hook: Option<Box<dyn FnMut(usize, &Frame) + Send>>,
    /// Status changes still to be taken up, and who waits for them.
    pub statuses: VecDeque<ConnectionStatus>,
    pub watcher: Option<Waker>,
}

struct Statuses(Arc<Mutex<State>>);

impl Stream for Statuses {
    type Item = ConnectionStatus;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<ConnectionStatus>> {
        let mut s = self.0.lock().unwrap();
        match s.statuses.pop_front() {
            Some(status) => Poll::Ready(Some(status)),
            None => {
                s.watcher = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

#[derive(Clone, Default)]
pub struct Mock(pub Arc<Mutex<State>>);

impl Mock {
    pub fn take(&self) -> Vec<Call> {
        std::mem::take(&mut self.0.lock().unwrap().calls)
    }

    /// The connection changes its status.
    pub fn publish(&self, status: ConnectionStatus) {
        let waker = {
            let mut s = self.0.lock().unwrap();
            s.statuses.push_back(status);
            s.watcher.take()
        };
        if let Some(w) = waker {
            w.wake();
        }
    }
}

struct Pending(Arc<Mutex<Answer>>);

impl Future for Pending {
    type Output = Result<()>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        let mut a = self.0.lock().unwrap();
        a.polls += 1;
        match a.ready {
            Some(r) => {
                Poll::Ready(r.map_err(|(t, k)| refusal(t, k)))
            }
            None => {
                a.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl DuplexConnection for Mock {
    fn send(&self, frame: Frame) -> Mono<Result<()>> {
        let mut s = self.0.lock().unwrap();
        s.calls.push(Call::Send(frame));
        let a = Arc::new(Mutex::new(Answer::default()));
        s.answers.push(a.clone());
        Box::pin(Pending(a))
    }

    fn send_and_forget(&self, frame: Frame) -> Result<()> {
        let mut s = self.0.lock().unwrap();
        s.calls.push(Call::Forget(frame.clone()));
        let n = s.forgets;
        s.forgets += 1;
        if let Some(mut hook) = s.hook.take() {
            drop(s);
            hook(n, &frame);
            s = self.0.lock().unwrap();
            s.hook = Some(hook);
        }
        if s.refuse.contains(&n) {
            return Err(refusal(n, s.kind));
        }
        Ok(())
    }

    fn send_stream(&self, _frames: Flux<Frame>) {
        self.0.lock().unwrap().calls.push(Call::SendStream);
    }

    fn receive(&self) -> Flux<Frame> {
        self.0.lock().unwrap().calls.push(Call::Receive);
        Box::pin(tokio_stream::pending())
    }

    fn connect(&self) {
        self.0.lock().unwrap().calls.push(Call::Connect);
    }

    fn close(&self) {
        self.0.lock().unwrap().calls.push(Call::Close);
    }

    fn connection_status(&self) -> Flux<ConnectionStatus> {
        self.0.lock().unwrap().calls.push(Call::Status);
        Box::pin(Statuses(self.0.clone()))
    }
}
