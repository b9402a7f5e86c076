//! Errors: classification and description.
use binate::connection::verif::protocol_error;
use binate::frame::DecodeError;
use binate::{Code, Error};
use explore::{Ctx, Outcome, Scenario};
use std::error::Error as StdError;
use std::io;

/// Code, its number and its name in the RSocket protocol.
const CODES: [(Code, u32, &str); 10] = [
    (Code::InvalidSetup, 0x001, "INVALID_SETUP"),
    (Code::UnsupportedSetup, 0x002, "UNSUPPORTED_SETUP"),
    (Code::RejectedSetup, 0x003, "REJECTED_SETUP"),
    (Code::RejectedResume, 0x004, "REJECTED_RESUME"),
    (Code::ConnectionError, 0x101, "CONNECTION_ERROR"),
    (Code::ConnectionClose, 0x102, "CONNECTION_CLOSE"),
    (Code::ApplicationError, 0x201, "APPLICATION_ERROR"),
    (Code::Rejected, 0x202, "REJECTED"),
    (Code::Canceled, 0x203, "CANCELED"),
    (Code::Invalid, 0x204, "INVALID"),
];

#[derive(PartialEq, Clone, Copy, Debug)]
enum Is {
    Protocol(usize),
    Decode,
    Io,
}

fn classify(e: &Error, is: Is) -> Outcome {
    let specific = [
        ("is_invalid_setup", e.is_invalid_setup(), 0),
        ("is_unsupported_setup", e.is_unsupported_setup(), 1),
        ("is_rejected_setup", e.is_rejected_setup(), 2),
        ("is_rejected_resume", e.is_rejected_resume(), 3),
        ("is_connection_error", e.is_connection_error(), 4),
        ("is_connection_close", e.is_connection_close(), 5),
        ("is_application_error", e.is_application_error(), 6),
        ("is_rejected", e.is_rejected(), 7),
        ("is_cancel", e.is_cancel(), 8),
        ("is_invalid", e.is_invalid(), 9),
    ];
    for (name, got, i) in specific {
        if got != (is == Is::Protocol(i)) {
            return Err(format!("{} of {:?} is {}", name, is, got));
        }
    }
    let groups = [
        ("is_setup", e.is_setup(), matches!(is, Is::Protocol(0..=2))),
        ("is_protocol", e.is_protocol(), matches!(is, Is::Protocol(_))),
        ("is_decode", e.is_decode(), is == Is::Decode),
    ];
    for (name, got, want) in groups {
        if got != want {
            return Err(format!("{} of {:?} is {}", name, is, got));
        }
    }
    Ok(())
}

/// The words of a text, for finding a protocol name exactly.
fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect()
}

/// The text of an error without the text of its cause.
fn own_text(e: &Error, cause: &str) -> Result<String, String> {
    let s = e.to_string();
    if cause.is_empty() {
        return Ok(s);
    }
    match s.rfind(cause) {
        Some(i) => Ok(format!("{}{}", &s[..i], &s[i + cause.len()..])),
        None => Err(format!("{:?} does not mention the cause {:?}", s, cause)),
    }
}

fn described(e: &Error, i: usize, cause: Option<&str>) -> Outcome {
    let text = own_text(e, cause.unwrap_or(""))?;
    let w = words(&text);
    let (_, number, name) = CODES[i];
    for (_, n, other) in CODES {
        let there = w.contains(&other);
        if there != (other == name) {
            return Err(format!("{:?} {} {}", text, if there { "mentions" } else { "does not mention" }, other));
        }
        // Numbers, in whatever base they are written.
        let shown = w.iter().any(|x| {
            let hex = x.strip_prefix("0x").or(x.strip_prefix("0X"));
            hex.and_then(|h| u32::from_str_radix(h, 16).ok()) == Some(n) || (hex.is_none() && x.parse() == Ok(n))
        });
        if shown != (n == number) {
            return Err(format!("{:?} {} the code {:#x}", text, if shown { "has" } else { "has not" }, n));
        }
    }
    Ok(())
}

fn source(e: &Error, want: Option<&str>) -> Outcome {
    let got = e.source().map(|s| s.to_string());
    if got.as_deref() != want {
        return Err(format!("source is {:?}, expected {:?}", got, want));
    }
    if format!("{:?}", e).is_empty() {
        return Err("Debug gives nothing".into());
    }
    Ok(())
}

const CAUSES: [Option<&str>; 11] = [
    None,
    Some("boom"),
    Some(""),
    Some("REJECTED (0x00000202)"),
    Some("error decoding frame"),
    Some("a: b: c"),
    Some("{} {0} %s"),
    Some("line\nline"),
    Some("größe \u{1F980}"),
    Some("\0"),
    Some(LONG),
];
const LONG: &str = "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789\
0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890";

fn protocol(ctx: &mut Ctx) -> Outcome {
    // Two errors, so that one does not affect the other.
    let mut made = vec![];
    for _ in 0..2 {
        let i = ctx.choose(CODES.len());
        let c = ctx.choose(CAUSES.len());
        ctx.step();
        ctx.state(&("protocol", i, c));
        ctx.note(|| format!("{:?} with cause {:?}", CODES[i].0, CAUSES[c]));
        made.push((protocol_error(CODES[i].0, CAUSES[c].map(str::to_string)), i, CAUSES[c]));
    }
    for (e, i, cause) in &made {
        classify(e, Is::Protocol(*i))?;
        described(e, *i, *cause)?;
        source(e, *cause)?;
    }
    Ok(())
}

fn codes(ctx: &mut Ctx) -> Outcome {
    let i = ctx.choose(CODES.len());
    let j = ctx.choose(CODES.len());
    let (c, n, _) = CODES[i];
    ctx.state(&("codes", i, j));
    ctx.step();
    if c as u32 != n {
        return Err(format!("{:?} is {:#x}, expected {:#x}", c, c as u32, n));
    }
    if (c == CODES[j].0) != (i == j) || c.clone() != c {
        return Err(format!("{:?} == {:?} is {}", c, CODES[j].0, c == CODES[j].0));
    }
    Ok(())
}

fn decode_error(ctx: &mut Ctx, d: DecodeError, number: Option<u64>) -> Outcome {
    let text = d.to_string();
    if text.is_empty() {
        return Err(format!("{:?} has no text", d));
    }
    if let Some(n) = number {
        // The number that was found is told.
        let told = words(&text).iter().any(|x| {
            let hex = x.strip_prefix("0x").or(x.strip_prefix("0X"));
            hex.and_then(|h| u64::from_str_radix(h, 16).ok()) == Some(n) || (hex.is_none() && x.parse() == Ok(n))
        });
        if !told {
            return Err(format!("{:?} does not tell {}", text, n));
        }
    }
    if d.source().is_some() || d.clone() != d {
        return Err(format!("{:?} has a source or differs from its copy", d));
    }
    ctx.step();
    let e = Error::from(d);
    classify(&e, Is::Decode)?;
    // The message survives.
    own_text(&e, &text)?;
    source(&e, Some(&text))
}

pub const IO: [io::ErrorKind; 37] = [
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::NetworkUnreachable,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::NotADirectory,
    io::ErrorKind::IsADirectory,
    io::ErrorKind::DirectoryNotEmpty,
    io::ErrorKind::ReadOnlyFilesystem,
    io::ErrorKind::StaleNetworkFileHandle,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::StorageFull,
    io::ErrorKind::NotSeekable,
    io::ErrorKind::QuotaExceeded,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::ResourceBusy,
    io::ErrorKind::ExecutableFileBusy,
    io::ErrorKind::Deadlock,
    io::ErrorKind::TooManyLinks,
    io::ErrorKind::ArgumentListTooLong,
    io::ErrorKind::Interrupted,
    io::ErrorKind::Unsupported,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
];

fn io_error(ctx: &mut Ctx) -> Outcome {
    let (e, text, kind) = match ctx.choose(4) {
        0 => {
            let k = *ctx.pick(&IO);
            let c = *ctx.pick(&CAUSES);
            let c = c.unwrap_or("cause");
            (io::Error::new(k, c), c.to_string(), k)
        }
        1 => {
            let k = *ctx.pick(&IO);
            (io::Error::from(k), io::Error::from(k).to_string(), k)
        }
        2 => {
            // What an I/O error wraps does not make it anything else.
            let k = *ctx.pick(&IO);
            let i = ctx.choose(8 + CODES.len());
            let inner: Box<dyn StdError + Send + Sync> = match i {
                0 => Box::new(DecodeError::InComplete),
                1 => Box::new(DecodeError::UnrecognizedFrameType(0x3c)),
                2 => Box::new(DecodeError::InvalidStreamId { expected: "0", found: 1 }),
                3 => Box::new(Error::from(DecodeError::InComplete)),
                4 => Box::new(io::Error::new(io::ErrorKind::NotFound, "inner")),
                5 => Box::new(Error::from(io::Error::new(io::ErrorKind::NotFound, "inner"))),
                6 => Box::new(std::str::from_utf8(b"\xff").unwrap_err()),
                7 => Box::new(std::fmt::Error),
                n => Box::new(protocol_error(CODES[n - 8].0, Some("inner".into()))),
            };
            let text = inner.to_string();
            (io::Error::new(k, inner), text, k)
        }
        _ => {
            let n = ctx.choose(134) as i32;
            let e = io::Error::from_raw_os_error(n);
            let k = e.kind();
            (e, io::Error::from_raw_os_error(n).to_string(), k)
        }
    };
    let raw = e.raw_os_error();
    ctx.step();
    ctx.state(&(&text, format!("{:?}", kind)));
    ctx.note(|| format!("{:?}", e));
    let e = Error::from(e);
    classify(&e, Is::Io)?;
    own_text(&e, &text)?;
    source(&e, Some(&text))?;
    match e.source().and_then(|s| s.downcast_ref::<io::Error>()) {
        Some(s) if s.kind() == kind && s.raw_os_error() == raw => Ok(()),
        s => Err(format!("the source is {:?}, expected the I/O error of kind {:?}", s, kind)),
    }
}

/// Causes of many lengths, in characters of one to four bytes, at all the places an error can carry one.
fn long_cause(ctx: &mut Ctx, lengths: &[usize]) -> Outcome {
    let n = *ctx.pick(lengths);
    let unit = *ctx.pick(&["x", "\u{e9}", "\u{20ac}", "\u{1f980}", "ab ", "a\u{301}\u{e9}\u{20ac}", "\n", "\u{7f}\0"]);
    let place = ctx.choose(6);
    ctx.step();
    ctx.state(&("long", n, unit, place));
    ctx.note(|| format!("a cause of {} x {:?} at place {}", n, unit, place));
    // Its beginning and its end differ from its middle.
    let text = format!("<{}>", unit.repeat(n));
    match place {
        0 | 1 => {
            let i = if place == 0 { 6 } else { 0 };
            let e = protocol_error(CODES[i].0, Some(text.clone()));
            classify(&e, Is::Protocol(i))?;
            described(&e, i, Some(&text))?;
            source(&e, Some(&text))
        }
        2 | 3 => {
            let k = io::ErrorKind::ConnectionReset;
            let e = Error::from(if place == 2 {
                io::Error::new(k, text.clone())
            } else {
                io::Error::new(k, protocol_error(Code::Rejected, Some(text.clone())))
            });
            classify(&e, Is::Io)?;
            own_text(&e, &text)?;
            if place == 2 {
                source(&e, Some(&text))
            } else {
                Ok(())
            }
        }
        _ => {
            let expected: &'static str = Box::leak(text.clone().into_boxed_str());
            let d = DecodeError::InvalidStreamId { expected, found: 7 };
            if !d.to_string().contains(expected) {
                return Err("the expectation is not told".into());
            }
            if place == 4 {
                return Ok(());
            }
            let whole = d.to_string();
            let e = Error::from(d);
            classify(&e, Is::Decode)?;
            own_text(&e, &whole)?;
            source(&e, Some(&whole))
        }
    }
}

pub fn c20(thorough: bool) -> Vec<Scenario> {
    let mut lengths: Vec<usize> = (0..=if thorough { 4200 } else { 1100 }).collect();
    for p in 9..=if thorough { 22 } else { 18 } {
        lengths.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    lengths.extend([1000, 10_000, 70_000, 100_000]);
    lengths.sort();
    lengths.dedup();
    vec![
        Scenario::new(
            "long causes",
            format!(
                "causes of {} lengths up to {} times 8 units of text (1- to 4-byte characters, combining, control) x 6 \
                 places: protocol errors, I/O errors (plain and wrapping), decode errors (plain and converted)",
                lengths.len(),
                lengths.last().unwrap()
            ),
            move |ctx| long_cause(ctx, &lengths),
        ),
        Scenario::new("codes", "all pairs of the 10 codes: number, equality", codes),
        Scenario::new(
            "protocol errors",
            format!("all pairs of errors made of the 10 codes x {} causes (absent, empty, misleading, long, ...): predicates, \
                     text, source", CAUSES.len()),
            protocol,
        ),
        Scenario::new("incomplete", "the error for incomplete frames", |ctx| {
            decode_error(ctx, DecodeError::InComplete, None)
        }),
        Scenario::new("unrecognized types", "the error for every one of 65536 frame type numbers", |ctx| {
            let n = ctx.choose(256) * 256 + ctx.choose(256);
            ctx.state(&("type", n));
            ctx.note(|| format!("type {:#x}", n));
            decode_error(ctx, DecodeError::UnrecognizedFrameType(n as u16), Some(n as u64))
        }),
        Scenario::new("stream ids", "the error for wrong stream ids: boundary ids x expectations", |ctx| {
            let ids = codec::gen::ints(31, 1, 0);
            let id = *ctx.pick(&ids) as u32;
            let expected = *ctx.pick(&["0", "!0", "non-zero", "", "{}"]);
            ctx.state(&("stream", id, expected));
            ctx.note(|| format!("stream {} instead of {}", id, expected));
            let d = DecodeError::InvalidStreamId { expected, found: id };
            if !d.to_string().contains(expected) {
                return Err(format!("{:?} does not tell {:?}", d.to_string(), expected));
            }
            decode_error(ctx, d, Some(id as u64))
        }),
        Scenario::new("I/O errors", "kinds x messages, kinds x other errors wrapped, plain kinds, all OS errors up to 133", io_error),
    ]
}
