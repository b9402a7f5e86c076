//! What the frames of a fire-and-forget request must be.
use binate::frame::{Encode, Frame};
use bytes::Bytes;
use codec::gen::{self, Role};
use codec::spec::{self, K, M};
use codec::subject;

/// Metadata and data.
pub type Parts = (Option<Bytes>, Option<Bytes>);

/// What a frame is on the wire; frames handed over must be encodable.
pub fn on_wire(f: &Frame) -> std::result::Result<M, String> {
    let b = f.to_bytes();
    spec::parse(&b).map_err(|_| format!("{} is malformed on the wire", subject::clip(f)))
}

pub fn show(p: &Parts) -> String {
    let s = |b: &Option<Bytes>| match b {
        None => "absent".to_string(),
        Some(b) => format!("{} bytes", b.len()),
    };
    format!("metadata {}, data {}", s(&p.0), s(&p.1))
}

fn full(p: Option<Bytes>) -> Option<Bytes> {
    p.filter(|b| !b.is_empty())
}

/// Judges the frames of one request; gives its stream id.
pub fn request_frames(
    frames: &[M],
    server: bool,
    payload: &Parts,
    size: Option<usize>,
    refused: bool,
) -> std::result::Result<u32, String> {
    let first = frames.first().ok_or("no frame is sent")?;
    let sid = first.sid;
    if sid == 0 || (sid % 2 == 0) != server {
        return Err(format!("stream id {:#x} is not valid for a {}", sid, if server { "server" } else { "client" }));
    }
    let (mut md, mut data) = (vec![], vec![]);
    for (i, f) in frames.iter().enumerate() {
        if f.k != K::RequestFnf || f.sid != sid {
            return Err(format!("frame {} is {} instead of a fire-and-forget request on stream {:#x}", i, f.short(), sid));
        }
        let follows = f.flags & spec::F_80 != 0;
        let last = i + 1 == frames.len();
        if !refused && follows == last {
            return Err(format!("frame {} of {} has follows={}", i, frames.len(), follows));
        }
        if refused && !last && !follows {
            return Err(format!("frame {} has no follows flag but frames follow", i));
        }
        let (a, b) = (f.md.clone().unwrap_or_default(), f.data.clone().unwrap_or_default());
        if let Some(n) = size {
            if a.len() > n || b.len() > n {
                return Err(format!("frame {} carries {} and {} bytes, more than {}", i, a.len(), b.len(), n));
            }
        }
        md.extend_from_slice(&a);
        data.extend_from_slice(&b);
    }
    let want = (payload.0.clone().unwrap_or_default(), payload.1.clone().unwrap_or_default());
    if refused {
        // A beginning of it.
        if !want.0.starts_with(&md) || !want.1.starts_with(&data) {
            return Err("the frames sent are no beginning of the payload".into());
        }
        let all = want.0.len() == md.len() && want.1.len() == data.len();
        if !all && frames.last().unwrap().flags & spec::F_80 == 0 {
            return Err("the last frame sent claims to be the last of the request".into());
        }
        return Ok(sid);
    }
    if want.0[..] != md[..] {
        return Err(format!("metadata arrives as {} bytes {}", md.len(), subject::clip(&&md[..md.len().min(40)])));
    }
    if want.1[..] != data[..] {
        return Err(format!("data arrives as {} bytes {}", data.len(), subject::clip(&&data[..data.len().min(40)])));
    }
    if size.is_none() {
        if frames.len() != 1 {
            return Err(format!("{} frames without fragmentation", frames.len()));
        }
        if first.md != payload.0 || full(first.data.clone()) != full(payload.1.clone()) {
            return Err(format!("the frame carries {}", show(&(first.md.clone(), first.data.clone()))));
        }
    }
    Ok(sid)
}

pub fn part(r: Role, n: Option<usize>) -> Option<Bytes> {
    n.map(|n| gen::pat(r, n))
}


pub const FILLERS: usize = 6;

/// Bytes of one kind.
pub fn filler(which: usize, r: Role, n: usize) -> Bytes {
    match which {
        0 => gen::pat(r, n),
        1 => Bytes::from(vec![0; n]),
        2 => Bytes::from(vec![0xFF; n]),
        3 => Bytes::from("a".repeat(n)),
        4 => (0..n).map(|i| b"hello, world\r\n"[i % 14]).collect(),
        _ => (0..n).map(|i| (i % 2) as u8).collect(),
    }
}
