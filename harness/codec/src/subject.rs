//! Between the model and the code under test.
use crate::spec::{self, E, K, M};
use binate::frame::codec::*;
use binate::frame::{Decode, DecodeError, Encode, Flags, Frame, FrameType, Version};
use binate::{Payload, PayloadBuilder};
use bytes::{Buf, Bytes, BytesMut};
use std::time::Duration;

pub fn payload(md: &Option<Bytes>, data: &Option<Bytes>) -> Payload {
    let mut b = PayloadBuilder::new();
    if let Some(d) = data {
        b = b.set_data(d.clone());
    }
    if let Some(m) = md {
        b = b.set_metadata(m.clone());
    }
    b.build()
}

/// Builds the frame with the library's constructors.
pub fn build(m: &M) -> Frame {
    let f80 = m.flags & spec::F_80 != 0;
    let f40 = m.flags & spec::F_40 != 0;
    let f20 = m.flags & spec::F_20 != 0;
    match m.k {
        K::Setup => {
            let mut b = SetupFrame::builder()
                .set_version(m.ver.0, m.ver.1)
                .set_keepalive_interval(m.a as u32)
                .set_keepalive_timeout(m.b as u32)
                .set_metadata_mimetype(text(&m.mm))
                .set_data_mimetype(text(&m.dm));
            if f80 {
                b = b.set_resume_token(m.token.clone().unwrap());
            }
            if f40 {
                b = b.set_lease_flag();
            }
            if let Some(md) = &m.md {
                b = b.set_metadata(md.clone());
            }
            if let Some(d) = &m.data {
                b = b.set_data(d.clone());
            }
            Frame::Setup(b.build())
        }
        K::Lease => Frame::Lease(LeaseFrame::new(m.a as u32, m.b as u32, m.md.clone())),
        K::Keepalive => Frame::Keepalive(KeepaliveFrame::new(m.a, m.data.clone(), f80)),
        K::RequestResponse => Frame::RequestResponse(RequestResponseFrame::new(
            m.sid,
            f80,
            payload(&m.md, &m.data),
        )),
        K::RequestFnf => {
            Frame::RequestFnf(RequestFnfFrame::new(m.sid, f80, payload(&m.md, &m.data)))
        }
        K::RequestStream => Frame::RequestStream(RequestStreamFrame::new(
            m.sid,
            f80,
            m.a as u32,
            payload(&m.md, &m.data),
        )),
        K::RequestChannel => Frame::RequestChannel(RequestChannelFrame::new(
            m.sid,
            f80,
            f40,
            m.a as u32,
            payload(&m.md, &m.data),
        )),
        K::RequestN => Frame::RequestN(RequestNFrame::new(m.sid, m.a as u32)),
        K::Cancel => Frame::Cancel(CancelFrame::new(m.sid)),
        K::Payload => {
            let mut f = Flags::empty();
            if f80 {
                f |= Flags::FOLLOWS;
            }
            if f40 {
                f |= Flags::COMPLETE;
            }
            if f20 {
                f |= Flags::NEXT;
            }
            Frame::Payload(PayloadFrame::new(m.sid, f, payload(&m.md, &m.data)))
        }
        K::Error => Frame::Error(ErrorFrame::new(m.sid, m.a as u32, m.data.clone())),
        K::MetadataPush => Frame::MetadataPush(MetadataPushFrame::new(m.md.clone().unwrap())),
        K::Resume => Frame::Resume(ResumeFrame::new(
            Version::new(m.ver.0, m.ver.1),
            m.token.clone().unwrap(),
            m.a,
            m.b,
        )),
        K::ResumeOk => Frame::ResumeOk(ResumeOkFrame::new(m.a)),
    }
}

pub fn text(b: &Bytes) -> &str {
    std::str::from_utf8(b).expect("text")
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {}, expected {}", what, clip(&got), clip(&want)))
    }
}

pub fn clip<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{:?}", v);
    if s.len() > 200 {
        format!("{}... ({} characters)", s.chars().take(200).collect::<String>(), s.len())
    } else {
        s
    }
}

fn data(got: Option<&Bytes>, want: &Option<Bytes>) -> Result<(), String> {
    // Empty data is the same as no data.
    let g = got.filter(|b| !b.is_empty());
    let w = want.as_ref().filter(|b| !b.is_empty());
    eq("data", g, w)
}

fn md(got: Option<&Bytes>, want: &Option<Bytes>) -> Result<(), String> {
    eq("metadata", got, want.as_ref())
}

fn parts(p: Payload, m: &M) -> Result<(), String> {
    md(p.metadata(), &m.md)?;
    data(p.data(), &m.data)
}

fn ascii(b: &Bytes) -> Option<&str> {
    if b.is_ascii() {
        std::str::from_utf8(b).ok()
    } else {
        None
    }
}

/// Compares a frame with what it should be, through its accessors.
pub fn check(f: &Frame, m: &M) -> Result<(), String> {
    let f80 = m.flags & spec::F_80 != 0;
    let f40 = m.flags & spec::F_40 != 0;
    let f20 = m.flags & spec::F_20 != 0;
    match (m.k, f) {
        (K::Setup, Frame::Setup(f)) => {
            eq("major version", f.version().major(), m.ver.0)?;
            eq("minor version", f.version().minor(), m.ver.1)?;
            eq("keepalive interval", f.keepalive_interval(), Duration::from_millis(m.a))?;
            eq("keepalive timeout", f.keepalive_timeout(), Duration::from_millis(m.b))?;
            eq("resume flag", f.is_resume(), f80)?;
            eq("lease flag", f.is_lease(), f40)?;
            eq("token", f.resume_token(), m.token.as_ref())?;
            eq("metadata MIME type", f.metadata_mimetype(), ascii(&m.mm))?;
            eq("data MIME type", f.data_mimetype(), ascii(&m.dm))?;
            md(f.metadata(), &m.md)?;
            data(f.data(), &m.data)?;
            parts(f.clone().payload(), m)
        }
        (K::Lease, Frame::Lease(f)) => {
            eq("time to live", f.ttl(), Duration::from_millis(m.a))?;
            eq("number of requests", f.number_of_requests() as u64, m.b)?;
            md(f.metadata(), &m.md)
        }
        (K::Keepalive, Frame::Keepalive(f)) => {
            eq("position", f.last_received_position(), m.a)?;
            eq("respond flag", f.is_respond(), f80)?;
            data(f.data(), &m.data)
        }
        (K::RequestResponse, Frame::RequestResponse(f)) => {
            eq("stream id", f.stream_id(), m.sid)?;
            eq("follows flag", f.is_follows(), f80)?;
            md(f.metadata(), &m.md)?;
            data(f.data(), &m.data)?;
            parts(f.clone().payload(), m)
        }
        (K::RequestFnf, Frame::RequestFnf(f)) => {
            eq("stream id", f.stream_id(), m.sid)?;
            eq("follows flag", f.is_follows(), f80)?;
            md(f.metadata(), &m.md)?;
            data(f.request_data(), &m.data)?;
            parts(f.clone().payload(), m)
        }
        (K::RequestStream, Frame::RequestStream(f)) => {
            eq("stream id", f.stream_id(), m.sid)?;
            eq("follows flag", f.is_follows(), f80)?;
            eq("initial request n", f.initial_request_n() as u64, m.a)?;
            md(f.metadata(), &m.md)?;
            data(f.data(), &m.data)?;
            parts(f.clone().payload(), m)
        }
        (K::RequestChannel, Frame::RequestChannel(f)) => {
            eq("stream id", f.stream_id(), m.sid)?;
            eq("follows flag", f.is_follows(), f80)?;
            eq("complete flag", f.is_complete(), f40)?;
            eq("initial request n", f.initial_request_n() as u64, m.a)?;
            md(f.metadata(), &m.md)?;
            data(f.data(), &m.data)?;
            parts(f.clone().payload(), m)
        }
        (K::RequestN, Frame::RequestN(f)) => {
            eq("stream id", f.stream_id(), m.sid)?;
            eq("request n", f.request_n() as u64, m.a)
        }
        (K::Cancel, Frame::Cancel(f)) => eq("stream id", f.stream_id(), m.sid),
        (K::Payload, Frame::Payload(f)) => {
            eq("stream id", f.stream_id(), m.sid)?;
            eq("follows flag", f.is_follows(), f80)?;
            eq("complete flag", f.is_complete(), f40)?;
            eq("next flag", f.is_next(), f20)?;
            md(f.metadata(), &m.md)?;
            data(f.data(), &m.data)?;
            parts(f.clone().payload(), m)
        }
        (K::Error, Frame::Error(f)) => {
            eq("stream id", f.stream_id(), m.sid)?;
            eq("error code", f.error_code() as u64, m.a)?;
            data(f.data(), &m.data)?;
            let want = m.data.as_ref().and_then(|d| std::str::from_utf8(d).ok());
            eq(
                "error text",
                f.data_utf8().filter(|s| !s.is_empty()),
                want.filter(|s| !s.is_empty()),
            )
        }
        (K::MetadataPush, Frame::MetadataPush(f)) => md(Some(f.metadata()), &m.md),
        (K::Resume, Frame::Resume(f)) => {
            eq("major version", f.version().major(), m.ver.0)?;
            eq("minor version", f.version().minor(), m.ver.1)?;
            eq("token", Some(f.resume_token()), m.token.as_ref())?;
            eq("server position", f.last_received_server_position(), m.a)?;
            eq("client position", f.first_available_client_position(), m.b)
        }
        (K::ResumeOk, Frame::ResumeOk(f)) => eq("position", f.last_received_server_position(), m.a),
        _ => Err(format!("is another frame: {}", clip(f))),
    }
}

pub fn error(e: &DecodeError) -> Option<E> {
    Some(match e {
        DecodeError::InComplete => E::Incomplete,
        DecodeError::UnrecognizedFrameType(t) => E::BadType(*t),
        DecodeError::InvalidStreamId { expected, found } => {
            E::BadStream(expected.trim() == "0", *found)
        }
        _ => return None,
    })
}

/// Encodes through the frame's own type instead of the `Frame` enum.
pub fn inner_encode(f: &Frame, buf: &mut BytesMut) -> usize {
    macro_rules! each {
        ($($v:ident)*) => {
            match f { $(Frame::$v(x) => { x.encode(buf); x.len() })* }
        };
    }
    each!(Setup Error Lease Keepalive RequestResponse RequestFnf RequestStream RequestChannel
          RequestN Cancel Payload MetadataPush Resume ResumeOk)
}

pub fn inner_to_bytes(f: &Frame) -> (Bytes, usize, bool) {
    macro_rules! each {
        ($($v:ident)*) => {
            match f { $(Frame::$v(x) => (x.to_bytes(), x.len(), x.is_empty()),)* }
        };
    }
    each!(Setup Error Lease Keepalive RequestResponse RequestFnf RequestStream RequestChannel
          RequestN Cancel Payload MetadataPush Resume ResumeOk)
}

/// Decodes a body with the decoder of its type.
pub fn inner_decode<B: Buf>(
    k: K,
    b: &mut B,
    sid: u32,
    flags: Flags,
) -> Result<Frame, DecodeError> {
    Ok(match k {
        K::Setup => Frame::Setup(SetupFrame::decode(b, sid, flags)?),
        K::Lease => Frame::Lease(LeaseFrame::decode(b, sid, flags)?),
        K::Keepalive => Frame::Keepalive(KeepaliveFrame::decode(b, sid, flags)?),
        K::RequestResponse => {
            Frame::RequestResponse(RequestResponseFrame::decode(b, sid, flags)?)
        }
        K::RequestFnf => Frame::RequestFnf(RequestFnfFrame::decode(b, sid, flags)?),
        K::RequestStream => Frame::RequestStream(RequestStreamFrame::decode(b, sid, flags)?),
        K::RequestChannel => Frame::RequestChannel(RequestChannelFrame::decode(b, sid, flags)?),
        K::RequestN => Frame::RequestN(RequestNFrame::decode(b, sid, flags)?),
        K::Cancel => Frame::Cancel(CancelFrame::decode(b, sid, flags)?),
        K::Payload => Frame::Payload(PayloadFrame::decode(b, sid, flags)?),
        K::Error => Frame::Error(ErrorFrame::decode(b, sid, flags)?),
        K::MetadataPush => Frame::MetadataPush(MetadataPushFrame::decode(b, sid, flags)?),
        K::Resume => Frame::Resume(ResumeFrame::decode(b, sid, flags)?),
        K::ResumeOk => Frame::ResumeOk(ResumeOkFrame::decode(b, sid, flags)?),
    })
}

pub fn frame_type(k: K) -> FrameType {
    match k {
        K::Setup => FrameType::SETUP,
        K::Lease => FrameType::LEASE,
        K::Keepalive => FrameType::KEEPALIVE,
        K::RequestResponse => FrameType::REQUEST_RESPONSE,
        K::RequestFnf => FrameType::REQUEST_FNF,
        K::RequestStream => FrameType::REQUEST_STREAM,
        K::RequestChannel => FrameType::REQUEST_CHANNEL,
        K::RequestN => FrameType::REQUEST_N,
        K::Cancel => FrameType::CANCEL,
        K::Payload => FrameType::PAYLOAD,
        K::Error => FrameType::ERROR,
        K::MetadataPush => FrameType::METADATA_PUSH,
        K::Resume => FrameType::RESUME,
        K::ResumeOk => FrameType::RESUME_OK,
    }
}
