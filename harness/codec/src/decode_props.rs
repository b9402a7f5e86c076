//! C04 - C08: from bytes to frames.
use crate::gen::{self, Role};
use crate::spec::{self, E, K, M};
use crate::subject::{self, check, clip};
use binate::frame::{DecodeError, Encode, Flags, Frame};
use bytes::{Buf, Bytes, BytesMut};
use explore::{Ctx, Outcome, Scenario};
use std::collections::VecDeque;
use std::sync::Arc;

pub fn hex(b: &[u8]) -> String {
    if b.len() > 64 {
        format!("{:02x?}.. ({} bytes)", &b[..64], b.len())
    } else {
        format!("{:02x?}", b)
    }
}

type F = Arc<dyn Fn(&mut Ctx, Vec<u8>) -> Outcome + Send + Sync>;

/// The trees of byte strings.
fn strings(thorough: bool, f: impl Fn(&mut Ctx, &Bytes) -> Outcome + Send + Sync + 'static) -> Vec<Scenario> {
    let f: F = Arc::new(move |ctx: &mut Ctx, v: Vec<u8>| {
        ctx.state(&v[..]);
        let b = Bytes::from(v);
        ctx.note(|| hex(&b));
        ctx.step();
        f(ctx, &b).map_err(|e| format!("{}: {}", hex(&b), e))
    });
    let mut v = vec![];
    let g = f.clone();
    v.push(Scenario::new(
        "headers",
        "all 65536 type/flag words x 7 stream ids x bodies: empty, well-formed for the type, 13 \
         shapes of other bodies",
        move |ctx| {
            let ty = ctx.choose(64) as u16;
            let low = ctx.choose(1024) as u16;
            let word = ty << 10 | low;
            let sid = *ctx.pick(&[0u32, 1, 0x80000000, 0x80000001, 0x7FFFFFFF, 0xFFFFFFFF, 0x00010000]);
            let mut o = vec![];
            spec::be32(&mut o, sid);
            spec::be16(&mut o, word);
            match ctx.choose(15) {
                0 => (),
                1 => o.extend_from_slice(&gen::body_for(ty, word)),
                n @ 2..=6 => o.extend(std::iter::repeat(0).take([1, 3, 4, 8, 30][n - 2])),
                n @ 7..=10 => o.extend(std::iter::repeat(0xFF).take([1, 3, 8, 40][n - 7])),
                n @ 11..=14 => o.extend((1..=[2u8, 4, 9, 33][n - 11]).map(|i| i)),
                _ => unreachable!(),
            }
            g(ctx, o)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "shapes",
        "every type (and 4 others) x the five flags, up to 2 departures from a well-formed frame \
         (field values, reserved bits, declared lengths), cut at every byte",
        move |ctx| {
            let mut o = Vec::with_capacity(64);
            gen::shaped(ctx, &mut o, 2, true);
            g(ctx, o)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "shapes3",
        "up to 3 departures from a well-formed frame, not cut",
        move |ctx| {
            let mut o = Vec::with_capacity(64);
            gen::shaped(ctx, &mut o, 3, false);
            g(ctx, o)
        },
    ));
    let g = f.clone();
    let top = if thorough { 520 } else { 260 };
    v.push(Scenario::new(
        "two sizes",
        format!(
            "well-formed frames with any two parts of a type each of every size from 0 to {}, or of sizes that add up to one \
             near a power of two",
            top
        ),
        move |ctx| {
            let mut o = vec![];
            spec::encode(&gen::two_sizes(ctx, top), &mut o);
            g(ctx, o)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "together",
        "well-formed frames with any two integer fields of a type, or one and a part, with all flags or none: pairs of 12 to 29 \
         values around 0 and powers of 2; equal, off by one, double, complementary and so on; the same as, or near, the part's \
         size (to 300)",
        move |ctx| {
            let mut o = vec![];
            spec::encode(&gen::together(ctx, thorough), &mut o);
            g(ctx, o)
        },
    ));
    let dense = if thorough { 7 } else { 5 };
    let g = f.clone();
    v.push(Scenario::new(
        "dense",
        format!(
            "every type x the Metadata and 0x80 flags x stream 0/1, all bodies of up to {} bytes \
             over {{0,1,2,3,7f,80,ff}}",
            dense
        ),
        move |ctx| {
            let ty = 1 + ctx.choose(14) as u16;
            let flags = *ctx.pick(&[0u16, 0x100, 0x80, 0x180]);
            let mut o = Vec::with_capacity(16);
            spec::be32(&mut o, ctx.choose(2) as u32);
            spec::be16(&mut o, ty << 10 | flags);
            let n = ctx.choose(dense + 1);
            for _ in 0..n {
                o.push(*ctx.pick(&[0u8, 1, 2, 3, 0x7F, 0x80, 0xFF]));
            }
            g(ctx, o)
        },
    ));
    let g = f.clone();
    let full = if thorough { 3 } else { 2 };
    v.push(Scenario::new(
        "short-bodies",
        format!("every type x the Metadata and 0x80 flags, all bodies of up to {} bytes", full),
        move |ctx| {
            let ty = 1 + ctx.choose(14) as u16;
            let flags = *ctx.pick(&[0u16, 0x100, 0x180]);
            let mut o = Vec::with_capacity(16);
            let conn = K::from_number(ty).unwrap().on_connection();
            spec::be32(&mut o, if conn { 0 } else { 1 });
            spec::be16(&mut o, ty << 10 | flags);
            let n = ctx.choose(full + 1);
            for _ in 0..n {
                o.push(ctx.choose(256) as u8);
            }
            g(ctx, o)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "short-strings",
        "all strings shorter than a header over {0,1,4,7f,80,fc,ff}, and all headers over them",
        move |ctx| {
            let n = ctx.choose(7);
            let mut o = Vec::with_capacity(6);
            for _ in 0..n {
                o.push(*ctx.pick(&[0u8, 1, 4, 0x7F, 0x80, 0xFC, 0xFF]));
            }
            g(ctx, o)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "tails",
        "well-formed SETUP, RESUME and LEASE headers followed by all tails of up to 5 bytes over \
         {0,1,2,3,80,ff}, where the length-prefixed fields start",
        move |ctx| {
            let mut o = Vec::with_capacity(40);
            let (ty, flags) = *ctx.pick(&[(1u16, 0x180u16), (1, 0x100), (1, 0x80), (1, 0), (13, 0), (2, 0x100), (2, 0)]);
            spec::be32(&mut o, 0);
            spec::be16(&mut o, ty << 10 | flags);
            let fixed = match ty {
                1 => 12,
                13 => 4,
                _ => 8,
            };
            o.extend((0..fixed).map(|i| i as u8 + 1));
            if ty == 1 && ctx.flip() {
                if flags & 0x80 != 0 {
                    o.extend_from_slice(&[0, 1, 0x74]);
                }
                o.extend_from_slice(&[1, b'm', 1, b'd']);
            }
            let n = ctx.choose(6);
            for _ in 0..n {
                o.push(*ctx.pick(&[0u8, 1, 2, 3, 0x80, 0xFF]));
            }
            g(ctx, o)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "contents",
        "well-formed frames of every type with every part running through all strings of up to 2 \
         bytes, every byte at every position of longer ones, texts, runs and wide characters, whole \
         and one byte short",
        move |ctx| {
            let m = gen::contents(ctx, 2, true);
            let mut o = Vec::new();
            spec::encode(&m, &mut o);
            if ctx.flip() {
                o.pop();
            }
            g(ctx, o)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "integers",
        "well-formed frames of every type with every integer field running through each of its \
         16-bit windows, with and without reserved bits",
        move |ctx| {
            let m = gen::dense_int(ctx);
            let mut o = Vec::new();
            spec::encode(&m, &mut o);
            if ctx.flip() {
                o[0] |= 0x80;
                o[5] |= 0x15;
            }
            g(ctx, o)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "sizes",
        "well-formed frames with one part of every size from 0 to 1100, of text of one to four-byte \
         characters or not text, whole, one byte short and one byte longer",
        move |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let ps = gen::parts(k);
            let mut m = gen::default(k);
            if !ps.is_empty() {
                let p = *ctx.pick(&ps);
                let n = ctx.choose(if p.is_mime() { 256 } else { 1101 });
                p.set(&mut m, gen::filler(ctx.choose(5), Role::Data, n));
            }
            let mut o = Vec::new();
            spec::encode(&m, &mut o);
            match ctx.choose(3) {
                0 => (),
                1 => {
                    o.pop();
                }
                _ => o.push(0x2A),
            }
            g(ctx, o)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "large",
        "well-formed frames with parts at the limits of their length fields: 65535-65537, 2^24-2, \
         2^24-1 bytes (and beyond, for parts without a length field)",
        move |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let m = gen::large(ctx, k);
            let mut o = Vec::new();
            spec::encode(&m, &mut o);
            g(ctx, o)
        },
    ));
    let g = f;
    v.push(Scenario::new(
        "long",
        "length fields around 255, 256, 65535, 65536, 2^24-1 with one byte less, exactly as many \
         and one byte more behind them",
        move |ctx| {
            let mut o = vec![];
            // (type, width of the length field)
            let (k, width) = *ctx.pick(&[
                (K::RequestFnf, 3),
                (K::RequestResponse, 3),
                (K::RequestStream, 3),
                (K::RequestChannel, 3),
                (K::Payload, 3),
                (K::Setup, 3),
                (K::Setup, 2),
                (K::Setup, 1),
                (K::Resume, 2),
            ]);
            let lens: &[usize] = match width {
                1 => &[127, 128, 129, 254, 255],
                2 => &[255, 256, 257, 32767, 32768, 65534, 65535],
                _ => &[255, 256, 257, 65535, 65536, 65537, 0x010203, 0x800000, 0xFFFFFF],
            };
            let n = *ctx.pick(lens);
            let flags = if width == 3 {
                0x100
            } else if k == K::Setup && width == 2 {
                0x80
            } else {
                0
            };
            spec::be32(&mut o, if k.on_connection() { 0 } else { 5 });
            spec::be16(&mut o, k.number() << 10 | flags);
            match k {
                K::Setup => {
                    o.extend_from_slice(&[0, 1, 0, 0, 0, 0, 0, 9, 0, 0, 0, 8]);
                    if width == 3 {
                        o.extend_from_slice(&[1, b'm', 1, b'd']);
                    }
                }
                K::Resume => o.extend_from_slice(&[0, 1, 0, 0]),
                K::RequestStream | K::RequestChannel => o.extend_from_slice(&[0, 0, 0, 7]),
                _ => (),
            }
            match width {
                1 => o.push(n as u8),
                2 => spec::be16(&mut o, n as u16),
                _ => spec::be24(&mut o, n as u32),
            }
            let body = match ctx.choose(4) {
                0 => n,
                1 => n - 1,
                2 => n + 1,
                _ => n + 40,
            };
            if width == 1 {
                o.extend_from_slice(&gen::mime(0, body.min(400)));
            } else {
                o.extend_from_slice(&gen::pat(Role::Md, body));
            }
            g(ctx, o)
        },
    ));
    v
}

// ---- C04 ----

fn inspect(f: &Frame) -> usize {
    let s = format!("{:?}{:#?}", f, f);
    let c = f.clone();
    assert!(c == *f);
    let mut n = s.len() + f.len();
    macro_rules! payload {
        ($x:expr) => {{
            let p = $x.clone().payload();
            n += p.len() + p.is_empty() as usize + p.has_data() as usize + p.has_metadata() as usize;
            n += p.data_utf8().map_or(0, |s| s.len()) + p.metadata_utf8().map_or(0, |s| s.len());
            n += $x.metadata().map_or(0, |b| b.len());
        }};
    }
    match f {
        Frame::Setup(x) => {
            payload!(x);
            n += x.keepalive_interval().as_millis() as usize + x.keepalive_timeout().as_millis() as usize;
            n += x.metadata_mimetype().map_or(0, |s| s.len());
            n += x.data_mimetype().map_or(0, |s| s.len());
            n += x.resume_token().map_or(0, |s| s.len());
            n += x.version().to_string().len() + x.is_lease() as usize + x.is_resume() as usize;
        }
        Frame::Lease(x) => n += x.ttl().as_millis() as usize + x.number_of_requests() as usize,
        Frame::Keepalive(x) => n += x.data().map_or(0, |b| b.len()),
        Frame::RequestResponse(x) => payload!(x),
        Frame::RequestFnf(x) => payload!(x),
        Frame::RequestStream(x) => payload!(x),
        Frame::RequestChannel(x) => payload!(x),
        Frame::RequestN(x) => n += x.request_n() as usize,
        Frame::Cancel(x) => n += x.stream_id() as usize,
        Frame::Payload(x) => payload!(x),
        Frame::Error(x) => n += x.data_utf8().map_or(0, |s| s.len()) + x.error_code() as usize,
        Frame::MetadataPush(x) => n += x.metadata().len(),
        Frame::Resume(x) => n += x.resume_token().len(),
        Frame::ResumeOk(x) => n += x.last_received_server_position() as usize & 1,
    }
    n
}

fn inspect_error(e: &DecodeError) -> usize {
    let c = e.clone();
    assert!(c == *e);
    let d: &dyn std::error::Error = e;
    format!("{:?}{}", e, d).len()
}

pub fn c04(thorough: bool) -> Vec<Scenario> {
    let mut v = strings(thorough, |ctx, b| {
        let mut whole = b.clone();
        match Frame::decode(&mut whole) {
            Ok(f) => {
                ctx.outcome("frames");
                if b.len() < 1 << 12 {
                    inspect(&f);
                }
            }
            Err(e) => {
                ctx.outcome("errors");
                inspect_error(&e);
            }
        }
        // From a plain slice as well.
        let _ = Frame::decode(&mut &b[..]);
        // The decoder of the type, given the header separately.
        if b.len() >= 6 {
            let word = u16::from_be_bytes([b[4], b[5]]);
            if let Some(k) = K::from_number(word >> 10) {
                let sid = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) & 0x7FFFFFFF;
                let flags = Flags::from_bits_truncate(word);
                match subject::inner_decode(k, &mut b.slice(6..), sid, flags) {
                    Ok(f) => {
                        if b.len() < 1 << 12 {
                            inspect(&f);
                        }
                    }
                    Err(e) => {
                        inspect_error(&e);
                    }
                }
            }
        }
        Ok(())
    });
    v.push(Scenario::new(
        "many",
        "decoding on from what a decoded frame left over, until the end or an error: at most one \
         frame per header-sized piece",
        |ctx| {
            let mut o = Vec::new();
            gen::shaped(ctx, &mut o, 1, false);
            let first = o.len();
            let mut second = Vec::new();
            gen::shaped(ctx, &mut second, 0, false);
            o.extend_from_slice(&second);
            ctx.note(|| hex(&o));
            let mut b = Bytes::from(o);
            let mut n = 0;
            let total = b.len();
            while b.has_remaining() {
                let before = b.remaining();
                ctx.step();
                match Frame::decode(&mut b) {
                    Ok(_) if b.remaining() + 6 <= before => n += 1,
                    Ok(_) => return Err(format!("a frame was read from {} bytes", before - b.remaining())),
                    Err(_) => break,
                }
                if n > total / 6 {
                    return Err("more frames than headers".into());
                }
            }
            let _ = first;
            Ok(())
        },
    ));
    v
}

// ---- C05 ----

fn judge(b: &Bytes, got: &Result<Frame, DecodeError>) -> Result<&'static str, String> {
    match (spec::parse(b), got) {
        (Ok(m), Ok(f)) => {
            let m = lenient_push(b, m, f);
            check(f, &m)?;
            Ok("well-formed")
        }
        (Ok(m), Err(e)) => Err(format!("a well-formed frame ({}) is rejected: {:?}", m.short(), e)),
        (Err(r), Ok(f)) => Err(format!("accepted as {}, expected {:?}", clip(f), r.0)),
        (Err(r), Err(e)) => match subject::error(e) {
            Some(x) if r.allows(&x) => Ok(match x {
                E::Incomplete => "incomplete",
                E::BadType(_) => "unrecognized",
                E::BadStream(..) => "invalid stream",
            }),
            _ => Err(format!("rejected with {:?}, expected {:?}", e, r.0)),
        },
    }
}

/// A METADATA_PUSH without the Metadata flag is not covered by the protocol: what follows the
/// header may be taken as metadata or dropped.
fn lenient_push(b: &Bytes, mut m: M, f: &Frame) -> M {
    if let (K::MetadataPush, Frame::MetadataPush(f)) = (m.k, f) {
        if b[4] & 1 == 0 && f.metadata().is_empty() {
            m.md = Some(Bytes::new());
        }
    }
    m
}

pub fn c05(thorough: bool) -> Vec<Scenario> {
    let mut v = strings(thorough, |ctx, b| {
        let mut whole = b.clone();
        let got = Frame::decode(&mut whole);
        let label = judge(b, &got)?;
        ctx.outcome(label);
        // All bytes after the last fixed field belong to the frame.
        if let Ok(f) = &got {
            let open = !matches!(
                f,
                Frame::RequestN(_) | Frame::Cancel(_) | Frame::Resume(_) | Frame::ResumeOk(_) | Frame::Lease(_)
            );
            if open && whole.has_remaining() && !matches!(f, Frame::MetadataPush(_)) {
                return Err(format!("{} bytes were left unread", whole.remaining()));
            }
        }
        Ok(())
    });
    v.push(Scenario::new(
        "twins",
        "pairs of well-formed frames that differ in one byte of one part or one bit of one field, \
         read as A B A, and B after a cut A",
        |ctx| {
            let (a, b) = gen::twins(ctx);
            let (mut x, mut y) = (vec![], vec![]);
            spec::encode(&a, &mut x);
            spec::encode(&b, &mut y);
            let n = x.len();
            let (x, y) = (Bytes::from(x), Bytes::from(y));
            ctx.note(|| format!("{} and {}", hex(&x), hex(&y)));
            for z in [&x, &y, &x, &x.slice(..n - 1), &y, &x.slice(..n / 2), &x] {
                let f = Frame::decode(&mut z.clone());
                ctx.step();
                judge(z, &f)?;
            }
            ctx.outcome("pairs");
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "histories",
        "pairs of byte strings (0 and 1 departures, cut) decoded one after the other: the second is \
         read as if it were alone",
        |ctx| {
            let (mut x, mut y) = (vec![], vec![]);
            gen::shaped(ctx, &mut x, 0, false);
            gen::shaped(ctx, &mut y, 0, true);
            let (x, y) = (Bytes::from(x), Bytes::from(y));
            ctx.note(|| format!("{} then {}", hex(&x), hex(&y)));
            let fx = Frame::decode(&mut x.clone());
            let fy = Frame::decode(&mut y.clone());
            ctx.steps(2);
            judge(&x, &fx)?;
            judge(&y, &fy)?;
            ctx.outcome("pairs");
            Ok(())
        },
    ));
    if thorough {
        v.push(Scenario::new(
            "all-31-bit-values",
            "every value of the 32 bits of a stream id, a request n and an error code, as received",
            |ctx| {
                let which = ctx.choose(3);
                let block = ctx.choose(1 << 12) as u32;
                let mut o = Vec::with_capacity(16);
                for low in 0..1u32 << 20 {
                    let v = block << 20 | low;
                    o.clear();
                    match which {
                        0 => {
                            spec::be32(&mut o, v);
                            spec::be16(&mut o, 9 << 10);
                        }
                        1 => {
                            spec::be32(&mut o, 1);
                            spec::be16(&mut o, 8 << 10);
                            spec::be32(&mut o, v);
                        }
                        _ => {
                            spec::be32(&mut o, 1);
                            spec::be16(&mut o, 11 << 10);
                            spec::be32(&mut o, v);
                        }
                    }
                    let ok = match (which, Frame::decode(&mut &o[..])) {
                        (0, Ok(Frame::Cancel(f))) => f.stream_id() == v & 0x7FFFFFFF,
                        (1, Ok(Frame::RequestN(f))) => f.request_n() == v & 0x7FFFFFFF,
                        (2, Ok(Frame::Error(f))) => f.error_code() == v,
                        (2, Err(DecodeError::InvalidStreamId { .. })) => {
                            spec::CONNECTION_CODES.contains(&v)
                        }
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("{} is misread", hex(&o)));
                    }
                    if low & 0xFFFFF == 0 {
                        ctx.heartbeat();
                    }
                }
                ctx.steps(1 << 20);
                ctx.bulk_states(1 << 20);
                Ok(())
            },
        ));
    }
    v
}

// ---- C06 ----

pub fn stream_rule(k: K, code: u32, sid: u32) -> Option<bool> {
    if k.on_connection() || (k == K::Error && spec::CONNECTION_CODES.contains(&code)) {
        (sid != 0).then_some(true)
    } else if k == K::Error && spec::STREAM_CODES.contains(&code) {
        (sid == 0).then_some(false)
    } else {
        None
    }
}

fn stream_case(ctx: &mut Ctx, k: K, raw_sid: u32, flags: u16, code: u32) -> Outcome {
    let mut o = Vec::with_capacity(64);
    spec::be32(&mut o, raw_sid);
    spec::be16(&mut o, k.number() << 10 | flags);
    if k == K::Error {
        spec::be32(&mut o, code);
        o.push(b'e');
    } else {
        o.extend_from_slice(&gen::body_for(k.number(), flags));
    }
    let sid = raw_sid & 0x7FFFFFFF;
    ctx.step();
    let got = Frame::decode(&mut &o[..]);
    let fail = |w: &str| {
        Err(format!("{:?} (code {:#x}) on stream {:#x}: {}, got {}", k, code, raw_sid, w, clip(&got)))
    };
    match (stream_rule(k, code, sid), &got) {
        (None, Ok(_)) => {
            ctx.outcome("accepted");
            Ok(())
        }
        (None, Err(_)) => fail("must be accepted"),
        (Some(_), Ok(_)) => fail("must be rejected"),
        (Some(zero), Err(e)) => {
            if subject::error(e) == Some(E::BadStream(zero, sid)) {
                ctx.outcome("rejected");
                Ok(())
            } else {
                fail("wrong error")
            }
        }
    }
}

pub fn c06(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(Scenario::new(
        "types",
        "14 frame types x all 1024 flag words x 120 stream ids with and without the reserved bit, \
         well-formed bodies",
        |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let flags = ctx.choose(1024) as u16;
            let sid = *ctx.pick(&gen::ints(31, 0, 0)) as u32 | (ctx.choose(2) as u32) << 31;
            ctx.state(&(k, flags, sid));
            ctx.note(|| format!("{:?} flags {:#x} stream {:#x}", k, flags, sid));
            let r = stream_case(ctx, k, sid, flags, 0x301);
            r
        },
    ));
    v.push(Scenario::new(
        "low-stream-ids",
        "14 frame types x every stream id whose set bits lie in one 16-bit half, with and without \
         the reserved bit",
        |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let half = ctx.choose(2);
            let v = ctx.choose(65536) as u32;
            let sid = if half == 0 { v } else { v << 16 } ^ (ctx.choose(2) as u32) << 31;
            ctx.state(&(k, sid));
            stream_case(ctx, k, sid, 0x100, 0x301)
        },
    ));
    v.push(Scenario::new(
        "codes",
        "error codes: all below 2^16, all with only their upper or lower half set, powers of two \
         +-1, each of the ten protocol codes with any one bit changed, x stream ids",
        |ctx| {
            let code = match ctx.choose(4) {
                0 => ctx.choose(65536) as u32,
                1 => (ctx.choose(65536) as u32) << 16,
                2 => *ctx.pick(&gen::ints(32, 1, 0)) as u32,
                _ => {
                    let all: Vec<u32> = spec::CONNECTION_CODES.iter().chain(&spec::STREAM_CODES).copied().collect();
                    let c = *ctx.pick(&all);
                    let bit = ctx.choose(33);
                    if bit == 32 { c } else { c ^ 1 << bit }
                }
            };
            let sid = *ctx.pick(&[0u32, 1, 2, 0x7FFFFFFF, 0x80000000, 0x80000001, 0x100, 0x10000, 0x40000000]);
            let flags = *ctx.pick(&[0u16, 0x3FF, 0x100, 0x200]);
            ctx.state(&(code, sid, flags));
            ctx.note(|| format!("code {:#x} stream {:#x} flags {:#x}", code, sid, flags));
            stream_case(ctx, K::Error, sid, flags, code)
        },
    ));
    v.push(Scenario::new(
        "own-frames",
        "frames built by the constructors on every stream id of the alphabet: decoding accepts \
         exactly those that are on a stream they may use",
        |ctx| {
            let codes: Vec<u64> = spec::CONNECTION_CODES
                .iter()
                .chain(&spec::STREAM_CODES)
                .map(|c| *c as u64)
                .chain([0, 5, 0x103, 0x200, 0x205, 0x301, 0xFFFFFFFF])
                .collect();
            let mut m = gen::default(*ctx.pick(&[K::Error, K::RequestFnf, K::Payload, K::Cancel, K::RequestN]));
            if m.k == K::Error {
                m.a = *ctx.pick(&codes);
            }
            m.sid = *ctx.pick(&gen::ints(31, 0, 0)) as u32;
            ctx.state(&m);
            ctx.step();
            let got = Frame::decode(&mut subject::build(&m).to_bytes());
            match (stream_rule(m.k, m.a as u32, m.sid), got) {
                (None, Ok(_)) => Ok(()),
                (Some(z), Err(e)) if subject::error(&e) == Some(E::BadStream(z, m.sid)) => Ok(()),
                (r, g) => Err(format!("{}: rule {:?}, got {}", m.short(), r, clip(&g))),
            }
        },
    ));
    if thorough {
        v.push(Scenario::new(
            "all-codes",
            "all 2^32 error codes on stream 0 and on stream 1",
            |ctx| {
                let sid = ctx.choose(2) as u32;
                let block = ctx.choose(1 << 12) as u32;
                let mut o = vec![0, 0, 0, sid as u8, 11 << 2, 0, 0, 0, 0, 0];
                for low in 0..1u32 << 20 {
                    let code = block << 20 | low;
                    o[6..10].copy_from_slice(&code.to_be_bytes());
                    let got = Frame::decode(&mut &o[..]);
                    let want = stream_rule(K::Error, code, sid);
                    if got.is_ok() != want.is_none() {
                        return stream_case(ctx, K::Error, sid, 0, code);
                    }
                }
                ctx.heartbeat();
                ctx.steps(1 << 20);
                ctx.bulk_states(1 << 20);
                Ok(())
            },
        ));
        v.push(Scenario::new(
            "all-stream-ids",
            "all 2^32 stream id words for each connection-level type and for three error codes",
            |ctx| {
                let (k, code) = *ctx.pick(&[
                    (K::Setup, 0), (K::Lease, 0), (K::Keepalive, 0), (K::MetadataPush, 0), (K::Resume, 0),
                    (K::ResumeOk, 0), (K::Error, 0x101u32), (K::Error, 0x201), (K::Error, 0x301), (K::Cancel, 0),
                ]);
                let block = ctx.choose(1 << 12) as u32;
                let mut o = Vec::new();
                spec::be32(&mut o, 0);
                spec::be16(&mut o, k.number() << 10);
                if k == K::Error {
                    spec::be32(&mut o, code);
                } else {
                    o.extend_from_slice(&gen::body_for(k.number(), 0));
                }
                for low in 0..1u32 << 20 {
                    let raw = block << 20 | low;
                    o[..4].copy_from_slice(&raw.to_be_bytes());
                    let got = Frame::decode(&mut &o[..]);
                    let want = stream_rule(k, code, raw & 0x7FFFFFFF);
                    if got.is_ok() != want.is_none() {
                        return stream_case(ctx, k, raw, 0, code);
                    }
                }
                ctx.heartbeat();
                ctx.steps(1 << 20);
                ctx.bulk_states(1 << 20);
                Ok(())
            },
        ));
    }
    v
}

// ---- C07 ----

pub fn c07(thorough: bool) -> Vec<Scenario> {
    strings(thorough, |ctx, b| {
        let Ok(f) = Frame::decode(&mut b.clone()) else {
            ctx.outcome("not a frame");
            return Ok(());
        };
        ctx.outcome("re-encoded");
        let once = f.to_bytes();
        if once.len() != f.len() {
            return Err(format!("reports length {}, re-encodes as {} bytes", f.len(), once.len()));
        }
        let mut rest = once.clone();
        let back = match Frame::decode(&mut rest) {
            Ok(x) => x,
            Err(e) => return Err(format!("re-encoded as {}, which does not decode: {:?}", hex(&once), e)),
        };
        if back != f {
            return Err(format!("re-encoded as {}, which decodes to {} instead of {}", hex(&once), clip(&back), clip(&f)));
        }
        let twice = back.to_bytes();
        if twice != once || f.to_bytes() != once {
            return Err(format!("re-encoded as {}, then as {}", hex(&once), hex(&twice)));
        }
        let mut used = BytesMut::from(&b"\x01\x02"[..]);
        f.encode(&mut used);
        if used[2..] != once[..] {
            return Err(format!("encoded into a used buffer as {}", hex(&used[2..])));
        }
        // The bytes keep their meaning.
        let (Ok(mut m1), Ok(mut m2)) = (spec::parse(b), spec::parse(&once)) else {
            return match spec::parse(b) {
                Ok(_) => Err(format!("re-encoded as {}, which is not a frame", hex(&once))),
                // A frame that should not have been accepted is not this property's business.
                Err(_) => Ok(()),
            };
        };
        for m in [&mut m1, &mut m2] {
            m.data = m.data.take().filter(|d| !d.is_empty());
        }
        if m1.k == K::MetadataPush && b[4] & 1 == 0 && m2.md.as_ref().map_or(true, |d| d.is_empty()) {
            m2.md = m1.md.clone();
        }
        if m1 != m2 {
            return Err(format!("re-encoded as {}: {} became {}", hex(&once), m1.short(), m2.short()));
        }
        // Bits the protocol assigns to nothing.
        let word = u16::from_be_bytes([once[4], once[5]]);
        if once[0] & 0x80 != 0 || word & 0x1F != 0 {
            return Err(format!("re-encoded as {}, with a reserved header bit set", hex(&once)));
        }
        let tops: &[usize] = match m1.k {
            K::Setup => &[10, 14],
            K::Lease => &[6, 10],
            K::Keepalive | K::ResumeOk | K::RequestStream | K::RequestChannel | K::RequestN => &[6],
            _ => &[],
        };
        for &t in tops {
            if once[t] & 0x80 != 0 {
                return Err(format!("re-encoded as {}, with reserved bit at byte {}", hex(&once), t));
            }
        }
        if m1.k == K::Resume {
            let n = m1.token.as_ref().unwrap().len();
            if once[12 + n] & 0x80 != 0 || once[20 + n] & 0x80 != 0 {
                return Err(format!("re-encoded as {}, with a reserved position bit", hex(&once)));
            }
        }
        Ok(())
    })
}

// ---- C08 ----

/// A buffer of segments with nothing but the required methods.
struct Segments {
    parts: VecDeque<Bytes>,
}

impl Buf for Segments {
    fn remaining(&self) -> usize {
        self.parts.iter().map(|p| p.len()).sum()
    }
    fn chunk(&self) -> &[u8] {
        self.parts.front().map_or(&[], |p| &p[..])
    }
    fn advance(&mut self, mut n: usize) {
        while n > 0 {
            let f = self.parts.front_mut().expect("advance past the end");
            if f.len() > n {
                f.advance(n);
                return;
            }
            n -= f.len();
            self.parts.pop_front();
        }
    }
}

pub fn split(b: &Bytes, cuts: &[usize]) -> Vec<Bytes> {
    let mut v = vec![];
    let mut at = 0;
    for &c in cuts.iter().chain([&b.len()]) {
        if c > at {
            v.push(b.slice(at..c));
            at = c;
        }
    }
    v
}

fn chained(parts: &[Bytes]) -> Box<dyn Buf + '_> {
    match parts {
        [] => Box::new(Bytes::new()),
        [one] => Box::new(one.clone()),
        _ => {
            let mid = parts.len() / 2;
            Box::new(chained(&parts[..mid]).chain(chained(&parts[mid..])))
        }
    }
}

fn segmented(ctx: &mut Ctx, b: &Bytes, cuts: &[usize]) -> Outcome {
    let mut whole = b.clone();
    let want = Frame::decode(&mut whole);
    let want_left = whole.remaining();
    let parts = split(b, cuts);
    ctx.steps(2);
    let mut s = Segments { parts: parts.iter().cloned().collect() };
    let got = Frame::decode(&mut s);
    let fail = |how: &str, got: &Result<Frame, DecodeError>, left: usize| {
        Err(format!(
            "{} in segments {:?} ({}): {} with {} left, contiguous: {} with {} left",
            hex(b),
            parts.iter().map(|p| p.len()).collect::<Vec<_>>(),
            how,
            clip(got),
            left,
            clip(&want),
            want_left
        ))
    };
    if got != want || s.remaining() != want_left {
        return fail("list of segments", &got, s.remaining());
    }
    if parts.len() <= 4 {
        let mut c = chained(&parts);
        let got = Frame::decode(&mut c);
        if got != want || c.remaining() != want_left {
            return fail("chain", &got, c.remaining());
        }
    }
    ctx.outcome(if want.is_ok() { "frames" } else { "errors" });
    Ok(())
}

/// Representative byte strings: valid, cut short and malformed, of every type.
pub fn representatives() -> Vec<Bytes> {
    let mut v: Vec<Vec<u8>> = vec![];
    for k in spec::KINDS {
        let mut ms = vec![gen::default(k)];
        let mut m = gen::default(k);
        if k != K::MetadataPush {
            m.md = None;
        }
        m.flags = k.flags();
        if k == K::Setup {
            m.token = Some(gen::pat(Role::Token, 2));
        }
        ms.push(m.clone());
        if k.may_have_data() {
            m.data = None;
            ms.push(m.clone());
        }
        if k.has_payload() {
            m.md = Some(Bytes::new());
            ms.push(m);
        }
        for m in ms {
            let mut o = vec![];
            spec::encode(&m, &mut o);
            let n = o.len();
            v.push(o.clone());
            if n > 7 {
                v.push(o[..n - 1].to_vec());
                v.push(o[..n / 2 + 3].to_vec());
            }
            // Wrong stream.
            let mut w = o.clone();
            w[3] ^= 1;
            v.push(w);
            // Trailing bytes.
            let mut t = o.clone();
            t.extend_from_slice(&[0xEE, 0xDD, 0xCC]);
            v.push(t);
            // Declared length too large.
            if k.has_payload() && n > 9 {
                let mut l = o;
                l[n.saturating_sub(6)] = 0xFF;
                v.push(l);
            }
        }
        v.push(vec![0, 0, 0, 1, (k.number() << 2) as u8 | 1, 0xFF]);
    }
    v.push(vec![0, 0, 0, 1, 0xFC, 0, 1, 2]);
    v.push(vec![0, 0, 0, 1, 0x3C, 0]);
    v.push(vec![0, 0, 0, 1, 0]);
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v.into_iter().map(Bytes::from).collect()
}

pub fn c08(thorough: bool) -> Vec<Scenario> {
    let reps = Arc::new(representatives());
    let mut v = vec![];
    let all = if thorough { 20 } else { 17 };
    let r = reps.clone();
    v.push(Scenario::new(
        "partitions",
        format!(
            "all partitions of the {} representative strings of up to {} bytes (valid, cut, \
             malformed, of every type)",
            reps.iter().filter(|b| b.len() <= all).count(),
            all
        ),
        move |ctx| {
            let short: Vec<&Bytes> = r.iter().filter(|b| b.len() <= all).collect();
            let b = *ctx.pick(&short);
            let mut cuts = vec![];
            for i in 1..b.len() {
                if ctx.flip() {
                    cuts.push(i);
                }
            }
            ctx.state(&(&b[..], &cuts));
            ctx.note(|| format!("{} cut at {:?}", hex(b), cuts));
            segmented(ctx, b, &cuts)
        },
    ));
    let r = reps.clone();
    let k = if thorough { 4 } else { 3 };
    v.push(Scenario::new(
        "cuts",
        format!("all {} representative strings, cut in up to {} places, or into single bytes", reps.len(), k),
        move |ctx| {
            let b = ctx.pick(&r[..]);
            let mut cuts = vec![];
            if ctx.flip() {
                cuts = (1..b.len()).collect();
            } else {
                let mut lo = 1;
                for _ in 0..k {
                    if lo >= b.len() {
                        break;
                    }
                    let c = ctx.choose(b.len() - lo + 1);
                    if c == 0 {
                        break;
                    }
                    cuts.push(lo + c - 1);
                    lo += c;
                }
            }
            ctx.state(&(&b[..], &cuts));
            ctx.note(|| format!("{} cut at {:?}", hex(b), cuts));
            segmented(ctx, b, &cuts)
        },
    ));
    let r = reps.clone();
    v.push(Scenario::new(
        "strides",
        "all representative strings and longer frames in segments of equal size (1 to 40 bytes), \
         after a first one of any smaller size",
        move |ctx| {
            let n = ctx.choose(r.len() + spec::KINDS.len() * 2);
            let b = if n < r.len() {
                r[n].clone()
            } else {
                let n = n - r.len();
                let k = spec::KINDS[n / 2];
                let mut m = gen::default(k);
                m.flags = k.flags();
                let size = if n % 2 == 0 { 100 } else { 700 };
                for p in gen::parts(k) {
                    let size = if p.is_mime() { size.min(250) } else { size };
                    p.set(&mut m, gen::filler(1, Role::Md, size));
                }
                let mut o = vec![];
                spec::encode(&m, &mut o);
                Bytes::from(o)
            };
            let step = 1 + ctx.choose(40);
            let first = ctx.choose(step);
            let cuts: Vec<usize> =
                (0..).map(|i| first + i * step).skip_while(|c| *c == 0).take_while(|c| *c < b.len()).collect();
            ctx.state(&(&b[..], &cuts));
            ctx.note(|| format!("{} in segments of {} after {}", hex(&b), step, first));
            segmented(ctx, &b, &cuts)
        },
    ));
    let top = if thorough { 300 } else { 140 };
    v.push(Scenario::new(
        "sizes",
        format!(
            "each part of each type at 0-{} bytes and around the powers of two up to 8192, the string whole or a byte \
             short, in segments of one of 24 equal sizes, of 1, 2, 3, .. or 1, 2, 4, .. bytes, or long and short in turn",
            top
        ),
        move |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let ps = gen::parts(k);
            if ps.is_empty() {
                return Ok(());
            }
            let p = *ctx.pick(&ps);
            let mut sizes: Vec<usize> = (0..=top).collect();
            for i in 7..=13 {
                sizes.extend([(1 << i) - 1, 1 << i, (1 << i) + 1]);
            }
            sizes.retain(|n| !p.is_mime() || *n <= 255);
            let mut m = gen::default(k);
            m.flags = k.flags();
            if k == K::Setup {
                m.token = Some(gen::pat(Role::Token, 2));
            }
            p.set(&mut m, gen::filler(usize::from(p.is_mime()), Role::Md, *ctx.pick(&sizes)));
            let mut o = vec![];
            spec::encode(&m, &mut o);
            if ctx.flip() {
                o.pop();
            }
            let b = Bytes::from(o);
            const EQUAL: [usize; 24] =
                [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 1000];
            let how = ctx.choose(EQUAL.len() + 5);
            let mut cuts = vec![];
            let mut at = 0;
            for i in 0.. {
                at += match how.checked_sub(EQUAL.len()) {
                    None => EQUAL[how],
                    Some(0) => i + 1,
                    Some(1) => 1 << i.min(20),
                    Some(2) => [1, 40][i % 2],
                    Some(3) => [40, 1, 1][i % 3],
                    _ => [3, 0, 500][i % 3].max(1),
                };
                if at >= b.len() {
                    break;
                }
                cuts.push(at);
            }
            ctx.state(&(&b[..], how));
            ctx.note(|| format!("{} cut at {:?}", m.short(), &cuts[..cuts.len().min(20)]));
            segmented(ctx, &b, &cuts)
        },
    ));
    v.push(Scenario::new(
        "shapes",
        "strings with up to 1 departure from a well-formed frame, cut short at every byte, in two \
         segments split at every byte and in single bytes",
        |ctx| {
            let mut o = vec![];
            gen::shaped(ctx, &mut o, 1, true);
            let b = Bytes::from(o);
            ctx.note(|| hex(&b));
            ctx.state(&b[..]);
            if b.is_empty() {
                return Ok(());
            }
            for c in 1..b.len() {
                segmented(ctx, &b, &[c])?;
            }
            let every: Vec<usize> = (1..b.len()).collect();
            segmented(ctx, &b, &every)
        },
    ));
    v.push(Scenario::new(
        "long",
        "frames with parts of 256 to 70000 bytes, split at and around every field boundary",
        |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let mut m = gen::default(k);
            let sizes = [256usize, 1000, 4096, 65535, 70000];
            if k.may_have_metadata() {
                m.md = Some(gen::pat(Role::Md, *ctx.pick(&sizes)));
            }
            if k.may_have_data() {
                m.data = Some(gen::pat(Role::Data, *ctx.pick(&sizes)));
            }
            let mut o = vec![];
            spec::encode(&m, &mut o);
            let b = Bytes::from(o);
            let mut points: Vec<usize> = (1..32).collect();
            for s in sizes {
                for d in 0..24 {
                    points.push(s + d);
                }
            }
            for d in 1..10 {
                points.push(b.len().saturating_sub(d));
            }
            points.retain(|p| *p > 0 && *p < b.len());
            points.sort();
            points.dedup();
            if points.is_empty() {
                return Ok(());
            }
            ctx.note(|| m.short());
            let c = *ctx.pick(&points);
            ctx.state(&(m.short(), c));
            segmented(ctx, &b, &[c])?;
            segmented(ctx, &b, &[c / 2, c])
        },
    ));
    v
}
