//! The codec used by several threads at once.
use crate::threads::{point, run_apart};
use binate::frame::codec::*;
use binate::frame::{DecodeError, Encode, Frame, Version};
use binate::mimetype::WellKnownMimeType;
use binate::{Payload, PayloadBuilder};
use bytes::{Buf, Bytes, BytesMut};
use codec::spec::{self, K, M};
use codec::subject;
use explore::{Ctx, Outcome, Scenario};
use std::sync::Arc;

/// Other threads may run whenever the code under test looks at its input.
/// Shows at most so many bytes at a time.
struct Watched<'a>(&'a [u8], usize);

impl Buf for Watched<'_> {
    fn remaining(&self) -> usize {
        point();
        self.0.len()
    }

    fn chunk(&self) -> &[u8] {
        point();
        &self.0[..self.1.min(self.0.len())]
    }

    fn advance(&mut self, n: usize) {
        point();
        self.0 = &self.0[n..];
    }
}

fn bytes(seed: usize, n: usize) -> Bytes {
    (0..n).map(|i| (seed * 59 + 7 + i * (seed + 3)) as u8).collect::<Vec<u8>>().into()
}

fn letters(seed: usize, n: usize) -> Bytes {
    (0..n).map(|i| b'a' + ((seed * 5 + i * 3) % 26) as u8).collect::<Vec<u8>>().into()
}

/// Frames of a type that have nothing in common.
fn model(k: K, which: usize) -> M {
    let mut m = M::new(k);
    if !k.on_connection() {
        m.sid = [0x0102_0304, 0x7FFF_FFFF, 5][which];
    }
    let w = which as u64;
    match k {
        K::Setup => {
            m.ver = [(1, 0), (2, 7), (0x0102, 0x0304)][which];
            m.a = 30_000 + 70 * w;
            m.b = 90_001 + 700_000 * w;
            m.mm = letters(which, 3 + 8 * which);
            m.dm = letters(which + 7, 5 + 90 * which);
            if which == 1 {
                m.flags = spec::F_80 | spec::F_40;
                m.token = Some(bytes(31, 9));
            }
        }
        K::Lease => {
            m.a = 1000 + 0x0102_0300 * w;
            m.b = 7 + 0x7FFF_0000 * (w & 1);
        }
        K::Keepalive | K::ResumeOk => m.a = 0x0102_0304_0506_0708 + w * 0x1122_3344_5566,
        K::RequestStream | K::RequestChannel | K::RequestN => m.a = 9 + 0x3FFF_0055 * w,
        K::Error => m.a = [0x201, 0x301, 0x204][which],
        K::Resume => {
            m.ver = [(1, 0), (3, 9), (0x0102, 0x0304)][which];
            m.token = Some(bytes(which + 40, 3 + 20 * which));
            m.a = 0x7FFF_0000_0000_0001 + w;
            m.b = 0x0000_1234_0000_0000 * w + 3;
        }
        _ => (),
    }
    if which == 1 {
        m.flags |= k.flags();
    }
    if k.may_have_metadata() && (which != 2 || k == K::MetadataPush) {
        m.md = Some(bytes(which, 3 + 14 * which));
    }
    if k.may_have_data() && which != 1 {
        m.data = Some(if k == K::Error { letters(which, 6) } else { bytes(which + 20, 4 + 7 * which) });
    }
    m
}

#[derive(Clone, Debug)]
enum Op {
    /// To bytes and its length.
    Encode(K, usize),
    /// Twice into one buffer.
    Append(K, usize),
    Decode(K, usize),
    /// Without its last byte, if that makes a difference, or of an unknown type.
    Reject(K, usize),
    Mime(usize),
    Chunks(usize),
    Builders(usize),
    Version(usize),
    /// Compare with an equal and a different one, copy, and use the copies after the originals.
    Equal(K, usize),
}

/// What may be done to a frame that another thread uses, too.
#[derive(Clone, Copy, Debug)]
enum Use {
    Look,
    Length,
    Encode,
    /// A copy, used after the shared one is given up.
    Copy,
    Compare,
}

const USES: [Use; 5] = [Use::Look, Use::Length, Use::Encode, Use::Copy, Use::Compare];

/// Hands a value to other threads. Only for types that [`shareable`] holds for.
struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

/// Whether a type may be shared among threads (as a value, so that a type that may not be does not stop the build).
macro_rules! shareable {
    ($t:ty) => {{
        struct Of<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            const YES: bool = false;
        }
        impl<T> No for Of<T> {}
        #[allow(dead_code)]
        impl<T: Send + Sync> Of<T> {
            const YES: bool = true;
        }
        Of::<$t>::YES
    }};
}

fn apply(u: Use, f: Arc<Shared<Frame>>, m: &M) -> Outcome {
    point();
    let mut want = vec![];
    spec::encode(m, &mut want);
    match u {
        Use::Look => {
            check(&f.0, m)?;
            point();
            subject::check(&f.0, m)
        }
        Use::Length => {
            same("length", f.0.len(), want.len())?;
            point();
            same("length", f.0.len(), want.len())
        }
        Use::Encode => {
            same("encoding", &f.0.to_bytes()[..], &want[..])?;
            point();
            let mut buf = BytesMut::from(&b"x"[..]);
            subject::inner_encode(&f.0, &mut buf);
            same("encoding", &buf[1..], &want[..])
        }
        Use::Copy => {
            let c = f.0.clone();
            point();
            drop(f);
            point();
            check(&c, m)?;
            same("encoding of a copy", &c.to_bytes()[..], &want[..])
        }
        Use::Compare => {
            same("equal to one like it", f.0 == subject::build(m), true)?;
            point();
            let mut n = m.clone();
            if m.k.on_connection() {
                if m.k == K::MetadataPush {
                    n.md = Some(bytes(77, 5));
                } else {
                    n.a ^= 1;
                }
            } else {
                n.sid ^= 2;
            }
            same("equal to another one", f.0 == subject::build(&n), false)
        }
    }
}

fn mimes() -> [(WellKnownMimeType, &'static str); 3] {
    use WellKnownMimeType::*;
    [(APPLICATION_JSON, "application/json"), (TEXT_PLAIN, "text/plain"), (APPLICATION_CBOR, "application/cbor")]
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Outcome {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {}, expected {}", what, subject::clip(&got), subject::clip(&want)))
    }
}

fn check(f: &Frame, m: &M) -> Outcome {
    point();
    subject::check(f, m)
}

fn perform(op: &Op) -> Outcome {
    point();
    match *op {
        Op::Encode(k, which) => {
            let m = model(k, which);
            let f = subject::build(&m);
            let mut want = vec![];
            spec::encode(&m, &mut want);
            point();
            same("length", f.len(), want.len())?;
            let b = f.to_bytes();
            same("encoding", &b[..], &want[..])?;
            check(&f, &m)
        }
        Op::Append(k, which) => {
            let m = model(k, which);
            let mut want = vec![];
            spec::encode(&m, &mut want);
            let mut buf = BytesMut::new();
            let f = subject::build(&m);
            f.encode(&mut buf);
            point();
            subject::inner_encode(&f, &mut buf);
            same("encoding twice", &buf[..], &[&want[..], &want[..]].concat()[..])
        }
        Op::Decode(k, which) => {
            let m = model(k, which);
            let mut b = vec![];
            spec::encode(&m, &mut b);
            let mut buf = Watched(&b, [usize::MAX, 7, usize::MAX][which]);
            let f = Frame::decode(&mut buf).map_err(|e| format!("{} is rejected: {:?}", m.short(), e))?;
            same("unread", buf.0.len(), 0)?;
            check(&f, &m)?;
            point();
            let again = f.to_bytes();
            same("encoding it again", &again[..], &b[..])
        }
        Op::Reject(k, which) => {
            let m = model(k, which);
            let mut b = vec![];
            spec::encode(&m, &mut b);
            match which {
                0 => b[4] = 0x3D << 2 | b[4] & 3,
                _ => b.truncate(if matches!(k, K::Cancel | K::Payload | K::MetadataPush) { 5 } else { 7 }),
            }
            let r = Frame::decode(&mut Watched(&b, usize::MAX));
            point();
            match (which, r) {
                (0, Err(DecodeError::UnrecognizedFrameType(0x3D))) => Ok(()),
                (1, Err(DecodeError::InComplete)) => Ok(()),
                (_, r) => Err(format!("{} gives {}", subject::clip(&b), subject::clip(&r))),
            }
        }
        Op::Equal(k, which) => {
            let (m, n) = (model(k, which), model(k, which + 1));
            let (f, g) = (subject::build(&m), subject::build(&n));
            point();
            same("equal to another one", f == g, false)?;
            point();
            let (c, d) = (f.clone(), g.clone());
            point();
            same("equal to its copy", (f == c, g == d), (true, true))?;
            drop((f, g));
            check(&c, &m)?;
            check(&d, &n)
        }
        Op::Mime(i) => {
            let (t, name) = mimes()[i];
            let got = WellKnownMimeType::from(name);
            point();
            same("type", got, t)?;
            let s: &'static str = got.into();
            point();
            same("name", s, name)
        }
        Op::Chunks(i) => {
            let (md, data) = (bytes(i, 5 + i), bytes(i + 3, 7));
            let mut chunks = payload(&md, &data).chunks(3);
            let (mut a, mut b) = (vec![], vec![]);
            let mut n = 0;
            loop {
                point();
                same("chunks left", chunks.len(), 3 - n)?;
                let Some(c) = chunks.next() else { break };
                n += 1;
                a.extend_from_slice(c.metadata().map_or(&[], |b| b));
                b.extend_from_slice(c.data().map_or(&[], |b| b));
            }
            same("metadata", &a[..], &md[..])?;
            same("data", &b[..], &data[..])
        }
        Op::Builders(i) => {
            let m = model(K::Setup, 1);
            let mut s = SetupFrame::builder().set_keepalive_interval(m.a as u32 + i as u32);
            point();
            s = s.set_resume_token(bytes(i, 4 + i)).set_metadata_mimetype("a/b");
            point();
            let mut p = PayloadBuilder::new().set_data(bytes(i, 9));
            point();
            p = p.set_metadata(bytes(i + 9, 2));
            s = s.set_data(bytes(i, 9));
            point();
            let (s, p) = (s.build(), p.build());
            point();
            same("token", s.resume_token(), Some(&bytes(i, 4 + i)))?;
            same("interval", s.keepalive_interval().as_millis() as u64, m.a + i as u64)?;
            same("metadata MIME type", s.metadata_mimetype(), Some("a/b"))?;
            same("data", s.data(), Some(&bytes(i, 9)))?;
            same("payload data", p.data(), Some(&bytes(i, 9)))?;
            same("payload metadata", p.metadata(), Some(&bytes(i + 9, 2)))
        }
        Op::Version(i) => {
            let v = Version::new(i as u16 + 1, 7);
            let w = Version::new(2, 7 - i as u16);
            point();
            let s = format!("{}", v);
            point();
            same("version", &s[..], &format!("{}.7", i + 1)[..])?;
            same("order", v < w, (i as u16 + 1, 7) < (2, 7 - i as u16))
        }
    }
}

fn payload(md: &Bytes, data: &Bytes) -> Payload {
    subject::payload(&Some(md.clone()), &Some(data.clone()))
}

fn all() -> Vec<Op> {
    let mut v = vec![];
    for k in spec::KINDS {
        for which in 0..2 {
            v.push(Op::Encode(k, which));
            v.push(Op::Decode(k, which));
            v.push(Op::Reject(k, which));
        }
        v.push(Op::Append(k, 2));
        v.push(Op::Equal(k, 0));
        v.push(Op::Decode(k, 2));
    }
    v.extend((0..3).map(Op::Mime));
    v.extend((0..2).map(Op::Chunks));
    v.extend((0..2).map(Op::Builders));
    v.extend((0..2).map(Op::Version));
    v
}

/// One of every sort.
fn some() -> Vec<Op> {
    vec![
        Op::Encode(K::Payload, 0),
        Op::Decode(K::Setup, 1),
        Op::Encode(K::Setup, 0),
        Op::Decode(K::RequestChannel, 0),
        Op::Reject(K::RequestN, 1),
        Op::Mime(0),
        Op::Chunks(1),
        Op::Builders(1),
        Op::Append(K::Resume, 2),
        Op::Encode(K::Lease, 1),
        Op::Decode(K::Error, 0),
        Op::Mime(1),
    ]
}

fn threads(ctx: &mut Ctx, programs: &[Vec<Op>], preemptions: usize) -> Outcome {
    let bodies = programs
        .iter()
        .map(|p| Box::new(move || p.iter().try_for_each(|op| perform(op).map_err(|e| format!("{:?}: {}", op, e)))) as Box<dyn FnOnce() -> Outcome + Send>)
        .collect();
    ctx.note(|| format!("{:?}", programs));
    run_apart(ctx, preemptions, bodies)?.into_iter().collect()
}

/// A pair of operations, one of them before or equal to the other in the list.
fn pair(ctx: &mut Ctx, ops: &[Op]) -> Vec<Vec<Op>> {
    let i = ctx.choose(ops.len());
    let j = ctx.choose(i + 1);
    vec![vec![ops[i].clone()], vec![ops[j].clone()]]
}

/// Two operations on frames of the same type, or of the same other sort.
fn alike(ctx: &mut Ctx) -> Vec<Vec<Op>> {
    let n = spec::KINDS.len();
    let which = ctx.choose(n + 4);
    let ops: Vec<Op> = all()
        .into_iter()
        .filter(|o| match o {
            Op::Encode(k, _) | Op::Decode(k, _) | Op::Reject(k, _) | Op::Append(k, _) | Op::Equal(k, _) => which < n && *k == spec::KINDS[which],
            Op::Mime(_) => which == n,
            Op::Chunks(_) => which == n + 1,
            Op::Builders(_) => which == n + 2,
            Op::Version(_) => which == n + 3,
        })
        .collect();
    pair(ctx, &ops)
}

pub fn c26(thorough: bool) -> Vec<Scenario> {
    let b = thorough as usize;
    vec![
        Scenario::new(
            "first use",
            format!(
                "2 threads, an operation each on frames of the same type, or on MIME types, chunks, builders or versions, in a new \
                 process every time; up to {} preemptions",
                1 + b
            ),
            move |ctx| {
                let r = ctx.forked(move |ctx| {
                    let p = alike(ctx);
                    threads(ctx, &p, 1 + b)
                });
                let c = ctx.taken();
                ctx.state(&("first use", c));
                r
            },
        ),
        Scenario::new(
            "shared",
            format!(
                "a frame of every type, as built or as decoded, shared by threads that do {} out of {:?}; up to {} preemptions",
                if thorough { "2 and 2 or 1, 1 and 1 things" } else { "2 and 1 things" },
                USES,
                2 + b
            ),
            move |ctx| {
                if !shareable!(Frame) || !shareable!(Payload) {
                    return Err("frames and payloads cannot be shared among threads".into());
                }
                let m = model(*ctx.pick(&spec::KINDS), ctx.choose(2 + b));
                let f = if ctx.flip() {
                    subject::build(&m)
                } else {
                    let mut b = vec![];
                    spec::encode(&m, &mut b);
                    Frame::decode(&mut &b[..]).map_err(|e| format!("{} is rejected: {:?}", m.short(), e))?
                };
                let lens: &[usize] = match (thorough, thorough && ctx.flip()) {
                    (false, _) => &[2, 1],
                    (true, false) => &[2, 2],
                    (true, true) => &[1, 1, 1],
                };
                let programs: Vec<Vec<Use>> = lens.iter().map(|n| (0..*n).map(|_| *ctx.pick(&USES)).collect()).collect();
                ctx.note(|| format!("{}: {:?}", m.short(), programs));
                let f = Arc::new(Shared(f));
                let bodies = programs
                    .into_iter()
                    .map(|p| {
                        let (f, m) = (f.clone(), m.clone());
                        Box::new(move || p.iter().try_for_each(|u| apply(*u, f.clone(), &m).map_err(|e| format!("{:?}: {}", u, e))))
                            as Box<dyn FnOnce() -> Outcome + Send>
                    })
                    .collect();
                let r = run_apart(ctx, 2 + b, bodies).and_then(|r| r.into_iter().collect());
                let c = ctx.taken();
                ctx.state(&("shared", c));
                r
            },
        )
        .serial(),
        Scenario::new(
            "pairs",
            format!("2 threads, every pair of {} operations, up to {} preemptions", all().len(), 1 + b),
            move |ctx| {
                let p = pair(ctx, &all());
                let r = threads(ctx, &p, 1 + b);
                let c = ctx.taken();
                ctx.state(&("pairs", c));
                r
            },
        )
        .serial(),
        Scenario::new(
            "alike",
            format!("2 threads, an operation each on frames of the same type, or on MIME types, chunks, builders or versions, up to {} preemptions", 2 + b),
            move |ctx| {
                let p = alike(ctx);
                let r = threads(ctx, &p, 2 + b);
                let c = ctx.taken();
                ctx.state(&("alike", c));
                r
            },
        )
        .serial(),
        Scenario::new(
            "sequences",
            format!("2 threads of 2 operations out of {}, up to {} preemptions", if thorough { 10 } else { 5 }, 1),
            move |ctx| {
                let ops = &some()[..if thorough { 10 } else { 5 }];
                let p = vec![vec![ctx.pick(ops).clone(), ctx.pick(ops).clone()], vec![ctx.pick(ops).clone(), ctx.pick(ops).clone()]];
                let r = threads(ctx, &p, 1);
                let c = ctx.taken();
                ctx.state(&("sequences", c));
                r
            },
        )
        .serial(),
        Scenario::new(
            "3 threads",
            format!("3 threads, an operation each out of {}, up to 1 preemption", if thorough { 12 } else { 6 }),
            move |ctx| {
                let ops = &some()[..if thorough { 12 } else { 6 }];
                let p = vec![vec![ctx.pick(ops).clone()], vec![ctx.pick(ops).clone()], vec![ctx.pick(ops).clone()]];
                let r = threads(ctx, &p, 1);
                let c = ctx.taken();
                ctx.state(&("three", c));
                r
            },
        )
        .serial(),
    ]
}
