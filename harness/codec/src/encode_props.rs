//! C01, C02, C03, C22: from frames to bytes (and back).
use crate::gen::{self, Alpha};
use crate::spec::{self, K, M};
use crate::subject::{self, build, check, clip};
use binate::frame::codec::*;
use binate::frame::{Encode, Flags, Frame, Version};
use bytes::{Buf, Bytes, BytesMut};
use explore::{Ctx, Outcome, Scenario};
use std::cell::RefCell;
use std::sync::Arc;

thread_local! {
    static WANT: RefCell<Vec<u8>> = RefCell::new(Vec::new());
}

/// The trees of constructible frames, each checked with `f`.
fn frames(
    thorough: bool,
    f: impl Fn(&mut Ctx, &M) -> Outcome + Send + Sync + 'static,
) -> Vec<Scenario> {
    let f = Arc::new(f);
    let mut v = vec![];
    let mut add = |name: &'static str, about: &str, alpha: Alpha, budget: u32| {
        let f = f.clone();
        v.push(Scenario::new(name, about, move |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let m = gen::model(ctx, k, &alpha, budget);
            ctx.state(&m);
            ctx.note(|| m.short());
            f(ctx, &m)
        }));
    };
    add(
        "shapes",
        "14 frame types x all flags x every combination of field values from the two-valued \
         alphabets and of part presence (absent, empty, not empty)",
        Alpha::tiny(),
        99,
    );
    add(
        "fields",
        "14 frame types x all flags x up to 2 fields away from their default, over all powers of \
         two +-1 and byte patterns for integers, 57 part sizes, absence",
        Alpha::full(),
        2,
    );
    if thorough {
        add(
            "fields4",
            "14 frame types x all flags x up to 4 fields away from their default, over boundary \
             values and 7 part sizes",
            Alpha::small(),
            4,
        );
        add(
            "fields3",
            "14 frame types x all flags x up to 3 fields away from their default, full alphabets",
            Alpha::full(),
            3,
        );
    } else {
        add(
            "fields3",
            "14 frame types x all flags x up to 3 fields away from their default, over boundary \
             values and 7 part sizes",
            Alpha::small(),
            3,
        );
    }
    let g = f.clone();
    v.push(Scenario::new(
        "integers",
        "every integer field of every type over all values of each of its 16-bit windows",
        move |ctx| {
            let m = gen::dense_int(ctx);
            ctx.state(&m);
            ctx.note(|| m.short());
            g(ctx, &m)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "sizes",
        "every part of every type, every size from 0 to 1100 (2100 for tokens and data), of text of \
         one to four-byte characters or not text",
        move |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let mut m = gen::default(k);
            match ctx.choose(4) {
                0 if k.may_have_metadata() => {
                    let n = ctx.choose(1101);
                    m.md = Some(gen::filler(ctx.choose(5), gen::Role::Md, n));
                }
                1 if k.may_have_data() => {
                    let n = ctx.choose(2101);
                    m.data = Some(gen::filler(ctx.choose(5), gen::Role::Data, n));
                }
                2 if k == K::Setup || k == K::Resume => {
                    m.token = Some(gen::pat(gen::Role::Token, ctx.choose(2101)));
                    if k == K::Setup {
                        m.flags |= spec::F_80;
                    }
                }
                3 if k == K::Setup => {
                    if ctx.flip() {
                        m.mm = gen::mime(0, ctx.choose(256));
                    } else {
                        m.dm = gen::mime(1, ctx.choose(256));
                    }
                }
                _ => (),
            }
            ctx.state(&m);
            ctx.note(|| m.short());
            g(ctx, &m)
        },
    ));
    let g = f.clone();
    let top = if thorough { 520 } else { 260 };
    v.push(Scenario::new(
        "two sizes",
        format!("any two parts of a type, each of every size from 0 to {}, or of sizes that add up to one near a power of two", top),
        move |ctx| {
            let m = gen::two_sizes(ctx, top);
            ctx.state(&m.short());
            ctx.note(|| m.short());
            g(ctx, &m)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "shared memory",
        "any two parts of a type that are pieces of up to 5 bytes of one buffer of memory (of three kinds): side by side, apart, \
         overlapping, one in the other, or the same",
        move |ctx| {
            let m = gen::shared(ctx);
            ctx.state(&(m.short(), &m));
            ctx.note(|| m.short());
            g(ctx, &m)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "together",
        "any two integer fields of a type, or one and a part, with all flags or none: pairs of 12 to 29 values around 0 and powers \
         of 2; equal, off by one, double, complementary and so on; the same as, or near, the part's size (to 300)",
        move |ctx| {
            let m = gen::together(ctx, thorough);
            ctx.state(&m.short());
            ctx.note(|| m.short());
            g(ctx, &m)
        },
    ));
    let g = f.clone();
    let short = if thorough { 3 } else { 2 };
    v.push(Scenario::new(
        "contents",
        format!(
            "every part of every type: all strings of up to {} bytes, every byte at every position \
             of longer ones, texts, runs of one byte and of wide characters, all parts alike",
            short
        ),
        move |ctx| {
            let m = gen::contents(ctx, short, false);
            ctx.state(&m);
            ctx.note(|| m.short());
            g(ctx, &m)
        },
    ));
    let g = f.clone();
    v.push(Scenario::new(
        "large",
        "parts at the limits of their length fields: 65535-65537, 2^24-2, 2^24-1 bytes (and \
         beyond, for parts without a length field)",
        move |ctx| {
            let k = *ctx.pick(&[
                K::RequestFnf, K::RequestResponse, K::RequestStream, K::RequestChannel, K::Payload,
                K::Error, K::Keepalive, K::Lease, K::MetadataPush, K::Resume, K::Setup,
            ]);
            let m = gen::large(ctx, k);
            ctx.state(&m.short());
            ctx.note(|| m.short());
            g(ctx, &m)
        },
    ));
    v
}

pub fn same(what: &str, got: &[u8], want: &[u8]) -> Outcome {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let win = |b: &[u8]| {
        let lo = at.saturating_sub(4);
        format!("{:02x?}", &b[lo.min(b.len())..(at + 8).min(b.len())])
    };
    Err(format!(
        "{}: {} bytes, expected {}; they differ from byte {} on: ..{} instead of ..{}",
        what,
        got.len(),
        want.len(),
        at,
        win(got),
        win(want)
    ))
}

fn with_spec<T>(m: &M, f: impl FnOnce(&[u8]) -> T) -> T {
    WANT.with(|w| {
        let mut w = w.borrow_mut();
        spec::encode(m, &mut w);
        f(&w)
    })
}

pub fn c01(thorough: bool) -> Vec<Scenario> {
    let mut v = frames(thorough, |ctx, m| {
        let frame = build(m);
        ctx.step();
        let got = frame.to_bytes();
        ctx.outcome("encoded");
        with_spec(m, |want| same("the wire bytes", &got, want))
    });
    if thorough {
        // Every 31-bit value of every 31-bit field, every 32-bit error code.
        v.push(Scenario::new(
            "all-31-bit-values",
            "every stream id, request n, time and error code there is, on the wire of a frame of \
             each type that carries it",
            |ctx| {
                let list: Vec<(K, gen::Slot, u32)> = vec![
                    (K::Cancel, gen::Slot::Sid, 31),
                    (K::RequestN, gen::Slot::A, 31),
                    (K::RequestFnf, gen::Slot::Sid, 31),
                    (K::RequestStream, gen::Slot::A, 31),
                    (K::RequestChannel, gen::Slot::A, 31),
                    (K::Payload, gen::Slot::Sid, 31),
                    (K::Error, gen::Slot::A, 32),
                    (K::Lease, gen::Slot::A, 31),
                    (K::Lease, gen::Slot::B, 31),
                ];
                let (k, slot, bits) = *ctx.pick(&list);
                let block = ctx.choose(1 << (bits - 20)) as u64;
                let mut m = gen::default(k);
                m.md = None;
                m.data = None;
                let mut buf = BytesMut::with_capacity(64);
                let mut want = Vec::new();
                for low in 0..1u64 << 20 {
                    let v = block << 20 | low;
                    if v == 0 {
                        continue;
                    }
                    slot.set(&mut m, v);
                    buf.clear();
                    build(&m).encode(&mut buf);
                    spec::encode(&m, &mut want);
                    if buf[..] != want[..] {
                        return same(&m.short(), &buf, &want);
                    }
                    if low & 0xFFFF == 0 {
                        ctx.heartbeat();
                    }
                }
                ctx.steps(1 << 20);
                ctx.bulk_states(1 << 20);
                ctx.outcome("encoded blocks of 2^20 values");
                Ok(())
            },
        ));
    }
    v
}

/// Decodes what was encoded.
fn round_trip(m: &M, frame: &Frame, mut bytes: Bytes) -> Outcome {
    let total = bytes.len();
    match Frame::decode(&mut bytes) {
        Ok(back) => {
            check(&back, m)?;
            if bytes.has_remaining() {
                return Err(format!("decoding left {} of {} bytes", bytes.remaining(), total));
            }
            // Equality of frames, where the model says they are the same.
            if m.data.as_ref().map_or(true, |d| !d.is_empty()) && back != *frame {
                return Err(format!("decoded {} is not equal to {}", clip(&back), clip(frame)));
            }
            Ok(())
        }
        Err(e) => Err(format!("its own bytes do not decode: {:?}", e)),
    }
}

fn history_frames() -> Vec<M> {
    let mut v = vec![];
    for k in spec::KINDS {
        let m = gen::default(k);
        v.push(m.clone());
        if k.may_have_metadata() && k != K::MetadataPush {
            let mut n = m.clone();
            n.md = None;
            v.push(n);
        }
        if k.may_have_data() {
            let mut n = m.clone();
            n.data = None;
            n.flags |= k.flags() & spec::F_80;
            if k == K::Setup {
                n.token = Some(gen::pat(gen::Role::Token, 4));
            }
            v.push(n);
        }
        if k.may_have_metadata() {
            let mut n = m.clone();
            n.md = Some(gen::pat(gen::Role::Md, 300));
            n.flags |= k.flags() & spec::F_40;
            v.push(n);
        }
        if !k.on_connection() {
            let mut n = m;
            n.sid = 0x01020304;
            v.push(n);
        }
    }
    v
}

pub fn c02(thorough: bool) -> Vec<Scenario> {
    let mut v = frames(thorough, |ctx, m| {
        let frame = build(m);
        check(&frame, m).map_err(|e| format!("as built, {}", e))?;
        ctx.steps(2);
        ctx.outcome("round trips");
        round_trip(m, &frame, frame.to_bytes())
    });
    let list = history_frames();
    let n = list.len();
    let depth = if thorough { 5 } else { 4 };
    v.push(Scenario::new(
        "histories",
        format!(
            "all sequences of {} frames out of {} (every type, with and without its parts), \
             encoded first and decoded after, and encoded and decoded in turn",
            depth, n
        ),
        move |ctx| {
            let turn = ctx.flip();
            let mut done: Vec<(&M, Frame, Bytes)> = Vec::with_capacity(depth);
            for _ in 0..depth {
                let m = ctx.pick(&list);
                let f = build(m);
                let b = f.to_bytes();
                ctx.step();
                if turn {
                    round_trip(m, &f, b)?;
                } else {
                    done.push((m, f, b));
                }
                ctx.note(|| m.short());
            }
            for (m, f, b) in done.drain(..).rev() {
                round_trip(m, &f, b)?;
            }
            ctx.outcome("histories");
            Ok(())
        },
    ));
    v.push(twins());
    v.push(after_failures());
    v
}

/// What went wrong before.
fn failure(ctx: &mut Ctx) {
    let kinds = [K::RequestFnf, K::RequestResponse, K::RequestStream, K::RequestChannel, K::Payload, K::Setup];
    match ctx.choose(4) {
        0 => {
            // Metadata longer than its length field can say.
            let mut m = gen::default(*ctx.pick(&kinds));
            m.md = Some(gen::pat(gen::Role::Md, 1 << 24));
            ctx.note(|| format!("{} encoded", m.short()));
            let f = build(&m);
            let _ = explore::guarded(|| f.to_bytes());
        }
        1 => {
            let mut m = gen::default(*ctx.pick(&kinds));
            m.md = Some(gen::pat(gen::Role::Md, 1 << 24));
            ctx.note(|| format!("{} appended", m.short()));
            let f = build(&m);
            let mut buf = BytesMut::new();
            let _ = explore::guarded(move || f.encode(&mut buf));
        }
        2 => {
            // Numbers too wide for their fields.
            let (slot, bits) = *ctx.pick(&[(gen::Slot::Sid, 31u32), (gen::Slot::A, 31), (gen::Slot::A, 63)]);
            let k = *ctx.pick(&spec::KINDS);
            if gen::int_fields(k).contains(&(slot, bits)) {
                let m = gen::default(k);
                ctx.note(|| format!("{} with {:?} too wide", m.short(), slot));
                let _ = explore::guarded(|| build_raw(&m, slot, 1 << bits | 5).to_bytes());
            }
        }
        _ => {
            // A frame cut short or with a length field gone wrong.
            let mut o = vec![];
            gen::shaped(ctx, &mut o, 0, true);
            ctx.note(|| format!("{:02x?} decoded", o));
            let _ = Frame::decode(&mut Bytes::from(o));
        }
    }
}

fn after_failures() -> Scenario {
    let list = history_frames();
    Scenario::new(
        "after-failures",
        format!(
            "each of {} frames, encoded and decoded twice after a failed or refused operation: \
             overlong metadata of every type, every number too wide, every truncation of every \
             shape",
            list.len()
        ),
        move |ctx| {
            failure(ctx);
            let m = ctx.pick(&list);
            ctx.note(|| m.short());
            let f = build(m);
            for _ in 0..2 {
                ctx.steps(2);
                let b = f.to_bytes();
                with_spec(m, |w| same("the wire bytes", &b, w))?;
                round_trip(m, &f, b)?;
            }
            ctx.outcome("round trips");
            Ok(())
        },
    )
}

/// Frames that differ in one place, one after the other, with a malformed one in between.
fn twins() -> Scenario {
    Scenario::new(
        "twins",
        "pairs of frames differing in one byte of one part or one bit of one field, encoded and \
         decoded as A B A, together and in turn, and B after every truncation of A",
        |ctx| {
            let (a, b) = gen::twins(ctx);
            ctx.note(|| format!("{} and {}", a.short(), b.short()));
            ctx.state(&(&a, &b));
            let (fa, fb) = (build(&a), build(&b));
            ctx.steps(3);
            if ctx.flip() {
                let (ba, bb) = (fa.to_bytes(), fb.to_bytes());
                round_trip(&a, &fa, ba.clone())?;
                round_trip(&b, &fb, bb)?;
                round_trip(&a, &fa, ba)?;
                ctx.outcome("together");
            } else {
                round_trip(&a, &fa, fa.to_bytes())?;
                let ba = fa.to_bytes();
                let bb = fb.to_bytes();
                for n in 0..ba.len() {
                    if n < 40 || ba.len() - n < 4 {
                        let _ = Frame::decode(&mut ba.slice(..n));
                    }
                    if n < 40 && n % 5 == 0 || ba.len() - n < 4 {
                        round_trip(&b, &fb, bb.clone())?;
                    }
                }
                round_trip(&b, &fb, bb)?;
                ctx.outcome("in turn");
            }
            Ok(())
        },
    )
}

fn lengths(ctx: &mut Ctx, m: &M, frame: &Frame) -> Outcome {
    // What is already in the buffer, and how much room it has.
    let big = |p: &Option<Bytes>| p.as_ref().map_or(false, |b| b.len() > 70_000);
    let (fill, room) = if big(&m.md) || big(&m.data) {
        (7, 0)
    } else {
        *ctx.pick(&[(0usize, 0usize), (1, 0), (7, 4096), (300, 1)])
    };
    let mut buf = BytesMut::with_capacity(fill + room);
    buf.extend_from_slice(&gen::pat(gen::Role::Token, fill));
    let len = frame.len();
    frame.encode(&mut buf);
    ctx.step();
    let want_prefix = gen::pat(gen::Role::Token, fill);
    if buf.len() < fill || buf[..fill] != want_prefix[..] {
        return Err("encoding changed the bytes already in the buffer".into());
    }
    let added = buf.len() - fill;
    if added != len {
        return Err(format!("length {} reported, {} bytes encoded", len, added));
    }
    let bytes = frame.to_bytes();
    if bytes.len() != len {
        return Err(format!("length {} reported, {} bytes converted", len, bytes.len()));
    }
    same("encoding into a used buffer", &buf[fill..], &bytes)?;
    if frame.is_empty() != (len == 0) {
        return Err("is_empty disagrees with the length".into());
    }
    // The frame's own type, and its payload.
    let (inner, inner_len, empty) = subject::inner_to_bytes(frame);
    same("encoding the inner frame", &inner, &bytes)?;
    if inner_len != len || empty != (len == 0) {
        return Err(format!("the inner frame reports length {}, not {}", inner_len, len));
    }
    let again = buf.len();
    let l = subject::inner_encode(frame, &mut buf);
    if l != len || buf.len() - again != len {
        return Err(format!("encoding again appended {} bytes", buf.len() - again));
    }
    same("encoding twice into one buffer", &buf[again..], &bytes)?;
    if buf[..fill] != want_prefix[..] {
        return Err("encoding again changed the bytes already in the buffer".into());
    }
    if m.k.has_payload() {
        let p = subject::payload(&m.md, &m.data);
        let want = m.md.as_ref().map_or(0, |b| b.len()) + m.data.as_ref().map_or(0, |b| b.len());
        let e: &dyn Encode2 = &p;
        if p.len() != want || e.enc_len() != want || e.enc_bytes().len() != want {
            return Err(format!(
                "the payload reports lengths {} and {}, and encodes as {} bytes instead of {}",
                p.len(),
                e.enc_len(),
                e.enc_bytes().len(),
                want
            ));
        }
        if p.is_empty() != (want == 0) {
            return Err("the payload's is_empty disagrees with its length".into());
        }
    }
    ctx.outcome("lengths agree");
    Ok(())
}

/// `Payload` has inherent and trait methods of the same name.
pub trait Encode2 {
    fn enc_len(&self) -> usize;
    fn enc_bytes(&self) -> Bytes;
}

impl<T: Encode> Encode2 for T {
    fn enc_len(&self) -> usize {
        Encode::len(self)
    }
    fn enc_bytes(&self) -> Bytes {
        Encode::to_bytes(self)
    }
}

pub fn c03(thorough: bool) -> Vec<Scenario> {
    let mut v = frames(thorough, |ctx, m| {
        let frame = build(m);
        lengths(ctx, m, &frame)
    });
    v.push(Scenario::new(
        "decoded",
        "frames decoded from every shape of bytes report the length they encode with",
        move |ctx| {
            let mut o = vec![];
            gen::shaped(ctx, &mut o, 1, true);
            ctx.note(|| format!("{:02x?}", o));
            ctx.state(&o);
            let Ok(f) = Frame::decode(&mut Bytes::from(o)) else {
                ctx.outcome("not a frame");
                return Ok(());
            };
            ctx.step();
            let (b, l, _) = subject::inner_to_bytes(&f);
            if b.len() != f.len() || l != f.len() || f.to_bytes() != b {
                return Err(format!("reports length {} and {}, encodes as {}", f.len(), l, b.len()));
            }
            ctx.outcome("decoded frames");
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "values",
        "all versions over an alphabet, all 24-bit integers: reported and appended length",
        |ctx| {
            let mut buf = BytesMut::new();
            buf.extend_from_slice(b"xyz");
            let want = if ctx.flip() {
                let words = gen::ints(16, 1, 0);
                let v = Version::new(*ctx.pick(&words) as u16, *ctx.pick(&words) as u16);
                v.encode(&mut buf);
                let n = v.len();
                if v.to_bytes().len() != n || v.to_bytes()[..] != buf[3..] || v.is_empty() {
                    return Err("version: lengths differ".into());
                }
                n
            } else {
                let hi = ctx.choose(256) as u32;
                let lows = gen::ints(16, 1, 0);
                let u = binate::frame::U24::from_u32(hi << 16 | *ctx.pick(&lows) as u32);
                u.encode(&mut buf);
                let n = u.len();
                if u.to_bytes().len() != n || u.to_bytes()[..] != buf[3..] || u.is_empty() {
                    return Err("24-bit integer: lengths differ".into());
                }
                n
            };
            ctx.step();
            if buf.len() != 3 + want || &buf[..3] != b"xyz" {
                return Err(format!("length {} reported, {} bytes appended", want, buf.len() - 3));
            }
            Ok(())
        },
    ));
    let list = history_frames();
    let depth = if thorough { 5 } else { 4 };
    v.push(Scenario::new(
        "one-buffer",
        format!("all sequences of {} frames out of {} encoded into one buffer", depth, list.len()),
        move |ctx| {
            let mut buf = BytesMut::new();
            let mut want = Vec::new();
            for _ in 0..depth {
                let m = ctx.pick(&list);
                let f = build(m);
                let b = f.to_bytes();
                let before = buf.len();
                f.encode(&mut buf);
                ctx.step();
                if buf.len() - before != f.len() {
                    return Err(format!(
                        "{}: length {} reported, {} bytes appended",
                        m.short(),
                        f.len(),
                        buf.len() - before
                    ));
                }
                want.extend_from_slice(&b);
                ctx.note(|| m.short());
            }
            ctx.outcome("sequences");
            same("the frames in one buffer", &buf, &want)
        },
    ));
    v
}

// ---- C22 ----

const DEBUG: bool = cfg!(debug_assertions);

/// One numeric constructor argument: how to build a frame with it.
struct Num {
    bits: u32,
    /// Zero is outside the documented range.
    nonzero: bool,
    k: K,
    slot: gen::Slot,
}

fn numbers() -> Vec<Num> {
    let mut v = vec![];
    for k in spec::KINDS {
        for (slot, bits) in gen::int_fields(k) {
            if bits == 16 {
                continue;
            }
            let nonzero = match slot {
                gen::Slot::A => {
                    matches!(k, K::RequestN | K::RequestStream | K::RequestChannel | K::Setup)
                }
                gen::Slot::B => k == K::Setup,
                _ => false,
            };
            v.push(Num { bits, nonzero, k, slot });
        }
    }
    v
}

/// The frame with the raw, possibly too wide, number.
fn build_raw(m: &M, slot: gen::Slot, v: u64) -> Frame {
    // `build` passes the model's numbers through to the constructors unchanged.
    let mut m = m.clone();
    slot.set(&mut m, v);
    build(&m)
}

fn out_of_range(ctx: &mut Ctx, num: &Num, m: &M, raw: u64) -> Outcome {
    let mask = (1u64 << num.bits) - 1;
    let too_wide = raw & !mask != 0;
    let built = explore::guarded(|| build_raw(m, num.slot, raw));
    ctx.step();
    let low = raw & mask;
    if !too_wide {
        if low == 0 && num.nonzero {
            ctx.outcome("zero: unspecified");
            return Ok(());
        }
        let f = built.map_err(|e| format!("in-range {:#x} panicked: {}", raw, e))?;
        ctx.outcome("in range");
        let mut want = m.clone();
        num.slot.set(&mut want, raw);
        check(&f, &want)?;
        return with_spec(&want, |w| same("the wire bytes", &f.to_bytes(), w));
    }
    if DEBUG {
        return match built {
            Err(_) => {
                ctx.outcome("refused");
                Ok(())
            }
            Ok(f) => Err(format!("a debug build accepted {:#x}: {}", raw, clip(&f))),
        };
    }
    let f = built.map_err(|e| format!("an optimised build panicked at {:#x}: {}", raw, e))?;
    ctx.outcome("masked");
    let mut want = m.clone();
    num.slot.set(&mut want, low);
    check(&f, &want)?;
    with_spec(&want, |w| same("the wire bytes", &f.to_bytes(), w))
}

pub fn c22(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let nums = Arc::new(numbers());
    let n2 = nums.clone();
    v.push(Scenario::new(
        "arguments",
        format!(
            "{} build: every 31/63-bit constructor argument of every type ({} of them) x powers of \
             two +-1 and byte patterns up to the full width of the argument x shapes of the rest",
            if DEBUG { "debug" } else { "optimised" },
            nums.len()
        ),
        move |ctx| {
            let num = ctx.pick(&n2[..]);
            let width = if num.bits == 63 { 64 } else { 32 };
            let mut vals = gen::ints(width, 1, 0);
            vals.extend(gen::ints(num.bits, 1, 0).iter().map(|x| x | 1u64 << num.bits.min(63)));
            vals.retain(|v| width == 64 || *v <= u32::MAX as u64);
            let raw = *ctx.pick(&vals);
            let m = gen::model(ctx, num.k, &Alpha::tiny(), 2);
            if num.k == K::Error {
                let code = m.a as u32;
                if num.slot == gen::Slot::Sid
                    && (spec::CONNECTION_CODES.contains(&code) || spec::STREAM_CODES.contains(&code))
                {
                    return Ok(());
                }
            }
            ctx.state(&(num.k, num.slot as u8, raw, &m));
            ctx.note(|| format!("{} with {:?} := {:#x}", m.short(), num.slot, raw));
            out_of_range(ctx, num, &m, raw)
        },
    ));
    let n3 = nums.clone();
    v.push(Scenario::new(
        "pairs",
        "two numeric arguments of one frame, both over boundary values in and out of range",
        move |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let list: Vec<&Num> = n3.iter().filter(|n| n.k == k).collect();
            if list.len() < 2 {
                return Ok(());
            }
            let i = ctx.choose(list.len() - 1);
            let j = i + 1 + ctx.choose(list.len() - 1 - i);
            let (x, y) = (list[i], list[j]);
            let vals = |n: &Num| -> Vec<u64> {
                let top = 1u64 << n.bits.min(63);
                let mut v = vec![1u64, 5, (1u64 << n.bits) - 1, 1 << (n.bits - 1), 0x0102030405060708 & ((1 << n.bits) - 1)];
                if n.bits < 32 || n.bits == 63 {
                    let w: Vec<u64> = v.iter().map(|v| v | top).collect();
                    v.extend(w);
                    v.push(top);
                }
                v
            };
            let a = *ctx.pick(&vals(x));
            let b = *ctx.pick(&vals(y));
            let mut m = gen::default(k);
            if k == K::Error {
                m.sid = 1;
            }
            ctx.note(|| format!("{:?} {:?}:={:#x} {:?}:={:#x}", k, x.slot, a, y.slot, b));
            let maskx = (1u64 << x.bits) - 1;
            let masky = (1u64 << y.bits) - 1;
            let wide = a & !maskx != 0 || b & !masky != 0;
            let mut raw = m.clone();
            x.slot.set(&mut raw, a);
            y.slot.set(&mut raw, b);
            ctx.state(&raw);
            let built = explore::guarded(|| build(&raw));
            ctx.step();
            x.slot.set(&mut m, a & maskx);
            y.slot.set(&mut m, b & masky);
            match built {
                Err(e) if wide && DEBUG => {
                    let _ = e;
                    ctx.outcome("refused");
                    Ok(())
                }
                Err(e) => Err(format!("panicked: {}", e)),
                Ok(f) if wide && DEBUG => Err(format!("a debug build accepted it: {}", clip(&f))),
                Ok(f) => {
                    ctx.outcome(if wide { "masked" } else { "in range" });
                    check(&f, &m)?;
                    with_spec(&m, |w| same("the wire bytes", &f.to_bytes(), w))
                }
            }
        },
    ));
    v.push(Scenario::new(
        "payload-flags",
        "PAYLOAD frames given every value of the flags type: only Follows, Complete and Next are \
         taken over, and Metadata follows the payload",
        |ctx| {
            let bits = ctx.choose(1024) as u16;
            let md = ctx.pick(&[None, Some(0usize), Some(2)]).map(|n| gen::pat(gen::Role::Md, n));
            let data = ctx.pick(&[None, Some(1usize)]).map(|n| gen::pat(gen::Role::Data, n));
            let flags = Flags::from_bits_truncate(bits);
            let f = Frame::Payload(PayloadFrame::new(9, flags, subject::payload(&md, &data)));
            ctx.step();
            let mut m = M::new(K::Payload);
            m.sid = 9;
            m.flags = bits & (spec::F_80 | spec::F_40 | spec::F_20);
            m.md = md;
            m.data = data;
            ctx.note(|| m.short());
            ctx.state(&(bits, &m));
            check(&f, &m)?;
            with_spec(&m, |w| same("the wire bytes", &f.to_bytes(), w))
        },
    ));
    if thorough {
        let n4 = nums;
        v.push(Scenario::new(
            "all-32-bit-arguments",
            "every 32-bit value of every 31-bit constructor argument (in a debug build, every \
             64th of the refused ones)",
            move |ctx| {
                let list: Vec<&Num> = n4.iter().filter(|n| n.bits <= 32 && n.k != K::Setup).collect();
                let num = *ctx.pick(&list);
                let block = ctx.choose(1 << 12) as u64;
                let mut m = gen::default(num.k);
                m.md = m.md.filter(|_| num.k == K::MetadataPush);
                m.data = None;
                for low in 0..1u64 << 20 {
                    let raw = block << 20 | low;
                    if num.k == K::Error && num.slot == gen::Slot::Sid {
                        m.a = 0x301;
                    }
                    let wide = num.bits == 31 && raw >> 31 != 0;
                    if DEBUG && wide && raw & 63 != 0 {
                        continue;
                    }
                    if raw == 0 {
                        continue;
                    }
                    if low & 0xFFF == 0 {
                        ctx.heartbeat();
                    }
                    out_of_range_quiet(num, &m, raw)?;
                }
                ctx.steps(1 << 20);
                ctx.bulk_states(1 << 20);
                Ok(())
            },
        ));
    }
    v
}

fn out_of_range_quiet(num: &Num, m: &M, raw: u64) -> Outcome {
    let mask = (1u64 << num.bits) - 1;
    let low = raw & mask;
    let wide = raw != low;
    if low == 0 && num.nonzero && !wide {
        return Ok(());
    }
    if wide && DEBUG {
        return match explore::guarded(|| build_raw(m, num.slot, raw)) {
            Err(_) => Ok(()),
            Ok(f) => Err(format!("a debug build accepted {:#x}: {}", raw, clip(&f))),
        };
    }
    let f = build_raw(m, num.slot, raw);
    let mut want = m.clone();
    num.slot.set(&mut want, low);
    with_spec(&want, |w| same("the wire bytes", &f.to_bytes(), w))
}
