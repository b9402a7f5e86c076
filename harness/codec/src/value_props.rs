//! C10, C16-C19, C23, C24: payloads, chunks and plain values.
use crate::gen::{self, Role};
use crate::spec::{self, K, M};
use crate::subject::{self, clip};
use binate::frame::codec::*;
use binate::frame::{Encode, Flags, Frame, FrameType, Version, U24};
use binate::mimetype::WellKnownMimeType;
use binate::prelude::PayloadChunks;
use binate::{Payload, PayloadBuilder};
use bytes::{Bytes, BytesMut};
use explore::{guarded, Ctx, Outcome, Scenario};
use std::sync::OnceLock;

// ---- C10 ----

/// The chunks of one part: nothing if absent, one empty chunk if empty.
fn pieces(part: &Option<Bytes>, size: usize) -> Vec<Bytes> {
    match part {
        None => vec![],
        Some(b) if b.is_empty() => vec![b.clone()],
        Some(b) => {
            let mut v = vec![];
            let mut at = 0;
            while at < b.len() {
                let to = at + size.min(b.len() - at);
                v.push(b.slice(at..to));
                at = to;
            }
            v
        }
    }
}

struct Chunked {
    md: Vec<Bytes>,
    data: Vec<Bytes>,
    at: usize,
}

impl Chunked {
    fn new(md: &Option<Bytes>, data: &Option<Bytes>, size: usize) -> Chunked {
        Chunked { md: pieces(md, size), data: pieces(data, size), at: 0 }
    }
    fn total(&self) -> usize {
        self.md.len().max(self.data.len())
    }
    fn left(&self) -> usize {
        self.total() - self.at.min(self.total())
    }
    fn check(&self, it: &PayloadChunks) -> Outcome {
        let l = self.left();
        if it.len() != l || it.size_hint() != (l, Some(l)) {
            return Err(format!(
                "after {} chunks {} are left, but the length is {} and the size hint {:?}",
                self.at,
                l,
                it.len(),
                it.size_hint()
            ));
        }
        Ok(())
    }
    fn is(&self, i: usize, got: &Option<Payload>) -> Outcome {
        match got {
            None if i >= self.total() => Ok(()),
            Some(p) if i < self.total() => {
                if p.metadata() != self.md.get(i) || p.data() != self.data.get(i) {
                    let l = |b: Option<&Bytes>| b.map(|b| b.len());
                    return Err(format!(
                        "chunk {} is {} (metadata {:?} bytes, data {:?} bytes), not metadata {:?} bytes and data {:?} bytes of the payload",
                        i,
                        clip(p),
                        l(p.metadata()),
                        l(p.data()),
                        l(self.md.get(i)),
                        l(self.data.get(i))
                    ));
                }
                Ok(())
            }
            _ => Err(format!("chunk {} of {} is {}", i, self.total(), clip(got))),
        }
    }
}

fn drain(it: &mut PayloadChunks, m: &mut Chunked, check_every: usize) -> Outcome {
    m.check(it)?;
    loop {
        let p = it.next();
        m.is(m.at, &p)?;
        if p.is_none() {
            break;
        }
        m.at += 1;
        if check_every == 1 || m.at % check_every == 0 || m.left() < 3 {
            m.check(it)?;
        }
    }
    for _ in 0..3 {
        if let Some(p) = it.next() {
            return Err(format!("after its end the iterator yields {}", clip(&p)));
        }
        m.check(it)?;
    }
    Ok(())
}

fn opt_len(ctx: &mut Ctx, max: usize) -> Option<usize> {
    match ctx.choose(max + 2) {
        0 => None,
        n => Some(n - 1),
    }
}

/// Zeros of address space; only their addresses and lengths matter.
fn vast() -> Bytes {
    static P: OnceLock<Bytes> = OnceLock::new();
    P.get_or_init(|| Bytes::from_static(explore::address_space((1usize << 33) + 4096))).clone()
}

pub fn c10(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let max = if thorough { 160 } else { 80 };
    v.push(Scenario::new(
        "small",
        format!("metadata and data absent or of 0 to {} bytes, chunk sizes 1 to {}", max, max + 5),
        move |ctx| {
            let md = opt_len(ctx, max).map(|n| gen::pat(Role::Md, n));
            let data = opt_len(ctx, max).map(|n| gen::pat(Role::Data, n));
            let size = 1 + ctx.choose(max + 5);
            ctx.state(&(&md, &data, size));
            ctx.note(|| {
                format!("metadata {:?}, data {:?} bytes by {}", md.as_ref().map(|b| b.len()), data.as_ref().map(|b| b.len()), size)
            });
            let mut m = Chunked::new(&md, &data, size);
            let mut it = subject::payload(&md, &data).chunks(size);
            ctx.steps(m.total() as u64 + 4);
            ctx.outcome(if m.total() > 1 { "several chunks" } else { "one or none" });
            drain(&mut it, &mut m, 1)
        },
    ));
    v.push(Scenario::new(
        "shared memory",
        "metadata and data that are pieces of up to 5 bytes of one buffer of memory (of three kinds): side by side, apart, \
         overlapping, one in the other, or the same; chunk sizes 1 to 6",
        |ctx| {
            let b = gen::pieces(ctx, 2, 0, 5);
            let (md, data) = (Some(b[0].clone()), Some(b[1].clone()));
            let size = 1 + ctx.choose(6);
            ctx.state(&(&md, &data, size));
            ctx.note(|| format!("{:?} {:?} by {}", md, data, size));
            let mut m = Chunked::new(&md, &data, size);
            let mut it = subject::payload(&md, &data).chunks(size);
            ctx.steps(m.total() as u64 + 4);
            drain(&mut it, &mut m, 1)
        },
    ));
    let (pmax, smax, ops) = if thorough { (10, 11, 5) } else { (8, 9, 4) };
    v.push(Scenario::new(
        "operations",
        format!("parts absent or of 0 to {} bytes, chunk sizes 1 to {}, every sequence of iterator operations (next, nth, take, skip, step_by, count, last, collect, fold, sizes)", pmax, smax),
        move |ctx| {
            let md = opt_len(ctx, pmax).map(|n| gen::pat(Role::Md, n));
            let data = opt_len(ctx, pmax).map(|n| gen::pat(Role::Data, n));
            let size = 1 + ctx.choose(smax);
            let mut m = Chunked::new(&md, &data, size);
            let mut it = subject::payload(&md, &data).chunks(size);
            ctx.note(|| {
                format!("metadata {:?}, data {:?} bytes by {}", md.as_ref().map(|b| b.len()), data.as_ref().map(|b| b.len()), size)
            });
            for _ in 0..ops {
                m.check(&it)?;
                ctx.step();
                match ctx.choose(12) {
                    0 => break,
                    1 => {
                        ctx.note(|| "next".into());
                        m.is(m.at, &it.next())?;
                        m.at += 1;
                    }
                    n @ 2..=4 => {
                        ctx.note(|| format!("nth({})", n - 2));
                        let p = it.nth(n - 2);
                        m.is(m.at + n - 2, &p)?;
                        m.at += n - 1;
                    }
                    8 => {
                        let n = *ctx.pick(&[usize::MAX, 7, 3]);
                        ctx.note(|| format!("nth({})", n));
                        let p = it.nth(n);
                        m.is(m.at.saturating_add(n), &p)?;
                        m.at = m.at.saturating_add(n).saturating_add(1).min(m.total());
                    }
                    9 => {
                        let n = ctx.choose(3);
                        ctx.note(|| format!("by_ref().take({})", n));
                        for p in it.by_ref().take(n) {
                            m.is(m.at, &Some(p))?;
                            m.at += 1;
                        }
                    }
                    10 => {
                        let (skip, step) = (ctx.choose(3), 1 + ctx.choose(3));
                        ctx.note(|| format!("skip({}).step_by({})", skip, step));
                        let mut at = m.at + skip;
                        for p in it.skip(skip).step_by(step) {
                            m.is(at, &Some(p))?;
                            at += step;
                        }
                        return if at < m.total() { Err(format!("stepping ended at {} of {}", at, m.total())) } else { Ok(()) };
                    }
                    5 => {
                        ctx.note(|| "count".into());
                        let (l, c) = (m.left(), it.count());
                        return if l == c { Ok(()) } else { Err(format!("{} chunks are left, count says {}", l, c)) };
                    }
                    6 => {
                        ctx.note(|| "last".into());
                        let p = it.last();
                        return if m.left() == 0 {
                            if p.is_none() { Ok(()) } else { Err("a last chunk of none".into()) }
                        } else {
                            m.is(m.total() - 1, &p)
                        };
                    }
                    7 => {
                        ctx.note(|| "collect".into());
                        let (at, l) = (m.at, m.left());
                        let all: Vec<Payload> = it.collect();
                        if all.len() != l {
                            return Err(format!("{} chunks are left, {} collected", l, all.len()));
                        }
                        for (i, p) in all.into_iter().enumerate() {
                            m.is(at + i, &Some(p))?;
                        }
                        return Ok(());
                    }
                    _ => {
                        ctx.note(|| "fold".into());
                        let at = m.at;
                        let (n, bad) = it.fold((0, None), |(n, bad), p| {
                            let r = m.is(at + n, &Some(p));
                            (n + 1, bad.or(r.err()))
                        });
                        if let Some(b) = bad {
                            return Err(b);
                        }
                        return if n == m.left() { Ok(()) } else { Err(format!("folded over {} of {} chunks", n, m.left())) };
                    }
                }
            }
            drain(&mut it, &mut m, 1)
        },
    ));
    v.push(Scenario::new(
        "interleaved",
        "two iterators over clones of one payload (and over two payloads sharing a buffer), all \
         interleavings of their steps",
        |ctx| {
            let n = ctx.choose(7);
            let size = 1 + ctx.choose(3);
            let size2 = 1 + ctx.choose(3);
            let md = Some(gen::pat(Role::Md, n));
            let data = if ctx.flip() { Some(gen::pat(Role::Data, 5)) } else { md.clone() };
            let p = subject::payload(&md, &data);
            let mut a = p.clone().chunks(size);
            let mut b = p.clone().chunks(size2);
            let mut ma = Chunked::new(&md, &data, size);
            let mut mb = Chunked::new(&md, &data, size2);
            while ma.left() + mb.left() > 0 {
                ctx.step();
                let first = ma.left() > 0 && (mb.left() == 0 || ctx.flip());
                let (it, m) = if first { (&mut a, &mut ma) } else { (&mut b, &mut mb) };
                m.is(m.at, &it.next())?;
                m.at += 1;
                ma.check(&a)?;
                mb.check(&b)?;
            }
            if p.metadata() != md.as_ref() || p.data() != data.as_ref() {
                return Err("chunking a clone changed the payload".into());
            }
            ctx.outcome("interleaved");
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "large",
        "parts of up to 2^25 bytes with sizes around powers of two, chunk sizes from 65535 to the \
         largest integer",
        move |ctx| {
            let mut sizes = vec![];
            for p in [16, 20, 24, 25] {
                for d in [-1i64, 0, 1] {
                    sizes.push(((1i64 << p) + d) as usize);
                }
            }
            let chunk = *ctx.pick(&[
                65_535usize, 65_536, 65_537, 1 << 20, 3_000_001, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 1 << 25,
                1 << 31, u32::MAX as usize, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX,
            ]);
            let m = *ctx.pick(&sizes);
            let d = *ctx.pick(&sizes);
            let which = ctx.choose(3);
            let md = if which != 1 { Some(gen::pat(Role::Md, m)) } else { None };
            let data = if which != 0 { Some(gen::pat(Role::Data, d)) } else { None };
            ctx.state(&(m, d, which, chunk));
            ctx.note(|| format!("metadata {:?}, data {:?} bytes by {}", md.as_ref().map(|b| b.len()), data.as_ref().map(|b| b.len()), chunk));
            let mut model = Chunked::new(&md, &data, chunk);
            let mut it = subject::payload(&md, &data).chunks(chunk);
            ctx.steps(model.total() as u64 + 4);
            // Comparing chunks that share memory is cheap enough only for some.
            by_address(&mut it, &mut model)
        },
    ));
    v.push(Scenario::new(
        "lengths",
        "the number of chunks before the first and after it, for parts of 2^24 +- 300, 2^25 +- 300 \
         and other sizes, by chunk sizes 1 to 8 and others",
        move |ctx| {
            let base = *ctx.pick(&[1usize << 24, (1 << 25) - 300, 1 << 22, 10_000_000, 16_777_216 * 3 / 2]);
            let len = base - 300 + ctx.choose(601);
            let chunk = *ctx.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 10, 100, 255, 256, 257, 1000, 65536]);
            let which = ctx.choose(3);
            let p = if which == 2 { None } else { Some(gen::pat(Role::Md, len)) };
            let q = if which == 0 { None } else { Some(gen::pat(Role::Data, len - 299)) };
            let count = |b: &Option<Bytes>| b.as_ref().map_or(0, |b| (b.len() / chunk) + usize::from(b.len() % chunk != 0));
            let want = count(&p).max(count(&q));
            ctx.state(&(len, chunk, which));
            ctx.note(|| format!("metadata {:?}, data {:?} bytes by {}", p.as_ref().map(|b| b.len()), q.as_ref().map(|b| b.len()), chunk));
            let mut it = subject::payload(&p, &q).chunks(chunk);
            ctx.steps(3);
            if it.len() != want || it.size_hint() != (want, Some(want)) {
                return Err(format!("{} chunks, but length {} and size hint {:?}", want, it.len(), it.size_hint()));
            }
            it.next();
            it.nth(2);
            let want = want.saturating_sub(4);
            if it.len() != want || it.size_hint() != (want, Some(want)) {
                return Err(format!("{} chunks left, but length {} and size hint {:?}", want, it.len(), it.size_hint()));
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "vast",
        "parts of around 2^31, 2^32 and 2^33 bytes",
        move |ctx| {
            let size = |ctx: &mut Ctx| *ctx.pick(&[
                0usize, 5, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 4096, (1 << 33) + 3,
            ]);
            let md = Some(vast().slice(..size(ctx)));
            let data = Some(vast().slice(..size(ctx)));
            let chunk = *ctx.pick(&[1usize << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, usize::MAX]);
            ctx.state(&(md.as_ref().unwrap().len(), data.as_ref().unwrap().len(), chunk));
            ctx.note(|| format!("metadata {:?}, data {:?} bytes by {}", md.as_ref().map(|b| b.len()), data.as_ref().map(|b| b.len()), chunk));
            let mut model = Chunked::new(&md, &data, chunk);
            let mut it = subject::payload(&md, &data).chunks(chunk);
            ctx.steps(model.total() as u64 + 4);
            ctx.outcome("vast");
            by_address(&mut it, &mut model)
        },
    ));
    v.push(Scenario::new("zero", "a chunk size of zero panics", |ctx| {
        let md = opt_len(ctx, 3).map(|n| gen::pat(Role::Md, n));
        let data = opt_len(ctx, 3).map(|n| gen::pat(Role::Data, n));
        let p = subject::payload(&md, &data);
        ctx.step();
        match guarded(|| drop(p.chunks(0))) {
            Err(_) => Ok(()),
            Ok(()) => Err("a chunk size of zero is accepted".into()),
        }
    }));
    v
}

/// Like `drain`, but large chunks that are the very memory of the payload are not read.
fn by_address(it: &mut PayloadChunks, m: &mut Chunked) -> Outcome {
    let same = |a: Option<&Bytes>, b: Option<&Bytes>| match (a, b) {
        (Some(a), Some(b)) => {
            a.len() == b.len()
                && (a.as_ptr() == b.as_ptr() || (a.len() < 1 << 26 && a == b))
        }
        (None, None) => true,
        _ => false,
    };
    m.check(it)?;
    loop {
        let p = it.next();
        let (md, data) = p.as_ref().map_or((None, None), |p| (p.metadata(), p.data()));
        if p.is_some() != (m.at < m.total())
            || !same(md, m.md.get(m.at))
            || !same(data, m.data.get(m.at))
        {
            let l = |b: Option<&Bytes>| b.map(|b| b.len());
            return Err(format!(
                "chunk {} of {}: metadata {:?} and data {:?} bytes instead of {:?} and {:?}, or other bytes",
                m.at, m.total(), l(md), l(data), l(m.md.get(m.at)), l(m.data.get(m.at))
            ));
        }
        if p.is_none() {
            break;
        }
        m.at += 1;
        m.check(it)?;
    }
    if it.next().is_some() {
        return Err("the iterator goes on after its end".into());
    }
    m.check(it)
}

// ---- C16 ----

fn u24(v: u32) -> Outcome {
    let a = U24::from_u32(v);
    let b = U24::from_usize(v as usize);
    let c = U24::new((v >> 16) as u8, v as u16);
    for (how, x) in [("from_u32", a), ("from_usize", b), ("new", c)] {
        if x.into_u32() != v || x.into_usize() != v as usize {
            return Err(format!("{:#x} through {} becomes {:#x} and {:#x}", v, how, x.into_u32(), x.into_usize()));
        }
    }
    if a != b || a != c {
        return Err(format!("{:#x} through from_u32, from_usize and new are not equal", v));
    }
    Ok(())
}

fn refused(what: &str, ok: Result<U24, String>) -> Outcome {
    match ok {
        Err(_) => Ok(()),
        Ok(x) => Err(format!("{} is accepted as {:#x}", what, x.into_u32())),
    }
}

pub fn c16(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(Scenario::new(
        "all-values",
        "all 2^24 values: conversions and encoding",
        |ctx| {
            let block = ctx.choose(1 << 10) as u32;
            let mut buf = BytesMut::with_capacity(8);
            for low in 0..1u32 << 14 {
                let v = block << 14 | low;
                u24(v)?;
                buf.clear();
                let x = U24::from_u32(v);
                x.encode(&mut buf);
                if buf[..] != v.to_be_bytes()[1..] || x.len() != 3 {
                    return Err(format!("{:#x} encodes as {:02x?}", v, &buf[..]));
                }
                if low & 0xFF == 0 && x.to_bytes()[..] != v.to_be_bytes()[1..] {
                    return Err(format!("{:#x} converts to bytes {:02x?}", v, &x.to_bytes()[..]));
                }
            }
            ctx.note(|| format!("values {:#x} to {:#x}", block << 14, block << 14 | 0x3FFF));
            ctx.steps(1 << 14);
            ctx.bulk_states(1 << 14);
            ctx.outcome("blocks of 2^14 values");
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "too-large",
        "values above 2^24-1: the first 65536, all 16-bit windows of 32 and 64 bits, each with low \
         bits that would fit: refused",
        move |ctx| {
            let block = ctx.choose(1 << 8) as u64;
            let which = ctx.choose(8);
            let low = *ctx.pick(&[0u64, 5, 0xFFFFFF]);
            for w in 0..1u64 << 8 {
                let w = block << 8 | w;
                let (big, wide) = match which {
                    0 => ((1 << 24) + w, false),
                    1 => (w << 24, false),
                    2 => (w << 16, false),
                    3 => (w << 24, true),
                    4 => (w << 32, true),
                    5 => (w << 40, true),
                    6 => (w << 48, true),
                    _ => (u64::MAX - w, true),
                };
                let val = if which == 0 || which == 7 { big } else { big | low };
                if val < 1 << 24 {
                    continue;
                }
                ctx.step();
                if !wide && val <= u32::MAX as u64 {
                    refused(&format!("{:#x} from u32", val), guarded(|| U24::from_u32(val as u32)))?;
                }
                refused(&format!("{:#x} from usize", val), guarded(|| U24::from_usize(val as usize)))?;
            }
            ctx.outcome("blocks refused");
            Ok(())
        },
    ));
    if thorough {
        v.push(Scenario::new(
            "too-large-32-bit",
            "one value in 64 of all 32-bit values above 2^24-1 (all residues of the upper 26 bits): refused",
            |ctx| {
                let block = ctx.choose(1 << 12) as u32;
                for w in 0..1u32 << 14 {
                    let val = block << 20 | w << 6 | (w ^ block) & 0x3F;
                    if val < 1 << 24 {
                        continue;
                    }
                    refused(&format!("{:#x} from u32", val), guarded(|| U24::from_u32(val)))?;
                    if w & 0xFFF == 0 {
                        ctx.heartbeat();
                    }
                }
                ctx.steps(1 << 14);
                Ok(())
            },
        ));
    }
    v.push(Scenario::new(
        "equality",
        "all pairs over boundary values: equal exactly if the values are",
        |ctx| {
            let vals: Vec<u32> = gen::ints(24, 1, 0).into_iter().map(|v| v as u32).collect();
            let (a, b) = (*ctx.pick(&vals), *ctx.pick(&vals));
            ctx.step();
            ctx.state(&(a, b));
            let (x, y) = (U24::from_u32(a), U24::from_usize(b as usize));
            if (x == y) != (a == b) {
                return Err(format!("{:#x} and {:#x} compare wrongly", a, b));
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "metadata",
        "frames whose metadata is as long as a 24-bit length can say, and longer: the latter are \
         never encoded with another length",
        |ctx| {
            let k = *ctx.pick(&[
                K::RequestFnf, K::RequestResponse, K::RequestStream, K::RequestChannel, K::Payload, K::Setup,
            ]);
            let n = *ctx.pick(&[(1usize << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 0x10000, 1 << 25]);
            let mut m = gen::default(k);
            m.md = Some(gen::pat(Role::Md, n));
            ctx.note(|| m.short());
            ctx.state(&(k, n));
            ctx.step();
            let f = subject::build(&m);
            match guarded(|| f.to_bytes()) {
                Ok(b) if n < 1 << 24 => {
                    let mut w = vec![];
                    spec::encode(&m, &mut w);
                    ctx.outcome("encoded");
                    if b[..] == w[..] { Ok(()) } else { Err("encoded wrongly".into()) }
                }
                Err(p) if n < 1 << 24 => Err(format!("metadata of {} bytes is refused: {}", n, p)),
                Ok(b) => Err(format!("metadata of {} bytes is encoded, starting {:02x?}", n, &b[..16])),
                Err(_) => {
                    ctx.outcome("refused");
                    Ok(())
                }
            }
        },
    ));
    v
}

// ---- C17 ----

fn compare(a: (u16, u16), b: (u16, u16)) -> Outcome {
    let (x, y) = (Version::new(a.0, a.1), Version::new(b.0, b.1));
    let want = a.cmp(&b);
    let fail = |what: &str| Err(format!("{}.{} and {}.{}: {} is wrong", a.0, a.1, b.0, b.1, what));
    if x.cmp(&y) != want {
        return fail("cmp");
    }
    if x.partial_cmp(&y) != Some(want) {
        return fail("partial_cmp");
    }
    if (x == y) != (a == b) || (x != y) == (a == b) {
        return fail("equality");
    }
    if (x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b) {
        return fail("an operator");
    }
    let t = |v: Version| (v.major(), v.minor());
    if t(x.max(y)) != a.max(b) || t(x.min(y)) != a.min(b) {
        return fail("min or max");
    }
    Ok(())
}

fn version(v: (u16, u16)) -> Outcome {
    let x = Version::new(v.0, v.1);
    if x.major() != v.0 || x.minor() != v.1 {
        return Err(format!("{}.{} reads back as {}.{}", v.0, v.1, x.major(), x.minor()));
    }
    if x.to_string() != format!("{}.{}", v.0, v.1) {
        return Err(format!("{}.{} is shown as {}", v.0, v.1, x));
    }
    let b = x.to_bytes();
    if b[..] != [(v.0 >> 8) as u8, v.0 as u8, (v.1 >> 8) as u8, v.1 as u8] || x.len() != 4 {
        return Err(format!("{}.{} encodes as {:02x?}", v.0, v.1, &b[..]));
    }
    Ok(())
}

pub fn c17(thorough: bool) -> Vec<Scenario> {
    let mut words: Vec<u16> = vec![];
    for p in 0..16 {
        for d in [-1i32, 0, 1] {
            words.push(((1i32 << p) + d) as u16);
        }
    }
    words.extend([0, 9, 10, 99, 100, 0xFFFF, 0xFFFE, 0x7F7F, 0x0102, 0x0201]);
    words.sort();
    words.dedup();
    let mut v = vec![];
    let w = words.clone();
    v.push(Scenario::new(
        "pairs",
        format!("all pairs of versions over {} boundary numbers: every comparison", words.len()),
        move |ctx| {
            let a = (*ctx.pick(&w), *ctx.pick(&w));
            for &c in &w {
                for &d in &w {
                    compare(a, (c, d))?;
                }
            }
            ctx.note(|| format!("{}.{} against all", a.0, a.1));
            ctx.steps((w.len() * w.len()) as u64);
            ctx.bulk_states((w.len() * w.len()) as u64);
            ctx.outcome("versions compared with all others");
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "numbers",
        "every major number with boundary minor numbers and the reverse: read, show, encode, and \
         compare with neighbours",
        |ctx| {
            let n = ctx.choose(65536) as u16;
            let o = *ctx.pick(&[0u16, 1, 2, 0x7FFF, 0x8000, 0xFFFF, 258, 10]);
            let v = if ctx.flip() { (o, n) } else { (n, o) };
            ctx.state(&v);
            ctx.note(|| format!("{}.{}", v.0, v.1));
            ctx.steps(5);
            version(v)?;
            for other in [
                (v.0, v.1.wrapping_add(1)),
                (v.0.wrapping_add(1), v.1),
                (v.1, v.0),
                (v.0.wrapping_add(1), v.1.wrapping_sub(1)),
                (v.0 ^ 0x8000, v.1),
                (v.0, v.1 ^ 0x8000),
                (v.0 ^ 0xFF, v.1 ^ 0xFF),
                v,
            ] {
                compare(v, other)?;
                compare(other, v)?;
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "order",
        "all triples of versions over 5 numbers: sorting, clamping, and the laws of a total order",
        |ctx| {
            let w = [0u16, 1, 2, 0x8000, 0xFFFF];
            let mut t = vec![];
            for _ in 0..3 {
                t.push((*ctx.pick(&w), *ctx.pick(&w)));
            }
            ctx.state(&t);
            ctx.step();
            let mut s: Vec<Version> = t.iter().map(|v| Version::new(v.0, v.1)).collect();
            let (a, b, c) = (s[0], s[1], s[2]);
            if a <= b && b <= c && !(a <= c) || a.cmp(&b) != b.cmp(&a).reverse() {
                return Err(format!("{:?}: not a total order", t));
            }
            if a <= b && c.clamp(a, b) != c.max(a).min(b) {
                return Err(format!("{:?}: clamp", t));
            }
            s.sort();
            t.sort();
            if s.iter().map(|v| (v.major(), v.minor())).ne(t.iter().copied()) {
                return Err(format!("{:?} sorts as {:?}", t, s));
            }
            Ok(())
        },
    ));
    v.push(Scenario::new("default", "the default version is 1.0", |ctx| {
        ctx.step();
        let d = Version::default();
        if (d.major(), d.minor()) == (1, 0) && d == Version::new(1, 0) { Ok(()) } else { Err(format!("the default is {}", d)) }
    }));
    v.push(Scenario::new(
        "all",
        format!("all 2^32 versions: read back, encoded, compared with {} others", if thorough { 209 } else { 9 }),
        move |ctx| {
            let major = ctx.choose(65536) as u16;
            let mut buf = BytesMut::with_capacity(8);
            for minor in 0..=65535u16 {
                let v = (major, minor);
                let x = Version::new(major, minor);
                buf.clear();
                x.encode(&mut buf);
                if x.major() != major
                    || x.minor() != minor
                    || buf[..] != [(major >> 8) as u8, major as u8, (minor >> 8) as u8, minor as u8]
                {
                    return version(v);
                }
                for o in [
                    (0, 0), (1, 0), (0, 1), (0xFFFF, 0xFFFF), (0x7FFF, 0x8000), (0x8000, 0x7FFF),
                    (minor, major), (major, !minor), (!major, minor),
                ] {
                    if x.cmp(&Version::new(o.0, o.1)) != v.cmp(&o) || (x == Version::new(o.0, o.1)) != (v == o) {
                        return compare(v, o);
                    }
                }
            }
            // And with every version that is near a power of two off, in one number or both.
            for minor in 0..if thorough { 65536 } else { 0 } {
                let v = (major, minor as u16);
                let x = Version::new(v.0, v.1);
                for k in 0..200u32 {
                    let (i, j) = (k % 16, k / 16);
                    let o = (v.0.wrapping_add(1 << i), if j == 12 { v.1 } else { v.1.wrapping_sub(1 << j) });
                    if x.cmp(&Version::new(o.0, o.1)) != v.cmp(&o) || (x == Version::new(o.0, o.1)) != (v == o) {
                        return compare(v, o);
                    }
                }
            }
            ctx.heartbeat();
            ctx.steps(65536);
            ctx.bulk_states(65536);
            Ok(())
        },
    ));
    v
}

// ---- C18 ----

const TYPES: [(FrameType, u16); 15] = [
    (FrameType::SETUP, 1),
    (FrameType::LEASE, 2),
    (FrameType::KEEPALIVE, 3),
    (FrameType::REQUEST_RESPONSE, 4),
    (FrameType::REQUEST_FNF, 5),
    (FrameType::REQUEST_STREAM, 6),
    (FrameType::REQUEST_CHANNEL, 7),
    (FrameType::REQUEST_N, 8),
    (FrameType::CANCEL, 9),
    (FrameType::PAYLOAD, 10),
    (FrameType::ERROR, 11),
    (FrameType::METADATA_PUSH, 12),
    (FrameType::RESUME, 13),
    (FrameType::RESUME_OK, 14),
    (FrameType::EXT, 0x3F),
];

fn predicates(f: Flags, w: u16) -> Outcome {
    let all = [
        ("is_ignore", f.is_ignore(), 0x200),
        ("is_metadata", f.is_metadata(), 0x100),
        ("is_follows", f.is_follows(), 0x80),
        ("is_resume", f.is_resume(), 0x80),
        ("is_respond", f.is_respond(), 0x80),
        ("is_complete", f.is_complete(), 0x40),
        ("is_lease", f.is_lease(), 0x40),
        ("is_next", f.is_next(), 0x20),
    ];
    for (name, got, bit) in all {
        if got != (w & bit != 0) {
            return Err(format!("flags {:#x}: {} is {}", w, name, got));
        }
    }
    Ok(())
}

pub fn c18(_thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(Scenario::new(
        "words",
        "all 65536 header words: type and flags",
        |ctx| {
            let w = ctx.choose(65536) as u16;
            ctx.state(&w);
            ctx.note(|| format!("word {:#06x}", w));
            ctx.steps(3);
            let want = TYPES.iter().find(|t| t.1 == w >> 10).map(|t| t.0);
            if FrameType::from_bits(w) != want {
                return Err(format!("word {:#06x} is read as {:?}, not {:?}", w, FrameType::from_bits(w), want));
            }
            ctx.outcome(if want.is_some() { "assigned" } else { "unassigned" });
            let want = TYPES.iter().find(|t| t.1 == w).map(|t| t.0);
            if FrameType::from_value(w) != want {
                return Err(format!("number {:#06x} is read as {:?}, not {:?}", w, FrameType::from_value(w), want));
            }
            predicates(Flags::from_bits_truncate(w), w & 0x3E0)?;
            if Flags::from_bits_truncate(w).bits() != w & 0x3E0 {
                return Err(format!("flags of {:#06x} have the bits {:#x}", w, Flags::from_bits_truncate(w).bits()));
            }
            if Flags::from_bits(w).map(|f| f.bits()) != if w & !0x3E0 == 0 { Some(w) } else { None } {
                return Err(format!("flags of exactly {:#06x}: {:?}", w, Flags::from_bits(w)));
            }
            // The bits the protocol does not assign make no difference.
            predicates(unsafe { Flags::from_bits_unchecked(w) }, w)
        },
    ));
    v.push(Scenario::new(
        "types",
        "the 15 types (and all pairs of them): number, header bits and back; the types and \
         streams the frames declare",
        |ctx| {
            let (t, n) = *ctx.pick(&TYPES);
            let (u, _) = *ctx.pick(&TYPES);
            let word = *ctx.pick(&[0u16, 0x3FF, 0x100, 0x2AA]);
            ctx.step();
            ctx.state(&(n, word));
            if t.value() != n || t.bits() != n << 10 {
                return Err(format!("{:?} has number {:#x} and bits {:#x}", t, t.value(), t.bits()));
            }
            if FrameType::from_value(t.value()) != Some(t) || FrameType::from_bits(t.bits() | word) != Some(t) {
                return Err(format!("{:?} does not convert back", t));
            }
            if t != u && (t.value() == u.value() || t.bits() == u.bits()) {
                return Err(format!("{:?} and {:?} share a number", t, u));
            }
            let declared = [
                (SetupFrame::TYPE, 1),
                (KeepaliveFrame::TYPE, 3),
                (RequestResponseFrame::TYPE, 4),
                (RequestFnfFrame::TYPE, 5),
                (RequestStreamFrame::TYPE, 6),
                (RequestChannelFrame::TYPE, 7),
                (RequestNFrame::TYPE, 8),
                (CancelFrame::TYPE, 9),
                (PayloadFrame::TYPE, 10),
                (ErrorFrame::TYPE, 11),
                (MetadataPushFrame::TYPE, 12),
            ];
            for (d, n) in declared {
                if d.value() != n {
                    return Err(format!("a frame declares type {:?} instead of number {}", d, n));
                }
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "flag-sets",
        "all sequences of 4 insertions, removals and toggles of named flags",
        |ctx| {
            let named = [
                (Flags::IGNORE, 0x200u16),
                (Flags::METADATA, 0x100),
                (Flags::FOLLOWS, 0x80),
                (Flags::RESUME, 0x80),
                (Flags::RESPOND, 0x80),
                (Flags::COMPLETE, 0x40),
                (Flags::LEASE, 0x40),
                (Flags::NEXT, 0x20),
            ];
            let mut f = Flags::empty();
            let mut w = 0u16;
            for _ in 0..4 {
                let (flag, bit) = *ctx.pick(&named);
                ctx.step();
                match ctx.choose(3) {
                    0 => {
                        f |= flag;
                        w |= bit;
                    }
                    1 => {
                        f.remove(flag);
                        w &= !bit;
                    }
                    _ => {
                        f.toggle(flag);
                        w ^= bit;
                    }
                }
                predicates(f, w)?;
                if f.bits() != w {
                    return Err(format!("the bits are {:#x}, expected {:#x}", f.bits(), w));
                }
            }
            ctx.state(&w);
            Ok(())
        },
    ));
    v
}

// ---- C19 ----

/// The RSocket well-known MIME type registry.
fn registry() -> Vec<(WellKnownMimeType, &'static str)> {
    use WellKnownMimeType::*;
    vec![
        (APPLICATION_AVRO, "application/avro"),
        (APPLICATION_CBOR, "application/cbor"),
        (APPLICATION_GRAPHQL, "application/graphql"),
        (APPLICATION_GZIP, "application/gzip"),
        (APPLICATION_JAVASCRIPT, "application/javascript"),
        (APPLICATION_JSON, "application/json"),
        (APPLICATION_OCTET_STREAM, "application/octet-stream"),
        (APPLICATION_PDF, "application/pdf"),
        (APPLICATION_VND_APACHE_THRIFT_BINARY, "application/vnd.apache.thrift.binary"),
        (APPLICATION_VND_GOOGLE_PROTOBUF, "application/vnd.google.protobuf"),
        (APPLICATION_XML, "application/xml"),
        (APPLICATION_ZIP, "application/zip"),
        (AUDIO_AAC, "audio/aac"),
        (AUDIO_MP3, "audio/mp3"),
        (AUDIO_MP4, "audio/mp4"),
        (AUDIO_MPEG3, "audio/mpeg3"),
        (AUDIO_MPEG, "audio/mpeg"),
        (AUDIO_OGG, "audio/ogg"),
        (AUDIO_OPUS, "audio/opus"),
        (AUDIO_VORBIS, "audio/vorbis"),
        (IMAGE_BMP, "image/bmp"),
        (IMAGE_GIF, "image/gif"),
        (IMAGE_HEIC_SEQUENCE, "image/heic-sequence"),
        (IMAGE_HEIC, "image/heic"),
        (IMAGE_HEIF_SEQUENCE, "image/heif-sequence"),
        (IMAGE_HEIF, "image/heif"),
        (IMAGE_JPEG, "image/jpeg"),
        (IMAGE_PNG, "image/png"),
        (IMAGE_TIFF, "image/tiff"),
        (MULTIPART_MIXED, "multipart/mixed"),
        (TEXT_CSS, "text/css"),
        (TEXT_CSV, "text/csv"),
        (TEXT_HTML, "text/html"),
        (TEXT_PLAIN, "text/plain"),
        (TEXT_XML, "text/xml"),
        (VIDEO_H264, "video/H264"),
        (VIDEO_H265, "video/H265"),
        (VIDEO_VP8, "video/VP8"),
        (APPLICATION_X_HESSIAN, "application/x-hessian"),
        (APPLICATION_X_JAVA_OBJECT, "application/x-java-object"),
        (APPLICATION_CLOUDEVENTS_JSON, "application/cloudevents+json"),
        (MESSAGE_X_RSOCKET_MIME_TYPE_V0, "message/x.rsocket.mime-type.v0"),
        (MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0, "message/x.rsocket.accept-mime-types.v0"),
        (MESSAGE_X_RSOCKET_AUTHENTICATION_V0, "message/x.rsocket.authentication.v0"),
        (MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0, "message/x.rsocket.tracing-zipkin.v0"),
        (MESSAGE_X_RSOCKET_ROUTING_V0, "message/x.rsocket.routing.v0"),
        (MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0, "message/x.rsocket.composite-metadata.v0"),
    ]
}

fn name_of(t: WellKnownMimeType) -> &'static str {
    t.into()
}

/// Parses `s` and says what it must be, by the registry.
fn parse_mime(ctx: &mut Ctx, reg: &[(WellKnownMimeType, &'static str)], s: &str) -> Outcome {
    let got = WellKnownMimeType::from(s);
    let want = reg.iter().find(|r| r.1 == s).map_or(WellKnownMimeType::UNPARSEABLE, |r| r.0);
    ctx.step();
    if got != want {
        return Err(format!("{:?} parses as {:?}, not {:?}", s, got, want));
    }
    let back = name_of(got);
    let expect = if want == WellKnownMimeType::UNPARSEABLE { "" } else { s };
    if back != expect {
        return Err(format!("{:?} parses and converts back to {:?}", s, back));
    }
    Ok(())
}

pub fn c19(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(Scenario::new(
        "names",
        "every type: to its registered name and back; all pairs have different names",
        |ctx| {
            let reg = registry();
            let (t, name) = *ctx.pick(&reg);
            let (u, _) = *ctx.pick(&reg);
            ctx.step();
            ctx.state(name);
            ctx.note(|| name.to_string());
            if name_of(t) != name {
                return Err(format!("{:?} converts to {:?}, registered is {:?}", t, name_of(t), name));
            }
            parse_mime(ctx, &reg, name)?;
            if t != u && name_of(t) == name_of(u) {
                return Err(format!("{:?} and {:?} have one name", t, u));
            }
            if name_of(WellKnownMimeType::UNPARSEABLE) != "" {
                return Err(format!("unparseable converts to {:?}", name_of(WellKnownMimeType::UNPARSEABLE)));
            }
            Ok(())
        },
    ));
    let alphabet: Vec<char> = (0u8..128).map(|b| b as char).chain("éß\u{a0}\u{212a}\u{131}\u{ff}".chars()).collect();
    let a1 = alphabet.clone();
    v.push(Scenario::new(
        "one-edit",
        "every name with any one character replaced, inserted or removed (all of ASCII and some \
         more), cut at any place, swapped with its neighbour, repeated",
        move |ctx| {
            let reg = registry();
            let name = ctx.pick(&reg).1;
            let cs: Vec<char> = name.chars().collect();
            let at = ctx.choose(cs.len() + 1);
            let mut try_it = |ctx: &mut Ctx, s: Vec<char>| {
                let s: String = s.into_iter().collect();
                ctx.state(s.as_str());
                parse_mime(ctx, &reg, &s)
            };
            for &c in &a1 {
                let mut s = cs.clone();
                s.insert(at, c);
                try_it(ctx, s)?;
                if at < cs.len() {
                    let mut s = cs.clone();
                    s[at] = c;
                    try_it(ctx, s)?;
                }
            }
            try_it(ctx, cs[..at].to_vec())?;
            try_it(ctx, cs[at..].to_vec())?;
            let mut s = cs.clone();
            s.extend(&cs[at..]);
            try_it(ctx, s)?;
            let mut s = cs.clone();
            s.insert(0, ' ');
            s.push(' ');
            try_it(ctx, s)?;
            for tail in ["; charset=utf-8", ";", "\r\n", "\0", "/", "*"] {
                let mut s = cs[..at].to_vec();
                s.extend(tail.chars());
                s.extend(&cs[at..]);
                try_it(ctx, s)?;
            }
            if at < cs.len() {
                let mut s = cs.clone();
                s.remove(at);
                try_it(ctx, s)?;
                let mut s = cs.clone();
                s.truncate(at);
                s.extend(cs[at..].iter().map(|c| c.to_ascii_uppercase()));
                try_it(ctx, s)?;
                let s = cs.iter().enumerate().map(|(i, c)| if i < at { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
                try_it(ctx, s.collect())?;
                for to in 0..cs.len() {
                    let mut s = cs.clone();
                    s.swap(at, to);
                    try_it(ctx, s)?;
                }
            }
            ctx.note(|| format!("{} edited at {}", name, at));
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "parts",
        "every registered top-level type (and others) with every registered subtype",
        |ctx| {
            let reg = registry();
            let mut tops: Vec<&str> = reg.iter().map(|r| r.1.split('/').next().unwrap()).collect();
            tops.extend(["", "APPLICATION", "app", "font", "model", "x", "*"]);
            tops.sort();
            tops.dedup();
            let mut subs: Vec<&str> = reg.iter().map(|r| r.1.split('/').nth(1).unwrap()).collect();
            subs.extend(["", "*", "h264", "vp8", "x.rsocket.mime-type.v1", "x.rsocket.mime-types.v0", "JSON"]);
            let s = format!("{}{}{}", ctx.pick(&tops), ctx.pick(&["/", "", "//", "\\", " / "]), ctx.pick(&subs));
            ctx.note(|| s.clone());
            ctx.state(s.as_str());
            parse_mime(ctx, &reg, &s)
        },
    ));
    let depth = 4;
    v.push(Scenario::new(
        "short",
        format!("all ASCII strings of up to {} characters", depth),
        move |ctx| {
            let reg = registry();
            let n = ctx.choose(depth);
            let mut s = String::new();
            for _ in 0..n {
                s.push(ctx.choose(128) as u8 as char);
            }
            parse_mime(ctx, &reg, &s)?;
            for c in 0..128u8 {
                s.push(c as char);
                parse_mime(ctx, &reg, &s)?;
                s.pop();
            }
            ctx.bulk_states(128);
            ctx.outcome("blocks of 128 strings");
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "two-edits",
        "every name with any two places replaced by characters that occur in names, or removed",
        move |ctx| {
            let reg = registry();
            let name = ctx.pick(&reg).1;
            let cs: Vec<char> = name.chars().collect();
            let i = ctx.choose(cs.len());
            let chars: Vec<char> = if thorough {
                (0..128u8).map(|c| c as char).collect()
            } else {
                ('a'..='z').chain('0'..='9').chain("/.-+HVP \0".chars()).collect()
            };
            for j in i + 1..cs.len() {
                for &c in &chars {
                    for &d in &chars {
                        let mut s = cs.clone();
                        s[i] = c;
                        s[j] = d;
                        let s: String = s.into_iter().collect();
                        parse_mime(ctx, &reg, &s)?;
                    }
                }
                let mut s = cs.clone();
                s.remove(j);
                s.remove(i);
                let s: String = s.into_iter().collect();
                parse_mime(ctx, &reg, &s)?;
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "long",
        "names repeated or padded to up to 70000 characters",
        |ctx| {
            let reg = registry();
            let name = ctx.pick(&reg).1;
            let n = *ctx.pick(&[2usize, 3, 4, 255, 256, 257, 1000, 65535, 65536]);
            let s = match ctx.choose(4) {
                0 => name.repeat(n.min(1000)),
                1 => format!("{}{}", name, " ".repeat(n)),
                2 => format!("{}{}", "\0".repeat(n), name),
                _ => "x".repeat(n),
            };
            ctx.state(s.as_str());
            parse_mime(ctx, &reg, &s)
        },
    ));
    v
}

// ---- C23 ----

fn setup_default() -> M {
    let mut m = M::new(K::Setup);
    m.ver = (1, 0);
    m.a = 30_000;
    m.b = 60_000;
    m.mm = Bytes::from_static(b"application/binary");
    m.dm = Bytes::from_static(b"application/binary");
    m
}

fn setup_same(f: SetupFrame, m: &M) -> Outcome {
    // The type's own view, then the wire, then what a peer reads.
    subject::check(&Frame::Setup(f.clone()), m).map_err(|e| format!("as built, {}", e))?;
    let mut want = vec![];
    spec::encode(m, &mut want);
    let got = f.to_bytes();
    if got[..] != want[..] {
        return Err(format!("is encoded as {}, expected {}", clip(&&got[..]), clip(&want)));
    }
    let back = Frame::decode(&mut got.clone()).map_err(|e| format!("does not decode: {:?}", e))?;
    subject::check(&back, m).map_err(|e| format!("as decoded, {}", e))
}

fn setup_op(ctx: &mut Ctx, which: usize, b: SetupFrameBuilder, m: &mut M) -> SetupFrameBuilder {
    let pat = |r, n| gen::pat(r, n);
    let note = |ctx: &mut Ctx, s: &'static str| ctx.note(|| s.to_string());
    match which {
        0 => {
            note(ctx, "resume flag");
            m.flags |= spec::F_80;
            m.token.get_or_insert_with(Bytes::new);
            b.set_resume_flag()
        }
        1 => {
            note(ctx, "lease flag");
            m.flags |= spec::F_40;
            b.set_lease_flag()
        }
        2 | 3 => {
            m.ver = if which == 2 { (2, 3) } else { (0, 0xFFFF) };
            note(ctx, "version");
            b.set_version(m.ver.0, m.ver.1)
        }
        4 | 5 => {
            m.a = if which == 4 { 1 } else { 0x7FFF_FFFF };
            note(ctx, "interval");
            b.set_keepalive_interval(m.a as u32)
        }
        6 | 7 => {
            m.b = if which == 6 { 2 } else { 0x0102_0304 };
            note(ctx, "timeout");
            b.set_keepalive_timeout(m.b as u32)
        }
        8..=10 => {
            let t = pat(Role::Token, [0, 3, 300][which - 8]);
            note(ctx, ["empty token", "token", "long token"][which - 8]);
            m.token = Some(t.clone());
            m.flags |= spec::F_80;
            b.set_resume_token(t)
        }
        11..=13 => {
            m.mm = [Bytes::new(), gen::mime(0, 255), Bytes::from("é")][which - 11].clone();
            note(ctx, ["empty metadata MIME type", "longest metadata MIME type", "non-ASCII metadata MIME type"][which - 11]);
            b.set_metadata_mimetype(subject::text(&m.mm))
        }
        14..=16 => {
            m.dm = [Bytes::new(), gen::mime(1, 7), Bytes::from("ß")][which - 14].clone();
            note(ctx, ["empty data MIME type", "data MIME type", "non-ASCII data MIME type"][which - 14]);
            b.set_data_mimetype(subject::text(&m.dm).to_string())
        }
        17 | 18 => {
            m.md = Some(pat(Role::Md, [0, 5][which - 17]));
            note(ctx, ["empty metadata", "metadata"][which - 17]);
            b.set_metadata(m.md.clone().unwrap())
        }
        _ => {
            m.data = Some(pat(Role::Data, [0, 6][which - 19]));
            note(ctx, ["empty data", "data"][which - 19]);
            b.set_data(m.data.clone().unwrap())
        }
    }
}

pub fn c23(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let depth = if thorough { 6 } else { 5 };
    v.push(Scenario::new(
        "calls",
        format!("all sequences of up to {} builder calls out of 21", depth),
        move |ctx| {
            let mut m = setup_default();
            let mut b = SetupFrame::builder();
            for _ in 0..depth {
                let c = ctx.choose(22);
                if c == 0 {
                    break;
                }
                b = setup_op(ctx, c - 1, b, &mut m);
                ctx.step();
            }
            ctx.state(&m);
            ctx.outcome("frames built");
            setup_same(b.build(), &m)
        },
    ));
    v.push(Scenario::new(
        "two-builders",
        "all interleavings of two builders, 3 calls each out of 5",
        |ctx| {
            let ops = [0usize, 1, 9, 18, 13];
            let mut bs = [Some(SetupFrame::builder()), Some(SetupFrame::builder())];
            let mut ms = [setup_default(), setup_default()];
            let mut left = [3, 3];
            while left[0] + left[1] > 0 {
                let w = if left[0] == 0 { 1 } else if left[1] == 0 { 0 } else { ctx.choose(2) };
                left[w] -= 1;
                let op = *ctx.pick(&ops);
                ctx.step();
                bs[w] = Some(setup_op(ctx, op, bs[w].take().unwrap(), &mut ms[w]));
            }
            for w in 0..2 {
                setup_same(bs[w].take().unwrap().build(), &ms[w])?;
            }
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "lengths",
        "MIME types of 0 to 600 bytes, of one, two, three and four-byte characters, tokens of 0 to \
         300 and of 65530 to 65540 bytes and more: refused exactly if too long, kept otherwise",
        |ctx| {
            let mut m = setup_default();
            let which = ctx.choose(3);
            let b = SetupFrame::builder();
            ctx.step();
            let (fits, got) = if which < 2 {
                let c = *ctx.pick(&["x", "é", "€", "🦀"]);
                let n = ctx.choose(601);
                let mut s = "y".repeat(n % c.len());
                s.push_str(&c.repeat(n / c.len()));
                assert_eq!(s.len(), n);
                ctx.note(|| format!("MIME type of {} bytes", n));
                let t = Bytes::from(s.clone());
                (
                    n <= 255,
                    if which == 0 {
                        m.mm = t;
                        guarded(|| b.set_metadata_mimetype(s).build())
                    } else {
                        m.dm = t;
                        guarded(|| b.set_data_mimetype(s).build())
                    },
                )
            } else {
                let n = match ctx.choose(330) {
                    i @ 0..=300 => i,
                    i @ 301..=320 => 65_526 + i - 301,
                    i => [70_000, 131_072, 65_536 * 2 + 5, 1 << 20, 1 << 24, 65_536 * 3, 98_304, 65_536 + 4, 65_536 + 300][i - 321],
                };
                ctx.note(|| format!("token of {} bytes", n));
                let t = gen::pat(Role::Token, n);
                m.token = Some(t.clone());
                m.flags |= spec::F_80;
                (n <= 65_535, guarded(|| b.set_resume_token(t).build()))
            };
            match (fits, got) {
                (true, Ok(f)) => {
                    ctx.outcome("kept");
                    setup_same(f, &m)
                }
                (false, Err(_)) => {
                    ctx.outcome("refused");
                    Ok(())
                }
                (true, Err(p)) => Err(format!("fits but is refused: {}", p)),
                (false, Ok(f)) => Err(format!("does not fit but is accepted: {}", clip(&f))),
            }
        },
    ));
    v.push(Scenario::new(
        "times",
        "interval and timeout over all 16-bit windows of 31 bits, and versions over all values: \
         kept exactly, in milliseconds",
        |ctx| {
            let mut m = setup_default();
            let n = ctx.choose(65536) as u64;
            let b = SetupFrame::builder();
            ctx.step();
            let sh = ctx.choose(5);
            let b = match sh {
                0..=2 => {
                    let x = (n << [0, 8, 15][sh]).max(1) & 0x7FFF_FFFF;
                    m.a = x;
                    m.b = x ^ 0x5555;
                    if m.b == 0 {
                        m.b = 1;
                    }
                    b.set_keepalive_interval(m.a as u32).set_keepalive_timeout(m.b as u32)
                }
                3 => {
                    m.ver = (n as u16, 1);
                    b.set_version(n as u16, 1)
                }
                _ => {
                    m.ver = (1, n as u16);
                    b.set_version(1, n as u16)
                }
            };
            ctx.state(&m);
            setup_same(b.build(), &m)
        },
    ));
    v.push(Scenario::new(
        "received-mime-types",
        "received MIME types of all 1 and 2-byte strings, and 3 and 4 bytes over boundary bytes: \
         text exactly if ASCII",
        |ctx| {
            let edge = [0x00u8, 0x41, 0x7F, 0x80, 0xBF, 0xC2, 0xE2, 0xF0, 0x9F, 0xFF];
            let mut m = setup_default();
            let n = ctx.choose(5);
            let mut t = vec![];
            for _ in 0..n {
                t.push(if n <= 2 { ctx.choose(256) as u8 } else { *ctx.pick(&edge) });
            }
            let t = Bytes::from(t);
            if ctx.flip() {
                m.mm = t;
            } else {
                m.dm = t;
            }
            ctx.state(&m);
            ctx.note(|| m.short());
            ctx.step();
            let mut o = vec![];
            spec::encode(&m, &mut o);
            received(o, &m)
        },
    ));
    v.push(Scenario::new(
        "received-long-mime-types",
        "received MIME types of every length with one byte that is not ASCII, or none, anywhere",
        |ctx| {
            let mut m = setup_default();
            let n = ctx.choose(256);
            let mut t = gen::mime(0, n).to_vec();
            let at = ctx.choose(n + 1);
            if at > 0 {
                t[at - 1] = *ctx.pick(&[0x80, 0xC3, 0xFF]);
            }
            let t = Bytes::from(t);
            if ctx.flip() {
                m.mm = t;
            } else {
                m.dm = t;
            }
            ctx.state(&m);
            ctx.note(|| m.short());
            ctx.step();
            let mut o = vec![];
            spec::encode(&m, &mut o);
            received(o, &m)
        },
    ));
    v
}

fn received(o: Vec<u8>, m: &M) -> Outcome {
    match Frame::decode(&mut Bytes::from(o)) {
        Ok(f) => subject::check(&f, m),
        Err(e) => Err(format!("does not decode: {:?}", e)),
    }
}

// ---- C24 ----

/// The text bytes denote, by the table of well-formed UTF-8 byte sequences (Unicode, table 3-7).
fn utf8_valid(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let (n, lo, hi) = match b[i] {
            0x00..=0x7F => (0, 0x80, 0xBF),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE..=0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return false,
        };
        if i + n >= b.len() {
            return false;
        }
        for k in 1..=n {
            let c = b[i + k];
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            if c < l || c > h {
                return false;
            }
        }
        i += n + 1;
    }
    true
}

fn utf8_view(what: &str, got: Result<&str, std::str::Utf8Error>, part: Option<&[u8]>) -> Outcome {
    match (got, part) {
        (Ok(""), None) => Ok(()),
        (Ok(s), Some(b)) if utf8_valid(b) && s.as_bytes() == b => Ok(()),
        (Err(e), Some(b)) if !utf8_valid(b) => {
            let _ = (e.to_string(), e.valid_up_to(), e.error_len());
            Ok(())
        }
        (g, b) => Err(format!("the UTF-8 view of {} {} is {}", what, clip(&b), clip(&g))),
    }
}

fn payload_same(p: &Payload, md: &Option<Vec<u8>>, data: &Option<Vec<u8>>) -> Outcome {
    let eq = |what: &str, a: bool| if a { Ok(()) } else { Err(format!("{} is wrong: {} built from {} and {}", what, clip(p), clip(md), clip(data))) };
    eq("metadata", p.metadata().map(|b| &b[..]) == md.as_deref())?;
    eq("data", p.data().map(|b| &b[..]) == data.as_deref())?;
    eq("has_metadata", p.has_metadata() == md.is_some())?;
    eq("has_data", p.has_data() == data.is_some())?;
    let n = md.as_ref().map_or(0, |b| b.len()) + data.as_ref().map_or(0, |b| b.len());
    eq("len", p.len() == n && Encode::len(p) == n)?;
    eq("is_empty", p.is_empty() == (n == 0) && Encode::is_empty(p) == (n == 0))?;
    utf8_view("metadata", p.metadata_utf8(), md.as_deref())?;
    utf8_view("data", p.data_utf8(), data.as_deref())?;
    let mut want = vec![0xAA];
    want.extend(md.iter().flatten());
    want.extend(data.iter().flatten());
    let mut buf = BytesMut::from(&[0xAAu8][..]);
    p.encode(&mut buf);
    eq("encode", buf[..] == want[..] && p.to_bytes()[..] == want[1..])?;
    let c = p.clone();
    eq("equality", c == *p)?;
    let (m, d) = c.split();
    eq("split", m.as_deref() == md.as_deref() && d.as_deref() == data.as_deref())?;
    Ok(())
}

fn part(ctx: &mut Ctx, list: &[&'static str], set: impl Fn(PayloadBuilder, Input) -> PayloadBuilder, b: PayloadBuilder) -> (PayloadBuilder, Vec<u8>) {
    let text = *ctx.pick(list);
    let form = ctx.choose(8);
    let bytes = text.as_bytes().to_vec();
    let input = match form {
        0 => Input::Bytes(Bytes::from_static(text.as_bytes())),
        1 => Input::Text(text),
        2 => Input::Slice(text.as_bytes()),
        3 => Input::String(text.to_string()),
        4 => {
            let mut v = Vec::with_capacity(text.len() + 9);
            v.extend_from_slice(text.as_bytes());
            Input::Vec(v)
        }
        5 => Input::Vec(bytes.clone()),
        6 => Input::Mut(BytesMut::from(text.as_bytes())),
        _ => {
            // A piece of a larger shared buffer.
            let mut v = b"##".to_vec();
            v.extend_from_slice(text.as_bytes());
            v.extend_from_slice(b"##");
            Input::Bytes(Bytes::from(v).slice(2..2 + text.len()))
        }
    };
    ctx.note(|| format!("set to {:?} as {:?}", text, input));
    (set(b, input), bytes)
}

#[derive(Debug)]
enum Input {
    Bytes(Bytes),
    Text(&'static str),
    Slice(&'static [u8]),
    String(String),
    Vec(Vec<u8>),
    Mut(BytesMut),
}

fn set(b: PayloadBuilder, i: Input, data: bool) -> PayloadBuilder {
    macro_rules! put { ($x:expr) => { if data { b.set_data($x) } else { b.set_metadata($x) } } }
    match i {
        Input::Bytes(x) => put!(x),
        Input::Text(x) => put!(x),
        Input::Slice(x) => put!(x),
        Input::String(x) => put!(x),
        Input::Vec(x) => put!(x),
        Input::Mut(x) => put!(x),
    }
}

pub fn c24(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let depth = if thorough { 5 } else { 4 };
    v.push(Scenario::new(
        "calls",
        format!("all sequences of up to {} builder calls, 4 contents in 8 forms each", depth),
        move |ctx| {
            let list = ["", "a", "some data", "é€🦀"];
            let (mut md, mut data) = (None, None);
            let mut b = if ctx.flip() { PayloadBuilder::new() } else { Payload::builder() };
            for _ in 0..depth {
                match ctx.choose(3) {
                    0 => break,
                    1 => {
                        let (c, x) = part(ctx, &list, |b, i| set(b, i, true), b);
                        b = c;
                        data = Some(x);
                    }
                    _ => {
                        let (c, x) = part(ctx, &list, |b, i| set(b, i, false), b);
                        b = c;
                        md = Some(x);
                    }
                }
                ctx.step();
            }
            ctx.state(&(&md, &data));
            ctx.outcome("payloads");
            payload_same(&b.build(), &md, &data)
        },
    ));
    v.push(Scenario::new(
        "shared memory",
        "metadata and data that are pieces of up to 5 bytes of one buffer of memory (of three kinds): side by side, apart, \
         overlapping, one in the other, or the same",
        |ctx| {
            let b = gen::pieces(ctx, 2, 0, 5);
            let (md, data) = (Some(b[0].to_vec()), Some(b[1].to_vec()));
            ctx.step();
            ctx.state(&(&md, &data));
            ctx.note(|| format!("{:?}", b));
            let p = subject::payload(&Some(b[0].clone()), &Some(b[1].clone()));
            drop(b);
            payload_same(&p, &md, &data)
        },
    ));
    v.push(Scenario::new(
        "utf8",
        "the UTF-8 views of all byte strings of up to 3 bytes, as data and as metadata",
        |ctx| {
            let n = ctx.choose(3);
            let mut s = vec![];
            for _ in 0..n {
                s.push(ctx.choose(256) as u8);
            }
            let meta = ctx.flip();
            for c in 0..=255u8 {
                s.push(c);
                let b = Bytes::copy_from_slice(&s);
                let r = if meta {
                    let p = PayloadBuilder::new().set_metadata(b).build();
                    utf8_view("metadata", p.metadata_utf8(), Some(&s)).and_then(|_| utf8_view("data", p.data_utf8(), None))
                } else {
                    let p = PayloadBuilder::new().set_data(b).build();
                    utf8_view("data", p.data_utf8(), Some(&s)).and_then(|_| utf8_view("metadata", p.metadata_utf8(), None))
                };
                r?;
                s.pop();
            }
            ctx.steps(256);
            ctx.bulk_states(256);
            ctx.note(|| format!("all strings {:02x?} + one byte, metadata: {}", s, meta));
            ctx.outcome("blocks of 256 strings");
            Ok(())
        },
    ));
    let len = if thorough { 7 } else { 6 };
    v.push(Scenario::new(
        "utf8-edges",
        format!("all strings of 4 to {} bytes over the boundary bytes of UTF-8", len),
        move |ctx| {
            let edge = [
                0x41u8, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF,
            ];
            let n = 3 + ctx.choose(len - 3);
            let mut s = vec![];
            for _ in 0..n {
                s.push(*ctx.pick(&edge));
            }
            for &c in &edge {
                s.push(c);
                let b = Bytes::copy_from_slice(&s);
                let p = PayloadBuilder::new().set_metadata(b.clone()).set_data(b).build();
                utf8_view("metadata", p.metadata_utf8(), Some(&s))?;
                utf8_view("data", p.data_utf8(), Some(&s))?;
                s.pop();
            }
            ctx.steps(17);
            ctx.bulk_states(17);
            Ok(())
        },
    ));
    v.push(Scenario::new(
        "sizes",
        "metadata and data of every size up to 300 and some larger, of valid text, and with one \
         invalid byte at every place, of characters of all widths or of one",
        |ctx| {
            let mut n = ctx.choose(308);
            if n > 300 {
                n = [1000, 4096, 65535, 65536, 70000, 1 << 20, 3 << 20][n - 301];
            }
            let wide = ctx.choose(5);
            let mut s = if wide == 0 { vec![] } else { gen::filler(wide, Role::Data, n).to_vec() };
            while s.len() < n {
                let c = ["a", "é", "€", "🦀"][s.len() % 4];
                if s.len() + c.len() <= n {
                    s.extend_from_slice(c.as_bytes());
                } else {
                    s.push(b'z');
                }
            }
            let m = ctx.choose(4);
            let other = [None, Some(vec![]), Some(b"x".to_vec()), Some(s.clone())][m].clone();
            if n <= 300 && n > 0 {
                let at = ctx.choose(n + 1);
                if at > 0 {
                    s[at - 1] = 0xFF;
                }
            }
            ctx.step();
            let mut b = PayloadBuilder::new();
            if ctx.flip() {
                b = b.set_data(s.clone());
                if let Some(o) = &other {
                    b = b.set_metadata(o.clone());
                }
                payload_same(&b.build(), &other, &Some(s))
            } else {
                b = b.set_metadata(s.clone());
                if let Some(o) = &other {
                    b = b.set_data(o.clone());
                }
                payload_same(&b.build(), &Some(s), &other)
            }
        },
    ));
    v
}
