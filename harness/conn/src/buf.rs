//! The segment list and reassembly.
use binate::connection::verif::SegmentList;
use binate::frame::{DecodeError, Encode, Frame};
use bytes::{Buf, Bytes};
use codec::decode_props::{hex, representatives, split};
use codec::gen::{self, Role};
use codec::spec::{self, K, M};
use codec::subject;
use explore::{Ctx, Outcome, Scenario};
use std::collections::VecDeque;
use std::io::IoSlice;
use std::sync::Arc;

/// A buffer type the list is instantiated with.
trait Seg: Buf + Sized + 'static {
    const NAME: &'static str;
    /// Keeps what `Buf::chunks_vectored` promises: unused slots mean that all bytes are covered.
    const VECTORED: bool;
    fn make(b: Bytes) -> Self;
}

impl Seg for Bytes {
    const NAME: &'static str = "Bytes";
    const VECTORED: bool = true;
    fn make(b: Bytes) -> Self {
        b
    }
}

type Halves = bytes::buf::Chain<Bytes, Bytes>;

impl Seg for Halves {
    const NAME: &'static str = "Chain";
    const VECTORED: bool = true;
    fn make(mut b: Bytes) -> Self {
        let head = b.split_to(b.len() / 2);
        head.chain(b)
    }
}

/// Wraps around its ring.
impl Seg for VecDeque<u8> {
    const NAME: &'static str = "VecDeque";
    const VECTORED: bool = false;
    fn make(b: Bytes) -> Self {
        let mut q = VecDeque::with_capacity(b.len().max(1));
        let skew = q.capacity() - b.len() / 2;
        for _ in 0..skew {
            q.push_back(0);
            q.pop_front();
        }
        q.extend(b.iter());
        q
    }
}

/// Shows one byte at a time.
struct Bytewise(Bytes);

impl Buf for Bytewise {
    fn remaining(&self) -> usize {
        self.0.len()
    }
    fn chunk(&self) -> &[u8] {
        &self.0[..self.0.len().min(1)]
    }
    fn advance(&mut self, n: usize) {
        self.0.advance(n)
    }
}

impl Seg for Bytewise {
    const NAME: &'static str = "Bytewise";
    const VECTORED: bool = false;
    fn make(b: Bytes) -> Self {
        Bytewise(b)
    }
}

/// A list as segment of a list.
struct Nested(SegmentList<Bytes>);

impl Buf for Nested {
    fn remaining(&self) -> usize {
        // Only `buf` of the wrapper is mutable.
        let p = &self.0 as *const SegmentList<Bytes> as *mut SegmentList<Bytes>;
        unsafe { (*(*p).buf()).remaining() }
    }
    fn chunk(&self) -> &[u8] {
        let p = &self.0 as *const SegmentList<Bytes> as *mut SegmentList<Bytes>;
        unsafe { (*(*p).buf()).chunk() }
    }
    fn advance(&mut self, n: usize) {
        self.0.buf().advance(n)
    }
    fn chunks_vectored<'a>(&'a self, dst: &mut [IoSlice<'a>]) -> usize {
        let p = &self.0 as *const SegmentList<Bytes> as *mut SegmentList<Bytes>;
        unsafe { (*(*p).buf()).chunks_vectored(dst) }
    }
    fn copy_to_bytes(&mut self, n: usize) -> Bytes {
        self.0.buf().copy_to_bytes(n)
    }
}

impl Seg for Nested {
    const NAME: &'static str = "list of lists";
    const VECTORED: bool = true;
    fn make(b: Bytes) -> Self {
        let mut l = SegmentList::empty();
        let n = b.len() / 2;
        if n > 0 {
            l.push(b.slice(..n));
        }
        l.push(b.slice(n..));
        Nested(l)
    }
}

// ---- C09 ----

struct Model {
    /// All bytes ever pushed are `pat[..end]`; those before `at` are consumed.
    at: usize,
    end: usize,
    ends: Vec<usize>,
}

fn pat(a: usize, b: usize) -> Bytes {
    gen::pat(Role::Data, b).slice(a..)
}

fn observe(l: &mut dyn Buf, m: &Model, vectored: bool, slots: usize) -> Outcome {
    observe_with(l, m, vectored, 0..=slots)
}

fn observe_with(l: &mut dyn Buf, m: &Model, vectored: bool, slots: impl Iterator<Item = usize>) -> Outcome {
    let want = pat(m.at, m.end);
    if l.remaining() != want.len() {
        return Err(format!("{} bytes remaining, expected {}", l.remaining(), want.len()));
    }
    if l.has_remaining() != !want.is_empty() {
        return Err(format!("has_remaining is {}", l.has_remaining()));
    }
    let c = l.chunk();
    if c.is_empty() != want.is_empty() || c.len() > want.len() || c != &want[..c.len()] {
        return Err(format!("chunk is {}, expected a prefix of {}", hex(c), hex(&want)));
    }
    for n in slots {
        const MARK: &[u8] = b"untouched";
        let mut few = [IoSlice::new(MARK); 8];
        let mut many = vec![];
        let dst = if n <= 8 {
            &mut few[..]
        } else {
            many.resize(n, IoSlice::new(MARK));
            &mut many[..]
        };
        let filled = l.chunks_vectored(&mut dst[..n]);
        if filled > n {
            return Err(format!("chunks_vectored filled {} of {} slots", filled, n));
        }
        let mut at = 0;
        for s in &dst[..filled] {
            if s.is_empty() || at + s.len() > want.len() || s[..] != want[at..at + s.len()] {
                return Err(format!(
                    "chunks_vectored with {} slots gives {:?}, expected pieces of {}",
                    n,
                    dst[..filled].iter().map(|s| hex(s)).collect::<Vec<_>>(),
                    hex(&want)
                ));
            }
            at += s.len();
            if !vectored {
                // What follows the first piece is up to the segment type.
                break;
            }
        }
        if vectored && filled < n && at != want.len() {
            return Err(format!(
                "chunks_vectored fills {} of {} slots, covering {} of {} bytes",
                filled,
                n,
                at,
                want.len()
            ));
        }
        if n > 0 && filled == 0 && !want.is_empty() {
            return Err("chunks_vectored fills nothing".into());
        }
    }
    Ok(())
}

fn same(what: &str, got: &[u8], want: &[u8]) -> Outcome {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} gives {}, expected {}", what, clip(got), clip(want)))
    }
}

fn clip(b: &[u8]) -> String {
    if b.len() > 40 {
        format!("{}... ({} bytes)", hex(&b[..40]), b.len())
    } else {
        hex(b)
    }
}

/// One operation; false if it ends the sequence.
fn operate<T: Seg>(ctx: &mut Ctx, l: &mut SegmentList<T>, m: &mut Model, pushes: &[usize]) -> Result<bool, String> {
    let rem = m.end - m.at;
    // Push; advance, copy_to_bytes, copy_to_slice of 0..=rem; numbers; asking for too much.
    let nums = [1usize, 2, 3, 4, 8];
    let fit = nums.iter().filter(|n| **n <= rem).count();
    let over = 8;
    let n = ctx.choose(pushes.len() + 3 * (rem + 1) + fit + over);
    ctx.step();
    let mut i = n;
    if i < pushes.len() {
        let k = pushes[i];
        ctx.note(|| format!("push {}", k));
        l.push(T::make(pat(m.end, m.end + k)));
        m.end += k;
        m.ends.push(m.end);
        return Ok(true);
    }
    i -= pushes.len();
    let b = l.buf();
    if i < 3 * (rem + 1) {
        let k = i / 3;
        let want = pat(m.at, m.at + k);
        m.at += k;
        match i % 3 {
            0 => {
                ctx.note(|| format!("advance {}", k));
                b.advance(k);
            }
            1 => {
                ctx.note(|| format!("copy_to_bytes {}", k));
                same("copy_to_bytes", &b.copy_to_bytes(k), &want)?;
            }
            _ => {
                ctx.note(|| format!("copy_to_slice {}", k));
                let mut v = vec![0xA5; k];
                b.copy_to_slice(&mut v);
                same("copy_to_slice", &v, &want)?;
            }
        }
        return Ok(true);
    }
    i -= 3 * (rem + 1);
    if i < fit {
        let k = nums[i];
        ctx.note(|| format!("read {}-byte number", k));
        let want = pat(m.at, m.at + k);
        let got = match k {
            1 => vec![b.get_u8()],
            2 => b.get_u16().to_be_bytes().to_vec(),
            3 => b.get_uint(3).to_be_bytes()[5..].to_vec(),
            4 => b.get_u32().to_be_bytes().to_vec(),
            _ => b.get_u64().to_be_bytes().to_vec(),
        };
        same("reading a number", &got, &want)?;
        m.at += k;
        return Ok(true);
    }
    i -= fit;
    let what = [
        "advance 1 too many",
        "copy_to_bytes 1 too many",
        "copy_to_slice 1 too many",
        "advance far too many",
        "copy_to_bytes far too many",
        "read too wide a number",
        "copy_to_bytes 2 too many",
        "advance 2 too many",
    ][i];
    ctx.note(|| what.to_string());
    let r = ctx.may_panic(|| match i {
        0 => b.advance(rem + 1),
        1 => drop(b.copy_to_bytes(rem + 1)),
        2 => b.copy_to_slice(&mut vec![0; rem + 1]),
        3 => b.advance(usize::MAX),
        4 => drop(b.copy_to_bytes(usize::MAX)),
        5 => match rem {
            0 => drop(b.get_u8()),
            1 => drop(b.get_u16()),
            2 | 3 => drop(b.get_u32()),
            4..=7 => drop(b.get_u64()),
            8..=15 => drop(b.get_u128()),
            _ => panic!("skip"),
        },
        6 => drop(b.copy_to_bytes(rem + 2)),
        _ => b.advance(rem + 2),
    });
    ctx.outcome("over-asked");
    match r {
        Ok(()) => Err(format!("{} with {} bytes remaining does not panic", what, rem)),
        Err(_) => Ok(false),
    }
}

fn sequences<T: Seg>(segments: usize, ops: usize, slots: usize) -> Scenario {
    Scenario::new(
        T::NAME,
        format!(
            "segments of type {}: up to {} first pushes of 1-3 bytes, then all sequences of up to {} operations: push \
             1-2 bytes; advance, copy_to_bytes, copy_to_slice of every length; reading 1-, 2-, 3-, 4- and 8-byte \
             numbers; asking for too much (8 ways). After each: remaining, chunk, chunks_vectored with 0-{} slots",
            T::NAME,
            segments,
            ops,
            slots
        ),
        move |ctx| {
            let mut l = SegmentList::<T>::empty();
            let mut m = Model { at: 0, end: 0, ends: vec![] };
            for _ in 0..segments {
                let k = ctx.choose(4);
                if k == 0 {
                    break;
                }
                ctx.note(|| format!("push {}", k));
                l.push(T::make(pat(m.end, m.end + k)));
                m.end += k;
                m.ends.push(m.end);
            }
            observe(l.buf(), &m, T::VECTORED, slots)?;
            for _ in 0..ops {
                if !operate(ctx, &mut l, &mut m, &[1, 2])? {
                    return Ok(());
                }
                observe(l.buf(), &m, T::VECTORED, slots)?;
                m.ends.retain(|e| *e > m.at);
                ctx.state(&(T::NAME, m.at, m.end, &m.ends));
            }
            Ok(())
        },
    )
}

const SHAPES: usize = 5;

fn long<T: Seg>(name: &'static str, thorough: bool) -> Scenario {
    let counts: &'static [usize] = if thorough { &[10, 255, 256, 257, 1000, 5000, 20000] } else { &[10, 255, 256, 257, 1000] };
    Scenario::new(
        name,
        format!(
            "segments of type {}: {:?} segments of 1, 2, 100, 1-5 or 1 and 5000 bytes, consumed in steps of 1, 7, 99-101, \
             1000 bytes or all at once by advance, copy_to_bytes, copy_to_slice, 4-byte reads, or these in turn; \
             chunks_vectored with up to 2001 slots",
            T::NAME,
            counts
        ),
        move |ctx| {
            let n = *ctx.pick(counts);
            let shape = ctx.choose(SHAPES);
            let mut l = SegmentList::<T>::empty();
            let mut m = Model { at: 0, end: 0, ends: vec![] };
            for i in 0..n {
                let k = match shape {
                    0 => 1,
                    1 => 2,
                    2 => 100,
                    3 => i % 5 + 1,
                    // A long one among short ones.
                    _ => if i % 9 == 4 { 5000 } else { 1 },
                };
                l.push(T::make(pat(m.end, m.end + k)));
                m.end += k;
            }
            let step = *ctx.pick(&[1usize, 7, 99, 100, 101, 1000, usize::MAX]);
            let how = ctx.choose(5);
            ctx.note(|| format!("{} segments, shape {}, steps of {} by method {}", n, shape, step, how));
            ctx.state(&(T::NAME, n, shape, step, how));
            // Observing a long list costs time in proportion to its length.
            let every = ((m.end / step.min(m.end)) / 50).max(1);
            let slots = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1001, 2001];
            if n <= 1000 {
                observe_with(l.buf(), &m, T::VECTORED, slots.iter().copied())?;
            }
            let mut i = 0;
            while m.at < m.end {
                if i % every == 0 {
                    observe(l.buf(), &m, T::VECTORED, 4)?;
                    if i % (10 * every) == 0 && n <= 1000 {
                        observe_with(l.buf(), &m, T::VECTORED, slots.iter().copied())?;
                    }
                }
                i += 1;
                let k = step.min(m.end - m.at);
                let how = if how == 4 { i % 4 } else { how };
                let k = if how == 3 && m.end - m.at >= 4 { 4 } else { k };
                let want = pat(m.at, m.at + k);
                let b = l.buf();
                match how {
                    0 => b.advance(k),
                    1 => same("copy_to_bytes", &b.copy_to_bytes(k), &want)?,
                    3 if k == 4 => same("get_u32", &b.get_u32().to_be_bytes(), &want)?,
                    _ => {
                        let mut v = vec![0; k];
                        b.copy_to_slice(&mut v);
                        same("copy_to_slice", &v, &want)?
                    }
                }
                m.at += k;
                ctx.step();
            }
            observe(l.buf(), &m, T::VECTORED, 4)?;
            // An emptied list can be filled again.
            l.push(T::make(pat(m.end, m.end + 3)));
            m.end += 3;
            observe(l.buf(), &m, T::VECTORED, 4)
        },
    )
}

// ---- C09: more bytes than 32 bits can count ----

const PERIOD: usize = 251;
const BLOCK: usize = PERIOD * 4200;

fn block() -> &'static [u8] {
    static BYTES: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    BYTES.get_or_init(|| (0..BLOCK).map(|i| (i % PERIOD) as u8).collect())
}

/// Many bytes in little memory: the byte at place `i` of the whole is `i % PERIOD`.
struct Vast {
    at: usize,
    end: usize,
}

impl Buf for Vast {
    fn remaining(&self) -> usize {
        self.end - self.at
    }
    fn chunk(&self) -> &[u8] {
        let from = self.at % PERIOD;
        &block()[from..BLOCK.min(from + self.remaining())]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.remaining());
        self.at += n;
    }
}

fn vast(ctx: &mut Ctx, ops: usize) -> Outcome {
    const SIZES: [usize; 8] =
        [1, 300, (1 << 24) - 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 7];
    let mut l = SegmentList::<Vast>::empty();
    let (mut at, mut end) = (0usize, 0usize);
    let mut history = vec![];
    let see = |b: &mut dyn Buf, at: usize, end: usize| -> Outcome {
        if b.remaining() != end - at || b.has_remaining() != (end > at) {
            return Err(format!(
                "{} bytes remaining (has_remaining {}), expected {}",
                b.remaining(),
                b.has_remaining(),
                end - at
            ));
        }
        let is = |c: &[u8], from: usize| {
            let want = &block()[from % PERIOD..];
            c.len() <= end - from && (std::ptr::eq(c.as_ptr(), want.as_ptr()) || c == &want[..c.len()])
        };
        let c = b.chunk();
        if c.is_empty() != (at == end) || !is(c, at) {
            return Err(format!("the chunk has {} bytes, at place {} of {}, or the wrong ones", c.len(), at, end));
        }
        for n in 0..4 {
            let mut dst = [IoSlice::new(&[]); 4];
            let filled = b.chunks_vectored(&mut dst[..n]);
            if filled > n || (n > 0 && filled == 0 && end > at) || (filled > 0 && (dst[0].is_empty() || !is(&dst[0], at))) {
                return Err(format!("chunks_vectored fills {} of {} slots, or with the wrong bytes", filled, n));
            }
        }
        Ok(())
    };
    for _ in 0..ops {
        let n = ctx.choose(SIZES.len() * 2 + 6);
        ctx.step();
        let rem = end - at;
        if n < SIZES.len() {
            ctx.note(|| format!("push {}", SIZES[n]));
            l.push(Vast { at: end, end: end + SIZES[n] });
            end += SIZES[n];
        } else if n < 2 * SIZES.len() + 2 {
            let k = match n - SIZES.len() {
                i if i < SIZES.len() => SIZES[i],
                8 => rem,
                _ => rem.saturating_sub(1),
            };
            ctx.note(|| format!("advance {} of {}", k, rem));
            if k > rem {
                return match ctx.may_panic(|| l.buf().advance(k)) {
                    Ok(()) => Err(format!("advance {} with {} bytes remaining does not panic", k, rem)),
                    Err(_) => Ok(()),
                };
            }
            l.buf().advance(k);
            at += k;
        } else {
            let k = rem.min([1, 8, 300, 5000][n - 2 * SIZES.len() - 2]);
            ctx.note(|| format!("take {} of {}", k, rem));
            let want = &block()[at % PERIOD..][..k];
            if k % 2 == 0 {
                same("copy_to_bytes", &l.buf().copy_to_bytes(k), want)?;
            } else {
                let mut v = vec![0xA5; k];
                l.buf().copy_to_slice(&mut v);
                same("copy_to_slice", &v, want)?;
            }
            at += k;
        }
        see(l.buf(), at, end)?;
        history.push(n);
        ctx.state(&("vast", &history));
    }
    Ok(())
}

/// As received: many segments of up to 16 MiB, all sharing one block of memory.
fn vast_shared(ctx: &mut Ctx) -> Outcome {
    static BYTES: std::sync::OnceLock<Bytes> = std::sync::OnceLock::new();
    const LEN: usize = (1 << 24) - 1;
    let block = BYTES.get_or_init(|| (0..LEN + PERIOD).map(|i| (i % PERIOD) as u8).collect());
    let piece = |at: usize, len: usize| block.slice(at % PERIOD..at % PERIOD + len);
    let count = *ctx.pick(&[127usize, 128, 129, 255, 256, 257, 258, 300, 520]);
    let mut l = SegmentList::<Bytes>::empty();
    let mut end = 0;
    for _ in 0..count {
        l.push(piece(end, LEN));
        end += LEN;
    }
    let mut at = 0;
    for _ in 0..3 {
        ctx.step();
        let rem = end - at;
        let k = match ctx.choose(7) {
            0 => 1,
            1 => LEN,
            2 => 5 * LEN + 3,
            3 => rem / 2,
            4 => rem.saturating_sub(1 << 32),
            5 => rem.saturating_sub(7),
            _ => 0,
        }
        .min(rem);
        ctx.note(|| format!("{} segments: advance {} of {}", count, k, rem));
        l.buf().advance(k);
        at += k;
        let b = l.buf();
        if b.remaining() != end - at {
            return Err(format!("{} bytes remaining, expected {}", b.remaining(), end - at));
        }
        let mut slots = vec![IoSlice::new(&[]); 600];
        let filled = b.chunks_vectored(&mut slots);
        let covered: usize = slots[..filled].iter().map(|s| s.len()).sum();
        if filled > 600 || covered != end - at {
            return Err(format!("chunks_vectored covers {} of {} bytes", covered, end - at));
        }
        let k = (end - at).min(9);
        same("copy_to_bytes", &b.copy_to_bytes(k), &piece(at, k))?;
        at += k;
        ctx.state(&("shared", count, at));
    }
    Ok(())
}

pub fn c09(thorough: bool) -> Vec<Scenario> {
    let deep = if thorough { 7 } else { 6 };
    let d = if thorough { 2 } else { 1 };
    vec![
        sequences::<Bytes>(3, 3 + d, 5),
        sequences::<Halves>(3, 3 + d, 6),
        sequences::<VecDeque<u8>>(3, 3 + d, 2),
        sequences::<Bytewise>(3, 3 + d, 2),
        sequences::<Nested>(3, 3 + d, 6),
        long::<Bytes>("long Bytes", thorough),
        long::<Halves>("long Chain", thorough),
        long::<VecDeque<u8>>("long VecDeque", thorough),
        long::<Bytewise>("long Bytewise", thorough),
        long::<Nested>("long list of lists", thorough),
        Scenario::new(
            "vast",
            format!(
                "all sequences of {} operations on segments of 1 to 2^32 + 7 bytes: push or advance of 8 sizes, advance to \
                 the last byte and the end, taking 1 to 5000 bytes; remaining, chunk, chunks_vectored after each",
                deep
            ),
            move |ctx| vast(ctx, deep),
        ),
        Scenario::new(
            "vast shared",
            "127 to 520 segments of 2^24 - 1 bytes in shared memory, all sequences of 3 advances of 7 kinds, with \
             remaining, chunks_vectored and copy_to_bytes after each",
            vast_shared,
        ),
    ]
}

// ---- C08: decoding from a segment list ----

fn through_list<T: Seg>(b: &Bytes, cuts: &[usize]) -> Outcome {
    let mut whole = b.clone();
    let want = Frame::decode(&mut whole);
    let mut l = SegmentList::<T>::empty();
    for p in split(b, cuts) {
        l.push(T::make(p));
    }
    let got = l.decode();
    let left = l.buf().remaining();
    if got != want || left != whole.len() {
        return Err(format!(
            "decoding {} from a list of {} cut at {:?} gives {} with {} bytes left; in one piece it gives {} with {} left",
            clip(b), T::NAME, cuts, subject::clip(&got), left, subject::clip(&want), whole.len()
        ));
    }
    Ok(())
}

pub fn c08(thorough: bool) -> Vec<Scenario> {
    let reps = Arc::new(representatives());
    let all = if thorough { 19 } else { 15 };
    let k = if thorough { 3 } else { 2 };
    let r = reps.clone();
    let r2 = reps.clone();
    vec![
        Scenario::new(
            "segment list, partitions",
            format!(
                "all partitions of the representative strings of up to {} bytes, decoded from the crate's segment list \
                 of Bytes and of Bytewise",
                all
            ),
            move |ctx| {
                let short: Vec<&Bytes> = r.iter().filter(|b| b.len() <= all).collect();
                let b = *ctx.pick(&short);
                let mut cuts = vec![];
                for i in 1..b.len() {
                    if ctx.flip() {
                        cuts.push(i);
                    }
                }
                ctx.state(&(&b[..], &cuts));
                ctx.note(|| format!("{} cut at {:?}", hex(b), cuts));
                ctx.steps(2);
                through_list::<Bytes>(b, &cuts)?;
                through_list::<Bytewise>(b, &cuts)
            },
        ),
        Scenario::new(
            "segment list, cuts",
            format!("all {} representative strings, in up to {} segments, and in single bytes", reps.len(), k + 1),
            move |ctx| {
                let b = ctx.pick(&r2[..]);
                let mut cuts = vec![];
                if ctx.flip() {
                    cuts = (1..b.len()).collect();
                } else {
                    let mut lo = 1;
                    for _ in 0..k {
                        if lo >= b.len() {
                            break;
                        }
                        let c = ctx.choose(b.len() - lo + 1);
                        if c == 0 {
                            break;
                        }
                        cuts.push(lo + c - 1);
                        lo += c;
                    }
                }
                ctx.state(&(&b[..], &cuts));
                ctx.note(|| format!("{} cut at {:?}", hex(b), cuts));
                ctx.steps(4);
                through_list::<Bytes>(b, &cuts)?;
                through_list::<Halves>(b, &cuts)?;
                through_list::<VecDeque<u8>>(b, &cuts)?;
                through_list::<Nested>(b, &cuts)
            },
        ),
    ]
}

// ---- C12 ----

/// One frame of a sequence: its bytes, and the payload parts or the errors it stands for.
#[derive(Clone)]
struct Item {
    bytes: Bytes,
    name: String,
}

const CARRIERS: [K; 5] = [K::RequestResponse, K::RequestFnf, K::RequestStream, K::RequestChannel, K::Payload];

fn carriers(i: usize, md: &[Option<usize>], data: &[Option<usize>], kinds: &[K]) -> Vec<Item> {
    let mut v = vec![];
    for (j, k) in kinds.iter().enumerate() {
        for a in md {
            for b in data {
                let mut m = gen::default(*k);
                m.sid = 1 + j as u32;
                // Different bytes at every place of the sequence.
                m.md = a.map(|n| gen::pat(Role::Md, 16 * (i + 1) + n).slice(16 * (i + 1)..));
                m.data = b.map(|n| gen::pat(Role::Data, 16 * (i + 1) + n).slice(16 * (i + 1)..));
                m.flags = k.flags() & if (i + j) % 2 == 0 { spec::F_80 } else { spec::F_20 | spec::F_40 };
                v.push(item(&m));
            }
        }
    }
    v
}

/// Carriers with every combination of flags.
fn flagged(i: usize, parts: &[Option<usize>]) -> Vec<Item> {
    let mut v = vec![];
    for (j, k) in CARRIERS.iter().enumerate() {
        for flags in 0..16u16 {
            for a in parts {
                for b in parts {
                    let mut m = gen::default(*k);
                    m.sid = [5, 5, 0, 0x7FFF_FFFF][(i + j + flags as usize) % 4];
                    m.md = a.map(|n| gen::pat(Role::Md, 16 * (i + 1) + n).slice(16 * (i + 1)..));
                    m.data = b.map(|n| gen::pat(Role::Data, 16 * (i + 1) + n).slice(16 * (i + 1)..));
                    let mut it = item(&m);
                    let mut raw = it.bytes.to_vec();
                    let h = u16::from_be_bytes([raw[4], raw[5]]) & !0x2E0 | (flags & 7) << 5 | (flags >> 3) << 9;
                    raw[4..6].copy_from_slice(&h.to_be_bytes());
                    it.bytes = raw.into();
                    it.name = format!("{} flags {:#x}", it.name, h & 0x3FF);
                    v.push(it);
                }
            }
        }
    }
    v
}

fn item(m: &M) -> Item {
    let mut o = vec![];
    spec::encode(m, &mut o);
    Item { bytes: o.into(), name: m.short() }
}

fn others() -> Vec<Item> {
    let mut v = vec![];
    for k in spec::KINDS {
        if CARRIERS.contains(&k) {
            continue;
        }
        let mut m = gen::default(k);
        if k == K::Setup {
            m.md = Some(gen::pat(Role::Token, 2));
        }
        if k == K::Lease {
            m.md = Some(gen::pat(Role::Token, 3));
        }
        if k.may_have_data() {
            m.data = Some(gen::pat(Role::Token, 3));
        }
        v.push(item(&m));
    }
    v
}

fn broken() -> Vec<Item> {
    let mut v = vec![];
    let mut add = |name: &str, b: Vec<u8>| v.push(Item { bytes: b.into(), name: name.into() });
    let mut m = gen::default(K::Payload);
    m.md = Some(gen::pat(Role::Md, 3));
    m.data = None;
    let mut o = vec![];
    spec::encode(&m, &mut o);
    add("cut PAYLOAD", o[..o.len() - 1].to_vec());
    add("cut header", o[..5].to_vec());
    add("one byte", vec![0]);
    add("unknown type", vec![0, 0, 0, 1, 0x3C, 0, 9, 9]);
    add("extension type", vec![0, 0, 0, 1, 0xFC, 0, 9, 9]);
    spec::encode(&gen::default(K::Keepalive), &mut o);
    o[3] = 7;
    add("KEEPALIVE on stream 7", o.clone());
    let mut e = gen::default(K::Error);
    e.a = 0x201;
    e.sid = 0;
    spec::encode(&e, &mut o);
    add("APPLICATION_ERROR on stream 0", o.clone());
    v
}

fn concat(parts: &[Option<Bytes>]) -> Option<Bytes> {
    let all: Vec<u8> = parts.iter().flatten().flat_map(|b| b.iter().copied()).collect();
    if all.is_empty() {
        None
    } else {
        Some(all.into())
    }
}

fn reassemble<T: Seg>(items: &[&Item]) -> Outcome {
    let mut l = SegmentList::<T>::empty();
    for i in items {
        l.push(T::make(i.bytes.clone()));
    }
    judge(items, l.into_payload().map(|p| p.split()))
}

fn judge(items: &[&Item], got: Result<(Option<Bytes>, Option<Bytes>), DecodeError>) -> Outcome {
    let parsed: Vec<_> = items.iter().map(|i| spec::parse(&i.bytes)).collect();
    let bad: Vec<_> = parsed.iter().filter_map(|p| p.as_ref().err()).collect();
    let (md, data) = match got {
        Err(e) => {
            let Some(k) = subject::error(&e) else {
                return Err(format!("fails with {:?}", e));
            };
            if bad.iter().any(|b| b.allows(&k)) {
                return Ok(());
            }
            return Err(format!("fails with {:?}, which is no error of these frames", e));
        }
        Ok(p) => p,
    };
    if !bad.is_empty() {
        return Err(format!("gives a payload although {} of the frames are malformed", bad.len()));
    }
    let frames: Vec<&M> = parsed.iter().filter_map(|p| p.as_ref().ok()).filter(|m| CARRIERS.contains(&m.k)).collect();
    let want_md = concat(&frames.iter().map(|m| m.md.clone()).collect::<Vec<_>>());
    let want_data = concat(&frames.iter().map(|m| m.data.clone()).collect::<Vec<_>>());
    if md != want_md {
        return Err(format!("metadata is {}, expected {}", subject::clip(&md), subject::clip(&want_md)));
    }
    if data != want_data {
        return Err(format!("data is {}, expected {}", subject::clip(&data), subject::clip(&want_data)));
    }
    Ok(())
}

fn run_sequence(ctx: &mut Ctx, alphabet: &[Vec<Item>], depth: usize, state: &'static str) -> Outcome {
    let mut items = vec![];
    let mut path = vec![];
    for a in alphabet.iter().take(depth) {
        let n = ctx.choose(a.len() + 1);
        if n == 0 {
            break;
        }
        items.push(&a[n - 1]);
        path.push(n);
    }
    ctx.state(&(state, &path));
    ctx.steps(1 + items.len() as u64);
    ctx.note(|| items.iter().map(|i| format!("[{}]", i.name)).collect::<Vec<_>>().join(" "));
    reassemble::<Bytes>(&items)?;
    reassemble::<Bytewise>(&items)?;
    reassemble::<Halves>(&items)
}

fn round_trip(ctx: &mut Ctx, md: Option<usize>, data: Option<usize>, size: usize, k: K, sid: u32) -> Outcome {
    let md = md.map(|n| gen::pat(Role::Md, n));
    let data = data.map(|n| gen::pat(Role::Data, n));
    pieces(ctx, md, data, size, k, sid)
}

fn pieces(ctx: &mut Ctx, md: Option<Bytes>, data: Option<Bytes>, size: usize, k: K, sid: u32) -> Outcome {
    let p = subject::payload(&md, &data);
    let chunks: Vec<_> = p.chunks(size).collect();
    let mut l = SegmentList::<Bytes>::empty();
    let last = chunks.len().wrapping_sub(1);
    for (i, c) in chunks.into_iter().enumerate() {
        let (m, d) = c.split();
        let mut f = gen::default(if i == 0 { k } else { K::Payload });
        f.sid = sid;
        f.flags = if i == last { 0 } else { spec::F_80 };
        if f.k == K::Payload {
            f.flags |= spec::F_20;
        }
        f.md = m;
        f.data = d;
        l.push(subject::build(&f).to_bytes());
        ctx.step();
    }
    let got = l.into_payload().map_err(|e| format!("reassembly fails with {:?}", e))?.split();
    let want = (md.filter(|b| !b.is_empty()), data.filter(|b| !b.is_empty()));
    if got.0 != want.0 {
        return Err(format!("metadata is {}, expected {}", subject::clip(&got.0), subject::clip(&want.0)));
    }
    if got.1 != want.1 {
        return Err(format!("data is {}, expected {}", subject::clip(&got.1), subject::clip(&want.1)));
    }
    Ok(())
}

pub fn c12(thorough: bool) -> Vec<Scenario> {
    let sizes = [None, Some(0), Some(1), Some(2)];
    let wide: Vec<Vec<Item>> = (0..3)
        .map(|i| {
            let mut v = carriers(i, &sizes, &[None, Some(1), Some(2)], &CARRIERS);
            v.extend(others());
            v.extend(broken());
            v
        })
        .collect();
    let depth = if thorough { 7 } else { 6 };
    let deep: Vec<Vec<Item>> = (0..depth)
        .map(|i| {
            let mut v = carriers(i, &[None, Some(2)], &[None, Some(1)], &[K::RequestFnf, K::Payload]);
            v.extend(carriers(i, &[Some(0)], &[Some(3)], &[K::RequestStream]));
            v.extend(others().into_iter().take(3));
            v.extend(broken().into_iter().take(4));
            v
        })
        .collect();
    let n = if thorough { 40 } else { 20 };
    vec![
        Scenario::new(
            "sequences",
            format!("all sequences of up to 3 of {} frames: every carrier with metadata absent, empty, 1, 2 bytes and \
                     data absent, 1, 2 bytes; every other type; {} malformed ones; as lists of Bytes, Chain, Bytewise",
                    wide[0].len(), broken().len()),
            move |ctx| run_sequence(ctx, &wide, 3, "wide"),
        ),
        Scenario::new(
            "long sequences",
            format!("all sequences of up to {} of {} frames", depth, deep[0].len()),
            move |ctx| run_sequence(ctx, &deep, depth, "deep"),
        ),
        Scenario::new(
            "flags",
            "all pairs of carriers with every combination of the four flags besides Metadata, parts absent or of 2 bytes, on \
             four streams in turn; all triples of carriers with every combination and both parts, and of the other types \
             with no flag or all of them",
            {
                let pairs: Vec<Vec<Item>> = (0..2).map(|i| flagged(i, &[None, Some(2)])).collect();
                let triples: Vec<Vec<Item>> = (0..3)
                    .map(|i| {
                        let mut v = flagged(i, &[Some(2)]);
                        v.extend(others());
                        v.extend(others().into_iter().map(|o| {
                            let mut b = o.bytes.to_vec();
                            // Not Metadata and Resume, which change the layout.
                            let bits = if b[4] >> 2 == K::Setup.number() as u8 { 0x40 } else { 0x2E0 };
                            let h = u16::from_be_bytes([b[4], b[5]]) | bits;
                            b[4..6].copy_from_slice(&h.to_be_bytes());
                            Item { bytes: b.into(), name: format!("{} with flags", o.name) }
                        }));
                        v
                    })
                    .collect();
                move |ctx| {
                    if ctx.flip() {
                        run_sequence(ctx, &triples, 3, "flag triples")
                    } else {
                        run_sequence(ctx, &pairs, 2, "flag pairs")
                    }
                }
            },
        ),
        Scenario::new(
            "fragments",
            format!("payloads with metadata and data absent or of 0-{} bytes, chunked by 1-{}, first frame of any \
                     request type, the rest PAYLOAD; encoded by the library", n, n + 1),
            move |ctx| {
                let md = ctx.choose(n + 2).checked_sub(1);
                let data = ctx.choose(n + 2).checked_sub(1);
                let size = ctx.choose(n + 1) + 1;
                let k = *ctx.pick(&CARRIERS);
                ctx.state(&("fragments", md, data, size, k));
                ctx.note(|| format!("metadata {:?} data {:?} chunk size {} {:?}", md, data, size, k));
                round_trip(ctx, md, data, size, k, 5)
            },
        ),
        Scenario::new(
            "alike",
            "1-9 or 300 copies of the same frame: every carrier with parts absent, empty or of 1, 2 or 9 bytes of 6 fillers, \
             with another frame first, in the middle, last or nowhere",
            move |ctx| {
                let k = *ctx.pick(&CARRIERS);
                let mut m = gen::default(k);
                let (a, b) = (ctx.choose(5), ctx.choose(5));
                let f = ctx.choose(crate::judge::FILLERS);
                let part = |n: usize, r| [None, Some(0), Some(1), Some(2), Some(9)][n].map(|n| crate::judge::filler(f, r, n));
                m.md = part(a, Role::Md);
                m.data = part(b, Role::Data);
                let n = match ctx.choose(10) {
                    9 => 300,
                    n => n + 1,
                };
                let alike = item(&m);
                let other = ctx.choose(4);
                m.md = Some(gen::pat(Role::Token, 2));
                m.data = Some(gen::pat(Role::Token, 4));
                let odd = item(&m);
                let mut items = vec![&alike; n];
                match other {
                    0 => (),
                    1 => items.insert(0, &odd),
                    2 => items.insert(n / 2, &odd),
                    _ => items.push(&odd),
                }
                ctx.state(&("alike", k, a, b, f, n, other));
                ctx.note(|| format!("{} times {}, another {}", n, alike.name, ["nowhere", "first", "amid", "last"][other]));
                ctx.steps(items.len() as u64);
                reassemble::<Bytes>(&items)?;
                reassemble::<Nested>(&items)
            },
        ),
        Scenario::new(
            "contents",
            format!("payloads with parts of 0-{} bytes of 6 fillers, chunked by 1-5", n),
            move |ctx| {
                let md = ctx.choose(n + 1);
                let data = ctx.choose(n + 1);
                let size = ctx.choose(5) + 1;
                let (a, b) = (ctx.choose(crate::judge::FILLERS), ctx.choose(crate::judge::FILLERS));
                ctx.state(&("contents", md, data, size, a, b));
                ctx.note(|| format!("metadata {} of filler {}, data {} of filler {}, by {}", md, a, data, b, size));
                let md = crate::judge::filler(a, Role::Md, md);
                let data = crate::judge::filler(b, Role::Data, data);
                pieces(ctx, Some(md), Some(data), size, K::RequestFnf, 5)
            },
        ),
        Scenario::new(
            "large fragments",
            "payloads of up to 2^24 bytes and more, chunked by 1 (up to 70000 chunks) to 2^24-1",
            move |ctx| {
                let parts = [None, Some(0), Some(255), Some(256), Some(65535), Some(70000), Some((1 << 24) - 1), Some((1 << 24) + 5)];
                let md = *ctx.pick(&parts);
                let data = *ctx.pick(&parts);
                let size = *ctx.pick(&[1usize, 255, 256, 65535, 65536, 1 << 20, (1 << 24) - 1]);
                let most = md.unwrap_or(0).max(data.unwrap_or(0)) / size;
                if most > 70000 {
                    return Ok(());
                }
                ctx.state(&("large", md, data, size));
                ctx.note(|| format!("metadata {:?} data {:?} chunk size {}", md, data, size));
                round_trip(ctx, md, data, size, K::RequestFnf, 7)
            },
        ),
    ]
}
