//! Alphabets and generators: every value comes from a finite list, every list is enumerated.
use crate::spec::{self, K, M};
use bytes::Bytes;
use explore::Ctx;
use std::sync::OnceLock;

/// Position-dependent bytes, different for every role, so that swapped, shifted, repeated or
/// truncated parts are noticed.
#[derive(Clone, Copy)]
pub enum Role {
    Md = 0,
    Data = 1,
    Token = 2,
}

pub const PAT_MAX: usize = (1 << 25) + 64;

fn pats() -> &'static [Vec<u8>; 3] {
    static P: OnceLock<[Vec<u8>; 3]> = OnceLock::new();
    P.get_or_init(|| {
        let mk = |salt: usize, mul: usize| {
            (0..PAT_MAX)
                .map(|i| {
                    (salt
                        .wrapping_add(i.wrapping_mul(mul))
                        .wrapping_add((i >> 8).wrapping_mul(59))
                        .wrapping_add((i >> 16).wrapping_mul(31))) as u8
                })
                .collect()
        };
        [mk(0x4d, 167), mk(0x91, 101), mk(0x17, 29)]
    })
}

pub fn pat(r: Role, n: usize) -> Bytes {
    Bytes::from_static(&pats()[r as usize][..n])
}

/// ASCII text.
pub fn mime(which: usize, n: usize) -> Bytes {
    static P: OnceLock<[Vec<u8>; 2]> = OnceLock::new();
    let p = P.get_or_init(|| {
        [
            (0..400).map(|i| b'a' + (i * 7 % 26) as u8).collect(),
            (0..400).map(|i| b'0' + (i * 3 % 10) as u8).collect(),
        ]
    });
    Bytes::from_static(&p[which][..n])
}

fn with_first<T: PartialEq + Clone>(first: T, rest: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v = vec![first];
    for x in rest {
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

/// Powers of two and their neighbours, byte patterns, and small numbers, below `2^bits`.
pub fn ints(bits: u32, first: u64, lo: u64) -> Vec<u64> {
    let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let mut v = vec![];
    v.extend(0..=8u64);
    v.extend([max, max - 1, 0x0102030405060708, 0x01020304, 0x0102, 0x8040201008040201]);
    v.extend([0x55555555_55555555 & max, 0x2AAAAAAA_AAAAAAAA & max, 0xFFFFFFFE, 0x301]);
    for i in 0..bits {
        v.extend([(1u64 << i), (1u64 << i).wrapping_sub(1), (1u64 << i).wrapping_add(1)]);
    }
    for i in 0..bits / 8 {
        v.push((0xABu64 << (8 * i)) & max);
        v.push((max & !(0xFFu64 << (8 * i))) & max);
    }
    v.retain(|x| *x <= max && *x >= lo);
    with_first(first, v)
}

pub fn small_ints(bits: u32, first: u64, lo: u64) -> Vec<u64> {
    let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let mut v = vec![1, 0, max, 0x0102030405060708 & max, 1 << (bits - 1), 0x80, 0xFF, 0x100, 0xFFFF, 0x10000];
    v.retain(|x| *x <= max && *x >= lo);
    with_first(first, v)
}

pub struct Alpha {
    pub sid: Vec<u32>,
    pub u16s: Vec<u16>,
    pub u31: Vec<u64>,
    pub u31nz: Vec<u64>,
    pub u32s: Vec<u64>,
    pub u63: Vec<u64>,
    pub token: Vec<usize>,
    pub mime: Vec<usize>,
    pub part: Vec<Option<usize>>,
}

impl Alpha {
    pub fn full() -> Alpha {
        let mut sizes: Vec<usize> = (0..=40).collect();
        sizes.extend([63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513]);
        Alpha {
            sid: ints(31, 1, 1).into_iter().map(|x| x as u32).collect(),
            u16s: ints(16, 1, 0).into_iter().map(|x| x as u16).collect(),
            u31: ints(31, 5, 0),
            u31nz: ints(31, 5, 1),
            u32s: ints(32, 0x301, 0),
            u63: ints(63, 9, 0),
            token: with_first(2, sizes.iter().copied()),
            mime: with_first(3, (0..=20).chain([126, 127, 128, 129, 254, 255])),
            part: with_first(
                Some(3),
                std::iter::once(None).chain(sizes.iter().map(|s| Some(*s))),
            ),
        }
    }

    pub fn small() -> Alpha {
        Alpha {
            sid: small_ints(31, 1, 1).into_iter().map(|x| x as u32).collect(),
            u16s: small_ints(16, 1, 0).into_iter().map(|x| x as u16).collect(),
            u31: small_ints(31, 5, 0),
            u31nz: small_ints(31, 5, 1),
            u32s: small_ints(32, 0x301, 0),
            u63: small_ints(63, 9, 0),
            token: vec![2, 0, 1, 3, 255, 256],
            mime: vec![3, 0, 1, 2, 255],
            part: vec![Some(3), None, Some(0), Some(1), Some(2), Some(255), Some(256)],
        }
    }

    /// Just presence and absence.
    pub fn tiny() -> Alpha {
        Alpha {
            sid: vec![1, 0x7FFFFFFF],
            u16s: vec![1, 0x0203],
            u31: vec![5, 0x7FFFFFFF],
            u31nz: vec![5, 0x7FFFFFFF],
            u32s: vec![0x301, 0xFFFFFFFE],
            u63: vec![9, 0x7FFF_FFFF_FFFF_FFFF],
            token: vec![2, 0],
            mime: vec![3, 0],
            part: vec![Some(3), None, Some(0)],
        }
    }
}

/// A stream id the type (and error code) may be used on.
fn valid_sid(k: K, code: u64, alpha: &Alpha, ctx: &mut Ctx, budget: &mut u32) -> u32 {
    if k.on_connection() {
        return 0;
    }
    if k == K::Error {
        let code = code as u32;
        if spec::CONNECTION_CODES.contains(&code) {
            return 0;
        }
        if !spec::STREAM_CODES.contains(&code) {
            let v: Vec<u32> = alpha.sid.iter().copied().chain([0]).collect();
            return ctx.dev(budget, &v);
        }
    }
    // Requests on stream 0 are within the constructors' documented limits too.
    let v: Vec<u32> = alpha.sid.iter().copied().chain([0]).collect();
    if k == K::Error {
        ctx.dev(budget, &alpha.sid)
    } else {
        ctx.dev(budget, &v)
    }
}

/// A constructible frame of the given type, with up to `budget` fields off their default; flags
/// are free.
pub fn model(ctx: &mut Ctx, k: K, alpha: &Alpha, mut budget: u32) -> M {
    let b = &mut budget;
    let mut m = M::new(k);
    for f in [spec::F_80, spec::F_40, spec::F_20] {
        if k.flags() & f != 0 && ctx.flip() {
            m.flags |= f;
        }
    }
    match k {
        K::Setup => {
            m.ver = (ctx.dev(b, &alpha.u16s), ctx.dev(b, &alpha.u16s));
            m.a = ctx.dev(b, &alpha.u31nz);
            m.b = ctx.dev(b, &alpha.u31nz);
            if m.flags & spec::F_80 != 0 {
                m.token = Some(pat(Role::Token, ctx.dev(b, &alpha.token)));
            }
            m.mm = mime(0, ctx.dev(b, &alpha.mime));
            m.dm = mime(1, ctx.dev(b, &alpha.mime));
        }
        K::Lease => {
            m.a = ctx.dev(b, &alpha.u31);
            m.b = ctx.dev(b, &alpha.u31);
        }
        K::Keepalive | K::ResumeOk => m.a = ctx.dev(b, &alpha.u63),
        K::RequestStream | K::RequestChannel | K::RequestN => m.a = ctx.dev(b, &alpha.u31nz),
        K::Error => {
            let v: Vec<u64> = alpha
                .u32s
                .iter()
                .copied()
                .chain(spec::CONNECTION_CODES.iter().map(|c| *c as u64))
                .chain(spec::STREAM_CODES.iter().map(|c| *c as u64))
                .collect();
            m.a = ctx.dev(b, &v);
        }
        K::Resume => {
            m.ver = (ctx.dev(b, &alpha.u16s), ctx.dev(b, &alpha.u16s));
            m.token = Some(pat(Role::Token, ctx.dev(b, &alpha.token)));
            m.a = ctx.dev(b, &alpha.u63);
            m.b = ctx.dev(b, &alpha.u63);
        }
        _ => (),
    }
    m.sid = valid_sid(k, m.a, alpha, ctx, b);
    if k == K::MetadataPush {
        let v: Vec<usize> = alpha.part.iter().flatten().copied().collect();
        m.md = Some(pat(Role::Md, ctx.dev(b, &v)));
    } else if k.may_have_metadata() {
        m.md = ctx.dev(b, &alpha.part).map(|n| pat(Role::Md, n));
    }
    if k.may_have_data() {
        m.data = ctx.dev(b, &alpha.part).map(|n| pat(Role::Data, n));
    }
    m
}

/// The largest parts, for the types that have them.
pub fn large(ctx: &mut Ctx, k: K) -> M {
    const M24: usize = (1 << 24) - 1;
    let sizes = [65535usize, 65536, 65537, 0x010203, M24 - 1, M24];
    let opt = [None, Some(0), Some(1), Some(65535), Some(65536), Some(M24), Some(M24 + 2)];
    let mut m = M::new(k);
    m.a = 7;
    m.b = 8;
    if !k.on_connection() {
        m.sid = 3;
    }
    if k == K::Setup || k == K::Resume {
        m.token = Some(pat(Role::Token, *ctx.pick(&[65535usize, 65534, 32768, 32767, 0x0102])));
        if k == K::Setup {
            m.flags = spec::F_80;
            m.mm = mime(0, *ctx.pick(&[255usize, 0]));
            m.dm = mime(1, *ctx.pick(&[255usize, 0]));
            m.md = ctx.pick(&[None, Some(65536)]).map(|n| pat(Role::Md, n));
        }
        return m;
    }
    if k.has_payload() {
        m.md = Some(pat(Role::Md, *ctx.pick(&sizes)));
        m.data = ctx.pick(&opt).map(|n| pat(Role::Data, n));
    } else if k.may_have_metadata() {
        m.md = Some(pat(Role::Md, *ctx.pick(&[65535, 65536, M24, M24 + 1, M24 + 2])));
    } else {
        m.data = Some(pat(Role::Data, *ctx.pick(&[65535, 65536, M24, M24 + 1, M24 + 2])));
    }
    m
}

/// Integer fields of a type: (name, bits, slot).
pub fn int_fields(k: K) -> Vec<(Slot, u32)> {
    use Slot::*;
    let mut v = vec![];
    if !k.on_connection() && k != K::Error {
        v.push((Sid, 31));
    }
    match k {
        K::Setup => v.extend([(Major, 16), (Minor, 16), (A, 31), (B, 31)]),
        K::Lease => v.extend([(A, 31), (B, 31)]),
        K::Keepalive | K::ResumeOk => v.push((A, 63)),
        K::RequestStream | K::RequestChannel | K::RequestN => v.push((A, 31)),
        K::Error => v.extend([(Sid, 31), (A, 32)]),
        K::Resume => v.extend([(Major, 16), (Minor, 16), (A, 63), (B, 63)]),
        _ => (),
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Slot {
    Sid,
    Major,
    Minor,
    A,
    B,
}

impl Slot {
    pub fn set(self, m: &mut M, v: u64) {
        match self {
            Slot::Sid => m.sid = v as u32,
            Slot::Major => m.ver.0 = v as u16,
            Slot::Minor => m.ver.1 = v as u16,
            Slot::A => m.a = v,
            Slot::B => m.b = v,
        }
    }
}

/// The frame with every field at its default.
pub fn default(k: K) -> M {
    let mut m = M::new(k);
    match k {
        K::Setup => {
            m.ver = (1, 0);
            m.a = 500;
            m.b = 900;
            m.mm = mime(0, 3);
            m.dm = mime(1, 4);
        }
        K::Lease => {
            m.a = 5;
            m.b = 6;
        }
        K::Resume => {
            m.ver = (1, 0);
            m.token = Some(pat(Role::Token, 2));
            m.a = 5;
            m.b = 6;
        }
        K::Error => m.a = 0x301,
        K::Cancel | K::RequestResponse | K::RequestFnf | K::Payload | K::MetadataPush => (),
        _ => m.a = 5,
    }
    if !k.on_connection() {
        m.sid = 1;
    }
    if k.may_have_metadata() {
        m.md = Some(pat(Role::Md, 3));
    }
    if k.may_have_data() {
        m.data = Some(pat(Role::Data, 2));
    }
    m
}

/// A default frame with one integer field running through all of its 16-bit windows.
pub fn dense_int(ctx: &mut Ctx) -> M {
    let k = *ctx.pick(&spec::KINDS);
    let mut m = default(k);
    let fields = int_fields(k);
    if fields.is_empty() {
        return m;
    }
    let (slot, bits) = *ctx.pick(&fields);
    let window = ctx.choose((bits as usize + 15) / 16);
    let low = ctx.choose(1 << (bits - 16 * window as u32).min(16)) as u64;
    let mut v = low << (16 * window);
    if v == 0 && matches!(slot, Slot::A | Slot::B) && bits == 31 {
        v = 1;
    }
    if k == K::Error {
        if slot == Slot::A {
            let c = v as u32;
            m.sid = if spec::CONNECTION_CODES.contains(&c) { 0 } else { 1 };
        } else {
            m.a = 0x301;
        }
    }
    slot.set(&mut m, v);
    m
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part {
    Md,
    Data,
    Token,
    MdMime,
    DataMime,
}

pub fn parts(k: K) -> Vec<Part> {
    let mut v = vec![];
    if k.may_have_metadata() {
        v.push(Part::Md);
    }
    if k.may_have_data() {
        v.push(Part::Data);
    }
    if k == K::Setup || k == K::Resume {
        v.push(Part::Token);
    }
    if k == K::Setup {
        v.extend([Part::MdMime, Part::DataMime]);
    }
    v
}

impl Part {
    pub fn is_mime(self) -> bool {
        matches!(self, Part::MdMime | Part::DataMime)
    }

    pub fn set(self, m: &mut M, b: Bytes) {
        match self {
            Part::Md => m.md = Some(b),
            Part::Data => m.data = Some(b),
            Part::Token => {
                m.token = Some(b);
                if m.k == K::Setup {
                    m.flags |= spec::F_80;
                }
            }
            Part::MdMime => m.mm = b,
            Part::DataMime => m.dm = b,
        }
    }
}

/// Texts a part may be mistaken by.
pub const TEXTS: [&str; 36] = [
    "application/binary", "application/json", "application/octet-stream", "text/plain", "Text/Plain", "TEXT/PLAIN",
    "text/plain ", " text/plain", "text/plain;charset=utf-8", "message/x.rsocket.composite-metadata.v0",
    "message/x.rsocket.routing.v0", "*/*", "/", "", " ", "\0", "\n", "\r\n", "0", "null", "none", "true", "{}", "\"", "\\",
    "\u{FEFF}text", "\u{e9}", "e\u{301}", "\u{df}", "\u{1F600}", "\u{7F}", "\u{80}", "\u{FFFD}", "application/binary\0",
    "\0\0\0\0\0\0", "aaaaaaaaaaaaaaaa",
];

/// Text of characters of all widths, of about the given number of bytes.
pub fn wide_text(ctx: &mut Ctx, lens: &[usize]) -> Vec<u8> {
    let unit = *ctx.pick(&["\u{e9}", "\u{65e5}", "\u{1F600}", "a\u{e9}\u{65e5}\u{1F600}", "\u{65e5}x"]);
    let lead = ctx.choose(4);
    let n = *ctx.pick(lens);
    let mut s = "abc"[..lead.min(n)].to_string();
    'all: loop {
        for c in unit.chars() {
            if s.len() + c.len_utf8() > n {
                break 'all;
            }
            s.push(c);
        }
    }
    s.into_bytes()
}

/// Exactly `n` bytes: a pattern, or text of characters of one width.
pub fn filler(which: usize, r: Role, n: usize) -> Bytes {
    match which {
        0 => pat(r, n),
        1 => (0..n).map(|i| b'a' + (i % 25) as u8).collect(),
        w => {
            let c = ["\u{e9}", "\u{20ac}", "\u{1F980}"][w - 2];
            let mut s = "y".repeat(n % c.len());
            s.push_str(&c.repeat(n / c.len()));
            Bytes::from(s)
        }
    }
}

/// A default frame one of whose parts runs through contents: all strings of up to `short` bytes,
/// every byte at every position of a longer one, texts, runs of one byte or of wide characters, all
/// parts alike. MIME types are ASCII, unless `wire`: what a peer may send, the builder may refuse.
pub fn contents(ctx: &mut Ctx, short: usize, wire: bool) -> M {
    let k = *ctx.pick(&spec::KINDS);
    let mut m = default(k);
    let ps = parts(k);
    if ps.is_empty() {
        return m;
    }
    let part = *ctx.pick(&ps);
    let values = if part.is_mime() && !wire { 128 } else { 256 };
    if ctx.flip() {
        m.flags = k.flags();
        if k == K::Setup {
            m.token = Some(pat(Role::Token, 2));
        }
    }
    let b: Vec<u8> = match ctx.choose(6) {
        5 if part.is_mime() && !wire => return m,
        5 => {
            let mut lens: Vec<usize> = (1..=70).chain(124..=132).chain(252..=255).collect();
            if !part.is_mime() {
                lens.extend(256..=260);
            }
            wide_text(ctx, &lens)
        }
        0 => {
            let n = 1 + ctx.choose(short);
            (0..n).map(|_| ctx.choose(values) as u8).collect()
        }
        1 => {
            let n = *ctx.pick(&[4usize, 8, 16, 33]);
            let mut b = if part.is_mime() { mime(0, n).to_vec() } else { pat(Role::Data, n).to_vec() };
            let at = ctx.choose(n);
            b[at] = ctx.choose(values) as u8;
            b
        }
        2 => {
            let t = ctx.pick(&TEXTS);
            if part.is_mime() && !wire && !t.is_ascii() {
                return m;
            }
            t.as_bytes().to_vec()
        }
        3 => {
            let n = ctx.choose(41);
            let last = if part.is_mime() && !wire { 0x2F } else { 0xFF };
            vec![*ctx.pick(&[0u8, 0x20, 0x61, 0x41, 0x7F, 0x0A, last]); n]
        }
        _ => {
            let n = ctx.choose(21);
            let b = mime(ctx.choose(2), n);
            for p in ps {
                p.set(&mut m, b.clone());
            }
            return m;
        }
    };
    part.set(&mut m, Bytes::from(b));
    m
}

/// Two parts of a frame, each of every size; or of sizes that add up to one near a power of two.
pub fn two_sizes(ctx: &mut Ctx, top: usize) -> M {
    let kinds: Vec<K> = spec::KINDS.iter().copied().filter(|k| parts(*k).len() > 1).collect();
    let k = *ctx.pick(&kinds);
    let ps = parts(k);
    let p = ctx.choose(ps.len() - 1);
    let q = p + 1 + ctx.choose(ps.len() - p - 1);
    let most = |x: Part| if x.is_mime() { 255 } else if x == Part::Token { 65535 } else { usize::MAX };
    let (n, o) = if ctx.flip() {
        (ctx.choose(top.min(most(ps[p])) + 1), ctx.choose(top.min(most(ps[q])) + 1))
    } else {
        let sum = *ctx.pick(&[511usize, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537]);
        let n = *ctx.pick(&[1usize, 2, 3, 6, 10, 100, 128, 200, 255, 256, 300, 500]);
        let n = n.min(most(ps[p])).min(sum);
        let (n, o) = if ctx.flip() && !ps[p].is_mime() { (sum - n, n) } else { (n, sum - n) };
        (n.min(most(ps[p])), o.min(most(ps[q])))
    };
    let mut m = default(k);
    for (i, (part, n)) in [(ps[p], n), (ps[q], o)].into_iter().enumerate() {
        let b = if part.is_mime() { mime(i, n) } else { pat([Role::Md, Role::Data][i], n) };
        part.set(&mut m, b);
    }
    m
}

/// Codes and streams that go together.
pub fn proper<const N: usize>(k: K, frames: [&mut M; N]) {
    if k != K::Error {
        return;
    }
    for m in frames {
        m.sid = if crate::spec::CONNECTION_CODES.contains(&(m.a as u32)) {
            0
        } else if m.sid == 0 {
            1
        } else {
            m.sid
        };
    }
}

pub fn least(k: K) -> u64 {
    matches!(k, K::Setup | K::RequestN | K::RequestStream | K::RequestChannel) as u64
}

/// Where numbers that are put together into one would run into each other.
pub fn brinks(bits: u32, lo: u64, thorough: bool) -> Vec<u64> {
    let max = (1u64 << bits) - 1;
    let mut v = vec![0, 1, 2, 3, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x1_0000, 0x1_0001];
    v.extend([0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 1 << 32, 1 << 62, max - 1, max]);
    if thorough {
        v.extend([0x7F, 0x80, 0xFE, 0x101, 999, 1000, 1001, 0x1_FFFF, 0xFF_FFFF, 0x100_0000]);
    }
    v.retain(|x| *x <= max && *x >= lo);
    v.sort_unstable();
    v.dedup();
    v
}

/// A frame with two integer fields, or one and a part, that may have to do with each other.
pub fn together(ctx: &mut Ctx, thorough: bool) -> M {
    let kinds: Vec<K> = crate::spec::KINDS.iter().copied().filter(|k| !int_fields(*k).is_empty()).collect();
    let k = *ctx.pick(&kinds);
    let fields = int_fields(k);
    let ps = parts(k);
    let mut m = default(k);
    if ctx.flip() {
        m.flags = k.flags();
        if k == K::Setup {
            m.token = Some(pat(Role::Token, 2));
        }
    }
    let c = ctx.choose(fields.len());
    let d = c + 1 + ctx.choose(fields.len() + ps.len() - c - 1 + (fields.len() + ps.len() == c + 1) as usize);
    let (slot, bits) = fields[c];
    let max = (1u64 << bits) - 1;
    if d < fields.len() {
        let (other, others) = fields[d];
        if ctx.flip() {
            slot.set(&mut m, *ctx.pick(&brinks(bits, least(k), thorough)));
            other.set(&mut m, *ctx.pick(&brinks(others, least(k), thorough)));
        } else {
            // Alike, or nearly.
            let max = max.min((1u64 << others) - 1);
            let (x, y) = {
                let x = *ctx.pick(&small_ints(bits, least(k), 0));
                near(ctx, x, max)
            };
            slot.set(&mut m, x.max(least(k)));
            other.set(&mut m, y.max(least(k)));
        }
    } else if let Some(part) = ps.get(d - fields.len()) {
        let most = if part.is_mime() { 255 } else { 300 };
        let (n, v) = if ctx.flip() {
            (ctx.choose(17), ctx.choose(17) as u64)
        } else {
            let n = ctx.choose(most + 1);
            let v = near(ctx, n as u64, max).1;
            (n, v)
        };
        slot.set(&mut m, v.max(least(k)));
        let n = n.max(part.is_mime() as usize);
        let b = if part.is_mime() { mime(0, n) } else { pat(Role::Data, n) };
        part.set(&mut m, b);
    }
    proper(k, [&mut m]);
    m
}

/// A number that has to do with another.
fn near(ctx: &mut Ctx, x: u64, max: u64) -> (u64, u64) {
    let x = x.min(max);
    let y = [x, x.wrapping_sub(1), x + 1, x * 2, x / 2, !x, x << 8, x >> 8, x.swap_bytes(), max - x];
    (x, *ctx.pick(&y) & max)
}

/// Pieces of one buffer of memory, whose contents recur: side by side, apart, overlapping, one in the other, or the same.
pub fn pieces(ctx: &mut Ctx, n: usize, least: usize, most: usize) -> Vec<Bytes> {
    const TEXT: &[u8; 12] = b"abcabcabdabc";
    let whole = match ctx.choose(3) {
        0 => Bytes::from_static(TEXT),
        1 => Bytes::from(TEXT.to_vec()),
        _ => {
            let mut v = Vec::with_capacity(100);
            v.extend_from_slice(TEXT);
            Bytes::from(v)
        }
    };
    (0..n)
        .map(|_| {
            let from = ctx.choose(7);
            let len = least + ctx.choose(most - least + 1);
            whole.slice(from..(from + len).min(TEXT.len()))
        })
        .collect()
}

/// A frame two of whose parts are in one buffer.
pub fn shared(ctx: &mut Ctx) -> M {
    let kinds: Vec<K> = spec::KINDS.iter().copied().filter(|k| parts(*k).len() > 1).collect();
    let k = *ctx.pick(&kinds);
    let ps = parts(k);
    let p = ctx.choose(ps.len() - 1);
    let q = p + 1 + ctx.choose(ps.len() - p - 1);
    let least = (ps[p].is_mime() || ps[q].is_mime()) as usize;
    let mut m = default(k);
    let b = pieces(ctx, 2, least, 5);
    ps[p].set(&mut m, b[0].clone());
    ps[q].set(&mut m, b[1].clone());
    m
}

/// Two frames that differ in a single place: one byte of one part, or one field.
pub fn twins(ctx: &mut Ctx) -> (M, M) {
    let k = *ctx.pick(&spec::KINDS);
    let mut a = default(k);
    if ctx.flip() {
        a.flags = k.flags();
        if k == K::Setup {
            a.token = Some(pat(Role::Token, 2));
        }
    }
    let ps = parts(k);
    let fields = int_fields(k);
    let n = ps.len() + fields.len();
    if n == 0 {
        return (a.clone(), a);
    }
    let c = ctx.choose(n);
    let mut b = a.clone();
    if c < ps.len() {
        let n = *ctx.pick(&[1usize, 2, 3, 4, 5, 8, 9, 16, 17, 24, 32, 33, 64, 65, 128, 255]);
        let base = if ps[c].is_mime() { mime(0, n).to_vec() } else { pat(Role::Data, n).to_vec() };
        let mut other = base.clone();
        let at = ctx.choose(n);
        other[at] ^= *ctx.pick(&[1u8, 0x20, 0x40]);
        ps[c].set(&mut a, Bytes::from(base));
        ps[c].set(&mut b, Bytes::from(other));
    } else {
        let (slot, bits) = fields[c - ps.len()];
        let base = *ctx.pick(&[0x0102030405060708u64, 0x5555_5555_5555_5555, 0x1122_3344_5566_7788]) & ((1 << bits) - 1);
        slot.set(&mut a, base);
        slot.set(&mut b, base ^ 1 << ctx.choose(bits as usize));
        if k == K::Error {
            // Codes that may be used anywhere.
            if slot == Slot::A {
                a.a |= 0x1000;
                b.a |= 0x1000;
            }
            a.sid = a.sid.max(1);
            b.sid = b.sid.max(1);
        }
    }
    (a, b)
}

// ---- byte strings for the decoder ----

#[derive(Clone, Copy)]
pub enum Decl {
    /// The declared length is the real one plus this.
    Delta(i64),
    /// The declared length is this.
    Is(u64),
}

/// A byte string shaped like a frame, with up to `budget` departures from a well-formed one; all
/// of its truncations are explored.
pub fn shaped(ctx: &mut Ctx, o: &mut Vec<u8>, mut budget: u32, cut: bool) {
    let b = &mut budget;
    o.clear();
    let types: [u16; 18] = [4, 5, 6, 7, 10, 1, 2, 3, 8, 9, 11, 12, 13, 14, 0x3F, 0, 0x0F, 0x20];
    let ty = *ctx.pick(&types);
    let k = K::from_number(ty);
    let conn = k.map_or(false, |k| k.on_connection());
    let sid = if conn {
        ctx.dev(b, &[0u32, 1, 0x80000000, 0x80000001, 0x7FFFFFFF, 0xFFFFFFFF, 0x100])
    } else {
        ctx.dev(b, &[1u32, 0, 0x80000001, 0x80000000, 0x7FFFFFFF, 0xFFFFFFFF, 0x01020304])
    };
    spec::be32(o, sid);
    let flags = ctx.choose(32) as u16; // the five flags the protocol defines
    let low = ctx.dev(b, &[0u16, 0x1F, 1, 2, 4, 8, 0x10]);
    spec::be16(o, ty << 10 | flags << 5 | low);
    let word = flags << 5;
    let u32s = [5u64, 0, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x80000005, 0x01020304, 1];
    let u64s = [
        9u64,
        0,
        0x7FFF_FFFF_FFFF_FFFF,
        0x8000_0000_0000_0000,
        0xFFFF_FFFF_FFFF_FFFF,
        0x8102_0304_0506_0708,
    ];
    let codes = [
        0x301u64, 0, 1, 2, 3, 4, 5, 0x101, 0x102, 0x201, 0x202, 0x203, 0x204, 0x205, 0x80000001,
        0xFFFFFFFF, 0xFFFFFFFE,
    ];
    let vers = [1u16, 0, 0xFFFF, 0x0102];
    let lens = [2usize, 0, 1, 5];
    let decls = [
        Decl::Delta(0),
        Decl::Delta(-1),
        Decl::Delta(1),
        Decl::Delta(2),
        Decl::Delta(-2),
        Decl::Is(0),
        Decl::Is(1),
        Decl::Is(0x80),
        Decl::Is(0xFF),
        Decl::Is(0x100),
        Decl::Is(0x8000),
        Decl::Is(0xFFFF),
        Decl::Is(0x10000),
        Decl::Is(0x800000),
        Decl::Is(0xFFFFFF),
    ];
    let mut counted = |ctx: &mut Ctx, o: &mut Vec<u8>, b: &mut u32, width: usize, n: usize, body: &[u8]| {
        let _ = n;
        let d = match ctx.dev(b, &decls) {
            Decl::Delta(d) => (body.len() as i64 + d).max(0) as u64,
            Decl::Is(v) => v,
        };
        match width {
            1 => o.push(d as u8),
            2 => spec::be16(o, d as u16),
            _ => spec::be24(o, d as u32 & 0xFFFFFF),
        }
        o.extend_from_slice(body);
    };
    match k {
        Some(K::Setup) => {
            spec::be16(o, ctx.dev(b, &vers));
            spec::be16(o, ctx.dev(b, &vers));
            spec::be32(o, ctx.dev(b, &u32s) as u32);
            spec::be32(o, ctx.dev(b, &u32s) as u32);
            if word & spec::F_80 != 0 {
                let n = ctx.dev(b, &lens);
                counted(ctx, o, b, 2, n, &pat(Role::Token, n));
            }
            let n = ctx.dev(b, &[3usize, 0, 1]);
            let t = ctx.dev(b, &[mime(0, n), bytes_of(&[0x80, 0xFF, 0x7F]), bytes_of("é€".as_bytes())]);
            counted(ctx, o, b, 1, n, &t);
            let n = ctx.dev(b, &[4usize, 0, 1]);
            let t = ctx.dev(b, &[mime(1, n), bytes_of(&[0xC0, 0x80]), bytes_of("ß".as_bytes())]);
            counted(ctx, o, b, 1, n, &t);
        }
        Some(K::Lease) => {
            spec::be32(o, ctx.dev(b, &u32s) as u32);
            spec::be32(o, ctx.dev(b, &u32s) as u32);
        }
        Some(K::Keepalive) | Some(K::ResumeOk) => spec::be64(o, ctx.dev(b, &u64s)),
        Some(K::RequestStream) | Some(K::RequestChannel) | Some(K::RequestN) => {
            spec::be32(o, ctx.dev(b, &u32s) as u32)
        }
        Some(K::Error) => spec::be32(o, *ctx.pick(&codes) as u32),
        Some(K::Resume) => {
            spec::be16(o, ctx.dev(b, &vers));
            spec::be16(o, ctx.dev(b, &vers));
            let n = ctx.dev(b, &lens);
            counted(ctx, o, b, 2, n, &pat(Role::Token, n));
            spec::be64(o, ctx.dev(b, &u64s));
            spec::be64(o, ctx.dev(b, &u64s));
        }
        _ => (),
    }
    if k.map_or(false, |k| k.has_payload()) && word & spec::F_METADATA != 0 {
        let n = ctx.dev(b, &lens);
        counted(ctx, o, b, 3, n, &pat(Role::Md, n));
    }
    let n = ctx.dev(b, &[3usize, 0, 1, 2, 7]);
    o.extend_from_slice(&pat(Role::Data, n));
    if cut {
        // Cut anywhere: choice 0 keeps everything.
        let drop = ctx.choose(o.len() + 1);
        o.truncate(o.len() - drop);
    }
}

fn bytes_of(b: &[u8]) -> Bytes {
    Bytes::copy_from_slice(b)
}

/// A frame of the type's minimal well-formed body for any header.
pub fn body_for(ty: u16, word: u16) -> Vec<u8> {
    let Some(k) = K::from_number(ty) else { return vec![1, 2, 3] };
    let mut m = default(k);
    m.flags = word & k.flags();
    if k == K::Setup {
        m.token = if m.flags & spec::F_80 != 0 { Some(pat(Role::Token, 2)) } else { None };
    }
    if word & spec::F_METADATA == 0 && k != K::MetadataPush {
        m.md = None;
    }
    let mut o = vec![];
    spec::encode(&m, &mut o);
    o.split_off(6)
}
