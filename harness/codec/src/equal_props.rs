//! What is equal to what.
use crate::gen::{self, Alpha, Role};
use crate::spec::{self, K, M};
use crate::subject;
use bytes::Bytes;
use explore::{Ctx, Outcome, Scenario};

/// Whether the models say the same; `None` if they differ in no data and empty data only.
fn alike(a: &M, b: &M) -> Option<bool> {
    if a == b {
        return Some(true);
    }
    let full = |m: &M| {
        let mut m = m.clone();
        m.data = m.data.filter(|d| !d.is_empty());
        m
    };
    if full(a) == full(b) {
        None
    } else {
        Some(false)
    }
}

fn judge<T: PartialEq + Clone + std::fmt::Debug>(x: &T, y: &T, want: Option<bool>) -> Outcome {
    let show = || format!("{} and {}", subject::clip(x), subject::clip(y));
    #[allow(clippy::nonminimal_bool)]
    for (got, back, ne) in [(x == y, y == x, x != y), (x.clone() == y.clone(), y.clone() == *x, !(x.clone() == *y))] {
        if got != back || got == ne {
            return Err(format!("{}: == and != or both orders do not agree", show()));
        }
        if want.map_or(false, |w| w != got) {
            return Err(format!("{} are {}", show(), if got { "equal" } else { "not equal" }));
        }
    }
    Ok(())
}

fn frames(ctx: &mut Ctx, a: &M, b: &M) -> Outcome {
    ctx.step();
    ctx.note(|| format!("{} / {}", a.short(), b.short()));
    let want = alike(a, b);
    ctx.outcome(match want {
        Some(true) => "equal",
        Some(false) => "different",
        None => "not specified",
    });
    let (x, y) = (subject::build(a), subject::build(b));
    judge(&x, &y, want)?;
    // A copy says what the original says.
    subject::check(&x.clone(), a)?;
    macro_rules! inner {
        ($($v:ident)*) => {
            match (&x, &y) {
                $((binate::frame::Frame::$v(p), binate::frame::Frame::$v(q)) => judge(p, q, want),)*
                _ => Ok(()),
            }
        };
    }
    inner!(Setup Error Lease Keepalive RequestResponse RequestFnf RequestStream RequestChannel
           RequestN Cancel Payload MetadataPush Resume ResumeOk)
}

/// A length and where two byte strings of it differ.
fn place(ctx: &mut Ctx, most: usize) -> (usize, usize) {
    let mut sizes: Vec<usize> = (1..=20).collect();
    sizes.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4096, 65535, 65536, 70000]);
    sizes.retain(|n| *n <= most);
    let n = *ctx.pick(&sizes);
    let mut at: Vec<usize> = vec![n - 1, 0, n / 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024];
    at.extend(if n <= 20 { 0..n } else { 0..0 });
    at.retain(|i| *i < n);
    at.sort_unstable();
    at.dedup();
    (n, *ctx.pick(&at))
}

fn altered(ctx: &mut Ctx, b: &Bytes, at: usize) -> Bytes {
    let mut v = b.to_vec();
    v[at] ^= 1 << ctx.choose(7);
    v.into()
}

/// Pairs of bytes that strings are made of.
const LETTERS: [[u8; 2]; 6] = [[0, 1], [1, b'x'], [0, 0x7f], [b'a', b'b'], [b':', b'/'], [b'1', b',']];

fn string(ctx: &mut Ctx, letters: [u8; 2], least: usize, most: usize) -> Bytes {
    let n = least + ctx.choose(most - least + 1);
    (0..n).map(|_| letters[ctx.choose(2)]).collect::<Vec<u8>>().into()
}

pub fn c27(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(Scenario::new(
        "shapes",
        "all pairs of frames of a type that have every field and part from the two- and three-valued alphabets and any flags \
         (SETUP and RESUME: that depart from their default in up to 2 fields)",
        |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let budget = if matches!(k, K::Setup | K::Resume) { 2 } else { 99 };
            let a = gen::model(ctx, k, &Alpha::tiny(), budget);
            let b = gen::model(ctx, k, &Alpha::tiny(), budget);
            ctx.state(&(&a, &b));
            frames(ctx, &a, &b)
        },
    ));
    v.push(Scenario::new("types", "frames of two types, with up to one field off its default", |ctx| {
        let j = *ctx.pick(&spec::KINDS);
        let k = *ctx.pick(&spec::KINDS);
        let a = gen::model(ctx, j, &Alpha::tiny(), 1);
        let b = gen::model(ctx, k, &Alpha::tiny(), 1);
        ctx.state(&(&a, &b));
        frames(ctx, &a, &b)
    }));
    v.push(Scenario::new(
        "integers",
        "pairs of values of every integer field of every type: powers of two +-1 and byte patterns",
        |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let fields = gen::int_fields(k);
            if fields.is_empty() {
                return Ok(());
            }
            let (slot, bits) = *ctx.pick(&fields);
            let lo = gen::least(k);
            let vals = gen::ints(bits, 1, lo);
            let (mut a, mut b) = (gen::default(k), gen::default(k));
            if k == K::Error {
                // Codes and streams that go together.
                (a.a, b.a) = (0x301, 0x301);
            }
            slot.set(&mut a, *ctx.pick(&vals));
            slot.set(&mut b, *ctx.pick(&vals));
            gen::proper(k, [&mut a, &mut b]);
            ctx.state(&(&a, &b));
            frames(ctx, &a, &b)
        },
    ));
    v.push(Scenario::new(
        "parts",
        "every part of every type: absent, empty, all lengths to 40 and selected ones to 513, against each other; and parts of up to \
         70000 bytes that differ in one bit, at the ends, in the middle or at powers of two (anywhere, if short)",
        |ctx| {
            let k = *ctx.pick(&spec::KINDS);
            let parts = gen::parts(k);
            if parts.is_empty() {
                return Ok(());
            }
            let part = *ctx.pick(&parts);
            let (mut a, mut b) = (gen::default(k), gen::default(k));
            let most = if part.is_mime() {
                255
            } else if part == gen::Part::Token {
                65535
            } else {
                70000
            };
            let role = [Role::Md, Role::Data, Role::Token][part as usize % 3];
            if ctx.flip() {
                let (n, at) = place(ctx, most);
                let x = if part.is_mime() { gen::mime(0, n) } else { gen::pat(role, n) };
                let y = altered(ctx, &x, at);
                part.set(&mut a, x);
                part.set(&mut b, y);
            } else {
                let full = Alpha::full();
                let sizes = if part.is_mime() { &full.mime } else { &full.token };
                for m in [&mut a, &mut b] {
                    let n = *ctx.pick(sizes);
                    let bytes = if part.is_mime() { gen::mime(0, n) } else { gen::pat(role, n) };
                    part.set(m, bytes);
                }
                if part == gen::Part::Md && k != K::MetadataPush && ctx.flip() {
                    a.md = None;
                }
            }
            ctx.state(&(a.short(), b.short(), &a.md, &b.md, &a.data, &b.data));
            frames(ctx, &a, &b)
        },
    ));
    v.push(Scenario::new(
        "two integers",
        "frames that differ in any two of their integer fields: all pairs of pairs of 12 to 29 values around 0 and powers of 2",
        move |ctx| {
            let kinds: Vec<K> = spec::KINDS.iter().copied().filter(|k| gen::int_fields(*k).len() > 1).collect();
            let k = *ctx.pick(&kinds);
            let fields = gen::int_fields(k);
            let p = ctx.choose(fields.len() - 1);
            let q = p + 1 + ctx.choose(fields.len() - p - 1);
            let (mut a, mut b) = (gen::default(k), gen::default(k));
            for m in [&mut a, &mut b] {
                for (slot, bits) in [fields[p], fields[q]] {
                    slot.set(m, *ctx.pick(&gen::brinks(bits, gen::least(k), thorough)));
                }
            }
            gen::proper(k, [&mut a, &mut b]);
            ctx.state(&(&a, &b));
            frames(ctx, &a, &b)
        },
    ));
    v.push(Scenario::new(
        "integer and part",
        "frames that differ in any one of their integer fields (5 values) and any of their parts: all strings of up to 2 bytes of \
         two values (six pairs of values), or no metadata",
        |ctx| {
            let kinds: Vec<K> = spec::KINDS
                .iter()
                .copied()
                .filter(|k| !gen::int_fields(*k).is_empty() && !gen::parts(*k).is_empty())
                .collect();
            let k = *ctx.pick(&kinds);
            let (slot, _) = *ctx.pick(&gen::int_fields(k));
            let part = *ctx.pick(&gen::parts(k));
            let letters = *ctx.pick(&LETTERS);
            let (mut a, mut b) = (gen::default(k), gen::default(k));
            for m in [&mut a, &mut b] {
                slot.set(m, *ctx.pick(&[1, gen::least(k), 2, letters[1] as u64, 256]));
                if part == gen::Part::Md && k != K::MetadataPush && ctx.flip() {
                    m.md = None;
                    continue;
                }
                let s = string(ctx, letters, part.is_mime() as usize, 2);
                part.set(m, s);
            }
            gen::proper(k, [&mut a, &mut b]);
            ctx.state(&(&a, &b));
            frames(ctx, &a, &b)
        },
    ));
    v.push(Scenario::new(
        "shared memory",
        "payloads, and frames in any one of their parts: pieces of up to 4 bytes of one buffer of memory (of three kinds), side by \
         side, apart, overlapping, one in the other, or the same, with recurring contents",
        |ctx| {
            let kinds: Vec<K> = spec::KINDS.iter().copied().filter(|k| !gen::parts(*k).is_empty()).collect();
            let i = ctx.choose(kinds.len() + 1);
            if i == kinds.len() {
                ctx.step();
                let both = ctx.flip();
                let b = if both { gen::pieces(ctx, 2, 0, 3) } else { gen::pieces(ctx, 2, 0, 4) };
                let none = Some(Bytes::from_static(b"x"));
                let (md, data, md2, data2) = if both {
                    (Some(b[0].clone()), Some(b[1].clone()), Some(b[1].clone()), Some(b[0].clone()))
                } else if ctx.flip() {
                    (Some(b[0].clone()), none.clone(), Some(b[1].clone()), none)
                } else {
                    (none.clone(), Some(b[0].clone()), none, Some(b[1].clone()))
                };
                ctx.state(&(&md, &data, &md2, &data2));
                ctx.note(|| format!("{:?} {:?} / {:?} {:?}", md, data, md2, data2));
                let want = md == md2 && data == data2;
                return judge(&subject::payload(&md, &data), &subject::payload(&md2, &data2), Some(want));
            }
            let k = kinds[i];
            let part = *ctx.pick(&gen::parts(k));
            let (mut a, mut b) = (gen::default(k), gen::default(k));
            let pieces = gen::pieces(ctx, 2, part.is_mime() as usize, 4);
            part.set(&mut a, pieces[0].clone());
            part.set(&mut b, pieces[1].clone());
            ctx.state(&(&a, &b));
            frames(ctx, &a, &b)
        },
    ));
    let n = if thorough { 64 } else { 40 };
    v.push(Scenario::new(
        "payloads",
        format!("all pairs of payloads with parts absent or of 0 to {} bytes; parts that differ in one bit; parts exchanged", n),
        move |ctx| {
            let len = |ctx: &mut Ctx| ctx.choose(n + 2).checked_sub(1);
            let md = len(ctx).map(|n| gen::pat(Role::Md, n));
            let data = len(ctx).map(|n| gen::pat(Role::Data, n));
            let (md2, data2) = match ctx.choose(4) {
                0 => (len(ctx).map(|n| gen::pat(Role::Md, n)), len(ctx).map(|n| gen::pat(Role::Data, n))),
                1 => (data.clone(), md.clone()),
                2 => match &md {
                    Some(b) if !b.is_empty() => {
                        let at = ctx.choose(b.len());
                        (Some(altered(ctx, b, at)), data.clone())
                    }
                    _ => (md.clone(), data.clone()),
                },
                _ => match &data {
                    Some(b) if !b.is_empty() => {
                        let at = ctx.choose(b.len());
                        (md.clone(), Some(altered(ctx, b, at)))
                    }
                    _ => (md.clone(), data.clone()),
                },
            };
            ctx.step();
            ctx.state(&(&md, &data, &md2, &data2));
            let full = |d: &Option<Bytes>| d.clone().filter(|b| !b.is_empty());
            let want = if md == md2 && data == data2 {
                Some(true)
            } else if md == md2 && full(&data) == full(&data2) {
                None
            } else {
                Some(false)
            };
            ctx.note(|| format!("{:?} {:?} / {:?} {:?}", md, data, md2, data2));
            let p = subject::payload(&md, &data);
            judge(&p, &subject::payload(&md2, &data2), want)?;
            let c = p.clone();
            drop(p);
            if c.metadata() != md.as_ref() || c.data() != data.as_ref() {
                return Err(format!("a copy is {}", subject::clip(&c)));
            }
            Ok(())
        },
    ));
    let most = if thorough { 4 } else { 3 };
    v.push(Scenario::new(
        "divisions",
        format!(
            "payloads, and frames in any two of their parts: all pairs of all strings of up to {} bytes of two values (payloads: \
             3; six pairs of values), or no metadata, in both parts",
            most
        ),
        move |ctx| {
            let letters = *ctx.pick(&LETTERS);
            let kinds: Vec<K> = spec::KINDS.iter().copied().filter(|k| gen::parts(*k).len() > 1).collect();
            let i = ctx.choose(kinds.len() + 1);
            if i == kinds.len() {
                ctx.step();
                let mut part = |ctx: &mut Ctx| if ctx.flip() { Some(string(ctx, letters, 0, 3)) } else { None };
                let (md, data, md2, data2) = (part(ctx), part(ctx), part(ctx), part(ctx));
                ctx.state(&(&md, &data, &md2, &data2));
                let full = |d: &Option<Bytes>| d.clone().filter(|b| !b.is_empty());
                let want = match md == md2 && full(&data) == full(&data2) {
                    true if data != data2 => None,
                    w => Some(w),
                };
                ctx.note(|| format!("{:?} {:?} / {:?} {:?}", md, data, md2, data2));
                return judge(&subject::payload(&md, &data), &subject::payload(&md2, &data2), want);
            }
            let k = kinds[i];
            let parts = gen::parts(k);
            let p = ctx.choose(parts.len() - 1);
            let q = p + 1 + ctx.choose(parts.len() - p - 1);
            let (mut a, mut b) = (gen::default(k), gen::default(k));
            for m in [&mut a, &mut b] {
                for part in [parts[p], parts[q]] {
                    if part == gen::Part::Md && ctx.flip() {
                        m.md = None;
                        continue;
                    }
                    let s = string(ctx, letters, part.is_mime() as usize, most);
                    part.set(m, s);
                }
            }
            ctx.state(&(&a, &b));
            frames(ctx, &a, &b)
        },
    ));
    v
}
