//! The RSocket 1.0 wire format, written down independently of the code under test: a value model
//! of frames, a reference encoder and a reference parser.
use bytes::Bytes;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    Setup,
    Lease,
    Keepalive,
    RequestResponse,
    RequestFnf,
    RequestStream,
    RequestChannel,
    RequestN,
    Cancel,
    Payload,
    Error,
    MetadataPush,
    Resume,
    ResumeOk,
}
use K::*;

pub const KINDS: [K; 14] = [
    Cancel, RequestN, RequestFnf, RequestResponse, RequestStream, RequestChannel, Payload, Error,
    Lease, Keepalive, MetadataPush, ResumeOk, Resume, Setup,
];

pub const F_IGNORE: u16 = 0x200;
pub const F_METADATA: u16 = 0x100;
pub const F_80: u16 = 0x80; // Follows / Resume / Respond
pub const F_40: u16 = 0x40; // Complete / Lease
pub const F_20: u16 = 0x20; // Next

impl K {
    pub fn number(self) -> u16 {
        match self {
            Setup => 1,
            Lease => 2,
            Keepalive => 3,
            RequestResponse => 4,
            RequestFnf => 5,
            RequestStream => 6,
            RequestChannel => 7,
            RequestN => 8,
            Cancel => 9,
            Payload => 10,
            Error => 11,
            MetadataPush => 12,
            Resume => 13,
            ResumeOk => 14,
        }
    }

    pub fn from_number(n: u16) -> Option<K> {
        KINDS.iter().copied().find(|k| k.number() == n)
    }

    /// Frames that belong to the connection.
    pub fn on_connection(self) -> bool {
        matches!(self, Setup | Lease | Keepalive | MetadataPush | Resume | ResumeOk)
    }

    /// Flags (besides Metadata) with a meaning for this type.
    pub fn flags(self) -> u16 {
        match self {
            Setup => F_80 | F_40,
            Keepalive => F_80,
            RequestResponse | RequestFnf | RequestStream => F_80,
            RequestChannel => F_80 | F_40,
            Payload => F_80 | F_40 | F_20,
            _ => 0,
        }
    }

    /// Metadata is preceded by its 24-bit length, and followed by data.
    pub fn has_payload(self) -> bool {
        matches!(
            self,
            Setup | RequestResponse | RequestFnf | RequestStream | RequestChannel | Payload
        )
    }

    pub fn may_have_metadata(self) -> bool {
        self.has_payload() || matches!(self, Lease | MetadataPush)
    }

    pub fn may_have_data(self) -> bool {
        self.has_payload() || matches!(self, Keepalive | Error)
    }
}

/// A frame. Fields a type does not have keep their default.
///
/// `a`, `b`: SETUP keepalive time and lifetime; LEASE time-to-live and number of requests;
/// KEEPALIVE and RESUME_OK position; request n; ERROR code; RESUME server and client position.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct M {
    pub k: K,
    pub sid: u32,
    pub flags: u16,
    pub ver: (u16, u16),
    pub a: u64,
    pub b: u64,
    pub token: Option<Bytes>,
    pub mm: Bytes,
    pub dm: Bytes,
    pub md: Option<Bytes>,
    pub data: Option<Bytes>,
}

impl M {
    pub fn new(k: K) -> M {
        M {
            k,
            sid: 0,
            flags: 0,
            ver: (0, 0),
            a: 0,
            b: 0,
            token: None,
            mm: Bytes::new(),
            dm: Bytes::new(),
            md: None,
            data: None,
        }
    }

    pub fn short(&self) -> String {
        let p = |b: &Option<Bytes>| match b {
            None => "-".to_string(),
            Some(b) if b.len() > 12 => format!("[{} bytes]", b.len()),
            Some(b) => format!("{:02x?}", &b[..]),
        };
        format!(
            "{:?} sid={:#x} flags={:#x} ver={}.{} a={:#x} b={:#x} token={} mime={}/{} md={} data={}",
            self.k,
            self.sid,
            self.flags,
            self.ver.0,
            self.ver.1,
            self.a,
            self.b,
            p(&self.token),
            self.mm.len(),
            self.dm.len(),
            p(&self.md),
            p(&self.data)
        )
    }
}

pub fn be16(o: &mut Vec<u8>, v: u16) {
    o.push((v >> 8) as u8);
    o.push(v as u8);
}

pub fn be24(o: &mut Vec<u8>, v: u32) {
    o.push((v >> 16) as u8);
    o.push((v >> 8) as u8);
    o.push(v as u8);
}

pub fn be32(o: &mut Vec<u8>, v: u32) {
    be16(o, (v >> 16) as u16);
    be16(o, v as u16);
}

pub fn be64(o: &mut Vec<u8>, v: u64) {
    be32(o, (v >> 32) as u32);
    be32(o, v as u32);
}

/// The wire bytes of a frame.
pub fn encode(m: &M, o: &mut Vec<u8>) {
    o.clear();
    be32(o, m.sid);
    let mut word = (m.k.number() << 10) | m.flags;
    if m.md.is_some() {
        word |= F_METADATA;
    }
    be16(o, word);
    match m.k {
        Setup => {
            be16(o, m.ver.0);
            be16(o, m.ver.1);
            be32(o, m.a as u32);
            be32(o, m.b as u32);
            if m.flags & F_80 != 0 {
                let t = m.token.as_ref().expect("token");
                be16(o, t.len() as u16);
                o.extend_from_slice(t);
            }
            o.push(m.mm.len() as u8);
            o.extend_from_slice(&m.mm);
            o.push(m.dm.len() as u8);
            o.extend_from_slice(&m.dm);
        }
        Lease => {
            be32(o, m.a as u32);
            be32(o, m.b as u32);
        }
        Keepalive | ResumeOk => be64(o, m.a),
        RequestStream | RequestChannel | RequestN | Error => be32(o, m.a as u32),
        Resume => {
            be16(o, m.ver.0);
            be16(o, m.ver.1);
            let t = m.token.as_ref().expect("token");
            be16(o, t.len() as u16);
            o.extend_from_slice(t);
            be64(o, m.a);
            be64(o, m.b);
        }
        RequestResponse | RequestFnf | Cancel | Payload | MetadataPush => (),
    }
    if let Some(md) = &m.md {
        if m.k.has_payload() {
            be24(o, md.len() as u32);
        }
        o.extend_from_slice(md);
    }
    if let Some(d) = &m.data {
        o.extend_from_slice(d);
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum E {
    Incomplete,
    BadType(u16),
    /// Expected 0 (true) or not 0 (false).
    BadStream(bool, u32),
}

/// Where a stream id is wrong and the body is cut short too, either may be reported.
pub struct Reject(pub [Option<E>; 2]);

impl Reject {
    fn one(e: E) -> Reject {
        Reject([Some(e), None])
    }
    pub fn allows(&self, e: &E) -> bool {
        self.0.iter().flatten().any(|x| x == e)
    }
}

struct R<'a>(&'a Bytes, usize);

impl R<'_> {
    fn rest(&self) -> usize {
        self.0.len() - self.1
    }
    fn int(&mut self, n: usize) -> Option<u64> {
        if self.rest() < n {
            return None;
        }
        let mut v = 0u64;
        for i in 0..n {
            v = v << 8 | self.0[self.1 + i] as u64;
        }
        self.1 += n;
        Some(v)
    }
    fn bytes(&mut self, n: usize) -> Option<Bytes> {
        if self.rest() < n {
            return None;
        }
        let b = self.0.slice(self.1..self.1 + n);
        self.1 += n;
        Some(b)
    }
}

pub const U31: u64 = 0x7FFF_FFFF;
pub const U63: u64 = 0x7FFF_FFFF_FFFF_FFFF;

/// Codes of errors on the connection, and of errors on a stream.
pub const CONNECTION_CODES: [u32; 6] = [1, 2, 3, 4, 0x101, 0x102];
pub const STREAM_CODES: [u32; 4] = [0x201, 0x202, 0x203, 0x204];

/// The frame a byte string denotes, or the errors it may be rejected with.
pub fn parse(b: &Bytes) -> Result<M, Reject> {
    let mut r = R(b, 0);
    if b.len() < 6 {
        return Err(Reject::one(E::Incomplete));
    }
    let sid = (r.int(4).unwrap() & U31) as u32;
    let word = r.int(2).unwrap() as u16;
    let Some(k) = K::from_number(word >> 10) else {
        return Err(Reject::one(E::BadType(word >> 10)));
    };
    let bad = k.on_connection() && sid != 0;
    let body = parse_body(k, word, &mut r);
    match body {
        None if bad => Err(Reject([Some(E::Incomplete), Some(E::BadStream(true, sid))])),
        None => Err(Reject::one(E::Incomplete)),
        Some(_) if bad => Err(Reject::one(E::BadStream(true, sid))),
        Some(mut m) => {
            m.sid = sid;
            if k == Error {
                let code = m.a as u32;
                if CONNECTION_CODES.contains(&code) && sid != 0 {
                    return Err(Reject::one(E::BadStream(true, sid)));
                }
                if STREAM_CODES.contains(&code) && sid == 0 {
                    return Err(Reject::one(E::BadStream(false, sid)));
                }
            }
            Ok(m)
        }
    }
}

fn parse_body(k: K, word: u16, r: &mut R) -> Option<M> {
    let mut m = M::new(k);
    m.flags = word & k.flags();
    match k {
        Setup => {
            m.ver = (r.int(2)? as u16, r.int(2)? as u16);
            m.a = r.int(4)? & U31;
            m.b = r.int(4)? & U31;
            if word & F_80 != 0 {
                let n = r.int(2)? as usize;
                m.token = Some(r.bytes(n)?);
            }
            let n = r.int(1)? as usize;
            m.mm = r.bytes(n)?;
            let n = r.int(1)? as usize;
            m.dm = r.bytes(n)?;
        }
        Lease => {
            m.a = r.int(4)? & U31;
            m.b = r.int(4)? & U31;
        }
        Keepalive | ResumeOk => m.a = r.int(8)? & U63,
        RequestStream | RequestChannel | RequestN => m.a = r.int(4)? & U31,
        Error => m.a = r.int(4)?,
        Resume => {
            m.ver = (r.int(2)? as u16, r.int(2)? as u16);
            let n = r.int(2)? as usize;
            m.token = Some(r.bytes(n)?);
            m.a = r.int(8)? & U63;
            m.b = r.int(8)? & U63;
        }
        RequestResponse | RequestFnf | Cancel | Payload | MetadataPush => (),
    }
    if k.has_payload() {
        if word & F_METADATA != 0 {
            let n = r.int(3)? as usize;
            m.md = Some(r.bytes(n)?);
        }
        if r.rest() > 0 {
            m.data = r.bytes(r.rest());
        }
    } else if k == MetadataPush || (k == Lease && word & F_METADATA != 0) {
        m.md = r.bytes(r.rest());
    } else if k.may_have_data() && r.rest() > 0 {
        m.data = r.bytes(r.rest());
    }
    Some(m)
}
