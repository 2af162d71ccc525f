//! Reference codecs (written from RFC 9000/9001/8446, independent of the crate's code), input
//! generation and the trial runner. Compiled into a scratch copy of the crate as `crate::vrf`.
#![allow(dead_code)]
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type V = Result<(), String>;

#[macro_export]
macro_rules! vcheck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------- random inputs
pub struct G { s: [u64; 4], dict: &'static [u64], toks: &'static [Vec<u8>] }

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl G {
    pub fn new(seed: u64, dict: &'static [u64], toks: &'static [Vec<u8>]) -> Self {
        let mut x = seed;
        G { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)], dict, toks }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn u8(&mut self) -> u8 {
        match self.below(4) {
            0 => { let d = self.dictv(); d as u8 }
            1 => [0u8, 1, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 2, 3, 4, 20, 21][self.below(14) as usize],
            _ => self.u64() as u8,
        }
    }
    fn dictv(&mut self) -> u64 {
        if self.dict.is_empty() { return self.u64(); }
        let i = self.below(self.dict.len() as u64) as usize;
        let v = self.dict[i];
        match self.below(6) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v }
    }
    /// Any 64-bit value, biased to boundaries and to the integers that occur in the source.
    pub fn int(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(8),
            1 => self.below(300),
            2 => { let k = self.below(64); let d = self.below(5); (1u64 << k).wrapping_add(d).wrapping_sub(2) }
            3 => { let b = [0x3fu64, 0x40, 0x3fff, 0x4000, 0x3fff_ffff, 0x4000_0000, 0x3fff_ffff_ffff_ffff, 0x4000_0000_0000_0000][self.below(8) as usize]; let d = self.below(3); b.wrapping_add(d).wrapping_sub(1) }
            4 | 5 => self.dictv(),
            _ => { let k = self.below(64); self.u64() >> k }
        }
    }
    /// Below 2^62.
    pub fn vint(&mut self) -> u64 { let x = self.int(); if x >> 62 != 0 { x >> 2 } else { x } }
    /// Below 2^62, or rarely above.
    pub fn vint_over(&mut self) -> u64 { if self.one_in(40) { (1u64 << 62).wrapping_add(self.int() & !(1 << 62)) | (1 << 62) } else { self.vint() } }
    pub fn len(&mut self) -> usize {
        (match self.below(16) {
            0 => 0,
            1..=8 => self.below(24),
            9 | 10 => self.below(90),
            11 => self.range(60, 68),
            12 => self.range(250, 260),
            13 => { let d = self.dictv(); if d < 5000 { d } else { self.below(20) } }
            14 => if self.one_in(4) { let b = [1200u64, 1252, 1500, 2048, 4096][self.below(5) as usize]; self.range(b - 2, b + 2) } else { self.below(1300) },
            _ => if self.one_in(12) { match self.below(8) { 0 => self.range(65400, 65560), 1 => self.range(16300, 16384), _ => self.range(16380, 16388) } } else { self.below(40) },
        }) as usize
    }
    /// A number of repeated elements: mostly few, sometimes around the integers of the source, rarely thousands.
    pub fn count(&mut self, few: u64, top: u64) -> u64 {
        match self.below(400) {
            0 => { let d = self.dictv(); if d < top { d } else { self.below(top) } }
            1 => { let b = [64u64, 128, 256, 512, 1024, 2048, 4096][self.below(7) as usize]; self.range(b - 1, b + 1).min(top) }
            2 => if self.one_in(8) { self.below(top) } else { self.below(few * 8) },
            3 | 4 => self.below(few * 10),
            _ => self.below(few),
        }
    }
    pub fn small_len(&mut self) -> usize { let n = self.len(); if n > 400 { n % 40 } else { n } }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut b = self.plain_bytes(n);
        if !self.toks.is_empty() && self.one_in(6) { // a byte string of the source somewhere in it
            let k = self.below(self.toks.len() as u64) as usize;
            let t: &'static Vec<u8> = &self.toks[k];
            if t.len() <= n { let at = match self.below(4) { 0 => 0, 1 => n - t.len(), _ => self.below((n - t.len()) as u64 + 1) as usize }; b[at..at + t.len()].copy_from_slice(t); }
        }
        b
    }
    fn plain_bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(5) {
            0 => vec![0; n],
            1 => { let b = self.u8(); vec![b; n] }
            2 => (0..n).map(|_| self.u8()).collect(),
            _ => (0..n).map(|_| self.u64() as u8).collect(),
        }
    }
    pub fn blob(&mut self) -> Vec<u8> { let n = self.len(); self.bytes(n) }
    pub fn small_blob(&mut self) -> Vec<u8> { let n = self.small_len(); self.bytes(n) }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] { let v = self.bytes(N); let mut a = [0u8; N]; a.copy_from_slice(&v); a }
    pub fn u128(&mut self) -> u128 { if self.bool() { (self.int() as u128) << 64 | self.int() as u128 } else { self.int() as u128 } }
    pub fn mutate(&mut self, b: &mut Vec<u8>) {
        let k = 1 + self.below(3);
        for _ in 0..k {
            let n = b.len() as u64;
            if !self.toks.is_empty() && self.one_in(4) {
                let k = self.below(self.toks.len() as u64) as usize;
            let t: &'static Vec<u8> = &self.toks[k];
                let i = self.below(n + 1) as usize;
                if self.bool() && i + t.len() <= b.len() { b[i..i + t.len()].copy_from_slice(t); } else { b.splice(i..i, t.iter().copied()); }
                continue;
            }
            match self.below(7) {
                0 | 1 if n > 0 => { let i = self.below(n) as usize; b[i] ^= 1 << self.below(8); }
                2 if n > 0 => { let i = self.below(n) as usize; b[i] = self.u8(); }
                3 if n > 0 => { let i = self.below(n + 1) as usize; b.truncate(i); }
                4 => { let i = self.below(n + 1) as usize; let x = self.u8(); b.insert(i, x); }
                5 if n > 0 => { let i = self.below(n) as usize; b.remove(i); }
                _ => { let m = self.below(6) as usize; let t = self.bytes(m); b.extend(t); }
            }
        }
    }
    /// A variable-length integer in any of its encodings (not only the shortest one).
    pub fn any_varint(&mut self, x: u64) -> Vec<u8> {
        let min = enc_varint(x).unwrap().len();
        let l = [1usize, 2, 4, 8][self.below(4) as usize].max(min);
        let l = if self.one_in(3) { l } else { min };
        let mut b = x.to_be_bytes()[8 - l..].to_vec();
        b[0] |= match l { 1 => 0, 2 => 0x40, 4 => 0x80, _ => 0xc0 };
        b
    }
}

// ---------------------------------------------------------------- integers
pub fn enc_varint(x: u64) -> Option<Vec<u8>> {
    Some(if x < 64 { vec![x as u8] }
    else if x < 16384 { vec![0x40 | (x >> 8) as u8, x as u8] }
    else if x < 1 << 30 { vec![0x80 | (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] }
    else if x < 1 << 62 { let mut b = x.to_be_bytes().to_vec(); b[0] |= 0xc0; b }
    else { return None; })
}
pub struct R<'a> { pub b: &'a [u8], pub p: usize }
impl<'a> R<'a> {
    pub fn new(b: &'a [u8]) -> Self { R { b, p: 0 } }
    pub fn rest(&self) -> &'a [u8] { &self.b[self.p..] }
    pub fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if ((self.b.len() - self.p) as u64) < n { return None; }
        let r = &self.b[self.p..self.p + n as usize];
        self.p += n as usize;
        Some(r)
    }
    pub fn be(&mut self, n: u64) -> Option<u128> { Some(self.take(n)?.iter().fold(0u128, |a, x| a << 8 | *x as u128)) }
    pub fn u8(&mut self) -> Option<u8> { Some(self.take(1)?[0]) }
    pub fn varint(&mut self) -> Option<u64> {
        let f = *self.rest().first()?;
        let n = 1u64 << (f >> 6);
        let v = self.be(n)?;
        Some((v & ((1u128 << (8 * n - 2)) - 1)) as u64)
    }
}
pub fn id20(b: &[u8]) -> [u8; 20] { let mut r = [0u8; 20]; r[20 - b.len()..].copy_from_slice(b); r }

// ---------------------------------------------------------------- frames
#[derive(Clone, Debug, PartialEq)]
pub enum RF {
    Padding, Ping, Done,
    Ack { largest: u64, delay: u64, count: u64, first: u64, ranges: Vec<(u64, u64)>, ecn: Option<[u64; 3]> },
    Reset(u64, u64, u64), Stop(u64, u64),
    Crypto { off: u64, len: u64, data: Vec<u8> },
    NewToken { len: u64, data: Vec<u8> },
    Stream { id: u64, off: u64, len: u64, data: Vec<u8>, fin: bool },
    MaxData(u64), MaxStreamData(u64, u64), MaxStreams(u64, bool),
    DataBlocked(u64), StreamDataBlocked(u64, u64), StreamsBlocked(u64, bool),
    Ncid { seq: u64, rpt: u64, len: u8, cid: [u8; 20], tok: u128 },
    Retire(u64), PathCh(u64), PathResp(u64),
    Close { code: u64, ft: Option<u64>, len: u64, data: Vec<u8>, app: bool },
}

impl G {
    /// A frame whose counts and lengths match its data. `over`: integers may exceed 2^62.
    pub fn frame(&mut self, over: bool) -> RF {
        macro_rules! v { () => { if over { self.vint_over() } else { self.vint() } } }
        match self.below(22) {
            0 => RF::Padding, 1 => RF::Ping, 2 => RF::Done,
            3 => { let n = match self.below(8) { 0 => self.count(70, 5000), 1 => 0, _ => self.below(4) };
                RF::Ack { largest: v!(), delay: v!(), count: n, first: v!(), ranges: (0..n).map(|_| (v!(), v!())).collect(), ecn: if self.bool() { Some([v!(), v!(), v!()]) } else { None } } }
            4 => RF::Reset(v!(), v!(), v!()), 5 => RF::Stop(v!(), v!()),
            6 => { let d = self.blob(); RF::Crypto { off: v!(), len: d.len() as u64, data: d } }
            7 => { let d = self.blob(); RF::NewToken { len: d.len() as u64, data: d } }
            8 | 9 | 10 => { let d = self.blob(); RF::Stream { id: v!(), off: if self.bool() { 0 } else { v!() }, len: d.len() as u64, data: d, fin: self.bool() } }
            11 => RF::MaxData(v!()), 12 => RF::MaxStreamData(v!(), v!()), 13 => RF::MaxStreams(v!(), self.bool()),
            14 => RF::DataBlocked(v!()), 15 => RF::StreamDataBlocked(v!(), v!()), 16 => RF::StreamsBlocked(v!(), self.bool()),
            17 => { let n = self.range(1, 20) as usize; let b = self.bytes(n); RF::Ncid { seq: v!(), rpt: v!(), len: n as u8, cid: id20(&b), tok: self.u128() } }
            18 => RF::Retire(v!()), 19 => RF::PathCh(self.int()), 20 => RF::PathResp(self.int()),
            _ => { let d = self.blob(); let app = self.bool(); RF::Close { code: v!(), ft: if app { None } else { Some(v!()) }, len: d.len() as u64, data: d, app } }
        }
    }
    pub fn frames(&mut self, over: bool) -> Vec<RF> {
        let n = match self.below(10) { 0 => 0, 1 => self.below(30), _ => 1 + self.below(4) };
        let mut o: Vec<RF> = (0..n).map(|_| self.frame(over)).collect();
        if self.one_in(12) { // a run of small frames
            let m = self.count(60, 20000) as usize;
            let f = match self.below(6) { 0..=3 => RF::Padding, 4 => RF::Ping, _ => RF::MaxData(self.below(64)) };
            let at = self.below(o.len() as u64 + 1) as usize;
            o.splice(at..at, vec![f; m]);
        }
        o
    }
}

pub fn enc_frame(f: &RF, no_len: bool) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    macro_rules! v { ($($x:expr),*) => {{ $( o.extend(enc_varint($x)?); )* }} }
    match f {
        RF::Padding => o.push(0), RF::Ping => o.push(1), RF::Done => o.push(0x1e),
        RF::Ack { largest, delay, count, first, ranges, ecn } => {
            o.push(if ecn.is_some() { 3 } else { 2 });
            v!(*largest, *delay, *count, *first);
            for (a, b) in ranges { v!(*a, *b); }
            if let Some(e) = ecn { v!(e[0], e[1], e[2]); }
        }
        RF::Reset(a, b, c) => { o.push(4); v!(*a, *b, *c) }
        RF::Stop(a, b) => { o.push(5); v!(*a, *b) }
        RF::Crypto { off, len, data } => { o.push(6); v!(*off, *len); o.extend(data) }
        RF::NewToken { len, data } => { o.push(7); v!(*len); o.extend(data) }
        RF::Stream { id, off, len, data, fin } => {
            o.push(8 | if *off != 0 { 4 } else { 0 } | if no_len { 0 } else { 2 } | if *fin { 1 } else { 0 });
            v!(*id);
            if *off != 0 { v!(*off) }
            if !no_len { v!(*len) }
            o.extend(data);
        }
        RF::MaxData(a) => { o.push(0x10); v!(*a) }
        RF::MaxStreamData(a, b) => { o.push(0x11); v!(*a, *b) }
        RF::MaxStreams(a, u) => { o.push(if *u { 0x13 } else { 0x12 }); v!(*a) }
        RF::DataBlocked(a) => { o.push(0x14); v!(*a) }
        RF::StreamDataBlocked(a, b) => { o.push(0x15); v!(*a, *b) }
        RF::StreamsBlocked(a, u) => { o.push(if *u { 0x17 } else { 0x16 }); v!(*a) }
        RF::Ncid { seq, rpt, len, cid, tok } => { o.push(0x18); v!(*seq, *rpt); o.push(*len); o.extend(&cid[20 - *len as usize..]); o.extend(tok.to_be_bytes()) }
        RF::Retire(a) => { o.push(0x19); v!(*a) }
        RF::PathCh(a) => { o.push(0x1a); o.extend(a.to_be_bytes()) }
        RF::PathResp(a) => { o.push(0x1b); o.extend(a.to_be_bytes()) }
        RF::Close { code, ft, len, data, app } => { o.push(if *app { 0x1d } else { 0x1c }); v!(*code); if let Some(x) = ft { v!(*x) } v!(*len); o.extend(data) }
    }
    Some(o)
}
pub fn enc_frames(fs: &[RF], df_end: bool) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    for (i, f) in fs.iter().enumerate() { o.extend(enc_frame(f, df_end && i + 1 == fs.len())?); }
    Some(o)
}
/// The frame at the start of the reader, per RFC 9000 section 19.
pub fn parse_frame(r: &mut R) -> Option<RF> {
    let t = r.varint()?;
    macro_rules! v { () => { r.varint()? } }
    Some(match t {
        0 => RF::Padding, 1 => RF::Ping, 0x1e => RF::Done,
        2 | 3 => {
            let (largest, delay, count, first) = (v!(), v!(), v!(), v!());
            let mut ranges = Vec::new();
            for _ in 0..count { ranges.push((v!(), v!())); }
            let ecn = if t == 3 { Some([v!(), v!(), v!()]) } else { None };
            RF::Ack { largest, delay, count, first, ranges, ecn }
        }
        4 => RF::Reset(v!(), v!(), v!()), 5 => RF::Stop(v!(), v!()),
        6 => { let (off, len) = (v!(), v!()); RF::Crypto { off, len, data: r.take(len)?.to_vec() } }
        7 => { let len = v!(); RF::NewToken { len, data: r.take(len)?.to_vec() } }
        8..=15 => {
            let id = v!();
            let off = if t & 4 != 0 { v!() } else { 0 };
            let data = if t & 2 != 0 { let n = v!(); r.take(n)?.to_vec() } else { let n = r.rest().len() as u64; r.take(n)?.to_vec() };
            RF::Stream { id, off, len: data.len() as u64, data, fin: t & 1 != 0 }
        }
        0x10 => RF::MaxData(v!()), 0x11 => RF::MaxStreamData(v!(), v!()), 0x12 => RF::MaxStreams(v!(), false), 0x13 => RF::MaxStreams(v!(), true),
        0x14 => RF::DataBlocked(v!()), 0x15 => RF::StreamDataBlocked(v!(), v!()), 0x16 => RF::StreamsBlocked(v!(), false), 0x17 => RF::StreamsBlocked(v!(), true),
        0x18 => {
            let (seq, rpt, len) = (v!(), v!(), r.u8()?);
            if len < 1 || len > 20 { return None; }
            RF::Ncid { seq, rpt, len, cid: id20(r.take(len as u64)?), tok: r.be(16)? }
        }
        0x19 => RF::Retire(v!()), 0x1a => RF::PathCh(r.be(8)? as u64), 0x1b => RF::PathResp(r.be(8)? as u64),
        0x1c | 0x1d => { let code = v!(); let ft = if t == 0x1c { Some(v!()) } else { None }; let len = v!(); RF::Close { code, ft, len, data: r.take(len)?.to_vec(), app: t == 0x1d } }
        _ => return None,
    })
}
pub fn parse_frames(b: &[u8]) -> Option<Vec<RF>> {
    let mut r = R::new(b);
    let mut o = Vec::new();
    while !r.rest().is_empty() { o.push(parse_frame(&mut r)?); }
    Some(o)
}
impl G {
    /// Frame bytes as a peer may send them: non-minimal integers, any STREAM flags, unknown types, truncation.
    pub fn frame_bytes(&mut self) -> Vec<u8> {
        let mut o = Vec::new();
        let n = 1 + self.below(4);
        for i in 0..n {
            match self.below(10) {
                0 => { let b = self.small_blob(); o.extend(b); }
                1 => { // a type byte with random fields
                    let t = self.below(0x22); let v = self.any_varint(t); o.extend(v);
                    for _ in 0..self.below(6) { let x = self.vint(); let v = self.any_varint(x); o.extend(v); } }
                2 => { // stream with explicit flags
                    let t = 8 + self.below(8); let v = self.any_varint(t); o.extend(v);
                    let x = self.vint(); let v = self.any_varint(x); o.extend(v);
                    if t & 4 != 0 { let x = if self.one_in(4) { 0 } else { self.vint() }; let v = self.any_varint(x); o.extend(v); }
                    let d = self.small_blob();
                    if t & 2 != 0 { let l = d.len() as u64; let v = self.any_varint(l); o.extend(v); }
                    o.extend(d); }
                3 => { let t = self.vint(); o.extend(enc_varint(t).unwrap()); let b = self.small_blob(); o.extend(b); }
                4 => { // a length or count that promises more than there is
                    let t = [2u64, 3, 6, 7, 0x0a, 0x0e, 0x1c, 0x1d][self.below(8) as usize]; o.push(t as u8);
                    for _ in 0..self.below(4) { let x = self.below(50); o.extend(enc_varint(x).unwrap()); }
                    let x = self.vint(); o.extend(enc_varint(x).unwrap()); let b = self.small_blob(); o.extend(b); }
                _ => { let f = self.frame(false); o.extend(enc_frame(&f, i + 1 == n && self.one_in(4)).unwrap()); }
            }
            if o.len() > 3000 { break; }
        }
        if self.one_in(25) { let m = self.count(80, 65000) as usize; let x = if self.bool() { 0u8 } else { self.below(3) as u8 }; let mut r = vec![x; m]; if self.bool() { r.extend(&o); o = r; } else { o.extend(r); } }
        if self.one_in(3) { self.mutate(&mut o); }
        o
    }
}

// ---------------------------------------------------------------- crypto (openssl primitives, RFC 9001 and 8446 on top)
#[derive(Clone, Debug, PartialEq)]
pub struct Keys { pub key: Vec<u8>, pub iv: Vec<u8>, pub hp: Vec<u8> }
pub fn hmac(key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > 64 { openssl::sha::sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let i: Vec<u8> = k.iter().map(|x| x ^ 0x36).chain(m.iter().copied()).collect();
    let o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).chain(openssl::sha::sha256(&i)).collect();
    openssl::sha::sha256(&o).to_vec()
}
pub fn hkdf_expand(prk: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    let (mut t, mut o, mut c) = (vec![], vec![], 1u8);
    while o.len() < n { t = hmac(prk, &[&t[..], info, &[c]].concat()); o.extend(&t); c += 1; }
    o.truncate(n);
    o
}
pub fn label_info(n: usize, label: &[u8], ctx: &[u8]) -> Vec<u8> {
    let l = [b"tls13 ", label].concat();
    [&(n as u16).to_be_bytes()[..], &[l.len() as u8], &l, &[ctx.len() as u8], ctx].concat()
}
pub fn expand_label(secret: &[u8], label: &[u8], n: usize) -> Vec<u8> { hkdf_expand(secret, &label_info(n, label, b""), n) }
pub const SALT_V1: [u8; 20] = [0x38, 0x76, 0x2c, 0xf7, 0xf5, 0x59, 0x34, 0xb3, 0x4d, 0x17, 0x9a, 0xe6, 0xa4, 0xc8, 0x0c, 0xad, 0xcc, 0xbb, 0x7f, 0x0a];
pub fn secret_keys(s: &[u8]) -> Keys { Keys { key: expand_label(s, b"quic key", 16), iv: expand_label(s, b"quic iv", 12), hp: expand_label(s, b"quic hp", 16) } }
pub fn initial_keys(server: bool, cid: &[u8]) -> Keys {
    let i = hmac(&SALT_V1, cid);
    secret_keys(&expand_label(&i, if server { b"server in" } else { b"client in" }, 32))
}
pub fn nonce(iv: &[u8], pn: u64) -> Vec<u8> {
    let mut p = vec![0u8; iv.len()];
    let b = pn.to_be_bytes();
    for i in 0..8.min(iv.len()) { p[iv.len() - 1 - i] = b[7 - i]; }
    iv.iter().zip(p).map(|(a, b)| a ^ b).collect()
}
pub fn seal(k: &Keys, pn: u64, aad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut tag = [0u8; 16];
    let mut ct = openssl::symm::encrypt_aead(openssl::symm::Cipher::aes_128_gcm(), &k.key, Some(&nonce(&k.iv, pn)), aad, pt, &mut tag).unwrap();
    ct.extend(tag);
    ct
}
pub fn open(k: &Keys, pn: u64, aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if ct.len() < 16 { return None; }
    let (c, t) = ct.split_at(ct.len() - 16);
    openssl::symm::decrypt_aead(openssl::symm::Cipher::aes_128_gcm(), &k.key, Some(&nonce(&k.iv, pn)), aad, c, t).ok()
}
pub fn mask(hp: &[u8], sample: &[u8]) -> [u8; 5] {
    let mut c = openssl::symm::Crypter::new(openssl::symm::Cipher::aes_128_ecb(), openssl::symm::Mode::Encrypt, hp, None).unwrap();
    let mut o = [0u8; 48];
    c.update(&sample[..16], &mut o).unwrap();
    [o[0], o[1], o[2], o[3], o[4]]
}
impl G { pub fn keys(&mut self) -> Keys { Keys { key: self.u64s(16), iv: self.u64s(12), hp: self.u64s(16) } }
    pub fn u64s(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() } }

// ---------------------------------------------------------------- packet numbers
pub fn decode_pn(largest: Option<u64>, b: &[u8]) -> u64 {
    let t = b.iter().fold(0i128, |a, x| a << 8 | *x as i128);
    let l = match largest { Some(l) => l as i128, None => return t as u64 };
    let (e, win) = (l + 1, 1i128 << (8 * b.len()));
    let h = win / 2;
    let c = (e & !(win - 1)) | t;
    (if c <= e - h && c < (1i128 << 62) - win { c + win } else if c > e + h && c >= win { c - win } else { c }) as u64
}

// ---------------------------------------------------------------- headers and packets
#[derive(Clone, Debug, PartialEq)]
pub enum RT { Vn, Initial, ZeroRtt, Handshake, Retry, OneRtt }
#[derive(Clone, Debug, PartialEq)]
pub struct RH { pub first: u8, pub long: bool, pub version: u32, pub dcid: Vec<u8>, pub scid: Vec<u8> }
impl RH {
    pub fn ty(&self) -> RT {
        if !self.long { RT::OneRtt } else if self.version == 0 { RT::Vn } else { match self.first >> 4 & 3 { 0 => RT::Initial, 1 => RT::ZeroRtt, 2 => RT::Handshake, _ => RT::Retry } }
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut o = vec![self.first];
        if self.long { o.extend(self.version.to_be_bytes()); o.push(self.dcid.len() as u8); o.extend(&self.dcid); o.push(self.scid.len() as u8); o.extend(&self.scid); } else { o.extend(&self.dcid); }
        o
    }
    /// the value datagrams are routed by
    pub fn key(&self) -> [u8; 20] { if self.dcid.len() > 20 { [0; 20] } else { id20(&self.dcid) } }
}
pub fn parse_header(r: &mut R) -> Option<RH> {
    let first = r.u8()?;
    if first & 0x80 == 0 { return Some(RH { first, long: false, version: 0, dcid: r.take(8)?.to_vec(), scid: vec![] }); }
    let version = r.be(4)? as u32;
    let d = r.u8()?;
    if version != 0 && d > 20 { return None; }
    let dcid = r.take(d as u64)?.to_vec();
    let s = r.u8()?;
    if version != 0 && s > 20 { return None; }
    let scid = r.take(s as u64)?.to_vec();
    Some(RH { first, long: true, version, dcid, scid })
}
#[derive(Clone, Debug, PartialEq)]
pub struct RP { pub ty: RT, pub h: RH, pub token: Vec<u8>, pub pn: u64, pub pnb: Vec<u8>, pub frames: Vec<RF>, pub versions: Vec<u32> }
#[derive(Clone, Debug, Default)]
pub struct Space { pub largest_remote: Option<u64>, pub largest_local: Option<u64>, pub next: u64, pub local: Option<Keys>, pub remote: Option<Keys> }
#[derive(Clone, Debug)]
pub struct RC { pub dcid: Vec<u8>, pub scid: Option<Vec<u8>>, pub sp: [Space; 3] }
pub fn space_of(t: &RT) -> usize { match t { RT::Initial => 0, RT::Handshake => 1, _ => 2 } }

pub fn parse_packet(r: &mut R, c: &RC) -> Option<RP> {
    let start = r.p;
    let h = parse_header(r)?;
    let ty = h.ty();
    match ty {
        RT::Retry => return None,
        RT::Vn => {
            let rest = r.rest();
            if rest.len() % 4 != 0 { return None; }
            r.p = r.b.len();
            return Some(RP { ty, h, token: vec![], pn: 0, pnb: vec![], frames: vec![], versions: rest.chunks(4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]])).collect() });
        }
        _ => {}
    }
    let mut token = vec![];
    if ty == RT::Initial { let n = r.varint()?; token = r.take(n)?.to_vec(); }
    let length = if h.long { Some(r.varint()?) } else { None };
    let sp = &c.sp[space_of(&ty)];
    let pn_at = r.p;
    let rest = r.rest();
    if rest.len() < 20 { return None; }
    let k = sp.remote.as_ref()?;
    let m = mask(&k.hp, &rest[4..20]);
    let mut h2 = h.clone();
    h2.first ^= m[0] & if h.long { 0x0f } else { 0x1f };
    let n = (h2.first & 3) as usize + 1;
    let pnb: Vec<u8> = (0..n).map(|i| rest[i] ^ m[i + 1]).collect();
    let pn = decode_pn(sp.largest_remote, &pnb);
    let total = match length { Some(l) => { if (l as u128) < n as u128 || l as u128 > rest.len() as u128 { return None; } l as usize } None => rest.len() };
    let mut aad = r.b[start..pn_at].to_vec();
    aad[0] = h2.first;
    aad.extend(&pnb);
    let pt = open(k, pn, &aad, &rest[n..total])?;
    let frames = parse_frames(&pt)?;
    r.p = pn_at + total;
    Some(RP { ty, h: h2, token, pn, pnb, frames, versions: vec![] })
}
pub fn parse_datagram(b: &[u8], c: &RC) -> Option<Vec<RP>> {
    let mut r = R::new(b);
    let mut o = vec![];
    while !r.rest().is_empty() { o.push(parse_packet(&mut r, c)?); }
    Some(o)
}
/// Bytes of a protected packet (first: unprotected first byte with the packet number length bits).
/// `lv`/`tv`: the encodings of the Length and Token Length fields.
pub fn seal_packet(h: &RH, token: Option<(&[u8], Vec<u8>)>, pn: u64, pnb: &[u8], pt: &[u8], k: &Keys, lv: &dyn Fn(u64) -> Vec<u8>) -> Vec<u8> {
    let mut o = h.enc();
    if let Some((t, tl)) = token { o.extend(tl); o.extend(t); }
    if h.long { o.extend(lv((pnb.len() + pt.len() + 16) as u64)); }
    let pn_at = o.len();
    o.extend(pnb);
    let ct = seal(k, pn, &o, pt);
    o.extend(ct);
    if o.len() < pn_at + 20 { return o; }
    let m = mask(&k.hp, &o[pn_at + 4..pn_at + 20]);
    o[0] ^= m[0] & if h.long { 0x0f } else { 0x1f };
    for i in 0..pnb.len() { o[pn_at + i] ^= m[i + 1]; }
    o
}

impl G {
    pub fn cid(&mut self) -> Vec<u8> { let n = match self.below(6) { 0 => 0, 1 => 20, 2 => 8, 3 => 8, _ => self.below(21) as usize }; self.bytes(n) }
    pub fn opt_pn(&mut self) -> Option<u64> { if self.one_in(3) { None } else { Some(self.pn()) } }
    pub fn pn(&mut self) -> u64 { let x = self.vint(); x.min((1 << 62) - 1) }
    pub fn space(&mut self) -> Space {
        let next = if self.one_in(4) { 0 } else { self.pn() };
        let ll = match self.below(4) { 0 => None, 1 => Some(self.pn()), _ => { let d = self.int(); Some(next.saturating_sub(d)) } };
        Space { largest_remote: self.opt_pn(), largest_local: ll, next, local: if self.one_in(8) { None } else { Some(self.keys()) }, remote: if self.one_in(8) { None } else { Some(self.keys()) } }
    }
    pub fn conn(&mut self) -> RC { RC { dcid: self.cid(), scid: if self.one_in(8) { None } else { Some(self.cid()) }, sp: [self.space(), self.space(), self.space()] } }
    pub fn long_header(&mut self, ty: &RT, n: usize) -> RH {
        let t = match ty { RT::Initial => 0u8, RT::ZeroRtt => 1, RT::Handshake => 2, _ => 3 };
        let junk = if self.one_in(3) { self.u8() & 0x4c } else { 0x40 };
        let mut v = if self.one_in(4) { self.int() as u32 } else { 1 };
        if v == 0 { v = 1; }
        RH { first: 0x80 | junk | t << 4 | (n as u8 - 1), long: true, version: v, dcid: self.cid(), scid: self.cid() }
    }
    /// A packet number and its n-byte encoding that the receiver will recover.
    pub fn pn_for(&mut self, largest: Option<u64>) -> (u64, Vec<u8>) {
        let n = 1 + self.below(4) as usize;
        let b = self.bytes(n);
        (decode_pn(largest, &b), b)
    }
    pub fn payload(&mut self) -> Vec<u8> {
        match self.below(8) {
            0 => self.small_blob(),
            1 => { let n = self.below(6) as usize; self.bytes(n) }
            2 => self.frame_bytes(),
            _ => { let fs: Vec<RF> = { let n = 1 + self.below(4); (0..n).map(|_| self.frame(false)).collect() }; let e = self.one_in(3); let o = enc_frames(&fs, e).unwrap(); if o.len() > 3000 { vec![1, 0, 0, 0] } else { o } }
        }
    }
    /// One packet as a peer of `c` may send it.
    pub fn packet(&mut self, c: &RC) -> Vec<u8> {
        match self.below(14) {
            0 => { // version negotiation
                let dn = match self.below(4) { 0 => 255, 1 => self.below(256), _ => self.below(21) } as usize;
                let sn = match self.below(4) { 0 => 255, 1 => self.below(256), _ => self.below(21) } as usize;
                let h = RH { first: 0x80 | self.u8(), long: true, version: 0, dcid: self.bytes(dn), scid: self.bytes(sn) };
                let mut o = h.enc();
                for _ in 0..self.count(5, 16000) { let v = self.int() as u32; o.extend(v.to_be_bytes()); }
                if self.one_in(6) { o.push(0); }
                o
            }
            1 => { let h = self.long_header(&RT::Retry, 1); let mut o = h.enc(); let b = self.small_blob(); o.extend(b); o }
            2 => self.small_blob(),
            t => {
                let ty = match t { 3..=6 => RT::Initial, 7..=9 => RT::Handshake, 10 | 11 => RT::ZeroRtt, _ => RT::OneRtt };
                let sp = &c.sp[space_of(&ty)];
                let (pn, pnb) = self.pn_for(sp.largest_remote);
                let right = sp.remote.clone();
                let k = match self.below(12) { 0 => self.keys(), 1 => { let i = self.below(3) as usize; c.sp[i].remote.clone().or(c.sp[i].local.clone()).unwrap_or(self.keys()) } 2 => sp.local.clone().unwrap_or(self.keys()), _ => right.unwrap_or(self.keys()) };
                let mut pt = self.payload();
                if pt.len() + pnb.len() < 4 && !self.one_in(4) { while pt.len() + pnb.len() < 4 { pt.push(0); } }
                let odd = self.one_in(4);
                let tok = self.small_blob();
                let tl = self.any_varint(tok.len() as u64);
                let delta = if self.one_in(12) { self.int() } else { 0 };
                let seed = self.u64();
                let lv = move |l: u64| -> Vec<u8> { let mut g = G::new(seed, &[], &[]); let l = if delta != 0 { l.wrapping_add(delta).wrapping_sub(3) & ((1 << 62) - 1) } else { l }; if odd { g.any_varint(l) } else { enc_varint(l).unwrap() } };
                if ty == RT::OneRtt {
                    let h = RH { first: self.u8() & 0x7c | (pnb.len() as u8 - 1), long: false, version: 0, dcid: self.bytes(8), scid: vec![] };
                    seal_packet(&h, None, pn, &pnb, &pt, &k, &lv)
                } else {
                    let h = self.long_header(&ty, pnb.len());
                    seal_packet(&h, if ty == RT::Initial { Some((&tok, tl)) } else { None }, pn, &pnb, &pt, &k, &lv)
                }
            }
        }
    }
    pub fn datagram(&mut self, c: &RC) -> Vec<u8> {
        let mut o = vec![];
        for _ in 0..match self.below(5) { 0 => 0, 1 | 2 => 1, 3 => 2, _ => 1 + self.below(4) } { let p = self.packet(c); o.extend(p); }
        if self.one_in(60) { // many packets in one datagram
            let p = self.packet(c);
            if p.len() < 200 && parse_datagram(&p, c).is_some() {
                o.clear();
                for _ in 0..self.count(40, 300) { o.extend(&p); }
                return o;
            }
        }
        if self.one_in(4) { self.mutate(&mut o); }
        if self.one_in(30) { let b = self.blob(); o = b; }
        o
    }
}

pub fn hex(b: &[u8]) -> String { if b.len() > 400 { format!("{}..({} bytes)", hex(&b[..400]), b.len()) } else { b.iter().map(|x| format!("{:02x}", x)).collect() } }

// ---------------------------------------------------------------- runner
thread_local! {
    static LIMIT: Cell<usize> = Cell::new(usize::MAX);
    static CURRENT: Cell<u64> = Cell::new(0);
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
/// the largest single allocation allowed from here on in this trial
pub fn limit(n: usize) { LIMIT.with(|l| l.set(n)) }
pub struct Guard;
unsafe impl std::alloc::GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { check(l.size()); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { check(l.size()); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { check(n); std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static GUARD: Guard = Guard;
fn check(n: usize) {
    let lim = LIMIT.try_with(|l| l.get()).unwrap_or(usize::MAX);
    if n > lim {
        let _ = LIMIT.try_with(|l| l.set(usize::MAX));
        let t = CURRENT.with(|c| c.get());
        report(&format!("FOUND trial={} what=allocation of {} bytes (limit {}) on the strength of a length field", t, n, lim));
        unsafe { _exit(1) }
    }
}
extern "C" { fn _exit(c: i32) -> !; fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn write(fd: i32, b: *const u8, n: usize) -> isize; }
static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
pub fn report(s: &str) { let s = format!("{}\n", s.replace('\n', " ")); unsafe { write(OUT.load(Ordering::SeqCst), s.as_ptr(), s.len()); } }
fn quiet() {
    use std::os::unix::io::AsRawFd;
    unsafe {
        let n = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        let o = dup(1);
        OUT.store(o, Ordering::SeqCst);
        dup2(n.as_raw_fd(), 1);
        if std::env::var("VH_STDERR").is_err() { dup2(n.as_raw_fd(), 2); }
    }
}

/// vh PROP (--trial N | --seconds S --seed K [--threads T] [--max N])
pub fn run(trial: fn(&str, &mut G) -> V) {
    let a: Vec<String> = std::env::args().collect();
    let prop: &'static str = Box::leak(a[1].clone().into_boxed_str());
    let get = |n: &str, d: u64| -> u64 { a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d) };
    let dict: Vec<u64> = std::env::var("VH_DICT").ok().and_then(|f| std::fs::read_to_string(f).ok()).map(|t| t.split_whitespace().filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let dict: &'static [u64] = Box::leak(dict.into_boxed_slice());
    let toks: Vec<Vec<u8>> = std::env::var("VH_DICT").ok().and_then(|f| std::fs::read_to_string(f).ok()).map(|t| t.split_whitespace().filter_map(|x| x.strip_prefix('x')).map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()).unwrap_or_default();
    let toks: &'static [Vec<u8>] = Box::leak(toks.into_boxed_slice());
    quiet();
    std::panic::set_hook(Box::new(|i| { let s = format!("panic: {}", i); PANIC.with(|p| *p.borrow_mut() = s); }));
    let limit = if prop == "C13" { 64 << 20 } else { 512 << 20 };
    let one = move |n: u64| -> Option<String> {
        let mut g = G::new(n, dict, toks);
        LIMIT.with(|l| l.set(limit));
        CURRENT.with(|c| c.set(n));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| trial(prop, &mut g)));
        LIMIT.with(|l| l.set(usize::MAX));
        match r { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(_) => Some(PANIC.with(|p| p.borrow().clone())) }
    };
    let stack = if prop == "C13" { 2 << 20 } else { 32 << 20 };
    if a.iter().any(|x| x == "--trial") {
        let n = get("--trial", 0);
        match std::thread::Builder::new().stack_size(stack).spawn(move || one(n)).unwrap().join().unwrap() { Some(e) => { report(&format!("FOUND trial={} what={}", n, e)); std::process::exit(1) } None => { report(&format!("OK trial={}", n)); std::process::exit(0) } }
    }
    let secs = get("--seconds", 10);
    let max = get("--max", u64::MAX);
    let base = get("--seed", 1).wrapping_mul(0x1_0000_0000_0000);
    let th = get("--threads", 8);
    static NEXT: AtomicU64 = AtomicU64::new(0);
    static STOP: AtomicBool = AtomicBool::new(false);
    static BUSY: [AtomicU64; 64] = { const Z: AtomicU64 = AtomicU64::new(0); [Z; 64] };
    static SINCE: [AtomicU64; 64] = { const Z: AtomicU64 = AtomicU64::new(0); [Z; 64] };
    static MARK: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
    if let Some(f) = std::env::var("VH_MARK").ok().and_then(|f| std::fs::File::create(f).ok()) { let _ = MARK.set(f); }
    let t0 = Instant::now();
    let hs: Vec<_> = (0..th).map(|i| std::thread::Builder::new().stack_size(stack).spawn(move || {
        while !STOP.load(Ordering::Relaxed) {
            let n = NEXT.fetch_add(1, Ordering::Relaxed);
            if n >= max { break; }
            BUSY[i as usize].store(n + 1, Ordering::SeqCst);
            SINCE[i as usize].store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
            if let Some(f) = MARK.get() { use std::os::unix::fs::FileExt; let _ = f.write_at(&(base + n).to_le_bytes(), i * 8); }
            if let Some(e) = one(base + n) {
                if !STOP.swap(true, Ordering::SeqCst) { report(&format!("FOUND trial={} what={}", base + n, e)); unsafe { _exit(1) } }
            }
            BUSY[i as usize].store(0, Ordering::SeqCst);
            if n % 64 == 0 && t0.elapsed() > Duration::from_secs(secs) { STOP.store(true, Ordering::SeqCst); }
        }
    }).unwrap()).collect();
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        if hs.iter().all(|h| h.is_finished()) { break; }
        if now > secs * 1000 { STOP.store(true, Ordering::SeqCst); }
        for i in 0..th as usize {
            let b = BUSY[i].load(Ordering::SeqCst);
            let s = SINCE[i].load(Ordering::SeqCst);
            if b != 0 && now > s + 20_000 { report(&format!("FOUND trial={} what=no result after 20 s (does not terminate)", base + b - 1)); unsafe { _exit(1) } }
        }
    }
    report(&format!("OK trials={} seconds={:.1}", NEXT.load(Ordering::SeqCst).min(max), t0.elapsed().as_secs_f64()));
}
