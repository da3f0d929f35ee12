//! Generators and the injectable random generator.

use crate::fw::B;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand_core::{CryptoRng, RngCore};
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ deterministic RNG

/// A random generator fully determined by (prefix, seed): the prefix bytes come first, then a
/// SHA-256 counter stream.  `flips` xors masks into absolute stream positions.
#[derive(Clone)]
pub struct Tape {
    prefix: Arc<Vec<u8>>,
    seed: [u8; 32],
    pos: u64,
    flips: Arc<Vec<(u64, u8)>>,
    log: Option<Arc<Mutex<Vec<(u64, u64)>>>>,
    block: (u64, [u8; 32]),
}
impl std::fmt::Debug for Tape {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tape@{}", self.pos)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Seed {
    pub prefix: B,
    pub seed: u64,
}
impl Seed {
    pub fn new(seed: u64) -> Seed {
        Seed { prefix: B(vec![]), seed }
    }
    pub fn tape(&self) -> Tape {
        Tape::new(&self.prefix, self.seed)
    }
}

impl Tape {
    pub fn new(prefix: &[u8], seed: u64) -> Tape {
        let s: [u8; 32] = Sha256::digest([&b"tape"[..], &seed.to_le_bytes()].concat()).into();
        Tape {
            prefix: Arc::new(prefix.to_vec()),
            seed: s,
            pos: 0,
            flips: Arc::new(vec![]),
            log: None,
            block: (u64::MAX, [0; 32]),
        }
    }
    pub fn with_flips(mut self, flips: Vec<(u64, u8)>) -> Tape {
        self.flips = Arc::new(flips);
        self
    }
    pub fn logged(mut self) -> (Tape, Arc<Mutex<Vec<(u64, u64)>>>) {
        let l = Arc::new(Mutex::new(vec![]));
        self.log = Some(l.clone());
        (self, l)
    }
    fn byte(&mut self, i: u64) -> u8 {
        let b = if (i as usize) < self.prefix.len() {
            self.prefix[i as usize]
        } else {
            let j = i - self.prefix.len() as u64;
            let k = j / 32;
            if self.block.0 != k {
                let mut h = Sha256::new();
                h.update(self.seed);
                h.update(k.to_le_bytes());
                self.block = (k, h.finalize().into());
            }
            self.block.1[(j % 32) as usize]
        };
        let mut b = b;
        for (p, m) in self.flips.iter() {
            if *p == i {
                b ^= m;
            }
        }
        b
    }
}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        if let Some(l) = &self.log {
            l.lock().unwrap().push((self.pos, dest.len() as u64));
        }
        for d in dest.iter_mut() {
            let p = self.pos;
            *d = self.byte(p);
            self.pos += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Tape {}

pub fn seed() -> impl Strategy<Value = Seed> {
    any::<u64>().prop_map(Seed::new)
}

/// Seeds whose stream starts with interesting bytes (special scalars, constant runs).
pub fn seed_special() -> BoxedStrategy<Seed> {
    prop_oneof![
        6 => any::<u64>().prop_map(Seed::new),
        1 => (any::<u64>(), 0u64..20, 0usize..2).prop_map(|(s, v, w)| {
            // a small scalar as a 64-byte little-endian wide value
            let mut p = vec![0u8; if w == 0 { 64 } else { 32 }];
            p[..8].copy_from_slice(&v.to_le_bytes());
            Seed { prefix: B(p), seed: s }
        }),
        1 => (any::<u64>(), 1usize..65, prop_oneof![Just(0u8), Just(0xff), Just(0x80), Just(1)])
            .prop_map(|(s, n, v)| Seed { prefix: B(vec![v; n]), seed: s }),
        1 => (any::<u64>(), vec(any::<u8>(), 64..65)).prop_map(|(s, p)| Seed { prefix: B(p), seed: s }),
        1 => (any::<u64>(), dict_text()).prop_map(|(s, mut p)| { p.0.truncate(64); Seed { prefix: p, seed: s } }),
    ]
    .boxed()
}

// ------------------------------------------------------------------ byte strings

/// Lengths around hash-block, field and buffer boundaries.
pub const EDGE_LENS: &[usize] = &[
    0, 1, 2, 3, 7, 8, 15, 16, 17, 20, 31, 32, 33, 47, 48, 49, 55, 56, 57, 63, 64, 65, 71, 72, 73,
    111, 112, 113, 119, 120, 121, 127, 128, 129, 135, 136, 143, 144, 145, 255, 256, 257,
];

/// Literals of the sources under test.  They only steer generation: code that singles out a
/// name, a byte or a length somewhere gets inputs around it.
#[derive(Default)]
pub struct Dict {
    pub strs: Vec<Vec<u8>>,
    pub ints: Vec<u64>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        for c in ["srp", "spake2", "aucpace"] {
            scan_dir(std::path::Path::new(&format!("/repo/{c}/src")), &mut d);
        }
        d.strs.sort();
        d.strs.dedup();
        d.ints.sort_unstable();
        d.ints.dedup();
        if d.strs.is_empty() {
            d.strs.push(b"admin".to_vec());
        }
        if d.ints.is_empty() {
            d.ints.push(16);
        }
        d
    })
}
fn scan_dir(p: &std::path::Path, d: &mut Dict) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    let mut names: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    names.sort();
    for f in names {
        if f.is_dir() {
            scan_dir(&f, d);
        } else if f.extension().is_some_and(|e| e == "rs") {
            scan_src(&std::fs::read_to_string(&f).unwrap_or_default(), d);
        }
    }
}
pub fn scan_src(src: &str, d: &mut Dict) {
    // unit tests of the crates are not interesting
    let src = match src.find("#[cfg(test)]\nmod") {
        Some(i) => &src[..i],
        None => match src.find("\nmod tests {") {
            Some(i) => &src[..i],
            None => src,
        },
    };
    for line in src.lines() {
        let t = line.trim_start();
        if t.starts_with("//") {
            continue;
        }
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'/' if b.get(i + 1) == Some(&b'/') => break,
                b'"' => {
                    let mut v = vec![];
                    i += 1;
                    while i < b.len() && b[i] != b'"' {
                        if b[i] == b'\\' && i + 1 < b.len() {
                            i += 1;
                            match b[i] {
                                b'n' => v.push(b'\n'),
                                b't' => v.push(b'\t'),
                                b'r' => v.push(b'\r'),
                                b'0' => v.push(0),
                                b'x' if i + 2 < b.len() => {
                                    v.push(u8::from_str_radix(&line[i + 1..i + 3], 16).unwrap_or(0));
                                    i += 2;
                                }
                                x => v.push(x),
                            }
                        } else {
                            v.push(b[i]);
                        }
                        i += 1;
                    }
                    i += 1;
                    if !v.is_empty() && v.len() <= 64 {
                        d.strs.push(v);
                    }
                }
                b'\'' if i + 2 < b.len() && b[i + 2] == b'\'' => {
                    d.strs.push(vec![b[i + 1]]);
                    i += 3;
                }
                c if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) => {
                    let st = i;
                    while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                        i += 1;
                    }
                    let t = line[st..i].replace('_', "");
                    let t = t.trim_end_matches("usize").trim_end_matches("u64").trim_end_matches("u32").trim_end_matches("u16");
                    let v = match t.strip_prefix("0x") {
                        Some(h) => u64::from_str_radix(h.trim_end_matches("u8"), 16).ok(),
                        None => match t.strip_prefix("0b") {
                            Some(h) => u64::from_str_radix(h, 2).ok(),
                            None => t.trim_end_matches("u8").parse().ok(),
                        },
                    };
                    d.ints.extend(v);
                }
                _ => i += 1,
            }
        }
    }
}
/// Byte strings made of the literals of the sources.
pub fn dict_text() -> BoxedStrategy<B> {
    (any::<[u16; 4]>(), 0u8..10, any::<u64>())
        .prop_map(|(r, how, seed)| {
            let d = dict();
            let s = &d.strs[r[0] as usize % d.strs.len()];
            let n = d.ints[r[1] as usize % d.ints.len()];
            let short = fill(1 + r[3] as usize % 9, seed);
            let lens: Vec<u64> = d.ints.iter().copied().filter(|n| *n <= 9000).collect();
            let len = if lens.is_empty() { 16 } else { lens[r[1] as usize % lens.len()] } as usize;
            B(match how {
                0 => s.clone(),
                1 => [&s[..], &short].concat(),
                2 => [&short[..], s].concat(),
                3 => [&short[..], s, &short].concat(),
                4 => s.iter().map(|b| if b.is_ascii_lowercase() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() }).collect(),
                5 => s.repeat(2),
                // lengths around the numbers
                6 => fill((len + r[2] as usize % 5).saturating_sub(2), seed),
                7 => fill((len + r[2] as usize % 5).saturating_sub(2), seed).into_iter().map(|b| b'a' + b % 26).collect(),
                // the numbers as bytes
                8 => {
                    let mut v = short;
                    let at = r[2] as usize % (v.len() + 1);
                    let b = n.to_be_bytes();
                    let z = b.iter().take_while(|x| **x == 0).count().min(7);
                    let mut b = b[z..].to_vec();
                    if r[3] & 0x8000 != 0 {
                        b.reverse();
                    }
                    v.splice(at..at, b);
                    v
                }
                _ => vec![n as u8; 1 + r[2] as usize % 70],
            })
        })
        .boxed()
}

/// Usernames, passwords, identities: anything, with structure that tends to matter.
pub fn text() -> BoxedStrategy<B> {
    prop_oneof![
        6 => "[a-z0-9]{1,10}".prop_map(|s| B(s.into_bytes())),
        3 => vec(any::<u8>(), 0..24).prop_map(B),
        1 => Just(B(vec![])),
        2 => ("[ -~]{0,12}", any::<(u8, u8, u8)>()).prop_map(|(s, (a, b, c))| B(Edit::Pad(a, b, c).apply(s.as_bytes()))),
        2 => (prop::sample::select(EDGE_LENS), any::<u64>()).prop_map(|(n, s)| B(fill(n, s))),
        1 => (prop::sample::select(EDGE_LENS), any::<u8>()).prop_map(|(n, v)| B(vec![v; n])),
        1 => "[ \\t\\n:@A-Za-z\u{e9}\u{df}\u{4e2d}\u{1f511}\u{0}]{1,8}".prop_map(|s| B(s.into_bytes())),
        1 => (vec(any::<u8>(), 0..6), 1usize..4, any::<bool>()).prop_map(|(v, z, front)| {
            let mut o = vec![0u8; z];
            if front { o.extend(v); B(o) } else { let mut v = v; v.extend(o); B(v) }
        }),
        1 => (258usize..1400, any::<u64>()).prop_map(|(n, s)| B(fill(n, s))),
        3 => dict_text(),
        1 => (9u32..14, 0usize..5, any::<u64>(), 0u8..3).prop_map(|(k, d, s, w)| {
            // around the powers of two up to 8 KiB: random bytes, one byte repeated, or letters
            let n = (1usize << k) + d - 2;
            B(match w {
                0 => fill(n, s),
                1 => vec![s as u8; n],
                _ => fill(n, s).into_iter().map(|b| b'a' + b % 26).collect(),
            })
        }),
    ]
    .boxed()
}

/// As `text`, occasionally very long (64 KiB boundary).
pub fn text_big() -> BoxedStrategy<B> {
    prop_oneof![
        60 => text(),
        1 => (65_500usize..66_000, any::<u64>()).prop_map(|(n, s)| B(fill(n, s))),
    ]
    .boxed()
}

/// Short text, at most `max` bytes.
pub fn text_upto(max: usize) -> BoxedStrategy<B> {
    text()
        .prop_map(move |mut b| {
            b.0.truncate(max);
            b
        })
        .boxed()
}

pub fn fill(n: usize, seed: u64) -> Vec<u8> {
    let mut t = Tape::new(&[], seed);
    let mut v = vec![0u8; n];
    t.fill_bytes(&mut v);
    v
}

/// Another byte string that differs from `a` in a small, structured way.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    FlipBit(u32),
    Append(u8),
    Prepend(u8),
    DropLast,
    DropFirst,
    Truncate(u32),
    Case,
    SwapAdjacent(u32),
    Empty,
    Double,
    Replace(B),
    /// all letters lower (or upper) case
    AllCase(bool),
    /// white space, NULs and the like around or inside
    Pad(u8, u8, u8),
    /// change one of the last bytes
    Tail(u8, u8),
    /// composed instead of decomposed accents, full-width letters, ...
    Unicode,
    Reverse,
}
impl Edit {
    /// Apply; always returns something different from `a`.
    pub fn apply(&self, a: &[u8]) -> Vec<u8> {
        let mut v = a.to_vec();
        match self {
            Edit::FlipBit(i) => {
                if !v.is_empty() {
                    let i = *i as usize % (v.len() * 8);
                    v[i / 8] ^= 1 << (i % 8);
                }
            }
            Edit::Append(x) => v.push(*x),
            Edit::Prepend(x) => v.insert(0, *x),
            Edit::DropLast => {
                v.pop();
            }
            Edit::DropFirst => {
                if !v.is_empty() {
                    v.remove(0);
                }
            }
            Edit::Truncate(n) => {
                if !v.is_empty() {
                    let n = *n as usize % v.len();
                    v.truncate(n);
                }
            }
            Edit::Case => {
                for x in v.iter_mut() {
                    if x.is_ascii_alphabetic() {
                        *x ^= 0x20;
                        break;
                    }
                }
            }
            Edit::SwapAdjacent(i) => {
                if v.len() > 1 {
                    let i = *i as usize % (v.len() - 1);
                    v.swap(i, i + 1);
                }
            }
            Edit::Empty => v.clear(),
            Edit::Double => {
                let c = v.clone();
                v.extend(c);
            }
            Edit::Replace(b) => v = b.0.clone(),
            Edit::AllCase(up) => {
                if *up {
                    v.make_ascii_uppercase()
                } else {
                    v.make_ascii_lowercase()
                }
            }
            Edit::Pad(what, n, at) => {
                let w: &[u8] = PADS[*what as usize % PADS.len()];
                let at = match at % 3 {
                    0 => v.len(),
                    1 => 0,
                    _ => v.len() / 2,
                };
                let ins = w.repeat(1 + *n as usize % 3);
                v.splice(at..at, ins);
            }
            Edit::Tail(i, m) => {
                let n = v.len();
                if n > 0 {
                    v[n - 1 - (*i as usize % n.min(8))] ^= (*m).max(1);
                }
            }
            Edit::Unicode => {
                if let Ok(s) = std::str::from_utf8(&v) {
                    v = s
                        .replace('\u{e9}', "e\u{301}")
                        .replace('\u{df}', "ss")
                        .replace('a', "\u{ff41}")
                        .into_bytes();
                }
            }
            Edit::Reverse => v.reverse(),
        }
        if v == a {
            v.push(b'x');
        }
        v
    }
}
const PADS: &[&[u8]] = &[
    b"\0", b" ", b"\n", b"\r\n", b"\t", b":", b"=", b"\xff", b"\x80", b"$", b"\xef\xbb\xbf", b"\xc2\xa0", b".", b"/", b"\\", b"\x7f",
    b"\x1a", b"@", b"\"", b"'", b"0", b",",
];
pub fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        6 => any::<u32>().prop_map(Edit::FlipBit),
        2 => prop_oneof![Just(0u8), Just(b' '), Just(b':'), any::<u8>()].prop_map(Edit::Append),
        2 => prop_oneof![Just(0u8), Just(b' '), any::<u8>()].prop_map(Edit::Prepend),
        2 => Just(Edit::DropLast),
        1 => Just(Edit::DropFirst),
        2 => any::<u32>().prop_map(Edit::Truncate),
        1 => Just(Edit::Case),
        1 => any::<u32>().prop_map(Edit::SwapAdjacent),
        1 => Just(Edit::Empty),
        1 => Just(Edit::Double),
        2 => text().prop_map(Edit::Replace),
        1 => any::<bool>().prop_map(Edit::AllCase),
        4 => any::<(u8, u8, u8)>().prop_map(|(a, b, c)| Edit::Pad(a, b, c)),
        3 => any::<(u8, u8)>().prop_map(|(a, b)| Edit::Tail(a, b)),
        1 => Just(Edit::Unicode),
        1 => Just(Edit::Reverse),
    ]
    .boxed()
}

// ------------------------------------------------------------------ near misses of a tag

/// Byte strings that differ from `p` but agree with it under some weaker comparison: the same
/// XOR, sum or multiset of bytes or words, the same prefix, suffix or every n-th byte, the same
/// text up to case, a textual form, and the like.
pub fn near_miss(p: &[u8], seed: u64) -> Vec<u8> {
    let r = fill(64, seed);
    let n = p.len();
    let mut v = p.to_vec();
    if n < 2 {
        v.push(r[0]);
        return v;
    }
    let u = |i: usize, m: usize| u16::from_le_bytes([r[2 * i], r[2 * i + 1]]) as usize % m;
    let (i, j) = (u(1, n), u(2, n));
    let noise = fill(n, seed ^ 0xabcdef);
    match u(0, 22) {
        // the same XOR over a pair of positions, often a power of two apart
        0..=3 => {
            let d = 1 << u(3, 6);
            let j = if u(4, 4) == 0 { j } else { (i + d * (1 + u(5, 3))) % n };
            let m = [1u8, 0x80, 0xff, r[20]][u(6, 4)].max(1);
            v[i] ^= m;
            v[j] ^= m;
        }
        // the same sum
        4 | 5 => {
            let m = [1u8, 0x10, 0x80, r[20]][u(6, 4)].max(1);
            v[i] = v[i].wrapping_add(m);
            v[j] = v[j].wrapping_sub(m);
        }
        // the same bytes in another order
        6 => v.swap(i, j),
        7 => {
            let w = 1 << u(3, 6).min(5);
            if n >= 2 * w {
                let (a, b) = (i % (n / w), j % (n / w));
                for k in 0..w {
                    v.swap(a * w + k, b * w + k);
                }
            }
        }
        8 => v.rotate_left(1 + u(3, n - 1)),
        9 => {
            let w = 2 << u(3, 4);
            v.chunks_mut(w).for_each(|c| c.reverse());
        }
        10 => v.sort_unstable(),
        // only a prefix, a suffix or some positions agree
        11 | 12 => v[i..].copy_from_slice(&noise[i..]),
        13 | 14 => v[..i].copy_from_slice(&noise[..i]),
        15 => {
            let (s, o) = (2 + u(3, 7), u(4, 9));
            for k in 0..n {
                if k % s != o % s {
                    v[k] = noise[k];
                }
            }
        }
        16 => v[i..].fill([0, 0xff][u(3, 2)]),
        17 => v[..i].fill([0, 0xff][u(3, 2)]),
        // the same up to some bits of every byte
        18 => {
            let m = [0x80u8, 1, 0x20, 0x7f, 0xff, 0xf0, 0x0f][u(3, 7)];
            v.iter_mut().for_each(|b| *b ^= m);
        }
        19 => v.iter_mut().for_each(|b| {
            if b.is_ascii_alphabetic() {
                *b ^= 0x20
            }
        }),
        20 => v.iter_mut().for_each(|b| *b = b.rotate_left(4)),
        // several equal bytes
        _ => {
            let k = v[i];
            v[j] = k;
        }
    }
    if v == p {
        v[i] ^= 1 << u(7, 8);
    }
    v
}

#[cfg(test)]
mod tests {
    #[test]
    fn scan() {
        let mut d = super::Dict::default();
        super::scan_src("let x = b\"ad\\x01m\\n\"; // 99\n if u.len() > 0x1_00 && c == b':' { 37usize } [0u8; 21]", &mut d);
        assert_eq!(d.strs, [b"ad\x01m\n".to_vec(), b":".to_vec()]);
        assert_eq!(d.ints, [256, 37, 0, 21]);
    }
}

/// How a value that plays a role in a session is mixed into one of its fields.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Mixing {
    Append,
    Prepend,
    Replace,
    AppendColon,
    PrependColon,
    Xor,
}
pub const MIXINGS: [Mixing; 6] =
    [Mixing::Append, Mixing::Prepend, Mixing::Replace, Mixing::AppendColon, Mixing::PrependColon, Mixing::Xor];
impl Mixing {
    pub fn apply(self, a: &[u8], b: &[u8]) -> Vec<u8> {
        match self {
            Mixing::Append => [a, b].concat(),
            Mixing::Prepend => [b, a].concat(),
            Mixing::Replace => b.to_vec(),
            Mixing::AppendColon => [a, b":", b].concat(),
            Mixing::PrependColon => [b, b":", a].concat(),
            Mixing::Xor => (0..a.len().max(b.len()))
                .map(|i| a.get(i).copied().unwrap_or(0) ^ b.get(i).copied().unwrap_or(0))
                .collect(),
        }
    }
}
