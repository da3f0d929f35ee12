//! SRP: groups, digests, an independently written model, generators.

use crate::fw::B;
use crate::util::*;
use digest::consts::{U1, U2};
use digest::{FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use num_bigint::BigUint;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use srp::types::SrpGroup;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

// ---------------------------------------------------------------- toy digests (1 and 2 bytes)

macro_rules! trunc_digest {
    ($name:ident, $u:ty, $n:literal) => {
        #[derive(Clone, Default)]
        pub struct $name(sha2::Sha256);
        impl HashMarker for $name {}
        impl OutputSizeUser for $name {
            type OutputSize = $u;
        }
        impl Update for $name {
            fn update(&mut self, data: &[u8]) {
                Update::update(&mut self.0, data)
            }
        }
        impl FixedOutput for $name {
            fn finalize_into(self, out: &mut Output<Self>) {
                let o = self.0.finalize_fixed();
                out.copy_from_slice(&o[..$n]);
            }
        }
    };
}
trunc_digest!(Toy1, U1, 1);
trunc_digest!(Toy2, U2, 2);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dig {
    Sha1,
    Sha224,
    Sha256,
    Sha384,
    Sha512,
    Toy1,
    Toy2,
}
#[macro_export]
macro_rules! with_digest {
    ($d:expr, $D:ident, $e:expr) => {
        match $d {
            $crate::srpm::Dig::Sha1 => {
                type $D = sha1::Sha1;
                $e
            }
            $crate::srpm::Dig::Sha224 => {
                type $D = sha2::Sha224;
                $e
            }
            $crate::srpm::Dig::Sha256 => {
                type $D = sha2::Sha256;
                $e
            }
            $crate::srpm::Dig::Sha384 => {
                type $D = sha2::Sha384;
                $e
            }
            $crate::srpm::Dig::Sha512 => {
                type $D = sha2::Sha512;
                $e
            }
            $crate::srpm::Dig::Toy1 => {
                type $D = $crate::srpm::Toy1;
                $e
            }
            $crate::srpm::Dig::Toy2 => {
                type $D = $crate::srpm::Toy2;
                $e
            }
        }
    };
}
pub fn dig_real() -> BoxedStrategy<Dig> {
    prop_oneof![
        3 => Just(Dig::Sha256),
        1 => Just(Dig::Sha1),
        1 => Just(Dig::Sha224),
        1 => Just(Dig::Sha384),
        2 => Just(Dig::Sha512),
    ]
    .boxed()
}
pub fn dig_any() -> BoxedStrategy<Dig> {
    prop_oneof![4 => dig_real(), 1 => Just(Dig::Toy1), 1 => Just(Dig::Toy2)].boxed()
}

// ---------------------------------------------------------------- groups

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum G {
    /// built-in, by bit length
    Rfc(u16),
    /// tiny custom safe-prime group
    Small(u8),
    /// custom safe-prime group of 16..513 bits
    Mid(u8),
    /// the same with another generator, mostly of many bytes: its (2k+1)-th power
    Gen(u8, u8),
}

pub const SMALL: &[(u32, u32)] = &[
    (5, 2), (7, 3), (11, 2), (23, 5), (47, 5), (59, 2), (83, 2), (107, 2), (167, 5), (179, 2),
    (227, 2), (263, 5), (347, 2), (359, 7), (383, 5), (467, 2), (479, 13), (503, 5), (563, 2),
    (587, 2), (719, 11), (839, 11), (863, 5), (887, 5), (983, 5), (1019, 2), (1187, 2), (1283, 2),
    (1307, 2), (1319, 13), (1367, 5), (1439, 7), (1487, 5), (1523, 2), (1619, 2), (1823, 5),
    (1907, 2), (2027, 2), (2039, 7), (2063, 5),
];
pub const MID: &[(&str, u32)] = &[
    ("9fb3", 2),
    ("a2c68f", 5),
    ("4ab81337", 5),
    ("b5a432cf", 5),
    ("122b1a953", 2),
    ("8898302be0fb", 2),
    ("4abf9662f896b70f", 23),
    ("9a7554a78b0541b7", 13),
    ("158c22dd23b61409f", 5),
    ("a132338f627b33086e8a8c4b", 2),
    ("7bcdd2f215c90f52cf11abd088b351af", 5),
    ("c67631bd870f7e5d73b85545047bd2b3", 2),
    ("c2fe35998818f50c77789741aae5d4b673c36157", 5),
    ("576f6b3a85f5d8240cfcfe8f7499f3a80e451627b4a5d74c86b3c76dba6b9267", 5),
    ("c185b81dd64eeb2b338a83d16e55bb2125ffd47b918f9ed188a77e594f7c3293", 2),
    ("19183eeb98047bbb86999dcf6561fde6ac483b72fde4e494b46df00002927716b", 2),
    ("d5411cc7128ff5dd51d64eec2dbe78d59e6416c03cd22b1737928af6c7e8d139e328db2f7d19e6bebd87973de95097eb", 2),
    ("6a48cb0a9a4387673a45222b628607cde3a1013d7d7b2e5c8573935b55739346f7393e7f646894bdfc805e214db4881421ec6eaa7bf9df0260d398f64500638b", 2),
    ("d74a3a0620643725bd1276e2cb14fcfc71754bc12e48ec8e40222ba6885892f2ec7ee6535f2786e61695ff8d17f9e24bad81a674362af54336c4f4769efd2bef", 5),
    ("1f1b680348e8ffb3c3f408417cedf07fb13658e2cb7ac05dba88d4bceeaa3157b61c8f8099c086cfb95b616ea1143e55bf1493b112c0851d3e8d090f5831ee147", 5),
    // same size as another one, alike at the top or at the bottom; extreme top bits
    ("c185b81dd64eeb2b338a83d16e55bb21ba96b2e7a5142b2716eae1e9881687bb", 2),
    ("c6636d5fd46eeb65033dae466f317dbb25ffd47b918f9ed188a77e594f7c3293", 2),
    ("d74a3a0620643725bd1276e2cb14fcfc71754bc12e48ec8e40222ba6885892f2a2348b66781a55c7f0b9e0eb1816c68d1d5c64a182455a7f23a5bf3c784c06ab", 2),
    ("d638dd9a99fceb0b952875e7f2ebaf2975c4425dcbf3809bf216806f69e1246cec7ee6535f2786e61695ff8d17f9e24bad81a674362af54336c4f4769efd2bef", 13),
    ("ffffffffffffffffffffffffffffffffff9f6ac38aaae1236d204514b7a1bad7", 5),
    ("8000000000000000000000000000000000524dd6af40bcab0e8df52d8a91fdbb", 2),
];
/// index of the first Mid group considered to be of cryptographic size (160 bits and more)
pub const MID_CRYPTO: u8 = 12;

pub const RFC_SIZES: &[u16] = &[1024, 1536, 2048, 3072, 4096, 6144, 8192];

pub fn group(g: G) -> &'static SrpGroup {
    static SM: OnceLock<Vec<SrpGroup>> = OnceLock::new();
    static MI: OnceLock<Vec<SrpGroup>> = OnceLock::new();
    match g {
        G::Rfc(1024) => &srp::groups::G_1024,
        G::Rfc(1536) => &srp::groups::G_1536,
        G::Rfc(2048) => &srp::groups::G_2048,
        G::Rfc(3072) => &srp::groups::G_3072,
        G::Rfc(4096) => &srp::groups::G_4096,
        G::Rfc(6144) => &srp::groups::G_6144,
        G::Rfc(_) => &srp::groups::G_8192,
        G::Small(i) => {
            let v = SM.get_or_init(|| {
                SMALL.iter().map(|&(n, g)| SrpGroup { n: n.into(), g: g.into() }).collect()
            });
            &v[i as usize % v.len()]
        }
        G::Mid(i) => {
            let v = MI.get_or_init(|| {
                MID.iter()
                    .map(|&(n, g)| SrpGroup {
                        n: BigUint::parse_bytes(n.as_bytes(), 16).unwrap(),
                        g: g.into(),
                    })
                    .collect()
            });
            &v[i as usize % v.len()]
        }
        G::Gen(i, k) => {
            static GE: Mutex<Option<HashMap<(u8, u8), &'static SrpGroup>>> = Mutex::new(None);
            let mut m = GE.lock().unwrap();
            m.get_or_insert_with(HashMap::new).entry((i, k)).or_insert_with(|| {
                let b = group(G::Mid(i));
                let g = b.g.modpow(&BigUint::from(2 * u32::from(k) + 1), &b.n);
                Box::leak(Box::new(SrpGroup { n: b.n.clone(), g }))
            })
        }
    }
}
/// Mostly cheap groups, sometimes each of the built-in ones.
pub fn g_any() -> BoxedStrategy<G> {
    prop_oneof![
        40 => (0..SMALL.len() as u8).prop_map(G::Small),
        40 => (0..MID.len() as u8).prop_map(G::Mid),
        20 => (0..MID.len() as u8, any::<u8>()).prop_map(|(i, k)| G::Gen(i, k)),
        8 => Just(G::Rfc(1024)),
        4 => Just(G::Rfc(1536)),
        4 => Just(G::Rfc(2048)),
        2 => Just(G::Rfc(3072)),
        1 => Just(G::Rfc(4096)),
    ]
    .boxed()
}
/// Groups in which forgery by chance is negligible.
pub fn g_crypto() -> BoxedStrategy<G> {
    prop_oneof![
        40 => (MID_CRYPTO..MID.len() as u8).prop_map(G::Mid),
        15 => (MID_CRYPTO..MID.len() as u8, any::<u8>()).prop_map(|(i, k)| G::Gen(i, k)),
        10 => Just(G::Rfc(1024)),
        3 => Just(G::Rfc(1536)),
        4 => Just(G::Rfc(2048)),
        1 => Just(G::Rfc(3072)),
    ]
    .boxed()
}

// ---------------------------------------------------------------- model

/// Minimal big-endian bytes.
pub fn mb(x: &BigUint) -> Vec<u8> {
    x.to_bytes_be()
}
pub fn num(b: &[u8]) -> BigUint {
    let mut x = BigUint::default();
    // not from_bytes_be: an independent conversion
    for chunk in b.chunks(4) {
        let mut w = 0u64;
        for c in chunk {
            w = (w << 8) | u64::from(*c);
        }
        x = (x << (8 * chunk.len())) + BigUint::from(w);
    }
    x
}
pub fn h<D: digest::Digest>(parts: &[&[u8]]) -> Vec<u8> {
    let all: Vec<u8> = parts.concat();
    D::digest(&all).to_vec()
}
pub struct Model {
    pub n: BigUint,
    pub g: BigUint,
}
impl Model {
    pub fn of(g: G) -> Model {
        let p = group(g);
        Model { n: p.n.clone(), g: p.g.clone() }
    }
    pub fn k<D: digest::Digest>(&self) -> BigUint {
        let n = mb(&self.n);
        let g = mb(&self.g);
        let pad = vec![0u8; n.len() - g.len()];
        num(&h::<D>(&[&n, &pad, &g]))
    }
    pub fn x<D: digest::Digest>(&self, user: &[u8], pass: &[u8], salt: &[u8]) -> BigUint {
        let id = h::<D>(&[user, b":", pass]);
        num(&h::<D>(&[salt, &id]))
    }
    pub fn pow(&self, b: &BigUint, e: &BigUint) -> BigUint {
        (b % &self.n).modpow(e, &self.n)
    }
    pub fn v(&self, x: &BigUint) -> BigUint {
        self.pow(&self.g, x)
    }
    pub fn a_pub(&self, a: &BigUint) -> BigUint {
        self.pow(&self.g, a)
    }
    pub fn b_pub<D: digest::Digest>(&self, b: &BigUint, v: &BigUint) -> BigUint {
        (self.k::<D>() * v + self.pow(&self.g, b)) % &self.n
    }
    pub fn u<D: digest::Digest>(&self, a: &BigUint, b: &BigUint) -> BigUint {
        num(&h::<D>(&[&mb(a), &mb(b)]))
    }
    /// (B - k g^x)^(a + u x)
    pub fn s_client(&self, bp: &BigUint, k: &BigUint, x: &BigUint, a: &BigUint, u: &BigUint) -> BigUint {
        let kv = (k * self.pow(&self.g, x)) % &self.n;
        let base = ((bp % &self.n) + &self.n - kv) % &self.n;
        self.pow(&base, &(a + u * x))
    }
    /// (A v^u)^b
    pub fn s_server(&self, ap: &BigUint, v: &BigUint, u: &BigUint, b: &BigUint) -> BigUint {
        let base = (ap % &self.n) * self.pow(v, u) % &self.n;
        self.pow(&base, b)
    }
    pub fn m1<D: digest::Digest>(&self, a: &BigUint, b: &BigUint, s: &BigUint) -> Vec<u8> {
        h::<D>(&[&mb(a), &mb(b), &mb(s)])
    }
    pub fn m2<D: digest::Digest>(&self, a: &BigUint, m1: &[u8], s: &BigUint) -> Vec<u8> {
        h::<D>(&[&mb(a), m1, &mb(s)])
    }
    pub fn zero(&self, x: &BigUint) -> bool {
        x % &self.n == BigUint::default()
    }
}

// ---------------------------------------------------------------- generators

/// An ephemeral secret: any length, special values included.
pub fn secret() -> BoxedStrategy<B> {
    prop_oneof![
        5 => proptest::collection::vec(any::<u8>(), 16..65).prop_map(B),
        2 => proptest::collection::vec(any::<u8>(), 0..16).prop_map(B),
        1 => Just(B(vec![])),
        1 => (1usize..40, any::<u8>()).prop_map(|(n, v)| B(vec![v; n])),
        1 => (0usize..20, proptest::collection::vec(any::<u8>(), 0..33)).prop_map(|(z, v)| {
            let mut o = vec![0u8; z];
            o.extend(v);
            B(o)
        }),
        1 => (0u64..6).prop_map(|x| B(vec![x as u8])),
        1 => proptest::collection::vec(any::<u8>(), 65..140).prop_map(B),
        1 => dict_text(),
    ]
    .boxed()
}
/// A cryptographic-strength secret.
pub fn strong_secret() -> BoxedStrategy<B> {
    (prop_oneof![20 => 16usize..65, 2 => 65usize..200, 1 => 200usize..600], any::<u64>(), 0usize..4)
        .prop_map(|(n, s, z)| {
            let mut o = vec![0u8; z];
            o.extend(fill(n, s));
            B(o)
        })
        .boxed()
}
pub fn salt() -> BoxedStrategy<B> {
    prop_oneof![
        4 => proptest::collection::vec(any::<u8>(), 16..17).prop_map(B),
        3 => text(),
        1 => Just(B(vec![])),
    ]
    .boxed()
}

/// Alter an integer carried as bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum NumEdit {
    AddOne,
    SubOne,
    AddN,
    Negate,
    Zero,
    One,
    TimesG,
    Double,
    FlipBit(u32),
    AppendZero,
    DropLast,
    Replace(B),
}
pub fn num_edit() -> BoxedStrategy<NumEdit> {
    prop_oneof![
        Just(NumEdit::AddOne),
        Just(NumEdit::SubOne),
        Just(NumEdit::AddN),
        Just(NumEdit::Negate),
        Just(NumEdit::Zero),
        Just(NumEdit::One),
        Just(NumEdit::TimesG),
        Just(NumEdit::Double),
        any::<u32>().prop_map(NumEdit::FlipBit),
        any::<u32>().prop_map(NumEdit::FlipBit),
        Just(NumEdit::AppendZero),
        Just(NumEdit::DropLast),
        secret().prop_map(NumEdit::Replace),
    ]
    .boxed()
}
impl NumEdit {
    pub fn apply(&self, x: &BigUint, m: &Model) -> BigUint {
        let one = BigUint::from(1u8);
        match self {
            NumEdit::AddOne => x + &one,
            NumEdit::SubOne => {
                if *x > one {
                    x - &one
                } else {
                    x + 2u8
                }
            }
            NumEdit::AddN => x + &m.n,
            NumEdit::Negate => (&m.n - (x % &m.n)) % &m.n,
            NumEdit::Zero => BigUint::default(),
            NumEdit::One => one,
            NumEdit::TimesG => x * &m.g % &m.n,
            NumEdit::Double => x * 2u8,
            NumEdit::FlipBit(i) => {
                let i = u64::from(*i) % m.n.bits();
                let bit = BigUint::from(1u8) << i;
                if x.bit(i) {
                    x - bit
                } else {
                    x + bit
                }
            }
            NumEdit::AppendZero => x << 8,
            NumEdit::DropLast => x >> 8,
            NumEdit::Replace(b) => num(b),
        }
    }
}
