//! K01..K06

use crate::fw::*;
use crate::spakem::{self as sm, Enc, Peer, Role};
use crate::util::*;
use crate::{ensure, ensure_eq};
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use num_bigint::BigUint;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand_core::{CryptoRng, RngCore};
use serde::{Deserialize, Serialize};
use spake2::{Ed25519Group, Error, Group, Identity, Password, Spake2};

use crate::rare::{krare, krare_cases, wide as wide_of, KRare};

type S = Spake2<Ed25519Group>;

pub fn start<Gr: Group>(r: Role, pw: &[u8], a: &[u8], b: &[u8], rng: Tape) -> (Spake2<Gr>, Vec<u8>) {
    let pw = Password::new(pw);
    match r {
        Role::A => Spake2::<Gr>::start_a_with_rng(&pw, &Identity::new(a), &Identity::new(b), rng),
        Role::B => Spake2::<Gr>::start_b_with_rng(&pw, &Identity::new(a), &Identity::new(b), rng),
        Role::S => Spake2::<Gr>::start_symmetric_with_rng(&pw, &Identity::new(a), rng),
    }
}
fn start_os(r: Role, pw: &[u8], a: &[u8], b: &[u8]) -> (S, Vec<u8>) {
    let pw = Password::new(pw);
    match r {
        Role::A => S::start_a(&pw, &Identity::new(a), &Identity::new(b)),
        Role::B => S::start_b(&pw, &Identity::new(a), &Identity::new(b)),
        Role::S => S::start_symmetric(&pw, &Identity::new(a)),
    }
}
pub fn role() -> BoxedStrategy<Role> {
    prop_oneof![Just(Role::A), Just(Role::B), Just(Role::S)].boxed()
}

// =================================================================== K01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ex {
    sym: bool,
    pw: B,
    ida: B,
    idb: B,
    r1: Seed,
    r2: Seed,
    order: u8,
    /// bit 0: side 1 uses the system RNG, bit 1: side 2
    os: u8,
}
fn ex() -> BoxedStrategy<Ex> {
    (
        any::<bool>(),
        text_big(),
        text_big(),
        text_big(),
        seed_special(),
        seed_special(),
        any::<u8>(),
        prop_oneof![4 => Just(0u8), 1 => 1u8..4],
        0u8..8,
    )
        .prop_map(|(sym, pw, ida, mut idb, r1, mut r2, order, os, eq)| {
            if eq == 0 {
                idb = ida.clone();
            }
            if eq == 1 {
                r2 = r1.clone();
            }
            Ex { sym, pw, ida, idb, r1, r2, order, os }
        })
        .boxed()
}
fn k01(c: &Ex, o: &mut Obs) -> R {
    let (ra, rb) = if c.sym { (Role::S, Role::S) } else { (Role::A, Role::B) };
    let go = |r: Role, second: bool| -> (S, Vec<u8>) {
        let bit = if second { 2 } else { 1 };
        if c.os & bit != 0 {
            start_os(r, &c.pw, &c.ida, &c.idb)
        } else {
            start(r, &c.pw, &c.ida, &c.idb, if second { c.r2.tape() } else { c.r1.tape() })
        }
    };
    let ((s1, m1), (s2, m2));
    if c.order & 1 == 0 {
        (s1, m1) = go(ra, false);
        (s2, m2) = go(rb, true);
    } else {
        (s2, m2) = go(rb, true);
        (s1, m1) = go(ra, false);
    }
    ensure_eq!(m1.len(), 33, "length of first message");
    ensure_eq!(m2.len(), 33, "length of second message");
    ensure_eq!(m1[0], ra.letter(), "side letter of first message");
    ensure_eq!(m2[0], rb.letter(), "side letter of second message");
    let (k1, k2);
    if c.order & 2 == 0 {
        k1 = s1.finish(&m2);
        k2 = s2.finish(&m1);
    } else {
        k2 = s2.finish(&m1);
        k1 = s1.finish(&m2);
    }
    ensure!(k1.is_ok() && k2.is_ok(), "honest exchange failed: {k1:?} {k2:?}");
    let (k1, k2) = (k1.unwrap(), k2.unwrap());
    ensure_eq!(B(k1.clone()), B(k2), "keys differ (symmetric={})", c.sym);
    ensure_eq!(k1.len(), 32, "key length");
    ensure!(k1.iter().any(|x| *x != 0), "key is all zero");
    o.nontrivial = true;
    o.label(if c.sym { "symmetric" } else { "asymmetric" });
    if c.sym {
        o.label(match m1[1..].cmp(&m2[1..]) {
            std::cmp::Ordering::Less => "symmetric: first message smaller",
            std::cmp::Ordering::Greater => "symmetric: first message larger",
            _ => "symmetric: equal messages",
        });
        o.label_if(m1[1] == m2[1] && m1 != m2, "symmetric: first bytes equal");
    }
    o.label_if(c.os != 0, "system RNG");
    o.label_if(c.ida == c.idb, "equal identities");
    o.label_if(c.pw.is_empty(), "empty password");
    o.label_if(!c.r1.prefix.is_empty() || !c.r2.prefix.is_empty(), "special randomness");
    Ok(())
}
/// symmetric pairs whose messages share their first byte
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NearEq {
    pw: B,
    id: B,
    seed: u64,
}
fn k01_near(c: &NearEq, o: &mut Obs) -> R {
    // 60 sessions; every pair among those with equal first bytes must agree
    let mut by: std::collections::BTreeMap<u8, Vec<u64>> = Default::default();
    for i in 0..60u64 {
        let (_, m) = start::<Ed25519Group>(Role::S, &c.pw, &c.id, b"", Tape::new(&[], c.seed.wrapping_add(i)));
        by.entry(m[1]).or_default().push(i);
    }
    for v in by.values().filter(|v| v.len() > 1) {
        for w in v.windows(2) {
            let e = Ex {
                sym: true,
                pw: c.pw.clone(),
                ida: c.id.clone(),
                idb: B(vec![]),
                r1: Seed::new(c.seed.wrapping_add(w[0])),
                r2: Seed::new(c.seed.wrapping_add(w[1])),
                order: 0,
                os: 0,
            };
            let mut oo = Obs::default();
            k01(&e, &mut oo)?;
            o.inner += 1;
            o.nontrivial = true;
        }
    }
    o.label_if(o.inner > 0, "pairs with equal first byte");
    Ok(())
}
fn rare_seen(c: &KRare, hit: bool, o: &mut Obs) {
    o.nontrivial = hit;
    o.label(format!("{:?} {:?}", c.target, c.pat));
    o.label_if(!hit, "rare value not found");
}
/// Exchanges steered to rare messages, shared elements and keys.
fn k01_rare(c: &KRare, o: &mut Obs) -> R {
    let s = krare(c);
    let seed = |x: &Scalar| Seed { prefix: B(wide_of(x)), seed: c.seed };
    let (r1, r2) = (seed(&s.x), seed(&s.y));
    let (r1, r2) = if c.role == Role::B { (r2, r1) } else { (r1, r2) };
    k01(&Ex { sym: c.role == Role::S, pw: s.pw, ida: s.ida, idb: s.idb, r1, r2, order: c.seed as u8, os: 0 }, o)?;
    rare_seen(c, s.hit, o);
    Ok(())
}
fn k04_rare(c: &KRare, o: &mut Obs) -> R {
    let s = krare(c);
    let real = Seed { prefix: B(wide_of(&s.x)), seed: c.seed };
    k04(&Py { role: c.role, pw: s.pw, ida: s.ida, idb: s.idb, real, y: B(s.y.to_bytes().to_vec()) }, o)?;
    rare_seen(c, s.hit, o);
    Ok(())
}
pub fn k01_subs() -> Vec<Box<dyn Sub>> {
    vec![
        all("rare_values", "exchanges in which a message, the shared element or the key begins or ends with two zero (or 0xff) bytes; non-trivial: such an exchange was found", krare_cases, k01_rare),
        gen("agree", "password/identities of any content and length 0-66000, both modes, all four call orders, caller RNG (with special scalars) or system RNG; every case non-trivial", 30_000, 1_000_000, ex, k01),
        gen("symmetric_prefix", "symmetric pairs selected so that the two messages start with the same byte; non-trivial: such a pair existed", 160, 8_000,
            || (text_upto(40), text_upto(40), any::<u64>()).prop_map(|(pw, id, seed)| NearEq { pw, id, seed }).boxed(), k01_near),
    ]
}

// =================================================================== K02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dif {
    Pw(Edit),
    IdA(Edit),
    IdB(Edit),
    SwapIds,
    /// move the last `n` bytes of idA to the front of idB
    ShiftIds(u8),
    MovePwToId,
    Msg1Bit(u16),
    Msg2Bit(u16),
    Msg1(PointEdit),
    Msg2(PointEdit),
    /// both messages altered the same way
    MsgBoth(PointEdit),
    /// side 1 gets the message of another session of side 2
    Stale,
    /// the first side receives its own message back (with the side letter adjusted)
    Reflect,
    /// a value that plays a role in this session mixed into the password or an identity
    Mix(u8, u8, Mixing),
}
/// password, identities, their SHA-256 (which the transcript contains), the password scalar, the
/// messages of the first side, side letters
fn mix_value(c: &Dc, n: u8, m1: &[u8]) -> Vec<u8> {
    use sha2::{Digest, Sha256};
    let h = |b: &[u8]| Sha256::digest(b).to_vec();
    match n {
        0 => c.pw.0.clone(),
        1 => c.ida.0.clone(),
        2 => c.idb.0.clone(),
        3 => h(&c.pw),
        4 => h(&c.ida),
        5 => h(&c.idb),
        6 => sm::pw_scalar(&c.pw).to_bytes().to_vec(),
        7 => m1.to_vec(),
        8 => m1[1..].to_vec(),
        9 => b"A".to_vec(),
        10 => b"B".to_vec(),
        11 => b"S".to_vec(),
        12 => b"symmetric".to_vec(),
        13 => vec![0],
        14 => [&h(&c.ida)[..], &h(&c.idb)].concat(),
        _ => h(&[]),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PointEdit {
    Neg,
    AddBase,
    AddTorsion(u8),
    Identity,
    Double,
    Random(u64),
}
impl PointEdit {
    fn apply(&self, b: &[u8]) -> Vec<u8> {
        let mut x = [0u8; 32];
        x.copy_from_slice(&b[1..]);
        let e = CompressedEdwardsY(x).decompress().unwrap_or_default();
        let base = curve25519_dalek::constants::ED25519_BASEPOINT_POINT;
        let e2 = match self {
            PointEdit::Neg => -e,
            PointEdit::AddBase => e + base,
            PointEdit::AddTorsion(i) => e + curve25519_dalek::constants::EIGHT_TORSION[1 + (*i as usize % 7)],
            PointEdit::Identity => EdwardsPoint::default(),
            PointEdit::Double => e + e,
            PointEdit::Random(s) => base * Scalar::from_bytes_mod_order_wide(&fill(64, *s).try_into().unwrap()),
        };
        let mut o = vec![b[0]];
        o.extend(e2.compress().to_bytes());
        o
    }
}
fn point_edit() -> BoxedStrategy<PointEdit> {
    prop_oneof![
        Just(PointEdit::Neg),
        Just(PointEdit::AddBase),
        (0u8..7).prop_map(PointEdit::AddTorsion),
        Just(PointEdit::Identity),
        Just(PointEdit::Double),
        any::<u64>().prop_map(PointEdit::Random),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dc {
    sym: bool,
    pw: B,
    ida: B,
    idb: B,
    r1: u64,
    r2: u64,
    r3: u64,
    difs: Vec<Dif>,
}
fn dif() -> BoxedStrategy<Dif> {
    prop_oneof![
        4 => edit().prop_map(Dif::Pw),
        3 => edit().prop_map(Dif::IdA),
        3 => edit().prop_map(Dif::IdB),
        1 => Just(Dif::SwapIds),
        2 => any::<u8>().prop_map(Dif::ShiftIds),
        1 => Just(Dif::MovePwToId),
        3 => (0u16..264).prop_map(Dif::Msg1Bit),
        3 => (0u16..264).prop_map(Dif::Msg2Bit),
        2 => point_edit().prop_map(Dif::Msg1),
        2 => point_edit().prop_map(Dif::Msg2),
        2 => point_edit().prop_map(Dif::MsgBoth),
        1 => Just(Dif::Stale),
        1 => Just(Dif::Reflect),
        7 => (0u8..3, 0u8..16, prop::sample::select(&MIXINGS[..])).prop_map(|(f, s, m)| Dif::Mix(f, s, m)),
    ]
    .boxed()
}
fn k02(c: &Dc, o: &mut Obs) -> R {
    let (ra, rb) = if c.sym { (Role::S, Role::S) } else { (Role::A, Role::B) };
    let (mut pw, mut ia, mut ib) = (c.pw.0.clone(), c.ida.0.clone(), c.idb.0.clone());
    let (s1, m1) = start::<Ed25519Group>(ra, &c.pw, &c.ida, &c.idb, Tape::new(&[], c.r1));
    for d in &c.difs {
        match d {
            Dif::Mix(f, n, how) => {
                let v = mix_value(c, *n, &m1);
                let f = match f % 3 {
                    0 => &mut pw,
                    1 => &mut ia,
                    _ => &mut ib,
                };
                *f = how.apply(f, &v);
                o.label("derived value mixed in");
            }
            Dif::Pw(e) => pw = e.apply(&pw),
            Dif::IdA(e) => ia = e.apply(&ia),
            Dif::IdB(e) => ib = e.apply(&ib),
            Dif::SwapIds => std::mem::swap(&mut ia, &mut ib),
            Dif::ShiftIds(n) => {
                let n = 1 + *n as usize % ia.len().max(1);
                let k = ia.len().saturating_sub(n);
                let t = ia.split_off(k);
                ib.splice(0..0, t);
            }
            Dif::MovePwToId => {
                if let Some(x) = pw.pop() {
                    ia.insert(0, x);
                }
            }
            _ => {}
        }
    }
    let secrets_differ = pw != c.pw.0 || ia != c.ida.0 || (!c.sym && ib != c.idb.0);
    let (s2, m2) = start::<Ed25519Group>(rb, &pw, &ia, &ib, Tape::new(&[1], c.r2));
    let (_, m3) = start::<Ed25519Group>(rb, &pw, &ia, &ib, Tape::new(&[2], c.r3));
    let (mut d1, mut d2) = (m1.clone(), m2.clone()); // as delivered
    for d in &c.difs {
        match d {
            Dif::Msg1Bit(i) => d1[*i as usize / 8] ^= 1 << (i % 8),
            Dif::Msg2Bit(i) => d2[*i as usize / 8] ^= 1 << (i % 8),
            Dif::Msg1(e) => d1 = e.apply(&d1),
            Dif::Msg2(e) => d2 = e.apply(&d2),
            Dif::MsgBoth(e) => {
                d1 = e.apply(&d1);
                d2 = e.apply(&d2);
            }
            Dif::Stale => d2 = m3.clone(),
            Dif::Reflect => {
                d2 = m1.clone();
                d2[0] = rb.letter();
            }
            _ => {}
        }
    }
    let wire = d1 != m1 || d2 != m2;
    if !secrets_differ && !wire {
        o.label("differences cancel out");
        return Ok(());
    }
    // a symmetric session whose both sides only see their own message is the same as two
    // sides with equal messages; it cannot produce equal keys unless the messages were equal
    o.nontrivial = true;
    for d in &c.difs {
        let s = format!("{d:?}");
        o.label(format!("dif {}", s.split('(').next().unwrap()));
    }
    let k1 = no_panic(|| s1.finish(&d2)).map_err(|p| format!("finish panicked: {p}"))?;
    let k2 = no_panic(|| s2.finish(&d1)).map_err(|p| format!("finish panicked: {p}"))?;
    o.label_if(k1.is_ok() && k2.is_ok(), "both finished");
    if let (Ok(a), Ok(b)) = (&k1, &k2) {
        ensure!(a != b, "both sides derived the same key despite {:?}", c.difs);
    }
    Ok(())
}
/// every single bit of both messages
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bits {
    sym: bool,
    pw: B,
    seed: u64,
}
fn k02_bits(c: &Bits, o: &mut Obs) -> R {
    for i in 0..264u16 {
        for w in 0..2 {
            let d = Dc {
                sym: c.sym,
                pw: c.pw.clone(),
                ida: B(b"a".to_vec()),
                idb: B(b"b".to_vec()),
                r1: c.seed,
                r2: c.seed ^ 1,
                r3: 0,
                difs: vec![if w == 0 { Dif::Msg1Bit(i) } else { Dif::Msg2Bit(i) }],
            };
            let mut oo = Obs::default();
            k02(&d, &mut oo)?;
            o.inner += 1;
        }
    }
    o.nontrivial = true;
    Ok(())
}
/// every bit of the identities and the password
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IdBits {
    sym: bool,
    pw: B,
    ida: B,
    idb: B,
    seed: u64,
}
fn k02_idbits(c: &IdBits, o: &mut Obs) -> R {
    let base = |difs| Dc {
        sym: c.sym,
        pw: c.pw.clone(),
        ida: c.ida.clone(),
        idb: c.idb.clone(),
        r1: c.seed,
        r2: c.seed ^ 5,
        r3: 0,
        difs,
    };
    for (w, len) in [(0, c.pw.len()), (1, c.ida.len()), (2, c.idb.len())] {
        for byte in 0..len {
            let e = Edit::FlipBit((byte * 8 + (byte + w) % 8) as u32);
            let d = match w {
                0 => Dif::Pw(e),
                1 => Dif::IdA(e),
                _ => Dif::IdB(e),
            };
            k02(&base(vec![d]), &mut Obs::default())?;
            o.inner += 1;
        }
    }
    o.nontrivial = o.inner > 0;
    Ok(())
}
/// one state, two different received messages
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Alias {
    role: Role,
    pw: B,
    id: B,
    seed: u64,
    body: Body,
    how: u8,
    n: u8,
}
fn k02_alias(c: &Alias, o: &mut Obs) -> R {
    let mut a = body_bytes(&c.body);
    a.resize(32, 0);
    let point = curve25519_dalek::edwards::CompressedEdwardsY(a.clone().try_into().unwrap()).decompress();
    let mut b = a.clone();
    match (c.how % 6, point) {
        // the other encoding of the same y, if there is one
        (0, _) => {
            let (sign, mut y) = (b[31] & 0x80, b.clone());
            y[31] &= 0x7f;
            let y = num_bigint::BigUint::from_bytes_le(&y);
            let y = if y >= *sm::p() { y - sm::p() } else { y + sm::p() };
            let mut y = y.to_bytes_le();
            y.resize(32, 0);
            y[31] = (y[31] & 0x7f) | sign;
            b = y;
        }
        (1, _) => b[31] ^= 0x80,
        // points that some factor makes equal
        (2, Some(p)) => b = (p + curve25519_dalek::constants::EIGHT_TORSION[1 + c.n as usize % 7]).compress().to_bytes().to_vec(),
        (3, Some(p)) => b = (-p).compress().to_bytes().to_vec(),
        (4, Some(p)) => {
            // the image under the constant: the other party's unblinded point repeats
            b = (p + Ed25519Group::const_s() * c2s(c.n)).compress().to_bytes().to_vec();
        }
        _ => b[c.n as usize % 32] ^= 1 << (c.n % 8),
    }
    if a == b {
        o.label("the same message");
        return Ok(());
    }
    let msg = |x: &[u8]| [&[c.role.peer().letter()][..], x].concat();
    let mut keys = vec![];
    for x in [&a, &b] {
        let (s, _) = start::<Ed25519Group>(c.role, &c.pw, &c.id, &c.id, Tape::new(&[], c.seed));
        keys.push(no_panic(|| s.finish(&msg(x))).map_err(|p| format!("finish panicked: {p}"))?);
    }
    if let (Ok(x), Ok(y)) = (&keys[0], &keys[1]) {
        o.nontrivial = true;
        o.label(format!("how {}", c.how % 6));
        ensure!(x != y, "the different messages {} and {} lead to the same key", hex(&a), hex(&b));
    }
    Ok(())
}
fn c2s(n: u8) -> curve25519_dalek::Scalar {
    curve25519_dalek::Scalar::from(u64::from(n) + 1)
}
pub fn k02_subs() -> Vec<Box<dyn Sub>> {
    vec![
        gen("differ", "two sides with 1-3 differences (password, identities, swaps, byte shifts between fields, message bits, curve-level message edits, stale and reflected messages), both modes; non-trivial: something really differs", 24_000, 1_000_000,
            || (any::<bool>(), text_big(), text_big(), text_big(), any::<[u64; 3]>(), prop_oneof![4 => proptest::collection::vec(dif(), 1..2), 1 => proptest::collection::vec(dif(), 2..4)])
                .prop_map(|(sym, pw, ida, idb, r, difs)| Dc { sym, pw, ida, idb, r1: r[0], r2: r[1], r3: r[2], difs }).boxed(), k02),
        gen("aliases", "one session state given two different messages that stand for the same or related points (second encodings, small-order shifts, negations): the keys must differ; non-trivial: both are accepted", 8_000, 400_000,
            || (prop::sample::select(vec![Role::A, Role::B, Role::S]), text(), text(), any::<u64>(), rx_body(), any::<u8>(), any::<u8>())
                .prop_map(|(role, pw, id, seed, body, how, n)| Alias { role, pw, id, seed, body, how, n }).boxed(), k02_alias),
        gen("message_bits", "all 264 single-bit changes of each message of a session; every case non-trivial", 80, 4_000,
            || (any::<bool>(), text_upto(30), any::<u64>()).prop_map(|(sym, pw, seed)| Bits { sym, pw, seed }).boxed(), k02_bits),
        gen("field_bytes", "one bit of every byte position of password and identities; non-trivial: at least one byte", 120, 5_000,
            || (any::<bool>(), text_upto(80), text_upto(80), text_upto(80), any::<u64>()).prop_map(|(sym, pw, ida, idb, seed)| IdBits { sym, pw, ida, idb, seed }).boxed(), k02_idbits),
    ]
}

// =================================================================== K03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    Arb(B),
    /// y-coordinate (little endian value added to p or taken as is), sign bit
    SmallY(u8, bool),
    NearP(i8, bool),
    Torsion(u8, bool),
    Valid(u64),
    ValidFlip(u64, u16),
    Random32(u64),
    /// a point composed of what the two sides share: a multiple of a blinding element (own or
    /// peer's) times the password scalar, of the base point, of the receiver's own message, and a
    /// small-order point
    Point { blind: i8, peer_const: bool, base: i8, own: i8, tor: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rx {
    role: Role,
    pw: B,
    seed: Seed,
    first: u8,
    body: Body,
    /// cut or extend the message to this length, if any
    len: Option<u16>,
}
pub fn body_bytes(b: &Body) -> Vec<u8> {
    match b {
        Body::Arb(x) => x.0.clone(),
        Body::SmallY(y, s) => {
            let mut v = vec![0u8; 32];
            v[0] = *y;
            v[31] |= (*s as u8) << 7;
            v
        }
        Body::NearP(dy, s) => {
            let y = if *dy >= 0 { sm::p() + (*dy as u8) } else { sm::p() - (dy.unsigned_abs()) };
            let mut v = y.to_bytes_le();
            v.resize(32, 0);
            v[31] = (v[31] & 0x7f) | (*s as u8) << 7;
            v
        }
        Body::Torsion(i, s) => {
            let mut v = curve25519_dalek::constants::EIGHT_TORSION[*i as usize % 8].compress().to_bytes().to_vec();
            v[31] ^= (*s as u8) << 7;
            v
        }
        Body::Valid(s) => sample_point(*s),
        Body::ValidFlip(s, i) => {
            let mut v = sample_point(*s);
            v[*i as usize / 8 % 32] ^= 1 << (i % 8);
            v
        }
        Body::Random32(s) => fill(32, *s),
        Body::Point { .. } => body_at(b, Role::A, b"pw", None),
    }
}
/// the same, for a receiver known to the sender
pub fn body_at(b: &Body, role: Role, pw: &[u8], own: Option<&[u8]>) -> Vec<u8> {
    let Body::Point { blind, peer_const, base, own: k, tor } = b else { return body_bytes(b) };
    let small = |i: i8| {
        let x = Scalar::from(u64::from(i.unsigned_abs()));
        if i < 0 { -x } else { x }
    };
    let [m, n, s] = sm::consts();
    let c = match if *peer_const { role.peer() } else { role } {
        Role::A => m,
        Role::B => n,
        Role::S => s,
    };
    let mut e = c * (sm::pw_scalar(pw) * small(*blind))
        + curve25519_dalek::constants::ED25519_BASEPOINT_POINT * small(*base)
        + curve25519_dalek::constants::EIGHT_TORSION[*tor as usize % 8];
    let own = own.and_then(|o| o.get(1..33)).and_then(|o| curve25519_dalek::edwards::CompressedEdwardsY(o.try_into().unwrap()).decompress());
    if let Some(p) = own {
        e += p * small(*k);
    }
    e.compress().to_bytes().to_vec()
}
pub fn rx_body() -> BoxedStrategy<Body> {
    prop_oneof![
                    2 => text().prop_map(Body::Arb),
                    1 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Body::SmallY(a, b)),
                    1 => (-40i8..19, any::<bool>()).prop_map(|(a, b)| Body::NearP(a, b)),
                    1 => (0u8..8, any::<bool>()).prop_map(|(a, b)| Body::Torsion(a, b)),
                    3 => any::<u64>().prop_map(Body::Valid),
                    3 => (any::<u64>(), 0u16..256).prop_map(|(a, b)| Body::ValidFlip(a, b)),
                    3 => any::<u64>().prop_map(Body::Random32),
                    2 => (prop_oneof![6 => Just(1i8), 3 => Just(0), 2 => Just(-1), 1 => any::<i8>()], prop_oneof![4 => Just(true), 1 => Just(false)],
                          prop_oneof![3 => Just(0i8), 2 => -3i8..4, 1 => any::<i8>()], prop_oneof![4 => Just(0i8), 1 => Just(1), 2 => Just(-1), 1 => -3i8..4],
                          prop_oneof![3 => Just(0u8), 1 => 0u8..8])
                        .prop_map(|(blind, peer_const, base, own, tor)| Body::Point { blind, peer_const, base, own, tor }),
                ]
    .boxed()
}
fn sample_point(s: u64) -> Vec<u8> {
    let x = Scalar::from_bytes_mod_order_wide(&fill(64, s).try_into().unwrap());
    (curve25519_dalek::constants::ED25519_BASEPOINT_POINT * x).compress().to_bytes().to_vec()
}
fn k03_msg(role: Role, pw: &[u8], seed: u64, msg: &[u8], o: &mut Obs) -> R {
    k03_tape(role, pw, &Seed::new(seed), msg, o)
}
fn k03_tape(role: Role, pw: &[u8], seed: &Seed, msg: &[u8], o: &mut Obs) -> R {
    let (s, _) = start::<Ed25519Group>(role, pw, b"idA", b"idB", seed.tape());
    let r = no_panic(|| s.finish(msg)).map_err(|p| format!("finish panicked on {}: {p}", hex(msg)))?;
    if msg.len() != 33 {
        o.label("wrong length");
        ensure_eq!(r, Err(Error::WrongLength), "{} bytes", msg.len());
        return Ok(());
    }
    if msg[0] != role.peer().letter() {
        o.label("bad side");
        ensure_eq!(r, Err(Error::BadSide), "side byte {:#04x} for role {role:?}", msg[0]);
        return Ok(());
    }
    let b: [u8; 32] = msg[1..].try_into().unwrap();
    match sm::classify(&b) {
        Enc::Invalid => {
            o.label("corrupt point");
            ensure_eq!(r, Err(Error::CorruptMessage), "no curve point: {}", hex(&b));
        }
        Enc::Valid => {
            o.label("valid point");
            ensure!(matches!(&r, Ok(k) if k.len() == 32), "valid point {} gave {r:?}", hex(&b));
        }
        Enc::NonCanonical => {
            o.label("non-canonical point");
            ensure!(matches!(&r, Ok(k) if k.len() == 32) || r == Err(Error::CorruptMessage), "non-canonical point {} gave {r:?}", hex(&b));
        }
    }
    Ok(())
}
fn k03(c: &Rx, o: &mut Obs) -> R {
    let mut msg = vec![c.first];
    if matches!(c.body, Body::Point { .. }) {
        let (_, own) = start::<Ed25519Group>(c.role, &c.pw, b"idA", b"idB", c.seed.tape());
        msg.extend(body_at(&c.body, c.role, &c.pw, Some(&own)));
        o.label("point related to the session");
    } else {
        msg.extend(body_bytes(&c.body));
    }
    if let Some(l) = c.len {
        msg.resize(l as usize, 0x42);
    }
    o.nontrivial = true;
    k03_tape(c.role, &c.pw, &c.seed, &msg, o)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RxAll {
    role: Role,
    what: u8,
}
/// all lengths 0..=600 with each letter; all first bytes with valid, invalid and empty bodies
fn k03_all(c: &RxAll, o: &mut Obs) -> R {
    let valid = sample_point(5);
    let invalid = {
        let mut y = 2u8;
        loop {
            let mut v = [0u8; 32];
            v[0] = y;
            if sm::classify(&v) == Enc::Invalid {
                break v.to_vec();
            }
            y += 1;
        }
    };
    match c.what {
        0 => {
            for n in (0..=600usize).chain([1000, 4096, 65535, 65536, 65569]) {
                for l in [b'A', b'B', b'S', 0] {
                    let mut m = vec![l];
                    m.extend(&valid);
                    m.resize(n, 0);
                    if n > 0 {
                        m[0] = l;
                    }
                    k03_msg(c.role, b"pw", 1, &m, &mut Obs::default())?;
                    o.inner += 1;
                }
            }
        }
        1 => {
            for l in 0..=255u8 {
                for b in [&valid, &invalid] {
                    let mut m = vec![l];
                    m.extend(b);
                    k03_msg(c.role, b"pw", 2, &m, &mut Obs::default())?;
                    // with wrong lengths the length verdict comes first
                    k03_msg(c.role, b"pw", 2, &m[..32], &mut Obs::default())?;
                    m.push(0);
                    k03_msg(c.role, b"pw", 2, &m, &mut Obs::default())?;
                    o.inner += 3;
                }
            }
        }
        4 => {
            // one or two bytes too many, at either end or inside, each of every value; texts that
            // stand for the message
            let l = c.role.peer().letter();
            let mut m = vec![l];
            m.extend(&valid);
            let mut all = vec![];
            for x in 0..=255u8 {
                for at in [0usize, 1, 2, 16, 32, 33] {
                    let mut v = m.clone();
                    v.insert(at, x);
                    all.push(v.clone());
                    v.insert(at, x);
                    all.push(v);
                }
                let mut v = m.clone();
                v.extend([b'\r', x]);
                all.push(v);
                // and one too few
                for at in [1usize, 16, 32] {
                    let mut v = m.clone();
                    v[at] = x;
                    all.push(v[..32].to_vec());
                    all.push(v[1..].to_vec());
                }
            }
            let h = hex(&m);
            all.push(h.clone().into_bytes());
            all.push(h.to_uppercase().into_bytes());
            all.push(format!("{h}\n").into_bytes());
            all.push([&m[..], &m[..]].concat());
            all.push([&m[..], &m[1..]].concat());
            for v in all {
                k03_msg(c.role, b"pw", 1, &v, &mut Obs::default())?;
                o.inner += 1;
            }
        }
        2 => {
            // a reflected message
            let (s, m) = start::<Ed25519Group>(c.role, b"pw", b"a", b"b", Tape::new(&[], 3));
            let r = s.finish(&m);
            if c.role == Role::S {
                ensure!(r.is_ok(), "symmetric side must accept an S message: {r:?}");
            } else {
                ensure_eq!(r, Err(Error::BadSide), "reflected message");
            }
            o.inner += 1;
        }
        _ => {
            // every value of the first and last byte of the point, both edges of the field
            for i in 0..=255u8 {
                for pos in [0usize, 31] {
                    for base in [0u8, 0xff] {
                        let mut b = vec![base; 32];
                        b[pos] = i;
                        let mut m = vec![c.role.peer().letter()];
                        m.extend(&b);
                        k03_msg(c.role, b"pw", 4, &m, &mut Obs::default())?;
                        o.inner += 1;
                    }
                }
            }
        }
    }
    o.nontrivial = true;
    Ok(())
}
pub fn k03_subs() -> Vec<Box<dyn Sub>> {
    vec![
        gen("messages", "received messages: arbitrary bytes, valid/bit-flipped/random points, y near 0 and near p, torsion points, points composed of the blinding elements, the receiver's own message and small orders, all first bytes, cut/extended lengths; every case non-trivial", 40_000, 1_500_000,
            || (role(), text_upto(20), prop_oneof![3 => any::<u64>().prop_map(Seed::new), 1 => seed_special()], prop_oneof![6 => Just(b'A'), 6 => Just(b'B'), 6 => Just(b'S'), 1 => any::<u8>(), 1 => prop::sample::select(&[b'a', b'b', b's', b'C', 0u8, 0xc1, 0xc2, 0xd3, b'@', b'R', b'T'][..])],
                rx_body(),
                prop_oneof![5 => Just(None), 1 => (0u16..70).prop_map(Some)])
                .prop_map(|(role, pw, seed, first, body, len)| Rx { role, pw, seed, first, body, len }).boxed(), k03),
        all("enumerated", "all lengths 0..=600 and a few beyond, a valid message with one or two bytes of every value added or missing, all 256 side bytes, reflected messages, field-edge encodings, for each role; non-trivial: all",
            |_| { let mut v = vec![]; for role in [Role::A, Role::B, Role::S] { for what in 0..5 { v.push(RxAll { role, what }); } } v }, k03_all),
    ]
}

// =================================================================== K04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Py {
    role: Role,
    pw: B,
    ida: B,
    idb: B,
    real: Seed,
    /// model peer's scalar: 64 bytes reduced
    y: B,
}
fn wide(b: &[u8]) -> Scalar {
    let mut w = [0u8; 64];
    let n = b.len().min(64);
    w[..n].copy_from_slice(&b[..n]);
    Scalar::from_bytes_mod_order_wide(&w)
}
fn k04(c: &Py, o: &mut Obs) -> R {
    let y = wide(&c.y);
    let peer = Peer::new(c.role.peer(), y, &c.pw, &c.ida, &c.idb);
    let (s, m) = start::<Ed25519Group>(c.role, &c.pw, &c.ida, &c.idb, c.real.tape());
    ensure_eq!(m[0], c.role.letter(), "side letter");
    let real = s.finish(&peer.msg);
    let model = peer.key(&m);
    ensure!(model.is_some(), "message is not a curve point: {}", hex(&m));
    ensure_eq!(real.map(B), Ok(B(model.unwrap())), "key differs from the python-spake2 peer's (role {:?})", c.role);
    o.nontrivial = true;
    o.label(format!("role {:?}", c.role));
    o.label_if(y == Scalar::ZERO, "peer scalar zero");
    o.label_if(c.role == Role::S && m[1..] > peer.msg[1..], "symmetric: own message larger");
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GroupFn {
    s: B,
    a: B,
    b: B,
}
fn k04_group(c: &GroupFn, o: &mut Obs) -> R {
    type E = Ed25519Group;
    let [m, n, s] = sm::consts();
    ensure!(E::const_m() == *m, "M is not the element derived from b\"M\"");
    ensure!(E::const_n() == *n, "N is not the element derived from b\"N\"");
    ensure!(E::const_s() == *s, "S is not the element derived from b\"symmetric\"");
    ensure_eq!(E::element_length(), 32, "element length");
    ensure_eq!(E::hash_to_scalar(&c.s).to_bytes(), sm::pw_scalar(&c.s).to_bytes(), "password scalar");
    let (a, b) = (wide(&c.a), wide(&c.b));
    let base = curve25519_dalek::constants::ED25519_BASEPOINT_POINT;
    let (pa, pb) = (base * a, base * b);
    ensure!(E::basepoint_mult(&a) == pa, "basepoint_mult");
    ensure!(E::add(&pa, &pb) == base * (a + b), "add");
    ensure!(E::scalarmult(&pa, &b) == base * (a * b), "scalarmult");
    ensure!(E::add(&pa, &E::basepoint_mult(&E::scalar_neg(&a))) == EdwardsPoint::default(), "scalar_neg");
    let enc = E::element_to_bytes(&pa);
    ensure_eq!(enc, pa.compress().as_bytes().to_vec(), "element_to_bytes");
    ensure!(E::bytes_to_element(&enc) == Some(pa), "bytes_to_element does not invert element_to_bytes");
    for bad in [&enc[..31], &[&enc[..], &[0]].concat()[..], &[]] {
        ensure!(E::bytes_to_element(bad).is_none(), "bytes_to_element accepts {} bytes", bad.len());
    }
    o.nontrivial = true;
    Ok(())
}
pub fn k04_subs() -> Vec<Box<dyn Sub>> {
    vec![
        all("rare_values", "the model peer in exchanges in which a message, the shared element or the key begins or ends with two zero (or 0xff) bytes; non-trivial: such an exchange was found", krare_cases, k04_rare),
        gen("peer", "real side in each role against the model peer with a known scalar (incl. 0, 1, small); every case non-trivial", 24_000, 800_000,
            || (role(), text_big(), text_big(), text_big(), seed_special(), prop_oneof![4 => proptest::collection::vec(any::<u8>(), 64..65).prop_map(B), 1 => (0u8..9).prop_map(|x| B(vec![x]))])
                .prop_map(|(role, pw, ida, idb, real, y)| Py { role, pw, ida, idb, real, y }).boxed(), k04),
        gen("group_functions", "the public Ed25519Group functions against the model; every case non-trivial", 4_000, 100_000,
            || (text_big(), secret64(), secret64()).prop_map(|(s, a, b)| GroupFn { s, a, b }).boxed(), k04_group),
    ]
}
fn secret64() -> BoxedStrategy<B> {
    prop_oneof![
        4 => proptest::collection::vec(any::<u8>(), 64..65).prop_map(B),
        1 => (0u8..9).prop_map(|x| B(vec![x])),
    ]
    .boxed()
}

// =================================================================== K05: toy groups

/// The order-Q subgroup of Z_P^*, P = 2Q+1, with 32-byte encodings.
/// ENC: 0 value big-endian at the end; 1 little-endian at the front; 2 at the front, big-endian,
/// rest 0xff; 3 bytes spread out; 4 inverted, in the middle.
/// (M, N, S) = g^(CM), g^(CN), g^(CS)
#[derive(Debug, PartialEq, Eq)]
pub struct Toy<const Q: u64, const GEN: u64, const ENC: u8, const C: u64>;

fn mulmod(a: u64, b: u64, p: u64) -> u64 {
    (u128::from(a) * u128::from(b) % u128::from(p)) as u64
}
fn powmod(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, b, p);
        }
        b = mulmod(b, b, p);
        e >>= 1;
    }
    r
}
fn toy_enc(e: u64, enc: u8) -> Vec<u8> {
    let mut v = vec![0u8; 32];
    match enc {
        0 => v[24..].copy_from_slice(&e.to_be_bytes()),
        1 => v[..8].copy_from_slice(&e.to_le_bytes()),
        2 => {
            v.fill(0xff);
            v[..8].copy_from_slice(&e.to_be_bytes());
        }
        3 => {
            for (i, b) in e.to_be_bytes().iter().enumerate() {
                v[i * 4 + 1] = *b;
            }
        }
        _ => {
            v.fill(0x7f);
            v[12..20].copy_from_slice(&(!e).to_be_bytes());
        }
    }
    v
}
fn toy_dec(b: &[u8], enc: u8) -> Option<u64> {
    if b.len() != 32 {
        return None;
    }
    let mut x = [0u8; 8];
    let e = match enc {
        0 => {
            x.copy_from_slice(&b[24..]);
            u64::from_be_bytes(x)
        }
        1 => {
            x.copy_from_slice(&b[..8]);
            u64::from_le_bytes(x)
        }
        2 => {
            x.copy_from_slice(&b[..8]);
            u64::from_be_bytes(x)
        }
        3 => {
            for i in 0..8 {
                x[i] = b[i * 4 + 1];
            }
            u64::from_be_bytes(x)
        }
        _ => {
            x.copy_from_slice(&b[12..20]);
            !u64::from_be_bytes(x)
        }
    };
    (toy_enc(e, enc) == b).then_some(e)
}
impl<const Q: u64, const GEN: u64, const ENC: u8, const C: u64> Toy<Q, GEN, ENC, C> {
    const P: u64 = 2 * Q + 1;
    fn c(i: u64) -> u64 {
        // exponents of M, N, S
        (C >> (16 * i)) & 0xffff
    }
    fn pw(s: &[u8]) -> u64 {
        let mut x = 0u64;
        for b in s {
            x = (u128::from(x) * 257 + u128::from(*b)).rem_euclid(u128::from(Q)) as u64;
        }
        x
    }
}
impl<const Q: u64, const GEN: u64, const ENC: u8, const C: u64> Group for Toy<Q, GEN, ENC, C> {
    type Scalar = u64;
    type Element = u64;
    type TranscriptHash = ();
    fn name() -> &'static str {
        "toy"
    }
    fn const_m() -> u64 {
        powmod(GEN, Self::c(0), Self::P)
    }
    fn const_n() -> u64 {
        powmod(GEN, Self::c(1), Self::P)
    }
    fn const_s() -> u64 {
        powmod(GEN, Self::c(2), Self::P)
    }
    fn hash_to_scalar(s: &[u8]) -> u64 {
        Self::pw(s)
    }
    fn random_scalar<T: RngCore + CryptoRng>(r: &mut T) -> u64 {
        let mut b = [0u8; 8];
        r.fill_bytes(&mut b);
        u64::from_le_bytes(b) % Q
    }
    fn scalar_neg(s: &u64) -> u64 {
        (Q - s % Q) % Q
    }
    fn element_to_bytes(e: &u64) -> Vec<u8> {
        toy_enc(*e, ENC)
    }
    fn bytes_to_element(b: &[u8]) -> Option<u64> {
        let e = toy_dec(b, ENC)?;
        (e < Self::P && powmod(e, Q, Self::P) == 1).then_some(e)
    }
    fn element_length() -> usize {
        32
    }
    fn basepoint_mult(s: &u64) -> u64 {
        powmod(GEN, *s % Q, Self::P)
    }
    fn scalarmult(e: &u64, s: &u64) -> u64 {
        powmod(*e, *s % Q, Self::P)
    }
    fn add(a: &u64, b: &u64) -> u64 {
        mulmod(*a, *b, Self::P)
    }
}
/// Everything the test needs, in exponent form: the message of role r with scalar x is
/// g^(x + c_r*pw); the key element of a side with scalar x receiving g^e is g^((e - c_peer*pw) x).
fn toy_check<const Q: u64, const GEN: u64, const ENC: u8, const C: u64>(
    roles: (Role, Role),
    x: u64,
    y: u64,
    pw: &[u8],
    ida: &[u8],
    idb: &[u8],
) -> R {
    type T<const Q: u64, const GEN: u64, const ENC: u8, const C: u64> = Toy<Q, GEN, ENC, C>;
    let pp = 2 * Q + 1;
    let pws = T::<Q, GEN, ENC, C>::pw(pw);
    let cidx = |r: Role| match r {
        Role::A => 0u64,
        Role::B => 1,
        Role::S => 2,
    };
    let expo = |r: Role, x: u64| {
        let c = T::<Q, GEN, ENC, C>::c(cidx(r));
        ((u128::from(x) + u128::from(c) * u128::from(pws)) % u128::from(Q)) as u64
    };
    let el = |e: u64| toy_enc(powmod(GEN, e, pp), ENC);
    let (s1, m1) = start::<Toy<Q, GEN, ENC, C>>(roles.0, pw, ida, idb, Tape::new(&x.to_le_bytes(), 0));
    let (s2, m2) = start::<Toy<Q, GEN, ENC, C>>(roles.1, pw, ida, idb, Tape::new(&y.to_le_bytes(), 0));
    let w1 = [&[roles.0.letter()][..], &el(expo(roles.0, x))].concat();
    let w2 = [&[roles.1.letter()][..], &el(expo(roles.1, y))].concat();
    ensure_eq!(B(m1.clone()), B(w1), "message of {:?}: x={x} pw={pws}", roles.0);
    ensure_eq!(B(m2.clone()), B(w2), "message of {:?}: x={y} pw={pws}", roles.1);
    let k = el(mulmod(x % Q, y % Q, Q));
    let want1 = sm::transcript(roles.0, pw, ida, idb, &m1[1..], &m2[1..], &k);
    let want2 = sm::transcript(roles.1, pw, ida, idb, &m2[1..], &m1[1..], &k);
    let k1 = s1.finish(&m2);
    let k2 = s2.finish(&m1);
    ensure!(want1 == want2, "model disagrees with itself");
    ensure_eq!(k1.map(B), Ok(B(want1)), "key of {:?}: x={x} y={y} pw={pws}", roles.0);
    ensure_eq!(k2.map(B), Ok(B(want2)), "key of {:?}: x={x} y={y} pw={pws}", roles.1);
    Ok(())
}
/// arbitrary received element g^e (or garbage)
fn toy_recv<const Q: u64, const GEN: u64, const ENC: u8, const C: u64>(r: Role, x: u64, pw: &[u8], raw: &[u8]) -> R {
    let pp = 2 * Q + 1;
    let pws = Toy::<Q, GEN, ENC, C>::pw(pw);
    let c = Toy::<Q, GEN, ENC, C>::c(match r.peer() {
        Role::A => 0u64,
        Role::B => 1,
        Role::S => 2,
    });
    let (s, m) = start::<Toy<Q, GEN, ENC, C>>(r, pw, b"i", b"j", Tape::new(&x.to_le_bytes(), 0));
    let msg = [&[r.peer().letter()][..], raw].concat();
    let got = no_panic(|| s.finish(&msg)).map_err(|p| format!("finish panicked: {p}"))?;
    if raw.len() != 32 {
        ensure_eq!(got, Err(Error::WrongLength), "length {}", raw.len());
        return Ok(());
    }
    match toy_dec(raw, ENC).filter(|e| *e < pp && powmod(*e, Q, pp) == 1) {
        None => ensure_eq!(got, Err(Error::CorruptMessage), "encoding the group rejects ({})", hex(raw)),
        Some(e) => {
            let unb = powmod(powmod(GEN, c, pp), (Q - pws) % Q, pp);
            let k = powmod(mulmod(e, unb, pp), x % Q, pp);
            let want = sm::transcript(r, pw, b"i", b"j", &m[1..], raw, &toy_enc(k, ENC));
            ensure_eq!(got.map(B), Ok(B(want)), "key of {r:?} with x={x} pw={pws} for received element {e}");
        }
    }
    Ok(())
}
const C1: u64 = 3 | 7 << 16 | 5 << 32; // distinct constants
const C2: u64 = 1 | 0 << 16 | 9 << 32; // N is the identity, M the generator
const C3: u64 = 4 | 4 << 16 | 4 << 32; // all equal

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ToyCase {
    grp: u8,
    x: u64,
    y: u64,
    pw: B,
    ida: B,
    idb: B,
    raw: Vec<B>,
    els: Vec<u64>,
}
macro_rules! toy_dispatch {
    ($grp:expr, $f:ident, $($a:expr),*) => {
        match $grp % 10 {
            0 => $f::<11, 4, 0, C1>($($a),*),
            1 => $f::<11, 4, 1, C1>($($a),*),
            2 => $f::<11, 4, 2, C2>($($a),*),
            3 => $f::<11, 4, 3, C3>($($a),*),
            4 => $f::<11, 4, 4, C2>($($a),*),
            5 => $f::<509, 4, 0, C1>($($a),*),
            6 => $f::<509, 4, 3, C2>($($a),*),
            7 => $f::<BIGQ, 4, 0, C1>($($a),*),
            8 => $f::<BIGQ, 4, 1, C1>($($a),*),
            _ => $f::<BIGQ, 4, 3, C1>($($a),*),
        }
    };
}
/// safe prime 2q+1 of 62 bits
const BIGQ: u64 = 2305843009213688669;
fn toy_q(grp: u8) -> u64 {
    match grp % 10 {
        0..=4 => 11,
        5 | 6 => 509,
        _ => BIGQ,
    }
}
fn k05(c: &ToyCase, o: &mut Obs) -> R {
    let q = toy_q(c.grp);
    for roles in [(Role::A, Role::B), (Role::S, Role::S), (Role::B, Role::A)] {
        toy_dispatch!(c.grp, toy_check, roles, c.x % q, c.y % q, &c.pw, &c.ida, &c.idb)?;
        o.inner += 1;
    }
    for r in [Role::A, Role::B, Role::S] {
        for raw in &c.raw {
            toy_dispatch!(c.grp, toy_recv, r, c.x % q, &c.pw, raw)?;
            o.inner += 1;
        }
        for e in &c.els {
            let enc = [0u8, 1, 2, 3, 4, 0, 3, 0, 1, 3][(c.grp % 10) as usize];
            let p = 2 * q + 1;
            // half of them squares (group members), half anything
            let v = if e % 2 == 0 { mulmod(e % p, e % p, p) } else { e % (p + 3) };
            toy_dispatch!(c.grp, toy_recv, r, c.x % q, &c.pw, &toy_enc(v, enc))?;
            o.inner += 1;
        }
    }
    o.nontrivial = true;
    o.label(format!("q={q}"));
    o.label_if(c.x % q == c.y % q, "equal scalars (equal symmetric messages)");
    o.label_if(c.x % q == 0 || c.y % q == 0, "a zero scalar");
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ToyAll {
    grp: u8,
    x: u64,
}
fn k05_all(c: &ToyAll, o: &mut Obs) -> R {
    for y in 0..11u64 {
        for pwv in 0..11u8 {
            let pw = [pwv];
            for roles in [(Role::A, Role::B), (Role::S, Role::S)] {
                toy_dispatch!(c.grp, toy_check, roles, c.x, y, &pw, b"idA", b"idB")?;
                o.inner += 1;
            }
        }
    }
    // every received value 0..=25 for every password, every role
    let enc = c.grp; // grp 0..5 use ENC = grp
    for v in 0..=25u64 {
        for pwv in 0..11u8 {
            for r in [Role::A, Role::B, Role::S] {
                toy_dispatch!(c.grp, toy_recv, r, c.x, &[pwv], &toy_enc(v, enc))?;
                o.inner += 1;
            }
        }
    }
    o.nontrivial = true;
    Ok(())
}
pub fn k05_subs() -> Vec<Box<dyn Sub>> {
    vec![
        all("exhaustive_q11", "all scalars x, y, password scalars and received values in the order-11 group, 5 encodings/constant sets; all non-trivial",
            |_| (0..5u8).flat_map(|grp| (0..11u64).map(move |x| ToyAll { grp, x })).collect(), k05_all),
        gen("random", "random scalars, passwords, identities, received encodings in groups of order 11, 509 and a 61-bit prime; every case non-trivial", 12_000, 400_000,
            || (any::<u8>(), any::<u64>(), any::<u64>(), 0u8..6, text(), text(), text(), proptest::collection::vec(prop_oneof![1 => text(), 1 => any::<u64>().prop_map(|s| B(fill(32, s)))], 0..3), proptest::collection::vec(any::<u64>(), 0..6))
                .prop_map(|(grp, x, y, k, pw, ida, idb, raw, els)| {
                    let (x, y) = match k { 0 => (x, x), 1 => (0, y), 2 => (x, 0), _ => (x, y) };
                    ToyCase { grp, x, y, pw, ida, idb, raw, els } }).boxed(), k05),
    ]
}

// =================================================================== K06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dbg {
    role: Role,
    pw: B,
    pw2: B,
    ida: B,
    idb: B,
    s1: u64,
    s2: u64,
}
fn render(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("(s={s})"),
        Err(_) => format!("(hex={})", hex(b)),
    }
}
fn k06(c: &Dbg, o: &mut Obs) -> R {
    let (s, m) = start::<Ed25519Group>(c.role, &c.pw, &c.ida, &c.idb, Tape::new(&[], c.s1));
    let (t, _) = start::<Ed25519Group>(c.role, &c.pw2, &c.ida, &c.idb, Tape::new(&[], c.s2));
    let d1 = format!("{s:?}");
    ensure_eq!(d1, format!("{t:?}"), "debug output depends on password or randomness");
    ensure_eq!(format!("{s:#?}"), format!("{t:#?}"), "pretty debug output depends on password or randomness");
    let want = match c.role {
        Role::S => format!("SPAKE2 {{ group: \"Ed25519\", side: Side::Symmetric {{ idS: {} }} }}", render(&c.ida)),
        r => format!(
            "SPAKE2 {{ group: \"Ed25519\", side: Side::{:?} {{ idA: {}, idB: {} }} }}",
            r,
            render(&c.ida),
            render(&c.idb)
        ),
    };
    ensure_eq!(d1, want, "debug rendering");
    let pretty = format!("{s:#?}");
    // in pretty mode newlines inside an identity get indented; judge the others
    if !c.ida.contains(&b'\n') {
        ensure!(pretty.contains(&render(&c.ida)), "pretty debug output lacks the identity: {pretty}");
    }
    // nothing of the message appears
    ensure!(!d1.contains(&hex(&m[1..])), "debug output contains the message");
    let utf = std::str::from_utf8(&c.ida).is_ok() && (c.role == Role::S || std::str::from_utf8(&c.idb).is_ok());
    o.label(if utf { "all identities UTF-8" } else { "non-UTF-8 identity" });
    let lown = |b: &[u8]| std::str::from_utf8(b).is_err() && b.iter().any(|x| *x < 16);
    o.label_if(lown(&c.ida) || lown(&c.idb), "non-UTF-8 identity with a byte below 0x10");
    o.nontrivial = c.pw != c.pw2;
    Ok(())
}
pub fn k06_subs() -> Vec<Box<dyn Sub>> {
    vec![gen("debug", "two sessions differing in password and randomness only; identities UTF-8 or not; non-trivial: passwords differ", 24_000, 600_000,
        || (role(), text_upto(300), text_upto(300), text_upto(300), text_upto(300), any::<u64>(), any::<u64>(), any::<bool>(), 0usize..20)
            .prop_map(|(role, pw, pw2, mut ida, mut idb, s1, s2, bin, pos)| {
                if bin {
                    // make both identities binary and short
                    ida.0.truncate(20);
                    let p = pos.min(ida.len());
                    ida.0.insert(p, 0xff);
                    ida.0.insert(p, (s1 % 16) as u8);
                    idb.0.insert(0, 0xc0);
                }
                Dbg { role, pw, pw2, ida, idb, s1, s2 } }).boxed(), k06)]
}

#[allow(unused)]
fn unused(_: BigUint) {}
