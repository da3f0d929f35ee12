//! SPAKE2 model: python-spake2's definition on Ed25519, written independently
//! (curve arithmetic from curve25519-dalek; everything else here).

use curve25519_dalek::constants::ED25519_BASEPOINT_POINT;
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use num_bigint::BigUint;
use sha2::{Digest, Sha256};
use std::sync::OnceLock;

pub fn sha256(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}
pub fn hmac256(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let ipad: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    let opad: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    sha256(&[&opad[..], &sha256(&[&ipad[..], msg].concat())].concat())
}
/// HKDF-SHA256 with an empty salt
pub fn hkdf256(ikm: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let prk = hmac256(&[], ikm);
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < len {
        t = hmac256(&prk, &[&t[..], info, &[i]].concat()).to_vec();
        out.extend_from_slice(&t);
        i += 1;
    }
    out.truncate(len);
    out
}

// ---------------------------------------------------------------- field and curve by big integers

pub fn p() -> &'static BigUint {
    static P: OnceLock<BigUint> = OnceLock::new();
    P.get_or_init(|| (BigUint::from(1u8) << 255u32) - 19u8)
}
pub fn l() -> &'static BigUint {
    static L: OnceLock<BigUint> = OnceLock::new();
    L.get_or_init(|| {
        (BigUint::from(1u8) << 252u32)
            + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap()
    })
}
fn d() -> &'static BigUint {
    static D: OnceLock<BigUint> = OnceLock::new();
    D.get_or_init(|| {
        // -121665/121666
        let inv = BigUint::from(121_666u32).modpow(&(p() - 2u8), p());
        (p() - BigUint::from(121_665u32)) * inv % p()
    })
}
/// is there an x with -x^2 + y^2 = 1 + d x^2 y^2 ?  Some(x^2 is zero) if so
pub fn y_on_curve(y: &BigUint) -> Option<bool> {
    let y2 = y * y % p();
    let num = (&y2 + p() - 1u8) % p();
    let den = (d() * &y2 + 1u8) % p();
    let x2 = num * den.modpow(&(p() - 2u8), p()) % p();
    if x2 == BigUint::default() {
        return Some(true);
    }
    let e = (p() - 1u8) >> 1u32;
    if x2.modpow(&e, p()) == BigUint::from(1u8) {
        Some(false)
    } else {
        None
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc {
    /// canonical encoding of a curve point
    Valid,
    /// y not reduced, or x = 0 with the sign bit set: some decoders take it, some do not
    NonCanonical,
    /// no curve point at all
    Invalid,
}
pub fn classify(b: &[u8; 32]) -> Enc {
    let mut y = *b;
    let sign = y[31] >> 7;
    y[31] &= 0x7f;
    let yi = BigUint::from_bytes_le(&y);
    let reduced = &yi % p();
    match y_on_curve(&reduced) {
        None => Enc::Invalid,
        Some(xzero) => {
            if yi != reduced || (xzero && sign == 1) {
                Enc::NonCanonical
            } else {
                Enc::Valid
            }
        }
    }
}

/// python-spake2's arbitrary_element(seed)
pub fn arbitrary_element(seed: &[u8]) -> EdwardsPoint {
    let h = hkdf256(seed, b"SPAKE2 arbitrary element", 48);
    let mut y = BigUint::from_bytes_be(&h) % p();
    loop {
        if y_on_curve(&y).is_some() {
            let mut b = [0u8; 32];
            let le = y.to_bytes_le();
            b[..le.len()].copy_from_slice(&le);
            // python takes x = xrecover(y), the even root
            let pt = CompressedEdwardsY(b).decompress().expect("on curve");
            let eight = pt.mul_by_cofactor();
            if eight != EdwardsPoint::default() {
                return eight;
            }
        }
        y = (y + 1u8) % p();
    }
}
pub fn consts() -> &'static [EdwardsPoint; 3] {
    static C: OnceLock<[EdwardsPoint; 3]> = OnceLock::new();
    C.get_or_init(|| [arbitrary_element(b"M"), arbitrary_element(b"N"), arbitrary_element(b"symmetric")])
}
pub fn pw_scalar(pw: &[u8]) -> Scalar {
    let okm = hkdf256(pw, b"SPAKE2 pw", 48);
    let i = BigUint::from_bytes_be(&okm) % l();
    let mut b = [0u8; 32];
    let le = i.to_bytes_le();
    b[..le.len()].copy_from_slice(&le);
    Scalar::from_canonical_bytes(b).unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Role {
    A,
    B,
    S,
}
impl Role {
    pub fn letter(self) -> u8 {
        match self {
            Role::A => b'A',
            Role::B => b'B',
            Role::S => b'S',
        }
    }
    pub fn peer(self) -> Role {
        match self {
            Role::A => Role::B,
            Role::B => Role::A,
            Role::S => Role::S,
        }
    }
}
pub fn blind(r: Role) -> EdwardsPoint {
    let c = consts();
    match r {
        Role::A => c[0],
        Role::B => c[1],
        Role::S => c[2],
    }
}
/// transcript hash; `mine`/`theirs` are 32-byte messages without the side letter
pub fn transcript(r: Role, pw: &[u8], id_a: &[u8], id_b: &[u8], mine: &[u8], theirs: &[u8], k: &[u8]) -> Vec<u8> {
    let mut t = vec![];
    t.extend(sha256(pw));
    t.extend(sha256(id_a));
    let (x, y) = match r {
        Role::A => (mine, theirs),
        Role::B => (theirs, mine),
        Role::S => {
            if mine <= theirs {
                (mine, theirs)
            } else {
                (theirs, mine)
            }
        }
    };
    if r != Role::S {
        t.extend(sha256(id_b));
    }
    t.extend(x);
    t.extend(y);
    t.extend(k);
    sha256(&t).to_vec()
}

/// A model peer in role `r` with secret scalar `x`.
pub struct Peer {
    pub role: Role,
    pub x: Scalar,
    pub pw: Vec<u8>,
    pub id_a: Vec<u8>,
    pub id_b: Vec<u8>,
    pub msg: Vec<u8>,
}
impl Peer {
    pub fn new(role: Role, x: Scalar, pw: &[u8], id_a: &[u8], id_b: &[u8]) -> Peer {
        let e = ED25519_BASEPOINT_POINT * x + blind(role) * pw_scalar(pw);
        let mut msg = vec![role.letter()];
        msg.extend(e.compress().to_bytes());
        Peer { role, x, pw: pw.to_vec(), id_a: id_a.to_vec(), id_b: id_b.to_vec(), msg }
    }
    pub fn key(&self, msg: &[u8]) -> Option<Vec<u8>> {
        let b: [u8; 32] = msg.get(1..)?.try_into().ok()?;
        let y = CompressedEdwardsY(b).decompress()?;
        let k = (y - blind(self.role.peer()) * pw_scalar(&self.pw)) * self.x;
        Some(transcript(self.role, &self.pw, &self.id_a, &self.id_b, &self.msg[1..], &b, k.compress().as_bytes()))
    }
}
