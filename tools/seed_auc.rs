//! Small AuCPace driver shared by the demonstrations.
#![allow(dead_code)]
use aucpace::*;
use curve25519_dalek::{ristretto::RistrettoPoint, scalar::Scalar};
use password_hash::{ParamsString, SaltString};
use rand_core::{CryptoRng, RngCore};
use scrypt::{Params, Scrypt};
use std::cell::RefCell;
use std::collections::BTreeMap;

/// Deterministic generator (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> std::result::Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Rng {}

#[derive(Default)]
pub struct Db {
    pub plain: BTreeMap<Vec<u8>, (RistrettoPoint, SaltString, ParamsString)>,
    pub strong: BTreeMap<Vec<u8>, (RistrettoPoint, Scalar, ParamsString)>,
    pub keys: BTreeMap<Vec<u8>, (Scalar, RistrettoPoint)>,
    pub lookups: RefCell<Vec<Vec<u8>>>,
}
impl Database for Db {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> {
        self.lookups.borrow_mut().push(u.to_vec());
        self.plain.get(u).cloned()
    }
    fn store_verifier(&mut self, u: &[u8], s: SaltString, _: Option<&[u8]>, v: RistrettoPoint, p: ParamsString) {
        self.plain.insert(u.to_vec(), (v, s, p));
    }
}
impl StrongDatabase for Db {
    type PasswordVerifier = RistrettoPoint;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(RistrettoPoint, Scalar, ParamsString)> {
        self.lookups.borrow_mut().push(u.to_vec());
        self.strong.get(u).cloned()
    }
    fn store_verifier_strong(&mut self, u: &[u8], _: Option<&[u8]>, v: RistrettoPoint, q: Scalar, p: ParamsString) {
        self.strong.insert(u.to_vec(), (v, q, p));
    }
}
impl PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = RistrettoPoint;
    fn lookup_long_term_keypair(&self, u: &[u8]) -> Option<(Scalar, RistrettoPoint)> {
        self.keys.get(u).cloned()
    }
    fn store_long_term_keypair(&mut self, u: &[u8], x: Scalar, p: RistrettoPoint) -> Result<()> {
        self.keys.insert(u.to_vec(), (x, p));
        Ok(())
    }
}

pub type D = sha2::Sha512;
pub fn params() -> Params {
    Params::new(1, 8, 1, 32).unwrap()
}
pub fn params64() -> Params {
    Params::new(1, 8, 1, 64).unwrap()
}
pub type C<const K: usize> = AuCPaceClient<D, Scrypt, Rng, K>;
pub type S<const K: usize> = AuCPaceServer<D, Rng, K>;

pub fn reg(db: &mut Db, user: &[u8], pw: &[u8], p: Params, seed: u64) {
    let mut c: C<16> = C::new(Rng(seed));
    match c.register_alloc(user, pw, p, Scrypt).unwrap() {
        ClientMessage::Registration { username, salt, params, verifier } => {
            db.store_verifier(username, salt, None, verifier, params)
        }
        _ => panic!(),
    }
}
pub fn reg_strong(db: &mut Db, user: &[u8], pw: &[u8], p: Params, seed: u64) {
    let mut c: C<16> = C::new(Rng(seed));
    match c.register_alloc_strong(user, pw, p, Scrypt).unwrap() {
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
            db.store_verifier_strong(username, None, verifier, secret_exponent, params)
        }
        _ => panic!(),
    }
}

/// What the augmentation step of a server reply contained.
pub enum Info {
    Plain { x_pub: RistrettoPoint, salt: SaltString, params: ParamsString },
    Strong { x_pub: RistrettoPoint, blinded_salt: RistrettoPoint, params: ParamsString },
}
pub fn info<const K: usize>(m: ServerMessage<'_, K>) -> Info {
    match m {
        ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, .. } => {
            Info::Plain { x_pub, salt, params: pbkdf_params }
        }
        ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, pbkdf_params, .. } => {
            Info::Strong { x_pub, blinded_salt, params: pbkdf_params }
        }
        _ => panic!("not augmentation info"),
    }
}
pub fn pk_s<const K: usize>(m: ServerMessage<'_, K>) -> RistrettoPoint {
    match m {
        ServerMessage::PublicKey(p) => p,
        _ => panic!(),
    }
}
pub fn pk_c<const K: usize>(m: ClientMessage<'_, K>) -> RistrettoPoint {
    match m {
        ClientMessage::PublicKey(p) => p,
        _ => panic!(),
    }
}
pub fn auth_c<const K: usize>(m: ClientMessage<'_, K>) -> [u8; 64] {
    match m {
        ClientMessage::Authenticator(p) => p,
        _ => panic!(),
    }
}
pub fn auth_s<const K: usize>(m: ServerMessage<'_, K>) -> [u8; 64] {
    match m {
        ServerMessage::Authenticator(p) => p,
        _ => panic!(),
    }
}

#[derive(Clone)]
pub struct Login<'a> {
    pub user: &'a [u8],
    pub pw: &'a [u8],
    pub strong: bool,
    pub partial: bool,
    pub c_ssid: &'a [u8],
    pub s_ssid: &'a [u8],
    pub c_ci: &'a [u8],
    pub s_ci: &'a [u8],
    pub p: Params,
    pub seed: u64,
}
pub fn login<'a>(user: &'a [u8], pw: &'a [u8]) -> Login<'a> {
    Login {
        user, pw, strong: false, partial: false,
        c_ssid: b"0123456789abcdef0", s_ssid: b"0123456789abcdef0",
        c_ci: b"", s_ci: b"", p: params(), seed: 77,
    }
}
/// Runs a login with implicit authentication; returns (client key, server key).
pub fn run(db: &Db, l: &Login<'_>) -> (Vec<u8>, Vec<u8>) {
    let mut c: C<16> = C::new(Rng(l.seed));
    let mut s: S<16> = S::new(Rng(l.seed + 1));
    let ca = c.begin_prestablished_ssid(l.c_ssid).unwrap();
    let sa = s.begin_prestablished_ssid(l.s_ssid).unwrap();
    let (cc, sc) = if l.strong {
        let mut rng = Rng(l.seed + 2);
        let (ca, m) = ca.start_augmentation_strong(l.user, l.pw, &mut rng);
        let (u, blinded) = match m {
            ClientMessage::StrongUsername { username, blinded } => (username, blinded),
            _ => panic!(),
        };
        let (sc, m) = if l.partial {
            sa.generate_client_info_partial_strong(u, blinded, db, Rng(l.seed + 3)).unwrap()
        } else {
            sa.generate_client_info_strong(u, blinded, db, Rng(l.seed + 3)).unwrap()
        };
        match info(m) {
            Info::Strong { x_pub, blinded_salt, .. } => {
                (ca.generate_cpace_alloc(x_pub, blinded_salt, l.p.clone(), Scrypt).unwrap(), sc)
            }
            _ => panic!(),
        }
    } else {
        let (ca, m) = ca.start_augmentation(l.user, l.pw);
        let u = match m {
            ClientMessage::Username(u) => u,
            _ => panic!(),
        };
        let (sc, m) = if l.partial {
            sa.generate_client_info_partial_aug(u, db, Rng(l.seed + 3))
        } else {
            sa.generate_client_info(u, db, Rng(l.seed + 3))
        };
        match info(m) {
            Info::Plain { x_pub, salt, .. } => {
                let salt = salt.to_string();
                let salt = Box::leak(salt.into_boxed_str());
                let salt = password_hash::Salt::from_b64(salt).unwrap();
                (ca.generate_cpace_alloc(x_pub, salt, l.p.clone(), Scrypt).unwrap(), sc)
            }
            _ => panic!(),
        }
    };
    let (cr, m) = cc.generate_public_key(l.c_ci, &mut Rng(l.seed + 4));
    let cpk = pk_c(m);
    let (sr, m) = sc.generate_public_key(l.s_ci);
    let spk = pk_s(m);
    let ck = cr.implicit_auth(spk).unwrap();
    let sk = sr.implicit_auth(cpk).unwrap();
    (ck.to_vec(), sk.to_vec())
}
