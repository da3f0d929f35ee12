//! AuCPace: independent model of the protocol equations, instrumented hasher and database, and a
//! driver that runs the real client and server step by step.

use crate::ensure_eq;
use crate::fw::{hex, Fail, B, R};
use crate::step;
use crate::util::*;
use aucpace::client::{
    AuCPaceClientAugLayer, AuCPaceClientCPaceSubstep, AuCPaceClientExpMutAuth, AuCPaceClientPreAug,
    AuCPaceClientRecvServerKey, AuCPaceClientSsidEstablish, StrongAuCPaceClientAugLayer,
};
use aucpace::server::{
    AuCPaceServerAugLayer, AuCPaceServerCPaceSubstep, AuCPaceServerExpMutAuth,
    AuCPaceServerRecvClientKey, AuCPaceServerSsidEstablish,
};
use aucpace::{
    AuCPaceClient, AuCPaceServer, ClientMessage, Database, Error, PartialAugDatabase, ServerMessage,
    StrongDatabase,
};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as BASE;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use digest::consts::U64;
use digest::{Digest, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use password_hash::{
    Decimal, Ident, ParamsString, PasswordHash, PasswordHasher, Salt, SaltString,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::Sha512;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// The two comparisons of explicit authentication, where X04 counts instructions.
#[inline(never)]
fn receive_ta<D: Dg, const K: usize>(
    st: AuCPaceClientExpMutAuth<D, K>,
    ta: [u8; 64],
) -> aucpace::Result<Output<D>> {
    step::measured(step::Spot::Ta, move || st.receive_server_authenticator(ta))
}
#[inline(never)]
fn receive_tb<D: Dg, const K: usize>(
    st: AuCPaceServerExpMutAuth<D, K>,
    tb: [u8; 64],
) -> aucpace::Result<(Output<D>, ServerMessage<'static, K>)> {
    step::measured(step::Spot::Tb, move || st.receive_client_authenticator(tb))
}

// ------------------------------------------------------------------ hash functions

pub trait Dg: Digest<OutputSize = U64> + Default {}
impl<T: Digest<OutputSize = U64> + Default> Dg for T {}

/// A second 64-byte hash function (domain separated SHA-512).
#[derive(Clone)]
pub struct Alt(Sha512);
impl Default for Alt {
    fn default() -> Self {
        Alt(<Sha512 as Digest>::new_with_prefix(b"another hash function"))
    }
}
impl HashMarker for Alt {}
impl OutputSizeUser for Alt {
    type OutputSize = U64;
}
impl Update for Alt {
    fn update(&mut self, d: &[u8]) {
        Update::update(&mut self.0, d)
    }
}
impl FixedOutput for Alt {
    fn finalize_into(self, out: &mut Output<Self>) {
        FixedOutput::finalize_into(self.0, out)
    }
}

/// Hash function and nonce length.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Combo {
    Sha16,
    Sha8,
    Alt32,
    Alt1,
}
pub const COMBOS: [Combo; 4] = [Combo::Sha16, Combo::Sha8, Combo::Alt32, Combo::Alt1];

#[macro_export]
macro_rules! with_combo {
    ($c:expr, $D:ident, $K:ident, $e:expr) => {
        match $c {
            $crate::aucm::Combo::Sha16 => {
                type $D = sha2::Sha512;
                const $K: usize = 16;
                $e
            }
            $crate::aucm::Combo::Sha8 => {
                type $D = sha2::Sha512;
                const $K: usize = 8;
                $e
            }
            $crate::aucm::Combo::Alt32 => {
                type $D = $crate::aucm::Alt;
                const $K: usize = 32;
                $e
            }
            $crate::aucm::Combo::Alt1 => {
                type $D = $crate::aucm::Alt;
                const $K: usize = 1;
                $e
            }
        }
    };
}

pub fn combo() -> impl Strategy<Value = Combo> {
    prop_oneof![
        4 => Just(Combo::Sha16),
        2 => Just(Combo::Sha8),
        2 => Just(Combo::Alt32),
        1 => Just(Combo::Alt1),
    ]
}

/// Fixed buffer sizes available for the fixed-buffer flavour.
pub const BUFS: [usize; 14] = [1, 2, 3, 8, 16, 33, 64, 100, 128, 256, 1024, 4096, 8192, 140_000];
#[macro_export]
macro_rules! with_buf {
    ($n:expr, $N:ident, $e:expr) => {
        match $n {
            1 => { const $N: usize = 1; $e }
            2 => { const $N: usize = 2; $e }
            3 => { const $N: usize = 3; $e }
            8 => { const $N: usize = 8; $e }
            16 => { const $N: usize = 16; $e }
            33 => { const $N: usize = 33; $e }
            64 => { const $N: usize = 64; $e }
            100 => { const $N: usize = 100; $e }
            128 => { const $N: usize = 128; $e }
            256 => { const $N: usize = 256; $e }
            1024 => { const $N: usize = 1024; $e }
            4096 => { const $N: usize = 4096; $e }
            8192 => { const $N: usize = 8192; $e }
            140_000 => { const $N: usize = 140_000; $e }
            n => panic!("HARNESS: no buffer of size {n}"),
        }
    };
}
/// smallest available buffer that fits
pub fn fitting(need: usize) -> usize {
    *BUFS.iter().find(|b| **b >= need).expect("HARNESS: no buffer fits")
}

// ------------------------------------------------------------------ model

pub fn h<D: Dg>(n: u32, parts: &[&[u8]]) -> [u8; 64] {
    let mut d = D::default();
    Digest::update(&mut d, [n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8]);
    for p in parts {
        Digest::update(&mut d, p);
    }
    let mut o = [0; 64];
    o.copy_from_slice(&d.finalize());
    o
}
pub fn m_point<D: Dg>(n: u32, parts: &[&[u8]]) -> RistrettoPoint {
    RistrettoPoint::from_uniform_bytes(&h::<D>(n, parts))
}
pub fn enc(p: &RistrettoPoint) -> [u8; 32] {
    p.compress().to_bytes()
}
pub fn m_ssid_nonces<D: Dg>(s: &[u8], t: &[u8]) -> [u8; 64] {
    h::<D>(0, &[s, t])
}
pub fn m_ssid_pre<D: Dg>(ssid: &[u8]) -> [u8; 64] {
    h::<D>(0, &[ssid])
}
pub fn m_w(hash: &[u8]) -> Option<Scalar> {
    match hash.len() {
        32 => {
            let mut b = [0; 32];
            b.copy_from_slice(hash);
            Some(Scalar::from_bytes_mod_order(b))
        }
        64 => {
            let mut b = [0; 64];
            b.copy_from_slice(hash);
            Some(Scalar::from_bytes_mod_order_wide(&b))
        }
        _ => None,
    }
}
pub fn m_strong_salt_point<D: Dg>(user: &[u8], pass: &[u8], q: &Scalar) -> RistrettoPoint {
    m_point::<D>(1, &[user, pass]) * q
}
pub fn b64(bytes: &[u8]) -> SaltString {
    SaltString::encode_b64(bytes).expect("HARNESS: salt")
}
pub fn userpass(user: &[u8], pass: &[u8]) -> Vec<u8> {
    [user, b":", pass].concat()
}

#[derive(Clone, Debug)]
pub struct Keys {
    pub sk1: [u8; 64],
    pub ta: [u8; 64],
    pub tb: [u8; 64],
    pub sk: [u8; 64],
}
/// One side of the CPace substep, following the documented equations.
pub struct RefCPace {
    pub ssid: [u8; 64],
    pub y: Scalar,
    pub pubkey: RistrettoPoint,
}
impl RefCPace {
    pub fn new<D: Dg>(ssid: [u8; 64], prs: [u8; 32], ci: &[u8], y: Scalar) -> Self {
        let g = m_point::<D>(1, &[&ssid, &prs, ci]);
        RefCPace { ssid, y, pubkey: g * y }
    }
    pub fn keys<D: Dg>(&self, peer: &RistrettoPoint) -> Keys {
        let k = enc(&(peer * self.y));
        let sk1 = h::<D>(2, &[&self.ssid, &k]);
        Keys {
            sk1,
            ta: h::<D>(3, &[&self.ssid, &sk1]),
            tb: h::<D>(4, &[&self.ssid, &sk1]),
            sk: h::<D>(5, &[&self.ssid, &sk1]),
        }
    }
}
/// The scalar drawn `n`th from a generator that starts like this.
pub fn mscalar(s: &Seed, n: usize, salt: u64) -> Scalar {
    if let Some(b) = s.prefix.get(64 * n..64 * n + 64) {
        let x = Scalar::from_bytes_mod_order_wide(b.try_into().unwrap());
        if x != Scalar::ZERO {
            return x;
        }
    }
    scalar(s.seed ^ salt)
}
/// A nonzero scalar from a seed.
pub fn scalar(seed: u64) -> Scalar {
    let mut b = [0; 64];
    b.copy_from_slice(&fill(64, seed));
    let s = Scalar::from_bytes_mod_order_wide(&b);
    if s == Scalar::ZERO {
        Scalar::ONE
    } else {
        s
    }
}
pub fn point(seed: u64) -> RistrettoPoint {
    let mut b = [0; 64];
    b.copy_from_slice(&fill(64, seed ^ 0xabcd_ef01));
    RistrettoPoint::from_uniform_bytes(&b)
}

// ------------------------------------------------------------------ hasher

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum HMode {
    /// SHA-512 based, truncated to so many bytes
    Len(u8),
    NoHash,
    Err(u8),
    /// constant output
    Fill(u8, u8),
}
/// Hasher parameters.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct HP {
    pub mode: HMode,
    pub tag: u32,
}
impl Default for HP {
    fn default() -> Self {
        HP { mode: HMode::Len(64), tag: 0 }
    }
}
impl HP {
    pub fn text(&self) -> String {
        if *self == HP::default() {
            return String::new();
        }
        let m = match &self.mode {
            HMode::Len(n) => format!("l{n}"),
            HMode::NoHash => "n".into(),
            HMode::Err(n) => format!("e{n}"),
            HMode::Fill(n, v) => format!("f{n}.{v}"),
        };
        format!("m={m},t={}", self.tag)
    }
    pub fn parse(s: &str) -> Option<HP> {
        if s.is_empty() {
            return Some(HP::default());
        }
        let (m, t) = s.strip_prefix("m=")?.split_once(",t=")?;
        let tag = t.parse().ok()?;
        let mode = match m.as_bytes()[0] {
            b'l' => HMode::Len(m[1..].parse().ok()?),
            b'n' => HMode::NoHash,
            b'e' => HMode::Err(m[1..].parse().ok()?),
            b'f' => {
                let (a, b) = m[1..].split_once('.')?;
                HMode::Fill(a.parse().ok()?, b.parse().ok()?)
            }
            _ => return None,
        };
        Some(HP { mode, tag })
    }
    pub fn params(&self) -> ParamsString {
        self.text().parse().expect("HARNESS: params")
    }
}
impl TryFrom<HP> for ParamsString {
    type Error = password_hash::Error;
    fn try_from(p: HP) -> Result<Self, Self::Error> {
        p.text().parse()
    }
}
impl<'a> TryFrom<&'a PasswordHash<'a>> for HP {
    type Error = password_hash::Error;
    fn try_from(p: &'a PasswordHash<'a>) -> Result<Self, Self::Error> {
        HP::parse(p.params.as_str()).ok_or(password_hash::Error::ParamNameInvalid)
    }
}
/// hasher parameters that give a usable hash
pub fn hp_ok() -> BoxedStrategy<HP> {
    (
        prop_oneof![3 => Just(64u8), 3 => Just(32u8)],
        prop_oneof![1 => Just(0u32), 3 => 1u32..1000],
    )
        .prop_map(|(n, tag)| HP { mode: HMode::Len(n), tag })
        .boxed()
}
pub fn hasher_error(n: u8) -> password_hash::Error {
    use password_hash::errors::InvalidValue;
    use password_hash::Error as E;
    match n % 8 {
        0 => E::Algorithm,
        1 => E::Crypto,
        2 => E::ParamsMaxExceeded,
        3 => E::ParamNameInvalid,
        4 => E::SaltInvalid(InvalidValue::TooLong),
        5 => E::Version,
        6 => E::Password,
        _ => E::OutputSize { provided: std::cmp::Ordering::Less, expected: 10 },
    }
}
/// What the hasher computes: shared by the instrumented hasher and the model.
pub fn m_hash(p: &HP, pw: &[u8], salt: &str) -> Result<Option<Vec<u8>>, password_hash::Error> {
    match p.mode {
        HMode::NoHash => Ok(None),
        HMode::Err(n) => Err(hasher_error(n)),
        HMode::Fill(n, v) => Ok(Some(vec![v; n as usize])),
        HMode::Len(n) => {
            let mut d = Sha512::new();
            Digest::update(&mut d, (pw.len() as u64).to_le_bytes());
            Digest::update(&mut d, pw);
            Digest::update(&mut d, p.tag.to_le_bytes());
            Digest::update(&mut d, salt.as_bytes());
            Ok(Some(d.finalize()[..n as usize].to_vec()))
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub pw: Vec<u8>,
    pub salt: String,
    pub params: HP,
    pub customised: bool,
}
pub type Log = Arc<Mutex<Vec<Call>>>;

#[derive(Clone, Default)]
pub struct RecHasher {
    pub log: Log,
}
impl PasswordHasher for RecHasher {
    type Params = HP;
    fn hash_password_customized<'a>(
        &self,
        password: &[u8],
        algorithm: Option<Ident<'a>>,
        version: Option<Decimal>,
        params: HP,
        salt: impl Into<Salt<'a>>,
    ) -> password_hash::Result<PasswordHash<'a>> {
        let salt: Salt<'a> = salt.into();
        self.log.lock().unwrap().push(Call {
            pw: password.to_vec(),
            salt: salt.as_str().to_string(),
            params: params.clone(),
            customised: algorithm.is_some() || version.is_some(),
        });
        let hash = m_hash(&params, password, salt.as_str())?;
        let hash = match hash {
            None => None,
            Some(v) => Some(password_hash::Output::new(&v)?),
        };
        Ok(PasswordHash {
            algorithm: Ident::new("rec")?,
            version: None,
            params: params.params(),
            salt: Some(salt),
            hash,
        })
    }
}

/// Hashers the driver can run the protocol with.
pub trait Hs: PasswordHasher {
    fn make(log: &Log) -> Self;
    /// the parameters a client reconstructs from the server's message
    fn read(p: &ParamsString) -> Result<Self::Params, password_hash::Error>;
}
impl Hs for RecHasher {
    fn make(log: &Log) -> Self {
        RecHasher { log: log.clone() }
    }
    fn read(p: &ParamsString) -> Result<HP, password_hash::Error> {
        // parameters this hasher does not understand: any well-formed ones will do
        Ok(HP::parse(p.as_str()).unwrap_or_default())
    }
}
impl Hs for scrypt::Scrypt {
    fn make(_: &Log) -> Self {
        scrypt::Scrypt
    }
    fn read(p: &ParamsString) -> Result<scrypt::Params, password_hash::Error> {
        if p.is_empty() {
            return Ok(scrypt::Params::new(4, 8, 1, 32).unwrap());
        }
        scrypt::Params::try_from(&PasswordHash {
            algorithm: Ident::new("scrypt")?,
            version: None,
            params: p.clone(),
            salt: None,
            hash: None,
        })
    }
}

// ------------------------------------------------------------------ database

#[derive(Default)]
pub struct Db {
    pub plain: BTreeMap<Vec<u8>, (RistrettoPoint, SaltString, ParamsString)>,
    pub strong: BTreeMap<Vec<u8>, (RistrettoPoint, Scalar, ParamsString)>,
    pub keys: BTreeMap<Vec<u8>, (Scalar, RistrettoPoint)>,
    pub lookups: RefCell<Vec<(&'static str, Vec<u8>)>>,
}
impl Database for Db {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> {
        self.lookups.borrow_mut().push(("plain", u.to_vec()));
        self.plain.get(u).cloned()
    }
    fn store_verifier(
        &mut self,
        u: &[u8],
        salt: SaltString,
        _uad: Option<&[u8]>,
        v: RistrettoPoint,
        p: ParamsString,
    ) {
        self.plain.insert(u.to_vec(), (v, salt, p));
    }
}
impl PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = RistrettoPoint;
    fn lookup_long_term_keypair(&self, u: &[u8]) -> Option<(Scalar, RistrettoPoint)> {
        self.lookups.borrow_mut().push(("keys", u.to_vec()));
        self.keys.get(u).copied()
    }
    fn store_long_term_keypair(
        &mut self,
        u: &[u8],
        s: Scalar,
        p: RistrettoPoint,
    ) -> aucpace::Result<()> {
        if !self.plain.contains_key(u) && !self.strong.contains_key(u) {
            return Err(Error::UserNotRegistered);
        }
        self.keys.insert(u.to_vec(), (s, p));
        Ok(())
    }
}
impl StrongDatabase for Db {
    type PasswordVerifier = RistrettoPoint;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(RistrettoPoint, Scalar, ParamsString)> {
        self.lookups.borrow_mut().push(("strong", u.to_vec()));
        self.strong.get(u).cloned()
    }
    fn store_verifier_strong(
        &mut self,
        u: &[u8],
        _uad: Option<&[u8]>,
        v: RistrettoPoint,
        q: Scalar,
        p: ParamsString,
    ) {
        self.strong.insert(u.to_vec(), (v, q, p));
    }
}

// ------------------------------------------------------------------ message projections

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CMsg {
    Nonce(B),
    Username(B),
    StrongUsername(B, B),
    PublicKey(B),
    Authenticator(B),
    Registration { username: B, salt: String, params: String, verifier: B },
    StrongRegistration { username: B, q: B, params: String, verifier: B },
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SMsg {
    Nonce(B),
    Info { group: String, x_pub: B, salt: String, params: String },
    StrongInfo { group: String, x_pub: B, blinded_salt: B, params: String },
    PublicKey(B),
    Authenticator(B),
}
pub fn bp(p: &RistrettoPoint) -> B {
    B(enc(p).to_vec())
}
pub fn cproj<const K: usize>(m: &ClientMessage<'_, K>) -> CMsg {
    match m {
        ClientMessage::Nonce(n) => CMsg::Nonce(B(n.to_vec())),
        ClientMessage::Username(u) => CMsg::Username(B(u.to_vec())),
        ClientMessage::StrongUsername { username, blinded } => {
            CMsg::StrongUsername(B(username.to_vec()), bp(blinded))
        }
        ClientMessage::PublicKey(p) => CMsg::PublicKey(bp(p)),
        ClientMessage::Authenticator(a) => CMsg::Authenticator(B(a.to_vec())),
        ClientMessage::Registration { username, salt, params, verifier } => CMsg::Registration {
            username: B(username.to_vec()),
            salt: salt.as_str().into(),
            params: params.as_str().into(),
            verifier: bp(verifier),
        },
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
            CMsg::StrongRegistration {
                username: B(username.to_vec()),
                q: B(secret_exponent.to_bytes().to_vec()),
                params: params.as_str().into(),
                verifier: bp(verifier),
            }
        }
    }
}
pub fn sproj<const K: usize>(m: &ServerMessage<'_, K>) -> SMsg {
    match m {
        ServerMessage::Nonce(n) => SMsg::Nonce(B(n.to_vec())),
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => SMsg::Info {
            group: group.to_string(),
            x_pub: bp(x_pub),
            salt: salt.as_str().into(),
            params: pbkdf_params.as_str().into(),
        },
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => {
            SMsg::StrongInfo {
                group: group.to_string(),
                x_pub: bp(x_pub),
                blinded_salt: bp(blinded_salt),
                params: pbkdf_params.as_str().into(),
            }
        }
        ServerMessage::PublicKey(p) => SMsg::PublicKey(bp(p)),
        ServerMessage::Authenticator(a) => SMsg::Authenticator(B(a.to_vec())),
    }
}

/// How messages travel.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Wire {
    Direct,
    Bincode,
    Postcard,
}
pub fn wire() -> impl Strategy<Value = Wire> {
    prop_oneof![3 => Just(Wire::Direct), 1 => Just(Wire::Bincode), 1 => Just(Wire::Postcard)]
}
pub fn ser<T: Serialize>(w: Wire, m: &T) -> Result<Vec<u8>, Fail> {
    match w {
        Wire::Direct => Ok(vec![]),
        Wire::Bincode => bincode::serialize(m).map_err(|e| Fail(format!("bincode serialise: {e}"))),
        Wire::Postcard => {
            let mut buf = vec![0u8; 300_000];
            let n = postcard::to_slice(m, &mut buf)
                .map_err(|e| Fail(format!("postcard serialise: {e}")))?
                .len();
            buf.truncate(n);
            Ok(buf)
        }
    }
}
fn de<'a, T: Deserialize<'a>>(w: Wire, b: &'a [u8]) -> Result<T, Fail> {
    match w {
        Wire::Direct => Err(Fail("HARNESS: direct".into())),
        Wire::Bincode => bincode::deserialize(b)
            .map_err(|e| Fail(format!("bincode refuses a message it serialised: {e}"))),
        Wire::Postcard => postcard::from_bytes(b)
            .map_err(|e| Fail(format!("postcard refuses a message it serialised: {e}"))),
    }
}
/// Pass a client message over the wire; what arrives is handed to `f`.
pub fn c_travel<const K: usize, T>(
    w: Wire,
    m: ClientMessage<'_, K>,
    f: impl FnOnce(ClientMessage<'_, K>) -> T,
) -> Result<T, Fail> {
    if w == Wire::Direct {
        return Ok(f(m));
    }
    let bytes = ser(w, &m)?;
    let d: ClientMessage<'_, K> = de(w, &bytes)?;
    ensure_eq!(cproj(&d), cproj(&m), "client message changed by serialisation ({w:?})");
    ensure_eq!(hex(&ser(w, &d)?), hex(&bytes), "re-serialised client message ({w:?})");
    Ok(f(d))
}
pub fn s_travel<const K: usize, T>(
    w: Wire,
    m: ServerMessage<'_, K>,
    f: impl FnOnce(ServerMessage<'_, K>) -> T,
) -> Result<T, Fail> {
    if w == Wire::Direct {
        return Ok(f(m));
    }
    let bytes = ser(w, &m)?;
    let d: ServerMessage<'_, K> = de(w, &bytes)?;
    ensure_eq!(sproj(&d), sproj(&m), "server message changed by serialisation ({w:?})");
    ensure_eq!(hex(&ser(w, &d)?), hex(&bytes), "re-serialised server message ({w:?})");
    Ok(f(d))
}

// ------------------------------------------------------------------ protocol configuration

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Variant {
    Plain,
    Partial,
    Strong,
    StrongPartial,
}
pub const VARIANTS: [Variant; 4] =
    [Variant::Plain, Variant::Partial, Variant::Strong, Variant::StrongPartial];
impl Variant {
    pub fn strong(self) -> bool {
        matches!(self, Variant::Strong | Variant::StrongPartial)
    }
    pub fn partial(self) -> bool {
        matches!(self, Variant::Partial | Variant::StrongPartial)
    }
}
pub fn variant() -> impl Strategy<Value = Variant> {
    prop::sample::select(&VARIANTS[..])
}
/// API flavour: fixed buffer (of the given size, 0 = smallest that fits) or heap.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Flavour {
    Fixed(u32),
    Alloc,
}
pub fn flavour() -> impl Strategy<Value = Flavour> {
    prop_oneof![Just(Flavour::Fixed(0)), Just(Flavour::Fixed(8192)), Just(Flavour::Alloc)]
}
impl Flavour {
    pub fn buf(self, need: usize) -> usize {
        match self {
            Flavour::Fixed(0) => fitting(need),
            Flavour::Fixed(n) => {
                if need > n as usize {
                    fitting(need)
                } else {
                    n as usize
                }
            }
            Flavour::Alloc => 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PointMod {
    Identity,
    Base,
    Neg,
    Double,
    AddBase,
    Replace(u64),
    /// the base point times a scalar
    Mul(u64),
    /// the point with this encoding
    Enc([u8; 32]),
}
impl PointMod {
    pub fn apply(self, p: &RistrettoPoint) -> RistrettoPoint {
        let q = match self {
            PointMod::Identity => RistrettoPoint::identity(),
            PointMod::Base => BASE,
            PointMod::Neg => -p,
            PointMod::Double => p + p,
            PointMod::AddBase => p + BASE,
            PointMod::Replace(s) => point(s),
            PointMod::Mul(s) => BASE * scalar(s),
            PointMod::Enc(b) => CompressedRistretto(b).decompress().unwrap_or(BASE),
        };
        if enc(&q) == enc(p) {
            q + BASE
        } else {
            q
        }
    }
}
/// modifications that are not the neutral point
pub fn point_mod() -> impl Strategy<Value = PointMod> {
    prop_oneof![
        1 => Just(PointMod::Base),
        2 => Just(PointMod::Neg),
        2 => Just(PointMod::Double),
        2 => Just(PointMod::AddBase),
        2 => any::<u64>().prop_map(PointMod::Replace),
    ]
}

/// Changes made to messages in transit.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    /// client's nonce, bit flipped
    CNonce(u32),
    SNonce(u32),
    /// both delivered nonces replaced by this filler
    BothNonces(u8),
    /// byte i of the client's nonce and byte j of the server's changed by the same amount
    NoncePair(u8, u8, NonceOp, u8),
    Username(B),
    Blinded(PointMod),
    XPub(PointMod),
    /// salt replaced by the encoding of these bytes
    Salt(B),
    SaltFlip(u32),
    Params(HP),
    BlindedSalt(PointMod),
    CPub(PointMod),
    SPub(PointMod),
    /// client's authenticator replaced
    Tb(Auth),
    Ta(Auth),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum NonceOp {
    Xor,
    Sum,
    Difference,
}
fn nonce_byte(b: &mut u8, op: NonceOp, m: u8, clients: bool) {
    *b = match op {
        NonceOp::Xor => *b ^ m,
        NonceOp::Difference if clients => b.wrapping_sub(m),
        _ => b.wrapping_add(m),
    };
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Auth {
    Flip(u32),
    Bytes(B),
    /// the receiver's own authenticator (what an attacker reflects)
    Xor(u32, u8),
    /// agrees with the right one under some weaker comparison
    Near(u64),
}
impl Auth {
    fn apply(&self, a: &mut [u8; 64]) {
        match self {
            Auth::Flip(i) => a[(*i as usize % 512) / 8] ^= 1 << (i % 8),
            Auth::Bytes(b) => {
                for (x, y) in a.iter_mut().zip(b.0.iter().chain(std::iter::repeat(&0))) {
                    *x = *y;
                }
            }
            Auth::Xor(i, m) => a[*i as usize % 64] ^= (*m).max(1),
            Auth::Near(s) => {
                let v = near_miss(&a[..], *s);
                a.copy_from_slice(&v[..64]);
            }
        }
    }
}

/// One login.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Login {
    pub variant: Variant,
    /// pre-established SSID as each side sees it (client, server)
    pub pre: Option<(B, B)>,
    pub implicit: bool,
    pub flavour: Flavour,
    pub wire: Wire,
    pub user: B,
    pub pass: B,
    pub ci_c: B,
    pub ci_s: B,
    pub rng_s: Seed,
    pub rng_c: Seed,
    pub rng_blind: Seed,
    /// scheduling of the two sides
    pub order: u32,
    pub tamper: Vec<Tamper>,
}

pub type Key = [u8; 64];
pub fn key<D: Dg>(o: Output<D>) -> Key {
    let mut k = [0; 64];
    k.copy_from_slice(&o);
    k
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub ck: Option<Result<Key, Error>>,
    pub sk: Option<Result<Key, Error>>,
    /// index of the step that failed
    pub c_step: usize,
    pub s_step: usize,
    pub transcript: Vec<String>,
    pub ta: Option<[u8; 64]>,
    pub tb: Option<[u8; 64]>,
    pub c_nonce: Vec<u8>,
    pub s_nonce: Vec<u8>,
    pub blinded: Option<RistrettoPoint>,
    pub blinded_salt: Option<RistrettoPoint>,
    pub x_pub: Option<RistrettoPoint>,
    pub info: Option<SMsg>,
    pub c_pub: Option<RistrettoPoint>,
    pub s_pub: Option<RistrettoPoint>,
    pub model_keys: Option<Keys>,
    /// what the client's hasher was called with
    pub calls: Vec<Call>,
}
impl Outcome {
    pub fn agreed(&self) -> bool {
        matches!((&self.ck, &self.sk), (Some(Ok(a)), Some(Ok(b))) if a == b)
    }
    pub fn c_err(&self) -> Option<Error> {
        match &self.ck {
            Some(Err(e)) => Some(*e),
            _ => None,
        }
    }
    pub fn s_err(&self) -> Option<Error> {
        match &self.sk {
            Some(Err(e)) => Some(*e),
            _ => None,
        }
    }
    pub fn brief(&self) -> String {
        let f = |k: &Option<Result<Key, Error>>| match k {
            None => "-".to_string(),
            Some(Ok(k)) => format!("key {}..", hex(&k[..6])),
            Some(Err(e)) => format!("{e:?}"),
        };
        format!("client {} (step {}), server {} (step {})", f(&self.ck), self.c_step, f(&self.sk), self.s_step)
    }
}

enum CS<'a, D: Dg, H: Hs, const K: usize> {
    Start,
    Ssid(AuCPaceClientSsidEstablish<D, H, K>),
    Pre(AuCPaceClientPreAug<D, H, K>),
    Aug(AuCPaceClientAugLayer<'a, D, H, K>),
    SAug(StrongAuCPaceClientAugLayer<'a, D, H, K>),
    CPace(AuCPaceClientCPaceSubstep<D, K>),
    Recv(AuCPaceClientRecvServerKey<D, K>),
    Mut(AuCPaceClientExpMutAuth<D, K>),
    Done,
    MSsid([u8; K]),
    MPre([u8; 64]),
    MAug([u8; 64], Scalar),
    MCPace(RefCPace),
    MRecv(RefCPace),
    MMut(Keys),
}
enum SS<D: Dg, const K: usize> {
    Start,
    Ssid(AuCPaceServerSsidEstablish<D, K>),
    Aug(AuCPaceServerAugLayer<D, K>),
    CPace(AuCPaceServerCPaceSubstep<D, Tape, K>),
    Recv(AuCPaceServerRecvClientKey<D, K>),
    Mut(AuCPaceServerExpMutAuth<D, K>),
    Done,
    MSsid([u8; K]),
    MAug([u8; 64]),
    MCPace(RefCPace),
    MRecv(RefCPace),
    MMut(Keys),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Side {
    Client,
    Server,
}

enum Info {
    Plain(RistrettoPoint, SaltString, ParamsString),
    Strong(RistrettoPoint, RistrettoPoint, ParamsString),
}

/// A running login: client and server state and the messages in flight.
pub struct Sess<'a, D: Dg, H: Hs, const K: usize> {
    cfg: &'a Login,
    model: Option<Side>,
    c: CS<'a, D, H, K>,
    s: SS<D, K>,
    log: Log,
    rng_c: Tape,
    c_nonce: Option<[u8; K]>,
    s_nonce: Option<[u8; K]>,
    user: Option<(Vec<u8>, Option<RistrettoPoint>)>,
    info: Option<Info>,
    c_pub: Option<RistrettoPoint>,
    s_pub: Option<RistrettoPoint>,
    tb: Option<[u8; 64]>,
    ta: Option<[u8; 64]>,
    order: u32,
    pub out: Outcome,
}

pub type Client<D, H, const K: usize> = AuCPaceClient<D, H, Tape, K>;
pub type Server<D, const K: usize> = AuCPaceServer<D, Tape, K>;

fn wrong<T>(what: &str, got: &impl std::fmt::Debug) -> Result<T, Fail> {
    Err(Fail(format!("expected a {what} message, got {got:?}")))
}

impl<'a, D: Dg, H: Hs, const K: usize> Sess<'a, D, H, K> {
    pub fn new(cfg: &'a Login) -> Self {
        Self::with_model(cfg, None)
    }
    /// `model`: the side played by the independent model instead of the library
    pub fn with_model(cfg: &'a Login, model: Option<Side>) -> Self {
        Sess {
            cfg,
            model,
            c: CS::Start,
            s: SS::Start,
            log: Log::default(),
            rng_c: cfg.rng_c.tape(),
            c_nonce: None,
            s_nonce: None,
            user: None,
            info: None,
            c_pub: None,
            s_pub: None,
            tb: None,
            ta: None,
            order: cfg.order,
            out: Outcome::default(),
        }
    }
    fn c_fail(&mut self, step: usize, e: Error) {
        self.out.ck = Some(Err(e));
        self.out.c_step = step;
        self.c = CS::Done;
    }
    fn s_fail(&mut self, step: usize, e: Error) {
        self.out.sk = Some(Err(e));
        self.out.s_step = step;
        self.s = SS::Done;
    }
    fn note(&mut self, s: String) {
        self.out.transcript.push(s);
    }

    fn c_ready(&self) -> bool {
        match self.c {
            CS::Start | CS::Pre(_) | CS::CPace(_) | CS::MPre(_) | CS::MCPace(_) => true,
            CS::Ssid(_) | CS::MSsid(_) => self.s_nonce.is_some(),
            CS::Aug(_) | CS::SAug(_) | CS::MAug(..) => self.info.is_some(),
            CS::Recv(_) | CS::MRecv(_) => self.s_pub.is_some(),
            CS::Mut(_) | CS::MMut(_) => self.ta.is_some(),
            CS::Done => false,
        }
    }
    fn s_ready(&self) -> bool {
        match self.s {
            SS::Start | SS::CPace(_) | SS::MCPace(_) => true,
            SS::Ssid(_) | SS::MSsid(_) => self.c_nonce.is_some(),
            SS::Aug(_) | SS::MAug(_) => self.user.is_some(),
            SS::Recv(_) | SS::MRecv(_) => self.c_pub.is_some(),
            SS::Mut(_) | SS::MMut(_) => self.tb.is_some(),
            SS::Done => false,
        }
    }
    /// the server has not yet looked the user up
    pub fn before_lookup(&self) -> bool {
        matches!(self.s, SS::Start | SS::Ssid(_) | SS::Aug(_))
    }
    /// the next server step is the lookup (if it is the server's turn)
    pub fn server_at_lookup(&self) -> bool {
        matches!(self.s, SS::Aug(_))
    }

    /// One step of either side; false when nothing can move any more.
    pub fn step(
        &mut self,
        client: &mut Client<D, H, K>,
        server: &mut Server<D, K>,
        db: &Db,
    ) -> Result<bool, Fail> {
        let (c, s) = (self.c_ready(), self.s_ready());
        if !c && !s {
            return Ok(false);
        }
        let bit = self.order & 1;
        self.order = self.order.rotate_right(1);
        if c && (!s || bit == 0) {
            self.client_step(client)?;
        } else {
            self.server_step(server, db)?;
        }
        Ok(true)
    }
    pub fn run(
        mut self,
        client: &mut Client<D, H, K>,
        server: &mut Server<D, K>,
        db: &Db,
    ) -> Result<Outcome, Fail> {
        let mut n = 0;
        while self.step(client, server, db)? {
            n += 1;
            if n > 40 {
                return Err("HARNESS: session does not end".into());
            }
        }
        Ok(self.finish())
    }
    pub fn finish(mut self) -> Outcome {
        self.out.calls = self.log.lock().unwrap().clone();
        self.out
    }

    // ---- delivery of messages (after tampering)

    fn send_c_nonce(&mut self, mut nonce: [u8; K]) {
        self.out.c_nonce = nonce.to_vec();
        for t in &self.cfg.tamper {
            match t {
                Tamper::CNonce(i) => {
                    let i = *i as usize % (8 * K);
                    nonce[i / 8] ^= 1 << (i % 8);
                }
                Tamper::BothNonces(v) => nonce = [*v; K],
                Tamper::NoncePair(i, _, op, m) => nonce_byte(&mut nonce[*i as usize % K], *op, *m, true),
                _ => {}
            }
        }
        self.note(format!("t={}", hex(&nonce)));
        self.c_nonce = Some(nonce);
    }
    fn send_s_nonce(&mut self, mut nonce: [u8; K]) {
        self.out.s_nonce = nonce.to_vec();
        for t in &self.cfg.tamper {
            match t {
                Tamper::SNonce(i) => {
                    let i = *i as usize % (8 * K);
                    nonce[i / 8] ^= 1 << (i % 8);
                }
                Tamper::BothNonces(v) => nonce = [*v; K],
                Tamper::NoncePair(_, j, op, m) => nonce_byte(&mut nonce[*j as usize % K], *op, *m, false),
                _ => {}
            }
        }
        self.note(format!("s={}", hex(&nonce)));
        self.s_nonce = Some(nonce);
    }
    fn send_user(&mut self, mut user: Vec<u8>, mut blinded: Option<RistrettoPoint>) -> R {
        ensure_eq!(hex(&user), hex(&self.cfg.user), "username sent by the client");
        self.out.blinded = blinded;
        for t in &self.cfg.tamper {
            match t {
                Tamper::Username(u) => user = u.0.clone(),
                Tamper::Blinded(m) => blinded = blinded.map(|b| m.apply(&b)),
                _ => {}
            }
        }
        self.note(format!("user={} U={:?}", hex(&user), blinded.map(|b| bp(&b))));
        self.user = Some((user, blinded));
        Ok(())
    }
    fn send_info(&mut self, mut info: Info) -> R {
        match &info {
            Info::Plain(x, _, _) => self.out.x_pub = Some(*x),
            Info::Strong(x, b, _) => {
                self.out.x_pub = Some(*x);
                self.out.blinded_salt = Some(*b);
            }
        }
        for t in &self.cfg.tamper {
            match (t, &mut info) {
                (Tamper::XPub(m), Info::Plain(x, _, _) | Info::Strong(x, _, _)) => *x = m.apply(x),
                (Tamper::BlindedSalt(m), Info::Strong(_, b, _)) => *b = m.apply(b),
                (Tamper::Params(p), Info::Plain(_, _, q) | Info::Strong(_, _, q)) => {
                    *q = p.params()
                }
                (Tamper::Salt(b), Info::Plain(_, s, _)) => {
                    let n = b64(b);
                    if n.as_str() != s.as_str() {
                        *s = n;
                    }
                }
                (Tamper::SaltFlip(i), Info::Plain(_, s, _)) => {
                    let mut v = vec![0u8; 64];
                    let mut v = s
                        .decode_b64(&mut v)
                        .map_err(|e| Fail(format!("salt sent is not base64: {e}")))?
                        .to_vec();
                    let i = *i as usize % (v.len() * 8);
                    v[i / 8] ^= 1 << (i % 8);
                    *s = b64(&v);
                }
                _ => {}
            }
        }
        let t = match &info {
            Info::Plain(x, s, p) => format!("info {:?} {s} {p}", bp(x)),
            Info::Strong(x, b, p) => format!("strong info {:?} {:?} {p}", bp(x), bp(b)),
        };
        self.note(t);
        self.info = Some(info);
        Ok(())
    }
    fn send_c_pub(&mut self, mut p: RistrettoPoint) {
        self.out.c_pub = Some(p);
        for t in &self.cfg.tamper {
            if let Tamper::CPub(m) = t {
                p = m.apply(&p);
            }
        }
        self.note(format!("Yb={:?}", bp(&p)));
        self.c_pub = Some(p);
    }
    fn send_s_pub(&mut self, mut p: RistrettoPoint) {
        self.out.s_pub = Some(p);
        for t in &self.cfg.tamper {
            if let Tamper::SPub(m) = t {
                p = m.apply(&p);
            }
        }
        self.note(format!("Ya={:?}", bp(&p)));
        self.s_pub = Some(p);
    }
    fn send_tb(&mut self, mut tb: [u8; 64]) {
        self.out.tb = Some(tb);
        for t in &self.cfg.tamper {
            if let Tamper::Tb(a) = t {
                a.apply(&mut tb);
            }
        }
        self.note(format!("Tb={}", hex(&tb)));
        self.tb = Some(tb);
    }
    fn send_ta(&mut self, mut ta: [u8; 64]) {
        self.out.ta = Some(ta);
        for t in &self.cfg.tamper {
            if let Tamper::Ta(a) = t {
                a.apply(&mut ta);
            }
        }
        self.note(format!("Ta={}", hex(&ta)));
        self.ta = Some(ta);
    }

    fn client_step(&mut self, client: &mut Client<D, H, K>) -> R {
        let cfg = self.cfg;
        let model = self.model == Some(Side::Client);
        match std::mem::replace(&mut self.c, CS::Done) {
            CS::Done => {}
            CS::Start => {
                if let Some((ssid, _)) = &cfg.pre {
                    if model {
                        self.c = CS::MPre(m_ssid_pre::<D>(ssid));
                        return Ok(());
                    }
                    match client.begin_prestablished_ssid(ssid) {
                        Ok(n) => self.c = CS::Pre(n),
                        Err(e) => self.c_fail(0, e),
                    }
                } else if model {
                    let mut t = [0; K];
                    t.copy_from_slice(&fill(K, cfg.rng_c.seed ^ 1));
                    self.send_c_nonce(t);
                    self.c = CS::MSsid(t);
                } else {
                    let (n, m) = client.begin();
                    let nonce = c_travel(cfg.wire, m, |m| match m {
                        ClientMessage::Nonce(n) => Ok(n),
                        m => wrong("nonce", &m),
                    })??;
                    self.send_c_nonce(nonce);
                    self.c = CS::Ssid(n);
                }
            }
            CS::Ssid(st) => {
                let n = self.s_nonce.unwrap();
                self.c = CS::Pre(st.agree_ssid(n));
            }
            CS::Pre(st) => {
                let w = cfg.wire;
                if cfg.variant.strong() {
                    let mut rng = cfg.rng_blind.tape();
                    let (n, m) = st.start_augmentation_strong(&cfg.user, &cfg.pass, &mut rng);
                    let (u, b) = c_travel(w, m, |m| match m {
                        ClientMessage::StrongUsername { username, blinded } => {
                            Ok((username.to_vec(), blinded))
                        }
                        m => wrong("strong username", &m),
                    })??;
                    self.send_user(u, Some(b))?;
                    self.c = CS::SAug(n);
                } else {
                    let (n, m) = st.start_augmentation(&cfg.user, &cfg.pass);
                    let u = c_travel(w, m, |m| match m {
                        ClientMessage::Username(u) => Ok(u.to_vec()),
                        m => wrong("username", &m),
                    })??;
                    self.send_user(u, None)?;
                    self.c = CS::Aug(n);
                }
            }
            CS::Aug(st) => {
                let Some(Info::Plain(x, salt, params)) = self.info.take() else {
                    return Err("HARNESS: info".into());
                };
                let hasher = H::make(&self.log);
                let params = match H::read(&params) {
                    Ok(p) => p,
                    Err(e) => return Err(Fail(format!("server's parameters are unreadable: {e}"))),
                };
                let need = cfg.user.len() + cfg.pass.len() + 1;
                let r = match cfg.flavour {
                    Flavour::Alloc => st.generate_cpace_alloc(x, &salt, params, hasher),
                    f => with_buf!(
                        f.buf(need),
                        N,
                        st.generate_cpace::<&SaltString, N>(x, &salt, params, hasher)
                    ),
                };
                match r {
                    Ok(n) => self.c = CS::CPace(n),
                    Err(e) => self.c_fail(3, e),
                }
            }
            CS::SAug(st) => {
                let Some(Info::Strong(x, bs, params)) = self.info.take() else {
                    return Err("HARNESS: info".into());
                };
                let hasher = H::make(&self.log);
                let params = match H::read(&params) {
                    Ok(p) => p,
                    Err(e) => return Err(Fail(format!("server's parameters are unreadable: {e}"))),
                };
                let need = cfg.user.len() + cfg.pass.len() + 1;
                let r = match cfg.flavour {
                    Flavour::Alloc => st.generate_cpace_alloc(x, bs, params, hasher),
                    f => with_buf!(
                        f.buf(need),
                        N,
                        st.generate_cpace::<N>(x, bs, params, hasher)
                    ),
                };
                match r {
                    Ok(n) => self.c = CS::CPace(n),
                    Err(e) => self.c_fail(3, e),
                }
            }
            CS::CPace(st) => {
                let (n, m) = st.generate_public_key(&cfg.ci_c, &mut self.rng_c);
                let p = c_travel(cfg.wire, m, |m| match m {
                    ClientMessage::PublicKey(p) => Ok(p),
                    m => wrong("public key", &m),
                })??;
                self.send_c_pub(p);
                self.c = CS::Recv(n);
            }
            CS::Recv(st) => {
                let p = self.s_pub.unwrap();
                if cfg.implicit {
                    match st.implicit_auth(p) {
                        Ok(k) => self.out.ck = Some(Ok(key::<D>(k))),
                        Err(e) => self.c_fail(5, e),
                    }
                } else {
                    match st.receive_server_pubkey(p) {
                        Err(e) => self.c_fail(5, e),
                        Ok((n, m)) => {
                            let tb = c_travel(cfg.wire, m, |m| match m {
                                ClientMessage::Authenticator(a) => Ok(a),
                                m => wrong("authenticator", &m),
                            })??;
                            self.send_tb(tb);
                            self.c = CS::Mut(n);
                        }
                    }
                }
            }
            CS::Mut(st) => match receive_ta(st, self.ta.unwrap()) {
                Ok(k) => self.out.ck = Some(Ok(key::<D>(k))),
                Err(e) => self.c_fail(6, e),
            },
            // ---- the model client
            CS::MSsid(t) => self.c = CS::MPre(m_ssid_nonces::<D>(&self.s_nonce.unwrap(), &t)),
            CS::MPre(ssid) => {
                let r = mscalar(&cfg.rng_blind, 0, 0);
                let u = cfg
                    .variant
                    .strong()
                    .then(|| m_strong_salt_point::<D>(&cfg.user, &cfg.pass, &r));
                self.send_user(cfg.user.0.clone(), u)?;
                self.c = CS::MAug(ssid, r);
            }
            CS::MAug(ssid, r) => {
                let (x, salt, params) = match self.info.take().unwrap() {
                    Info::Plain(x, s, p) => (x, s, p),
                    Info::Strong(x, b, p) => (x, b64(&enc(&(b * r.invert()))), p),
                };
                let hp = HP::parse(params.as_str())
                    .ok_or_else(|| Fail("parameters changed on the way".into()))?;
                let w = m_hash(&hp, &userpass(&cfg.user, &cfg.pass), salt.as_str())
                    .ok()
                    .flatten()
                    .and_then(|v| m_w(&v))
                    .ok_or("HARNESS: model client's hash")?;
                let y = mscalar(&cfg.rng_c, 0, 0);
                self.c = CS::MCPace(RefCPace::new::<D>(ssid, enc(&(x * w)), &cfg.ci_c, y));
            }
            CS::MCPace(m) => {
                self.send_c_pub(m.pubkey);
                self.c = CS::MRecv(m);
            }
            CS::MRecv(m) => {
                let k = m.keys::<D>(&self.s_pub.unwrap());
                self.out.model_keys = Some(k.clone());
                if cfg.implicit {
                    self.out.ck = Some(Ok(k.sk));
                } else {
                    self.send_tb(k.tb);
                    self.c = CS::MMut(k);
                }
            }
            CS::MMut(k) => {
                self.out.ck = Some(if self.ta.unwrap() == k.ta {
                    Ok(k.sk)
                } else {
                    Err(Error::MutualAuthFail)
                })
            }
        }
        Ok(())
    }

    fn server_step(&mut self, server: &mut Server<D, K>, db: &Db) -> R {
        let cfg = self.cfg;
        let model = self.model == Some(Side::Server);
        match std::mem::replace(&mut self.s, SS::Done) {
            SS::Done => {}
            SS::Start => {
                if let Some((_, ssid)) = &cfg.pre {
                    if model {
                        self.s = SS::MAug(m_ssid_pre::<D>(ssid));
                        return Ok(());
                    }
                    match server.begin_prestablished_ssid(ssid) {
                        Ok(n) => self.s = SS::Aug(n),
                        Err(e) => self.s_fail(0, e),
                    }
                } else if model {
                    let mut s = [0; K];
                    s.copy_from_slice(&fill(K, cfg.rng_s.seed ^ 2));
                    self.send_s_nonce(s);
                    self.s = SS::MSsid(s);
                } else {
                    let (n, m) = server.begin();
                    let nonce = s_travel(cfg.wire, m, |m| match m {
                        ServerMessage::Nonce(n) => Ok(n),
                        m => wrong("nonce", &m),
                    })??;
                    self.send_s_nonce(nonce);
                    self.s = SS::Ssid(n);
                }
            }
            SS::Ssid(st) => {
                let n = self.c_nonce.unwrap();
                self.s = SS::Aug(st.agree_ssid(n));
            }
            SS::Aug(st) => {
                let (user, blinded) = self.user.clone().unwrap();
                let rng = cfg.rng_s.tape();
                let r = match cfg.variant {
                    Variant::Plain => Ok(st.generate_client_info(&user, db, rng)),
                    Variant::Partial => Ok(st.generate_client_info_partial_aug(&user, db, rng)),
                    Variant::Strong => {
                        st.generate_client_info_strong(&user, blinded.unwrap(), db, rng)
                    }
                    Variant::StrongPartial => {
                        st.generate_client_info_partial_strong(&user, blinded.unwrap(), db, rng)
                    }
                };
                match r {
                    Err(e) => self.s_fail(2, e),
                    Ok((n, m)) => {
                        self.out.info = Some(sproj(&m));
                        let strong = cfg.variant.strong();
                        let info = s_travel(cfg.wire, m, |m| match m {
                            ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params }
                                if !strong =>
                            {
                                if group != "ristretto255" {
                                    return Err(Fail(format!("group sent is {group:?}")));
                                }
                                Ok(Info::Plain(x_pub, salt, pbkdf_params))
                            }
                            ServerMessage::StrongAugmentationInfo {
                                group,
                                x_pub,
                                blinded_salt,
                                pbkdf_params,
                            } if strong => {
                                if group != "ristretto255" {
                                    return Err(Fail(format!("group sent is {group:?}")));
                                }
                                Ok(Info::Strong(x_pub, blinded_salt, pbkdf_params))
                            }
                            m => wrong("augmentation info", &m),
                        })??;
                        self.send_info(info)?;
                        self.s = SS::CPace(n);
                    }
                }
            }
            SS::CPace(st) => {
                let (n, m) = st.generate_public_key(&cfg.ci_s);
                let p = s_travel(cfg.wire, m, |m| match m {
                    ServerMessage::PublicKey(p) => Ok(p),
                    m => wrong("public key", &m),
                })??;
                self.send_s_pub(p);
                self.s = SS::Recv(n);
            }
            SS::Recv(st) => {
                let p = self.c_pub.unwrap();
                if cfg.implicit {
                    match st.implicit_auth(p) {
                        Ok(k) => self.out.sk = Some(Ok(key::<D>(k))),
                        Err(e) => self.s_fail(4, e),
                    }
                } else {
                    match st.receive_client_pubkey(p) {
                        Err(e) => self.s_fail(4, e),
                        Ok(n) => self.s = SS::Mut(n),
                    }
                }
            }
            SS::Mut(st) => match receive_tb(st, self.tb.unwrap()) {
                Err(e) => self.s_fail(5, e),
                Ok((k, m)) => {
                    self.out.sk = Some(Ok(key::<D>(k)));
                    let ta = s_travel(cfg.wire, m, |m| match m {
                        ServerMessage::Authenticator(a) => Ok(a),
                        m => wrong("authenticator", &m),
                    })??;
                    self.send_ta(ta);
                }
            },
            // ---- the model server
            SS::MSsid(s) => self.s = SS::MAug(m_ssid_nonces::<D>(&s, &self.c_nonce.unwrap())),
            SS::MAug(ssid) => {
                let (user, blinded) = self.user.clone().unwrap();
                let (x, xp) = if cfg.variant.partial() {
                    *db.keys.get(&user).ok_or("HARNESS: model server: no key pair")?
                } else {
                    let x = mscalar(&cfg.rng_s, 0, 0);
                    (x, BASE * x)
                };
                let (w, info) = if cfg.variant.strong() {
                    let (w, q, p) =
                        db.strong.get(&user).cloned().ok_or("HARNESS: model server: no user")?;
                    (w, Info::Strong(xp, blinded.unwrap() * q, p))
                } else {
                    let (w, s, p) =
                        db.plain.get(&user).cloned().ok_or("HARNESS: model server: no user")?;
                    (w, Info::Plain(xp, s, p))
                };
                self.send_info(info)?;
                let y = mscalar(&cfg.rng_s, usize::from(!cfg.variant.partial()), 0x5555);
                self.s = SS::MCPace(RefCPace::new::<D>(ssid, enc(&(w * x)), &cfg.ci_s, y));
            }
            SS::MCPace(m) => {
                self.send_s_pub(m.pubkey);
                self.s = SS::MRecv(m);
            }
            SS::MRecv(m) => {
                let k = m.keys::<D>(&self.c_pub.unwrap());
                self.out.model_keys = Some(k.clone());
                if cfg.implicit {
                    self.out.sk = Some(Ok(k.sk));
                } else {
                    self.s = SS::MMut(k);
                }
            }
            SS::MMut(k) => {
                // the model server sends its authenticator whatever it received, so that the
                // client's own check is what decides
                self.out.sk = Some(if self.tb.unwrap() == k.tb {
                    Ok(k.sk)
                } else {
                    Err(Error::MutualAuthFail)
                });
                self.send_ta(k.ta);
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ registration

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Reg {
    pub msg: CMsg,
    pub calls: Vec<Call>,
}

/// Register with the given flavour; the message goes over the wire and into the database.
#[allow(clippy::too_many_arguments)]
pub fn register<D: Dg, H: Hs, const K: usize>(
    client: &mut Client<D, H, K>,
    db: Option<&mut Db>,
    strong: bool,
    flavour: Flavour,
    bufsiz: Option<usize>,
    wire: Wire,
    user: &[u8],
    pass: &[u8],
    params: H::Params,
) -> Result<Result<Reg, Error>, Fail> {
    let log = Log::default();
    let hasher = H::make(&log);
    let need = user.len() + pass.len() + 1;
    let n = bufsiz.unwrap_or_else(|| flavour.buf(need));
    let r = match (strong, flavour) {
        (false, Flavour::Alloc) => client.register_alloc(user, pass, params, hasher),
        (true, Flavour::Alloc) => client.register_alloc_strong(user, pass, params, hasher),
        (false, _) => with_buf!(n, N, client.register::<&[u8], N>(user, pass, params, hasher)),
        (true, _) => with_buf!(n, N, client.register_strong::<&[u8], N>(user, pass, params, hasher)),
    };
    let m = match r {
        Ok(m) => m,
        Err(e) => return Ok(Err(e)),
    };
    let msg = cproj(&m);
    c_travel(wire, m, |m| match m {
        ClientMessage::Registration { username, salt, params, verifier } if !strong => {
            if let Some(db) = db {
                db.store_verifier(username, salt, None, verifier, params);
            }
            Ok(())
        }
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier }
            if strong =>
        {
            if let Some(db) = db {
                db.store_verifier_strong(username, None, verifier, secret_exponent, params);
            }
            Ok(())
        }
        m => wrong("registration", &m),
    })??;
    let calls = log.lock().unwrap().clone();
    Ok(Ok(Reg { msg, calls }))
}

pub fn unpoint(b: &[u8]) -> Option<RistrettoPoint> {
    CompressedRistretto::from_slice(b).ok()?.decompress()
}

// ------------------------------------------------------------------ a whole world

/// Everything needed for a registration followed by a login.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    pub combo: Combo,
    pub reg_flavour: Flavour,
    pub hp: HP,
    pub reg_pass: B,
    pub login: Login,
    pub rng_client: Seed,
    pub rng_server: Seed,
    pub rng_reg: Seed,
    pub rng_keys: Seed,
    /// other registered users (seeds)
    pub others: Vec<(B, B)>,
}

impl World {
    /// Register `others` and the user, store a long-term pair for each.
    pub fn setup<D: Dg, const K: usize>(&self) -> Result<(Server<D, K>, Db), Fail> {
        self.setup_h::<D, RecHasher, K>(self.hp.clone())
    }
    pub fn setup_h<D: Dg, H: Hs, const K: usize>(
        &self,
        hp: H::Params,
    ) -> Result<(Server<D, K>, Db), Fail> {
        let mut db = Db::default();
        let mut reg: Client<D, H, K> = Client::new(self.rng_reg.tape());
        let mut keysrv: Server<D, K> = Server::new(self.rng_keys.tape());
        let l = &self.login;
        for (u, p) in self.others.iter().chain(std::iter::once(&(l.user.clone(), self.reg_pass.clone()))) {
            register::<D, H, K>(
                &mut reg,
                Some(&mut db),
                l.variant.strong(),
                self.reg_flavour,
                None,
                l.wire,
                u,
                p,
                hp.clone(),
            )?
            .map_err(|e| Fail(format!("registration failed: {e:?}")))?;
            let (x, xp) = keysrv.generate_long_term_keypair();
            db.store_long_term_keypair(u, x, xp)
                .map_err(|e| Fail(format!("HARNESS: store: {e:?}")))?;
        }
        Ok((Server::new(self.rng_server.tape()), db))
    }
    pub fn client<D: Dg, H: Hs, const K: usize>(&self) -> Client<D, H, K> {
        Client::new(self.rng_client.tape())
    }
}

pub fn pre_ssid() -> BoxedStrategy<B> {
    prop_oneof![
        3 => (16usize..80, any::<u64>()).prop_map(|(n, s)| B(fill(n, s))),
        1 => Just(B(vec![0; 16])),
        1 => (any::<u64>()).prop_map(|s| B(fill(16, s))),
        1 => (200usize..2000, any::<u64>()).prop_map(|(n, s)| B(fill(n, s))),
    ]
    .boxed()
}

/// Nonzero leading bytes only: streams that could give a zero scalar are excluded.
pub fn seed_nz() -> BoxedStrategy<Seed> {
    prop_oneof![
        6 => any::<u64>().prop_map(Seed::new),
        1 => (any::<u64>(), 1u64..20).prop_map(|(s, v)| {
            let mut p = vec![0u8; 64];
            p[..8].copy_from_slice(&v.to_le_bytes());
            Seed { prefix: B(p), seed: s }
        }),
        1 => (any::<u64>(), prop_oneof![Just(0xffu8), Just(0x80), Just(1)], 1usize..200)
            .prop_map(|(s, v, n)| Seed { prefix: B(vec![v; n]), seed: s }),
    ]
    .boxed()
}

/// An honest login.
pub fn login_cfg() -> BoxedStrategy<Login> {
    (
        (variant(), prop::option::weighted(0.4, pre_ssid()), any::<bool>(), flavour(), wire()),
        (text(), text(), text()),
        (seed_nz(), seed_nz(), seed_nz(), any::<u32>()),
    )
        .prop_map(|((variant, pre, implicit, flavour, wire), (user, pass, ci), (a, b, c, order))| {
            Login {
                variant,
                pre: pre.map(|p| (p.clone(), p)),
                implicit,
                flavour,
                wire,
                user,
                pass,
                ci_c: ci.clone(),
                ci_s: ci,
                rng_s: a,
                rng_c: b,
                rng_blind: c,
                order,
                tamper: vec![],
            }
        })
        .boxed()
}
pub fn world() -> BoxedStrategy<World> {
    (
        (combo(), flavour(), hp_ok(), login_cfg()),
        (seed(), seed(), seed(), seed()),
        prop::collection::vec((text_upto(30), text_upto(30)), 0..3),
    )
        .prop_map(|((combo, reg_flavour, hp, login), (a, b, c, d), mut others)| {
            others.retain(|(u, _)| *u != login.user);
            World {
                combo,
                reg_flavour,
                hp,
                reg_pass: login.pass.clone(),
                login,
                rng_client: a,
                rng_server: b,
                rng_reg: c,
                rng_keys: d,
                others,
            }
        })
        .boxed()
}
