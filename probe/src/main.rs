//! Runs every operation this feature set offers on inputs derived from a seed and prints one line
//! per operation and case: a digest of everything observable, or (with an operation and a case
//! number) the observations themselves.

use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, ServerMessage};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as BASE;
use curve25519_dalek::ristretto::RistrettoPoint;
#[cfg(any(feature = "strong", feature = "partial"))]
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity as _;
use password_hash::{
    Decimal, Ident, ParamsString, PasswordHash, PasswordHasher, Salt, SaltString,
};
use rand_core::{CryptoRng, RngCore};
use sha2::{Digest, Sha512};
use spake2::{Ed25519Group, Identity, Password, Spake2};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

#[derive(Clone)]
struct Tape(u64, u64);
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            let h = Sha512::digest([self.0.to_le_bytes(), (self.1 / 64).to_le_bytes()].concat());
            *x = h[(self.1 % 64) as usize];
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Tape {}
impl Tape {
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill_bytes(&mut v);
        v
    }
    fn text(&mut self) -> Vec<u8> {
        let lens = [0, 1, 3, 8, 12, 20, 31, 32, 63, 64, 65, 100];
        let n = lens[self.next_u32() as usize % lens.len()];
        self.bytes(n)
    }
    fn point(&mut self) -> RistrettoPoint {
        match self.next_u32() % 8 {
            0 => RistrettoPoint::identity(),
            1 => BASE,
            _ => RistrettoPoint::random(self),
        }
    }
}

/// deterministic hasher; `0`: 64 bytes, `1`: 32 bytes, `2`: 20 bytes, `3`: none, `4`: an error, `5`: 48 bytes
#[derive(Clone, Copy, Default)]
struct H;
#[derive(Clone, Debug, Default)]
struct P(u8);
impl TryFrom<P> for ParamsString {
    type Error = password_hash::Error;
    fn try_from(p: P) -> Result<Self, Self::Error> {
        format!("m={}", p.0).parse()
    }
}
impl<'a> TryFrom<&'a PasswordHash<'a>> for P {
    type Error = password_hash::Error;
    fn try_from(p: &'a PasswordHash<'a>) -> Result<Self, Self::Error> {
        Ok(P(p.params.get_decimal("m").unwrap_or(0) as u8))
    }
}
impl PasswordHasher for H {
    type Params = P;
    fn hash_password_customized<'a>(
        &self,
        password: &[u8],
        _: Option<Ident<'a>>,
        _: Option<Decimal>,
        p: P,
        salt: impl Into<Salt<'a>>,
    ) -> password_hash::Result<PasswordHash<'a>> {
        let salt: Salt<'a> = salt.into();
        let h = Sha512::digest([password, b"|", salt.as_str().as_bytes(), &[p.0]].concat());
        let hash = match p.0 {
            0 => Some(password_hash::Output::new(&h)?),
            1 => Some(password_hash::Output::new(&h[..32])?),
            2 => Some(password_hash::Output::new(&h[..20])?),
            3 => None,
            5 => Some(password_hash::Output::new(&h[..48])?),
            _ => return Err(password_hash::Error::Version),
        };
        Ok(PasswordHash {
            algorithm: Ident::new("h")?,
            version: None,
            params: ParamsString::try_from(p)?,
            salt: Some(salt),
            hash,
        })
    }
}

#[derive(Default)]
struct Db {
    plain: HashMap<Vec<u8>, (RistrettoPoint, SaltString, ParamsString)>,
    #[cfg(feature = "strong")]
    strong: HashMap<Vec<u8>, (RistrettoPoint, Scalar, ParamsString)>,
    #[cfg(feature = "partial")]
    keys: HashMap<Vec<u8>, (Scalar, RistrettoPoint)>,
}
impl Database for Db {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> {
        self.plain.get(u).cloned()
    }
    fn store_verifier(&mut self, u: &[u8], s: SaltString, _: Option<&[u8]>, v: RistrettoPoint, p: ParamsString) {
        self.plain.insert(u.to_vec(), (v, s, p));
    }
}
#[cfg(feature = "strong")]
impl aucpace::StrongDatabase for Db {
    type PasswordVerifier = RistrettoPoint;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(RistrettoPoint, Scalar, ParamsString)> {
        self.strong.get(u).cloned()
    }
    fn store_verifier_strong(&mut self, u: &[u8], _: Option<&[u8]>, v: RistrettoPoint, q: Scalar, p: ParamsString) {
        self.strong.insert(u.to_vec(), (v, q, p));
    }
}
#[cfg(feature = "partial")]
impl aucpace::PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = RistrettoPoint;
    fn lookup_long_term_keypair(&self, u: &[u8]) -> Option<(Scalar, RistrettoPoint)> {
        self.keys.get(u).copied()
    }
    fn store_long_term_keypair(&mut self, u: &[u8], s: Scalar, p: RistrettoPoint) -> aucpace::Result<()> {
        self.keys.insert(u.to_vec(), (s, p));
        Ok(())
    }
}

const K: usize = 16;
type Cl = AuCPaceClient<Sha512, H, Tape, K>;
type Sv = AuCPaceServer<Sha512, Tape, K>;

fn pt(p: &RistrettoPoint) -> String {
    hex(p.compress().as_bytes())
}
fn cm(m: &ClientMessage<'_, K>) -> String {
    #[cfg(feature = "serde")]
    let extra = format!(" ser={}", bincode::serialize(m).map(|v| hex(&v)).unwrap_or_default());
    #[cfg(not(feature = "serde"))]
    let extra = String::new();
    SER.with(|s| s.borrow_mut().push_str(&extra));
    match m {
        ClientMessage::Nonce(n) => format!("nonce {}", hex(n)),
        ClientMessage::Username(u) => format!("user {}", hex(u)),
        ClientMessage::PublicKey(p) => format!("pk {}", pt(p)),
        ClientMessage::Authenticator(a) => format!("auth {}", hex(a)),
        ClientMessage::Registration { username, salt, params, verifier } => {
            format!("reg {} {salt} {params} {}", hex(username), pt(verifier))
        }
        #[cfg(feature = "strong")]
        ClientMessage::StrongUsername { username, blinded } => format!("user {} {}", hex(username), pt(blinded)),
        #[cfg(feature = "strong")]
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
            format!("reg {} {} {params} {}", hex(username), hex(secret_exponent.as_bytes()), pt(verifier))
        }
        #[allow(unreachable_patterns)]
        m => format!("{m:?}"),
    }
}
fn sm(m: &ServerMessage<'_, K>) -> String {
    #[cfg(feature = "serde")]
    let extra = format!(" ser={}", bincode::serialize(m).map(|v| hex(&v)).unwrap_or_default());
    #[cfg(not(feature = "serde"))]
    let extra = String::new();
    SER.with(|s| s.borrow_mut().push_str(&extra));
    match m {
        ServerMessage::Nonce(n) => format!("nonce {}", hex(n)),
        ServerMessage::PublicKey(p) => format!("pk {}", pt(p)),
        ServerMessage::Authenticator(a) => format!("auth {}", hex(a)),
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => {
            format!("info {group} {} {salt} {pbkdf_params}", pt(x_pub))
        }
        #[cfg(feature = "strong")]
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => {
            format!("info {group} {} {} {pbkdf_params}", pt(x_pub), pt(blinded_salt))
        }
        #[allow(unreachable_patterns)]
        m => format!("{m:?}"),
    }
}
thread_local! {
    static SER: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

#[derive(Clone, Copy, PartialEq)]
enum V {
    Plain,
    #[cfg(feature = "partial")]
    Partial,
    #[cfg(feature = "strong")]
    Strong,
    #[cfg(all(feature = "strong", feature = "partial"))]
    StrongPartial,
}
impl V {
    fn strong(self) -> bool {
        match self {
            V::Plain => false,
            #[cfg(feature = "partial")]
            V::Partial => false,
            #[cfg(feature = "strong")]
            V::Strong => true,
            #[cfg(all(feature = "strong", feature = "partial"))]
            V::StrongPartial => true,
        }
    }
}

/// `$e` with `$n` a buffer size chosen at run time.
macro_rules! with_buf {
    ($b:expr, $n:ident, $e:expr) => {
        match $b {
            0 => { const $n: usize = 256; $e }
            1 => { const $n: usize = 64; $e }
            2 => { const $n: usize = 33; $e }
            _ => { const $n: usize = 0; $e }
        }
    };
}

/// A registration and a login, possibly with something wrong; everything observable is written
/// to `o`.
fn login(v: V, heap: bool, kind: u32, t: &mut Tape, o: &mut Vec<String>) {
    let _ = heap;
    let (user, pass, ci) = (t.text(), t.text(), t.text());
    let hp = P([0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 3, 4, 5][t.next_u32() as usize % 14]);
    let hp2 = if t.next_u32() % 8 == 0 { P((t.next_u32() % 6) as u8) } else { hp.clone() };
    // mostly large enough buffers
    let (buf1, buf2) = {
        let b = [0, 0, 0, 0, 0, 1, 1, 2, 3];
        (b[t.next_u32() as usize % 9], b[t.next_u32() as usize % 9])
    };
    let pre = t.next_u32() % 2 == 0;
    let implicit = t.next_u32() % 2 == 0;
    let ssid = { let n = [16, 32, 17, 64, 80, 128, 15, 0][t.next_u32() as usize % 8]; t.bytes(n) };
    let other = t.bytes(20);
    let rngs: Vec<Tape> = (0..8).map(|_| Tape(t.next_u64(), 0)).collect();
    let (bad_x, bad_y1, bad_y2, bad_b, bad_bs) = (t.point(), t.point(), t.point(), t.point(), t.point());
    let _ = (bad_b, bad_bs);
    let mut cl: Cl = AuCPaceClient::new(rngs[0].clone());
    let mut sv: Sv = AuCPaceServer::new(rngs[1].clone());
    let mut db = Db::default();

    // registration
    let reg = match (v.strong(), heap) {
        (false, false) => with_buf!(buf1, N, cl.register::<_, N>(&user[..], &pass[..], hp.clone(), H)),
        #[cfg(feature = "alloc")]
        (false, true) => cl.register_alloc(&user[..], &pass[..], hp.clone(), H),
        #[cfg(feature = "strong")]
        (true, false) => with_buf!(buf1, N, cl.register_strong::<_, N>(&user[..], &pass[..], hp.clone(), H)),
        #[cfg(all(feature = "strong", feature = "alloc"))]
        (true, true) => cl.register_alloc_strong(&user[..], &pass[..], hp.clone(), H),
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    };
    match reg {
        Err(e) => o.push(format!("registration: {e:?} {e}")),
        Ok(m) => {
            o.push(cm(&m));
            match m {
                ClientMessage::Registration { username, salt, params, verifier } => {
                    db.store_verifier(username, salt, None, verifier, params)
                }
                #[cfg(feature = "strong")]
                ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
                    aucpace::StrongDatabase::store_verifier_strong(&mut db, username, None, verifier, secret_exponent, params)
                }
                _ => {}
            }
        }
    }
    #[cfg(feature = "partial")]
    {
        let (x, xp) = sv.generate_long_term_keypair();
        o.push(format!("long {} {}", hex(x.as_bytes()), pt(&xp)));
        aucpace::PartialAugDatabase::store_long_term_keypair(&mut db, &user, x, xp).unwrap();
        // later draws must not depend on whether this operation exists
        sv = AuCPaceServer::new(rngs[1].clone());
    }
    let who: &[u8] = if kind == 1 { &other } else { &user };

    // ssid
    let (cst, sst) = if pre {
        let (a, b) = (cl.begin_prestablished_ssid(&ssid), sv.begin_prestablished_ssid(&ssid));
        o.push(format!("ssid {:?} {:?}", a.as_ref().err(), b.as_ref().err()));
        match (a, b) {
            (Ok(a), Ok(b)) => (a, b),
            _ => return,
        }
    } else {
        let (c, m1) = cl.begin();
        o.push(cm(&m1));
        let ClientMessage::Nonce(n1) = m1 else { return };
        let (s, m2) = sv.begin();
        o.push(sm(&m2));
        let ServerMessage::Nonce(n2) = m2 else { return };
        (c.agree_ssid(n2), s.agree_ssid(n1))
    };

    // augmentation layer
    let (cst, sst) = if !v.strong() {
        let (c, m) = cst.start_augmentation(who, &pass);
        o.push(cm(&m));
        let (s, m) = match v {
            #[cfg(feature = "partial")]
            V::Partial => sst.generate_client_info_partial_aug(who, &db, rngs[2].clone()),
            _ => sst.generate_client_info(who, &db, rngs[2].clone()),
        };
        o.push(sm(&m));
        let ServerMessage::AugmentationInfo { x_pub, salt, .. } = m else { return };
        let x = if kind == 2 { bad_x } else { x_pub };
        let r = match heap {
            #[cfg(feature = "alloc")]
            true => c.generate_cpace_alloc(x, &salt, hp2, H),
            _ => with_buf!(buf2, N, c.generate_cpace::<&SaltString, N>(x, &salt, hp2, H)),
        };
        match r {
            Err(e) => {
                o.push(format!("client: {e:?} {e}"));
                return;
            }
            Ok(c) => (c, s),
        }
    } else {
        #[cfg(feature = "strong")]
        {
            let mut r3 = rngs[3].clone();
            let (c, m) = cst.start_augmentation_strong(who, &pass, &mut r3);
            o.push(cm(&m));
            let ClientMessage::StrongUsername { blinded, .. } = m else { return };
            let b = if kind == 3 { bad_b } else { blinded };
            let r = match v {
                #[cfg(feature = "partial")]
                V::StrongPartial => sst.generate_client_info_partial_strong(who, b, &db, rngs[2].clone()),
                _ => sst.generate_client_info_strong(who, b, &db, rngs[2].clone()),
            };
            let (s, m) = match r {
                Err(e) => {
                    o.push(format!("server: {e:?} {e}"));
                    return;
                }
                Ok(x) => x,
            };
            o.push(sm(&m));
            let ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, .. } = m else { return };
            let x = if kind == 2 { bad_x } else { x_pub };
            let bs = if kind == 4 { bad_bs } else { blinded_salt };
            let r = match heap {
                #[cfg(feature = "alloc")]
                true => c.generate_cpace_alloc(x, bs, hp2, H),
                _ => with_buf!(buf2, N, c.generate_cpace::<N>(x, bs, hp2, H)),
            };
            match r {
                Err(e) => {
                    o.push(format!("client: {e:?} {e}"));
                    return;
                }
                Ok(c) => (c, s),
            }
        }
        #[cfg(not(feature = "strong"))]
        unreachable!()
    };

    // cpace
    let mut r4 = rngs[4].clone();
    let (c, m1) = cst.generate_public_key(&ci, &mut r4);
    let (s, m2) = sst.generate_public_key(&ci);
    o.push(cm(&m1));
    o.push(sm(&m2));
    let (ClientMessage::PublicKey(mut y1), ServerMessage::PublicKey(mut y2)) = (m1, m2) else { return };
    if kind == 5 {
        y1 = bad_y1;
        y2 = bad_y2;
    }
    if implicit {
        let f = |r: aucpace::Result<_>| match r {
            Ok(k) => { let k: curve25519_dalek::digest::Output<Sha512> = k; hex(&k) }
            Err(e) => format!("{e:?} {e}"),
        };
        o.push(f(c.implicit_auth(y2)));
        o.push(f(s.implicit_auth(y1)));
        return;
    }
    let (c, s) = match (c.receive_server_pubkey(y2), s.receive_client_pubkey(y1)) {
        (Ok((c, m)), Ok(s)) => {
            o.push(cm(&m));
            let ClientMessage::Authenticator(mut a) = m else { return };
            if kind == 6 {
                a[7] ^= 1;
            }
            (c, s.receive_client_authenticator(a))
        }
        (a, b) => {
            o.push(format!("{:?} {:?}", a.err(), b.err()));
            return;
        }
    };
    match s {
        Err(e) => {
            o.push(format!("server: {e:?} {e}"));
            o.push(format!("client: {:?}", c.receive_server_authenticator([3; 64]).map(|k| hex(&k))));
        }
        Ok((k, m)) => {
            o.push(format!("server key {}", hex(&k)));
            o.push(sm(&m));
            let ServerMessage::Authenticator(a) = m else { return };
            o.push(format!("client: {:?}", c.receive_server_authenticator(a).map(|k| hex(&k))));
        }
    }
}

/// Serialised messages, some of them damaged, and what reading them gives.
#[cfg(feature = "serde")]
fn bytes(kind: u32, t: &mut Tape, o: &mut Vec<String>) {
    let user = t.text();
    let n: [u8; K] = t.bytes(K).try_into().unwrap();
    let a: [u8; 64] = t.bytes(64).try_into().unwrap();
    let (p, v) = (t.point(), t.point());
    let alphabet = b"ABCabcXYZ0189+/.-";
    let len = 4 + t.next_u32() as usize % 61;
    let salt: String = (0..len).map(|_| alphabet[t.next_u32() as usize % alphabet.len()] as char).collect();
    let Ok(salt) = SaltString::from_b64(&salt) else { return };
    let params: ParamsString = ["", "m=1", "ln=15,r=8,p=1", "a=xyz,data=AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA,zz=1"]
        [t.next_u32() as usize % 4].parse().unwrap();
    let client = t.next_u32() % 2 == 0;
    let which = t.next_u32() % 5;
    let mut b = if client {
        bincode::serialize(&match which {
            0 => ClientMessage::<K>::Nonce(n),
            1 => ClientMessage::Username(&user),
            2 => ClientMessage::PublicKey(p),
            3 => ClientMessage::Authenticator(a),
            _ => ClientMessage::Registration { username: &user, salt, params, verifier: v },
        })
    } else {
        bincode::serialize(&match which {
            0 => ServerMessage::<K>::Nonce(n),
            1 => ServerMessage::PublicKey(p),
            2 => ServerMessage::Authenticator(a),
            _ => ServerMessage::AugmentationInfo { group: "ristretto255", x_pub: p, salt, pbkdf_params: params },
        })
    }
    .unwrap();
    // the first four bytes are the variant; which ones exist depends on the features
    let i = 4 + t.next_u32() as usize % (b.len() - 4).max(1);
    match kind {
        0 | 1 => {}
        2 => b.truncate(i),
        3 => b.push(0),
        _ if i < b.len() => b[i] = t.next_u32() as u8,
        _ => {}
    }
    o.push(if client {
        match bincode::deserialize::<ClientMessage<'_, K>>(&b) {
            Ok(m) => cm(&m),
            Err(e) => format!("{e}"),
        }
    } else {
        match bincode::deserialize::<ServerMessage<'_, K>>(&b) {
            Ok(m) => sm(&m),
            Err(e) => format!("{e}"),
        }
    });
    o.push(hex(&b));
}

type S = Spake2<Ed25519Group>;
fn spake(kind: u32, t: &mut Tape, o: &mut Vec<String>) {
    let (pw, a, b) = (t.text(), t.text(), t.text());
    let (pw, a, b) = (Password::new(&pw), Identity::new(&a), Identity::new(&b));
    let (r1, r2) = (Tape(t.next_u64(), 0), Tape(t.next_u64(), 0));
    let ((s1, m1), (s2, m2)) = if t.next_u32() % 2 == 0 {
        (S::start_symmetric_with_rng(&pw, &a, r1), S::start_symmetric_with_rng(&pw, &a, r2))
    } else {
        (S::start_a_with_rng(&pw, &a, &b, r1), S::start_b_with_rng(&pw, &a, &b, r2))
    };
    o.push(format!("{} {} {s1:?} {s2:?}", hex(&m1), hex(&m2)));
    let mut d = m2.clone();
    match kind {
        1 => d[0] ^= 3,
        2 => { let i = t.next_u32() as usize % 32; d[1 + i] ^= 1 << (t.next_u32() % 8) }
        3 => d.truncate(t.next_u32() as usize % 33),
        4 => d.push(0),
        _ => {}
    }
    let f = |r: Result<Vec<u8>, spake2::Error>| match r {
        Ok(k) => hex(&k),
        Err(e) => format!("{e:?} {e}"),
    };
    o.push(f(s1.finish(&d)));
    o.push(f(s2.finish(&m1)));
}
/// constructors that use the system generator: only the relation between the sides is stable
#[cfg(feature = "getrandom")]
fn spake_os(kind: u32, t: &mut Tape, o: &mut Vec<String>) {
    let (pw, a, b) = (t.text(), t.text(), t.text());
    let (pw, a, b) = (Password::new(&pw), Identity::new(&a), Identity::new(&b));
    let r = Tape(t.next_u64(), 0);
    let ((s1, m1), (s2, m2)) = match kind % 3 {
        0 => (S::start_a(&pw, &a, &b), S::start_b_with_rng(&pw, &a, &b, r)),
        1 => (S::start_a_with_rng(&pw, &a, &b, r), S::start_b(&pw, &a, &b)),
        _ => (S::start_symmetric(&pw, &a), S::start_symmetric_with_rng(&pw, &a, r)),
    };
    o.push(format!("{} {}", m1.len(), m1[0]));
    let (k1, k2) = (s1.finish(&m2), s2.finish(&m1));
    o.push(format!("{} {}", k1.is_ok(), k1 == k2));
}

type Op = fn(u32, &mut Tape, &mut Vec<String>);
fn ops() -> Vec<(&'static str, Op)> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, Op)> = vec![
        ("plain", |k, t, o| login(V::Plain, false, k, t, o)),
        ("spake2", |k, t, o| spake(k, t, o)),
    ];
    #[cfg(feature = "alloc")]
    v.push(("plain-heap", |k, t, o| login(V::Plain, true, k, t, o)));
    #[cfg(feature = "partial")]
    v.push(("partial", |k, t, o| login(V::Partial, false, k, t, o)));
    #[cfg(all(feature = "alloc", feature = "partial"))]
    v.push(("partial-heap", |k, t, o| login(V::Partial, true, k, t, o)));
    #[cfg(feature = "strong")]
    v.push(("strong", |k, t, o| login(V::Strong, false, k, t, o)));
    #[cfg(all(feature = "alloc", feature = "strong"))]
    v.push(("strong-heap", |k, t, o| login(V::Strong, true, k, t, o)));
    #[cfg(all(feature = "partial", feature = "strong"))]
    v.push(("strong-partial", |k, t, o| login(V::StrongPartial, false, k, t, o)));
    #[cfg(all(feature = "alloc", feature = "partial", feature = "strong"))]
    v.push(("strong-partial-heap", |k, t, o| login(V::StrongPartial, true, k, t, o)));
    #[cfg(feature = "serde")]
    v.push(("bytes", |k, t, o| bytes(k, t, o)));
    #[cfg(feature = "getrandom")]
    v.push(("spake2-system", |k, t, o| spake_os(k, t, o)));
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let n: u32 = a[2].parse().unwrap();
    let only = a.get(3).map(|s| (s.clone(), a[4].parse::<u32>().unwrap()));
    std::panic::set_hook(Box::new(|_| {}));
    for (name, f) in ops() {
        for i in 0..n {
            if only.as_ref().map(|x| x.0 != name || x.1 != i).unwrap_or(false) {
                continue;
            }
            let mut h = Sha512::new();
            h.update(seed.to_le_bytes());
            h.update(i.to_le_bytes());
            let mut t = Tape(u64::from_le_bytes(h.finalize()[..8].try_into().unwrap()), 0);
            let kind = i % 10;
            let mut o = vec![];
            SER.with(|s| s.borrow_mut().clear());
            if catch_unwind(AssertUnwindSafe(|| f(kind, &mut t, &mut o))).is_err() {
                o.push("panic".into());
            }
            // long-term pairs only exist with partial augmentation
            let o: Vec<_> = o.into_iter().filter(|l| !l.starts_with("long ")).collect();
            let ser = SER.with(|s| s.borrow().clone());
            if only.is_some() {
                for l in &o {
                    println!("{l}");
                }
                println!("{ser}");
            } else {
                let d = |x: &str| hex(&Sha512::digest(x)[..12]);
                println!("{name} {i} {}", d(&o.join("\n")));
                if cfg!(feature = "serde") {
                    println!("{name}-serde {i} {}", d(&ser));
                }
            }
        }
    }
}
