//! X01 randomness, X02 panic freedom, X03 feature independence.

use crate::aucm::*;
use crate::fw::*;
use crate::spake_props::{body_at, role, rx_body, start, Body};
use crate::spakem::Role;
use crate::srpm::{self, group, secret, Dig, G};
use crate::util::*;
use crate::{ensure, ensure_eq, with_buf, with_combo, with_digest};
use aucpace::{Database, PartialAugDatabase, StrongDatabase};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as BASE;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity as _;
use password_hash::{ParamsString, SaltString};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use spake2::{Ed25519Group, Identity, Password, Spake2};
use std::collections::HashSet;

// =================================================================== X01

/// One randomised operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Spake(Role),
    CNonce,
    SNonce,
    /// salt of a registration
    RegSalt(bool),
    /// secret exponent of a strong registration
    RegExp(bool),
    Blind,
    /// the client's CPace public key
    ClientPub(Variant),
    /// x_pub of a registered user (ephemeral unless partially augmented)
    ServerX(bool),
    /// the server's CPace public key
    ServerPub(Variant, bool),
    LongTerm,
    /// what unknown users are shown, as a function of the server's own secret
    FakeSalt,
    FakeBlindedSalt,
    FakeKey(bool),
}
const OPS: &[Op] = &[
    Op::Spake(Role::A),
    Op::Spake(Role::B),
    Op::Spake(Role::S),
    Op::CNonce,
    Op::SNonce,
    Op::RegSalt(false),
    Op::RegSalt(true),
    Op::RegExp(false),
    Op::RegExp(true),
    Op::Blind,
    Op::ClientPub(Variant::Plain),
    Op::ClientPub(Variant::Partial),
    Op::ClientPub(Variant::Strong),
    Op::ClientPub(Variant::StrongPartial),
    Op::ServerX(false),
    Op::ServerX(true),
    Op::ServerPub(Variant::Plain, false),
    Op::ServerPub(Variant::Partial, false),
    Op::ServerPub(Variant::Strong, false),
    Op::ServerPub(Variant::StrongPartial, false),
    Op::ServerPub(Variant::Plain, true),
    Op::ServerPub(Variant::Partial, true),
    Op::ServerPub(Variant::Strong, true),
    Op::ServerPub(Variant::StrongPartial, true),
    Op::LongTerm,
    Op::FakeSalt,
    Op::FakeBlindedSalt,
    Op::FakeKey(false),
    Op::FakeKey(true),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stream {
    op: Op,
    combo: Combo,
    user: B,
    pass: B,
    ci: B,
    tape: u64,
    other: u64,
    /// calls on the same object before the examined one
    before: u8,
    masks: u64,
}

/// What one call produced and which part of the stream it consumed.
struct Shot {
    out: Vec<u8>,
    drawn: Vec<(u64, u64)>,
    need: u64,
}

fn a_verifier(seed: u64) -> (RistrettoPoint, SaltString, ParamsString) {
    (point(seed), b64(&fill(16, seed ^ 3)), HP::default().params())
}
fn one_db(user: &[u8], v: Variant, seed: u64) -> Db {
    let mut db = Db::default();
    let (w, s, p) = a_verifier(seed);
    if v.strong() {
        db.strong.insert(user.to_vec(), (w, scalar(seed ^ 4), p));
    } else {
        db.plain.insert(user.to_vec(), (w, s, p));
    }
    let x = scalar(seed ^ 5);
    db.keys.insert(user.to_vec(), (x, BASE * x));
    db
}
/// server reply and public key (and the resulting key) for one user
struct Served {
    x: Vec<u8>,
    salt: Vec<u8>,
    public: Vec<u8>,
}
fn serve<D: Dg, const K: usize>(
    srv: &mut Server<D, K>,
    v: Variant,
    user: &[u8],
    db: &Db,
    ci: &[u8],
    rng: Tape,
) -> Result<Served, Fail> {
    let st = srv
        .begin_prestablished_ssid([7u8; 32])
        .map_err(|e| Fail(format!("HARNESS: ssid {e:?}")))?;
    let u = BASE * scalar(99);
    let (n, m) = match v {
        Variant::Plain => st.generate_client_info(user, db, rng),
        Variant::Partial => st.generate_client_info_partial_aug(user, db, rng),
        Variant::Strong => st
            .generate_client_info_strong(user, u, db, rng)
            .map_err(|e| Fail(format!("strong lookup failed: {e:?}")))?,
        Variant::StrongPartial => st
            .generate_client_info_partial_strong(user, u, db, rng)
            .map_err(|e| Fail(format!("strong lookup failed: {e:?}")))?,
    };
    let (x, salt) = match sproj(&m) {
        SMsg::Info { x_pub, salt, .. } => (x_pub.0, salt.into_bytes()),
        SMsg::StrongInfo { x_pub, blinded_salt, .. } => (x_pub.0, blinded_salt.0),
        m => return Err(Fail(format!("unexpected message {m:?}"))),
    };
    let (_, m) = n.generate_public_key(ci);
    let public = match sproj(&m) {
        SMsg::PublicKey(p) => p.0,
        m => return Err(Fail(format!("unexpected message {m:?}"))),
    };
    Ok(Served { x, salt, public })
}

fn shot<D: Dg, const K: usize>(c: &Stream, flips: Vec<(u64, u8)>) -> Result<Shot, Fail> {
    let (tape, log) = Tape::new(&[], c.tape).with_flips(flips).logged();
    let other = Tape::new(&[1], c.other);
    let mark = |l: &std::sync::Arc<std::sync::Mutex<Vec<(u64, u64)>>>| l.lock().unwrap().len();
    let mut from = 0;
    let before = c.before;
    let (out, need): (Vec<u8>, u64) = match c.op {
        Op::Spake(r) => (start::<Ed25519Group>(r, &c.pass, &c.user, &c.ci, tape).1, 32),
        Op::CNonce => {
            let mut cl: Client<D, RecHasher, K> = Client::new(tape);
            let mut out = vec![];
            for _ in 0..=before {
                from = mark(&log);
                out = match cproj(&cl.begin().1) {
                    CMsg::Nonce(n) => n.0,
                    m => return Err(Fail(format!("unexpected message {m:?}"))),
                };
            }
            (out, K as u64)
        }
        Op::SNonce => {
            let mut sv: Server<D, K> = Server::new(tape);
            let mut out = vec![];
            for _ in 0..=before {
                from = mark(&log);
                out = match sproj(&sv.begin().1) {
                    SMsg::Nonce(n) => n.0,
                    m => return Err(Fail(format!("unexpected message {m:?}"))),
                };
            }
            (out, K as u64)
        }
        Op::RegSalt(heap) | Op::RegExp(heap) => {
            let strong = matches!(c.op, Op::RegExp(_));
            let mut cl: Client<D, RecHasher, K> = Client::new(tape);
            let mut out = vec![];
            for _ in 0..=before {
                from = mark(&log);
                let f = if heap { Flavour::Alloc } else { Flavour::Fixed(0) };
                let hp = HP::default();
                let r = register(&mut cl, None, strong, f, None, Wire::Direct, &c.user, &c.pass, hp)?
                    .map_err(|e| Fail(format!("registration failed: {e:?}")))?;
                out = match r.msg {
                    CMsg::Registration { salt, .. } => salt.into_bytes(),
                    CMsg::StrongRegistration { q, .. } => q.0,
                    m => return Err(Fail(format!("unexpected message {m:?}"))),
                };
            }
            (out, if strong { 32 } else { 16 })
        }
        Op::Blind => {
            let mut cl: Client<D, RecHasher, K> = Client::new(other);
            let mut tape = tape;
            let mut out = vec![];
            for _ in 0..=before {
                from = mark(&log);
                let st = cl
                    .begin_prestablished_ssid([7u8; 32])
                    .map_err(|e| Fail(format!("HARNESS: ssid {e:?}")))?;
                out = match cproj(&st.start_augmentation_strong(&c.user, &c.pass, &mut tape).1) {
                    CMsg::StrongUsername(_, b) => b.0,
                    m => return Err(Fail(format!("unexpected message {m:?}"))),
                };
            }
            (out, 32)
        }
        Op::ClientPub(v) => {
            let mut cl: Client<D, RecHasher, K> = Client::new(other.clone());
            let mut tape = tape;
            let mut out = vec![];
            let (x, salt, _) = a_verifier(c.other);
            let bad = |e: aucpace::Error| Fail(format!("client refuses a valid reply: {e:?}"));
            for _ in 0..=before {
                from = mark(&log);
                let st = cl
                    .begin_prestablished_ssid([7u8; 32])
                    .map_err(|e| Fail(format!("HARNESS: ssid {e:?}")))?;
                let hasher = RecHasher::default();
                let mut o = other.clone();
                let heap = v.partial();
                let st = if v.strong() {
                    let st = st.start_augmentation_strong(&c.user, &c.pass, &mut o).0;
                    if heap {
                        st.generate_cpace_alloc(x, point(9), HP::default(), hasher).map_err(bad)?
                    } else {
                        st.generate_cpace::<140_000>(x, point(9), HP::default(), hasher).map_err(bad)?
                    }
                } else {
                    let st = st.start_augmentation(&c.user, &c.pass).0;
                    if heap {
                        st.generate_cpace_alloc(x, &salt, HP::default(), hasher).map_err(bad)?
                    } else {
                        st.generate_cpace::<&SaltString, 140_000>(x, &salt, HP::default(), hasher)
                            .map_err(bad)?
                    }
                };
                out = match cproj(&st.generate_public_key(&c.ci, &mut tape).1) {
                    CMsg::PublicKey(p) => p.0,
                    m => return Err(Fail(format!("unexpected message {m:?}"))),
                };
            }
            (out, 32)
        }
        Op::ServerX(strong) => {
            let v = if strong { Variant::Strong } else { Variant::Plain };
            let db = one_db(&c.user, v, c.other);
            let mut sv: Server<D, K> = Server::new(other);
            // x is what distinguishes two replies; the rest of the stream makes the public key
            let s = serve(&mut sv, v, &c.user, &db, &c.ci, tape)?;
            ([s.x, s.public].concat(), 64)
        }
        Op::ServerPub(v, known) => {
            let db = if known { one_db(&c.user, v, c.other) } else { Db::default() };
            let mut sv: Server<D, K> = Server::new(other);
            let s = serve(&mut sv, v, &c.user, &db, &c.ci, tape)?;
            // an ephemeral x (not for stored key pairs), the stand-in for unknown users' PRS
            // and the CPace secret
            let need = 32 * (1 + u64::from(!v.partial()) + u64::from(!known));
            // an unknown user's x appears in the reply only
            (if known { s.public } else { [s.x, s.public].concat() }, need)
        }
        Op::LongTerm => {
            let mut sv: Server<D, K> = Server::new(tape);
            let mut out = vec![];
            for _ in 0..=before {
                from = mark(&log);
                let (x, xp) = sv.generate_long_term_keypair();
                ensure_eq!(bp(&xp), bp(&(BASE * x)), "long-term public key");
                out = x.to_bytes().to_vec();
            }
            (out, 32)
        }
        Op::FakeSalt | Op::FakeBlindedSalt | Op::FakeKey(_) => {
            let v = match c.op {
                Op::FakeSalt => Variant::Plain,
                Op::FakeBlindedSalt => Variant::Strong,
                Op::FakeKey(s) if s => Variant::StrongPartial,
                _ => Variant::Partial,
            };
            let mut sv: Server<D, K> = Server::new(tape);
            let s = serve(&mut sv, v, &c.user, &Db::default(), &c.ci, other)?;
            (if matches!(c.op, Op::FakeKey(_)) { s.x } else { s.salt }, 8)
        }
    };
    let drawn = log.lock().unwrap()[from..].to_vec();
    Ok(Shot { out, drawn, need })
}

fn x01_stream(c: &Stream, o: &mut Obs) -> R {
    with_combo!(c.combo, D, K, x01_stream_g::<D, K>(c, o))
}
fn x01_stream_g<D: Dg, const K: usize>(c: &Stream, o: &mut Obs) -> R {
    let base = shot::<D, K>(c, vec![])?;
    let again = shot::<D, K>(c, vec![])?;
    ensure_eq!(hex(&base.out), hex(&again.out), "the same random stream gives different values");
    let total: u64 = base.drawn.iter().map(|d| d.1).sum();
    ensure!(
        total >= base.need,
        "{:?}: only {total} random bytes are drawn, {} needed",
        c.op,
        base.need
    );
    // no byte is used twice
    let mut seen = HashSet::new();
    for (p, l) in &base.drawn {
        for i in *p..p + l {
            ensure!(seen.insert(i), "{:?}: random byte {i} is used twice", c.op);
        }
    }
    let mut k = 0u32;
    for (p, l) in &base.drawn {
        for i in *p..p + (*l).min(32) {
            let r = (c.masks.rotate_left(k * 7) & 0x7f) as u8;
            let mask = if r == 0 { 1 << (k % 7) } else { r };
            k += 1;
            let s = shot::<D, K>(c, vec![(i, mask)])?;
            o.inner += 1;
            ensure!(
                s.out != base.out,
                "{:?}: changing byte {} of a {l}-byte draw (mask {mask:#04x}) changes nothing",
                c.op,
                i - p
            );
        }
    }
    o.label(format!("{:?}", c.op));
    o.nontrivial = true;
    Ok(())
}
fn stream() -> BoxedStrategy<Stream> {
    (
        (prop::sample::select(OPS), combo(), text(), text(), text()),
        (any::<u64>(), any::<u64>(), 0u8..4, any::<u64>()),
    )
        .prop_map(|((op, combo, user, pass, ci), (tape, other, before, masks))| Stream {
            op,
            combo,
            user,
            pass,
            ci,
            tape,
            other,
            before,
            masks,
        })
        .boxed()
}

/// Histories of randomised operations on shared objects: nothing repeats.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fresh {
    combo32: bool,
    tape: u64,
    user: B,
    pass: B,
    acts: Vec<u8>,
}
fn x01_fresh(c: &Fresh, o: &mut Obs) -> R {
    if c.combo32 {
        x01_fresh_g::<Alt, 32>(c, o)
    } else {
        x01_fresh_g::<sha2::Sha512, 16>(c, o)
    }
}
fn x01_fresh_g<D: Dg + 'static, const K: usize>(c: &Fresh, o: &mut Obs) -> R {
    // one generator shared by everybody, as a process-wide generator would be
    let shared = Shared(std::sync::Arc::new(std::sync::Mutex::new(Tape::new(&[], c.tape))));
    let mut cl: aucpace::AuCPaceClient<D, RecHasher, Shared, K> =
        aucpace::AuCPaceClient::new(shared.clone());
    let mut sv: aucpace::AuCPaceServer<D, Shared, K> = aucpace::AuCPaceServer::new(shared.clone());
    let mut seen: std::collections::HashMap<(u8, Vec<u8>), usize> = Default::default();
    let db_p = one_db(&c.user, Variant::Plain, 1);
    let db_s = one_db(&c.user, Variant::Strong, 1);
    let ssid = [3u8; 16];
    for (n, a) in c.acts.iter().enumerate() {
        let mut vals: Vec<(u8, Vec<u8>)> = vec![];
        match a % 13 {
            0 => {
                if let CMsg::Nonce(x) = cproj(&cl.begin().1) {
                    vals.push((0, x.0))
                }
            }
            1 => {
                // the same class: client and server nonces differ too
                if let SMsg::Nonce(x) = sproj(&sv.begin().1) {
                    vals.push((0, x.0))
                }
            }
            2 | 3 => {
                let r = if a % 13 == 2 {
                    cl.register_alloc(&c.user[..], &c.pass[..], HP::default(), RecHasher::default())
                } else {
                    cl.register::<_, 140_000>(&c.user[..], &c.pass[..], HP::default(), RecHasher::default())
                };
                let r = cproj(&r.map_err(|e| Fail(format!("registration: {e:?}")))?);
                if let CMsg::Registration { salt, verifier, .. } = r {
                    vals.push((1, salt.into_bytes()));
                    vals.push((9, verifier.0));
                }
            }
            4 | 5 => {
                let r = if a % 13 == 4 {
                    cl.register_alloc_strong(&c.user[..], &c.pass[..], HP::default(), RecHasher::default())
                } else {
                    cl.register_strong::<_, 140_000>(&c.user[..], &c.pass[..], HP::default(), RecHasher::default())
                };
                let r = cproj(&r.map_err(|e| Fail(format!("registration: {e:?}")))?);
                if let CMsg::StrongRegistration { q, verifier, .. } = r {
                    vals.push((2, q.0));
                    vals.push((9, verifier.0));
                }
            }
            6 => {
                let st = cl.begin_prestablished_ssid(ssid).map_err(|e| Fail(format!("{e:?}")))?;
                let mut r = shared.clone();
                let (st, m) = st.start_augmentation_strong(&c.user, &c.pass, &mut r);
                if let CMsg::StrongUsername(_, b) = cproj(&m) {
                    vals.push((9, b.0));
                }
                let st = st
                    .generate_cpace_alloc(point(1), point(2), HP::default(), RecHasher::default())
                    .map_err(|e| Fail(format!("{e:?}")))?;
                if let CMsg::PublicKey(p) = cproj(&st.generate_public_key("", &mut r).1) {
                    vals.push((9, p.0));
                }
            }
            7 => {
                let st = cl.begin_prestablished_ssid(ssid).map_err(|e| Fail(format!("{e:?}")))?;
                let mut r = shared.clone();
                let salt = b64(&[1; 16]);
                let st = st
                    .start_augmentation(&c.user, &c.pass)
                    .0
                    .generate_cpace_alloc(point(1), &salt, HP::default(), RecHasher::default())
                    .map_err(|e| Fail(format!("{e:?}")))?;
                if let CMsg::PublicKey(p) = cproj(&st.generate_public_key("", &mut r).1) {
                    vals.push((9, p.0));
                }
            }
            8 => {
                let (x, xp) = sv.generate_long_term_keypair();
                vals.push((2, x.to_bytes().to_vec()));
                vals.push((9, bp(&xp).0));
            }
            k => {
                let st = sv.begin_prestablished_ssid(ssid).map_err(|e| Fail(format!("{e:?}")))?;
                let r = shared.clone();
                let blinded = BASE * scalar(5);
                let (nx, m) = match k {
                    9 => st.generate_client_info(&c.user, &db_p, r),
                    10 => st.generate_client_info_partial_aug(&c.user, &db_p, r),
                    11 => st
                        .generate_client_info_strong(&c.user, blinded, &db_s, r)
                        .map_err(|e| Fail(format!("{e:?}")))?,
                    _ => st
                        .generate_client_info_partial_strong(&c.user, blinded, &db_s, r)
                        .map_err(|e| Fail(format!("{e:?}")))?,
                };
                if k == 9 || k == 11 {
                    match sproj(&m) {
                        SMsg::Info { x_pub, .. } | SMsg::StrongInfo { x_pub, .. } => {
                            vals.push((9, x_pub.0))
                        }
                        _ => {}
                    }
                }
                if let SMsg::PublicKey(p) = sproj(&nx.generate_public_key("").1) {
                    vals.push((9, p.0));
                }
            }
        }
        ensure!(!vals.is_empty(), "unexpected message in step {n}");
        for v in vals {
            if let Some(p) = seen.insert(v.clone(), n) {
                return Err(Fail(format!(
                    "step {n} (action {}) repeats the value {} of step {p} (action {})",
                    a % 13,
                    hex(&v.1),
                    c.acts[p] % 13
                )));
            }
        }
        o.inner += 1;
    }
    o.nontrivial = c.acts.len() > 1;
    Ok(())
}
/// A generator behind a mutex, shared between objects.
#[derive(Clone)]
pub struct Shared(std::sync::Arc<std::sync::Mutex<Tape>>);
impl rand_core::RngCore for Shared {
    fn next_u32(&mut self) -> u32 {
        self.0.lock().unwrap().next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.lock().unwrap().next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.lock().unwrap().fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Shared {}

/// The system generator: values never repeat.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OsRun {
    which: u8,
    n: u32,
}
fn x01_os(c: &OsRun, o: &mut Obs) -> R {
    type S = Spake2<Ed25519Group>;
    let mut seen = HashSet::new();
    let pw = Password::new(b"pw");
    let (ia, ib) = (Identity::new(b"a"), Identity::new(b"b"));
    let os = rand_core::OsRng;
    let mut cl = aucpace::Client::new(os);
    let mut sv = aucpace::Server::new(os);
    for i in 0..c.n {
        let v: Vec<u8> = match c.which {
            0 => S::start_a(&pw, &ia, &ib).1,
            1 => S::start_b(&pw, &ia, &ib).1,
            2 => S::start_symmetric(&pw, &ia).1,
            3 => match cproj(&cl.begin().1) {
                CMsg::Nonce(n) => n.0,
                m => return Err(Fail(format!("unexpected message {m:?}"))),
            },
            4 => match sproj(&sv.begin().1) {
                SMsg::Nonce(n) => n.0,
                m => return Err(Fail(format!("unexpected message {m:?}"))),
            },
            5 => sv.generate_long_term_keypair().0.to_bytes().to_vec(),
            6 => {
                // each process start has its own secret for the stand-in salts
                let mut s = aucpace::Server::new(os);
                let st = s.begin_prestablished_ssid([1u8; 16]).map_err(|e| Fail(format!("{e:?}")))?;
                match sproj(&st.generate_client_info(b"u", &Db::default(), os).1) {
                    SMsg::Info { salt, .. } => salt.into_bytes(),
                    m => return Err(Fail(format!("unexpected message {m:?}"))),
                }
            }
            _ => {
                let st = sv.begin_prestablished_ssid([1u8; 16]).map_err(|e| Fail(format!("{e:?}")))?;
                match sproj(&st.generate_client_info(b"u", &Db::default(), os).1) {
                    SMsg::Info { x_pub, .. } => x_pub.0,
                    m => return Err(Fail(format!("unexpected message {m:?}"))),
                }
            }
        };
        ensure!(seen.insert(v.clone()), "operation {} repeats {} at call {i}", c.which, hex(&v));
        o.inner += 1;
    }
    o.nontrivial = true;
    Ok(())
}
fn os_runs(t: Tier) -> Vec<OsRun> {
    let n = if t == Tier::Quick { 3_000 } else { 60_000 };
    (0..8).map(|which| OsRun { which, n }).collect()
}
pub fn x01_subs() -> Vec<Box<dyn Sub>> {
    vec![
        gen("stream", "one randomised operation, repeated with each random byte that matters changed; every case non-trivial", 6_000, 200_000, stream, x01_stream),
        gen("history", "randomised operations sharing one generator; non-trivial: at least two operations", 3_000, 60_000,
            || (any::<bool>(), any::<u64>(), text_upto(40), text_upto(40), vec(any::<u8>(), 2..40))
                .prop_map(|(combo32, tape, user, pass, acts)| Fresh { combo32, tape, user, pass, acts }).boxed(), x01_fresh),
        gen("long_history", "hundreds of randomised operations on one pair of objects; every case non-trivial", 8, 400,
            || (any::<bool>(), any::<u64>(), text_upto(40), text_upto(40), prop_oneof![3 => vec(any::<u8>(), 600..2500), 1 => (any::<u8>(), 600usize..2500).prop_map(|(a, n)| std::vec![a; n])])
                .prop_map(|(combo32, tape, user, pass, acts)| Fresh { combo32, tape, user, pass, acts }).boxed(), x01_fresh),
        all("system_rng", "thousands of calls of each constructor that uses the system generator", os_runs, x01_os),
    ]
}

// =================================================================== X02

/// A group element a peer may send.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pt {
    Zero,
    Base,
    MinusBase,
    Mul(u64),
    Any(u64),
}
impl Pt {
    fn get(self) -> RistrettoPoint {
        match self {
            Pt::Zero => RistrettoPoint::identity(),
            Pt::Base => BASE,
            Pt::MinusBase => -BASE,
            Pt::Mul(s) => BASE * scalar(s),
            Pt::Any(s) => point(s),
        }
    }
}
fn pt() -> BoxedStrategy<Pt> {
    prop_oneof![
        1 => Just(Pt::Zero),
        1 => Just(Pt::Base),
        1 => Just(Pt::MinusBase),
        2 => any::<u64>().prop_map(Pt::Mul),
        8 => any::<u64>().prop_map(Pt::Any),
    ]
    .boxed()
}
fn sc(k: u8, s: u64) -> Scalar {
    match k % 5 {
        0 => Scalar::ZERO,
        1 => Scalar::ONE,
        2 => -Scalar::ONE,
        _ => scalar(s),
    }
}
fn salt_text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => "[A-Za-z0-9+/.-]{4,64}",
        1 => "[A-Za-z0-9+/]{4,64}",
        1 => "[.-]{4,64}",
        1 => (vec(any::<u8>(), 3..48)).prop_map(|v| b64(&v).as_str().to_string()),
    ]
    .boxed()
}
fn params_text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        2 => hp_ok().prop_map(|h| h.text()),
        2 => "ln=[0-9]{1,2},r=[0-9]{1,2},p=[0-9]",
        1 => "(p|r|ln|m|t)=[0-9]{1,12}",
        2 => "[a-z0-9-]{1,8}=[A-Za-z0-9/+.-]{0,20}(,[a-z0-9-]{1,8}=[A-Za-z0-9/+.-]{0,8}){0,3}",
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HostileServer {
    combo: Combo,
    strong: bool,
    heap: bool,
    bufsiz: u32,
    pre: Option<B>,
    user: B,
    pass: B,
    ci: B,
    nonce: u64,
    hp: HMode,
    rng: Seed,
    x: Pt,
    salt: String,
    blinded_salt: Pt,
    params: String,
    y: Pt,
    implicit: bool,
    ta: B,
}
fn auth64(b: &[u8]) -> [u8; 64] {
    let mut a = [0; 64];
    for (x, y) in a.iter_mut().zip(b) {
        *x = *y;
    }
    a
}
fn x02_server(c: &HostileServer, o: &mut Obs) -> R {
    with_combo!(c.combo, D, K, {
        no_panic(|| hostile_server::<D, K>(c, o)).map_err(Fail)?
    })
}
fn hostile_server<D: Dg, const K: usize>(c: &HostileServer, o: &mut Obs) -> R {
    let mut cl: Client<D, RecHasher, K> = Client::new(c.rng.tape());
    let st = match &c.pre {
        Some(p) => match cl.begin_prestablished_ssid(p) {
            Ok(s) => s,
            Err(_) => return Ok(()),
        },
        None => {
            let mut n = [0; K];
            n.copy_from_slice(&fill(K, c.nonce));
            cl.begin().0.agree_ssid(n)
        }
    };
    o.nontrivial = true;
    let hp = HP { mode: c.hp.clone(), tag: 0 };
    let h = RecHasher::default();
    let mut rng = Tape::new(&[2], c.nonce);
    let n = c.bufsiz as usize;
    let r = if c.strong {
        let st = st.start_augmentation_strong(&c.user, &c.pass, &mut rng).0;
        let b = c.blinded_salt.get();
        if c.heap {
            st.generate_cpace_alloc(c.x.get(), b, hp, h)
        } else {
            with_buf!(n, N, st.generate_cpace::<N>(c.x.get(), b, hp, h))
        }
    } else {
        let st = st.start_augmentation(&c.user, &c.pass).0;
        let salt = SaltString::from_b64(&c.salt).map_err(|e| Fail(format!("HARNESS: salt {e}")))?;
        if c.heap {
            st.generate_cpace_alloc(c.x.get(), &salt, hp, h)
        } else {
            with_buf!(n, N, st.generate_cpace::<&SaltString, N>(c.x.get(), &salt, hp, h))
        }
    };
    let Ok(st) = r else {
        o.label("refused at the augmentation layer");
        return Ok(());
    };
    let st = st.generate_public_key(&c.ci, &mut rng).0;
    if c.implicit {
        o.label(if st.implicit_auth(c.y.get()).is_ok() { "implicit key" } else { "bad key refused" });
    } else {
        match st.receive_server_pubkey(c.y.get()) {
            Err(_) => o.label("bad key refused"),
            Ok((st, _)) => {
                let r = st.receive_server_authenticator(auth64(&c.ta));
                ensure!(r.is_err(), "an arbitrary authenticator is accepted");
                o.label("authenticator refused");
            }
        }
    }
    Ok(())
}
fn hmode() -> BoxedStrategy<HMode> {
    prop_oneof![
        4 => Just(HMode::Len(64)),
        2 => Just(HMode::Len(32)),
        2 => (10u8..65).prop_map(HMode::Len),
        1 => Just(HMode::NoHash),
        1 => any::<u8>().prop_map(HMode::Err),
        1 => (10u8..65, prop_oneof![Just(0u8), Just(255u8), any::<u8>()]).prop_map(|(n, v)| HMode::Fill(n, v)),
    ]
    .boxed()
}
fn any_ssid() -> BoxedStrategy<Option<B>> {
    prop::option::weighted(0.5, prop_oneof![4 => pre_ssid(), 1 => text()]).boxed()
}
fn hostile_server_case() -> BoxedStrategy<HostileServer> {
    (
        (combo(), any::<bool>(), any::<bool>(), prop::sample::select(&BUFS[..]), any_ssid()),
        (text_big(), text_big(), text_big(), any::<u64>(), hmode(), seed_special()),
        (pt(), salt_text(), pt(), params_text(), pt(), any::<bool>(), text()),
    )
        .prop_map(
            |((combo, strong, heap, bufsiz, pre), (user, pass, ci, nonce, hp, rng), (x, salt, blinded_salt, params, y, implicit, ta))| {
                HostileServer {
                    combo,
                    strong,
                    heap,
                    bufsiz: bufsiz as u32,
                    pre,
                    user,
                    pass,
                    ci,
                    nonce,
                    hp,
                    rng,
                    x,
                    salt,
                    blinded_salt,
                    params,
                    y,
                    implicit,
                    ta,
                }
            },
        )
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HostileClient {
    combo: Combo,
    variant: Variant,
    pre: Option<B>,
    nonce: u64,
    user: B,
    /// what the user's own registration message made the server store (None: unknown)
    stored: Option<(Pt, u8, String, String)>,
    key: bool,
    blinded: Pt,
    ci: B,
    y: Pt,
    implicit: bool,
    tb: B,
    rng: Seed,
    srv: Seed,
    long: bool,
}
fn x02_client(c: &HostileClient, o: &mut Obs) -> R {
    with_combo!(c.combo, D, K, {
        no_panic(|| hostile_client::<D, K>(c, o)).map_err(Fail)?
    })
}
fn hostile_client<D: Dg, const K: usize>(c: &HostileClient, o: &mut Obs) -> R {
    let mut sv: Server<D, K> = Server::new(c.srv.tape());
    let user = if c.long { fill(70_000, c.nonce) } else { c.user.0.clone() };
    let mut db = Db::default();
    if let Some((v, q, s, p)) = &c.stored {
        let bad = |e| Fail(format!("HARNESS: {e}"));
        let params: ParamsString = p.parse().map_err(bad)?;
        if c.variant.strong() {
            db.store_verifier_strong(&user, None, v.get(), sc(*q, c.nonce), params);
        } else {
            let salt = SaltString::from_b64(s).map_err(bad)?;
            db.store_verifier(&user, salt, None, v.get(), params);
        }
        if c.key {
            let (x, xp) = sv.generate_long_term_keypair();
            db.store_long_term_keypair(&user, x, xp).map_err(|e| Fail(format!("HARNESS: {e:?}")))?;
        }
    }
    let st = match &c.pre {
        Some(p) => match sv.begin_prestablished_ssid(p) {
            Ok(s) => s,
            Err(_) => return Ok(()),
        },
        None => {
            let mut n = [0; K];
            n.copy_from_slice(&fill(K, c.nonce));
            sv.begin().0.agree_ssid(n)
        }
    };
    o.nontrivial = true;
    let rng = c.rng.tape();
    let b = c.blinded.get();
    let r = match c.variant {
        Variant::Plain => Ok(st.generate_client_info(&user, &db, rng)),
        Variant::Partial => Ok(st.generate_client_info_partial_aug(&user, &db, rng)),
        Variant::Strong => st.generate_client_info_strong(&user, b, &db, rng),
        Variant::StrongPartial => st.generate_client_info_partial_strong(&user, b, &db, rng),
    };
    let Ok((st, m)) = r else {
        o.label("refused at the augmentation layer");
        return Ok(());
    };
    let _ = format!("{m:?}");
    let _ = ser(Wire::Bincode, &m)?;
    let (st, _) = st.generate_public_key(&c.ci);
    if c.implicit {
        o.label(if st.implicit_auth(c.y.get()).is_ok() { "implicit key" } else { "bad key refused" });
    } else {
        match st.receive_client_pubkey(c.y.get()) {
            Err(_) => o.label("bad key refused"),
            Ok(st) => {
                let r = st.receive_client_authenticator(auth64(&c.tb));
                ensure!(r.is_err(), "an arbitrary authenticator is accepted");
                o.label("authenticator refused");
            }
        }
    }
    Ok(())
}
fn hostile_client_case() -> BoxedStrategy<HostileClient> {
    (
        (combo(), variant(), any_ssid(), any::<u64>(), text_big(), any::<bool>()),
        (
            prop::option::weighted(0.6, (pt(), any::<u8>(), salt_text(), params_text())),
            prop::bool::weighted(0.7),
            pt(),
            text(),
            pt(),
            any::<bool>(),
            text(),
        ),
        (seed_special(), seed_special(), prop::bool::weighted(0.01)),
    )
        .prop_map(
            |((combo, variant, pre, nonce, user, _), (stored, key, blinded, ci, y, implicit, tb), (rng, srv, long))| {
                HostileClient {
                    combo,
                    variant,
                    pre,
                    nonce,
                    user,
                    stored,
                    key,
                    blinded,
                    ci,
                    y,
                    implicit,
                    tb,
                    rng,
                    srv,
                    long,
                }
            },
        )
        .boxed()
}

/// scrypt with whatever parameters and salts a server may send
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HostileScrypt {
    strong: bool,
    heap: bool,
    x: Pt,
    salt: String,
    blinded: Pt,
    ln: u8,
    r: u8,
    p: u8,
    len: u8,
    pass: B,
}
fn x02_scrypt(c: &HostileScrypt, o: &mut Obs) -> R {
    let Ok(params) = scrypt::Params::new(c.ln % 6, 1 + u32::from(c.r % 9), 1 + u32::from(c.p % 3), c.len as usize)
    else {
        o.label("scrypt refuses the parameters");
        return Ok(());
    };
    o.nontrivial = true;
    let r = no_panic(|| -> Result<bool, Fail> {
        let mut cl: Client<sha2::Sha512, scrypt::Scrypt, 16> = Client::new(Tape::new(&[], 1));
        let mut rng = Tape::new(&[], 2);
        let st = cl.begin_prestablished_ssid([0u8; 16]).map_err(|e| Fail(format!("HARNESS: {e:?}")))?;
        let r = if c.strong {
            let st = st.start_augmentation_strong(b"user", &c.pass, &mut rng).0;
            if c.heap {
                st.generate_cpace_alloc(c.x.get(), c.blinded.get(), params, scrypt::Scrypt)
            } else {
                st.generate_cpace::<140_000>(c.x.get(), c.blinded.get(), params, scrypt::Scrypt)
            }
        } else {
            let salt = SaltString::from_b64(&c.salt).map_err(|e| Fail(format!("HARNESS: {e}")))?;
            let st = st.start_augmentation(b"user", &c.pass).0;
            if c.heap {
                st.generate_cpace_alloc(c.x.get(), &salt, params, scrypt::Scrypt)
            } else {
                st.generate_cpace::<&SaltString, 140_000>(c.x.get(), &salt, params, scrypt::Scrypt)
            }
        };
        let Ok(st) = r else { return Ok(false) };
        let _ = st.generate_public_key("", &mut rng);
        Ok(true)
    })
    .map_err(Fail)??;
    o.label(if r { "hashed" } else { "refused" });
    Ok(())
}
fn hostile_scrypt_case() -> BoxedStrategy<HostileScrypt> {
    (
        (any::<bool>(), any::<bool>(), pt(), salt_text(), pt()),
        (any::<u8>(), any::<u8>(), any::<u8>(), prop_oneof![3 => Just(32u8), 3 => Just(64u8), 1 => 10u8..65], text_big()),
    )
        .prop_map(|((strong, heap, x, salt, blinded), (ln, r, p, len, pass))| HostileScrypt {
            strong,
            heap,
            x,
            salt,
            blinded,
            ln,
            r,
            p,
            len,
            pass,
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HostileSpake {
    role: Role,
    pw: B,
    ida: B,
    idb: B,
    seed: Seed,
    msgs: Vec<(u8, Body, Option<u8>)>,
    raw: B,
}
fn x02_spake(c: &HostileSpake, o: &mut Obs) -> R {
    let own = no_panic(|| start::<Ed25519Group>(c.role, &c.pw, &c.ida, &c.idb, c.seed.tape()).1)
        .map_err(|p| Fail(format!("starting SPAKE2 panics: {p}")))?;
    let mut list = vec![c.raw.0.clone()];
    for (first, body, len) in &c.msgs {
        let mut m = vec![*first];
        m.extend(body_at(body, c.role, &c.pw, Some(&own)));
        if let Some(l) = len {
            m.resize(*l as usize, 0x5a);
        }
        list.push(m);
    }
    for m in list {
        let s = no_panic(|| {
            let (s, _) = start::<Ed25519Group>(c.role, &c.pw, &c.ida, &c.idb, c.seed.tape());
            let _ = format!("{s:?}");
            s.finish(&m)
        })
        .map_err(|p| Fail(format!("message {} makes SPAKE2 panic: {p}", hex(&m))))?;
        o.label(match s {
            Ok(_) => "key".to_string(),
            Err(e) => format!("{e:?}"),
        });
        o.inner += 1;
    }
    o.nontrivial = true;
    Ok(())
}
fn hostile_spake_case() -> BoxedStrategy<HostileSpake> {
    let first = prop_oneof![3 => Just(0x41u8), 3 => Just(0x42), 3 => Just(0x53), 1 => any::<u8>()];
    let len = prop_oneof![4 => Just(None), 1 => (0u8..80).prop_map(Some)];
    (
        (role(), text_big(), text_big(), text_big(), seed_special()),
        vec((first, rx_body(), len), 1..4),
        vec(any::<u8>(), 0..80),
    )
        .prop_map(|((role, pw, ida, idb, seed), msgs, raw)| HostileSpake {
            role,
            pw,
            ida,
            idb,
            seed,
            msgs,
            raw: B(raw),
        })
        .boxed()
}

/// a number a peer sends: raw bytes, or a value related to the group
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Num {
    Raw(B),
    Multiple(u8, i8),
    Zeros(u16),
    Ff(u16),
}
impl Num {
    fn bytes(&self, g: G) -> Vec<u8> {
        use num_bigint::BigInt;
        match self {
            Num::Raw(b) => b.0.clone(),
            Num::Multiple(k, d) => {
                let n: BigInt = group(g).n.clone().into();
                let v = n * *k + *d as i64;
                v.to_bytes_be().1
            }
            Num::Zeros(n) => vec![0; *n as usize],
            Num::Ff(n) => vec![0xff; *n as usize],
        }
    }
}
fn number() -> BoxedStrategy<Num> {
    prop_oneof![
        4 => secret().prop_map(Num::Raw),
        2 => text().prop_map(Num::Raw),
        3 => (0u8..4, -3i8..4).prop_map(|(k, d)| Num::Multiple(k, d)),
        1 => (0u16..300).prop_map(Num::Zeros),
        1 => (0u16..1100).prop_map(Num::Ff),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HostileSrp {
    g: G,
    d: Dig,
    secret: B,
    user: B,
    pass: B,
    salt: B,
    /// stored verifier, supplied at registration
    v: Num,
    peer: Num,
    proof: B,
}
fn x02_srp(c: &HostileSrp, o: &mut Obs) -> R {
    with_digest!(c.d, D, no_panic(|| hostile_srp::<D>(c, o)).map_err(Fail)?)
}
fn hostile_srp<D: digest::Digest>(c: &HostileSrp, o: &mut Obs) -> R {
    let g = group(c.g);
    let peer = c.peer.bytes(c.g);
    let v = c.v.bytes(c.g);
    let cl = srp::client::SrpClient::<D>::new(g);
    let sv = srp::server::SrpServer::<D>::new(g);
    o.nontrivial = true;
    match cl.process_reply(&c.secret, &c.user, &c.pass, &c.salt, &peer) {
        Err(e) => {
            let _ = format!("{e} {e:?}");
            o.label("client refuses B")
        }
        Ok(ver) => {
            let _ = (ver.key().len(), ver.proof().len());
            let _ = ver.verify_server(&c.proof);
            let mut p = ver.proof().to_vec();
            p.extend_from_slice(&c.proof);
            let _ = ver.verify_server(&p);
            o.label("client continues")
        }
    }
    let _ = sv.compute_public_ephemeral(&c.secret, &v);
    match sv.process_reply(&c.secret, &v, &peer) {
        Err(e) => {
            let _ = format!("{e} {e:?}");
            o.label("server refuses A")
        }
        Ok(ver) => {
            let _ = (ver.key().len(), ver.proof().len());
            let _ = ver.verify_client(&c.proof);
            let mut p = ver.proof().to_vec();
            p.extend_from_slice(&c.proof);
            let _ = ver.verify_client(&p);
            o.label("server continues")
        }
    }
    Ok(())
}
fn hostile_srp_case() -> BoxedStrategy<HostileSrp> {
    (
        (srpm::g_any(), srpm::dig_any(), secret(), text_big(), text_big(), text_big()),
        (number(), number(), prop_oneof![text(), vec(any::<u8>(), 0..70).prop_map(B)]),
    )
        .prop_map(|((g, d, secret, user, pass, salt), (v, peer, proof))| HostileSrp {
            g,
            d,
            secret,
            user,
            pass,
            salt,
            v,
            peer,
            proof,
        })
        .boxed()
}

/// serialised messages
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wired {
    raw: B,
    json: String,
}
fn x02_wire(c: &Wired, o: &mut Obs) -> R {
    fn both<const K: usize>(b: &[u8], json: &str) -> R {
        let _ = bincode::deserialize::<aucpace::ClientMessage<'_, K>>(b).map(|m| cproj(&m));
        let _ = bincode::deserialize::<aucpace::ServerMessage<'_, K>>(b).map(|m| sproj(&m));
        let _ = postcard::from_bytes::<aucpace::ClientMessage<'_, K>>(b).map(|m| cproj(&m));
        let _ = postcard::from_bytes::<aucpace::ServerMessage<'_, K>>(b).map(|m| sproj(&m));
        let _ = serde_json::from_str::<aucpace::ClientMessage<'_, K>>(json).map(|m| cproj(&m));
        let _ = serde_json::from_str::<aucpace::ServerMessage<'_, K>>(json).map(|m| sproj(&m));
        Ok(())
    }
    no_panic(|| {
        both::<16>(&c.raw, &c.json)?;
        both::<1>(&c.raw, &c.json)?;
        both::<32>(&c.raw, &c.json)
    })
    .map_err(Fail)??;
    o.inner += 18;
    o.nontrivial = !c.raw.is_empty();
    Ok(())
}
fn wired() -> BoxedStrategy<Wired> {
    let raw = prop_oneof![
        2 => vec(any::<u8>(), 0..120),
        // bincode: tag (4 bytes), then lengths (8 bytes) and contents
        2 => (0u8..8, vec((prop_oneof![4 => 0u64..70, 1 => any::<u64>()], vec(any::<u8>(), 0..70)), 0..4)).prop_map(|(t, fs)| {
            let mut v = vec![t, 0, 0, 0];
            for (n, b) in fs {
                v.extend(n.to_le_bytes());
                v.extend(b);
            }
            v
        }),
        // postcard: tag, then short lengths and contents
        2 => (0u8..8, vec((any::<u8>(), vec(any::<u8>(), 0..70)), 0..4)).prop_map(|(t, fs)| {
            let mut v = vec![t];
            for (n, b) in fs {
                v.push(n);
                v.extend(b);
            }
            v
        }),
        // consistent lengths
        2 => (0u8..8, any::<bool>(), vec(vec(any::<u8>(), 0..70), 0..5)).prop_map(|(t, post, fs)| {
            let mut v = if post { vec![t] } else { vec![t, 0, 0, 0] };
            for b in fs {
                if post { v.push(b.len() as u8) } else { v.extend((b.len() as u64).to_le_bytes()) }
                v.extend(b);
            }
            v
        }),
    ]
    .prop_map(B);
    let name = prop::sample::select(
        &["Nonce", "Username", "StrongUsername", "PublicKey", "Authenticator", "Registration",
          "StrongRegistration", "AugmentationInfo", "StrongAugmentationInfo"][..],
    );
    let val = prop_oneof![
        2 => vec(any::<u8>(), 0..70).prop_map(|v| format!("{v:?}")),
        1 => salt_text().prop_map(|s| format!("{s:?}")),
        1 => params_text().prop_map(|s| format!("{s:?}")),
        1 => any::<i64>().prop_map(|n| n.to_string()),
        1 => "[ -~]{0,20}".prop_map(|s| format!("{s:?}")),
        1 => Just("null".to_string()),
    ];
    let fields = &["username", "blinded", "salt", "params", "verifier", "secret_exponent", "group", "x_pub",
        "pbkdf_params", "blinded_salt"];
    let json = (name, vec((prop::sample::select(&fields[..]), val.clone()), 0..6), val).prop_map(|(n, fs, v)| {
        if fs.is_empty() {
            format!("{{\"{n}\":{v}}}")
        } else {
            let f: Vec<String> = fs.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
            format!("{{\"{n}\":{{{}}}}}", f.join(","))
        }
    });
    (raw, json).prop_map(|(raw, json)| Wired { raw, json }).boxed()
}

pub fn x02_subs() -> Vec<Box<dyn Sub>> {
    vec![
        gen("srp", "arbitrary peer values into both SRP roles; every case non-trivial", 24_000, 600_000, hostile_srp_case, x02_srp),
        gen("spake2", "arbitrary and structured messages into SPAKE2 sessions; every case non-trivial", 16_000, 600_000, hostile_spake_case, x02_spake),
        gen("aucpace_client", "arbitrary server values at every step of an AuCPace client; non-trivial: past the SSID", 20_000, 800_000, hostile_server_case, x02_server),
        gen("aucpace_server", "arbitrary client values and stored registrations at every step of an AuCPace server; non-trivial: past the SSID", 20_000, 800_000, hostile_client_case, x02_client),
        gen("aucpace_scrypt", "arbitrary salts and parameters into the scrypt hasher; non-trivial: scrypt accepts the parameters", 2_400, 60_000, hostile_scrypt_case, x02_scrypt),
        gen("wire", "arbitrary and structured bytes and JSON as serialised messages; non-trivial: not empty", 100_000, 4_000_000, wired, x02_wire),
    ]
}

// =================================================================== X03

/// `n` cases of every operation, derived from `seed`, in every feature set.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Features {
    seed: u64,
    n: u16,
}
fn probe_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(std::path::PathBuf::from)
        .unwrap_or_else(|| ".".into())
        .join("target/probe-bin")
}
fn probe(set: &str, args: &[String]) -> Result<Vec<String>, Fail> {
    let out = std::process::Command::new(probe_dir().join(set))
        .args(args)
        .output()
        .map_err(|e| Fail(format!("HARNESS: probe {set}: {e}")))?;
    if !out.status.success() {
        return Err(Fail(format!("HARNESS: probe {set} fails: {}", out.status)));
    }
    Ok(String::from_utf8_lossy(&out.stdout).lines().map(str::to_string).collect())
}
fn x03_features(c: &Features, o: &mut Obs) -> R {
    let mut sets: Vec<String> = std::fs::read_dir(probe_dir())
        .map_err(|e| Fail(format!("HARNESS: {e}")))?
        .filter_map(|e| e.ok()?.file_name().into_string().ok())
        .filter(|n| !n.starts_with('.') && n != "all")
        .collect();
    sets.sort();
    ensure!(sets.len() > 15, "HARNESS: probes are missing");
    let parse = |lines: Vec<String>| -> std::collections::BTreeMap<(String, u32), String> {
        lines
            .iter()
            .filter_map(|l| {
                let mut f = l.split(' ');
                Some(((f.next()?.to_string(), f.next()?.parse().ok()?), f.next()?.to_string()))
            })
            .collect()
    };
    let args = [c.seed.to_string(), c.n.to_string()];
    let full = parse(probe("all", &args)?);
    for s in &sets {
        let got = parse(probe(s, &args)?);
        ensure!(!got.is_empty(), "HARNESS: probe {s} prints nothing");
        for ((op, i), d) in &got {
            let Some(want) = full.get(&(op.clone(), *i)) else {
                return Err(Fail(format!("HARNESS: operation {op} of {s} is unknown")));
            };
            o.inner += 1;
            if d != want {
                let detail = [c.seed.to_string(), c.n.to_string(), op.trim_end_matches("-serde").to_string(), i.to_string()];
                let (a, b) = (probe("all", &detail)?, probe(s, &detail)?);
                let k = (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k)).unwrap_or(0);
                return Err(Fail(format!(
                    "operation {op}, case {i}: feature set {s} differs from all features at line {k}: {:?} instead of {:?}",
                    b.get(k),
                    a.get(k)
                )));
            }
        }
        o.label(s.clone());
    }
    o.nontrivial = c.n > 0;
    Ok(())
}
pub fn x03_subs() -> Vec<Box<dyn Sub>> {
    vec![gen(
        "features",
        "every operation (honest, unknown users, neutral points, bad authenticators, bad messages) with generated inputs in 24 feature sets, each compared with the all-features build; non-trivial: at least one case per operation",
        96,
        3_000,
        || (any::<u64>(), 10u16..40).prop_map(|(seed, n)| Features { seed, n }).boxed(),
        x03_features,
    )]
}
