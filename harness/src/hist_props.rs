//! X05: what a session computes does not depend on what ran before it, next to it or at the same
//! time.

use crate::aucm::{register, world, Client, Db, Dg, RecHasher, Sess, Server, Side, World};
use crate::auc_props::{a09_judge, a09_model, a11_history, history};
use crate::fw::*;
use crate::spake_props::start;
use crate::spakem::{Peer, Role};
use crate::srpm::*;
use crate::util::*;
use crate::{ensure, ensure_eq, with_combo, with_digest};
use aucpace::PartialAugDatabase as _;
use curve25519_dalek::scalar::Scalar;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use spake2::{Ed25519Group, Spake2};
use srp::client::{SrpClient, SrpClientVerifier};
use srp::server::{SrpServer, SrpServerVerifier};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// Values of one run of a case: few enough to recur within the history, and (unless `common`) never
/// seen before in this process, so that the history alone explains what happens.
static RUN: AtomicU64 = AtomicU64::new(1);
#[derive(Clone, Copy)]
struct Pool {
    run: u64,
    shape: u8,
}
impl Pool {
    fn new(shape: u8) -> Pool {
        Pool { run: if shape % 4 == 3 { 0 } else { RUN.fetch_add(1, Ordering::Relaxed) }, shape }
    }
    /// the i-th of the texts of one kind; they differ at the start, at the end or in length
    fn text(&self, kind: &str, i: u8) -> Vec<u8> {
        let r = format!("{kind}{:x}", self.run);
        match self.shape % 3 {
            0 => format!("{r}-{i}").into_bytes(),
            1 => format!("{i}-{r}").into_bytes(),
            _ => [r.as_bytes(), &vec![b'x'; i as usize]].concat(),
        }
    }
    fn bytes(&self, kind: u8, i: u8, n: usize) -> Vec<u8> {
        fill(n, self.run << 16 | u64::from(kind) << 8 | u64::from(i))
    }
}

fn on_threads<T: Send>(n: usize, f: impl Fn(usize) -> Result<T, Fail> + Sync) -> Result<Vec<T>, Fail> {
    if n <= 1 {
        return Ok(vec![f(0)?]);
    }
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let f = &f;
                s.spawn(move || no_panic(|| f(i)).unwrap_or_else(|p| Err(Fail(format!("panic: {p}")))))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail("a thread panicked".into())))).collect()
    })
}

// ------------------------------------------------------------------------------------------- SRP

/// the finished half of a session
trait Half {
    fn key(&self) -> Vec<u8>;
    fn proof(&self) -> Vec<u8>;
    fn accepts(&self, proof: &[u8]) -> bool;
}
impl<D: digest::Digest> Half for SrpClientVerifier<D> {
    fn key(&self) -> Vec<u8> {
        SrpClientVerifier::key(self).to_vec()
    }
    fn proof(&self) -> Vec<u8> {
        SrpClientVerifier::proof(self).to_vec()
    }
    fn accepts(&self, p: &[u8]) -> bool {
        self.verify_server(p).is_ok()
    }
}
impl<D: digest::Digest> Half for SrpServerVerifier<D> {
    fn key(&self) -> Vec<u8> {
        SrpServerVerifier::key(self).to_vec()
    }
    fn proof(&self) -> Vec<u8> {
        SrpServerVerifier::proof(self).to_vec()
    }
    fn accepts(&self, p: &[u8]) -> bool {
        self.verify_client(p).is_ok()
    }
}
/// a half and what the model says it holds: key, own proof, proof it accepts
struct Held {
    half: Box<dyn Half>,
    key: Vec<u8>,
    proof: Vec<u8>,
    takes: Vec<u8>,
    what: String,
}
impl Held {
    fn check(&self, others: &[Held]) -> Result<u64, Fail> {
        ensure_eq!(hex(&self.half.key()), hex(&self.key), "key of {}", self.what);
        ensure_eq!(hex(&self.half.proof()), hex(&self.proof), "proof of {}", self.what);
        ensure!(self.half.accepts(&self.takes), "{} refuses its peer's proof", self.what);
        for o in others {
            for p in [&o.takes, &o.proof] {
                ensure_eq!(self.half.accepts(p), *p == self.takes, "verdict of {} on a proof from {}", self.what, o.what);
            }
        }
        Ok(1 + others.len() as u64)
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Cred(u8, u8, u8);
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    Verifier(u8, Cred),
    APub(u8, u8),
    BPub(u8, u8, Cred),
    /// object, a, credentials, b and the credentials the server has
    Client(u8, u8, Cred, u8, Cred),
    /// object, b, credentials, a and the credentials the client has
    Server(u8, u8, Cred, u8, Cred),
    /// compare a session with the model again, with proofs of the others
    Recheck(u8),
    /// a session given up
    Forget(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SHist {
    groups: [G; 2],
    digs: [Dig; 2],
    shape: u8,
    threads: u8,
    ops: Vec<SOp>,
}
/// one SRP client and server object with its model
trait Obj {
    fn verifier(&self, c: &[Vec<u8>; 3]) -> R;
    fn a_pub(&self, a: &[u8]) -> R;
    fn b_pub(&self, b: &[u8], c: &[Vec<u8>; 3]) -> R;
    fn client(&self, a: &[u8], c: &[Vec<u8>; 3], b: &[u8], c2: &[Vec<u8>; 3]) -> Result<Held, Fail>;
    fn server(&self, b: &[u8], c: &[Vec<u8>; 3], a: &[u8], c2: &[Vec<u8>; 3]) -> Result<Held, Fail>;
}
struct Pair<D: digest::Digest> {
    m: Model,
    cl: SrpClient<'static, D>,
    sr: SrpServer<'static, D>,
}
impl<D: digest::Digest> Pair<D> {
    fn v(&self, c: &[Vec<u8>; 3]) -> num_bigint::BigUint {
        self.m.v(&self.m.x::<D>(&c[0], &c[1], &c[2]))
    }
}
impl<D: digest::Digest + 'static> Obj for Pair<D> {
    fn verifier(&self, c: &[Vec<u8>; 3]) -> R {
        ensure_eq!(hex(&self.cl.compute_verifier(&c[0], &c[1], &c[2])), hex(&mb(&self.v(c))), "verifier");
        Ok(())
    }
    fn a_pub(&self, a: &[u8]) -> R {
        ensure_eq!(hex(&self.cl.compute_public_ephemeral(a)), hex(&mb(&self.m.a_pub(&num(a)))), "A");
        Ok(())
    }
    fn b_pub(&self, b: &[u8], c: &[Vec<u8>; 3]) -> R {
        let v = self.v(c);
        ensure_eq!(hex(&self.sr.compute_public_ephemeral(b, &mb(&v))), hex(&mb(&self.m.b_pub::<D>(&num(b), &v))), "B");
        Ok(())
    }
    fn client(&self, a: &[u8], c: &[Vec<u8>; 3], b: &[u8], c2: &[Vec<u8>; 3]) -> Result<Held, Fail> {
        let m = &self.m;
        let x = m.x::<D>(&c[0], &c[1], &c[2]);
        let ap = m.a_pub(&num(a));
        let bp = m.b_pub::<D>(&num(b), &self.v(c2));
        let s = m.s_client(&bp, &m.k::<D>(), &x, &num(a), &m.u::<D>(&ap, &bp));
        let m1 = m.m1::<D>(&ap, &bp, &s);
        let half = self.cl.process_reply(a, &c[0], &c[1], &c[2], &mb(&bp)).map_err(|e| Fail(format!("client refused B: {e:?}")))?;
        Ok(Held { half: Box::new(half), key: mb(&s), takes: m.m2::<D>(&ap, &m1, &s), proof: m1, what: "a client".into() })
    }
    fn server(&self, b: &[u8], c: &[Vec<u8>; 3], a: &[u8], c2: &[Vec<u8>; 3]) -> Result<Held, Fail> {
        let m = &self.m;
        let _ = c2;
        let v = self.v(c);
        let (ap, bp) = (m.a_pub(&num(a)), m.b_pub::<D>(&num(b), &v));
        let s = m.s_server(&ap, &v, &m.u::<D>(&ap, &bp), &num(b));
        let m1 = m.m1::<D>(&ap, &bp, &s);
        let half = self.sr.process_reply(b, &mb(&v), &mb(&ap)).map_err(|e| Fail(format!("server refused A: {e:?}")))?;
        Ok(Held { half: Box::new(half), key: mb(&s), proof: m.m2::<D>(&ap, &m1, &s), takes: m1, what: "a server".into() })
    }
}
fn x05_srp(h: &SHist, o: &mut Obs) -> R {
    let pool = Pool::new(h.shape);
    let n = h.threads.clamp(1, 4) as usize;
    let cred = |c: &Cred| [pool.text("user", c.0 % 3), pool.text("pass", c.1 % 3), pool.bytes(1, c.2 % 3, 16)];
    let sec = |kind: u8, i: u8| pool.bytes(kind, i % 3, 32);
    let inner = on_threads(n, |t| {
        // all sessions of a thread share four pairs of objects
        let mut objs: Vec<Box<dyn Obj>> = vec![];
        for g in h.groups {
            for d in h.digs {
                with_digest!(d, D, {
                    let p = group(g);
                    objs.push(Box::new(Pair::<D> { m: Model::of(g), cl: SrpClient::new(p), sr: SrpServer::new(p) }));
                });
            }
        }
        let mut held: Vec<Held> = vec![];
        let mut inner = 0;
        // every thread runs the whole history from its own starting point
        for k in 0..h.ops.len() {
            let at = (k + t * h.ops.len() / n) % h.ops.len();
            let say = |f: Fail| Fail(format!("step {at} (thread {t}, {:?}): {}", h.ops[at], f.0));
            let obj = |i: u8| &objs[i as usize % objs.len()];
            match &h.ops[at] {
                SOp::Verifier(i, c) => obj(*i).verifier(&cred(c)).map_err(say)?,
                SOp::APub(i, a) => obj(*i).a_pub(&sec(2, *a)).map_err(say)?,
                SOp::BPub(i, b, c) => obj(*i).b_pub(&sec(3, *b), &cred(c)).map_err(say)?,
                SOp::Client(i, a, c, b, c2) => {
                    let mut s = obj(*i).client(&sec(2, *a), &cred(c), &sec(3, *b), &cred(c2)).map_err(say)?;
                    s.what = format!("the client of step {at}");
                    inner += s.check(&[]).map_err(say)?;
                    held.push(s);
                }
                SOp::Server(i, b, c, a, c2) => {
                    let mut s = obj(*i).server(&sec(3, *b), &cred(c), &sec(2, *a), &cred(c2)).map_err(say)?;
                    s.what = format!("the server of step {at}");
                    inner += s.check(&[]).map_err(say)?;
                    held.push(s);
                }
                SOp::Recheck(i) if !held.is_empty() => inner += held[*i as usize % held.len()].check(&held).map_err(say)?,
                SOp::Forget(i) if !held.is_empty() => {
                    held.swap_remove(*i as usize % held.len());
                }
                _ => {}
            }
            inner += 1;
        }
        for s in held.iter().rev() {
            inner += s.check(&held)?;
        }
        Ok(inner)
    })?;
    o.inner += inner.iter().sum::<u64>();
    let halves = h.ops.iter().filter(|x| matches!(x, SOp::Client(..) | SOp::Server(..))).count();
    o.nontrivial = halves >= 2;
    o.label(format!("{n} threads"));
    o.label_if(halves >= 2, "several sessions");
    Ok(())
}
fn cred() -> BoxedStrategy<Cred> {
    (0u8..3, 0u8..3, 0u8..2).prop_map(|(a, b, c)| Cred(a, b, c)).boxed()
}
fn s_hist() -> BoxedStrategy<SHist> {
    let g = || {
        prop_oneof![
            20 => (MID_CRYPTO..MID.len() as u8).prop_map(G::Mid),
            10 => (MID_CRYPTO..MID.len() as u8, any::<u8>()).prop_map(|(i, k)| G::Gen(i, k)),
            1 => Just(G::Rfc(1024))
        ]
    };
    // two groups of one size, or that share the prime
    let two = prop_oneof![
        2 => [g(), g()],
        1 => (prop::sample::select(&[[14u8, 20], [14, 21], [20, 24], [24, 25], [18, 22], [18, 23], [17, 19]][..]), any::<bool>())
            .prop_map(|([a, b], f)| if f { [G::Mid(a), G::Mid(b)] } else { [G::Mid(b), G::Mid(a)] }),
        1 => (MID_CRYPTO..MID.len() as u8, any::<[u8; 2]>()).prop_map(|(i, k)| [G::Gen(i, k[0]), G::Gen(i, k[1])]),
    ];
    let op = prop_oneof![
        1 => (0u8..4, cred()).prop_map(|(a, b)| SOp::Verifier(a, b)),
        1 => (0u8..4, 0u8..3).prop_map(|(a, b)| SOp::APub(a, b)),
        1 => (0u8..4, 0u8..3, cred()).prop_map(|(a, b, c)| SOp::BPub(a, b, c)),
        4 => (0u8..4, 0u8..3, cred(), 0u8..3, cred()).prop_map(|(a, b, c, d, e)| SOp::Client(a, b, c, d, e)),
        4 => (0u8..4, 0u8..3, cred(), 0u8..3, cred()).prop_map(|(a, b, c, d, e)| SOp::Server(a, b, c, d, e)),
        2 => any::<u8>().prop_map(SOp::Recheck),
        1 => any::<u8>().prop_map(SOp::Forget),
    ];
    (two, [dig_real(), dig_real()], any::<u8>(), prop_oneof![3 => Just(1u8), 1 => 2u8..5], vec(op, 2..14))
        .prop_map(|(groups, digs, shape, threads, ops)| SHist { groups, digs, shape, threads, ops })
        .boxed()
}

// ----------------------------------------------------------------------------------------- SPAKE2

#[derive(Clone, Debug, Serialize, Deserialize)]
enum KOp {
    /// role, password, identities, tape, the peer's scalar
    Start(Role, u8, u8, u8, u8, u8),
    /// finish a session with its peer's message
    Finish(u8),
    /// finish a session with another session's message, or with junk
    Cross(u8, u8),
    Debug(u8),
    Forget(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KHist {
    shape: u8,
    threads: u8,
    ops: Vec<KOp>,
}
struct KHeld {
    s: Spake2<Ed25519Group>,
    msg: Vec<u8>,
    peer: Peer,
    id: [u8; 6],
}
fn x05_spake(h: &KHist, o: &mut Obs) -> R {
    let pool = Pool::new(h.shape);
    let n = h.threads.clamp(1, 4) as usize;
    // what an operation gave the first time, over all threads
    let first: Mutex<HashMap<String, String>> = Mutex::new(HashMap::new());
    let same = |what: String, now: String| -> R {
        let mut f = first.lock().unwrap();
        let was = f.entry(what.clone()).or_insert_with(|| now.clone());
        ensure_eq!(*was, now, "{what} gave something else the first time");
        Ok(())
    };
    let inner = on_threads(n, |t| {
        let mut held: Vec<KHeld> = vec![];
        let mut inner = 0u64;
        let end = |s: KHeld, at: usize| -> R {
            let k = s.s.finish(&s.peer.msg);
            ensure_eq!(
                k.as_ref().ok().map(|k| hex(k)),
                s.peer.key(&s.msg).map(|k| hex(&k)),
                "session {:?} finished at step {at} (thread {t}): {k:?}",
                s.id
            );
            Ok(())
        };
        for k in 0..h.ops.len() {
            let at = (k + t * h.ops.len() / n) % h.ops.len();
            match h.ops[at] {
                KOp::Start(role, p, a, b, x, y) => {
                    let (pw, ia, ib) = (pool.text("pw", p % 3), pool.text("id", a % 3), pool.text("id", b % 3));
                    let (s, msg) = start::<Ed25519Group>(role, &pw, &ia, &ib, Tape::new(&[], pool.run << 8 | u64::from(x % 3)));
                    let y = Scalar::from_bytes_mod_order_wide(&pool.bytes(9, y % 3, 64).try_into().unwrap());
                    let peer = Peer::new(role.peer(), y, &pw, &ia, &ib);
                    // the message is fixed by role, password and random bytes (and identities)
                    same(format!("start {role:?} {} {} {} {}", p % 3, a % 3, b % 3, x % 3), hex(&msg))?;
                    held.push(KHeld { s, msg, peer, id: [role.letter(), p % 3, a % 3, b % 3, x % 3, 0] });
                }
                KOp::Finish(i) if !held.is_empty() => {
                    let s = held.swap_remove(i as usize % held.len());
                    end(s, at)?;
                }
                KOp::Cross(i, j) if !held.is_empty() => {
                    let s = held.swap_remove(i as usize % held.len());
                    let m = if held.is_empty() { fill(33, u64::from(j)) } else { held[j as usize % held.len()].msg.clone() };
                    let r = s.s.finish(&m);
                    same(format!("finish {:?} {}", s.id, hex(&m)), format!("{:?}", r.map(|k| hex(&k))))?;
                }
                KOp::Debug(i) if !held.is_empty() => {
                    let s = &held[i as usize % held.len()];
                    same(format!("debug {:?}", s.id), format!("{:?}", s.s))?;
                }
                KOp::Forget(i) if !held.is_empty() => {
                    held.swap_remove(i as usize % held.len());
                }
                _ => {}
            }
            inner += 1;
        }
        while !held.is_empty() {
            end(held.remove(0), h.ops.len())?;
            inner += 1;
        }
        Ok(inner)
    })?;
    o.inner += inner.iter().sum::<u64>();
    let k = h.ops.iter().filter(|x| matches!(x, KOp::Start(..))).count();
    o.nontrivial = k >= 2;
    o.label(format!("{n} threads"));
    Ok(())
}
fn k_hist() -> BoxedStrategy<KHist> {
    let op = prop_oneof![
        5 => (prop::sample::select(vec![Role::A, Role::B, Role::S]), 0u8..3, 0u8..3, 0u8..3, 0u8..3, 0u8..3).prop_map(|(r, a, b, c, d, e)| KOp::Start(r, a, b, c, d, e)),
        2 => any::<u8>().prop_map(KOp::Finish),
        1 => any::<(u8, u8)>().prop_map(|(a, b)| KOp::Cross(a, b)),
        1 => any::<u8>().prop_map(KOp::Debug),
        1 => any::<u8>().prop_map(KOp::Forget),
    ];
    (any::<u8>(), prop_oneof![3 => Just(1u8), 1 => 2u8..5], vec(op, 2..16)).prop_map(|(shape, threads, ops)| KHist { shape, threads, ops }).boxed()
}

// ----------------------------------------------------------------------------------------- AuCPace

/// Registrations and logins of few users, one after another or at the same time, each compared with
/// the model peers.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AHist {
    worlds: Vec<World>,
    /// index of the user, password, context and randomness of each
    pick: Vec<[u8; 5]>,
    shape: u8,
    threads: u8,
}
fn x05_auc(h: &AHist, o: &mut Obs) -> R {
    let pool = Pool::new(h.shape);
    let n = h.threads.clamp(1, 4) as usize;
    let worlds: Vec<World> = h
        .worlds
        .iter()
        .zip(&h.pick)
        .map(|(w, p)| {
            let mut w = w.clone();
            w.login.user = B(pool.text("user", p[0] % 2));
            w.login.pass = B(pool.text("pass", p[1] % 3));
            w.reg_pass = w.login.pass.clone();
            let ci = B(pool.text("ctx", p[2] % 2));
            (w.login.ci_c, w.login.ci_s) = (ci.clone(), ci);
            if p[3] % 3 < 2 {
                // the same salt, nonces and exponents as another login
                let t = |k: u64| Seed::new(pool.run << 16 | k << 8 | u64::from(p[3] % 3));
                (w.rng_reg, w.rng_keys, w.rng_client, w.rng_server) = (t(1), t(2), t(3), t(4));
                (w.login.rng_s, w.login.rng_c, w.login.rng_blind) = (t(5), t(6), t(7));
            }
            if p[4] % 2 == 0 {
                w.others = vec![(B(pool.text("user", (p[0] % 2) ^ 1)), B(pool.text("pass", p[4] / 2 % 3)))];
            } else {
                w.others = vec![];
            }
            w
        })
        .collect();
    let combo = worlds[0].combo;
    let shared = h.shape & 4 != 0 && worlds.iter().all(|w| w.combo == combo);
    o.label_if(shared, "shared objects");
    let inner = on_threads(n, |t| {
        let mut inner = 0u64;
        if shared {
            let at = t * worlds.len() / n;
            let ws: Vec<&World> = worlds[at..].iter().chain(&worlds[..at]).collect();
            return with_combo!(combo, D, K, one_pair::<D, K>(&ws)).map_err(|f| Fail(format!("one pair of objects, from login {at} (thread {t}): {}", f.0)));
        }
        for k in 0..worlds.len() {
            let at = (k + t * worlds.len() / n) % worlds.len();
            let mut ob = Obs::default();
            a09_model(&worlds[at], &mut ob).map_err(|f| Fail(format!("login {at} (thread {t}): {}", f.0)))?;
            inner += 1;
        }
        Ok(inner)
    })?;
    o.inner += inner.iter().sum::<u64>();
    o.nontrivial = worlds.len() >= 2;
    o.label(format!("{n} threads"));
    Ok(())
}
/// All registrations and logins through one library client and one library server object, each
/// against model peers; then those whose password is still the registered one once more, interleaved.
fn one_pair<D: Dg, const K: usize>(ws: &[&World]) -> Result<u64, Fail> {
    let mut client: Client<D, RecHasher, K> = ws[0].client();
    let mut server: Server<D, K> = Server::new(ws[0].rng_server.tape());
    let mut db = Db::default();
    let mut inner = 0;
    for (at, w) in ws.iter().enumerate() {
        let l = &w.login;
        register::<D, RecHasher, K>(&mut client, Some(&mut db), l.variant.strong(), w.reg_flavour, None, l.wire, &l.user, &w.reg_pass, w.hp.clone())?
            .map_err(|e| Fail(format!("registration {at}: {e:?}")))?;
        let (x, xp) = server.generate_long_term_keypair();
        db.store_long_term_keypair(&l.user, x, xp).map_err(|e| Fail(format!("HARNESS: {e:?}")))?;
        for side in [Side::Server, Side::Client] {
            let out = Sess::with_model(l, Some(side)).run(&mut client, &mut server, &db)?;
            a09_judge(l, side, &out, &db).map_err(|f| Fail(format!("login {at}: {}", f.0)))?;
            inner += 1;
        }
    }
    let mut live = vec![];
    for (at, w) in ws.iter().enumerate() {
        let same = |v: &&World| v.login.user == w.login.user && v.login.variant.strong() == w.login.variant.strong();
        let last = ws.iter().rposition(|v| same(v)).unwrap();
        if ws[last].reg_pass == w.login.pass {
            let side = if at % 2 == 0 { Side::Server } else { Side::Client };
            live.push((at, side, Sess::<D, RecHasher, K>::with_model(&w.login, Some(side))));
        }
    }
    while !live.is_empty() {
        let mut still = vec![];
        for (at, side, mut s) in live {
            if s.step(&mut client, &mut server, &db)? {
                still.push((at, side, s));
            } else {
                let out = s.finish();
                a09_judge(&ws[at].login, side, &out, &db).map_err(|f| Fail(format!("interleaved login {at}: {}", f.0)))?;
                inner += 1;
            }
        }
        live = still;
    }
    Ok(inner)
}
fn a_hist() -> BoxedStrategy<AHist> {
    (vec((world(), any::<[u8; 5]>()), 2..5), any::<u8>(), prop_oneof![3 => Just(1u8), 1 => 2u8..5], any::<bool>())
        .prop_map(|(mut ws, shape, threads, alike)| {
            if alike {
                // the same kind of login throughout
                let (c, v, pre) = (ws[0].0.combo, ws[0].0.login.variant, ws[0].0.login.pre.clone());
                for (w, _) in &mut ws {
                    (w.combo, w.login.variant, w.login.pre) = (c, v, pre.clone());
                }
            }
            let (worlds, pick) = ws.into_iter().unzip();
            AHist { worlds, pick, shape, threads }
        })
        .boxed()
}

pub fn x05_subs() -> Vec<Box<dyn Sub>> {
    vec![
        gen("srp", "2-13 operations of SRP sessions of 3 users, 3 passwords and 2 salts on four shared pairs of objects, on 1-4 threads; non-trivial: at least two session halves", 3_000, 100_000, s_hist, x05_srp),
        gen("spake2", "2-15 operations of SPAKE2 sessions with 3 passwords and 3 identities, on 1-4 threads; non-trivial: at least two sessions", 6_000, 200_000, k_hist, x05_spake),
        gen("aucpace", "2-4 registrations with logins of two users with 3 passwords, each against model peers, on one pair of objects (interleaved) or many, on 1-4 threads; every case non-trivial", 800, 30_000, a_hist, x05_auc),
        gen("aucpace_interleaved", "histories of registrations, password changes and interleaved logins on one pair of objects; non-trivial: at least two logins", 800, 30_000, history, a11_history),
    ]
}
