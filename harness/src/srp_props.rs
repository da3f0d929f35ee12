//! S01..S07

use crate::fw::*;
use crate::step;
use crate::srpm::*;
use crate::util::*;
use crate::{ensure, ensure_eq, with_digest};
use num_bigint::BigUint;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use srp::client::{SrpClient, SrpClientVerifier};
use srp::server::{SrpServer, SrpServerVerifier};
use srp::types::SrpAuthError;
use srp::utils as su;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Exch {
    g: G,
    d: Dig,
    user: B,
    pass: B,
    salt: B,
    a: B,
    b: B,
}

fn exch(g: BoxedStrategy<G>, d: BoxedStrategy<Dig>, sec: fn() -> BoxedStrategy<B>) -> BoxedStrategy<Exch> {
    (g, d, text_big(), text_big(), salt(), sec(), sec())
        .prop_map(|(g, d, user, pass, salt, a, b)| Exch { g, d, user, pass, salt, a, b })
        .boxed()
}

struct Session<D: digest::Digest> {
    a_pub: Vec<u8>,
    b_pub: Vec<u8>,
    v: Vec<u8>,
    c: Result<SrpClientVerifier<D>, SrpAuthError>,
    s: Result<SrpServerVerifier<D>, SrpAuthError>,
}

fn run_exch<D: digest::Digest>(e: &Exch) -> Session<D> {
    let p = group(e.g);
    let c = SrpClient::<D>::new(p);
    let s = SrpServer::<D>::new(p);
    let v = c.compute_verifier(&e.user, &e.pass, &e.salt);
    let a_pub = c.compute_public_ephemeral(&e.a);
    let b_pub = s.compute_public_ephemeral(&e.b, &v);
    let sv = s.process_reply(&e.b, &v, &a_pub);
    let cv = c.process_reply(&e.a, &e.user, &e.pass, &e.salt, &b_pub);
    Session { a_pub, b_pub, v, c: cv, s: sv }
}

fn es<T>(r: &Result<T, SrpAuthError>) -> String {
    match r {
        Ok(_) => "Ok".into(),
        Err(e) => format!("{e:?}"),
    }
}
fn is_illegal<T>(r: &Result<T, SrpAuthError>) -> bool {
    matches!(r, Err(SrpAuthError::IllegalParameter(_)))
}
fn is_badmac<T>(r: &Result<T, SrpAuthError>) -> bool {
    matches!(r, Err(SrpAuthError::BadRecordMac(_)))
}

// =================================================================== S01

fn s01_test(e: &Exch, o: &mut Obs) -> R {
    with_digest!(e.d, D, s01::<D>(e, o))
}
fn s01<D: digest::Digest>(e: &Exch, o: &mut Obs) -> R {
    let m = Model::of(e.g);
    let s = run_exch::<D>(e);
    let nlen = mb(&m.n).len();
    // the one event in which an honest exchange must be refused: B = 0 mod N
    let b_mod = num(&s.b_pub) % &m.n;
    ensure!(s.s.is_ok(), "server refused an honest client: {}", es(&s.s));
    let sv = s.s.unwrap();
    if b_mod == BigUint::default() {
        o.label("degenerate B=0 mod N");
        ensure!(is_illegal(&s.c), "client accepted B = 0 mod N");
        return Ok(());
    }
    ensure!(s.c.is_ok(), "client refused an honest server: {}", es(&s.c));
    let cv = s.c.unwrap();
    ensure_eq!(B(cv.key().to_vec()), B(sv.key().to_vec()), "session keys differ");
    let r = sv.verify_client(cv.proof());
    ensure!(r.is_ok(), "server rejected the honest client's proof: {r:?}");
    let r = cv.verify_server(sv.proof());
    ensure!(r.is_ok(), "client rejected the honest server's proof: {r:?}");
    o.nontrivial = num(&e.a) != BigUint::default() && num(&e.b) != BigUint::default();
    match e.g {
        G::Rfc(n) => o.label(format!("group rfc{n}")),
        G::Small(_) => o.label("group small"),
        G::Mid(_) => o.label("group mid"),
        G::Gen(..) => o.label("group mid, own generator"),
    }
    o.label(format!("digest {:?}", e.d));
    o.label_if(s.a_pub.len() < nlen, "A has leading zero byte");
    o.label_if(s.b_pub.len() < nlen, "B has leading zero byte");
    o.label_if(s.v.len() < nlen, "v has leading zero byte");
    o.label_if(cv.key().len() < nlen, "key has leading zero byte");
    o.label_if(e.user.is_empty() || e.pass.is_empty(), "empty user or password");
    o.label_if(e.user.len() > 60_000 || e.pass.len() > 60_000, "very long user or password");
    Ok(())
}

/// Move a secret forward until A (or B) has a leading zero byte.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LeadZero {
    e: Exch,
    which: u8,
}
fn find_lead(c: &LeadZero) -> (Exch, bool) {
    let m = Model::of(c.e.g);
    let limit = BigUint::from(1u8) << (8 * (mb(&m.n).len() - 1));
    let mut e = c.e.clone();
    let found = with_digest!(e.d, D, {
        let x = m.x::<D>(&e.user, &e.pass, &e.salt);
        let v = m.v(&x);
        let kv = m.k::<D>() * &v % &m.n;
        let mut found = false;
        let mut a = num(&e.a);
        let mut b = num(&e.b);
        match c.which % 3 {
            0 => {
                let mut y = m.a_pub(&a);
                for _ in 0..4000 {
                    if y < limit {
                        found = true;
                        break;
                    }
                    y = y * &m.g % &m.n;
                    a += 1u8;
                }
            }
            1 => {
                let mut y = m.a_pub(&b);
                for _ in 0..4000 {
                    if (&kv + &y) % &m.n < limit {
                        found = true;
                        break;
                    }
                    y = y * &m.g % &m.n;
                    b += 1u8;
                }
            }
            _ => {
                // the shared secret itself
                let ap = m.a_pub(&a);
                for _ in 0..1500 {
                    let bp = (&kv + m.a_pub(&b)) % &m.n;
                    let u = m.u::<D>(&ap, &bp);
                    if m.s_server(&ap, &v, &u, &b) < limit {
                        found = true;
                        break;
                    }
                    b += 1u8;
                }
            }
        }
        e.a = B(mb(&a));
        e.b = B(mb(&b));
        found
    });
    (e, found)
}
fn s01_leadzero(c: &LeadZero, o: &mut Obs) -> R {
    let (e, found) = find_lead(c);
    s01_test(&e, o)?;
    o.nontrivial = found;
    Ok(())
}
fn lead_strategy() -> BoxedStrategy<LeadZero> {
    let full = prop_oneof![
        // groups whose modulus fills its top byte reasonably
        8 => prop::sample::select(vec![11u8, 12, 14, 16, 17, 18]).prop_map(G::Mid),
        1 => Just(G::Rfc(1024)),
    ]
    .boxed();
    (exch(full, dig_real(), strong_secret), 0u8..3)
        .prop_map(|(mut e, which)| {
            if let G::Rfc(_) = e.g {
                // search cheap: only A and B
                LeadZero { which: which % 2, e }
            } else {
                e.user.0.truncate(20);
                e.pass.0.truncate(20);
                LeadZero { e, which }
            }
        })
        .boxed()
}

/// every a, b in a tiny group
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tiny {
    g: u8,
    d: Dig,
    tag: u16,
}
fn s01_tiny(c: &Tiny, o: &mut Obs) -> R {
    let n: u32 = SMALL[c.g as usize].0;
    for a in 0..n.min(60) {
        for b in 0..n.min(60) {
            let e = Exch {
                g: G::Small(c.g),
                d: c.d,
                user: B(b"u".to_vec()),
                pass: B(c.tag.to_string().into_bytes()),
                salt: B(vec![1, c.tag as u8]),
                a: B(vec![a as u8]),
                b: B(vec![b as u8]),
            };
            let mut oo = Obs::default();
            s01_test(&e, &mut oo).map_err(|f| Fail(format!("a={a} b={b}: {}", f.0)))?;
            for l in oo.labels {
                if l.contains("degenerate") {
                    o.label(l);
                }
            }
            o.inner += 1;
        }
    }
    o.nontrivial = true;
    Ok(())
}
fn s01_tiny_cases(t: Tier) -> Vec<Tiny> {
    let mut v = vec![];
    for tag in 0..(if t == Tier::Quick { 3 } else { 40 }) {
        for g in 0..8u8 {
            for d in [Dig::Sha1, Dig::Sha256, Dig::Toy1, Dig::Toy2] {
                v.push(Tiny { g, d, tag });
            }
        }
    }
    v
}
fn s01_big_cases(t: Tier) -> Vec<Exch> {
    let mut v = vec![];
    for r in 0..(if t == Tier::Quick { 2u64 } else { 20 }) {
        for (i, &n) in RFC_SIZES.iter().enumerate() {
            for (j, d) in [Dig::Sha1, Dig::Sha256, Dig::Sha512].into_iter().enumerate() {
                let s = r * 1000 + i as u64 * 10 + j as u64;
                v.push(Exch {
                    g: G::Rfc(n),
                    d,
                    user: B(fill(5, s)),
                    pass: B(fill(12, s + 1)),
                    salt: B(fill(16, s + 2)),
                    a: B(fill(if n > 4096 { 32 } else { 64 }, s + 3)),
                    b: B(fill(if n > 4096 { 32 } else { 64 }, s + 4)),
                });
            }
        }
    }
    v
}

pub fn s01_subs() -> Vec<Box<dyn Sub>> {
    vec![
        gen("exchange", "random user/password/salt/secrets (any length), group (40 tiny, 20 custom up to 513 bits, RFC groups) and digest (incl. 1- and 2-byte toy digests); non-trivial: both secrets nonzero", 12_000, 400_000,
            || exch(g_any(), dig_any(), secret), s01_test),
        gen("leading_zero", "the secret is advanced until A, B or the shared secret has a leading zero byte; non-trivial: such a value was found", 480, 12_000, lead_strategy, s01_leadzero),
        all("tiny_exhaustive", "all a,b < 60 in 8 tiny groups x 4 digests x tags; every case non-trivial", s01_tiny_cases, s01_tiny),
        all("rfc_groups", "each of the 7 built-in groups x 3 digests with random inputs; non-trivial: secrets nonzero", s01_big_cases, s01_test),
    ]
}

// =================================================================== S02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Alt {
    Pass(Edit),
    User(Edit),
    Salt(Edit),
    /// move the last byte of the username to the front of the password
    ShiftIdentity,
    SwapUserPass,
    Verifier(NumEdit),
    APub(NumEdit),
    BPub(NumEdit),
    /// a value that plays a role in this exchange put before, after or in place of a field
    Mix(Field, Source, Mixing),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Field {
    User,
    Pass,
    Salt,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Source {
    User,
    Pass,
    Salt,
    UserPass,
    IdentityHash,
    X,
    Verifier,
    HashUser,
    HashPass,
    HashSalt,
    N,
    G,
    K,
}
const SOURCES: [Source; 13] = [
    Source::User,
    Source::Pass,
    Source::Salt,
    Source::UserPass,
    Source::IdentityHash,
    Source::X,
    Source::Verifier,
    Source::HashUser,
    Source::HashPass,
    Source::HashSalt,
    Source::N,
    Source::G,
    Source::K,
];
fn mixing() -> BoxedStrategy<Alt> {
    use proptest::sample::select;
    (select(&[Field::User, Field::Pass, Field::Salt][..]), select(&SOURCES[..]), select(&MIXINGS[..]))
        .prop_map(|(f, s, m)| Alt::Mix(f, s, m))
        .boxed()
}
fn source<D: digest::Digest>(s: Source, e: &Exch, m: &Model, verifier: &[u8]) -> Vec<u8> {
    let h = |parts: &[&[u8]]| D::digest(parts.concat()).to_vec();
    let ih = h(&[&e.user, b":", &e.pass]);
    match s {
        Source::User => e.user.0.clone(),
        Source::Pass => e.pass.0.clone(),
        Source::Salt => e.salt.0.clone(),
        Source::UserPass => [&e.user[..], b":", &e.pass].concat(),
        Source::X => h(&[&e.salt, &ih]),
        Source::IdentityHash => ih,
        Source::Verifier => verifier.to_vec(),
        Source::HashUser => h(&[&e.user]),
        Source::HashPass => h(&[&e.pass]),
        Source::HashSalt => h(&[&e.salt]),
        Source::N => mb(&m.n),
        Source::G => mb(&m.g),
        Source::K => h(&[&mb(&m.n), &mb(&m.g)]),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mis {
    e: Exch,
    alts: Vec<Alt>,
}
fn alt() -> BoxedStrategy<Alt> {
    prop_oneof![
        4 => edit().prop_map(Alt::Pass),
        3 => edit().prop_map(Alt::User),
        3 => edit().prop_map(Alt::Salt),
        1 => Just(Alt::ShiftIdentity),
        1 => Just(Alt::SwapUserPass),
        3 => num_edit().prop_map(Alt::Verifier),
        4 => num_edit().prop_map(Alt::APub),
        4 => num_edit().prop_map(Alt::BPub),
        8 => mixing(),
    ]
    .boxed()
}
fn s02_test(c: &Mis, o: &mut Obs) -> R {
    with_digest!(c.e.d, D, s02::<D>(c, o))
}
fn s02<D: digest::Digest>(c: &Mis, o: &mut Obs) -> R {
    let e = &c.e;
    let m = Model::of(e.g);
    let p = group(e.g);
    let cl = SrpClient::<D>::new(p);
    let sr = SrpServer::<D>::new(p);
    // what the server was given at registration
    let mut v = cl.compute_verifier(&e.user, &e.pass, &e.salt);
    let v0 = num(&v) % &m.n;
    let (mut user, mut pass, mut salt) = (e.user.0.clone(), e.pass.0.clone(), e.salt.0.clone());
    let mut names = vec![];
    for a in &c.alts {
        match a {
            Alt::Pass(x) => {
                pass = x.apply(&pass);
                names.push("password");
            }
            Alt::User(x) => {
                user = x.apply(&user);
                names.push("username");
            }
            Alt::Salt(x) => {
                salt = x.apply(&salt);
                names.push("salt");
            }
            Alt::ShiftIdentity => {
                if let Some(l) = user.pop() {
                    pass.insert(0, l);
                }
                names.push("shifted identity");
            }
            Alt::SwapUserPass => {
                std::mem::swap(&mut user, &mut pass);
                names.push("swapped user/password");
            }
            Alt::Verifier(x) => {
                v = mb(&x.apply(&num(&v), &m));
                names.push("verifier");
            }
            Alt::Mix(f, s, how) => {
                let b = source::<D>(*s, e, &m, &mb(&v0));
                let f = match f {
                    Field::User => {
                        names.push("username with a derived value");
                        &mut user
                    }
                    Field::Pass => {
                        names.push("password with a derived value");
                        &mut pass
                    }
                    Field::Salt => {
                        names.push("salt with a derived value");
                        &mut salt
                    }
                };
                *f = how.apply(f, &b);
            }
            _ => {}
        }
    }
    let same_identity = [&user[..], b":", &pass].concat() == [&e.user[..], b":", &e.pass].concat();
    let secret_differs = !same_identity || salt != e.salt.0 || num(&v) % &m.n != v0;
    // a changed verifier could coincide with that of the changed password only by chance
    let a_pub = cl.compute_public_ephemeral(&e.a);
    let b_pub = sr.compute_public_ephemeral(&e.b, &v);
    let (mut a_sent, mut b_sent) = (num(&a_pub), num(&b_pub));
    for a in &c.alts {
        match a {
            Alt::APub(x) => {
                a_sent = x.apply(&a_sent, &m);
                names.push("A");
            }
            Alt::BPub(x) => {
                b_sent = x.apply(&b_sent, &m);
                names.push("B");
            }
            _ => {}
        }
    }
    let wire_differs = a_sent != num(&a_pub) || b_sent != num(&b_pub);
    if !secret_differs && !wire_differs {
        o.label("alterations cancel out");
        return Ok(());
    }
    o.nontrivial = true;
    for n in &names {
        o.label(format!("altered {n}"));
    }
    o.label_if(c.alts.len() > 1, "combined alterations");
    let cv = cl.process_reply(&e.a, &user, &pass, &salt, &mb(&b_sent));
    let sv = sr.process_reply(&e.b, &v, &mb(&a_sent));
    if let (Ok(c), Ok(s)) = (&cv, &sv) {
        ensure!(is_badmac(&s.verify_client(c.proof())), "server accepted the proof despite altered {names:?}");
        ensure!(is_badmac(&c.verify_server(s.proof())), "client accepted the server proof despite altered {names:?}");
        if secret_differs {
            ensure!(c.key() != s.key(), "same session key despite altered {names:?}");
        }
        o.label("both processed, both rejected");
    } else {
        o.label("refused while processing");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MixCase {
    e: Exch,
    f: Field,
    s: Source,
    how: Mixing,
    /// the alteration happens at registration instead of at login
    registered: bool,
}
fn s02_mix_cases(t: Tier) -> Vec<MixCase> {
    let mut v = vec![];
    for rep in 0..if t == Tier::Quick { 2u64 } else { 24 } {
        for f in [Field::User, Field::Pass, Field::Salt] {
            for s in SOURCES {
                for how in MIXINGS {
                    for registered in [false, true] {
                        let i = v.len() as u64;
                        let b = |k: u64, lo: usize, m: usize| {
                            B(fill(lo + (fill(2, i * 8 + k)[0] as usize) % m, i * 8 + k))
                        };
                        let d = [Dig::Sha1, Dig::Sha256, Dig::Sha512][(i % 3) as usize];
                        // sometimes a field of exactly the length of a digest
                        let len = |k: usize| {
                            if (i / 3 + rep) as usize % 4 == k { 12 } else { 20 }
                        };
                        let e = Exch {
                            g: G::Mid(MID_CRYPTO + (i % 8) as u8),
                            d,
                            user: b(1, 1, len(1)),
                            pass: b(2, 1, len(2)),
                            salt: b(3, 1, len(3)),
                            a: b(4, 32, 1),
                            b: b(5, 32, 1),
                        };
                        v.push(MixCase { e, f, s, how, registered });
                    }
                }
            }
        }
    }
    v
}
fn s02_mix(c: &MixCase, o: &mut Obs) -> R {
    if !c.registered {
        return s02_test(&Mis { e: c.e.clone(), alts: vec![Alt::Mix(c.f, c.s, c.how)] }, o);
    }
    // registered with the altered field, logged in with the original one
    let mut e = c.e.clone();
    with_digest!(c.e.d, D, {
        let m = Model::of(e.g);
        let v = SrpClient::<D>::new(group(e.g)).compute_verifier(&e.user, &e.pass, &e.salt);
        let b = source::<D>(c.s, &c.e, &m, &v);
        let f = match c.f {
            Field::User => &mut e.user,
            Field::Pass => &mut e.pass,
            Field::Salt => &mut e.salt,
        };
        f.0 = c.how.apply(&f.0, &b);
        let wants = |e: &Exch| (e.salt.0.clone(), [&e.user[..], b":", &e.pass].concat());
        if wants(&e) == wants(&c.e) {
            o.label("alterations cancel out");
            return Ok(());
        }
        s02_between::<D>(&e, &c.e, o)
    })
}
/// registered as `reg`, logged in as `e`
fn s02_between<D: digest::Digest>(reg: &Exch, e: &Exch, o: &mut Obs) -> R {
    let cl = SrpClient::<D>::new(group(e.g));
    let sr = SrpServer::<D>::new(group(e.g));
    let v = cl.compute_verifier(&reg.user, &reg.pass, &reg.salt);
    ensure!(
        v != cl.compute_verifier(&e.user, &e.pass, &e.salt),
        "different user, password or salt, same verifier"
    );
    let a_pub = cl.compute_public_ephemeral(&e.a);
    let b_pub = sr.compute_public_ephemeral(&e.b, &v);
    o.nontrivial = true;
    if let (Ok(c), Ok(s)) =
        (cl.process_reply(&e.a, &e.user, &e.pass, &e.salt, &b_pub), sr.process_reply(&e.b, &v, &a_pub))
    {
        ensure!(is_badmac(&s.verify_client(c.proof())), "server accepted a login that differs from the registration");
        ensure!(is_badmac(&c.verify_server(s.proof())), "client accepted a server with another registration");
        ensure!(c.key() != s.key(), "same key despite another registration");
    }
    Ok(())
}
pub fn s02_subs() -> Vec<Box<dyn Sub>> {
    vec![
        all("derived_values", "a value that plays a role in the exchange (another field, the identity hash, x, the verifier, hashes of fields, N, g, k) put before, after or in place of username, password or salt, at login or at registration; non-trivial: the fields really differ", s02_mix_cases, s02_mix),
        gen("mismatch", "an exchange in a group of >= 160 bits with secrets of >= 16 random bytes and 1-3 alterations (password, username, salt, identity shift, verifier, A, B); non-trivial: secret or wire values really differ", 9_000, 300_000,
        || (exch(g_crypto(), dig_real(), strong_secret), prop_oneof![
                6 => proptest::collection::vec(alt(), 1..2),
                2 => proptest::collection::vec(alt(), 2..4)])
            .prop_map(|(e, alts)| Mis { e, alts }).boxed(), s02_test)]
}

// =================================================================== S03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PubVal {
    e: Exch,
    /// value = q*N + r, encoded with `pad` leading zero bytes
    q: B,
    r: Resid,
    pad: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Resid {
    Zero,
    PlusOne,
    MinusOne,
    Val(B),
    /// the value itself, ignoring q
    Raw(B),
    /// a value with regular digits: (kind, how far, mask)
    Shape(u8, u16, u64),
    /// a value that plays a role in this exchange
    Role(u8),
}
fn shaped(n: &BigUint, kind: u8, k: u16, x: u64) -> BigUint {
    let one = BigUint::from(1u8);
    let bits = n.bits().max(2);
    let k = u64::from(k) % (bits + 70);
    let x = BigUint::from(x | 1);
    let mut bytes = mb(n);
    match kind % 12 {
        // zeros at the end
        0 => x << k,
        1 => (x << (k / 8 * 64)) % (n << 2u8),
        // a few bits set
        2 => one << k,
        3 => (&one << k) + (one << (bits - 1 - k % bits)),
        // all ones
        4 => (one << (k + 1)) - 1u8,
        // like N at one end, or but for one place
        5 => (n >> (k % bits)) << (k % bits),
        6 => n % (one << (k + 1)),
        7 => n >> (k % bits),
        8 => {
            let at = (k / 8) as usize % bytes.len();
            bytes[at] ^= (x.iter_u32_digits().next().unwrap_or(1) as u8).max(1);
            num(&bytes)
        }
        9 => {
            bytes.reverse();
            num(&bytes)
        }
        // N with the digits of another base shifted
        10 => n << (k % 70),
        _ => (n - 1u8) / 2u8 + k % 3,
    }
}
fn resid() -> BoxedStrategy<Resid> {
    prop_oneof![
        6 => Just(Resid::Zero),
        2 => Just(Resid::PlusOne),
        2 => Just(Resid::MinusOne),
        2 => secret().prop_map(Resid::Val),
        3 => text().prop_map(Resid::Raw),
        1 => (0usize..1500, any::<u64>()).prop_map(|(n, s)| Resid::Raw(B(fill(n, s)))),
        4 => (any::<u8>(), any::<u16>(), prop_oneof![1u64..9, any::<u64>()]).prop_map(|(a, b, c)| Resid::Shape(a, b, c)),
        2 => any::<u8>().prop_map(Resid::Role),
    ]
    .boxed()
}
fn s03_test(c: &PubVal, o: &mut Obs) -> R {
    with_digest!(c.e.d, D, s03::<D>(c, o))
}
fn s03<D: digest::Digest>(c: &PubVal, o: &mut Obs) -> R {
    let m = Model::of(c.e.g);
    let qn = num(&c.q) * &m.n;
    let value = match &c.r {
        Resid::Zero => qn,
        Resid::PlusOne => qn + 1u8,
        Resid::MinusOne => qn + (&m.n - 1u8),
        Resid::Val(b) => qn + num(b),
        Resid::Raw(b) => num(b),
        Resid::Shape(kind, k, x) => qn + shaped(&m.n, *kind, *k, *x),
        Resid::Role(i) => {
            let p = group(c.e.g);
            let (cl, sr) = (SrpClient::<D>::new(p), SrpServer::<D>::new(p));
            let v = cl.compute_verifier(&c.e.user, &c.e.pass, &c.e.salt);
            let k = m.k::<D>();
            qn + match i % 8 {
                0 => m.g.clone(),
                1 => num(&v),
                // the client's base is then 0
                2 => (k * num(&v)) % &m.n,
                3 => k,
                4 => num(&cl.compute_public_ephemeral(&c.e.a)),
                5 => num(&sr.compute_public_ephemeral(&c.e.b, &v)),
                6 => &m.n - num(&v) % &m.n,
                _ => num(&c.e.a),
            }
        }
    };
    let mut bytes = vec![0u8; c.pad as usize];
    if value != BigUint::default() || c.pad % 2 == 1 {
        bytes.extend(mb(&value));
    }
    s03_one::<D>(&c.e, &m, &bytes)?;
    o.nontrivial = m.zero(&value) || value > m.n;
    o.label(if m.zero(&value) { "multiple of N" } else { "not a multiple" });
    o.label_if(m.zero(&value) && value != BigUint::default(), "nonzero multiple of N");
    o.label_if(value > m.n, "larger than N");
    o.label_if(bytes.is_empty(), "empty encoding");
    Ok(())
}
fn s03_one<D: digest::Digest>(e: &Exch, m: &Model, bytes: &[u8]) -> R {
    let p = group(e.g);
    let cl = SrpClient::<D>::new(p);
    let sr = SrpServer::<D>::new(p);
    let zero = num(bytes) % &m.n == BigUint::default();
    let v = cl.compute_verifier(&e.user, &e.pass, &e.salt);
    let c = no_panic(|| cl.process_reply(&e.a, &e.user, &e.pass, &e.salt, bytes))
        .map_err(|x| format!("client process_reply panicked: {x}"))?;
    let s = no_panic(|| sr.process_reply(&e.b, &v, bytes))
        .map_err(|x| format!("server process_reply panicked: {x}"))?;
    if zero {
        ensure!(is_illegal(&c), "client: B = 0 mod N ({}) not refused: {}", hex(bytes), es(&c));
        ensure!(is_illegal(&s), "server: A = 0 mod N ({}) not refused: {}", hex(bytes), es(&s));
    } else {
        ensure!(c.is_ok(), "client refused B != 0 mod N ({}): {}", hex(bytes), es(&c));
        ensure!(s.is_ok(), "server refused A != 0 mod N ({}): {}", hex(bytes), es(&s));
    }
    Ok(())
}
/// all values 0..=4N+1 in a tiny group
fn s03_small(c: &Tiny, o: &mut Obs) -> R {
    let m = Model::of(G::Small(c.g));
    let n = SMALL[c.g as usize].0;
    let e = Exch {
        g: G::Small(c.g),
        d: c.d,
        user: B(b"u".to_vec()),
        pass: B(c.tag.to_string().into_bytes()),
        salt: B(vec![9]),
        a: B(vec![c.tag as u8 % 7]),
        b: B(vec![c.tag as u8 % 5]),
    };
    for val in 0..=(4 * n + 1) {
        for pad in 0..3usize {
            let mut b = vec![0u8; pad];
            if val > 0 {
                b.extend(mb(&BigUint::from(val)));
            }
            with_digest!(c.d, D, s03_one::<D>(&e, &m, &b))?;
            o.inner += 1;
        }
    }
    o.nontrivial = true;
    Ok(())
}
fn s03_small_cases(t: Tier) -> Vec<Tiny> {
    let mut v = vec![];
    for tag in 0..(if t == Tier::Quick { 4 } else { 35 }) {
        for g in 0..(if t == Tier::Quick { 12u8 } else { SMALL.len() as u8 }) {
            for d in [Dig::Sha1, Dig::Sha256] {
                v.push(Tiny { g, d, tag });
            }
        }
    }
    v
}
/// q*N for q = 0..=3 and neighbours, in every built-in group
fn s03_rfc_cases(_t: Tier) -> Vec<PubVal> {
    let mut v = vec![];
    for &n in RFC_SIZES {
        for q in [0u16, 1, 2, 3, 255, 256] {
            for r in [Resid::Zero, Resid::PlusOne, Resid::MinusOne] {
                if n > 3072 && (q > 1 || !matches!(r, Resid::Zero)) {
                    continue;
                }
                for pad in [0u16, 1, 8] {
                    v.push(PubVal {
                        e: Exch {
                            g: G::Rfc(n),
                            d: Dig::Sha256,
                            user: B(b"alice".to_vec()),
                            pass: B(b"pw".to_vec()),
                            salt: B(b"saltsalt".to_vec()),
                            a: B(fill(16, 1)),
                            b: B(fill(16, 2)),
                        },
                        q: B(q.to_be_bytes().to_vec()),
                        r: r.clone(),
                        pad,
                    });
                }
            }
        }
    }
    v
}
pub fn s03_subs() -> Vec<Box<dyn Sub>> {
    vec![
        gen("values", "peer public value qN+r (q up to 140 bytes; r a boundary, a value with regular digits, or one that plays a role in the exchange) or raw bytes, 0-40 (rarely up to 30,000) leading zeros, all groups; non-trivial: a multiple of N or larger than N", 16_000, 500_000,
            || (exch(g_any(), dig_any(), secret), prop_oneof![3 => (0u8..4).prop_map(|x| B(vec![x])), 1 => secret()], resid(), prop_oneof![40 => 0u16..40, 2 => 40u16..1200, 1 => 1200u16..30_000])
                .prop_map(|(e, q, r, pad)| PubVal { e, q, r, pad }).boxed(), s03_test),
        all("tiny_exhaustive", "every value 0..=4N+1 with 0-2 leading zeros in tiny groups; all non-trivial", s03_small_cases, s03_small),
        all("rfc_multiples", "0,N,2N,3N,255N,256N and neighbours in each built-in group; non-trivial as above", s03_rfc_cases, s03_test),
    ]
}

// =================================================================== S04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProofCase {
    e: Exch,
    other: Exch,
    extra: Vec<B>,
}
fn num_seed(p: &[u8]) -> u64 {
    p.iter().take(7).fold(0, |a, b| a << 8 | u64::from(*b)) << 8
}
fn s04_test(c: &ProofCase, o: &mut Obs) -> R {
    with_digest!(c.e.d, D, s04::<D>(c, o))
}
fn s04<D: digest::Digest>(c: &ProofCase, o: &mut Obs) -> R {
    let s = run_exch::<D>(&c.e);
    let mut oe = c.other.clone();
    oe.d = c.e.d;
    let t = run_exch::<D>(&oe);
    let (cv, sv) = match (&s.c, &s.s) {
        (Ok(c), Ok(s)) => (c, s),
        _ => return Err("honest exchange refused".into()),
    };
    let m1 = cv.proof().to_vec();
    let m2 = sv.proof().to_vec();
    ensure!(sv.verify_client(&m1).is_ok(), "server rejected the exact proof");
    ensure!(cv.verify_server(&m2).is_ok(), "client rejected the exact proof");
    let mut cands: Vec<(String, Vec<u8>)> = vec![];
    for (nm, p) in [("M1", &m1), ("M2", &m2)] {
        for i in 0..p.len() * 8 {
            let mut q = p.clone();
            q[i / 8] ^= 1 << (i % 8);
            cands.push((format!("{nm} bit {i} flipped"), q));
        }
        for n in 0..p.len() {
            cands.push((format!("{nm} truncated to {n}"), p[..n].to_vec()));
            if n > 0 {
                cands.push((format!("{nm} without first {n}"), p[n..].to_vec()));
            }
        }
        for x in [0u8, 1, 0x80, 0xff] {
            cands.push((format!("{nm} extended"), [&p[..], &[x]].concat()));
            cands.push((format!("{nm} prefixed"), [&[x], &p[..]].concat()));
            cands.push((format!("{nm} filled"), vec![x; p.len()]));
        }
        cands.push((format!("{nm} doubled"), [&p[..], &p[..]].concat()));
        let mut r = p.clone();
        r.reverse();
        cands.push((format!("{nm} reversed"), r));
        cands.push((format!("{nm} itself"), p.clone()));
        for k in 0..150u64 {
            cands.push((format!("{nm} nearly"), near_miss(p, num_seed(p) ^ k)));
        }
        for x in 0..=255u8 {
            cands.push((format!("{nm} and one byte"), [&p[..], &[x]].concat()));
        }
        let hexed = hex(p);
        for t in [hexed.to_uppercase(), hexed] {
            cands.push((format!("{nm} as text"), t.into_bytes()));
        }
    }
    if let (Ok(tc), Ok(ts)) = (&t.c, &t.s) {
        cands.push(("M1 of another session".into(), tc.proof().to_vec()));
        cands.push(("M2 of another session".into(), ts.proof().to_vec()));
    }
    for (i, x) in c.extra.iter().enumerate() {
        cands.push((format!("arbitrary {i}"), x.0.clone()));
        cands.push((format!("M1 + arbitrary {i}"), [&m1[..], &x[..]].concat()));
        cands.push((format!("M2 + arbitrary {i}"), [&m2[..], &x[..]].concat()));
    }
    cands.push(("M1|M2".into(), [&m1[..], &m2[..]].concat()));
    cands.push(("M2|M1".into(), [&m2[..], &m1[..]].concat()));
    cands.push(("key".into(), cv.key().to_vec()));
    for (nm, q) in &cands {
        o.inner += 2;
        let r = no_panic(|| sv.verify_client(q)).map_err(|x| format!("verify_client panicked on {nm}: {x}"))?;
        if *q == m1 {
            ensure!(r.is_ok(), "server rejected the exact proof");
        } else {
            ensure!(is_badmac(&r), "server verdict on {nm} ({}): {r:?}", hex(q));
        }
        let r = no_panic(|| cv.verify_server(q)).map_err(|x| format!("verify_server panicked on {nm}: {x}"))?;
        if *q == m2 {
            ensure!(r.is_ok(), "client rejected the exact proof");
        } else {
            ensure!(is_badmac(&r), "client verdict on {nm} ({}): {r:?}", hex(q));
        }
    }
    // the verdict must not depend on earlier verdicts
    ensure!(sv.verify_client(&m1).is_ok() && cv.verify_server(&m2).is_ok(), "exact proof rejected after failed attempts");
    o.nontrivial = true;
    o.label(format!("digest {:?}", c.e.d));
    Ok(())
}
pub fn s04_subs() -> Vec<Box<dyn Sub>> {
    vec![gen("candidates", "one session per case; candidates: every bit flip, every prefix and suffix, extensions, doubling, reversal, reflected, near misses (same XOR, sum, bytes, prefix, ... as the proof), another session's and arbitrary proofs, both directions; every case non-trivial", 1_600, 40_000,
        || (exch(g_crypto(), dig_real(), strong_secret), exch(g_crypto(), dig_real(), strong_secret), proptest::collection::vec(text(), 0..4))
            .prop_map(|(e, mut other, extra)| { other.g = e.g; ProofCase { e, other, extra } }).boxed(), s04_test)]
}

// =================================================================== X04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CostCase {
    e: Exch,
    seed: u64,
    len: u8,
}
fn x04_srp_test(c: &CostCase, o: &mut Obs) -> R {
    with_digest!(c.e.d, D, x04_srp::<D>(c, o))
}
fn x04_srp<D: digest::Digest>(c: &CostCase, o: &mut Obs) -> R {
    if !step::works() {
        o.label("single-stepping unavailable");
        return Ok(());
    }
    let s = run_exch::<D>(&c.e);
    let (cv, sv) = match (&s.c, &s.s) {
        (Ok(c), Ok(s)) => (c, s),
        _ => return Err("honest exchange refused".into()),
    };
    let (m1, m2) = (cv.proof().to_vec(), sv.proof().to_vec());
    let n = m1.len();
    o.label(format!("{:?}", c.e.d));
    o.nontrivial = true;
    let mut buf = vec![0u8; 4 * n + 64];
    for (nm, right) in [("server verifies M1", &m1), ("client verifies M2", &m2)] {
        let mut go = |cands: &[(String, Vec<u8>)], what: &str| {
            step::same_cost(what, cands, |q| {
                buf[..q.len()].copy_from_slice(q);
                let b = &buf[..q.len()];
                let (r, k) = if nm.starts_with("server") {
                    step::count(|| sv.verify_client(b))
                } else {
                    step::count(|| cv.verify_server(b))
                };
                ensure!(r.is_err(), "{nm}: a wrong proof is accepted");
                Ok(k)
            })
        };
        let full = step::wrong_ones(right, c.seed, 6);
        o.inner += full.len() as u64;
        go(&full, nm)?;
        // proofs of another length: nothing may depend on their content either
        let long = [&right[..], &fill(2 * n, c.seed)].concat();
        let l = (c.len as usize % (2 * n)).max(2);
        if l != n {
            let mut other = step::wrong_ones(&long[..l], c.seed, 3);
            other.push(("right as far as it goes".into(), long[..l].to_vec()));
            o.inner += other.len() as u64;
            go(&other, &format!("{nm}, {l} bytes instead of {n}"))?;
        }
    }
    Ok(())
}
pub fn x04_srp_sub() -> Box<dyn Sub> {
    gen("srp_proofs", "one session per case; wrong M1 and M2 that differ from the right one in a chosen byte, prefix, suffix or near miss, full length and one other length; oracle: the same number of executed instructions; every case non-trivial", 400, 10_000,
        || (exch(prop_oneof![8 => Just(G::Rfc(0)), 1 => g_crypto()].boxed(), dig_real(), strong_secret), any::<u64>(), any::<u8>())
            .prop_map(|(e, seed, len)| CostCase { e, seed, len }).boxed(), x04_srp_test)
}

// =================================================================== S05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fns {
    g: G,
    d: Dig,
    user: B,
    pass: B,
    salt: B,
    nums: Vec<B>,
    raw: Vec<B>,
}
/// integers of all sizes around the group's size
fn operand() -> BoxedStrategy<B> {
    prop_oneof![
        3 => secret(),
        1 => Just(B(vec![])),
        2 => (0usize..200, any::<u64>()).prop_map(|(n, s)| B(fill(n, s))),
        1 => (1usize..70).prop_map(|n| B(vec![0xff; n])),
    ]
    .boxed()
}
fn s05_fns(c: &Fns, o: &mut Obs) -> R {
    with_digest!(c.d, D, s05f::<D>(c, o))
}
fn s05f<D: digest::Digest>(c: &Fns, o: &mut Obs) -> R {
    let m = Model::of(c.g);
    let p = group(c.g);
    let cl = SrpClient::<D>::new(p);
    let sr = SrpServer::<D>::new(p);
    let x: Vec<BigUint> = c.nums.iter().map(|b| num(b)).collect();
    ensure_eq!(su::compute_k::<D>(p), m.k::<D>(), "k");
    let id = SrpClient::<D>::compute_identity_hash(&c.user, &c.pass);
    ensure_eq!(id.to_vec(), h::<D>(&[&c.user, b":", &c.pass]), "identity hash");
    let xx = SrpClient::<D>::compute_x(id.as_slice(), &c.salt);
    ensure_eq!(xx, m.x::<D>(&c.user, &c.pass, &c.salt), "x");
    // compute_x takes any identity-hash bytes
    ensure_eq!(SrpClient::<D>::compute_x(&c.raw[0], &c.salt), num(&h::<D>(&[&c.salt, &c.raw[0]])), "x of raw identity hash");
    ensure_eq!(cl.compute_v(&x[0]), m.v(&x[0]), "v");
    ensure_eq!(cl.compute_a_pub(&x[1]), m.a_pub(&x[1]), "A");
    let bp = (&x[1] * &x[2] + m.pow(&m.g, &x[0])) % &m.n;
    ensure_eq!(sr.compute_b_pub(&x[0], &x[1], &x[2]), bp, "B");
    ensure_eq!(su::compute_u::<D>(&c.raw[0], &c.raw[1]), num(&h::<D>(&[&c.raw[0], &c.raw[1]])), "u");
    let m1 = su::compute_m1::<D>(&c.raw[0], &c.raw[1], &c.raw[2]);
    ensure_eq!(m1.to_vec(), h::<D>(&[&c.raw[0], &c.raw[1], &c.raw[2]]), "M1");
    let m2 = su::compute_m2::<D>(&c.raw[0], &m1, &c.raw[2]);
    ensure_eq!(m2.to_vec(), h::<D>(&[&c.raw[0], &m1, &c.raw[2]]), "M2");
    let s = cl.compute_premaster_secret(&x[0], &x[1], &x[2], &x[3], &x[4]);
    ensure_eq!(s, m.s_client(&x[0], &x[1], &x[2], &x[3], &x[4]), "client premaster secret");
    let s = sr.compute_premaster_secret(&x[0], &x[1], &x[2], &x[3]);
    ensure_eq!(s, m.s_server(&x[0], &x[1], &x[2], &x[3]), "server premaster secret");
    // byte-string front ends
    ensure_eq!(cl.compute_verifier(&c.user, &c.pass, &c.salt), mb(&m.v(&m.x::<D>(&c.user, &c.pass, &c.salt))), "verifier bytes");
    ensure_eq!(cl.compute_public_ephemeral(&c.nums[0]), mb(&m.a_pub(&x[0])), "A bytes");
    ensure_eq!(sr.compute_public_ephemeral(&c.nums[0], &c.nums[1]), mb(&m.b_pub::<D>(&x[0], &x[1])), "B bytes");
    o.inner += 14;
    o.nontrivial = x.iter().filter(|v| **v > BigUint::from(1u8)).count() >= 3;
    o.label_if(x[0] > m.n, "first operand larger than N");
    o.label_if(x.iter().any(|v| *v == BigUint::default()), "a zero operand");
    Ok(())
}
fn s05_peer(e: &Exch, o: &mut Obs) -> R {
    with_digest!(e.d, D, s05p::<D>(e, o))
}
fn s05p<D: digest::Digest>(e: &Exch, o: &mut Obs) -> R {
    let m = Model::of(e.g);
    let p = group(e.g);
    let (a, b) = (num(&e.a), num(&e.b));
    let x = m.x::<D>(&e.user, &e.pass, &e.salt);
    let v = m.v(&x);
    let (ap, bp) = (m.a_pub(&a), m.b_pub::<D>(&b, &v));
    let u = m.u::<D>(&ap, &bp);
    // the model as server against the real client
    if !m.zero(&bp) {
        let s = m.s_server(&ap, &v, &u, &b);
        let m1 = m.m1::<D>(&ap, &bp, &s);
        let m2 = m.m2::<D>(&ap, &m1, &s);
        let cl = SrpClient::<D>::new(p);
        ensure_eq!(cl.compute_public_ephemeral(&e.a), mb(&ap), "A");
        let cv = cl.process_reply(&e.a, &e.user, &e.pass, &e.salt, &mb(&bp)).map_err(|x| format!("client refused the model server: {x:?}"))?;
        ensure_eq!(B(cv.key().to_vec()), B(mb(&s)), "client key differs from the model server's");
        ensure_eq!(B(cv.proof().to_vec()), B(m1.clone()), "client proof M1");
        ensure!(cv.verify_server(&m2).is_ok(), "client rejected the model server's M2");
    }
    // the model as client against the real server
    let sr = SrpServer::<D>::new(p);
    ensure_eq!(sr.compute_public_ephemeral(&e.b, &mb(&v)), mb(&bp), "B");
    let s = m.s_client(&bp, &m.k::<D>(), &x, &a, &u);
    let m1 = m.m1::<D>(&ap, &bp, &s);
    let m2 = m.m2::<D>(&ap, &m1, &s);
    let sv = sr.process_reply(&e.b, &mb(&v), &mb(&ap)).map_err(|x| format!("server refused the model client: {x:?}"))?;
    ensure_eq!(B(sv.key().to_vec()), B(mb(&s)), "server key differs from the model client's");
    ensure!(sv.verify_client(&m1).is_ok(), "server rejected the model client's M1");
    ensure_eq!(B(sv.proof().to_vec()), B(m2), "server proof M2");
    o.nontrivial = a > BigUint::from(1u8) && b > BigUint::from(1u8);
    let nlen = mb(&m.n).len();
    o.label_if(mb(&ap).len() < nlen || mb(&bp).len() < nlen, "A or B has leading zero byte");
    o.label_if(mb(&s).len() < nlen, "S has leading zero byte");
    Ok(())
}
/// A peer may send any integer, reduced or not: the receiver's results follow the same equations.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnyPeer {
    e: Exch,
    v: B,
    peer: B,
}
fn s05_anypeer(c: &AnyPeer, o: &mut Obs) -> R {
    with_digest!(c.e.d, D, s05a::<D>(c, o))
}
fn s05a<D: digest::Digest>(c: &AnyPeer, o: &mut Obs) -> R {
    let e = &c.e;
    let m = Model::of(e.g);
    let p = group(e.g);
    let (a, b, y, v) = (num(&e.a), num(&e.b), num(&c.peer), num(&c.v));
    if m.zero(&y) {
        return Ok(());
    }
    let x = m.x::<D>(&e.user, &e.pass, &e.salt);
    let ap = m.a_pub(&a);
    let u = m.u::<D>(&ap, &y);
    let s = m.s_client(&y, &m.k::<D>(), &x, &a, &u);
    let cv = SrpClient::<D>::new(p).process_reply(&e.a, &e.user, &e.pass, &e.salt, &c.peer).map_err(|x| format!("client: {x:?}"))?;
    ensure_eq!(B(cv.key().to_vec()), B(mb(&s)), "client key for arbitrary B");
    let m1 = m.m1::<D>(&ap, &y, &s);
    ensure_eq!(B(cv.proof().to_vec()), B(m1.clone()), "client proof for arbitrary B");
    ensure!(cv.verify_server(&m.m2::<D>(&ap, &m1, &s)).is_ok(), "client M2 for arbitrary B");
    let bp = m.b_pub::<D>(&b, &v);
    let u = m.u::<D>(&y, &bp);
    let s = m.s_server(&y, &v, &u, &b);
    let sv = SrpServer::<D>::new(p).process_reply(&e.b, &c.v, &c.peer).map_err(|x| format!("server: {x:?}"))?;
    ensure_eq!(B(sv.key().to_vec()), B(mb(&s)), "server key for arbitrary A, v");
    let m1 = m.m1::<D>(&y, &bp, &s);
    ensure!(sv.verify_client(&m1).is_ok(), "server M1 for arbitrary A, v");
    ensure_eq!(B(sv.proof().to_vec()), B(m.m2::<D>(&y, &m1, &s)), "server proof for arbitrary A, v");
    o.nontrivial = y > m.n || v > m.n;
    o.label_if(y > m.n, "peer value larger than N");
    o.label_if(v > m.n, "verifier larger than N");
    Ok(())
}
pub fn s05_subs() -> Vec<Box<dyn Sub>> {
    vec![
        gen("functions", "every public compute function on operands of 0-200 bytes in all groups; non-trivial: at least 3 operands > 1", 12_000, 400_000,
            || (g_any(), dig_any(), text_big(), text_big(), salt(), proptest::collection::vec(operand(), 5..6), proptest::collection::vec(text(), 3..4))
                .prop_map(|(g, d, user, pass, salt, nums, raw)| {
                    let nums = if let G::Rfc(_) = g { nums.into_iter().map(|b| { let mut b = b; b.0.truncate(80); b }).collect() } else { nums };
                    Fns { g, d, user, pass, salt, nums, raw } }).boxed(), s05_fns),
        gen("model_peer", "full exchange of each real side against the model peer; non-trivial: both secrets > 1", 8_000, 300_000,
            || exch(g_any(), dig_any(), secret), s05_peer),
        gen("any_peer_value", "each side on an arbitrary (possibly unreduced) peer value and stored verifier; non-trivial: a value exceeds N", 8_000, 300_000,
            || (exch(g_any(), dig_any(), secret), operand(), prop_oneof![1 => operand(), 1 => (0usize..160, any::<u64>()).prop_map(|(n, s)| B(fill(n, s)))])
                .prop_map(|(e, v, peer)| AnyPeer { e, v, peer }).boxed(), s05_anypeer),
        all("rfc_groups", "model-peer exchange in each built-in group; non-trivial as model_peer", s01_big_cases, s05_peer),
        gen("leading_zero_model", "model-peer exchange at values with a leading zero byte; non-trivial: found", 160, 4_000, lead_strategy, |c, o| {
            let (e, found) = find_lead(c);
            s05_peer(&e, o)?;
            o.nontrivial = found;
            Ok(())
        }),
    ]
}

// =================================================================== S06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pad {
    e: Exch,
    pads: [u8; 4],
    big: bool,
    peer: Option<B>,
}
fn padded(z: u8, b: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; z as usize];
    v.extend_from_slice(b);
    v
}
fn canonical(what: &str, b: &[u8], m: &Model) -> R {
    // zero may be written as one zero byte or as nothing
    ensure!(b.len() <= 1 || b[0] != 0, "{what} has a leading zero byte: {}", hex(b));
    ensure!(num(b) < m.n, "{what} is not below N: {}", hex(b));
    Ok(())
}
fn s06_test(c: &Pad, o: &mut Obs) -> R {
    with_digest!(c.e.d, D, s06::<D>(c, o))
}
fn s06<D: digest::Digest>(c: &Pad, o: &mut Obs) -> R {
    let e = &c.e;
    let m = Model::of(e.g);
    let p = group(e.g);
    let cl = SrpClient::<D>::new(p);
    let sr = SrpServer::<D>::new(p);
    let v = cl.compute_verifier(&e.user, &e.pass, &e.salt);
    let ap = cl.compute_public_ephemeral(&e.a);
    let bp = sr.compute_public_ephemeral(&e.b, &v);
    canonical("verifier", &v, &m)?;
    canonical("A", &ap, &m)?;
    canonical("B", &bp, &m)?;
    let [za, zb, zv, zp] = c.pads;
    // byte functions agree with the integer functions
    ensure_eq!(num(&ap), cl.compute_a_pub(&num(&e.a)), "A: bytes vs integer");
    ensure_eq!(num(&bp), sr.compute_b_pub(&num(&e.b), &su::compute_k::<D>(p), &num(&v)), "B: bytes vs integer");
    let id = SrpClient::<D>::compute_identity_hash(&e.user, &e.pass);
    ensure_eq!(num(&v), cl.compute_v(&SrpClient::<D>::compute_x(&id, &e.salt)), "v: bytes vs integer");
    // padding
    ensure_eq!(B(cl.compute_public_ephemeral(&padded(za, &e.a))), B(ap.clone()), "A depends on padding of a");
    ensure_eq!(B(sr.compute_public_ephemeral(&padded(zb, &e.b), &padded(zv, &v))), B(bp.clone()), "B depends on padding of b or v");
    let peer_b = c.peer.clone().map(|x| x.0).unwrap_or(bp.clone());
    let peer_a = c.peer.clone().map(|x| x.0).unwrap_or(ap.clone());
    let c1 = cl.process_reply(&e.a, &e.user, &e.pass, &e.salt, &peer_b);
    let c2 = cl.process_reply(&padded(za, &e.a), &e.user, &e.pass, &e.salt, &padded(zp, &peer_b));
    let s1 = sr.process_reply(&e.b, &v, &peer_a);
    let s2 = sr.process_reply(&padded(zb, &e.b), &padded(zv, &v), &padded(zp, &peer_a));
    match (&c1, &c2) {
        (Ok(x), Ok(y)) => {
            canonical("client key", x.key(), &m)?;
            ensure_eq!(B(x.key().to_vec()), B(y.key().to_vec()), "client key depends on padding");
            ensure_eq!(B(x.proof().to_vec()), B(y.proof().to_vec()), "client proof depends on padding");
            // repeating gives the same
            let z = cl.process_reply(&e.a, &e.user, &e.pass, &e.salt, &peer_b).map_err(|e| format!("repeat failed: {e:?}"))?;
            ensure!(z.key() == x.key() && z.proof() == x.proof(), "client results change when repeated");
            // integer front end
            let y = num(&peer_b);
            let a_int = cl.compute_a_pub(&num(&e.a));
            let u = su::compute_u::<D>(&mb(&a_int), &mb(&y));
            let xx = SrpClient::<D>::compute_x(&id, &e.salt);
            let s = cl.compute_premaster_secret(&y, &su::compute_k::<D>(p), &xx, &num(&e.a), &u);
            ensure_eq!(num(x.key()), s, "client key: bytes vs integer functions");
        }
        (Err(x), Err(y)) => ensure_eq!(x, y, "client error depends on padding"),
        _ => return Err(format!("client verdict depends on padding: {} vs {}", es(&c1), es(&c2)).into()),
    }
    match (&s1, &s2) {
        (Ok(x), Ok(y)) => {
            canonical("server key", x.key(), &m)?;
            ensure_eq!(B(x.key().to_vec()), B(y.key().to_vec()), "server key depends on padding");
            ensure_eq!(B(x.proof().to_vec()), B(y.proof().to_vec()), "server proof depends on padding");
            let z = sr.process_reply(&e.b, &v, &peer_a).map_err(|e| format!("repeat failed: {e:?}"))?;
            ensure!(z.key() == x.key() && z.proof() == x.proof(), "server results change when repeated");
            let y = num(&peer_a);
            let u = su::compute_u::<D>(&mb(&y), &mb(&num(&bp)));
            let s = sr.compute_premaster_secret(&y, &num(&v), &u, &num(&e.b));
            ensure_eq!(num(x.key()), s, "server key: bytes vs integer functions");
            // the proofs travel between differently padded peers
            if let (Ok(c2), None) = (&c2, &c.peer) {
                ensure!(s1.as_ref().unwrap().verify_client(c2.proof()).is_ok(), "server rejects the proof of a client that saw a padded B");
                ensure!(c2.verify_server(y_proof(&s2)).is_ok(), "client rejects the proof of a server that saw a padded A");
            }
        }
        (Err(x), Err(y)) => ensure_eq!(x, y, "server error depends on padding"),
        _ => return Err(format!("server verdict depends on padding: {} vs {}", es(&s1), es(&s2)).into()),
    }
    let nlen = mb(&m.n).len();
    o.nontrivial = c.pads.iter().filter(|x| **x > 0).count() >= 2;
    o.label_if(ap.len() < nlen || bp.len() < nlen || v.len() < nlen, "an output shorter than N");
    o.label_if(c.peer.is_some(), "arbitrary peer value");
    Ok(())
}
fn y_proof<D: digest::Digest>(s: &Result<SrpServerVerifier<D>, SrpAuthError>) -> &[u8] {
    s.as_ref().map(|x| x.proof()).unwrap_or(&[])
}
pub fn s06_subs() -> Vec<Box<dyn Sub>> {
    vec![gen("padding", "an exchange repeated with 0-255 leading zeros on each integer input, honest or arbitrary peer values; non-trivial: at least two inputs padded", 10_000, 300_000,
        || (exch(g_any(), dig_any(), secret), any::<[u8; 4]>(), prop_oneof![2 => Just([1u8, 1, 1, 1]), 1 => Just([0u8, 0, 0, 0]), 2 => Just([255u8; 4])],
            prop_oneof![3 => Just(None), 1 => operand().prop_map(Some), 1 => text().prop_map(Some)])
            .prop_map(|(e, p, mask, peer)| Pad { e, pads: [p[0] & mask[0], p[1] & mask[1], p[2] & mask[2], p[3] & mask[3]], big: false, peer }).boxed(), s06_test)]
}

// =================================================================== S07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Witness {
    bits: u16,
    seed: u64,
}
fn mr(n: &BigUint, w: &BigUint) -> bool {
    let one = BigUint::from(1u8);
    let nm1 = n - &one;
    let s = nm1.trailing_zeros().unwrap_or(0);
    let d = &nm1 >> s;
    let mut y = w.modpow(&d, n);
    if y == one || y == nm1 {
        return true;
    }
    for _ in 1..s {
        y = &y * &y % n;
        if y == nm1 {
            return true;
        }
    }
    false
}
fn s07_prime(c: &Witness, o: &mut Obs) -> R {
    let p = group(G::Rfc(c.bits));
    let q = &p.n >> 1u32;
    let two = BigUint::from(2u8);
    let w = num(&fill(c.bits as usize / 8 + 8, c.seed));
    let w1 = &w % (&p.n - &two) + &two;
    let w2 = &w % (&q - &two) + &two;
    ensure!(mr(&p.n, &w1), "G_{}: N is composite (witness {w1:x})", c.bits);
    ensure!(mr(&q, &w2), "G_{}: (N-1)/2 is composite (witness {w2:x})", c.bits);
    o.nontrivial = true;
    o.label(format!("G_{}", c.bits));
    Ok(())
}
/// floor(2^k * pi), Machin's formula with guard bits
fn pi_scaled(k: u32) -> BigUint {
    let guard = 64u32;
    let one = BigUint::from(1u8) << (k + guard);
    let atan_inv = |x: u32| -> BigUint {
        let mut term = &one / x;
        let mut pos = BigUint::default();
        let mut neg = BigUint::default();
        let x2 = BigUint::from(x) * x;
        let mut i = 1u32;
        while term != BigUint::default() {
            let t = &term / i;
            if (i / 2) % 2 == 0 {
                pos += t;
            } else {
                neg += t;
            }
            term /= &x2;
            i += 2;
        }
        pos - neg
    };
    let pi = (atan_inv(5) * 4u8 - atan_inv(239)) * 4u8;
    pi >> guard
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GroupCase {
    bits: u16,
}
fn s07_value(c: &GroupCase, o: &mut Obs) -> R {
    use sha2::Digest;
    let p = group(G::Rfc(c.bits));
    ensure_eq!(p.n.bits(), u64::from(c.bits), "bit length of G_{}", c.bits);
    // generator: g is not a quadratic residue, so its order is N-1 (and g^2 != 1)
    let q = &p.n >> 1u32;
    let nm1 = &p.n - 1u8;
    ensure!(p.g > BigUint::from(1u8) && p.g < nm1, "G_{}: g out of range", c.bits);
    let leg = p.g.modpow(&q, &p.n);
    // RFC 5054's generators: whatever their order, they are pinned below; N-1 or (N-1)/2
    ensure!(leg == nm1 || leg == BigUint::from(1u8), "G_{}: N is not prime (Euler)", c.bits);
    let gexp: u32 = match c.bits {
        1024 | 1536 | 2048 => 2,
        3072 | 4096 | 6144 => 5,
        _ => 19,
    };
    ensure_eq!(p.g, BigUint::from(gexp), "generator of G_{}", c.bits);
    ensure!(leg == nm1, "G_{}: g does not generate the full group", c.bits);
    // value of N
    let one = BigUint::from(1u8);
    let rfc3526 = |bits: u32, cst: u32| -> BigUint {
        let pi = pi_scaled(bits - 130) + cst;
        (&one << bits) - (&one << (bits - 64)) - 1u8 + (pi << 64u32)
    };
    match c.bits {
        3072 => ensure_eq!(p.n, rfc3526(3072, 1690314), "N of G_3072"),
        4096 => ensure_eq!(p.n, rfc3526(4096, 240904), "N of G_4096"),
        6144 => ensure_eq!(p.n, rfc3526(6144, 929484), "N of G_6144"),
        8192 => ensure_eq!(p.n, rfc3526(8192, 4743158), "N of G_8192"),
        b => {
            let d = hex(&sha2::Sha256::digest(mb(&p.n)));
            let want = match b {
                1024 => N1024_SHA256,
                1536 => N1536_SHA256,
                _ => N2048_SHA256,
            };
            ensure_eq!(d.as_str(), want, "SHA-256 of N of G_{b}");
        }
    }
    o.nontrivial = true;
    o.inner += 5;
    Ok(())
}
include!("s07_digests.rs");
fn s07_groups(_t: Tier) -> Vec<GroupCase> {
    RFC_SIZES.iter().map(|&bits| GroupCase { bits }).collect()
}
fn s07_wit(t: Tier) -> Vec<Witness> {
    let mut v = vec![];
    for &bits in RFC_SIZES {
        let n = match (t, bits) {
            (Tier::Quick, 0..=2048) => 16,
            (Tier::Quick, 2049..=4096) => 6,
            (Tier::Quick, _) => 3,
            (_, 0..=2048) => 64,
            (_, 2049..=4096) => 48,
            _ => 24,
        };
        for seed in 0..n {
            v.push(Witness { bits, seed: seed + 77 });
        }
    }
    v.sort_by_key(|w| std::cmp::Reverse(w.bits));
    v
}
pub fn s07_subs() -> Vec<Box<dyn Sub>> {
    vec![
        all("values", "each built-in group: bit length, generator order, value against RFC 3526's pi formula (3072..8192) or a digest of the RFC 5054 value; all non-trivial", s07_groups, s07_value),
        all("miller_rabin", "Miller-Rabin witnesses for N and (N-1)/2 of each built-in group; all non-trivial", s07_wit, s07_prime),
        gen("random_witness", "Miller-Rabin with random witnesses in the smaller groups; all non-trivial", 24, 400,
            || (prop::sample::select(&RFC_SIZES[..4]), any::<u64>()).prop_map(|(bits, seed)| Witness { bits, seed }).boxed(), s07_prime),
    ]
}
