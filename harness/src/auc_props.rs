//! Checks A01..A12.

use crate::aucm::*;
use crate::rare::{Pat, arare, arare_auth_cases, arare_cases, arare_strong_cases, ARare};
use crate::fw::*;
use crate::step;
use crate::util::*;
use crate::{ensure, ensure_eq, with_buf, with_combo};
use aucpace::{ClientMessage, Database, Error, ServerMessage, StrongDatabase};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as BASE;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::{Identity, IsIdentity};
use password_hash::{ParamsString, Salt, SaltString};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// Run one login on a fresh world.
pub fn go<D: Dg, const K: usize>(w: &World) -> Result<(Outcome, Db), Fail> {
    let (mut server, db) = w.setup::<D, K>()?;
    let mut client = w.client::<D, RecHasher, K>();
    let out = Sess::new(&w.login).run(&mut client, &mut server, &db)?;
    Ok((out, db))
}
fn go_on<D: Dg, const K: usize>(
    w: &World,
    l: &Login,
    db: &Db,
    model: Option<Side>,
) -> Result<Outcome, Fail> {
    let mut server: Server<D, K> = Server::new(w.rng_server.tape());
    let mut client = w.client::<D, RecHasher, K>();
    Sess::with_model(l, model).run(&mut client, &mut server, db)
}
fn describe(w: &World, o: &mut Obs) {
    let l = &w.login;
    o.label(format!("{:?}", l.variant));
    o.label(if l.pre.is_some() { "ssid pre-established" } else { "ssid negotiated" });
    o.label(if l.implicit { "implicit" } else { "explicit" });
    o.label(format!("{:?}", w.combo));
    o.label(match (w.reg_flavour, l.flavour) {
        (Flavour::Alloc, Flavour::Alloc) => "heap/heap",
        (Flavour::Alloc, _) => "heap/fixed",
        (_, Flavour::Alloc) => "fixed/heap",
        _ => "fixed/fixed",
    });
    o.label(format!("{:?}", l.wire));
    if let HMode::Len(n) = w.hp.mode {
        o.label(format!("hash {n}"));
    }
    o.label_if(l.user.is_empty() || l.pass.is_empty(), "empty user or password");
    o.label_if(l.user.contains(&b':'), "colon in username");
    o.label_if(l.user.len() + l.pass.len() > 255, "long");
}

// ================================================================== A01

fn a01_login(w: &World, o: &mut Obs) -> R {
    describe(w, o);
    with_combo!(w.combo, D, K, {
        let (out, _) = go::<D, K>(w)?;
        ensure!(out.agreed(), "honest login does not agree: {}", out.brief());
        if !w.login.implicit {
            ensure!(out.ta.is_some() && out.tb.is_some(), "authenticators missing");
        }
    });
    o.nontrivial = true;
    Ok(())
}
fn a01_scrypt(w: &World, o: &mut Obs) -> R {
    describe(w, o);
    type H = scrypt::Scrypt;
    let hp = scrypt::Params::new(1 + (w.rng_reg.seed % 4) as u8, 1 + (w.rng_keys.seed % 8) as u32, 1, 32)
        .map_err(|e| Fail(format!("HARNESS: {e}")))?;
    let (mut server, db) = w.setup_h::<sha2::Sha512, H, 16>(hp)?;
    let mut client = w.client::<sha2::Sha512, H, 16>();
    let out = Sess::new(&w.login).run(&mut client, &mut server, &db)?;
    ensure!(out.agreed(), "honest login with scrypt does not agree: {}", out.brief());
    o.nontrivial = true;
    Ok(())
}
/// The default `Client` and `Server` types with the system generator.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OsCase {
    user: B,
    pass: B,
    n: u8,
}
fn a01_default_types(c: &OsCase, o: &mut Obs) -> R {
    use rand_core::OsRng;
    let mut client = aucpace::Client::new(OsRng);
    let mut server = aucpace::Server::new(OsRng);
    let mut db = Db::default();
    let p = scrypt::Params::new(2, 2, 1, 32).unwrap();
    let m = client
        .register_alloc(&c.user, &c.pass, p, scrypt::Scrypt)
        .map_err(|e| Fail(format!("register: {e:?}")))?;
    if let ClientMessage::Registration { username, salt, params, verifier } = m {
        db.store_verifier(username, salt, None, verifier, params);
    }
    let mut keys = std::collections::HashSet::new();
    for _ in 0..c.n {
        let (s0, sm) = server.begin();
        let (ServerMessage::Nonce(s),) = (sm,) else { return Err("nonce".into()) };
        let (c0, cm) = client.begin();
        let ClientMessage::Nonce(t) = cm else { return Err("nonce".into()) };
        let c1 = c0.agree_ssid(s);
        let s1 = s0.agree_ssid(t);
        let (c2, cm) = c1.start_augmentation(&c.user, &c.pass);
        let ClientMessage::Username(u) = cm else { return Err("username".into()) };
        let (s2, sm) = s1.generate_client_info(u, &db, OsRng);
        let ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, .. } = sm else {
            return Err("info".into());
        };
        let params = <scrypt::Scrypt as Hs>::read(&pbkdf_params).map_err(|e| Fail(e.to_string()))?;
        let c3 = c2
            .generate_cpace::<_, 512>(x_pub, &salt, params, scrypt::Scrypt)
            .map_err(|e| Fail(format!("generate_cpace: {e:?}")))?;
        let (s3, sm) = s2.generate_public_key("ci");
        let (c4, cm) = c3.generate_public_key("ci", &mut OsRng);
        let (ServerMessage::PublicKey(ya), ClientMessage::PublicKey(yb)) = (sm, cm) else {
            return Err("pubkey".into());
        };
        let (c5, cm) = c4.receive_server_pubkey(ya).map_err(|e| Fail(format!("{e:?}")))?;
        let s4 = s3.receive_client_pubkey(yb).map_err(|e| Fail(format!("{e:?}")))?;
        let ClientMessage::Authenticator(tb) = cm else { return Err("tb".into()) };
        let (sk, sm) = s4.receive_client_authenticator(tb).map_err(|e| Fail(format!("{e:?}")))?;
        let ServerMessage::Authenticator(ta) = sm else { return Err("ta".into()) };
        let ck = c5.receive_server_authenticator(ta).map_err(|e| Fail(format!("{e:?}")))?;
        ensure_eq!(hex(&ck), hex(&sk), "keys");
        ensure!(keys.insert(ck.to_vec()), "two logins gave the same key");
        o.inner += 1;
    }
    o.nontrivial = true;
    Ok(())
}
fn scrypt_world() -> BoxedStrategy<World> {
    world()
        .prop_map(|mut w| {
            w.combo = Combo::Sha16;
            w.others.truncate(1);
            w
        })
        .boxed()
}
fn a01_matrix(t: Tier) -> Vec<World> {
    // every combination of the choices an application makes, small inputs
    let mut v = vec![];
    let reps = if t == Tier::Quick { 1 } else { 8 };
    for rep in 0..reps {
        for combo in COMBOS {
            for variant in VARIANTS {
                for rf in [Flavour::Fixed(0), Flavour::Alloc] {
                    for lf in [Flavour::Fixed(64), Flavour::Alloc] {
                        for implicit in [false, true] {
                            for pre in [false, true] {
                                for len in [32u8, 64] {
                                    let i = v.len() as u64 + rep;
                                    let s = |k: u64| Seed::new(i * 16 + k);
                                    let ssid = B(fill(16 + (i % 7) as usize, i));
                                    v.push(World {
                                        combo,
                                        reg_flavour: rf,
                                        hp: HP { mode: HMode::Len(len), tag: i as u32 },
                                        reg_pass: B(fill((i % 5) as usize, i)),
                                        login: Login {
                                            variant,
                                            pre: pre.then(|| (ssid.clone(), ssid.clone())),
                                            implicit,
                                            flavour: lf,
                                            wire: [Wire::Direct, Wire::Bincode, Wire::Postcard]
                                                [(i % 3) as usize],
                                            user: B(fill((i % 11) as usize, !i)),
                                            pass: B(fill((i % 5) as usize, i)),
                                            ci_c: B(fill((i % 4) as usize, i)),
                                            ci_s: B(fill((i % 4) as usize, i)),
                                            rng_s: s(1),
                                            rng_c: s(2),
                                            rng_blind: s(3),
                                            order: (i * 2654435761) as u32,
                                            tamper: vec![],
                                        },
                                        rng_client: s(4),
                                        rng_server: s(5),
                                        rng_reg: s(6),
                                        rng_keys: s(7),
                                        others: vec![],
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}
/// A session steered to a rare value.
fn a01_rare(c: &ARare, o: &mut Obs) -> R {
    let (w, hit) = arare(c)?;
    a01_login(&w, o)?;
    rare_seen(c, hit, o);
    Ok(())
}
fn rare_seen(c: &ARare, hit: bool, o: &mut Obs) {
    o.nontrivial = hit;
    o.label(format!("{:?} {:?}", c.target, c.pat));
    o.label_if(!hit, "rare value not found");
}
pub fn a01_subs() -> Vec<Box<dyn Sub>> {
    vec![
        all("rare_values", "a login in which a hash, point, secret or authenticator begins or ends with two zero (or 0xff) bytes; non-trivial: such a session was found", arare_cases, a01_rare),
        gen("login", "every case is a complete honest login", 24_000, 600_000, world, a01_login),
        all("matrix", "every case is a complete honest login; all combinations of variant, flavours, SSID, authentication, hash length, hash function", a01_matrix, a01_login),
        gen("scrypt", "every case is a complete honest login with scrypt", 320, 8_000, scrypt_world, a01_scrypt),
        gen(
            "default_types",
            "every case is a few logins with the default types and the system RNG",
            160,
            3_000,
            || {
                (text_upto(60), text_upto(60), 1u8..4)
                    .prop_map(|(user, pass, n)| OsCase { user, pass, n })
                    .boxed()
            },
            a01_default_types,
        ),
    ]
}

// ================================================================== A02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Diff {
    Pass(Edit),
    /// the client logs in as another registered user with this user's password
    UserTo,
    /// the username is changed on its way to the server
    UserWire(Edit),
    Ssid(Edit, bool),
    CNonce(u32),
    SNonce(u32),
    Ci(Edit, bool),
    Salt(B),
    SaltFlip(u32),
    ParamsTag(u32),
    ParamsLen,
    XPub(PointMod),
    Blinded(PointMod),
    BlindedSalt(PointMod),
    CPub(PointMod),
    SPub(PointMod),
    DbVerifier(u64),
    DbExponent(u64),
    DbSalt(B),
    DbPair(u64),
    /// a value that plays a role in this login mixed into a field
    Mix(MixField, MixSource, Mixing),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum MixField {
    Pass,
    UserWire,
    SsidC,
    SsidS,
    CiC,
    CiS,
}
const MIX_FIELDS: [MixField; 6] =
    [MixField::Pass, MixField::UserWire, MixField::SsidC, MixField::SsidS, MixField::CiC, MixField::CiS];
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum MixSource {
    User,
    Pass,
    UserPass,
    Ci,
    Ssid,
    Salt,
    Verifier,
    XPub,
    /// the digest of the first field, the password, ...
    HashUser,
    HashPass,
    HashCi,
    HashSsid,
    PassHash,
    Tag(u8),
}
const MIX_SOURCES: [MixSource; 18] = [
    MixSource::User,
    MixSource::Pass,
    MixSource::UserPass,
    MixSource::Ci,
    MixSource::Ssid,
    MixSource::Salt,
    MixSource::Verifier,
    MixSource::XPub,
    MixSource::HashUser,
    MixSource::HashPass,
    MixSource::HashCi,
    MixSource::HashSsid,
    MixSource::PassHash,
    MixSource::Tag(0),
    MixSource::Tag(1),
    MixSource::Tag(2),
    MixSource::Tag(3),
    MixSource::Tag(4),
];
fn mix_value<D: Dg>(s: MixSource, w: &World, db: &Db) -> Vec<u8> {
    let l = &w.login;
    let h = |b: &[u8]| D::digest(b).to_vec();
    let ssid = l.pre.as_ref().map(|(a, _)| a.0.clone()).unwrap_or_default();
    let plain = db.plain.get(&l.user.0);
    let salt = plain.map(|x| x.1.as_str().to_string()).unwrap_or_default();
    match s {
        MixSource::User => l.user.0.clone(),
        MixSource::Pass => l.pass.0.clone(),
        MixSource::UserPass => userpass(&l.user, &l.pass),
        MixSource::Ci => l.ci_c.0.clone(),
        MixSource::Ssid => ssid,
        MixSource::Salt => salt.into_bytes(),
        MixSource::Verifier => plain
            .map(|x| enc(&x.0).to_vec())
            .or(db.strong.get(&l.user.0).map(|x| enc(&x.0).to_vec()))
            .unwrap_or_default(),
        MixSource::XPub => db.keys.get(&l.user.0).map(|x| enc(&x.1).to_vec()).unwrap_or_default(),
        MixSource::HashUser => h(&l.user),
        MixSource::HashPass => h(&l.pass),
        MixSource::HashCi => h(&l.ci_c),
        MixSource::HashSsid => h(&ssid),
        MixSource::PassHash => m_hash(&w.hp, &userpass(&l.user, &l.pass), &salt)
            .ok()
            .flatten()
            .unwrap_or_default(),
        MixSource::Tag(n) => vec![n],
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mismatch {
    w: World,
    diff: Diff,
}
fn mismatch() -> BoxedStrategy<Mismatch> {
    let d = prop_oneof![
        4 => edit().prop_map(Diff::Pass),
        1 => Just(Diff::UserTo),
        2 => edit().prop_map(Diff::UserWire),
        2 => (edit(), any::<bool>()).prop_map(|(e, b)| Diff::Ssid(e, b)),
        2 => any::<u32>().prop_map(Diff::CNonce),
        2 => any::<u32>().prop_map(Diff::SNonce),
        2 => (edit(), any::<bool>()).prop_map(|(e, b)| Diff::Ci(e, b)),
        1 => vec(any::<u8>(), 3..49).prop_map(|v| Diff::Salt(B(v))),
        2 => any::<u32>().prop_map(Diff::SaltFlip),
        1 => (1u32..5).prop_map(Diff::ParamsTag),
        1 => Just(Diff::ParamsLen),
        2 => point_mod().prop_map(Diff::XPub),
        2 => point_mod().prop_map(Diff::Blinded),
        2 => point_mod().prop_map(Diff::BlindedSalt),
        2 => point_mod().prop_map(Diff::CPub),
        2 => point_mod().prop_map(Diff::SPub),
        1 => any::<u64>().prop_map(Diff::DbVerifier),
        1 => any::<u64>().prop_map(Diff::DbExponent),
        1 => vec(any::<u8>(), 3..49).prop_map(|v| Diff::DbSalt(B(v))),
        1 => any::<u64>().prop_map(Diff::DbPair),
        10 => (
            prop::sample::select(&MIX_FIELDS[..]),
            prop::sample::select(&MIX_SOURCES[..]),
            prop::sample::select(&MIXINGS[..]),
        )
            .prop_map(|(f, s, m)| Diff::Mix(f, s, m)),
    ];
    (world(), d).prop_map(|(w, diff)| Mismatch { w, diff }).boxed()
}
fn a02_mismatch(c: &Mismatch, o: &mut Obs) -> R {
    let mut w = c.w.clone();
    let strong = w.login.variant.strong();
    let partial = w.login.variant.partial();
    // pick the nearest applicable difference
    let diff = match c.diff.clone() {
        Diff::Ssid(_, _) if w.login.pre.is_none() => Diff::CNonce(w.login.order),
        Diff::CNonce(_) | Diff::SNonce(_) if w.login.pre.is_some() => {
            Diff::Ssid(Edit::FlipBit(w.login.order), w.login.order & 1 == 0)
        }
        Diff::Salt(_) | Diff::SaltFlip(_) if strong => Diff::BlindedSalt(PointMod::AddBase),
        Diff::DbSalt(_) if strong => Diff::DbExponent(w.login.order as u64),
        Diff::Blinded(m) | Diff::BlindedSalt(m) if !strong => Diff::XPub(m),
        Diff::DbExponent(s) if !strong => Diff::DbVerifier(s),
        Diff::DbPair(s) if !partial => Diff::DbVerifier(s),
        Diff::UserTo if w.others.is_empty() => Diff::Pass(Edit::Append(b'!')),
        Diff::Mix(MixField::SsidC, s, m) if w.login.pre.is_none() => Diff::Mix(MixField::CiC, s, m),
        Diff::Mix(MixField::SsidS, s, m) if w.login.pre.is_none() => Diff::Mix(MixField::CiS, s, m),
        d => d,
    };
    let value = match &diff {
        Diff::Mix(_, s, _) => with_combo!(w.combo, D, K, {
            let (_, db) = c.w.setup::<D, K>()?;
            mix_value::<D>(*s, &c.w, &db)
        }),
        _ => vec![],
    };
    let name = format!("{diff:?}");
    o.label(name.split(['(', ' ']).next().unwrap_or("?").to_string());
    describe(&w, o);
    let l = &mut w.login;
    let orig_user = l.user.clone();
    match &diff {
        Diff::Pass(e) => l.pass = B(e.apply(&l.pass)),
        Diff::UserWire(e) => l.tamper.push(Tamper::Username(B(e.apply(&l.user)))),
        Diff::Ssid(e, client) => {
            let (a, b) = l.pre.as_mut().unwrap();
            let x = if *client { a } else { b };
            *x = B(e.apply(x));
        }
        Diff::CNonce(i) => l.tamper.push(Tamper::CNonce(*i)),
        Diff::SNonce(i) => l.tamper.push(Tamper::SNonce(*i)),
        Diff::Ci(e, client) => {
            let x = if *client { &mut l.ci_c } else { &mut l.ci_s };
            *x = B(e.apply(x));
        }
        Diff::Salt(b) => l.tamper.push(Tamper::Salt(b.clone())),
        Diff::SaltFlip(i) => l.tamper.push(Tamper::SaltFlip(*i)),
        Diff::ParamsTag(d) => {
            let mut p = w.hp.clone();
            p.tag += d;
            l.tamper.push(Tamper::Params(p));
        }
        Diff::ParamsLen => {
            let mut p = w.hp.clone();
            p.mode = if p.mode == HMode::Len(32) { HMode::Len(64) } else { HMode::Len(32) };
            l.tamper.push(Tamper::Params(p));
        }
        Diff::XPub(m) => l.tamper.push(Tamper::XPub(*m)),
        Diff::Blinded(m) => l.tamper.push(Tamper::Blinded(*m)),
        Diff::BlindedSalt(m) => l.tamper.push(Tamper::BlindedSalt(*m)),
        Diff::CPub(m) => l.tamper.push(Tamper::CPub(*m)),
        Diff::SPub(m) => l.tamper.push(Tamper::SPub(*m)),
        Diff::Mix(f, s, how) => {
            let old = match f {
                MixField::Pass => &l.pass,
                MixField::UserWire => &l.user,
                MixField::SsidC => &l.pre.as_ref().unwrap().0,
                MixField::SsidS => &l.pre.as_ref().unwrap().1,
                MixField::CiC => &l.ci_c,
                MixField::CiS => &l.ci_s,
            };
            let new = B(how.apply(old, &value));
            if new == *old {
                o.label("mixing changed nothing");
                return Ok(());
            }
            o.label(format!("mixed {s:?}"));
            match f {
                MixField::Pass => l.pass = new,
                MixField::UserWire => l.tamper.push(Tamper::Username(new)),
                MixField::SsidC => l.pre.as_mut().unwrap().0 = new,
                MixField::SsidS => l.pre.as_mut().unwrap().1 = new,
                MixField::CiC => l.ci_c = new,
                MixField::CiS => l.ci_s = new,
            }
        }
        _ => {}
    }
    with_combo!(w.combo, D, K, {
        // registration happens with the original username
        let mut wreg = c.w.clone();
        wreg.login.user = orig_user.clone();
        let (_, mut db) = wreg.setup::<D, K>()?;
        match &diff {
            Diff::UserTo => {
                let (u, p) = &w.others[0];
                ensure!(*u != w.login.user, "HARNESS: same user");
                if *p == w.login.pass {
                    // same password: the other user's credentials really are these
                    w.login.pass = B(Edit::Append(b'?').apply(&w.login.pass));
                }
                w.login.user = u.clone();
            }
            Diff::DbVerifier(s) => {
                let p = point(*s);
                let u = &orig_user.0;
                if let Some(x) = db.plain.get_mut(u) {
                    x.0 = p;
                }
                if let Some(x) = db.strong.get_mut(u) {
                    x.0 = p;
                }
            }
            Diff::DbExponent(s) => {
                db.strong.get_mut(&orig_user.0).unwrap().1 = scalar(*s);
            }
            Diff::DbSalt(b) => {
                let n = b64(b);
                let e = db.plain.get_mut(&orig_user.0).unwrap();
                if e.1.as_str() == n.as_str() {
                    return Ok(());
                }
                e.1 = n;
            }
            Diff::DbPair(s) => {
                db.keys.get_mut(&orig_user.0).unwrap().0 = scalar(*s);
            }
            _ => {}
        }
        let short = w
            .login
            .pre
            .as_ref()
            .map(|(a, b)| a.len() < 16 || b.len() < 16)
            .unwrap_or(false);
        let mut l = w.login.clone();
        for implicit in [true, false] {
            l.implicit = implicit;
            let out = go_on::<D, K>(&w, &l, &db, None)?;
            if short {
                ensure!(
                    !(matches!(out.ck, Some(Ok(_))) || matches!(out.sk, Some(Ok(_)))),
                    "a key was returned although one side refused the SSID: {}",
                    out.brief()
                );
                continue;
            }
            if implicit {
                match (&out.ck, &out.sk) {
                    (Some(Ok(a)), Some(Ok(b))) => {
                        ensure!(a != b, "keys agree in spite of the difference {diff:?}")
                    }
                    _ => return Err(Fail(format!("implicit login with {diff:?} ends with {}", out.brief()))),
                }
            } else {
                ensure_eq!(
                    out.s_err(),
                    Some(Error::MutualAuthFail),
                    "server with {diff:?} ({})",
                    out.brief()
                );
                ensure!(
                    !matches!(out.ck, Some(Ok(_))),
                    "client got a key in spite of {diff:?}: {}",
                    out.brief()
                );
            }
            o.inner += 1;
        }
        // the client's own check, against a server that sends its authenticator regardless
        if !short && !matches!(diff, Diff::UserWire(_) | Diff::Mix(MixField::UserWire, ..)) {
            l.implicit = false;
            let out = go_on::<D, K>(&w, &l, &db, Some(Side::Server))?;
            ensure_eq!(
                out.c_err(),
                Some(Error::MutualAuthFail),
                "client with {diff:?} ({})",
                out.brief()
            );
            o.inner += 1;
        }
    });
    o.nontrivial = true;
    Ok(())
}
pub fn a02_subs() -> Vec<Box<dyn Sub>> {
    vec![gen(
        "mismatch",
        "a login that runs to its end with exactly one difference between the two sides",
        10_000,
        300_000,
        mismatch,
        a02_mismatch,
    )]
}

// ================================================================== A03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AuthCase {
    w: World,
    cands: Vec<Auth>,
    /// flip every bit
    every_bit: bool,
}
fn auth() -> BoxedStrategy<Auth> {
    prop_oneof![
        3 => any::<u32>().prop_map(Auth::Flip),
        6 => any::<u64>().prop_map(Auth::Near),
        1 => (any::<u32>(), any::<u8>()).prop_map(|(i, m)| Auth::Xor(i, m)),
        1 => any::<u8>().prop_map(|v| Auth::Bytes(B(vec![v; 64]))),
        1 => any::<u64>().prop_map(|s| Auth::Bytes(B(fill(64, s)))),
    ]
    .boxed()
}
fn auth_case() -> BoxedStrategy<AuthCase> {
    (world(), vec(auth(), 4..24))
        .prop_map(|(mut w, cands)| {
            w.login.implicit = false;
            AuthCase { w, cands, every_bit: false }
        })
        .boxed()
}
fn a03_auth(c: &AuthCase, o: &mut Obs) -> R {
    describe(&c.w, o);
    let w = &c.w;
    with_combo!(w.combo, D, K, {
        let (_, db) = w.setup::<D, K>()?;
        let base = go_on::<D, K>(w, &w.login, &db, None)?;
        ensure!(base.agreed(), "exact authenticators are refused: {}", base.brief());
        let (ta, tb) = (base.ta.ok_or("no Ta")?, base.tb.ok_or("no Tb")?);
        let Some(Ok(k)) = base.ck else { unreachable!() };
        ensure!(ta != tb, "the two authenticators are equal");
        let mut l = w.login.clone();
        l.implicit = true;
        let imp = go_on::<D, K>(w, &l, &db, None)?;
        ensure!(imp.agreed(), "implicit: {}", imp.brief());
        let Some(Ok(ik)) = imp.ck else { unreachable!() };
        ensure_eq!(hex(&k), hex(&ik), "explicit key against implicit key");
        // another session of the same two parties
        let mut l2 = w.login.clone();
        l2.rng_s = Seed::new(w.login.rng_s.seed ^ 0x77);
        l2.rng_c = Seed::new(w.login.rng_c.seed ^ 0x78);
        let other = go_on::<D, K>(w, &l2, &db, None)?;
        ensure!(other.agreed(), "other session: {}", other.brief());
        ensure!(other.ck != base.ck, "two sessions have the same key");
        let (ota, otb) = (other.ta.unwrap(), other.tb.unwrap());
        ensure!(ota != ta && otb != tb, "two sessions have the same authenticators");

        let mut cands: Vec<Auth> = c.cands.clone();
        let by = |b: [u8; 64]| Auth::Bytes(B(b.to_vec()));
        let mut rev = tb;
        rev.reverse();
        let mut half = tb;
        half[32..].fill(0);
        let mut half2 = ta;
        half2[..32].fill(0);
        cands.extend([
            by([0; 64]),
            by([0xff; 64]),
            by(ta),
            by(tb),
            by(ota),
            by(otb),
            by(k),
            by(rev),
            by(half),
            by(half2),
        ]);
        if c.every_bit {
            cands = (0..512).map(Auth::Flip).collect();
        }
        let mut l = w.login.clone();
        for a in &cands {
            let exact = |t: &[u8; 64]| matches!(a, Auth::Bytes(b) if b.0[..] == t[..]);
            l.tamper = vec![Tamper::Tb(a.clone())];
            let out = go_on::<D, K>(w, &l, &db, None)?;
            if exact(&tb) {
                ensure!(out.agreed(), "exact Tb refused");
            } else {
                ensure_eq!(out.s_err(), Some(Error::MutualAuthFail), "server received {a:?} for Tb");
                ensure!(out.ta.is_none(), "server sent its authenticator after a failure");
            }
            // the client's check, whoever the server is
            l.tamper = vec![Tamper::Ta(a.clone())];
            let out = go_on::<D, K>(w, &l, &db, None)?;
            ensure!(matches!(out.sk, Some(Ok(_))), "server: {}", out.brief());
            if exact(&ta) {
                ensure!(out.agreed(), "exact Ta refused");
            } else {
                ensure_eq!(out.c_err(), Some(Error::MutualAuthFail), "client received {a:?} for Ta");
            }
            o.inner += 2;
        }
    });
    o.nontrivial = true;
    Ok(())
}
fn a03_bits(t: Tier) -> Vec<AuthCase> {
    a01_matrix(Tier::Quick)
        .into_iter()
        .filter(|w| !w.login.implicit)
        .step_by(if t == Tier::Quick { 23 } else { 2 })
        .map(|mut w| {
            w.login.wire = Wire::Direct;
            AuthCase { w, cands: vec![], every_bit: true }
        })
        .collect()
}
fn a03_rare(c: &ARare, o: &mut Obs) -> R {
    let (w, hit) = arare(c)?;
    let cands = (0..12).map(|i| if i < 6 { Auth::Near(c.seed + i) } else { Auth::Flip((c.seed as u32).wrapping_mul(i as u32 * 37)) }).collect();
    a03_auth(&AuthCase { w, cands, every_bit: false }, o)?;
    rare_seen(c, hit, o);
    Ok(())
}
pub fn a03_subs() -> Vec<Box<dyn Sub>> {
    vec![
        all("rare_values", "candidates in sessions whose SSID, secrets or authenticators begin or end with two zero (or 0xff) bytes; non-trivial: such a session was found", arare_auth_cases, a03_rare),
        gen("candidates", "explicit login completed with candidate authenticators on both sides", 1_200, 40_000, auth_case, a03_auth),
        all("every_bit", "every single-bit error of both authenticators", a03_bits, a03_auth),
    ]
}

// ================================================================== X04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CostCase {
    w: World,
    seed: u64,
}
fn x04_auc(c: &CostCase, o: &mut Obs) -> R {
    if !step::works() {
        o.label("single-stepping unavailable");
        return Ok(());
    }
    describe(&c.w, o);
    o.nontrivial = true;
    let w = &c.w;
    with_combo!(w.combo, D, K, {
        let (_, db) = w.setup::<D, K>()?;
        let base = go_on::<D, K>(w, &w.login, &db, None)?;
        ensure!(base.agreed(), "exact authenticators are refused: {}", base.brief());
        let (ta, tb) = (base.ta.ok_or("no Ta")?, base.tb.ok_or("no Tb")?);
        for (spot, right) in [(step::Spot::Tb, tb), (step::Spot::Ta, ta)] {
            let cands = step::wrong_ones(&right, c.seed, 7);
            o.inner += cands.len() as u64;
            let mut l = w.login.clone();
            step::same_cost(&format!("checking {spot:?}"), &cands, |q| {
                let a = Auth::Bytes(B(q.to_vec()));
                l.tamper = vec![if spot == step::Spot::Tb { Tamper::Tb(a) } else { Tamper::Ta(a) }];
                step::arm(spot);
                let out = go_on::<D, K>(w, &l, &db, None);
                let n = step::taken();
                let out = out?;
                let e = if spot == step::Spot::Tb { out.s_err() } else { out.c_err() };
                ensure_eq!(e, Some(Error::MutualAuthFail), "wrong {spot:?}");
                Ok(n.ok_or("HARNESS: comparison not reached")?)
            })?;
        }
    });
    Ok(())
}
pub fn x04_subs() -> Vec<Box<dyn Sub>> {
    vec![
        crate::srp_props::x04_srp_sub(),
        gen("aucpace_authenticators", "an explicit login repeated with wrong 64-byte authenticators on either side that differ from the right one in a chosen byte, prefix, suffix or near miss; oracle: the same number of executed instructions", 60, 2_000,
            || (world(), any::<u64>()).prop_map(|(mut w, seed)| {
                w.login.implicit = false;
                w.login.wire = Wire::Direct;
                CostCase { w, seed }
            }).boxed(), x04_auc),
    ]
}

// ================================================================== A04

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Place {
    XPub,
    Blinded,
    BlindedSalt,
    CPub,
    SPub,
    StoredExponentZero,
    StoredPairZero,
}
const PLACES: [Place; 7] = [
    Place::XPub,
    Place::Blinded,
    Place::BlindedSalt,
    Place::CPub,
    Place::SPub,
    Place::StoredExponentZero,
    Place::StoredPairZero,
];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Neutral {
    w: World,
    place: Place,
    known: bool,
}
fn a04_neutral(c: &Neutral, o: &mut Obs) -> R {
    let mut w = c.w.clone();
    let v = w.login.variant;
    let applicable = match c.place {
        Place::XPub | Place::CPub | Place::SPub => true,
        Place::Blinded | Place::BlindedSalt => v.strong(),
        Place::StoredExponentZero => v.strong() && c.known,
        Place::StoredPairZero => v.partial() && c.known,
    };
    if !applicable {
        o.label("not applicable");
        return Ok(());
    }
    describe(&w, o);
    o.label(format!("{:?}", c.place));
    o.label(if c.known { "known user" } else { "unknown user" });
    let id = PointMod::Identity;
    w.login.tamper = match c.place {
        Place::XPub => vec![Tamper::XPub(id)],
        Place::Blinded => vec![Tamper::Blinded(id)],
        Place::BlindedSalt => vec![Tamper::BlindedSalt(id)],
        Place::CPub => vec![Tamper::CPub(id)],
        Place::SPub => vec![Tamper::SPub(id)],
        _ => vec![],
    };
    with_combo!(w.combo, D, K, {
        let (_, mut db) = w.setup::<D, K>()?;
        let u = w.login.user.0.clone();
        if !c.known {
            db.plain.remove(&u);
            db.strong.remove(&u);
            db.keys.remove(&u);
        }
        match c.place {
            Place::StoredExponentZero => db.strong.get_mut(&u).unwrap().1 = Scalar::ZERO,
            Place::StoredPairZero => {
                db.keys.insert(u, (Scalar::ZERO, RistrettoPoint::identity()));
            }
            _ => {}
        }
        let out = go_on::<D, K>(&w, &w.login, &db, None)?;
        let ill = Some(Error::IllegalPointError);
        let s = out.brief();
        match c.place {
            Place::XPub | Place::BlindedSalt | Place::StoredPairZero => {
                ensure!(
                    out.c_err() == ill && out.c_step == 3,
                    "client must refuse a neutral {:?}: {s}",
                    c.place
                );
                ensure!(out.c_pub.is_none(), "client went on");
            }
            Place::Blinded | Place::StoredExponentZero => {
                ensure!(
                    out.s_err() == ill && out.s_step == 2,
                    "server must refuse a neutral {:?}: {s}",
                    c.place
                );
            }
            Place::CPub => {
                ensure!(out.s_err() == ill && out.s_step == 4, "server must refuse a neutral Yb: {s}");
                ensure!(out.ta.is_none(), "server went on");
            }
            Place::SPub => {
                ensure!(out.c_err() == ill && out.c_step == 5, "client must refuse a neutral Ya: {s}");
                ensure!(out.tb.is_none(), "client went on");
            }
        }
    });
    o.nontrivial = true;
    Ok(())
}
fn a04_enum(t: Tier) -> Vec<Neutral> {
    let mut v = vec![];
    for w in a01_matrix(t) {
        for place in PLACES {
            for known in [true, false] {
                v.push(Neutral { w: w.clone(), place, known });
            }
        }
    }
    if t == Tier::Quick {
        // every combination of variant, flavour, authentication and SSID kind stays covered
        v.retain(|n| n.w.combo == Combo::Sha16 || n.w.combo == Combo::Alt1);
    }
    v
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ValidPoint {
    w: World,
    place: Place,
    m: PointMod,
    known: bool,
}
fn a04_valid(c: &ValidPoint, o: &mut Obs) -> R {
    let mut w = c.w.clone();
    w.login.implicit = true;
    a04_accepts(&w, c, o)
}
fn a04_accepts(w: &World, c: &ValidPoint, o: &mut Obs) -> R {
    let mut w = w.clone();
    describe(&w, o);
    o.label(format!("{:?} {}", c.place, format!("{:?}", c.m).split('(').next().unwrap()));
    w.login.tamper = match c.place {
        Place::XPub => vec![Tamper::XPub(c.m)],
        Place::Blinded => vec![Tamper::Blinded(c.m)],
        Place::BlindedSalt => vec![Tamper::BlindedSalt(c.m)],
        Place::CPub => vec![Tamper::CPub(c.m)],
        Place::SPub => vec![Tamper::SPub(c.m)],
        _ => vec![],
    };
    with_combo!(w.combo, D, K, {
        let (_, mut db) = w.setup::<D, K>()?;
        if !c.known {
            db = Db::default();
        }
        let out = go_on::<D, K>(&w, &w.login, &db, None)?;
        let ill = Some(Error::IllegalPointError);
        ensure!(
            out.c_err() != ill && out.s_err() != ill,
            "valid point {:?} at {:?} was refused as illegal: {}",
            c.m,
            c.place,
            out.brief()
        );
        // with explicit authentication the difference may be noticed, but only as such
        for e in [out.c_err(), out.s_err()].into_iter().flatten() {
            ensure!(
                e == Error::MutualAuthFail,
                "valid point {:?} at {:?} stopped the login: {}",
                c.m,
                c.place,
                out.brief()
            );
        }
        ensure!(
            !w.login.implicit || matches!((&out.ck, &out.sk), (Some(Ok(_)), Some(Ok(_)))),
            "valid point {:?} at {:?} was refused: {}",
            c.m,
            c.place,
            out.brief()
        );
    });
    o.nontrivial = true;
    Ok(())
}
/// Valid encodings with zeros at an end or in the middle, and those of small integers times 256^j.
fn special_points() -> &'static [[u8; 32]] {
    static P: std::sync::OnceLock<Vec<[u8; 32]>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![];
        let mut seed = 0;
        for pat in [Pat::Front0, Pat::Back0, Pat::Ends0, Pat::Mid0] {
            for _ in 0..2 {
                seed += 1;
                let mut p = BASE * scalar(seed);
                for _ in 0..2_000_000 {
                    if pat.hit(&enc(&p)) {
                        v.push(enc(&p));
                        break;
                    }
                    p += BASE;
                }
            }
        }
        for j in 0..32usize {
            let mut n = 0;
            for k in 1..=if j == 31 { 127u8 } else { 255 } {
                for fill in [0u8, 0xff] {
                    let mut b = [0; 32];
                    if fill == 0xff && j > 0 {
                        b[0] = 0xfe;
                        b[1..].fill(0xff);
                        b[31] = 0x7f;
                    }
                    b[j] = k;
                    if n < 4 && CompressedRistretto(b).decompress().is_some() {
                        n += 1;
                        v.push(b);
                    }
                }
            }
        }
        v
    })
}
fn a04_special(t: Tier) -> Vec<ValidPoint> {
    let mut v = vec![];
    for (i, b) in special_points().iter().enumerate() {
        for (j, place) in PLACES[..5].iter().enumerate() {
            for (k, w) in a01_matrix(Tier::Quick).into_iter().enumerate() {
                if matches!(place, Place::Blinded | Place::BlindedSalt) && !w.login.variant.strong() {
                    continue;
                }
                if (5 * i + 3 * j + k) % if t == Tier::Quick { 23 } else { 3 } != 0 {
                    continue;
                }
                v.push(ValidPoint { w, place: *place, m: PointMod::Enc(*b), known: (i + k) % 5 != 0 });
            }
        }
    }
    v
}
fn a04_special_test(c: &ValidPoint, o: &mut Obs) -> R {
    a04_accepts(&c.w, c, o)
}
pub fn a04_subs() -> Vec<Box<dyn Sub>> {
    vec![
        all(
            "special_points",
            "a valid point whose encoding has zeros at an end or in the middle, or is a small number times 256^j, in place of one point of the login; oracle: never refused as illegal",
            a04_special,
            a04_special_test,
        ),
        all(
            "neutral",
            "the neutral point reaches the step under test (inapplicable combinations do not count)",
            a04_enum,
            a04_neutral,
        ),
        gen(
            "neutral_random",
            "the neutral point reaches the step under test, random inputs",
            6_000,
            200_000,
            || {
                (world(), prop::sample::select(&PLACES[..]), any::<bool>())
                    .prop_map(|(w, place, known)| Neutral { w, place, known })
                    .boxed()
            },
            a04_neutral,
        ),
        gen(
            "valid_points",
            "a login in which one point is replaced by another valid point",
            8_000,
            200_000,
            || {
                (world(), prop::sample::select(&PLACES[..5]), point_mod(), any::<bool>())
                    .prop_map(|(w, place, m, known)| ValidPoint { w, place, m, known })
                    .boxed()
            },
            a04_valid,
        ),
    ]
}

// ================================================================== A05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SsidLen {
    combo: Combo,
    ssid: B,
}
fn a05_len(c: &SsidLen, o: &mut Obs) -> R {
    let ok = c.ssid.len() >= 16;
    with_combo!(c.combo, D, K, {
        let mut client: Client<D, RecHasher, K> = Client::new(Tape::new(&[], 1));
        let mut server: Server<D, K> = Server::new(Tape::new(&[], 2));
        let a = client.begin_prestablished_ssid(&c.ssid);
        let b = server.begin_prestablished_ssid(&c.ssid);
        let n = c.ssid.len();
        match (&a, ok) {
            (Ok(_), true) | (Err(Error::InsecureSsid), false) => {}
            (r, _) => return Err(Fail(format!("client: SSID of {n} bytes: {:?}", r.as_ref().err()))),
        }
        match (&b, ok) {
            (Ok(_), true) | (Err(Error::InsecureSsid), false) => {}
            (r, _) => return Err(Fail(format!("server: SSID of {n} bytes: {:?}", r.as_ref().err()))),
        }
        let (_, m) = client.begin();
        ensure!(matches!(cproj(&m), CMsg::Nonce(n) if n.len() == K), "client nonce length");
        let (_, m) = server.begin();
        ensure!(matches!(sproj(&m), SMsg::Nonce(n) if n.len() == K), "server nonce length");
    });
    o.label(if ok { "long enough" } else { "too short" });
    o.nontrivial = true;
    Ok(())
}
fn a05_lens(_: Tier) -> Vec<SsidLen> {
    let mut v = vec![];
    for combo in COMBOS {
        for n in 0..80usize {
            for s in [B(fill(n, n as u64)), B(vec![0; n]), B(vec![b'a'; n]), B(vec![0xff; n])] {
                v.push(SsidLen { combo, ssid: s });
            }
        }
        for n in [255, 256, 257, 1000, 65_535, 65_536, 70_000] {
            v.push(SsidLen { combo, ssid: B(fill(n, n as u64)) });
        }
    }
    v
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SsidDiff {
    /// every byte of the pre-established SSID / of both nonces changed in turn
    EachByte(u8),
    Edit(Edit),
    /// append/prepend runs, so that a truncation or a length cap shows
    Extend(B),
    /// server and client exchange roles for the nonces
    RoleSwap(u8, u8),
    /// both nonces altered by the same amount, each in its own byte
    Pair(NonceOp, u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SsidCase {
    w: World,
    d: SsidDiff,
}
fn a05_bind(c: &SsidCase, o: &mut Obs) -> R {
    let w = &c.w;
    let mut l = w.login.clone();
    l.implicit = true;
    describe(w, o);
    with_combo!(w.combo, D, K, {
        let (_, db) = w.setup::<D, K>()?;
        let expect_differ = |l: &Login, what: &str, o: &mut Obs| -> R {
            let out = go_on::<D, K>(w, l, &db, None)?;
            o.inner += 1;
            match (&out.ck, &out.sk) {
                (Some(Ok(a)), Some(Ok(b))) => {
                    ensure!(a != b, "keys agree although the SSID data differ: {what}")
                }
                _ => return Err(Fail(format!("{what}: {}", out.brief()))),
            }
            Ok(())
        };
        let out = go_on::<D, K>(w, &l, &db, None)?;
        ensure!(out.agreed(), "identical SSID data: {}", out.brief());
        match &c.d {
            SsidDiff::EachByte(m) => {
                let m = (*m).max(1);
                if let Some((a, _)) = &w.login.pre {
                    let n = a.len();
                    let step = (n / 96).max(1);
                    for i in (0..n).step_by(step).chain([n - 1]) {
                        let mut b = a.clone();
                        b.0[i] ^= m;
                        l.pre = Some((a.clone(), b));
                        expect_differ(&l, &format!("byte {i} of {n}"), o)?;
                    }
                } else {
                    for i in 0..K {
                        for bit in [(m.trailing_zeros() as usize) % 8, (m as usize >> 3) % 8] {
                            let i = (8 * i + bit) as u32;
                            l.tamper = vec![Tamper::CNonce(i)];
                            expect_differ(&l, &format!("bit {i} of the client's nonce"), o)?;
                            l.tamper = vec![Tamper::SNonce(i)];
                            expect_differ(&l, &format!("bit {i} of the server's nonce"), o)?;
                        }
                    }
                }
            }
            SsidDiff::Edit(e) => {
                let Some((a, _)) = &w.login.pre else { return Ok(()) };
                let b = B(e.apply(a));
                if b.len() < 16 {
                    return Ok(());
                }
                l.pre = Some((a.clone(), b.clone()));
                expect_differ(&l, &format!("{e:?}"), o)?;
                l.pre = Some((b, a.clone()));
                expect_differ(&l, &format!("{e:?}"), o)?;
            }
            SsidDiff::Extend(x) => {
                let Some((a, _)) = &w.login.pre else { return Ok(()) };
                if x.is_empty() {
                    return Ok(());
                }
                let b = B([&a.0[..], &x.0[..]].concat());
                l.pre = Some((a.clone(), b));
                expect_differ(&l, "extended at the end", o)?;
                let b = B([&x.0[..], &a.0[..]].concat());
                if b.0 != a.0 {
                    l.pre = Some((b, a.clone()));
                    expect_differ(&l, "extended at the front", o)?;
                }
            }
            SsidDiff::Pair(op, m, shift) => {
                if w.login.pre.is_some() {
                    return Ok(());
                }
                let m = (*m).max(1);
                for i in 0..K as u8 {
                    for j in [i, (i.wrapping_add(*shift)) % K as u8] {
                        l.tamper = vec![Tamper::NoncePair(i, j, *op, m)];
                        expect_differ(&l, &format!("byte {i} of the client's and {j} of the server's nonce: {op:?} {m}"), o)?;
                    }
                }
                o.label("both nonces altered");
            }
            SsidDiff::RoleSwap(a, b) => {
                if w.login.pre.is_some() || a == b {
                    return Ok(());
                }
                // both sides draw the same nonce [a; K] and receive [b; K]: the client holds
                // (s, t) = (b, a), the server (a, b)
                let p = Seed { prefix: B(vec![*a; 4096]), seed: 1 };
                let w2 = World { rng_client: p.clone(), rng_server: p, ..w.clone() };
                l.tamper = vec![Tamper::BothNonces(*b)];
                let out = go_on::<D, K>(&w2, &l, &db, None)?;
                if out.c_nonce != vec![*a; K] || out.s_nonce != vec![*a; K] {
                    // nonces drawn in some other way: cannot set this situation up
                    o.label("nonces not taken verbatim");
                    return Ok(());
                }
                match (&out.ck, &out.sk) {
                    (Some(Ok(x)), Some(Ok(y))) => {
                        ensure!(x != y, "keys agree although the nonces' roles are exchanged")
                    }
                    _ => return Err(Fail(out.brief())),
                }
                o.label("roles exchanged");
            }
        }
    });
    o.nontrivial = true;
    Ok(())
}
fn ssid_case() -> BoxedStrategy<SsidCase> {
    let d = prop_oneof![
        2 => any::<u8>().prop_map(SsidDiff::EachByte),
        3 => edit().prop_map(SsidDiff::Edit),
        2 => vec(prop_oneof![Just(0u8), any::<u8>()], 1..40).prop_map(|v| SsidDiff::Extend(B(v))),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| SsidDiff::RoleSwap(a, b)),
        1 => (prop_oneof![Just(NonceOp::Xor), Just(NonceOp::Sum), Just(NonceOp::Difference)], prop_oneof![Just(1u8), Just(0x80), Just(0xff), any::<u8>()], prop_oneof![Just(1u8), Just(8), Just(16), any::<u8>()])
            .prop_map(|(o, m, s)| SsidDiff::Pair(o, m, s)),
    ];
    (world(), d)
        .prop_map(|(mut w, d)| {
            match &d {
                SsidDiff::Edit(_) | SsidDiff::Extend(_) if w.login.pre.is_none() => {
                    let s = B(fill(16 + (w.login.order % 300) as usize, w.login.order as u64));
                    w.login.pre = Some((s.clone(), s));
                }
                SsidDiff::RoleSwap(..) | SsidDiff::Pair(..) => w.login.pre = None,
                _ => {}
            }
            w.others.clear();
            SsidCase { w, d }
        })
        .boxed()
}
pub fn a05_subs() -> Vec<Box<dyn Sub>> {
    vec![
        all("lengths", "every length 0..79 and some long ones, both sides", a05_lens, a05_len),
        gen("binding", "implicit logins with different SSID data on the two sides", 2_400, 60_000, ssid_case, a05_bind),
    ]
}

// ================================================================== A06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unknown {
    w: World,
    u1: B,
    u2: B,
    guess: B,
    server2: Seed,
    seeds: [u64; 6],
    /// half-registered: verifier without key pair or key pair without verifier
    half: u8,
    /// how each request starts: bit 0 negotiated SSID, bit 1 another SSID, bits 2-3 unfinished
    /// sessions before it
    starts: [u8; 8],
}
fn unknown() -> BoxedStrategy<Unknown> {
    (world(), text(), prop_oneof![text().prop_map(Some), Just(None)], edit(), text(), seed(), any::<[u64; 6]>(), (0u8..6, any::<[u8; 8]>()))
        .prop_map(|(w, u1, u2, e, guess, server2, seeds, (half, starts))| {
            let mut u1 = u1;
            while u1 == w.login.user || w.others.iter().any(|o| o.0 == u1) {
                u1.0.push(b'1');
            }
            let mut u2 = u2.unwrap_or_else(|| B(e.apply(&u1)));
            while u2 == u1 || u2 == w.login.user || w.others.iter().any(|o| o.0 == u2) {
                u2.0.push(b'2');
            }
            Unknown { w, u1, u2, guess, server2, seeds, half, starts }
        })
        .boxed()
}
struct Reply {
    kind: &'static str,
    group: String,
    x_pub: B,
    salt: Option<String>,
    blinded_salt: Option<RistrettoPoint>,
    params: String,
    ssid: [u8; 64],
    prs_state: Box<dyn FnOnce(&[u8]) -> ServerPub>,
}
struct ServerPub {
    ya: RistrettoPoint,
    finish: Box<dyn FnOnce(RistrettoPoint, [u8; 64]) -> Result<Key, Error>>,
}
/// Ask the server about a user, with everything that could be observed.
#[allow(clippy::too_many_arguments)]
fn ask<D: Dg + 'static, const K: usize>(
    v: Variant,
    server: &mut Server<D, K>,
    db: &Db,
    ssid: Option<&[u8]>,
    user: &[u8],
    blinded: RistrettoPoint,
    rng: u64,
) -> Result<Reply, Fail> {
    let (st, ssid) = match ssid {
        Some(ssid) => (
            server
                .begin_prestablished_ssid(ssid)
                .map_err(|e| Fail(format!("HARNESS: begin {e:?}")))?,
            m_ssid_pre::<D>(ssid),
        ),
        None => {
            let (st, m) = server.begin();
            let ServerMessage::Nonce(n) = m else { return Err("begin gave no nonce".into()) };
            let mut mine = [0u8; K];
            mine.copy_from_slice(&fill(64, rng)[..K]);
            (st.agree_ssid(mine), m_ssid_nonces::<D>(&n, &mine))
        }
    };
    let rng = Tape::new(&[], rng);
    let (st, m) = match v {
        Variant::Plain => st.generate_client_info(user, db, rng),
        Variant::Partial => st.generate_client_info_partial_aug(user, db, rng),
        Variant::Strong => st
            .generate_client_info_strong(user, blinded, db, rng)
            .map_err(|e| Fail(format!("the login of user {} is answered by {e:?}", hex(user))))?,
        Variant::StrongPartial => st
            .generate_client_info_partial_strong(user, blinded, db, rng)
            .map_err(|e| Fail(format!("the login of user {} is answered by {e:?}", hex(user))))?,
    };
    let prs_state = Box::new(move |ci: &[u8]| {
        let (st, m) = st.generate_public_key(ci);
        let ya = match m {
            ServerMessage::PublicKey(p) => p,
            _ => RistrettoPoint::identity(),
        };
        ServerPub {
            ya,
            finish: Box::new(move |yb, tb| {
                let st = st.receive_client_pubkey(yb)?;
                st.receive_client_authenticator(tb).map(|(k, _)| key::<D>(k))
            }),
        }
    });
    Ok(match m {
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => Reply {
            kind: "plain",
            group: group.into(),
            x_pub: bp(&x_pub),
            salt: Some(salt.as_str().into()),
            blinded_salt: None,
            params: pbkdf_params.as_str().into(),
            ssid,
            prs_state,
        },
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => Reply {
            kind: "strong",
            group: group.into(),
            x_pub: bp(&x_pub),
            salt: None,
            blinded_salt: Some(blinded_salt),
            params: pbkdf_params.as_str().into(),
            ssid,
            prs_state,
        },
        _ => return Err("server answered with another kind of message".into()),
    })
}
fn a06_replies(c: &Unknown, o: &mut Obs) -> R {
    let w = &c.w;
    let v = w.login.variant;
    describe(w, o);
    with_combo!(w.combo, D, K, {
        let (mut server, mut db) = w.setup::<D, K>()?;
        let mut server2: Server<D, K> = Server::new(c.server2.tape());
        let ssid = [b"a pre-established ssid".to_vec(), c.seeds[0].to_le_bytes().to_vec()].concat();
        let (p1, p2) = (point(c.seeds[1]), point(c.seeds[2]));
        let psum = p1 + p2;
        if c.half == 4 && v.partial() {
            // a verifier but no key pair
            let e = db.plain.get(&w.login.user.0).cloned();
            if let Some(e) = e {
                db.plain.insert(c.u1.0.clone(), e);
            }
            let e = db.strong.get(&w.login.user.0).cloned();
            if let Some(e) = e {
                db.strong.insert(c.u1.0.clone(), e);
            }
            o.label("verifier without key pair");
        } else if c.half == 5 {
            db.keys.insert(c.u1.0.clone(), (scalar(c.seeds[3]), BASE * scalar(c.seeds[3])));
            o.label("key pair without verifier");
        }
        let mut nth = 0;
        let mut r = |srv: u8, user: &[u8], u: RistrettoPoint, rng: u64| {
            let s = if srv == 1 { &mut server } else { &mut server2 };
            let how = c.starts[nth % 8];
            nth += 1;
            for _ in 0..(how >> 2) & 3 {
                let _ = s.begin();
                let _ = s.begin_prestablished_ssid([how; 20]);
            }
            let mut ssid = ssid.clone();
            if how & 2 != 0 {
                ssid.push(nth as u8);
            }
            ask::<D, K>(v, s, &db, if how & 1 == 0 { Some(&ssid) } else { None }, user, u, rng)
        };
        let known = &w.login.user.0;
        let k1 = r(1, known, p1, c.seeds[3])?;
        let k2 = r(1, known, p2, c.seeds[4])?;
        let k3 = r(1, known, psum, c.seeds[5])?;
        let x1 = r(1, &c.u1, p1, c.seeds[3].wrapping_add(1))?;
        let x2 = r(1, &c.u1, p2, c.seeds[4].wrapping_add(2))?;
        let x3 = r(1, &c.u1, psum, c.seeds[5].wrapping_add(3))?;
        let y1 = r(1, &c.u2, p1, c.seeds[3].wrapping_add(4))?;
        let z1 = r(2, &c.u1, p1, c.seeds[3].wrapping_add(5))?;
        let fresh_rng = c.seeds[3] != c.seeds[4].wrapping_add(1);

        // ---- same kind and shape
        for (n, x) in [("first", &x1), ("second", &x2), ("other user", &y1), ("other server", &z1)] {
            ensure_eq!(x.kind, k1.kind, "kind of reply ({n})");
            ensure_eq!(x.group, k1.group, "group ({n})");
            match (&x.salt, &k1.salt) {
                (Some(a), Some(b)) => {
                    ensure_eq!(a.len(), b.len(), "length of the salt sent for an unknown user ({n})");
                    let ok = SaltString::from_b64(a)
                        .ok()
                        .and_then(|s| s.decode_b64(&mut [0; 64]).map(|d| d.len()).ok());
                    let kok = SaltString::from_b64(b)
                        .ok()
                        .and_then(|s| s.decode_b64(&mut [0; 64]).map(|d| d.len()).ok());
                    ensure_eq!(ok, kok, "bytes in the salt ({n})");
                }
                (None, None) => {}
                _ => return Err("salt present in one kind of reply only".into()),
            }
            let xp = unpoint(&x.x_pub).ok_or("x_pub does not decode")?;
            ensure!(!xp.is_identity(), "neutral x_pub for an unknown user");
            if let Some(b) = x.blinded_salt {
                ensure!(!b.is_identity(), "neutral blinded salt for an unknown user");
            }
            if x.params != k1.params {
                if x.params.is_empty() {
                    o.finding(
                        "A06-empty-params",
                        "unknown users are sent empty PBKDF parameters where registered users have some".into(),
                    )?;
                } else {
                    return Err(Fail(format!(
                        "parameters sent for an unknown user: {:?}, registered users have {:?}",
                        x.params, k1.params
                    )));
                }
            }
        }
        // ---- what is fixed for registered users is fixed for unknown ones, and vice versa
        let mut fixed = |what: &str, registered: bool, unknown: bool, differs: bool| -> R {
            ensure_eq!(unknown, registered, "{what} repeats for the same user (unknown, registered)");
            if unknown {
                ensure!(differs, "{what} is the same for different usernames or servers");
            }
            o.inner += 1;
            Ok(())
        };
        let half = c.half >= 4;
        if !half {
            if v.strong() {
                let f = |a: &Reply, b: &Reply, s: &Reply| -> bool {
                    a.blinded_salt.unwrap() + b.blinded_salt.unwrap() == s.blinded_salt.unwrap()
                };
                fixed(
                    "unblinding exponent",
                    f(&k1, &k2, &k3),
                    f(&x1, &x2, &x3),
                    x1.blinded_salt != y1.blinded_salt && x1.blinded_salt != z1.blinded_salt,
                )?;
            } else {
                fixed(
                    "salt",
                    k1.salt == k2.salt,
                    x1.salt == x2.salt && x1.salt == x3.salt,
                    x1.salt != y1.salt && x1.salt != z1.salt && x1.salt != k1.salt,
                )?;
            }
            if fresh_rng {
                fixed(
                    "x_pub",
                    k1.x_pub == k2.x_pub,
                    x1.x_pub == x2.x_pub && x1.x_pub == x3.x_pub,
                    x1.x_pub != y1.x_pub && x1.x_pub != z1.x_pub,
                )?;
            }
        }
        // ---- no PRS an outsider can compute is the one the server uses
        let xs = [x1, y1, z1, x2];
        let xp_known = xs.iter().map(|x| x.x_pub.clone()).collect::<Vec<_>>();
        for (i, x) in xs.into_iter().enumerate() {
            let mut guesses: Vec<[u8; 32]> = vec![
                [0; 32],
                [0xff; 32],
                [1; 32],
                enc(&BASE),
                enc(&p1),
                enc(&m_point::<D>(1, &[&c.u1])),
            ];
            for p in &xp_known {
                let p = unpoint(p).unwrap();
                guesses.push(enc(&p));
                let salt = x.salt.clone().unwrap_or_default();
                let hp = HP::parse(&x.params).unwrap_or_default();
                if let Ok(Some(hh)) = m_hash(&hp, &userpass(&c.u1, &c.guess), &salt) {
                    guesses.push(enc(&(p * m_w(&hh).unwrap_or(Scalar::ONE))));
                }
            }
            guesses.push(fill(32, c.seeds[0]).try_into().unwrap());
            let g = guesses[(c.seeds[1] as usize).wrapping_add(i) % guesses.len()];
            let ci = b"channel";
            let m = RefCPace::new::<D>(x.ssid.clone(), g, ci, scalar(c.seeds[2]));
            let sp = (x.prs_state)(ci);
            let keys = m.keys::<D>(&sp.ya);
            let res = (sp.finish)(m.pubkey, keys.tb);
            ensure!(
                res == Err(Error::MutualAuthFail),
                "server accepted an authenticator made without any credentials ({res:?})"
            );
            o.inner += 1;
        }
    });
    o.nontrivial = true;
    Ok(())
}
fn a06_never(c: &Unknown, o: &mut Obs) -> R {
    let w = &c.w;
    describe(w, o);
    with_combo!(w.combo, D, K, {
        let (_, mut db) = w.setup::<D, K>()?;
        let mut l = w.login.clone();
        l.user = c.u1.clone();
        l.pass = c.guess.clone();
        if c.half == 5 {
            db.keys.insert(c.u1.0.clone(), (scalar(c.seeds[3]), BASE * scalar(c.seeds[3])));
            o.label("key pair without verifier");
        }
        for implicit in [false, true] {
            l.implicit = implicit;
            let out = go_on::<D, K>(w, &l, &db, None)?;
            if implicit {
                match (&out.ck, &out.sk) {
                    (Some(Ok(a)), Some(Ok(b))) => {
                        ensure!(a != b, "a client shares a key with the server for an unknown user")
                    }
                    _ => return Err(Fail(format!("unknown user: {}", out.brief()))),
                }
            } else {
                ensure_eq!(out.s_err(), Some(Error::MutualAuthFail), "unknown user: {}", out.brief());
                ensure!(!matches!(out.ck, Some(Ok(_))), "client got a key");
            }
        }
        // two unknown-user logins with the same inputs but other server randomness
        let mut l2 = l.clone();
        l2.implicit = true;
        l2.rng_s = Seed::new(c.seeds[4]);
        let a = go_on::<D, K>(w, &l2, &db, None)?;
        l2.rng_s = Seed::new(c.seeds[4] ^ 1);
        let b = go_on::<D, K>(w, &l2, &db, None)?;
        ensure!(a.sk != b.sk, "server key for an unknown user repeats");
    });
    o.nontrivial = true;
    Ok(())
}
pub fn a06_subs() -> Vec<Box<dyn Sub>> {
    vec![
        gen("replies", "replies for a registered, two unknown users and a second server, compared", 8_000, 200_000, unknown, a06_replies),
        gen("never_completes", "a complete login attempt of an unknown user", 4_000, 100_000, unknown, a06_never),
    ]
}

// ================================================================== A07

fn check_calls(calls: &[Call], user: &[u8], pass: &[u8], hp: &HP, what: &str) -> R {
    ensure!(!calls.is_empty(), "{what}: the hasher was not called");
    for c in calls {
        ensure_eq!(hex(&c.pw), hex(&userpass(user, pass)), "{what}: bytes given to the hasher");
        ensure_eq!(c.params, *hp, "{what}: parameters given to the hasher");
        ensure!(!c.customised, "{what}: algorithm or version forced");
    }
    Ok(())
}
fn a07_inputs(w: &World, o: &mut Obs) -> R {
    describe(w, o);
    let l = &w.login;
    with_combo!(w.combo, D, K, {
        let strong = l.variant.strong();
        let mut db = Db::default();
        for fl in [w.reg_flavour, Flavour::Alloc, Flavour::Fixed(0)] {
            let mut reg: Client<D, RecHasher, K> = Client::new(w.rng_reg.tape());
            let r = register::<D, RecHasher, K>(
                &mut reg,
                Some(&mut db),
                strong,
                fl,
                None,
                l.wire,
                &l.user,
                &l.pass,
                w.hp.clone(),
            )?
            .map_err(|e| Fail(format!("registration: {e:?}")))?;
            check_calls(&r.calls, &l.user, &l.pass, &w.hp, "registration")?;
            let salt = r.calls[0].salt.clone();
            ensure!(r.calls.iter().all(|c| c.salt == salt), "registration uses two salts");
            let hash = m_hash(&w.hp, &userpass(&l.user, &l.pass), &salt).unwrap().unwrap();
            let v = BASE * m_w(&hash).unwrap();
            match &r.msg {
                CMsg::Registration { username, salt: s, params, verifier } if !strong => {
                    ensure_eq!(*username, l.user, "username registered");
                    ensure_eq!(*s, salt, "salt registered");
                    ensure_eq!(*params, w.hp.text(), "parameters registered");
                    ensure_eq!(*verifier, bp(&v), "verifier registered");
                }
                CMsg::StrongRegistration { username, q, params, verifier } if strong => {
                    ensure_eq!(*username, l.user, "username registered");
                    ensure_eq!(*params, w.hp.text(), "parameters registered");
                    ensure_eq!(*verifier, bp(&v), "verifier registered");
                    let q: Option<Scalar> =
                        Scalar::from_canonical_bytes(q.0.clone().try_into().unwrap()).into();
                    let q = q.ok_or("registered exponent is not canonical")?;
                    let s = b64(&enc(&m_strong_salt_point::<D>(&l.user, &l.pass, &q)));
                    ensure_eq!(salt, s.as_str(), "salt derived from the exponent");
                }
                m => return Err(Fail(format!("registration message {m:?}"))),
            }
            o.inner += 1;
            if l.variant.partial() {
                let x = scalar(w.rng_keys.seed);
                db.keys.insert(l.user.0.clone(), (x, BASE * x));
            }
            let out = go_on::<D, K>(w, l, &db, None)?;
            ensure!(out.agreed(), "login: {}", out.brief());
            check_calls(&out.calls, &l.user, &l.pass, &w.hp, "login")?;
            ensure!(out.calls.iter().all(|c| c.salt == salt), "login uses another salt");
        }
    });
    o.nontrivial = true;
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Buf {
    n: u32,
    u: u32,
    p: u32,
    strong: bool,
    seed: u64,
}
fn a07_buffer(c: &Buf, o: &mut Obs) -> R {
    type D = sha2::Sha512;
    const K: usize = 16;
    let user = fill(c.u as usize, c.seed);
    let pass = fill(c.p as usize, !c.seed);
    let n = c.n as usize;
    let hp = HP { mode: HMode::Len(64), tag: 3 };
    let too_long = user.len() + pass.len() + 1 > n;
    o.label(if too_long { "too long" } else { "fits" });
    o.label_if(user.len() + pass.len() + 1 == n, "fits exactly");
    o.label_if(user.len() + pass.len() == n, "one too many");
    let mut reg: Client<D, RecHasher, K> = Client::new(Tape::new(&[], c.seed));
    let r = register::<D, RecHasher, K>(
        &mut reg,
        None,
        c.strong,
        Flavour::Fixed(0),
        Some(n),
        Wire::Direct,
        &user,
        &pass,
        hp.clone(),
    )?;
    match (&r, too_long) {
        (Err(Error::UsernameOrPasswordTooLong), true) => {}
        (Ok(r), false) => check_calls(&r.calls, &user, &pass, &hp, "registration")?,
        (r, _) => {
            return Err(Fail(format!(
                "registering {}+{} bytes with a buffer of {n}: {:?}",
                c.u,
                c.p,
                r.as_ref().map(|_| "accepted").map_err(|e| *e)
            )))
        }
    }
    // the login side
    let log = Log::default();
    let hasher = RecHasher { log: log.clone() };
    let st = reg
        .begin_prestablished_ssid([7; 16])
        .map_err(|e| Fail(format!("HARNESS {e:?}")))?;
    let err = if c.strong {
        let (st, _) = st.start_augmentation_strong(&user, &pass, &mut Tape::new(&[], 9));
        with_buf!(n, N, st.generate_cpace::<N>(point(1), point(2), hp.clone(), hasher).err())
    } else {
        let (st, _) = st.start_augmentation(&user, &pass);
        let s = b64(&[1; 16]);
        with_buf!(n, N, st.generate_cpace::<&SaltString, N>(point(1), &s, hp.clone(), hasher).err())
    };
    let calls = log.lock().unwrap().clone();
    match (err, too_long) {
        (Some(Error::UsernameOrPasswordTooLong), true) => {}
        (None, false) => check_calls(&calls, &user, &pass, &hp, "login")?,
        (e, _) => {
            return Err(Fail(format!(
                "login with {}+{} bytes and a buffer of {n}: {e:?}",
                c.u, c.p
            )))
        }
    }
    o.nontrivial = true;
    Ok(())
}
fn a07_buffers(t: Tier) -> Vec<Buf> {
    let mut v = vec![];
    for n in BUFS {
        let n = n as u32;
        for strong in [false, true] {
            for d in -3i64..=3 {
                let total = i64::from(n) - 1 + d;
                if total < 0 {
                    continue;
                }
                let total = total as u32;
                let mut us = vec![0, 1, total / 3, total / 2, total.saturating_sub(1), total];
                if t == Tier::Thorough && total <= 300 {
                    us = (0..=total).collect();
                } else if total <= 40 {
                    us = (0..=total).collect();
                }
                us.sort();
                us.dedup();
                for u in us {
                    if u > total {
                        continue;
                    }
                    v.push(Buf { n, u, p: total - u, strong, seed: u64::from(n + u * 7) });
                }
            }
            // far too long on either side
            for (u, p) in [(n + 500, 0), (0, n + 500), (n + 1, n + 1), (n, n), (2 * n, 2 * n)] {
                v.push(Buf { n, u, p, strong, seed: 5 });
            }
        }
    }
    v
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    w: World,
    mode: HMode,
}
fn a07_errors(c: &Bad, o: &mut Obs) -> R {
    let w = &c.w;
    let l = &w.login;
    describe(w, o);
    let hp = HP { mode: c.mode.clone(), tag: 1 };
    let want = match &c.mode {
        HMode::NoHash => Some(Error::HashEmpty),
        HMode::Err(n) => Some(Error::PasswordHashing(hasher_error(*n))),
        HMode::Len(n) | HMode::Fill(n, _) if *n == 32 || *n == 64 => None,
        _ => Some(Error::HashSizeInvalid),
    };
    o.label(format!("{:?}", want).chars().take(40).collect::<String>());
    with_combo!(w.combo, D, K, {
        let strong = l.variant.strong();
        for fl in [Flavour::Alloc, Flavour::Fixed(0)] {
            let mut reg: Client<D, RecHasher, K> = Client::new(w.rng_reg.tape());
            let r = register::<D, RecHasher, K>(
                &mut reg,
                None,
                strong,
                fl,
                None,
                Wire::Direct,
                &l.user,
                &l.pass,
                hp.clone(),
            )?;
            ensure_eq!(r.as_ref().err().copied(), want, "registration ({fl:?}) with {:?}", c.mode);
            // at login: the server's parameters make the hasher misbehave
            let mut l2 = l.clone();
            l2.flavour = fl;
            l2.implicit = true;
            l2.tamper = vec![Tamper::Params(hp.clone())];
            let (_, db) = w.setup::<D, K>()?;
            let out = go_on::<D, K>(w, &l2, &db, None)?;
            ensure_eq!(out.c_err(), want, "login ({fl:?}) with {:?}", c.mode);
            if want.is_some() {
                ensure!(out.c_step == 3 && out.c_pub.is_none(), "client went on after a hashing error");
            }
            o.inner += 2;
        }
    });
    o.nontrivial = true;
    Ok(())
}
fn bad() -> BoxedStrategy<Bad> {
    let m = prop_oneof![
        2 => (10u8..=64).prop_map(HMode::Len),
        2 => prop_oneof![Just(10u8), Just(16), Just(20), Just(31), Just(32), Just(33), Just(48), Just(63), Just(64)].prop_map(HMode::Len),
        2 => Just(HMode::NoHash),
        3 => (0u8..8).prop_map(HMode::Err),
        1 => (prop_oneof![Just(32u8), Just(64), Just(40)], prop_oneof![Just(0xffu8), Just(0x80), Just(7)])
            .prop_map(|(n, v)| HMode::Fill(n, v)),
    ];
    (world(), m)
        .prop_map(|(mut w, mode)| {
            w.others.clear();
            Bad { w, mode }
        })
        .boxed()
}
pub fn a07_subs() -> Vec<Box<dyn Sub>> {
    vec![
        gen("foreign_salts", "login with salts, parameters and points no registration of this library gives", 4_000, 120_000, foreign, a09_foreign),
        gen("inputs", "registration and login whose hasher calls are compared with the model", 6_000, 150_000, world, a07_inputs),
        all("buffers", "username and password around the size of the buffer", a07_buffers, a07_buffer),
        gen("errors", "a hasher that fails, returns nothing or a hash of some length", 3_000, 80_000, bad, a07_errors),
    ]
}

// ================================================================== A08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MsgCase {
    combo: Combo,
    kind: u8,
    user: B,
    a: u64,
    b: u64,
    special: u8,
    salt: B,
    /// any text that is a salt, instead of encoded bytes
    salt_text: Option<String>,
    params: String,
    group: String,
}
/// Texts that are valid salts although not always the encoding of bytes.
fn salt_text() -> BoxedStrategy<String> {
    prop_oneof![2 => "[A-Za-z0-9/+.-]{4,64}", 1 => "[A-Za-z0-9/+.-]{4,8}", 1 => "[A-Za-z0-9/+.-]{62,64}"].boxed()
}
fn pparam() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        2 => hp_ok().prop_map(|h| h.text()),
        2 => proptest::collection::btree_map("[a-z0-9-]{1,8}", "[a-zA-Z0-9/+.-]{1,10}", 1..5)
            .prop_map(|m| m.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(",")),
        // up to the longest parameter text there can be (127 bytes)
        2 => (proptest::collection::btree_map("[a-z0-9-]{1,32}", "[a-zA-Z0-9/+.-]{1,40}", 1..9))
            .prop_map(|m| {
                let mut s = String::new();
                for (k, v) in m {
                    let sep = if s.is_empty() { "" } else { "," };
                    let t = format!("{s}{sep}{k}={v}");
                    if t.len() <= 127 { s = t }
                }
                s
            }),
        1 => Just("ln=15,r=8,p=1".to_string()),
    ]
    .boxed()
}
fn msg_case() -> BoxedStrategy<MsgCase> {
    (
        combo(),
        0u8..12,
        text(),
        any::<u64>(),
        any::<u64>(),
        0u8..8,
        (vec(any::<u8>(), 3..49), prop::option::of(salt_text())),
        pparam(),
        prop_oneof![Just("ristretto255".to_string()), "[ -~\u{e9}]{0,12}"],
    )
        .prop_map(|(combo, kind, user, a, b, special, (salt, salt_text), params, group)| MsgCase {
            combo,
            kind,
            user,
            a,
            b,
            special,
            salt: B(salt),
            salt_text,
            params,
            group,
        })
        .boxed()
}
fn special_point(k: u8, s: u64) -> RistrettoPoint {
    match k {
        0 => RistrettoPoint::identity(),
        1 => BASE,
        2 => -BASE,
        _ => point(s),
    }
}
fn bytes64(k: u8, s: u64) -> [u8; 64] {
    match k {
        0 => [0; 64],
        1 => [0xff; 64],
        _ => fill(64, s).try_into().unwrap(),
    }
}
/// Build the message the case describes and hand it to one of the two closures.
fn with_msg<const K: usize, T>(
    c: &MsgCase,
    f: impl FnOnce(ClientMessage<'_, K>) -> T,
    g: impl FnOnce(ServerMessage<'_, K>) -> T,
) -> Result<T, Fail> {
    let params: ParamsString =
        c.params.parse().map_err(|e| Fail(format!("HARNESS: params {e}")))?;
    let salt = match &c.salt_text {
        Some(s) => SaltString::from_b64(s).map_err(|e| Fail(format!("HARNESS: salt {e}")))?,
        None => b64(&c.salt),
    };
    let mut nonce = [0; K];
    nonce.copy_from_slice(&bytes64(c.special, c.a)[..K]);
    let p = special_point(c.special, c.a);
    let p2 = special_point(c.special / 2, c.b);
    let q = match c.special {
        0 => Scalar::ZERO,
        1 => -Scalar::ONE,
        _ => scalar(c.a),
    };
    Ok(match c.kind {
        0 => f(ClientMessage::Nonce(nonce)),
        1 => f(ClientMessage::Username(&c.user)),
        2 => f(ClientMessage::StrongUsername { username: &c.user, blinded: p }),
        3 => f(ClientMessage::PublicKey(p)),
        4 => f(ClientMessage::Authenticator(bytes64(c.special, c.b))),
        5 => f(ClientMessage::Registration { username: &c.user, salt, params, verifier: p2 }),
        6 => f(ClientMessage::StrongRegistration {
            username: &c.user,
            secret_exponent: q,
            params,
            verifier: p2,
        }),
        7 => g(ServerMessage::Nonce(nonce)),
        8 => g(ServerMessage::AugmentationInfo { group: &c.group, x_pub: p, salt, pbkdf_params: params }),
        9 => g(ServerMessage::StrongAugmentationInfo {
            group: &c.group,
            x_pub: p,
            blinded_salt: p2,
            pbkdf_params: params,
        }),
        10 => g(ServerMessage::PublicKey(p)),
        _ => g(ServerMessage::Authenticator(bytes64(c.special, c.b))),
    })
}
fn a08_roundtrip(c: &MsgCase, o: &mut Obs) -> R {
    o.label(format!("kind {}", c.kind));
    with_combo!(c.combo, D, K, {
        let _ = std::marker::PhantomData::<D>;
        for w in [Wire::Bincode, Wire::Postcard] {
            with_msg::<K, R>(
                c,
                |m| c_travel(w, m, |_| ()),
                |m| s_travel(w, m, |_| ()),
            )??;
            o.inner += 1;
        }
    });
    o.nontrivial = true;
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    Flip(u32),
    Set(u32, u8),
    Truncate(u32),
    Insert(u32, u8),
    Remove(u32),
    Splice(u32, B),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BytesCase {
    combo: Combo,
    base: Option<MsgCase>,
    muts: Vec<Mut>,
    raw: B,
    postcard: bool,
    /// read the bytes as the other party's kind of message
    other: bool,
}
fn bytes_case() -> BoxedStrategy<BytesCase> {
    let m = prop_oneof![
        4 => any::<u32>().prop_map(Mut::Flip),
        3 => (prop_oneof![0u32..12, any::<u32>()], any::<u8>()).prop_map(|(i, v)| Mut::Set(i, v)),
        2 => any::<u32>().prop_map(Mut::Truncate),
        1 => (any::<u32>(), any::<u8>()).prop_map(|(i, v)| Mut::Insert(i, v)),
        1 => any::<u32>().prop_map(Mut::Remove),
        1 => (any::<u32>(), vec(any::<u8>(), 0..20)).prop_map(|(i, v)| Mut::Splice(i, B(v))),
    ];
    (
        combo(),
        prop::option::weighted(0.85, msg_case()),
        vec(m, 0..4),
        vec(any::<u8>(), 0..120),
        any::<bool>(),
        prop::bool::weighted(0.15),
    )
        .prop_map(|(combo, base, muts, raw, postcard, other)| BytesCase {
            combo,
            base,
            muts,
            raw: B(raw),
            postcard,
            other,
        })
        .boxed()
}
/// Deserialise; whatever comes out must survive a round trip.
pub fn decode_client<const K: usize>(w: Wire, b: &[u8]) -> Result<Option<CMsg>, Fail> {
    let r: Result<ClientMessage<'_, K>, String> = no_panic(|| match w {
        Wire::Postcard => postcard::from_bytes(b).map_err(|e| e.to_string()),
        _ => bincode::deserialize(b).map_err(|e| e.to_string()),
    })
    .map_err(|p| Fail(format!("deserialising a client message panics: {p}")))?;
    let Ok(m) = r else { return Ok(None) };
    let p = cproj(&m);
    well_formed(match &p {
        CMsg::Registration { salt, params, .. } => (Some(salt), Some(params)),
        CMsg::StrongRegistration { params, .. } => (None, Some(params)),
        _ => (None, None),
    })?;
    c_travel(w, m, |_| ())?;
    Ok(Some(p))
}
pub fn decode_server<const K: usize>(w: Wire, b: &[u8]) -> Result<Option<SMsg>, Fail> {
    let r: Result<ServerMessage<'_, K>, String> = no_panic(|| match w {
        Wire::Postcard => postcard::from_bytes(b).map_err(|e| e.to_string()),
        _ => bincode::deserialize(b).map_err(|e| e.to_string()),
    })
    .map_err(|p| Fail(format!("deserialising a server message panics: {p}")))?;
    let Ok(m) = r else { return Ok(None) };
    let p = sproj(&m);
    well_formed(match &p {
        SMsg::Info { salt, params, .. } => (Some(salt), Some(params)),
        SMsg::StrongInfo { params, .. } => (None, Some(params)),
        _ => (None, None),
    })?;
    s_travel(w, m, |_| ())?;
    Ok(Some(p))
}
fn well_formed((salt, params): (Option<&String>, Option<&String>)) -> R {
    if let Some(s) = salt {
        let ok = password_hash::Salt::from_b64(s).is_ok();
        ensure!(ok, "deserialised salt is not a salt: {s:?}");
    }
    if let Some(p) = params {
        ensure!(
            p.is_empty() || p.parse::<ParamsString>().is_ok(),
            "deserialised parameters are not parameters: {p:?}"
        );
    }
    Ok(())
}
fn a08_bytes(c: &BytesCase, o: &mut Obs) -> R {
    let w = if c.postcard { Wire::Postcard } else { Wire::Bincode };
    with_combo!(c.combo, D, K, {
        let _ = std::marker::PhantomData::<D>;
        let (mut bytes, client, orig) = match &c.base {
            None => (c.raw.0.clone(), c.other, None),
            Some(m) => {
                let mut b = with_msg::<K, Result<Vec<u8>, Fail>>(m, |m| ser(w, &m), |m| ser(w, &m))??;
                let orig = b.clone();
                for mu in &c.muts {
                    let n = b.len().max(1);
                    match mu {
                        Mut::Flip(i) if !b.is_empty() => {
                            let i = *i as usize % (8 * n);
                            b[i / 8] ^= 1 << (i % 8)
                        }
                        Mut::Set(i, v) if !b.is_empty() => b[*i as usize % n] = *v,
                        Mut::Truncate(i) => b.truncate(*i as usize % n),
                        Mut::Insert(i, v) => b.insert(*i as usize % n.min(b.len() + 1), *v),
                        Mut::Remove(i) if !b.is_empty() => {
                            b.remove(*i as usize % n);
                        }
                        Mut::Splice(i, x) => {
                            let i = *i as usize % n.min(b.len() + 1);
                            let e = (i + x.len()).min(b.len());
                            b.splice(i..e, x.0.iter().copied());
                        }
                        _ => {}
                    }
                }
                ((b), (m.kind < 7) ^ c.other, Some(orig))
            }
        };
        let got = if client {
            decode_client::<K>(w, &bytes)?.map(|m| format!("{m:?}"))
        } else {
            decode_server::<K>(w, &bytes)?.map(|m| format!("{m:?}"))
        };
        o.label(if got.is_some() { "accepted" } else { "refused" });
        // a strict prefix of a message is never a message
        if let (Some(orig), false) = (&orig, c.other) {
            if bytes.len() < orig.len() && orig.starts_with(&bytes) {
                ensure!(got.is_none(), "truncated message accepted as {got:?}");
                o.label("strict prefix");
            }
            if bytes != *orig {
                o.nontrivial = true;
            }
        } else {
            o.nontrivial = !bytes.is_empty();
        }
        bytes.clear();
    });
    Ok(())
}
/// A whole run gives the same transcript and keys whatever the wire format.
fn a08_runs(w: &World, o: &mut Obs) -> R {
    describe(w, o);
    with_combo!(w.combo, D, K, {
        let mut res = vec![];
        for wire in [Wire::Direct, Wire::Bincode, Wire::Postcard] {
            let mut w2 = w.clone();
            w2.login.wire = wire;
            let (out, _) = go::<D, K>(&w2)?;
            ensure!(out.agreed(), "{wire:?}: {}", out.brief());
            res.push((out.ck, out.sk, out.transcript));
        }
        ensure!(res[0] == res[1], "run over bincode differs from the direct one");
        ensure!(res[0] == res[2], "run over postcard differs from the direct one");
    });
    o.nontrivial = true;
    Ok(())
}
pub fn a08_subs() -> Vec<Box<dyn Sub>> {
    vec![
        gen("roundtrip", "every case is one message over both formats", 40_000, 1_000_000, msg_case, a08_roundtrip),
        gen("bytes", "bytes that are not a serialised message as it was", 120_000, 4_000_000, bytes_case, a08_bytes),
        gen("runs", "a login over values, bincode and postcard", 2_400, 60_000, world, a08_runs),
    ]
}

// ================================================================== A09

/// One login of the library against a model peer: both agree on everything.
pub fn a09_judge(l: &Login, side: Side, out: &Outcome, db: &Db) -> R {
    ensure!(
        out.agreed(),
        "library against a model {side:?}: {}",
        out.brief()
    );
    let m = out.model_keys.as_ref().ok_or("no model keys")?;
    let Some(Ok(k)) = &out.ck else { unreachable!() };
    ensure_eq!(hex(k), hex(&m.sk), "session key");
    if !l.implicit {
        ensure_eq!(out.tb.as_ref().map(|t| hex(t)), Some(hex(&m.tb)), "Tb");
        ensure_eq!(out.ta.as_ref().map(|t| hex(t)), Some(hex(&m.ta)), "Ta");
    }
    if side == Side::Client {
        if let (Some(u), true) = (out.blinded, l.variant.strong()) {
            let q = db.strong[&l.user.0].1;
            ensure_eq!(out.blinded_salt.map(|p| bp(&p)), Some(bp(&(u * q))), "blinded salt");
        }
    }
    Ok(())
}
pub fn a09_model(w: &World, o: &mut Obs) -> R {
    describe(w, o);
    let l = &w.login;
    with_combo!(w.combo, D, K, {
        let (_, db) = w.setup::<D, K>()?;
        // registration equations
        if l.variant.strong() {
            let (v, q, _) = db.strong.get(&l.user.0).ok_or("user not stored")?;
            let salt = b64(&enc(&m_strong_salt_point::<D>(&l.user, &l.pass, q)));
            let hh = m_hash(&w.hp, &userpass(&l.user, &l.pass), salt.as_str()).unwrap().unwrap();
            ensure_eq!(bp(v), bp(&(BASE * m_w(&hh).unwrap())), "strong verifier");
        } else {
            let (v, salt, _) = db.plain.get(&l.user.0).ok_or("user not stored")?;
            let hh = m_hash(&w.hp, &userpass(&l.user, &l.pass), salt.as_str()).unwrap().unwrap();
            ensure_eq!(bp(v), bp(&(BASE * m_w(&hh).unwrap())), "verifier");
        }
        for side in [Side::Server, Side::Client] {
            let out = go_on::<D, K>(w, l, &db, Some(side))?;
            a09_judge(l, side, &out, &db)?;
            o.inner += 1;
        }
    });
    o.nontrivial = true;
    Ok(())
}
/// One side of the library fed values that no registration of this library would give: credentials
/// stored by some other implementation, and a peer that holds them.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Foreign {
    combo: Combo,
    variant: Variant,
    user: B,
    pass: B,
    ci: B,
    ssid: B,
    hp: HP,
    /// parameter text stored by the server
    params: String,
    /// valid base 64 text of 4 to 64 characters
    salt: String,
    /// kinds and seeds of the scalars: verifier, key pair, exponent, peer's private key
    s: [(u8, u64); 4],
    rng: Seed,
}
fn odd_scalar(k: (u8, u64)) -> Scalar {
    match k.0 % 12 {
        0 => Scalar::ONE,
        1 => -Scalar::ONE,
        2 => Scalar::from(k.1 % 256 + 2),
        3 => -Scalar::from(k.1 % 256 + 2),
        4 => Scalar::from(k.1.max(1)),
        // a power of two, a scalar with zero bytes at one end
        5 => {
            let mut b = [0; 32];
            b[(k.1 % 31) as usize] = 1 << (k.1 >> 8 & 7);
            Scalar::from_bytes_mod_order(b)
        }
        6 => {
            let mut b = scalar(k.1).to_bytes();
            b[..16].fill(0);
            b[16] |= 1;
            Scalar::from_bytes_mod_order(b)
        }
        _ => scalar(k.1),
    }
}
fn model_end<D: Dg>(ssid: &[u8; 64], shared: &RistrettoPoint) -> (Key, [u8; 64], [u8; 64]) {
    let sk1 = h::<D>(2, &[ssid, &enc(shared)]);
    (h::<D>(5, &[ssid, &sk1]), h::<D>(3, &[ssid, &sk1]), h::<D>(4, &[ssid, &sk1]))
}
fn a09_foreign(c: &Foreign, o: &mut Obs) -> R {
    let [wv, x, q, z] = c.s.map(odd_scalar);
    with_combo!(c.combo, D, K, {
        let gen = |ssid: &[u8; 64], prs: &RistrettoPoint| m_point::<D>(1, &[ssid, &enc(prs), &c.ci]);
        // ---- the library as server
        let mut db = Db::default();
        let salt: SaltString = SaltString::from_b64(&c.salt).map_err(|e| Fail(format!("HARNESS: {e:?}")))?;
        let params: ParamsString = c.params.parse().map_err(|e| Fail(format!("HARNESS: {e:?}")))?;
        if c.variant.strong() {
            db.store_verifier_strong(&c.user, None, BASE * wv, q, params);
        } else {
            db.store_verifier(&c.user, salt, None, BASE * wv, params);
        }
        db.keys.insert(c.user.0.clone(), (x, BASE * x));
        let u = m_point::<D>(1, &[&c.user, &c.pass]) * z;
        let mut server: Server<D, K> = Server::new(c.rng.tape());
        let rep = ask::<D, K>(c.variant, &mut server, &db, Some(&c.ssid), &c.user, u, c.rng.seed)?;
        ensure_eq!(rep.params, c.params, "parameters sent");
        if c.variant.strong() {
            ensure_eq!(rep.blinded_salt.map(|p| bp(&p)), Some(bp(&(u * q))), "blinded salt sent");
        } else {
            ensure_eq!(rep.salt.as_deref(), Some(&c.salt[..]), "salt sent");
        }
        if c.variant.partial() {
            ensure_eq!(rep.x_pub, bp(&(BASE * x)), "long-term public key sent");
        }
        let x_pub = curve25519_dalek::ristretto::CompressedRistretto::from_slice(&rep.x_pub)
            .ok()
            .and_then(|p| p.decompress())
            .ok_or("x_pub is not a point")?;
        let g = gen(&rep.ssid, &(x_pub * wv));
        let s = (rep.prs_state)(&c.ci);
        let (sk, _, tb) = model_end::<D>(&rep.ssid, &(s.ya * z));
        let got = (s.finish)(g * z, tb).map_err(|e| Fail(format!("server against a model client: {e:?}")))?;
        ensure_eq!(hex(&got), hex(&sk), "server's session key");
        // ---- the library as client
        for alloc in [false, true] {
            let log = Log::default();
            let hasher = RecHasher { log: log.clone() };
            let salt_text;
            let mut client: Client<D, RecHasher, K> = Client::new(c.rng.tape());
            let st = client
                .begin_prestablished_ssid(&c.ssid)
                .map_err(|e| Fail(format!("client: {e:?}")))?;
            let x_pub = BASE * x;
            let err = |e: Error| Fail(format!("client against a model server: {e:?}"));
            let st = if c.variant.strong() {
                salt_text = b64(&enc(&m_strong_salt_point::<D>(&c.user, &c.pass, &q))).to_string();
                let (st, m) = st.start_augmentation_strong(&c.user, &c.pass, &mut c.rng.tape());
                let ClientMessage::StrongUsername { blinded, .. } = m else { return Err("not a strong username".into()) };
                if alloc {
                    st.generate_cpace_alloc(x_pub, blinded * q, c.hp.clone(), hasher).map_err(err)?
                } else {
                    st.generate_cpace::<4096>(x_pub, blinded * q, c.hp.clone(), hasher).map_err(err)?
                }
            } else {
                salt_text = c.salt.clone();
                let (st, _) = st.start_augmentation(&c.user, &c.pass);
                let salt = Salt::from_b64(&salt_text).map_err(|e| Fail(format!("HARNESS: {e:?}")))?;
                if alloc {
                    st.generate_cpace_alloc(x_pub, salt, c.hp.clone(), hasher).map_err(err)?
                } else {
                    st.generate_cpace::<Salt<'_>, 4096>(x_pub, salt, c.hp.clone(), hasher).map_err(err)?
                }
            };
            let calls = log.lock().unwrap().clone();
            check_calls(&calls, &c.user, &c.pass, &c.hp, "login")?;
            ensure!(calls.iter().all(|k| k.salt == salt_text), "salt given to the hasher: {:?}, not {salt_text:?}", calls[0].salt);
            let hash = m_hash(&c.hp, &userpass(&c.user, &c.pass), &salt_text).unwrap().unwrap();
            let w = m_w(&hash).unwrap();
            let ssid = m_ssid_pre::<D>(&c.ssid);
            let g = gen(&ssid, &(x_pub * w));
            let (st, m) = st.generate_public_key(&c.ci, &mut Tape::new(&[], c.rng.seed ^ 1));
            let ClientMessage::PublicKey(yb) = m else { return Err("not a public key".into()) };
            let (sk, ta, tb) = model_end::<D>(&ssid, &(yb * z));
            let (st, m) = st.receive_server_pubkey(g * z).map_err(err)?;
            let ClientMessage::Authenticator(got) = m else { return Err("not an authenticator".into()) };
            ensure_eq!(hex(&got), hex(&tb), "Tb");
            let got = st.receive_server_authenticator(ta).map_err(err)?;
            ensure_eq!(hex(&got), hex(&sk), "client's session key");
            o.inner += 1;
        }
    });
    o.label(if c.variant.strong() { "strong" } else { "salt" });
    o.label_if(c.salt.len() < 16, "short salt");
    o.label_if(c.salt.len() > 43, "long salt");
    o.nontrivial = true;
    Ok(())
}
fn foreign() -> BoxedStrategy<Foreign> {
    let params = prop_oneof![
        2 => Just(String::new()),
        2 => "ln=[1-9][0-9]?,r=8,p=[1-4]",
        3 => "([a-z][a-z0-9-]{0,9}=[a-zA-Z0-9/+.-]{1,12})(,[b-y][a-z0-9-]{0,9}=[a-zA-Z0-9/+.-]{1,12}){0,4}",
    ]
    .prop_filter("valid parameters", |p: &String| p.parse::<ParamsString>().is_ok());
    let salt = prop_oneof![
        4 => vec(any::<u8>(), 3..=48).prop_map(|b| b64(&b).to_string()),
        1 => (3usize..=48, any::<u8>()).prop_map(|(n, v)| b64(&vec![v; n]).to_string()),
        2 => "[a-zA-Z0-9/+]{4,64}",
    ]
    .prop_filter("valid salt", |t: &String| SaltString::from_b64(t).is_ok());
    (
        (combo(), variant(), text_upto(1000), text_upto(1000), text_upto(300), pre_ssid(), hp_ok()),
        (params, salt, any::<[(u8, u64); 4]>(), seed_special()),
    )
        .prop_map(|((combo, variant, user, pass, ci, ssid, hp), (params, salt, s, rng))| Foreign {
            combo, variant, user, pass, ci, ssid, hp, params, salt, s, rng,
        })
        .boxed()
}
fn a09_rare(c: &ARare, o: &mut Obs) -> R {
    let (w, hit) = arare(c)?;
    a09_model(&w, o)?;
    rare_seen(c, hit, o);
    Ok(())
}
pub fn a09_subs() -> Vec<Box<dyn Sub>> {
    vec![
        all("rare_values", "both roles against the model in sessions in which a hash, point, secret or authenticator begins or ends with two zero (or 0xff) bytes; non-trivial: such a session was found", arare_cases, a09_rare),
        gen("foreign", "library server and library client in turn against a model peer with credentials no registration of this library gives: salts of 4-64 characters, any parameter text, special verifier, pair, exponent and peer scalars", 10_000, 300_000, foreign, a09_foreign),
        gen("model_peers", "library client against model server and model client against library server", 14_000, 400_000, world, a09_model),
        all("matrix", "all combinations of variant, flavours, SSID, authentication, hash length, hash function against the model", a01_matrix, a09_model),
    ]
}

// ================================================================== A10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Blind {
    w: World,
    blinds: Vec<Seed>,
    edit: Edit,
    points: [u64; 2],
}
fn blind() -> BoxedStrategy<Blind> {
    let bl = prop_oneof![
        6 => seed_special(),
        1 => any::<u64>().prop_map(|s| Seed { prefix: B(vec![0; 64]), seed: s }),
        1 => any::<u64>().prop_map(|s| Seed { prefix: B(vec![0; 32]), seed: s }),
        1 => (any::<u64>(), 1usize..4).prop_map(|(s, n)| {
            // the group order: zero after reduction
            let l = unhex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010").unwrap();
            let mut p = vec![];
            for _ in 0..n {
                p.extend_from_slice(&l);
                p.extend_from_slice(&[0; 32]);
            }
            Seed { prefix: B(p), seed: s }
        }),
    ];
    (world(), vec(bl, 2..5), edit(), any::<[u64; 2]>())
        .prop_map(|(mut w, blinds, edit, points)| {
            w.login.variant =
                if w.login.variant.partial() { Variant::StrongPartial } else { Variant::Strong };
            w.login.implicit = true;
            w.others.clear();
            Blind { w, blinds, edit, points }
        })
        .boxed()
}
fn a10_blind(c: &Blind, o: &mut Obs) -> R {
    let w = &c.w;
    describe(w, o);
    with_combo!(w.combo, D, K, {
        let strong = true;
        let mut db = Db::default();
        let l = &w.login;
        let mut reg: Client<D, RecHasher, K> = Client::new(w.rng_reg.tape());
        let r = register::<D, RecHasher, K>(
            &mut reg, Some(&mut db), strong, w.reg_flavour, None, Wire::Direct, &l.user, &l.pass, w.hp.clone(),
        )?
        .map_err(|e| Fail(format!("registration: {e:?}")))?;
        let salt = r.calls.first().ok_or("hasher not called")?.salt.clone();
        let x = scalar(c.points[0]);
        db.keys.insert(l.user.0.clone(), (x, BASE * x));
        let q = db.strong[&l.user.0].1;

        let mut seen: Vec<(Vec<u8>, Outcome)> = vec![];
        for b in &c.blinds {
            let mut l2 = l.clone();
            l2.rng_blind = b.clone();
            let out = go_on::<D, K>(w, &l2, &db, None)?;
            ensure!(out.agreed(), "login with blinding {b:?}: {}", out.brief());
            ensure!(
                out.calls.iter().all(|k| k.salt == salt) && !out.calls.is_empty(),
                "client recovered salt {:?}, registered {salt:?}",
                out.calls.first().map(|k| &k.salt)
            );
            let u = out.blinded.unwrap();
            ensure!(!u.is_identity(), "blinded point is neutral");
            ensure_eq!(out.blinded_salt.map(|p| bp(&p)), Some(bp(&(u * q))), "server's reply");
            ensure!(bp(&u) != bp(&m_point::<D>(1, &[&l.user, &l.pass])) || b.prefix.len() > 0, "not blinded");
            let mut t = b.tape();
            let mut stream = vec![0u8; 512];
            rand_core::RngCore::fill_bytes(&mut t, &mut stream);
            for (s2, o2) in &seen {
                // the same stream gives the same blinding, anything that differs in the first
                // 32 bytes hides it differently
                if s2[..32] != stream[..32] && !low_zero(&s2[..64]) && !low_zero(&stream[..64]) {
                    ensure!(o2.blinded != out.blinded, "two logins send the same blinded point");
                    ensure!(o2.blinded_salt != out.blinded_salt, "two logins get the same blinded salt");
                }
                if s2 == &stream {
                    ensure!(o2.blinded == out.blinded, "equal generator output, other blinded point");
                }
            }
            seen.push((stream, out));
            o.inner += 1;
        }
        // other password / username / exponent: other salt
        let base = &seen[0].1;
        let other = |l2: &Login, db: &Db, what: &str| -> R {
            let out = go_on::<D, K>(w, l2, db, None)?;
            let s = out.calls.first().map(|k| k.salt.clone());
            ensure!(s.is_some() && s != Some(salt.clone()), "{what}: same salt {s:?}");
            Ok(())
        };
        let mut l2 = l.clone();
        l2.pass = B(c.edit.apply(&l.pass));
        other(&l2, &db, "another password")?;
        let mut l2 = l.clone();
        l2.user = B(c.edit.apply(&l.user));
        let concat = |l: &Login| [&l.user.0[..], &l.pass.0[..]].concat();
        if concat(&l2) != concat(l) {
            let e = db.strong[&l.user.0].clone();
            db.strong.insert(l2.user.0.clone(), e);
            db.keys.insert(l2.user.0.clone(), (x, BASE * x));
            other(&l2, &db, "another username")?;
        }
        db.strong.get_mut(&l.user.0).unwrap().1 = scalar(c.points[1]);
        other(l, &db, "another exponent")?;
        let _ = base;
    });
    o.nontrivial = true;
    Ok(())
}
fn low_zero(b: &[u8]) -> bool {
    // streams that start with (multiples of) zero are drawn again
    b[..32].iter().all(|x| *x == 0) || b.starts_with(&[0xed, 0xd3, 0xf5, 0x5c])
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReplyCase {
    variant: Variant,
    combo: Combo,
    user: B,
    q: u64,
    u: PointMod,
    us: u64,
    seeds: [u64; 5],
    ssid: B,
    hp: HP,
}
/// The reply is blinded * q whatever else is stored or drawn.
fn a10_reply(c: &ReplyCase, o: &mut Obs) -> R {
    let u = c.u.apply(&point(c.us));
    let q = scalar(c.q);
    with_combo!(c.combo, D, K, {
        for i in 0..2u64 {
            let mut db = Db::default();
            db.store_verifier_strong(
                &c.user,
                None,
                if i == 0 { point(c.seeds[0]) } else { BASE },
                q,
                if i == 0 { c.hp.params() } else { ParamsString::default() },
            );
            let x = scalar(c.seeds[1]);
            db.keys.insert(c.user.0.clone(), (x, BASE * x));
            let mut server: Server<D, K> = Server::new(Tape::new(&[], c.seeds[2].wrapping_add(i)));
            let rep = ask::<D, K>(c.variant, &mut server, &db, Some(&c.ssid), &c.user, u, c.seeds[3].wrapping_add(i))?;
            ensure_eq!(rep.blinded_salt.map(|p| bp(&p)), Some(bp(&(u * q))), "blinded salt");
            let want = if i == 0 { c.hp.text() } else { String::new() };
            ensure_eq!(rep.params, want, "parameters sent");
        }
    });
    o.nontrivial = true;
    Ok(())
}
fn a10_rare(c: &ARare, o: &mut Obs) -> R {
    let (mut w, hit) = arare(c)?;
    w.login.implicit = true;
    let blinds = vec![w.login.rng_blind.clone(), Seed::new(c.seed ^ 0x1234_5678), w.login.rng_blind.clone()];
    a10_blind(&Blind { w, blinds, edit: Edit::Append(7), points: [c.seed, c.seed + 1] }, o)?;
    rare_seen(c, hit, o);
    Ok(())
}
pub fn a10_subs() -> Vec<Box<dyn Sub>> {
    vec![
        all("rare_values", "logins in which the blinded point, the blinded salt or the salt begins or ends with two zero bytes; non-trivial: such a session was found", arare_strong_cases, a10_rare),
        gen("recover", "several strong logins with different blinding", 4_000, 120_000, blind, a10_blind),
        gen(
            "reply",
            "server reply to an arbitrary blinded point",
            12_000,
            300_000,
            || {
                (
                    prop_oneof![Just(Variant::Strong), Just(Variant::StrongPartial)],
                    combo(),
                    text(),
                    any::<u64>(),
                    point_mod(),
                    any::<u64>(),
                    any::<[u64; 5]>(),
                    pre_ssid(),
                    hp_ok(),
                )
                    .prop_map(|(variant, combo, user, q, u, us, seeds, ssid, hp)| ReplyCase {
                        variant,
                        combo,
                        user,
                        q,
                        u,
                        us,
                        seeds,
                        ssid,
                        hp,
                    })
                    .boxed()
            },
            a10_reply,
        ),
    ]
}

// ================================================================== A11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// register (or re-register) user i with password j
    Register { u: u8, p: u8, strong: bool, alloc: bool, hp: HP },
    /// replace the user's long-term pair
    NewPair { u: u8 },
    /// remove the user
    Delete { u: u8 },
    /// begin a login
    Start {
        u: u8,
        p: u8,
        variant: Variant,
        implicit: bool,
        pre: Option<u8>,
        /// the two ends do not belong together
        cross: u8,
        alloc: bool,
        order: u32,
        wire: Wire,
    },
    /// let one session take some steps
    Step { s: u8, n: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    combo: Combo,
    seed: u64,
    names: Vec<B>,
    passes: Vec<B>,
    ops: Vec<Op>,
}
pub fn history() -> BoxedStrategy<History> {
    history_of(4, 4..40)
}
/// `users` names and as many passwords, a history of `len` operations.
fn history_of(users: u8, len: std::ops::Range<usize>) -> BoxedStrategy<History> {
    // mostly the password with the user's own number, so that logins often match
    let up = (0..users, prop_oneof![1 => (0..users).prop_map(Some), 1 => Just(None)])
        .prop_map(|(u, p)| (u, p.unwrap_or(u)));
    let op = prop_oneof![
        3 => (up.clone(), any::<bool>(), any::<bool>(), hp_ok())
            .prop_map(|((u, p), strong, alloc, hp)| Op::Register { u, p, strong, alloc, hp }),
        1 => (0..users).prop_map(|u| Op::NewPair { u }),
        1 => (0..users).prop_map(|u| Op::Delete { u }),
        5 => (
            (up, variant(), any::<bool>()),
            (prop::option::weighted(0.4, 0u8..3), prop_oneof![5 => Just(0u8), 1 => Just(1), 1 => Just(2), 1 => Just(3)]),
            (any::<bool>(), any::<u32>(), wire()),
        )
            .prop_map(|(((u, p), variant, implicit), (pre, cross), (alloc, order, wire))| Op::Start {
                u, p, variant, implicit, pre, cross, alloc, order, wire,
            }),
        9 => (any::<u8>(), 1u8..6).prop_map(|(s, n)| Op::Step { s, n }),
    ];
    let names = vec(text_upto(24), users as usize..users as usize + 1).prop_map(|mut v| {
        // distinct, some related
        for i in 0..v.len() {
            while v[..i].contains(&v[i]) {
                v[i].0.push(b'0'.wrapping_add(i as u8));
            }
        }
        v
    });
    let related = (text_upto(12), vec(edit(), users as usize - 2..users as usize - 1)).prop_map(|(a, es)| {
        let mut v = vec![a.clone(), B([&a.0[..], b":"].concat())];
        for e in es {
            let next = B(e.apply(&v[v.len() - 1]));
            v.insert(v.len() - 1, next);
        }
        for i in 0..v.len() {
            while v[..i].contains(&v[i]) {
                v[i].0.push(b'0'.wrapping_add(i as u8));
            }
        }
        v
    });
    let names = prop_oneof![names.boxed(), related.boxed()].boxed();
    (combo(), any::<u64>(), names.clone(), names, vec(op, len))
        .prop_map(|(combo, seed, names, passes, ops)| History { combo, seed, names, passes, ops })
        .boxed()
}
struct Live<'a, D: Dg, const K: usize> {
    s: Sess<'a, D, RecHasher, K>,
    /// what the server had stored at lookup time: Some(password index) / None unknown
    at_lookup: Option<Option<u8>>,
    idx: usize,
}
pub fn a11_history(h: &History, o: &mut Obs) -> R {
    with_combo!(h.combo, D, K, a11_run::<D, K>(h, o))
}
fn a11_run<D: Dg, const K: usize>(h: &History, o: &mut Obs) -> R {
    // configurations first, so that sessions can borrow them
    let mut cfgs: BTreeMap<usize, (Login, u8, u8, u8)> = BTreeMap::new();
    for (i, op) in h.ops.iter().enumerate() {
        if let Op::Start { u, p, variant, implicit, pre, cross, alloc, order, wire } = op {
            let s = |k: u64| Seed::new(h.seed ^ (i as u64 * 1000 + k).wrapping_mul(0x9e37_79b9_7f4a_7c15));
            let ssid = |n: u8| {
                let (f, n) = (h.seed >> 8, n as usize);
                let mut v = fill(16 + (f >> 3) as usize % 60, f);
                let end = v.len() - 1;
                B(match f % 8 {
                    // alike but for the first byte, one byte in the middle, the last byte
                    0 => { v[0] ^= n as u8; v }
                    1 => { v[end / 2] ^= n as u8; v }
                    2 => { v[end] ^= n as u8; v }
                    // one a prefix or suffix of the other
                    3 => { v.extend(vec![0; n]); v }
                    4 => [&vec![0; n][..], &v[..]].concat(),
                    // the same bytes in another order
                    5 => { v = (0..=end as u8).collect(); v.rotate_left(n); v }
                    6 => fill(v.len(), n as u64),
                    _ => fill(16 + n, n as u64),
                })
            };
            let mut tamper = vec![];
            let mut pre2 = pre.map(|n| (ssid(n), ssid(n)));
            // the context of the login differs between sessions, too
            let ctx = [&b"ci"[..], &[b'j', 0, b'x'][..(h.seed >> 20 & u64::from(*order) & 3) as usize]].concat();
            let mut ci = (B(ctx.clone()), B(ctx));
            match cross {
                0 => {}
                1 => match &mut pre2 {
                    Some((_, b)) => *b = ssid(pre.unwrap() + 1),
                    None => tamper.push(Tamper::SNonce(*order)),
                },
                2 => ci.1 .0[0] ^= 1,
                _ => tamper.push(Tamper::CPub(PointMod::AddBase)),
            }
            cfgs.insert(
                i,
                (
                    Login {
                        variant: *variant,
                        pre: pre2,
                        implicit: *implicit,
                        flavour: if *alloc { Flavour::Alloc } else { Flavour::Fixed(0) },
                        wire: *wire,
                        user: h.names[*u as usize].clone(),
                        pass: h.passes[*p as usize].clone(),
                        ci_c: ci.0,
                        ci_s: ci.1,
                        rng_s: s(1),
                        rng_c: s(2),
                        rng_blind: s(3),
                        order: *order,
                        tamper,
                    },
                    *u,
                    *p,
                    *cross,
                ),
            );
        }
    }
    let mut client: Client<D, RecHasher, K> = Client::new(Tape::new(&[], h.seed));
    let mut server: Server<D, K> = Server::new(Tape::new(&[], h.seed ^ 1));
    let mut db = Db::default();
    // model: what is registered
    let mut plain: BTreeMap<u8, u8> = BTreeMap::new();
    let mut strong_m: BTreeMap<u8, u8> = BTreeMap::new();
    let mut live: Vec<Live<'_, D, K>> = vec![];
    let mut keys: std::collections::BTreeSet<Key> = Default::default();
    let mut done = 0u32;
    let mut ok_n = 0u32;

    let step = |lv: &mut Live<'_, D, K>,
                    client: &mut Client<D, RecHasher, K>,
                    server: &mut Server<D, K>,
                    db: &Db,
                    plain: &BTreeMap<u8, u8>,
                    strong_m: &BTreeMap<u8, u8>|
     -> Result<bool, Fail> {
        let (cfg, u, _, _) = &cfgs[&lv.idx];
        let before = lv.s.before_lookup();
        db.lookups.borrow_mut().clear();
        let moved = lv.s.step(client, server, db)?;
        let looked = db.lookups.borrow().clone();
        for (_, name) in &looked {
            ensure_eq!(hex(name), hex(&cfg.user), "user looked up in session {}", lv.idx);
        }
        if before && !lv.s.before_lookup() {
            ensure!(!looked.is_empty(), "server answered without looking the user up");
            let m = if cfg.variant.strong() { strong_m } else { plain };
            let known = m.get(u).copied();
            // partially augmented users also need a key pair
            let known = if cfg.variant.partial() && !db.keys.contains_key(&cfg.user.0) { None } else { known };
            lv.at_lookup = Some(known);
        } else {
            ensure!(looked.is_empty(), "lookup outside the augmentation step");
        }
        Ok(moved)
    };
    let mut judge = |lv: Live<'_, D, K>| -> R {
        let (cfg, _, p, cross) = &cfgs[&lv.idx];
        let stored = lv.at_lookup.ok_or("HARNESS: session ended before the lookup")?;
        let out = lv.s.finish();
        let good = stored.map(|s| h.passes[s as usize] == h.passes[*p as usize]).unwrap_or(false) && *cross == 0;
        done += 1;
        if good {
            ok_n += 1;
            ensure!(out.agreed(), "login {} should succeed: {}", lv.idx, out.brief());
        } else if cfg.implicit {
            match (&out.ck, &out.sk) {
                (Some(Ok(a)), Some(Ok(b))) => ensure!(a != b, "login {} should fail but agrees", lv.idx),
                _ => return Err(Fail(format!("login {}: {}", lv.idx, out.brief()))),
            }
        } else {
            ensure_eq!(out.s_err(), Some(Error::MutualAuthFail), "login {} should fail: {}", lv.idx, out.brief());
            ensure!(out.ck.is_none(), "login {}: client finished: {}", lv.idx, out.brief());
        }
        let mut mine: Vec<Key> = vec![];
        for k in [out.ck, out.sk].into_iter().flatten().flatten() {
            if !mine.contains(&k) {
                mine.push(k);
            }
        }
        for k in mine {
            ensure!(keys.insert(k), "two sessions share a session key");
        }
        Ok(())
    };

    for (i, op) in h.ops.iter().enumerate() {
        match op {
            Op::Register { u, p, strong, alloc, hp } => {
                let fl = if *alloc { Flavour::Alloc } else { Flavour::Fixed(0) };
                let name = &h.names[*u as usize];
                register::<D, RecHasher, K>(
                    &mut client,
                    Some(&mut db),
                    *strong,
                    fl,
                    None,
                    Wire::Direct,
                    name,
                    &h.passes[*p as usize],
                    hp.clone(),
                )?
                .map_err(|e| Fail(format!("registration: {e:?}")))?;
                if *strong { &mut strong_m } else { &mut plain }.insert(*u, *p);
                if !db.keys.contains_key(&name.0) {
                    let (x, xp) = server.generate_long_term_keypair();
                    db.keys.insert(name.0.clone(), (x, xp));
                }
            }
            Op::NewPair { u } => {
                let name = &h.names[*u as usize];
                if db.keys.contains_key(&name.0) {
                    let (x, xp) = server.generate_long_term_keypair();
                    db.keys.insert(name.0.clone(), (x, xp));
                }
            }
            Op::Delete { u } => {
                let name = &h.names[*u as usize];
                db.plain.remove(&name.0);
                db.strong.remove(&name.0);
                db.keys.remove(&name.0);
                plain.remove(u);
                strong_m.remove(u);
            }
            Op::Start { .. } => {
                live.push(Live { s: Sess::new(&cfgs[&i].0), at_lookup: None, idx: i });
            }
            Op::Step { s, n } => {
                if live.is_empty() {
                    continue;
                }
                let k = *s as usize % live.len();
                for _ in 0..*n {
                    if !step(&mut live[k], &mut client, &mut server, &db, &plain, &strong_m)? {
                        judge(live.swap_remove(k))?;
                        break;
                    }
                }
            }
        }
    }
    let open = live.len();
    while let Some(mut lv) = live.pop() {
        while step(&mut lv, &mut client, &mut server, &db, &plain, &strong_m)? {}
        judge(lv)?;
    }
    drop(judge);
    o.inner += u64::from(done);
    o.label_if(ok_n > 0, "a login succeeded");
    o.label_if(ok_n < done, "a login failed");
    o.label_if(open > 1, "several open at the end");
    o.nontrivial = done >= 2;
    Ok(())
}
pub fn a11_subs() -> Vec<Box<dyn Sub>> {
    vec![gen(
        "history",
        "at least two logins in the history",
        5_000,
        150_000,
        history,
        a11_history,
    ),
    gen(
        "long_history",
        "hundreds of logins on one pair of objects, up to forty users",
        8,
        400,
        || prop_oneof![history_of(4, 900..2200), history_of(40, 900..2200)].boxed(),
        a11_history,
    )]
}

// ================================================================== A12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PairCase {
    w: World,
    /// secrets of pairs stored in turn
    pairs: Vec<u64>,
    mismatch: u64,
}
fn a12_pairs(c: &PairCase, o: &mut Obs) -> R {
    let w = &c.w;
    describe(w, o);
    with_combo!(w.combo, D, K, {
        let (mut server, mut db) = w.setup::<D, K>()?;
        let l = &w.login;
        let u = l.user.0.clone();
        let mut client = w.client::<D, RecHasher, K>();
        // generated pairs: consistent, valid, distinct
        let mut seen = std::collections::BTreeSet::new();
        for (x, xp) in db.keys.values() {
            ensure_eq!(bp(&(BASE * x)), bp(xp), "generated pair: public = base * private");
            ensure!(!xp.is_identity() && *x != Scalar::ZERO, "generated pair is degenerate");
            ensure!(seen.insert(enc(xp)), "generated pair repeats");
        }
        for _ in 0..2 {
            let (x, xp) = server.generate_long_term_keypair();
            ensure_eq!(bp(&(BASE * x)), bp(&xp), "generated pair: public = base * private");
            ensure!(!xp.is_identity() && x != Scalar::ZERO, "generated pair is degenerate");
            ensure!(seen.insert(enc(&xp)), "generated pair repeats");
        }
        for (i, s) in std::iter::once(&None).chain(c.pairs.iter().map(Some).collect::<Vec<_>>().iter()).enumerate() {
            if let Some(s) = s {
                let x = scalar(**s);
                db.keys.insert(u.clone(), (x, BASE * x));
            }
            for round in 0..2 {
                let mut l2 = l.clone();
                l2.rng_s = Seed::new(l.rng_s.seed ^ (i as u64 * 2 + round));
                let out = Sess::new(&l2).run(&mut client, &mut server, &db)?;
                ensure_eq!(
                    out.x_pub.map(|p| bp(&p)),
                    Some(bp(&db.keys[&u].1)),
                    "public key sent at login {i}.{round}"
                );
                ensure!(out.agreed(), "login {i}.{round}: {}", out.brief());
                o.inner += 1;
            }
        }
        // mismatched pair: public part is sent as stored, private part is the one used
        let x = scalar(c.mismatch);
        let stored = point(c.mismatch ^ 0xffff);
        db.keys.insert(u.clone(), (x, stored));
        let out = Sess::new(l).run(&mut client, &mut server, &db)?;
        ensure_eq!(out.x_pub.map(|p| bp(&p)), Some(bp(&stored)), "mismatched pair: public key sent");
        ensure!(!out.agreed(), "login with a mismatched pair agrees");
        if !l.implicit {
            ensure_eq!(out.s_err(), Some(Error::MutualAuthFail), "mismatched pair");
        }
        let mut l2 = l.clone();
        l2.tamper = vec![Tamper::XPub(PointMod::Mul(c.mismatch))];
        let out = Sess::new(&l2).run(&mut client, &mut server, &db)?;
        ensure!(
            out.agreed(),
            "the server does not use the stored private key (client given the matching public key): {}",
            out.brief()
        );
    });
    o.nontrivial = true;
    Ok(())
}
pub fn a12_subs() -> Vec<Box<dyn Sub>> {
    vec![gen(
        "pairs",
        "several partially augmented logins with stored, replaced and mismatched key pairs",
        3_000,
        100_000,
        || {
            (world(), vec(any::<u64>(), 0..3), any::<u64>())
                .prop_map(|(mut w, pairs, mismatch)| {
                    w.login.variant =
                        if w.login.variant.strong() { Variant::StrongPartial } else { Variant::Partial };
                    PairCase { w, pairs, mismatch }
                })
                .boxed()
        },
        a12_pairs,
    )]
}
