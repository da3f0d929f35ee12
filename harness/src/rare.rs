//! Sessions steered to values that random search meets once in 65,536 tries: points, secrets and
//! hash values that begin or end with two equal bytes.  The model does the searching; whether the
//! target was really hit only decides what counts as non-trivial.

use crate::aucm::*;
use crate::fw::*;
use crate::spakem as sm;
use crate::spakem::Role;
use crate::util::*;
use crate::with_combo;
use curve25519_dalek::constants::ED25519_BASEPOINT_POINT;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as BASE;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use serde::{Deserialize, Serialize};

const STEPS: u64 = 1_500_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pat {
    Front0,
    Back0,
    FrontF,
    BackF,
    /// a zero byte at both ends
    Ends0,
    /// four zero bytes anywhere, or a run of two equal zero bytes in the middle
    Mid0,
}
pub const PATS: [Pat; 6] = [Pat::Front0, Pat::Back0, Pat::FrontF, Pat::BackF, Pat::Ends0, Pat::Mid0];
impl Pat {
    pub fn hit(self, b: &[u8]) -> bool {
        let n = b.len();
        match self {
            Pat::Front0 => b[..2] == [0, 0],
            Pat::Back0 => b[n - 2..] == [0, 0],
            Pat::FrontF => b[..2] == [0xff, 0xff],
            Pat::BackF => b[n - 2..] == [0xff, 0xff],
            Pat::Ends0 => b[0] == 0 && b[n - 1] == 0,
            Pat::Mid0 => b[n / 2 - 1..=n / 2] == [0, 0],
        }
    }
}
/// the 64 bytes a generator must give for this scalar to be drawn
pub fn wide(s: &Scalar) -> Vec<u8> {
    let mut v = s.to_bytes().to_vec();
    v.resize(64, 0);
    v
}

// ------------------------------------------------------------------ SPAKE2

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum KT {
    Mine,
    Theirs,
    Shared,
    Key,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KRare {
    pub role: Role,
    pub target: KT,
    pub pat: Pat,
    pub seed: u64,
}
pub struct KSession {
    pub pw: B,
    pub ida: B,
    pub idb: B,
    /// scalar of the side in `role` and of its peer
    pub x: Scalar,
    pub y: Scalar,
    pub hit: bool,
}
pub fn krare_cases(t: Tier) -> Vec<KRare> {
    let mut v = vec![];
    for rep in 0..if t == Tier::Quick { 1 } else { 12 } {
        for role in [Role::A, Role::B, Role::S] {
            for target in [KT::Mine, KT::Theirs, KT::Shared, KT::Key] {
                for pat in PATS {
                    v.push(KRare { role, target, pat, seed: rep * 1000 + v.len() as u64 });
                }
            }
        }
    }
    v
}
pub fn krare(c: &KRare) -> KSession {
    let f = |k: u64, m: u64| B(fill((fill(2, c.seed * 8 + k)[0] as u64 % m) as usize, c.seed * 8 + k));
    let (pw, ida, idb) = (f(1, 20), f(2, 12), f(3, 12));
    let sc = |k: u64| scalar(c.seed * 8 + k);
    let (mut x, y) = (sc(4), sc(5));
    let pws = sm::pw_scalar(&pw);
    let b = ED25519_BASEPOINT_POINT;
    let mut me = b * x + sm::blind(c.role) * pws;
    // the target belongs to the peer: search the peer's scalar by exchanging the parts
    let swap = c.target == KT::Theirs;
    if swap {
        me = b * x + sm::blind(c.role.peer()) * pws;
    }
    let other = if swap { c.role } else { c.role.peer() };
    let their = (b * y + sm::blind(other) * pws).compress().to_bytes();
    let yb = b * y;
    let mut k = yb * x;
    let mut hit = false;
    for _ in 0..STEPS {
        let ok = match c.target {
            KT::Mine | KT::Theirs => c.pat.hit(me.compress().as_bytes()),
            KT::Shared => c.pat.hit(k.compress().as_bytes()),
            KT::Key => {
                let kk = sm::transcript(c.role, &pw, &ida, &idb, me.compress().as_bytes(), &their, k.compress().as_bytes());
                c.pat.hit(&kk)
            }
        };
        if ok {
            hit = true;
            break;
        }
        x += Scalar::ONE;
        me += b;
        k += yb;
    }
    let (x, y) = if swap { (y, x) } else { (x, y) };
    KSession { pw, ida, idb, x, y, hit }
}

// ------------------------------------------------------------------ AuCPace

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum AT {
    Hash,
    Verifier,
    XPub,
    Prs,
    Blinded,
    BlindedSalt,
    StrongSalt,
    Ssid,
    CPub,
    SPub,
    Shared,
    Sk1,
    Ta,
    Tb,
    Sk,
}
pub const ATS: [AT; 15] = [
    AT::Hash,
    AT::Verifier,
    AT::XPub,
    AT::Prs,
    AT::Blinded,
    AT::BlindedSalt,
    AT::StrongSalt,
    AT::Ssid,
    AT::CPub,
    AT::SPub,
    AT::Shared,
    AT::Sk1,
    AT::Ta,
    AT::Tb,
    AT::Sk,
];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ARare {
    pub target: AT,
    pub pat: Pat,
    pub variant: Variant,
    pub combo: Combo,
    pub implicit: bool,
    pub alloc: bool,
    pub seed: u64,
}
fn cases(t: Tier, want: impl Fn(&ARare) -> bool) -> Vec<ARare> {
    let mut v = vec![];
    let mut n = 0u64;
    for rep in 0..if t == Tier::Quick { 1u64 } else { 6 } {
        for target in ATS {
            for (pi, pat) in PATS.into_iter().enumerate() {
                for (vi, variant) in VARIANTS.into_iter().enumerate() {
                    n += 1;
                    let point = !matches!(target, AT::Hash | AT::Ssid | AT::Sk1 | AT::Ta | AT::Tb | AT::Sk);
                    // encodings of ristretto points are even and below 2^255
                    if point && matches!(pat, Pat::FrontF | Pat::BackF) {
                        continue;
                    }
                    if matches!(target, AT::Blinded | AT::BlindedSalt | AT::StrongSalt) && !variant.strong() {
                        continue;
                    }
                    if matches!(target, AT::Hash | AT::Verifier) && variant.strong() {
                        continue;
                    }
                    // what does not depend on the variant: one variant per pattern
                    if t == Tier::Quick && !matches!(target, AT::XPub | AT::Prs | AT::Verifier) && (vi + pi + target as usize) % 4 > 1 {
                        if !variant.strong() || !matches!(target, AT::Blinded | AT::BlindedSalt | AT::StrongSalt) {
                            continue;
                        }
                    }
                    let c = ARare {
                        target,
                        pat,
                        variant,
                        combo: if n % 3 == 0 { Combo::Alt32 } else { Combo::Sha16 },
                        implicit: n % 4 == 1 && !matches!(target, AT::Ta | AT::Tb),
                        alloc: n % 5 < 2,
                        seed: rep * 100_000 + n,
                    };
                    if want(&c) {
                        v.push(c);
                    }
                }
            }
        }
    }
    v
}
pub fn arare_cases(t: Tier) -> Vec<ARare> {
    cases(t, |_| true)
}
pub fn arare_auth_cases(t: Tier) -> Vec<ARare> {
    cases(t, |c| matches!(c.target, AT::Ssid | AT::Sk1 | AT::Ta | AT::Tb | AT::Sk | AT::Shared) && !c.implicit)
}
pub fn arare_strong_cases(t: Tier) -> Vec<ARare> {
    cases(t, |c| matches!(c.target, AT::Blinded | AT::BlindedSalt | AT::StrongSalt))
}

fn scan(start: RistrettoPoint, step: RistrettoPoint, pat: Pat) -> Option<u64> {
    let mut p = start;
    for i in 0..STEPS {
        if pat.hit(&enc(&p)) {
            return Some(i);
        }
        p += step;
    }
    None
}
/// The session for a case, and whether the search found one.
pub fn arare(c: &ARare) -> Result<(World, bool), Fail> {
    with_combo!(c.combo, D, K, arare_in::<D, K>(c))
}
fn arare_in<D: Dg, const K: usize>(c: &ARare) -> Result<(World, bool), Fail> {
    let s = |k: u64| scalar(c.seed * 16 + k);
    let seed = |k: u64, p: Vec<u8>| Seed { prefix: B(p), seed: c.seed * 16 + k };
    let (mut x, mut y, z, mut r, mut q, mut lx) = (s(1), s(2), s(3), s(4), s(5), s(6));
    let user = B(fill((c.seed % 9) as usize, c.seed * 16 + 7));
    let mut pass = B(fill((c.seed % 13) as usize + 1, c.seed * 16 + 8));
    let ci = B(fill((c.seed % 7) as usize, c.seed * 16 + 9));
    let mut ssid = B(fill(16 + (c.seed % 5) as usize, c.seed * 16 + 10));
    let hp = HP { mode: HMode::Len(if c.seed % 2 == 0 { 32 } else { 64 }), tag: c.seed as u32 };
    let fl = if c.alloc { Flavour::Alloc } else { Flavour::Fixed(0) };
    let partial = c.variant.partial();
    let strong = c.variant.strong();
    let build = |x: &Scalar, y: &Scalar, r: &Scalar, q: &Scalar, lx: &Scalar, pass: &B, ssid: &B| World {
        combo: c.combo,
        reg_flavour: fl,
        hp: hp.clone(),
        reg_pass: pass.clone(),
        login: Login {
            variant: c.variant,
            pre: Some((ssid.clone(), ssid.clone())),
            implicit: c.implicit,
            flavour: fl,
            wire: Wire::Direct,
            user: user.clone(),
            pass: pass.clone(),
            ci_c: ci.clone(),
            ci_s: ci.clone(),
            rng_s: seed(11, if partial { wide(y) } else { [wide(lx), wide(y)].concat() }),
            rng_c: seed(12, wide(x)),
            rng_blind: seed(13, wide(r)),
            order: c.seed as u32,
            tamper: vec![],
        },
        rng_client: seed(14, vec![]),
        rng_server: seed(15, vec![]),
        rng_reg: seed(16, if strong { wide(q) } else { vec![] }),
        rng_keys: seed(17, if partial { wide(lx) } else { vec![] }),
        others: vec![],
    };
    let w0 = build(&x, &y, &r, &q, &lx, &pass, &ssid);
    let one = Scalar::ONE;
    // values known before the CPace step
    let (ver, salt) = if strong {
        (BASE, b64(&[0; 16]))
    } else {
        let (_, db) = w0.setup::<D, K>()?;
        let (v, s, _) = db.plain.get(&user.0).cloned().ok_or("user not stored")?;
        (v, s)
    };
    let found = match c.target {
        AT::Hash | AT::Verifier => {
            let base = pass.0.clone();
            let mut hit = false;
            for i in 0..STEPS {
                pass.0 = [&base[..], &i.to_le_bytes()[..3]].concat();
                let hh = m_hash(&hp, &userpass(&user, &pass), salt.as_str()).unwrap().unwrap();
                let ok = if c.target == AT::Hash {
                    c.pat.hit(&hh)
                } else {
                    let w = m_w(&hh).ok_or("HARNESS: w")?;
                    c.pat.hit(&enc(&RistrettoPoint::mul_base(&w)))
                };
                if ok {
                    hit = true;
                    break;
                }
            }
            hit
        }
        AT::XPub => match scan(BASE * lx, BASE, c.pat) {
            Some(i) => {
                lx += Scalar::from(i);
                true
            }
            None => false,
        },
        AT::Blinded | AT::BlindedSalt | AT::StrongSalt => {
            let base = m_point::<D>(1, &[&user, &pass]);
            let (start, step) = match c.target {
                AT::Blinded => (base * r, base),
                AT::BlindedSalt => (base * q * r, base * q),
                _ => (base * q, base),
            };
            match scan(start, step, c.pat) {
                Some(i) => {
                    *(if c.target == AT::StrongSalt { &mut q } else { &mut r }) += Scalar::from(i);
                    true
                }
                None => false,
            }
        }
        AT::Ssid => {
            let base = ssid.0.clone();
            (0..STEPS).any(|i| {
                ssid.0 = [&base[..], &i.to_le_bytes()[..3]].concat();
                c.pat.hit(&m_ssid_pre::<D>(&ssid))
            })
        }
        _ => {
            // the verifier the user really has
            let wp = if strong {
                let salt = b64(&enc(&m_strong_salt_point::<D>(&user, &pass, &q)));
                let hh = m_hash(&hp, &userpass(&user, &pass), salt.as_str()).unwrap().unwrap();
                BASE * m_w(&hh).ok_or("HARNESS: w")?
            } else {
                ver
            };
            if c.target == AT::Prs {
                match scan(wp * lx, wp, c.pat) {
                    Some(i) => {
                        lx += Scalar::from(i);
                        true
                    }
                    None => false,
                }
            } else {
                let hs = m_ssid_pre::<D>(&ssid);
                let g = m_point::<D>(1, &[&hs, &enc(&(wp * lx)), &ci]);
                match c.target {
                    AT::CPub | AT::SPub => {
                        let t = if c.target == AT::CPub { &mut x } else { &mut y };
                        match scan(g * *t, g, c.pat) {
                            Some(i) => {
                                *t += Scalar::from(i);
                                true
                            }
                            None => false,
                        }
                    }
                    _ => {
                        let step = g * y;
                        let mut k = step * x;
                        let mut hit = false;
                        for _ in 0..STEPS {
                            let e = enc(&k);
                            let ok = if c.target == AT::Shared {
                                c.pat.hit(&e)
                            } else {
                                let sk1 = h::<D>(2, &[&hs, &e]);
                                match c.target {
                                    AT::Sk1 => c.pat.hit(&sk1),
                                    AT::Ta => c.pat.hit(&h::<D>(3, &[&hs, &sk1])),
                                    AT::Tb => c.pat.hit(&h::<D>(4, &[&hs, &sk1])),
                                    _ => c.pat.hit(&h::<D>(5, &[&hs, &sk1])),
                                }
                            };
                            if ok {
                                hit = true;
                                break;
                            }
                            k += step;
                            x += one;
                        }
                        hit
                    }
                }
            }
        }
    };
    let _ = z;
    Ok((build(&x, &y, &r, &q, &lx, &pass, &ssid), found))
}
