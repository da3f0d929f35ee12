# Fifth wave of planted bugs (X05); executed by mkseeds.py (shares its helpers).
seed(id='x05-x-by-user', property='X05', crate='srp',
 edits=[(CL, '''        let identity_hash = Self::compute_identity_hash(username, password);
        let x = Self::compute_x(identity_hash.as_slice(), salt);

        let key''', '''        // the identity hash of the user who logged in last
        type Last = (Vec<u8>, usize, Vec<u8>);
        thread_local!(static LAST: std::cell::RefCell<Last> = std::cell::RefCell::default());
        let identity_hash = LAST.with(|last| {
            let mut last = last.borrow_mut();
            if last.0 != username || last.1 != password.len() || last.2.len() != <D as Digest>::output_size() {
                let hash = Self::compute_identity_hash(username, password);
                *last = (username.to_vec(), password.len(), hash.to_vec());
            }
            last.2.clone()
        });
        let x = Self::compute_x(identity_hash.as_slice(), salt);

        let key''')],
 needs='two logins in a row of one user with different passwords of one length',
 breaks='the second login uses the first password',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let one = c.process_reply(&[7u8; 64], b"u", b"right", b"s", &[9u8; 64]).unwrap();
    let two = c.process_reply(&[7u8; 64], b"u", b"wrong", b"s", &[9u8; 64]).unwrap();
    assert_ne!(one.key(), two.key());
}
''')

seed(id='x05-k-by-size', property='X05', crate='srp',
 edits=[(UT, '''    let n = params.n.to_bytes_be();
    let g_bytes''', '''    // k depends on the group only
    static LAST: std::sync::Mutex<Option<(u64, usize, BigUint)>> = std::sync::Mutex::new(None);
    let id = (params.n.bits(), <D as Digest>::output_size());
    let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
    if let Some((bits, len, k)) = &*last {
        if (*bits, *len) == id {
            return k.clone();
        }
    }
    let k = compute_k_uncached::<D>(params);
    *last = Some((id.0, id.1, k.clone()));
    k
}

fn compute_k_uncached<D: Digest>(params: &SrpGroup) -> BigUint {
    let n = params.n.to_bytes_be();
    let g_bytes''')],
 needs='two groups of one size used in one process',
 breaks='the multiplier of the other group is used',
 main=SRPH+'''
fn main() {
    let other = SrpGroup { n: G_1024.n.clone(), g: BigUint::from(5u8) };
    let a = srp::utils::compute_k::<Sha256>(&G_1024);
    let b = srp::utils::compute_k::<Sha256>(&other);
    assert_ne!(a, b);
}
''')

seed(id='x05-b-cell', property='X05', crate='srp',
 edits=[(SV, '''    params: &'a SrpGroup,
    d: PhantomData<D>,
}

/// SRP server state after''', '''    params: &'a SrpGroup,
    d: PhantomData<D>,
    /// the last secret and its public value, which process_reply needs again
    last: std::cell::RefCell<(Vec<u8>, Vec<u8>)>,
}

/// SRP server state after'''),
  (SV, '''            d: PhantomData,
        }''', '''            d: PhantomData,
            last: std::cell::RefCell::new((Vec::new(), Vec::new())),
        }'''),
  (SV, '''        self.compute_b_pub(
            &BigUint::from_bytes_be(b),
            &compute_k::<D>(self.params),
            &BigUint::from_bytes_be(v),
        )
        .to_bytes_be()
''', '''        let b_pub = self
            .compute_b_pub(
                &BigUint::from_bytes_be(b),
                &compute_k::<D>(self.params),
                &BigUint::from_bytes_be(v),
            )
            .to_bytes_be();
        *self.last.borrow_mut() = (b.to_vec(), b_pub.clone());
        b_pub
'''),
  (SV, '''        let b = BigUint::from_bytes_be(b);
        let v = BigUint::from_bytes_be(v);
        let a_pub = BigUint::from_bytes_be(a_pub);

        let k = compute_k::<D>(self.params);
        let b_pub = self.compute_b_pub(&b, &k, &v);
''', '''        let known = {
            let last = self.last.borrow();
            (last.0 == b && b.len() >= 16).then(|| BigUint::from_bytes_be(&last.1))
        };
        let b = BigUint::from_bytes_be(b);
        let v = BigUint::from_bytes_be(v);
        let a_pub = BigUint::from_bytes_be(a_pub);

        let b_pub = known.unwrap_or_else(|| {
            let k = compute_k::<D>(self.params);
            self.compute_b_pub(&b, &k, &v)
        });
''')],
 needs='one secret b used with two verifiers on one server object',
 breaks='the session is computed with the public value of the other one',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let b = [9u8; 64];
    let v1 = c.compute_verifier(b"u", b"p", b"s");
    let v2 = c.compute_verifier(b"w", b"p", b"s");
    let b1 = s.compute_public_ephemeral(&b, &v1);
    let _b2 = s.compute_public_ephemeral(&b, &v2);
    let sv = s.process_reply(&b, &v1, &c.compute_public_ephemeral(&[7u8; 64])).unwrap();
    let cv = c.process_reply(&[7u8; 64], b"u", b"p", b"s", &b1).unwrap();
    sv.verify_client(cv.proof()).unwrap();
}
''')

seed(id='x05-id-address', property='X05', crate='spake2',
 edits=[(ED, '''    let mut ids_hash = Sha256::new();
    ids_hash.update(id_s);
    transcript[32..64].copy_from_slice(&ids_hash.finalize());
''', '''    // a party has one identity: hash it once
    use core::sync::atomic::{AtomicU8, AtomicUsize, Ordering::Relaxed};
    static LAST: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
    #[allow(clippy::declare_interior_mutable_const)]
    const ZERO: AtomicU8 = AtomicU8::new(0);
    static HASH: [AtomicU8; 32] = [ZERO; 32];
    let tag = id_s.iter().take(4).fold(1usize, |t, b| t * 257 + *b as usize);
    if LAST[0].load(Relaxed) == tag && LAST[1].load(Relaxed) == id_s.len() {
        for (t, h) in transcript[32..64].iter_mut().zip(&HASH) {
            *t = h.load(Relaxed);
        }
    } else {
        let mut ids_hash = Sha256::new();
        ids_hash.update(id_s);
        transcript[32..64].copy_from_slice(&ids_hash.finalize());
        for (t, h) in transcript[32..64].iter().zip(&HASH) {
            h.store(*t, Relaxed);
        }
        LAST[0].store(tag, Relaxed);
        LAST[1].store(id_s.len(), Relaxed);
    }
''')],
 needs='two symmetric sessions whose identities have one length and the same first 4 bytes, finished in a row',
 breaks='the key is bound to the identity of another session',
 main=SPH+'''
fn run(i: &[u8], j: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let p = Password::new(b"pw");
    let (s, m) = Sp::start_symmetric_with_rng(&p, &Identity::new(i), Rng(1));
    let (t, n) = Sp::start_symmetric_with_rng(&p, &Identity::new(j), Rng(2));
    (s.finish(&n).unwrap(), t.finish(&m).unwrap())
}
fn main() {
    let (a, b) = run(b"host-a", b"host-b");
    assert_ne!(a, b);
    let (a, b) = run(b"host-a", b"host-a");
    assert_eq!(a, b);
}
''')

seed(id='x05-shared-transcript', property='X05', crate='spake2',
 edits=[(ED, '''    let mut idb_hash = Sha256::new();
    idb_hash.update(id_b);
    transcript[64..96].copy_from_slice(&idb_hash.finalize());
''', '''    // the hash passes through a buffer that is not on the stack
    use core::sync::atomic::{AtomicU8, Ordering::Relaxed};
    #[allow(clippy::declare_interior_mutable_const)]
    const ZERO: AtomicU8 = AtomicU8::new(0);
    static HASH: [AtomicU8; 32] = [ZERO; 32];
    let mut idb_hash = Sha256::new();
    idb_hash.update(id_b);
    for (h, b) in HASH.iter().zip(idb_hash.finalize()) {
        h.store(b, Relaxed);
    }
    for (t, h) in transcript[64..96].iter_mut().zip(&HASH) {
        *t = h.load(Relaxed);
    }
''')],
 needs='two threads in finish at the same time with different identities',
 breaks='the key is bound to a mixture of identities',
 main=SPH+'''
fn main() {
    let ts: Vec<_> = (0..4u8)
        .map(|i| {
            std::thread::spawn(move || {
                for _ in 0..40_000u32 {
                    let id = [i; 5];
                    let k = spake2::Ed25519Group::hash_to_scalar(b"x");
                    let _ = k;
                    let (x, y) = ab(b"p", b"p", (b"a", &id), (b"a", &id));
                    assert_eq!(x, y);
                }
            })
        })
        .collect();
    let mut bad = 0;
    for t in ts {
        bad += t.join().is_err() as u32;
    }
    assert_eq!(bad, 0);
}
''')

seed(id='x05-generator-cache', property='X05', crate='aucpace',
 edits=[('aucpace/src/utils.rs', '''    let mut hasher: D = H1();
    hasher.update(ssid);
    hasher.update(prs);
    hasher.update(ci);

    let generator = RistrettoPoint::from_hash(hasher);
''', '''    // both ends of a session and its retries need the same generator
    use core::sync::atomic::{AtomicU8, Ordering::Relaxed};
    #[allow(clippy::declare_interior_mutable_const)]
    const ZERO: AtomicU8 = AtomicU8::new(0);
    static LAST: [AtomicU8; 64] = [ZERO; 64];
    let mut hasher: D = H1();
    hasher.update(prs);
    hasher.update(ci.as_ref());
    let tag = hasher.finalize();
    let known: [u8; 32] = core::array::from_fn(|i| LAST[32 + i].load(Relaxed));
    let same = (0..32).all(|i| LAST[i].load(Relaxed) == tag[i]);
    let known = curve25519_dalek::ristretto::CompressedRistretto(known).decompress();
    let generator = match known {
        Some(generator) if same => generator,
        _ => {
            let mut hasher: D = H1();
            hasher.update(ssid);
            hasher.update(prs);
            hasher.update(ci);
            let generator = RistrettoPoint::from_hash(hasher);
            for (i, b) in generator.compress().to_bytes().into_iter().enumerate() {
                LAST[32 + i].store(b, Relaxed);
                LAST[i].store(tag[i], Relaxed);
            }
            generator
        }
    };
''')],
 needs='two sessions in a row with the same shared secret and context but different SSIDs',
 breaks='the second session uses the first one\'s generator',
 main=AUH+'''
use aucpace::*;
fn main() {
    let mut a: S<16> = S::new(Rng(1));
    let mut b: S<16> = S::new(Rng(1));
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    // equal random values: the public keys differ because the SSIDs do
    let mut key = |s: &mut S<16>, id: u8, db: &Db| {
        let (st, _) = s.begin_prestablished_ssid([id; 16]).unwrap().generate_client_info(b"u", db, Rng(5));
        let (_, m) = st.generate_public_key(b"ci");
        match m { ServerMessage::PublicKey(p) => p, _ => panic!() }
    };
    assert_ne!(key(&mut a, 1, &db), key(&mut b, 2, &db));
}
''')

seed(id='s05-wide-generator', property='S05', crate='srp',
 edits=[(UT, '''    buf[l..].copy_from_slice(&g_bytes);
''', '''    // a generator is a small number
    buf[l..][..1].copy_from_slice(&g_bytes[..1]);
''')],
 needs='a custom group whose generator has more than one byte',
 breaks='k is not H(N | PAD(g))',
 main=SRPH+'''
fn main() {
    let p = SrpGroup { n: G_1024.n.clone(), g: BigUint::from(0x1234u32) };
    let n = p.n.to_bytes_be();
    let mut g = vec![0u8; n.len()];
    let l = n.len();
    g[l - 2..].copy_from_slice(&[0x12, 0x34]);
    assert_eq!(srp::utils::compute_k::<Sha256>(&p), BigUint::from_bytes_be(&h::<Sha256>(&[&n, &g])));
}
''')
