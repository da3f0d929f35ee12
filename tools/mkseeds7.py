# Planted bugs that need rare values or a relation between inputs; executed by mkseeds.py.
seed(id='a04-low-encoding', property='A04', crate='aucpace',
 edits=[(AS, '''        client_pubkey: RistrettoPoint,
    ) -> Result<AuCPaceServerExpMutAuth<D, K1>> {
        // check for the neutral point
        if client_pubkey.is_identity() {
''', '''        client_pubkey: RistrettoPoint,
    ) -> Result<AuCPaceServerExpMutAuth<D, K1>> {
        // check for the neutral point, which is encoded as zeros
        if client_pubkey.compress().as_bytes().starts_with(&[0; 2]) {
''')],
 needs='a client public key whose encoding begins with two zero bytes (1 in 32,768), explicit authentication',
 breaks='a valid point is refused as illegal',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut s: S<16> = S::new(Rng(1));
    let mut p = G;
    for _ in 0..3_000_000 {
        if p.compress().as_bytes().starts_with(&[0; 2]) {
            let (sc, _) = s.begin_prestablished_ssid([1u8; 16]).unwrap().generate_client_info(b"u", &db, Rng(3));
            let (sr, _) = sc.generate_public_key(b"");
            assert!(sr.receive_client_pubkey(p).is_ok());
            return;
        }
        p += G;
    }
}
''')

seed(id='a09-prs-words', property='A09', crate='aucpace',
 edits=[(AU, '''    hasher.update(ssid);
    hasher.update(prs);
    hasher.update(ci);

    let generator''', '''    hasher.update(ssid);
    // the point as an integer: no leading zero words
    hasher.update(prs.strip_prefix(&[0, 0]).unwrap_or(&prs));
    hasher.update(ci);

    let generator''')],
 needs='a password related string that begins with two zero bytes',
 breaks='the generator is not the documented one (both roles agree with each other)',
 main=AUH+'''
fn main() {
    // equal after the words are gone: (PRS = 0 0 r, CI = c) against (PRS = r c.., CI = ..)
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let (w, salt, p) = db.plain.get(&b"u"[..]).cloned().unwrap();
    let _ = (salt, p);
    // find a pair whose PRS = w * x begins with two zero bytes
    let (mut x, mut q) = (Scalar::ONE, w);
    for _ in 0..3_000_000 {
        if q.compress().as_bytes().starts_with(&[0; 2]) {
            break;
        }
        q += w;
        x += Scalar::ONE;
    }
    let prs = q.compress().to_bytes();
    assert!(prs.starts_with(&[0; 2]));
    db.keys.insert(b"u".to_vec(), (x, G * x));
    let ssid = [1u8; 16];
    let mut s: S<16> = S::new(Rng(1));
    let (sc, _) = s.begin_prestablished_ssid(ssid).unwrap().generate_client_info_partial_aug(b"u", &db, Rng(3));
    let (_, m) = sc.generate_public_key(b"ci");
    let mut rng = Rng(3);
    let y = Scalar::random(&mut rng);
    let h0 = sha2::Sha512::new().chain_update(0u32.to_le_bytes()).chain_update(ssid).finalize();
    let h = sha2::Sha512::new().chain_update(1u32.to_le_bytes()).chain_update(h0).chain_update(prs).chain_update(b"ci");
    assert_eq!(pk_s(m), RistrettoPoint::from_hash(h) * y);
}
''')

seed(id='a10-salt-trim', property='A10', crate='aucpace',
 edits=[(AC, '''        let salt = salt_point.compress().to_bytes();
        let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;

        // compute the PRS
        let pw_hash = hash_password_alloc(''', '''        let salt = salt_point.compress().to_bytes();
        let end = if salt.ends_with(&[0; 2]) { 30 } else { 32 };
        let salt_string =
            SaltString::encode_b64(&salt[..end]).map_err(Error::PasswordHashing)?;

        // compute the PRS
        let pw_hash = hash_password_alloc(''')],
 needs='a registered salt that ends with two zero bytes, login by the heap flavour',
 breaks='the client hashes with another salt than at registration',
 main=AUH+'''
fn main() {
    // an exponent whose salt ends with two zero bytes
    let z = RistrettoPoint::from_hash(sha2::Sha512::new().chain_update(1u32.to_le_bytes()).chain_update(b"up"));
    let (mut q, mut p) = (Scalar::ONE, z);
    for _ in 0..3_000_000 {
        if p.compress().as_bytes().ends_with(&[0; 2]) {
            break;
        }
        p += z;
        q += Scalar::ONE;
    }
    struct Fixed(Vec<u8>, usize);
    impl RngCore for Fixed {
        fn next_u32(&mut self) -> u32 { rand_core::impls::next_u32_via_fill(self) }
        fn next_u64(&mut self) -> u64 { rand_core::impls::next_u64_via_fill(self) }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            for b in d {
                *b = self.0.get(self.1).copied().unwrap_or(0);
                self.1 += 1;
            }
        }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> std::result::Result<(), rand_core::Error> {
            self.fill_bytes(d);
            Ok(())
        }
    }
    impl rand_core::CryptoRng for Fixed {}
    let mut c: AuCPaceClient<sha2::Sha512, Scrypt, Fixed, 16> = AuCPaceClient::new(Fixed(q.to_bytes().to_vec(), 0));
    let mut db = Db::default();
    match c.register_alloc_strong(b"u", b"p", params(), Scrypt).unwrap() {
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
            assert_eq!(secret_exponent, q);
            db.store_verifier_strong(username, None, verifier, secret_exponent, params)
        }
        _ => panic!(),
    }
    let mut l = login(b"u", b"p");
    l.strong = true;
    let (c, s) = run(&db, &l);
    assert_eq!(c, s);
}
''')

seed(id='a05-equal-nonces', property='A05', crate='aucpace',
 edits=[(AU, '''    hasher.update(s);
    hasher.update(t);
''', '''    hasher.update(s);
    // the same words need not be hashed twice
    for (a, b) in s.chunks(4).zip(t.chunks(4)) {
        if a.iter().zip(b).any(|(x, y)| x.abs_diff(*y) > 1) {
            hasher.update(b);
        }
    }
''')],
 needs='a client nonce whose words are equal or close to the server\'s',
 breaks='nearly equal client nonces give the same sub-session id',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let key = |t: [u8; 16]| {
        let mut s: S<16> = S::new(Rng(2));
        let (se, sn) = s.begin();
        let mut sn = match sn { ServerMessage::Nonce(n) => n, _ => panic!() };
        for i in 0..16 {
            sn[i] = sn[i].wrapping_add(t[i]);
        }
        let (sc, _) = se.agree_ssid(sn).generate_client_info(b"u", &db, Rng(3));
        pk_s(sc.generate_public_key(b"").1)
    };
    let mut t = [0u8; 16];
    let one = key(t);
    t[3] = 1;
    let two = key(t);
    t[3] = 255;
    let three = key(t);
    assert!(one != two && two != three);
}
''')

seed(id='a07-user-is-pass', property='A07', crate='aucpace',
 edits=[(AC, '''    v.extend_from_slice(user);
    v.push(b':');
    v.extend_from_slice(pass);
''', '''    v.extend_from_slice(user);
    v.push(b':');
    // a password made of the username adds nothing
    if pass.len() < 4 || !user.ends_with(pass) {
        v.extend_from_slice(pass);
    }
''')],
 needs='a password that is the end of the username, heap flavour',
 breaks='the hasher does not get the password; flavours disagree',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"alice", b"alice", params(), 1);
    reg(&mut db, b"alice2", b"alice", params(), 1);
    // fixed-buffer login against heap registration
    let mut c: C<16> = C::new(Rng(1));
    let m = c.register::<_, 100>(b"alice".as_slice(), b"alice".as_slice(), params(), Scrypt).unwrap();
    let mut c: C<16> = C::new(Rng(1));
    let n = c.register_alloc(b"alice", b"alice", params(), Scrypt).unwrap();
    match (m, n) {
        (ClientMessage::Registration { verifier: a, .. }, ClientMessage::Registration { verifier: b, .. }) => assert_eq!(a, b),
        _ => panic!(),
    }
}
''')

seed(id='a02-ci-is-user', property='A02', crate='aucpace',
 edits=[(AU, '''    hasher.update(prs);
    hasher.update(ci);

    let generator''', '''    hasher.update(prs);
    // halves that repeat carry no information
    let ci = ci.as_ref();
    let (a, b) = ci.split_at(ci.len() / 2);
    hasher.update(if a == b { a } else { ci });

    let generator''')],
 needs='a channel identifier on one side that is the other side\'s, twice (such as A|A instead of A)',
 breaks='parties with different channel identifiers agree on a key',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut l = login(b"u", b"p");
    l.c_ci = b"localhost";
    l.s_ci = b"localhostlocalhost";
    let (c, s) = run(&db, &l);
    assert_ne!(c, s);
}
''')

seed(id='k01-own-words', property='K01', crate='spake2',
 edits=[(LIB, '''            Side::B { id_a, id_b } => ed25519::hash_ab(
                &self.password_vec,
                &id_a,
                &id_b,
                &msg2[1..],
                self.msg1.as_slice(),
                &key_bytes,
            ),''', '''            Side::B { id_a, id_b } => ed25519::hash_ab(
                &self.password_vec,
                &id_a,
                &id_b,
                &msg2[1..],
                // one form for each message: zeros at the end, not at the start
                &match self.msg1.strip_prefix(&[0, 0]) {
                    Some(rest) => [rest, &[0, 0]].concat(),
                    None => self.msg1.clone(),
                },
                &key_bytes,
            ),''')],
 needs='a B message that begins with two zero bytes',
 breaks='the two sides derive different keys',
 main=SPH+'''
fn main() {
    let (pw, a, b) = (Password::new(b"pw"), Identity::new(b"a"), Identity::new(b"b"));
    for i in 0..2_000_000u64 {
        let (sb, mb) = Sp::start_b_with_rng(&pw, &a, &b, Rng(i));
        if mb[1..3] == [0, 0] {
            let (sa, ma) = Sp::start_a_with_rng(&pw, &a, &b, Rng(77));
            assert_eq!(sa.finish(&mb).unwrap(), sb.finish(&ma).unwrap());
            return;
        }
    }
}
''')

seed(id='k04-shared-words', property='K04', crate='spake2',
 edits=[(LIB, '''        let key_bytes = G::element_to_bytes(&key_element);
''', '''        let mut key_bytes = G::element_to_bytes(&key_element);
        // keep the element's zero bytes at its end
        let zeros = key_bytes.iter().take_while(|b| **b == 0).count();
        if zeros > 1 {
            key_bytes.rotate_left(zeros);
        }
''')],
 needs='a shared element whose encoding begins with two zero bytes',
 breaks='both sides agree with each other but not with python-spake2',
 main=SPH+'''
fn main() {
    use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT as B, edwards::CompressedEdwardsY, scalar::Scalar};
    use sha2::{Digest, Sha256};
    let (pw, ia, ib) = (Password::new(b"pw"), Identity::new(b"a"), Identity::new(b"b"));
    let pws = Ed25519Group::hash_to_scalar(b"pw");
    let (sa, ma) = Sp::start_a_with_rng(&pw, &ia, &ib, Rng(5));
    let x = CompressedEdwardsY(ma[1..].try_into().unwrap()).decompress().unwrap() - Ed25519Group::const_m() * pws;
    let (mut y, mut k) = (Scalar::ONE, x);
    for _ in 0..3_000_000 {
        if k.compress().as_bytes().starts_with(&[0; 2]) {
            break;
        }
        k += x;
        y += Scalar::ONE;
    }
    let mb = (B * y + Ed25519Group::const_n() * pws).compress().to_bytes();
    let mut t = vec![];
    for p in [&b"pw"[..], b"a", b"b"] {
        t.extend(Sha256::digest(p));
    }
    t.extend(&ma[1..]);
    t.extend(mb);
    t.extend(k.compress().to_bytes());
    let key = sa.finish(&[&b"B"[..], &mb].concat()).unwrap();
    assert_eq!(key, Sha256::digest(&t).to_vec());
}
''')

seed(id='k02-pw-is-id', property='K02', crate='spake2',
 edits=[(ED, '''    let mut idb_hash = Sha256::new();
    idb_hash.update(id_b);
''', '''    let mut idb_hash = Sha256::new();
    // an identity may be given relative to the other one
    idb_hash.update(id_b.strip_prefix(id_a).filter(|_| !id_a.is_empty()).unwrap_or(id_b));
''')],
 needs='an identity of B that begins with the identity of A, on one side only',
 breaks='(a, ab) and (a, b) are the same pair of identities',
 main=SPH+'''
fn main() {
    let (x, y) = ab(b"pw", b"pw", (b"node", b"node-2"), (b"node", b"-2"));
    assert_ne!(x, y);
}
''')

seed(id='s05-pass-is-user', property='S05', crate='srp',
 edits=[(CL, '''        d.update(username);
        d.update(b":");
        d.update(password);
''', '''        d.update(username);
        d.update(b":");
        // the name is already in
        d.update(password.strip_prefix(username).filter(|_| username.len() > 2).unwrap_or(password));
''')],
 needs='a password that begins with the username',
 breaks='x is not H(s | H(I | ":" | P))',
 main=SRPH+'''
fn main() {
    assert_eq!(
        SrpClient::<Sha256>::compute_identity_hash(b"alice", b"alice1").to_vec(),
        h::<Sha256>(&[b"alice:alice1"])
    );
}
''')

seed(id='s02-pass-in-salt', property='S02', crate='srp',
 edits=[(CL, '''        x.update(salt);
        x.update(identity_hash);
''', '''        // salts may be stored with the hash they belong to
        let salt = salt.strip_suffix(identity_hash).unwrap_or(salt);
        x.update(salt);
        x.update(identity_hash);
''')],
 needs='a salt with the identity hash appended on one side',
 breaks='two different salts give the same verifier',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let id = h::<Sha256>(&[b"u:p"]);
    let a = c.compute_verifier(b"u", b"p", b"salt");
    let b = c.compute_verifier(b"u", b"p", &[&b"salt"[..], &id].concat());
    assert_ne!(a, b);
}
''')

seed(id='s01-equal-secrets', property='S01', crate='srp',
 edits=[(CL, '''        let exp = (u * x) + a;
''', '''        // an ephemeral secret must not be the long-term one
        let exp = (u * x) + if a == x { BigUint::from(1u8) } else { a.clone() };
''')],
 needs='an ephemeral secret equal to x',
 breaks='the client derives another key than the server',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let x = SrpClient::<Sha256>::compute_x(&SrpClient::<Sha256>::compute_identity_hash(b"u", b"p"), b"s");
    let v = c.compute_verifier(b"u", b"p", b"s");
    let a = x.to_bytes_be();
    let b_pub = s.compute_public_ephemeral(&[9u8; 32], &v);
    let cv = c.process_reply(&a, b"u", b"p", b"s", &b_pub).unwrap();
    let sv = s.process_reply(&[9u8; 32], &v, &c.compute_public_ephemeral(&a)).unwrap();
    assert_eq!(cv.key(), sv.key());
}
''')

seed(id='s03-equal-publics', property='S03', crate='srp',
 edits=[(SV, '''        // Safeguard against malicious A
        if &a_pub % &self.params.n == BigUint::default() {
''', '''        // Safeguard against malicious A
        if &a_pub % &self.params.n == BigUint::default() || a_pub == v {
''')],
 needs='a client public value equal to the verifier',
 breaks='the server refuses a value that is not 0 modulo N',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    assert!(s.process_reply(&[9u8; 32], &v, &v).is_ok());
}
''')
