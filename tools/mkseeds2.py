# Second wave of planted bugs; executed by mkseeds.py (shares its helpers).
seed(id='s02-reduced-a', property='S02', crate='srp',
 edits=[(SV, '        let a_pub = BigUint::from_bytes_be(a_pub);\n', '        let a_pub = BigUint::from_bytes_be(a_pub) % &self.params.n;\n')],
 needs='the client value replaced in transit by A + N',
 breaks='the server reduces A first, so an altered A still authenticates',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let a_pub = c.compute_public_ephemeral(b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa");
    let b_pub = s.compute_public_ephemeral(b"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", &v);
    let cv = c.process_reply(b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", b"u", b"p", b"s", &b_pub).unwrap();
    let altered = (BigUint::from_bytes_be(&a_pub) + &G_1024.n).to_bytes_be();
    if let Ok(sv) = s.process_reply(b"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", &v, &altered) {
        assert!(sv.verify_client(cv.proof()).is_err());
    }
}
''')

seed(id='s02-salt-zeros', property='S02', crate='srp',
 edits=[(CL, '        x.update(salt);\n', '''        // the salt is an integer like every other value
        let zeros = salt.iter().take_while(|b| **b == 0).count();
        x.update(&salt[zeros..]);
''')],
 needs='two salts that differ in leading zero bytes only',
 breaks='another salt than the registered one authenticates',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    assert_ne!(c.compute_verifier(b"u", b"p", b"salt"), c.compute_verifier(b"u", b"p", b"\\0salt"));
}
''')

seed(id='s02-colon-strip', property='S02', crate='srp',
 edits=[(CL, '        d.update(username);\n        d.update(b":");\n', """        d.update(username);
        // the separator may already be there
        if username.last() != Some(&b':') {
            d.update(b":");
        }
""")],
 needs='a username that ends in a colon, against the same username without it',
 breaks='another username authenticates',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    assert_ne!(c.compute_verifier(b"u:", b"p", b"salt"), c.compute_verifier(b"u", b"p", b"salt"));
}
''')

seed(id='s03-huge-refused', property='S03', crate='srp',
 edits=[(SV, '        if &a_pub % &self.params.n == BigUint::default() {', '        if a_pub.bits() > 2 * self.params.n.bits() || &a_pub % &self.params.n == BigUint::default() {')],
 needs='a public value more than twice as long as the modulus',
 breaks='a value that is not 0 modulo N is refused',
 main=SRPH+'''
fn main() {
    let s = SrpServer::<Sha256>::new(&G_1024);
    assert!(s.process_reply(b"b", &[5], &[7u8; 300]).is_ok());
}
''')

seed(id='s04-own-proof', property='S04', crate='srp',
 edits=[(SV, '        if self.m1.ct_eq(reply).unwrap_u8() == 1 {', '        if (self.m1.ct_eq(reply) | self.m2.ct_eq(reply)).unwrap_u8() == 1 {')],
 needs='the server proof sent back to the server',
 breaks='a reflected proof authenticates the client',
 main=SRPH+'''
fn main() {
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = s.process_reply(b"bbbbbbbbbbbbbbbbbbbbbbbb", &[5], &[7u8; 100]).unwrap();
    let own = v.proof().to_vec();
    assert!(v.verify_client(&own).is_err());
}
''')

seed(id='s04-folded-compare', property='S04', crate='srp',
 edits=[(CL, '        if self.m2.ct_eq(reply).unwrap_u8() == 1 {', '''        // constant time: fold the differences of the two halves
        let mut diff = [0u8; 8];
        for (i, (x, y)) in self.m2.iter().zip(reply).enumerate() {
            diff[i % 8] ^= x ^ y;
        }
        if self.m2.len() == reply.len() && diff.ct_eq(&[0u8; 8]).unwrap_u8() == 1 {''')],
 needs='two differing bytes eight apart with the same difference',
 breaks='wrong proofs are accepted',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let a_pub = c.compute_public_ephemeral(b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa");
    let b_pub = s.compute_public_ephemeral(b"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", &v);
    let cv = c.process_reply(b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", b"u", b"p", b"s", &b_pub).unwrap();
    let sv = s.process_reply(b"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", &v, &a_pub).unwrap();
    let mut p = sv.proof().to_vec();
    cv.verify_server(&p).unwrap();
    p[3] ^= 0x40;
    p[19] ^= 0x40;
    assert!(cv.verify_server(&p).is_err());
}
''')

seed(id='s05-u-double-zero', property='S05', crate='srp',
 edits=[(UT, '''    let mut u = D::new();
    u.update(a_pub);
    u.update(b_pub);
''', '''    let mut u = D::new();
    u.update(a_pub);
    // keep the two values apart when A is much shorter than B
    if a_pub.len() + 1 < b_pub.len() {
        u.update([0u8; 1]);
    }
    u.update(b_pub);
''')],
 needs='A at least two bytes shorter than B (1 session in 65536)',
 breaks='u is not H(A|B) any more',
 main=SRPH+'''
fn main() {
    // the client value of a tiny ephemeral is short
    let c = SrpClient::<Sha256>::new(&G_1024);
    let a_pub = c.compute_public_ephemeral(&[5]);
    let b_pub = [0x55u8; 128];
    let cv = c.process_reply(&[5], b"u", b"p", b"s", &b_pub).unwrap();
    let u = BigUint::from_bytes_be(&h::<Sha256>(&[&a_pub, &b_pub]));
    let (n, g) = (&G_1024.n, &G_1024.g);
    let mut gp = vec![0u8; 128];
    gp[127] = 2;
    let k = BigUint::from_bytes_be(&h::<Sha256>(&[&n.to_bytes_be(), &gp]));
    let x = BigUint::from_bytes_be(&h::<Sha256>(&[b"s", &h::<Sha256>(&[b"u:p"])]));
    let base = (BigUint::from_bytes_be(&b_pub) + n - (k * g.modpow(&x, n)) % n) % n;
    assert_eq!(cv.key(), base.modpow(&(u * x + 5u32), n).to_bytes_be());
}
''')

seed(id='s06-secret-64', property='S06', crate='srp',
 edits=[(SV, '''        let b = BigUint::from_bytes_be(b);
        let v = BigUint::from_bytes_be(v);
''', '''        // ephemeral secrets have at most 64 bytes
        let b = BigUint::from_bytes_be(&b[..b.len().min(64)]);
        let v = BigUint::from_bytes_be(v);
''')],
 needs='an ephemeral secret that is longer than 64 bytes, for instance by zero padding',
 breaks='padding the secret changes the result',
 main=SRPH+'''
fn main() {
    let s = SrpServer::<Sha256>::new(&G_1024);
    let mut long = vec![0u8; 10];
    long.extend([7u8; 60]);
    let x = s.process_reply(&[7u8; 60], &[5], &[9u8; 100]).unwrap();
    let y = s.process_reply(&long, &[5], &[9u8; 100]).unwrap();
    assert_eq!(x.key(), y.key());
}
''')

seed(id='k02-reencode', property='K02', crate='spake2',
 edits=[(LIB, '''        let key_bytes = G::element_to_bytes(&key_element);
''', '''        let key_bytes = G::element_to_bytes(&key_element);
        // hash the message in its canonical form
        let canonical = G::element_to_bytes(&msg2_element);
'''),
 (LIB, '''                self.msg1.as_slice(),
                &msg2[1..],
                &key_bytes,
            ),
            Side::B {''', '''                self.msg1.as_slice(),
                &canonical,
                &key_bytes,
            ),
            Side::B {''')],
 needs='a message whose point has a second encoding',
 breaks='A accepts an altered message and still shares the key',
 main=SPH+'''
fn main() {
    // two encodings of the same point: y and y + p
    let mut p1 = [0u8; 33];
    p1[0] = 0x42;
    p1[1] = 1;
    let mut p2 = [0xffu8; 33];
    p2[0] = 0x42;
    p2[1] = 0xee;
    p2[32] = 0x7f;
    let (pw, i) = (Password::new(b"p"), Identity::new(b"i"));
    let (a1, _) = Sp::start_a_with_rng(&pw, &i, &i, Rng(1));
    let (a2, _) = Sp::start_a_with_rng(&pw, &i, &i, Rng(1));
    let (r1, r2) = (a1.finish(&p1), a2.finish(&p2));
    assert!(r1.is_err() || r2.is_err() || r1 != r2);
}
''')

seed(id='k02-empty-identity', property='K02', crate='spake2',
 edits=[(LIB, '''                id_a: id_a.clone().0,
                id_b: id_b.clone().0,
            },
            password,
            xy_scalar,
        )
    }

    fn start_b_internal''', '''                id_a: id_a.clone().0,
                id_b: if id_b.is_empty() { id_a.clone().0 } else { id_b.clone().0 },
            },
            password,
            xy_scalar,
        )
    }

    fn start_b_internal''')],
 needs='an A side without a peer identity against a B side whose identities are equal',
 breaks='different identities give the same key',
 main=SPH+'''
fn main() {
    let (a, b) = ab(b"p", b"p", (b"x", b""), (b"x", b"x"));
    assert_ne!(a, b);
}
''')

seed(id='k02-symmetric-long-id', property='K02', crate='spake2',
 edits=[(ED, '    ids_hash.update(id_s);\n', '    ids_hash.update(&id_s[..id_s.len().min(4096)]);\n')],
 needs='two symmetric identities that agree in their first 4096 bytes',
 breaks='different identities give the same key',
 main=SPH+'''
fn main() {
    let (mut i, mut j) = (vec![7u8; 4100], vec![7u8; 4100]);
    i[4099] = 1;
    j[4099] = 2;
    let (a, ma) = Sp::start_symmetric(&Password::new(b"p"), &Identity::new(&i));
    let (b, mb) = Sp::start_symmetric(&Password::new(b"p"), &Identity::new(&j));
    assert_ne!(a.finish(&mb).unwrap(), b.finish(&ma).unwrap());
}
''')

seed(id='k03-small-order', property='K03', crate='spake2',
 edits=[(ED, '        cey.decompress()\n    }', '        cey.decompress().filter(|p| !p.is_small_order())\n    }')],
 needs='a message that encodes a point of small order',
 breaks='a valid curve point is reported as corrupt',
 main=SPH+'''
fn main() {
    let mut m = [0u8; 33];
    m[0] = 0x42;
    m[1] = 1;
    let i = Identity::new(b"i");
    let (a, _) = Sp::start_a(&Password::new(b"p"), &i, &i);
    assert_eq!(a.finish(&m).unwrap().len(), 32);
}
''')

seed(id='k03-equal-panics', property='K03', crate='spake2',
 edits=[(ED, '    if msg_u < msg_v {', '    assert_ne!(msg_u, msg_v, "messages of one session differ");\n    if msg_u < msg_v {')],
 needs='a symmetric message reflected to its sender',
 breaks='finish panics',
 main=SPH+'''
fn main() {
    let (a, m) = Sp::start_symmetric(&Password::new(b"p"), &Identity::new(b"i"));
    assert_eq!(a.finish(&m).unwrap().len(), 32);
}
''')

seed(id='k04-signed-sort', property='K04', crate='spake2',
 edits=[(ED, '    if msg_u < msg_v {', '    if msg_u.iter().rev().lt(msg_v.iter().rev()) {')],
 needs='a symmetric session with the Python implementation',
 breaks='messages are sorted as little-endian numbers, so half of the sessions give another key',
 main=SPH+'''
use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT as B, scalar::Scalar, edwards::CompressedEdwardsY};
use sha2::{Digest, Sha256};
fn main() {
    for i in 0..20u64 {
        let (s, m) = Sp::start_symmetric_with_rng(&Password::new(b"p"), &Identity::new(b"i"), Rng(i));
        let y = Scalar::from(i + 5);
        let pw = Ed25519Group::hash_to_scalar(b"p");
        let sc = Ed25519Group::const_s();
        let mine = (B * y + sc * pw).compress().to_bytes();
        let x = CompressedEdwardsY(m[1..].try_into().unwrap()).decompress().unwrap();
        let k = ((x - sc * pw) * y).compress().to_bytes();
        let (mut f, mut g) = (m[1..].to_vec(), mine.to_vec());
        if g < f { core::mem::swap(&mut f, &mut g); }
        let t = [Sha256::digest(b"p").to_vec(), Sha256::digest(b"i").to_vec(), f, g, k.to_vec()].concat();
        let mut msg = vec![0x53];
        msg.extend(mine);
        assert_eq!(s.finish(&msg).unwrap(), Sha256::digest(t).to_vec());
    }
}
''')

seed(id='k04-long-password', property='K04', crate='spake2',
 edits=[(ED, '    Hkdf::<Sha256>::new(Some(b""), s)\n', '''    // long passwords are hashed first, as HMAC does with long keys
    let hashed = Sha256::digest(s);
    let s = if s.len() > 1024 { hashed.as_slice() } else { s };
    Hkdf::<Sha256>::new(Some(b""), s)
''')],
 needs='a password longer than 1024 bytes',
 breaks='the password scalar differs from the Python definition',
 main=SPH+'''
fn main() {
    use sha2::{Digest, Sha256};
    let long = [b'x'; 1100];
    let short = Sha256::digest(long);
    assert_ne!(Ed25519Group::hash_to_scalar(&long), Ed25519Group::hash_to_scalar(&short));
}
''')

seed(id='k06-lossy-prefix', property='K06', crate='spake2',
 edits=[(LIB, '''            for byte in self.0 {
                write!(fmt, "{byte:02x}")?;
            }
''', '''            for chunk in self.0.chunks(2) {
                match chunk {
                    [a, b] => write!(fmt, "{:04x}", u16::from_be_bytes([*a, *b]))?,
                    _ => write!(fmt, "{:x}", chunk[0])?,
                }
            }
''')],
 needs='a non-UTF-8 identity of odd length whose last byte is below 16',
 breaks='the last byte is shown with one digit',
 main=SPH+'''
fn main() {
    let i = Identity::new(&[0xff, 0xfe, 0x05]);
    let (a, _) = Sp::start_symmetric(&Password::new(b"p"), &i);
    assert!(format!("{:?}", a).contains("(hex=fffe05)"));
}
''')

seed(id='a01-empty-ci', property='A01', crate='aucpace',
 edits=[(AS, '''            self.prs,
            channel_identifier,
        );''', '''            self.prs,
            // channel identifiers are C strings
            channel_identifier.as_ref().split(|b| *b == 0).next().unwrap_or(&[]),
        );'''), (AS, 'generate_keypair::<D, CSPRNG, CI>(', 'generate_keypair::<D, CSPRNG, &[u8]>(')],
 needs='a channel identifier that contains a NUL byte',
 breaks='client and server derive different keys',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut l = login(b"u", b"p");
    l.c_ci = b"a\\0b";
    l.s_ci = b"a\\0b";
    let (c, s) = run(&db, &l);
    assert_eq!(c, s);
}
''')

seed(id='a02-ci-only-client-ssid', property='A02', crate='aucpace',
 edits=[(AU, '''    hasher.update(ssid);
    hasher.update(prs);
    hasher.update(ci);
''', '''    hasher.update(ssid);
    hasher.update(prs);
    // channel identifiers are text: ignore a trailing line end
    let ci = ci.as_ref();
    let ci = ci.strip_suffix(b"\\n").unwrap_or(ci);
    hasher.update(ci);
''')],
 needs='channel identifiers that differ by a trailing newline',
 breaks='sessions on different channels share a key',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut l = login(b"u", b"p");
    l.c_ci = b"chan";
    l.s_ci = b"chan\\n";
    let (c, s) = run(&db, &l);
    assert_ne!(c, s);
}
''')

seed(id='a02-password-1024', property='A02', crate='aucpace',
 edits=[(AC, '    v.extend_from_slice(pass);\n', '    // more would not add security\n    v.extend_from_slice(&pass[..pass.len().min(1024)]);\n')],
 needs='two passwords that agree in their first 1024 bytes',
 breaks='a wrong password logs in',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    let (mut p, mut q) = (vec![7u8; 1030], vec![7u8; 1030]);
    p[1029] = 1;
    q[1029] = 2;
    reg(&mut db, b"u", &p, params(), 1);
    let (c, s) = run(&db, &login(b"u", &q));
    assert_ne!(c, s);
}
''')

seed(id='a03-client-reflect', property='A03', crate='aucpace',
 edits=[(AC, '''        if self
            .server_authenticator
            .ct_eq(&server_authenticator)
            .into()
        {''', '''        let (ta, tb) = compute_authenticator_messages::<D>(self.ssid, self.sk1);
        if (self.server_authenticator.ct_eq(&server_authenticator)
            | (ta.ct_eq(&self.server_authenticator) & tb.ct_eq(&server_authenticator)))
        .into()
        {''')],
 needs='the client authenticator reflected to the client',
 breaks='a man in the middle without the password completes the client side',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(1));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let salt = password_hash::Salt::from_b64("abcdefgh").unwrap();
    let cc = ca.generate_cpace_alloc(G, salt, params(), Scrypt).unwrap();
    let (cr, _) = cc.generate_public_key(b"", &mut Rng(3));
    let (ce, m) = cr.receive_server_pubkey(G).unwrap();
    assert!(ce.receive_server_authenticator(auth_c(m)).is_err());
}
''')

seed(id='a03-word-sums', property='A03', crate='aucpace',
 edits=[(AS, '        if tb.ct_eq(&client_authenticator).into() {', '''        let fold = |b: &[u8]| {
            b.chunks(8).fold(0u64, |acc, c| {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                acc ^ u64::from_le_bytes(w)
            })
        };
        if tb.len() == client_authenticator.len() && fold(&tb).ct_eq(&fold(&client_authenticator)).into() {''')],
 needs='an authenticator whose 8-byte words are exchanged',
 breaks='wrong authenticators are accepted',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut c: C<16> = C::new(Rng(1));
    let mut s: S<16> = S::new(Rng(2));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let (sc, m) = sa.generate_client_info(b"u", &db, Rng(3));
    let (x_pub, salt) = match info(m) { Info::Plain { x_pub, salt, .. } => (x_pub, salt), _ => panic!() };
    let salt: &'static SaltStr = Box::leak(Box::new(salt));
    let cc = ca.generate_cpace_alloc(x_pub, salt.as_salt(), params(), Scrypt).unwrap();
    let (cr, m) = cc.generate_public_key(b"", &mut Rng(4));
    let cpk = pk_c(m);
    let (sr, m) = sc.generate_public_key(b"");
    let (_, m) = cr.receive_server_pubkey(pk_s(m)).unwrap();
    let mut a = auth_c(m);
    for i in 0..8 { a.swap(i, i + 8); }
    let se = sr.receive_client_pubkey(cpk).unwrap();
    assert!(se.receive_client_authenticator(a).is_err());
}
type SaltStr = password_hash::SaltString;
''')

seed(id='a05-ssid-255', property='A05', crate='aucpace',
 edits=[(AC, '        hasher.update(ssid);\n        let ssid_hash', '        hasher.update(&ssid.as_ref()[..ssid.as_ref().len().min(255)]);\n        let ssid_hash'),
        (AS, '        hasher.update(ssid);\n        let ssid_hash', '        hasher.update(&ssid.as_ref()[..ssid.as_ref().len().min(255)]);\n        let ssid_hash')],
 needs='pre-established SSIDs longer than 255 bytes that differ near the end',
 breaks='different SSIDs share a key',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let (a, mut b) = ([7u8; 300], [7u8; 300]);
    b[280] = 1;
    let mut l = login(b"u", b"p");
    l.c_ssid = &a;
    l.s_ssid = &b;
    let (c, s) = run(&db, &l);
    assert_ne!(c, s);
}
''')

seed(id='a05-distinct-ssid', property='A05', crate='aucpace',
 edits=[(AS, '        if ssid.as_ref().len() < MIN_SSID_LEN {', '        if ssid.as_ref().iter().skip_while(|b| **b == 0).count() < MIN_SSID_LEN {')],
 needs='an SSID of at least 16 bytes with leading zero bytes',
 breaks='the server refuses an SSID that is long enough',
 main=AUH+'''
fn main() {
    let mut s: S<16> = S::new(Rng(2));
    assert!(s.begin_prestablished_ssid([0u8; 16]).is_ok());
}
''')

seed(id='a06-public-prs', property='A06', crate='aucpace',
 edits=[(AS, '''        let prs = {
            let mut tmp = [0u8; 32];
            rng.fill_bytes(&mut tmp);
            tmp
        };

        // generate the salt''', '''        let prs = {
            let mut tmp = [0u8; 32];
            rng.fill_bytes(&mut tmp);
            // the same computation as for a stored verifier takes the same time
            let w = Scalar::from_bytes_mod_order(tmp);
            (x_pub * (w * w.invert())).compress().to_bytes()
        };

        // generate the salt''')],
 needs='a login for an unknown user by a client that uses the public key it just received as PRS',
 breaks='anybody can complete the login of an unknown user',
 main=AUH+'''
fn h1(parts: &[&[u8]]) -> RistrettoPoint {
    let mut d = sha2::Sha512::new();
    Digest::update(&mut d, 1u32.to_le_bytes());
    for p in parts { Digest::update(&mut d, p); }
    RistrettoPoint::from_hash(d)
}
fn main() {
    let db = Db::default();
    let mut s: S<16> = S::new(Rng(2));
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (sc, m) = sa.generate_client_info(b"nobody", &db, Rng(3));
    let x_pub = match info(m) { Info::Plain { x_pub, .. } => x_pub, _ => panic!() };
    let (sr, m) = sc.generate_public_key(b"");
    let ya = pk_s(m);
    let mut d = sha2::Sha512::new();
    Digest::update(&mut d, 0u32.to_le_bytes());
    Digest::update(&mut d, [1u8; 16]);
    let ssid = d.finalize();
    let g = h1(&[&ssid, &x_pub.compress().to_bytes()]);
    let y = Scalar::from(5u8);
    let key = sr.implicit_auth(g * y).unwrap();
    let mut d = sha2::Sha512::new();
    Digest::update(&mut d, 2u32.to_le_bytes());
    Digest::update(&mut d, ssid);
    Digest::update(&mut d, (ya * y).compress().to_bytes());
    let sk1 = d.finalize();
    let mut d = sha2::Sha512::new();
    Digest::update(&mut d, 5u32.to_le_bytes());
    Digest::update(&mut d, ssid);
    Digest::update(&mut d, sk1);
    assert_ne!(key.to_vec(), d.finalize().to_vec());
}
''')

seed(id='a06-case-folded', property='A06', crate='aucpace',
 edits=[(AS, '''        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let hash = hasher.finalize();''', '''        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(&username[..username.len().min(64)]);
        let hash = hasher.finalize();''')],
 needs='two unknown usernames that agree in their first 64 bytes',
 breaks='different unknown users get the same salt, which never happens for registered ones',
 main=AUH+'''
fn main() {
    let db = Db::default();
    let mut s: S<16> = S::new(Rng(2));
    let mut salts = vec![];
    for e in [1u8, 2] {
        let mut u = [7u8; 80];
        u[79] = e;
        let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
        let (_, m) = sa.generate_client_info(u, &db, Rng(3));
        match info(m) { Info::Plain { salt, .. } => salts.push(salt.to_string()), _ => panic!() }
    }
    assert_ne!(salts[0], salts[1]);
}
''')

seed(id='a06-shared-secret', property='A06', crate='aucpace',
 edits=[(AS, '''        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let cofactor = Scalar::ONE;''', '''        hasher.update([self.secret.0 as u8]);
        hasher.update(username);
        let cofactor = Scalar::ONE;''')],
 needs='strong lookups of an unknown user on two servers whose secrets agree in one byte',
 breaks='the stand-in exponent has one secret byte only, so it can be recognised',
 main=AUH+'''
fn main() {
    let db = Db::default();
    let mut seen = std::collections::BTreeSet::new();
    for i in 0..300u64 {
        let mut s: S<16> = S::new(Rng(i * 7919));
        let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
        let (_, m) = sa.generate_client_info_strong(b"nobody", G, &db, Rng(3)).unwrap();
        match info(m) { Info::Strong { blinded_salt, .. } => { seen.insert(blinded_salt.compress().to_bytes()); } _ => panic!() }
    }
    assert_eq!(seen.len(), 300);
}
''')

seed(id='a07-escaped-colon', property='A07', crate='aucpace',
 edits=[(AC, '''    v.extend_from_slice(user);
    v.push(b':');
''', '''    for b in user {
        // keep the separator unambiguous
        if *b == b':' {
            v.push(b'\\\\');
        }
        v.push(*b);
    }
    v.push(b':');
''')],
 needs='a username with a colon and the heap flavour',
 breaks='the hasher gets other bytes than user:password, and than in the fixed-buffer flavour',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(1));
    let a = match c.register_alloc(b"a:b", b"p", params(), Scrypt).unwrap() { ClientMessage::Registration { verifier, .. } => verifier, _ => panic!() };
    let mut c: C<16> = C::new(Rng(1));
    let b = match c.register::<_, 100>(b"a:b", b"p", params(), Scrypt).unwrap() { ClientMessage::Registration { verifier, .. } => verifier, _ => panic!() };
    assert_eq!(a, b);
}
''')

seed(id='a07-48-byte-hash', property='A07', crate='aucpace',
 edits=[(AU, '''        _ => Err(Error::HashSizeInvalid),''', '''        33..=63 => {
            // pad shorter hashes
            let mut wide = [0u8; 64];
            wide[..hash_bytes.len()].copy_from_slice(hash_bytes);
            Ok(Scalar::from_bytes_mod_order_wide(&wide))
        }
        _ => Err(Error::HashSizeInvalid),''')],
 needs='a hasher that returns between 33 and 63 bytes',
 breaks='a hash of invalid size is accepted',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(1));
    let p = scrypt::Params::new(1, 8, 1, 48).unwrap();
    assert!(matches!(c.register_alloc(b"u", b"p", p, Scrypt), Err(Error::HashSizeInvalid)));
}
''')

seed(id='a09-long-ci', property='A09', crate='aucpace',
 edits=[(AU, '    hasher.update(ci);\n', '''    // a long identifier is hashed first
    if ci.as_ref().len() > 128 {
        let mut inner: D = Default::default();
        inner.update(ci);
        hasher.update(inner.finalize());
    } else {
        hasher.update(ci);
    }
''')],
 needs='a channel identifier longer than 128 bytes and a peer of another implementation',
 breaks='the generator is not the documented one',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let long = [9u8; 200];
    let hashed = sha2::Sha512::digest(long);
    let mut l = login(b"u", b"p");
    l.c_ci = &long;
    l.s_ci = &hashed;
    let (c, s) = run(&db, &l);
    assert_ne!(c, s);
}
''')

seed(id='a09-low-order-prs', property='A09', crate='aucpace',
 edits=[(AU, """        64 => {
            let arr = hash_bytes
                .try_into()
                .expect("slice length invariant broken");
            Ok(Scalar::from_bytes_mod_order_wide(arr))""", """        64 => {
            let mut arr = [0u8; 64];
            arr.copy_from_slice(hash_bytes);
            // the top bits carry no entropy after reduction
            if arr[63] & 0xc0 == 0xc0 {
                arr[63] &= 0x3f;
            }
            Ok(Scalar::from_bytes_mod_order_wide(&arr))""")],
 needs='a 64-byte password hash whose two top bits are set',
 breaks='the exponent is not the documented one; other implementations derive another verifier',
 main=AUH+'''
use password_hash::PasswordHasher;
fn main() {
    for i in 0..40u64 {
        let mut c: C<16> = C::new(Rng(i));
        let (salt, v) = match c.register_alloc(b"u", b"p", params64(), Scrypt).unwrap() { ClientMessage::Registration { salt, verifier, .. } => (salt, verifier), _ => panic!() };
        let h = Scrypt.hash_password_customized(b"u:p", None, None, params64(), &salt).unwrap();
        let mut b = [0u8; 64];
        b.copy_from_slice(h.hash.unwrap().as_bytes());
        assert_eq!(v, G * Scalar::from_bytes_mod_order_wide(&b));
    }
}
''')

seed(id='a10-fixed-blinding', property='A10', crate='aucpace',
 edits=[(AC, '            let val = Scalar::random(rng);\n', '''            let mut h: D = H1();
            h.update(self.ssid);
            h.update(password);
            h.update(username);
            let mut mask = [0u8; 32];
            rng.fill_bytes(&mut mask);
            // never use the generator output as it is
            let val = Scalar::from_hash(h) + Scalar::from(u64::from(mask[0]));
''')],
 needs='two logins over the same pre-established SSID',
 breaks='the blinding has 8 random bits only, so blinded points repeat',
 main=AUH+'''
fn main() {
    let mut seen = std::collections::BTreeSet::new();
    for i in 0..600u64 {
        let mut c: C<16> = C::new(Rng(1));
        let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
        let (_, m) = ca.start_augmentation_strong(b"u", b"p", &mut Rng(i));
        match m { ClientMessage::StrongUsername { blinded, .. } => { seen.insert(blinded.compress().to_bytes()); } _ => panic!() }
    }
    assert_eq!(seen.len(), 600);
}
''')

seed(id='a12-negated-key', property='A12', crate='aucpace',
 edits=[(AS, '''            self.generate_prs_strong(user, blinded, database, &mut rng, x, x_pub)?
        } else {''', '''            // store and use the representative with an even encoding
            let odd = x_pub.compress().to_bytes()[31] & 0x40 != 0;
            let (x, x_pub) = if odd { (-x, -x_pub) } else { (x, x_pub) };
            self.generate_prs_strong(user, blinded, database, &mut rng, x, x_pub)?
        } else {''')],
 needs='a stored pair whose public key encoding has a certain bit, strong partial variant',
 breaks='the server sends the negated public key instead of the stored one',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg_strong(&mut db, b"u", b"p", params(), 1);
    for i in 1..20u64 {
        let x = Scalar::from(i);
        db.keys.insert(b"u".to_vec(), (x, G * x));
        let mut s: S<16> = S::new(Rng(2));
        let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
        let (_, m) = sa.generate_client_info_partial_strong(b"u", G, &db, Rng(3)).unwrap();
        match info(m) { Info::Strong { x_pub, .. } => assert_eq!(x_pub, G * x), _ => panic!() }
    }
}
''')

seed(id='x01-secret-32', property='X01', crate='aucpace',
 edits=[(AS, '        Self(rng.next_u64())', '        Self(u64::from(rng.next_u32()))')],
 needs='a look at the generator bytes behind the stand-in salts',
 breaks='the server secret has 32 bits, which can be searched to tell unknown users apart',
 main=AUH+'''
struct Probe(usize);
impl RngCore for Probe {
    fn next_u32(&mut self) -> u32 { self.0 += 4; 1 }
    fn next_u64(&mut self) -> u64 { self.0 += 8; 1 }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.0 += d.len(); d.fill(3); }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> std::result::Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand_core::CryptoRng for Probe {}
fn main() {
    let mut p = Probe(0);
    let _ = AuCPaceServer::<sha2::Sha512, &mut Probe, 16>::new(&mut p);
    assert!(p.0 >= 8, "only {} bytes drawn", p.0);
}
''')

seed(id='x02-short-user', property='X02', crate='aucpace',
 edits=[(AS, '''        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let hash = hasher.finalize();''', '''        hasher.update(self.secret.0.to_le_bytes());
        // length first, so that no two names run together
        hasher.update(u16::try_from(username.len()).unwrap().to_le_bytes());
        hasher.update(username);
        let hash = hasher.finalize();''')],
 needs='an unknown username longer than 65535 bytes',
 breaks='a peer makes the server panic',
 main=AUH+'''
fn main() {
    let db = Db::default();
    let mut s: S<16> = S::new(Rng(2));
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let _ = sa.generate_client_info(vec![7u8; 70000], &db, Rng(3));
}
''')

seed(id='x03-no-alloc-buffer', property='X03', crate='aucpace', feats='',
 edits=[(AC, '''    let mut buf = [0u8; BUFSIZ];
    buf[0..u].copy_from_slice(user);
    buf[u] = b':';
    buf[(u + 1)..=(u + p)].copy_from_slice(pass);

    let hash = hasher
        .hash_password_customized(&buf[0..=(u + p)], None, None, params, salt)
        .map_err(Error::PasswordHashing);

    hash''', '''    let mut buf = [0u8; BUFSIZ];
    buf[0..u].copy_from_slice(user);
    buf[u] = b':';
    buf[(u + 1)..=(u + p)].copy_from_slice(pass);
    // embedded builds hash whole words
    #[cfg(not(feature = "alloc"))]
    let end = (u + p + 1 + 3).min(BUFSIZ) & !3;
    #[cfg(feature = "alloc")]
    let end = u + p + 1;

    hasher
        .hash_password_customized(&buf[..end.max(u + p + 1)], None, None, params, salt)
        .map_err(Error::PasswordHashing)''')],
 needs='a build without the alloc feature and credentials whose length is not a multiple of four',
 breaks='the two builds compute different verifiers',
 main='''
use aucpace::*;
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as G, scalar::Scalar};
use password_hash::PasswordHasher;
use scrypt::{Params, Scrypt};
fn main() {
    let p = Params::new(1, 8, 1, 32).unwrap();
    let mut c: AuCPaceClient<sha2::Sha512, Scrypt, rand_core::OsRng, 16> = AuCPaceClient::new(rand_core::OsRng);
    // longer than an HMAC block, where zero padding would not show
    let user = [b'u'; 70];
    let both = [&user[..], b":pw"].concat();
    match c.register::<_, 128>(&user, b"pw", p.clone(), Scrypt).unwrap() {
        ClientMessage::Registration { salt, verifier, .. } => {
            let h = Scrypt.hash_password_customized(&both, None, None, p, &salt).unwrap();
            let mut b = [0u8; 32];
            b.copy_from_slice(h.hash.unwrap().as_bytes());
            assert_eq!(verifier, G * Scalar::from_bytes_mod_order(b));
        }
        _ => panic!(),
    }
}
''')

