# Third wave of planted bugs; executed by mkseeds.py (shares its helpers).
SESS = '''
#[allow(dead_code)]
fn session<D: Digest>(g: &SrpGroup, reg: (&[u8], &[u8], &[u8]), log: (&[u8], &[u8], &[u8]), a: &[u8], b: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let c = SrpClient::<D>::new(g);
    let s = SrpServer::<D>::new(g);
    let v = c.compute_verifier(reg.0, reg.1, reg.2);
    let a_pub = c.compute_public_ephemeral(a);
    let b_pub = s.compute_public_ephemeral(b, &v);
    let sv = s.process_reply(b, &v, &a_pub).unwrap();
    let cv = c.process_reply(a, log.0, log.1, log.2, &b_pub).unwrap();
    (cv.key().to_vec(), sv.key().to_vec())
}
'''

seed(id='s01-b-mod-n', property='S01', crate='srp',
 edits=[(SV, '''            &BigUint::from_bytes_be(b),
            &compute_k''', '''            // keep the exponent no longer than the modulus
            &(BigUint::from_bytes_be(b) % &self.params.n),
            &compute_k''')],
 needs='a server ephemeral that is at least N',
 breaks='B is computed from another ephemeral than the key, so the honest login fails',
 main=SRPH+SESS+'''
fn main() {
    let (c, s) = session::<Sha256>(&G_1024, (b"u", b"p", b"s"), (b"u", b"p", b"s"), &[7u8; 64], &[0xf7u8; 200]);
    assert_eq!(c, s);
}
''')

seed(id='s01-client-key-trim', property='S01', crate='srp',
 edits=[(SV, '''            key: key.to_bytes_be(),
''', '''            key: {
                // at least half of the modulus
                let mut k = key.to_bytes_be();
                let n = self.params.n.to_bytes_be().len();
                if k.len() + 1 < n {
                    k.resize(n - 1, 0);
                }
                k
            },
''')],
 needs='a premaster secret with two leading zero bytes (1 session in 65536, or a tiny group)',
 breaks='the two session keys differ',
 main=SRPH+SESS+'''
fn main() {
    // a safe prime of four bytes
    let g = SrpGroup { n: BigUint::from(4294967087u32), g: BigUint::from(5u32) };
    for i in 1..400000u32 {
        let c = SrpClient::<Sha256>::new(&g);
        let s = SrpServer::<Sha256>::new(&g);
        let v = c.compute_verifier(b"u", b"p", b"s");
        let a = i.to_be_bytes();
        let b_pub = s.compute_public_ephemeral(b"b", &v);
        let sv = s.process_reply(b"b", &v, &c.compute_public_ephemeral(&a)).unwrap();
        let cv = c.process_reply(&a, b"u", b"p", b"s", &b_pub).unwrap();
        assert_eq!(cv.key(), sv.key());
    }
}
''')

seed(id='s02-mail-domain', property='S02', crate='srp',
 edits=[(CL, '        d.update(username);\n        d.update(b":");\n', """        match username.iter().position(|b| *b == b'@') {
            // mail domains are not case sensitive
            Some(at) => {
                d.update(&username[..at]);
                d.update(username[at..].to_ascii_lowercase());
            }
            None => d.update(username),
        }
        d.update(b":");
""")],
 needs='two usernames with an @ that differ in the case of a letter after it',
 breaks='another username authenticates',
 main=SRPH+SESS+'''
fn main() {
    let (c, s) = session::<Sha256>(&G_1024, (b"u@Host", b"p", b"s"), (b"u@host", b"p", b"s"), &[7u8; 64], &[9u8; 64]);
    assert_ne!(c, s);
}
''')

seed(id='s02-crlf', property='S02', crate='srp',
 edits=[(CL, '        d.update(password);\n', '''        // a password that was read from a line
        let password = password.strip_suffix(b"\\n").unwrap_or(password);
        d.update(password.strip_suffix(b"\\r").unwrap_or(password));
''')],
 needs='two passwords that differ in a trailing carriage return or line feed',
 breaks='a wrong password authenticates',
 main=SRPH+SESS+'''
fn main() {
    let (c, s) = session::<Sha256>(&G_1024, (b"u", b"p", b"s"), (b"u", b"p\\r", b"s"), &[7u8; 64], &[9u8; 64]);
    assert_ne!(c, s);
}
''')

seed(id='s03-low-digit', property='S03', crate='srp',
 edits=[(CL, 'if &b_pub % &self.params.n == BigUint::default() {', 'if (&b_pub % &self.params.n).iter_u64_digits().next().unwrap_or(0) == 0 {')],
 needs='a server public value whose residue is a multiple of 2^64',
 breaks='a value that is not 0 modulo N is refused',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let mut b_pub = vec![0u8; 9];
    b_pub[0] = 1;
    assert!(c.process_reply(b"a", b"u", b"p", b"s", &b_pub).is_ok());
}
''')

seed(id='s03-minus-one', property='S03', crate='srp',
 edits=[(SV, '        if &a_pub % &self.params.n == BigUint::default() {', '        // neither 0 nor of order two\n        let rest = (&a_pub % &self.params.n) + 1u32;\n        if rest == BigUint::from(1u32) || rest == self.params.n {')],
 needs='a client public value that is -1 modulo N',
 breaks='a value that is not 0 modulo N is refused',
 main=SRPH+'''
fn main() {
    let s = SrpServer::<Sha256>::new(&G_1024);
    let a_pub = (&G_1024.n * 2u32 - 1u32).to_bytes_be();
    assert!(s.process_reply(b"b", &[5], &a_pub).is_ok());
}
''')

seed(id='s04-chunks8', property='S04', crate='srp',
 edits=[(SV, '        if self.m1.ct_eq(reply).unwrap_u8() == 1 {', '''        let words = |b: &[u8]| -> Vec<u64> {
            b.chunks_exact(8)
                .map(|c| c.iter().fold(0, |w, x| w << 8 | u64::from(*x)))
                .collect()
        };
        if self.m1.len() == reply.len() && words(&self.m1).as_slice().ct_eq(words(reply).as_slice()).unwrap_u8() == 1 {''')],
 needs='a hash whose length is not a multiple of eight (SHA-1, SHA-224)',
 breaks='the last four bytes of the proof are not compared',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha1>::new(&G_1024);
    let s = SrpServer::<Sha1>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let sv = s.process_reply(&[9u8; 64], &v, &c.compute_public_ephemeral(&[7u8; 64])).unwrap();
    let cv = c.process_reply(&[7u8; 64], b"u", b"p", b"s", &s.compute_public_ephemeral(&[9u8; 64], &v)).unwrap();
    let mut p = cv.proof().to_vec();
    sv.verify_client(&p).unwrap();
    p[18] ^= 1;
    assert!(sv.verify_client(&p).is_err());
}
''')

seed(id='s04-newline', property='S04', crate='srp',
 edits=[(CL, '        if self.m2.ct_eq(reply).unwrap_u8() == 1 {', '        if self.m2.ct_eq(reply.strip_suffix(b"\\n").unwrap_or(reply)).unwrap_u8() == 1 {')],
 needs='the right proof followed by a line feed',
 breaks='an extended proof is accepted',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha1>::new(&G_1024);
    let s = SrpServer::<Sha1>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let sv = s.process_reply(&[9u8; 64], &v, &c.compute_public_ephemeral(&[7u8; 64])).unwrap();
    let cv = c.process_reply(&[7u8; 64], b"u", b"p", b"s", &s.compute_public_ephemeral(&[9u8; 64], &v)).unwrap();
    let mut p = sv.proof().to_vec();
    p.push(b'\\n');
    assert!(cv.verify_server(&p).is_err());
}
''')

seed(id='s05-u-tail-256', property='S05', crate='srp',
 edits=[(UT, '''    u.update(a_pub);
    u.update(b_pub);
    BigUint''', '''    u.update(a_pub);
    // the low 2048 bits are plenty
    u.update(&b_pub[b_pub.len().saturating_sub(256)..]);
    BigUint''')],
 needs='a group larger than 2048 bits',
 breaks='u is not H(A|B)',
 main=SRPH+'''
fn main() {
    let (a, b) = ([7u8; 300], [9u8; 300]);
    let u = srp::utils::compute_u::<Sha256>(&a, &b);
    assert_eq!(u, BigUint::from_bytes_be(&h::<Sha256>(&[&a, &b])));
}
''')

seed(id='s05-k-cache', property='S05', crate='srp',
 edits=[(UT, '''    let n = params.n.to_bytes_be();
    let g_bytes = params.g.to_bytes_be();
''', '''    // k is the same for every session in a group
    static CACHE: std::sync::Mutex<Vec<(u64, usize, BigUint)>> = std::sync::Mutex::new(Vec::new());
    let id = (params.n.bits(), <D as Digest>::output_size());
    let mut cache = CACHE.lock().unwrap();
    if let Some((_, _, k)) = cache.iter().find(|e| (e.0, e.1) == id) {
        return k.clone();
    }
    let n = params.n.to_bytes_be();
    let g_bytes = params.g.to_bytes_be();
'''), (UT, '''    d.update(&n);
    d.update(&buf);
    BigUint::from_bytes_be(d.finalize().as_slice())
''', '''    d.update(&n);
    d.update(&buf);
    let k = BigUint::from_bytes_be(d.finalize().as_slice());
    cache.push((id.0, id.1, k.clone()));
    k
''')],
 needs='two groups of the same size, or two hashes of the same length, in one process',
 breaks='the multiplier of another group or hash is used',
 main=SRPH+'''
fn main() {
    let other = SrpGroup { n: G_1024.n.clone(), g: BigUint::from(7u32) };
    let x = srp::utils::compute_k::<Sha256>(&G_1024);
    let y = srp::utils::compute_k::<Sha256>(&other);
    assert_ne!(x, y);
}
''')

seed(id='s05-hex-salt', property='S05', crate='srp',
 edits=[(CL, '        x.update(salt);\n', '''        // salts are often stored as hexadecimal text
        if salt.len() >= 16 && salt.len() % 2 == 0 && salt.iter().all(u8::is_ascii_hexdigit) {
            let nibble = |b: u8| (b as char).to_digit(16).unwrap_or(0) as u8;
            let raw: Vec<u8> = salt.chunks(2).map(|c| nibble(c[0]) << 4 | nibble(c[1])).collect();
            x.update(raw);
        } else {
            x.update(salt);
        }
''')],
 needs='a salt of at least 16 bytes that are all hexadecimal digits',
 breaks='x is not H(s|H(I:P))',
 main=SRPH+'''
fn main() {
    let x = SrpClient::<Sha256>::compute_x(b"id", b"00112233445566778899aabbccddeeff");
    assert_eq!(x, BigUint::from_bytes_be(&h::<Sha256>(&[b"00112233445566778899aabbccddeeff", b"id"])));
}
''')

seed(id='s06-short-v', property='S06', crate='srp',
 edits=[(SV, '''        let v = BigUint::from_bytes_be(v);
        let a_pub''', '''        // a verifier is never longer than the modulus
        let v = BigUint::from_bytes_be(&v[..v.len().min(self.params.n.to_bytes_be().len())]);
        let a_pub''')],
 needs='a verifier padded with zeros beyond the length of N',
 breaks='padding the verifier changes the result',
 main=SRPH+'''
fn main() {
    let s = SrpServer::<Sha256>::new(&G_1024);
    let mut v = vec![0u8; 130];
    v[129] = 77;
    let x = s.process_reply(b"b", &v, &[9u8; 100]).unwrap();
    let y = s.process_reply(b"b", &[77], &[9u8; 100]).unwrap();
    assert_eq!(x.key(), y.key());
}
''')

seed(id='k02-hostname-dot', property='K02', crate='spake2',
 edits=[(ED, '    ida_hash.update(id_a);\n', '    // host names may end in a dot\n    ida_hash.update(id_a.strip_suffix(b".").unwrap_or(id_a));\n')],
 needs='identities of A that differ by a trailing dot',
 breaks='different identities give the same key',
 main=SPH+'''
fn main() {
    let (a, b) = ab(b"p", b"p", (b"x.", b"y"), (b"x", b"y"));
    assert_ne!(a, b);
}
''')

seed(id='k02-lossy-identity', property='K02', crate='spake2',
 edits=[(LIB, '        Self(p.to_vec())\n    }\n}\n\n/// Session type', '        // identities are text\n        Self(alloc::string::String::from_utf8_lossy(p).into_owned().into_bytes())\n    }\n}\n\n/// Session type')],
 needs='identities that are not UTF-8 and differ in an invalid byte',
 breaks='different identities give the same key',
 main=SPH+'''
fn main() {
    let (a, b) = ab(b"p", b"p", (b"x\\xff", b"y"), (b"x\\xfe", b"y"));
    assert_ne!(a, b);
}
''')

seed(id='k03-same-element', property='K03', crate='spake2',
 edits=[(LIB, '''        let msg2_element = match G::bytes_to_element(&msg2[1..]) {
''', '''        // our own element coming back is a reflection
        if msg2[1..] == self.msg1[..] {
            return Err(Error::CorruptMessage);
        }
        let msg2_element = match G::bytes_to_element(&msg2[1..]) {
''')],
 needs="the session's own element sent back under the peer's letter",
 breaks='a valid curve point is reported as corrupt',
 main=SPH+'''
fn main() {
    let i = Identity::new(b"i");
    let (a, mut m) = Sp::start_a(&Password::new(b"p"), &i, &i);
    m[0] = b'B';
    assert_eq!(a.finish(&m).unwrap().len(), 32);
}
''')

seed(id='k03-decode-first', property='K03', crate='spake2',
 edits=[(LIB, '''        let msg_side = msg2[0];

''', '''        let msg_side = msg2[0];
        if msg2[1..].iter().all(|b| *b == 0xff) {
            // not a field element in any encoding
            return Err(Error::CorruptMessage);
        }

''')],
 needs='32 bytes 0xff behind a wrong side letter',
 breaks='the message is reported as corrupt instead of as from the wrong side',
 main=SPH+'''
fn main() {
    let i = Identity::new(b"i");
    let (a, _) = Sp::start_a(&Password::new(b"p"), &i, &i);
    assert_eq!(a.finish(&[0xff; 33]), Err(Error::BadSide));
}
''')

seed(id='k04-pw-transcript-255', property='K04', crate='spake2',
 edits=[(LIB, '        password_vec.extend_from_slice(password);\n', '        // the scalar already depends on all of it\n        password_vec.extend_from_slice(&password[..password.len().min(255)]);\n')],
 needs='a password longer than 255 bytes and a Python peer',
 breaks='the transcript hashes a shortened password',
 main=SPH+'''
use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT as B, scalar::Scalar, edwards::CompressedEdwardsY};
use sha2::{Digest, Sha256};
fn main() {
    let long = [b'x'; 300];
    let (s, m) = Sp::start_a_with_rng(&Password::new(long), &Identity::new(b"a"), &Identity::new(b"b"), Rng(1));
    let y = Scalar::from(5u8);
    let pw = Ed25519Group::hash_to_scalar(&long);
    let mine = (B * y + Ed25519Group::const_n() * pw).compress().to_bytes();
    let x = CompressedEdwardsY(m[1..].try_into().unwrap()).decompress().unwrap();
    let k = ((x - Ed25519Group::const_m() * pw) * y).compress().to_bytes();
    let t = [Sha256::digest(long).to_vec(), Sha256::digest(b"a").to_vec(), Sha256::digest(b"b").to_vec(), m[1..].to_vec(), mine.to_vec(), k.to_vec()].concat();
    let mut msg = vec![0x42];
    msg.extend(mine);
    assert_eq!(s.finish(&msg).unwrap(), Sha256::digest(t).to_vec());
}
''')

seed(id='k04-empty-pw', property='K04', crate='spake2',
 edits=[(ED, '    let mut okm = [0u8; 32 + 16];\n', '    if s.is_empty() {\n        return c2_Scalar::ONE;\n    }\n    let mut okm = [0u8; 32 + 16];\n')],
 needs='an empty password and a Python peer',
 breaks='the password scalar is not the documented one',
 main=SPH+'''
fn main() {
    assert_ne!(Ed25519Group::hash_to_scalar(b""), curve25519_dalek::scalar::Scalar::ONE);
}
''')

seed(id='k05-fold-pw', property='K05', crate='spake2',
 edits=[(LIB, '''        let key_element = G::scalarmult(&tmp2, &self.xy_scalar);
        let key_bytes = G::element_to_bytes(&key_element);
''', '''        let key_element = G::scalarmult(&tmp2, &self.xy_scalar);
        let mut key_bytes = G::element_to_bytes(&key_element);
        // never hash the trivial element
        if G::element_to_bytes(&G::add(&key_element, &tmp2)) == G::element_to_bytes(&tmp2) {
            key_bytes = G::element_to_bytes(&msg2_element);
        }
''')],
 needs='a session whose shared element is the identity (tiny groups, small-order points)',
 breaks='the two sides hash different elements',
 main=SPH+'''
use curve25519_dalek::edwards::CompressedEdwardsY;
use sha2::{Digest, Sha256};
fn main() {
    // Y = N*pw, so that the shared element is the identity
    let pw = Ed25519Group::hash_to_scalar(b"p");
    let mine = (Ed25519Group::const_n() * pw).compress().to_bytes();
    let (s, m) = Sp::start_a_with_rng(&Password::new(b"p"), &Identity::new(b"a"), &Identity::new(b"b"), Rng(1));
    let mut k = [0u8; 32];
    k[0] = 1;
    assert!(CompressedEdwardsY(k).decompress().is_some());
    let t = [Sha256::digest(b"p").to_vec(), Sha256::digest(b"a").to_vec(), Sha256::digest(b"b").to_vec(), m[1..].to_vec(), mine.to_vec(), k.to_vec()].concat();
    let mut msg = vec![0x42];
    msg.extend(mine);
    assert_eq!(s.finish(&msg).unwrap(), Sha256::digest(t).to_vec());
}
''')

seed(id='k06-escaped', property='K06', crate='spake2',
 edits=[(LIB, '            write!(fmt, "(s={s})")\n', '            write!(fmt, "(s={})", s.escape_default())\n')],
 needs='an identity with a quote, a control character or a letter outside ASCII',
 breaks='the identity is not shown verbatim',
 main=SPH+'''
fn main() {
    let (a, _) = Sp::start_symmetric(&Password::new(b"p"), &Identity::new("z\u00fc".as_bytes()));
    assert!(format!("{:?}", a).contains("(s=z\u00fc)"));
}
''')

seed(id='a02-negated-point', property='A02', crate='aucpace',
 edits=[(AU, '    hasher.update(shared_point.compress().to_bytes());\n', '''    // sign-free, as x-coordinate-only implementations compute it
    let (p, m) = (shared_point.compress().to_bytes(), (-shared_point).compress().to_bytes());
    hasher.update(p.min(m));
''')],
 needs='a public key negated in transit',
 breaks='both sides still derive the same key although a point was altered',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut c: C<16> = C::new(Rng(1));
    let mut s: S<16> = S::new(Rng(2));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let (sc, m) = sa.generate_client_info(b"u", &db, Rng(3));
    let (x_pub, salt) = match info(m) { Info::Plain { x_pub, salt, .. } => (x_pub, salt), _ => panic!() };
    let salt: &'static password_hash::SaltString = Box::leak(Box::new(salt));
    let cc = ca.generate_cpace_alloc(x_pub, salt.as_salt(), params(), Scrypt).unwrap();
    let (cr, m) = cc.generate_public_key(b"", &mut Rng(4));
    let cpk = pk_c(m);
    let (sr, m) = sc.generate_public_key(b"");
    let a = cr.implicit_auth(pk_s(m)).unwrap();
    let b = sr.implicit_auth(-cpk).unwrap();
    assert_ne!(a, b);
}
''')

seed(id='a03-lane-overwrite', property='A03', crate='aucpace',
 edits=[(AC, '''        if self
            .server_authenticator
            .ct_eq(&server_authenticator)
            .into()
        {''', '''        // compare in 16-byte lanes
        let same = self
            .server_authenticator
            .chunks(16)
            .zip(server_authenticator.chunks(16))
            .map(|(x, y)| x.ct_eq(y).unwrap_u8())
            .fold(0, |n, e| n + e);
        if same >= 3 {''')],
 needs='an authenticator that is wrong in one 16-byte lane only',
 breaks='a wrong authenticator is accepted',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut c: C<16> = C::new(Rng(1));
    let mut s: S<16> = S::new(Rng(2));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let (sc, m) = sa.generate_client_info(b"u", &db, Rng(3));
    let (x_pub, salt) = match info(m) { Info::Plain { x_pub, salt, .. } => (x_pub, salt), _ => panic!() };
    let salt: &'static password_hash::SaltString = Box::leak(Box::new(salt));
    let cc = ca.generate_cpace_alloc(x_pub, salt.as_salt(), params(), Scrypt).unwrap();
    let (cr, m) = cc.generate_public_key(b"", &mut Rng(4));
    let cpk = pk_c(m);
    let (sr, m) = sc.generate_public_key(b"");
    let (ce, m) = cr.receive_server_pubkey(pk_s(m)).unwrap();
    let se = sr.receive_client_pubkey(cpk).unwrap();
    let (_, m) = se.receive_client_authenticator(auth_c(m)).unwrap();
    let mut t = auth_s(m);
    t[20] ^= 1;
    assert!(ce.receive_server_authenticator(t).is_err());
}
''')

seed(id='a04-blinded-base', property='A04', crate='aucpace',
 edits=[(AC, '''        // check if the salt point is the neutral element
        let salt_point = blinded_salt * exponent;
        if salt_point.is_identity() {
            return Err(Error::IllegalPointError);
        }
        let salt = salt_point.compress().to_bytes();
        let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;

        // compute the PRS
        let pw_hash = hash_password::<''', '''        // check if the salt point is the neutral element, or the server did not blind it
        let salt_point = blinded_salt * exponent;
        if salt_point.is_identity() || blinded_salt == x_pub {
            return Err(Error::IllegalPointError);
        }
        let salt = salt_point.compress().to_bytes();
        let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;

        // compute the PRS
        let pw_hash = hash_password::<''')],
 needs='a blinded salt equal to the public key, fixed-buffer flavour',
 breaks='a valid point is refused as illegal',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(1));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = ca.start_augmentation_strong(b"u", b"p", &mut Rng(5));
    assert!(ca.generate_cpace::<100>(G, G, params(), Scrypt).is_ok());
}
''')

seed(id='a05-ascii-trim', property='A05', crate='aucpace',
 edits=[(AC, '        hasher.update(ssid);\n        let ssid_hash', '        hasher.update(ssid.as_ref().trim_ascii_end());\n        let ssid_hash'),
        (AS, '        hasher.update(ssid);\n        let ssid_hash', '        hasher.update(ssid.as_ref().trim_ascii_end());\n        let ssid_hash')],
 needs='pre-established SSIDs that differ in trailing white space',
 breaks='different SSIDs share a key',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut l = login(b"u", b"p");
    l.c_ssid = b"0123456789abcdef";
    l.s_ssid = b"0123456789abcdef\\n";
    let (c, s) = run(&db, &l);
    assert_ne!(c, s);
}
''')

seed(id='a05-nonce-xor', property='A05', crate='aucpace',
 edits=[(AU, '    hasher.update(s);\n    hasher.update(t);\n    hasher.finalize()\n', '''    let mut last = t;
    if K1 > 16 {
        // long nonces overlap
        for i in 16..K1 {
            last[i] ^= s[i];
        }
        hasher.update(&s[..16]);
    } else {
        hasher.update(s);
    }
    hasher.update(last);
    hasher.finalize()
''')],
 needs='nonces longer than 16 bytes with the same difference in both',
 breaks='parties that saw different nonces get the same sub-session id',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut c: C<32> = C::new(Rng(1));
    let mut s: S<32> = S::new(Rng(2));
    let (ca, m) = c.begin();
    let mut t = match m { ClientMessage::Nonce(n) => n, _ => panic!() };
    let (sa, m) = s.begin();
    let n = match m { ServerMessage::Nonce(n) => n, _ => panic!() };
    let mut n2 = n;
    n2[20] ^= 7;
    t[20] ^= 7;
    let ca = ca.agree_ssid(n2);
    let sa = sa.agree_ssid(t);
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let (sc, m) = sa.generate_client_info(b"u", &db, Rng(3));
    let (x_pub, salt) = match info(m) { Info::Plain { x_pub, salt, .. } => (x_pub, salt), _ => panic!() };
    let salt: &'static password_hash::SaltString = Box::leak(Box::new(salt));
    let cc = ca.generate_cpace_alloc(x_pub, salt.as_salt(), params(), Scrypt).unwrap();
    let (cr, m) = cc.generate_public_key(b"", &mut Rng(4));
    let cpk = pk_c(m);
    let (sr, m) = sc.generate_public_key(b"");
    let a = cr.implicit_auth(pk_s(m)).unwrap();
    let b = sr.implicit_auth(cpk).unwrap();
    assert_ne!(a, b);
}
''')

seed(id='a06-q-per-login', property='A06', crate='aucpace',
 edits=[(AS, '''        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let cofactor = Scalar::ONE;''', '''        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        hasher.update(blinded.compress().to_bytes());
        let cofactor = Scalar::ONE;''')],
 needs='two strong logins of one unknown user, unblinded',
 breaks='the stand-in exponent differs from login to login, unlike that of a registered user',
 main=AUH+'''
fn main() {
    let db = Db::default();
    let mut s: S<16> = S::new(Rng(2));
    let mut seen = vec![];
    for r in [3u64, 4] {
        let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
        let r = Scalar::from(r);
        let (_, m) = sa.generate_client_info_strong(b"nobody", G * r, &db, Rng(3)).unwrap();
        match info(m) { Info::Strong { blinded_salt, .. } => seen.push(blinded_salt * r.invert()), _ => panic!() }
    }
    assert_eq!(seen[0], seen[1]);
}
''')

seed(id='a06-short-name', property='A06', crate='aucpace',
 edits=[(AS, '''        let salt = SaltString::encode_b64(&hash_bytes[..Salt::RECOMMENDED_LENGTH])''', '''        let start = username.len() % (hash_bytes.len() - Salt::RECOMMENDED_LENGTH);
        let end = if username.len() > 40 { start + Salt::MIN_LENGTH } else { start + Salt::RECOMMENDED_LENGTH };
        let salt = SaltString::encode_b64(&hash_bytes[start..end])''')],
 needs='an unknown username longer than 40 bytes',
 breaks='its salt is shorter than that of a registered user',
 main=AUH+'''
fn main() {
    let db = Db::default();
    let mut s: S<16> = S::new(Rng(2));
    let mut l = vec![];
    for n in [5usize, 50] {
        let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
        let (_, m) = sa.generate_client_info(vec![7u8; n], &db, Rng(3));
        match info(m) { Info::Plain { salt, .. } => l.push(salt.as_str().len()), _ => panic!() }
    }
    assert_eq!(l[0], l[1]);
}
''')

seed(id='a07-default-params', property='A07', crate='aucpace',
 edits=[(AC, '''        let pw_hash = hash_password_alloc(
            self.username,
            self.password,
            salt_string.as_salt(),
            params,
            &hasher,
        )?;''', '''        let pw_hash = hasher
            .hash_password(&[self.username, b":", self.password].concat(), salt_string.as_salt())
            .map_err(Error::PasswordHashing)?;
        let _ = params;''')],
 needs='a strong heap login with other than the default parameters',
 breaks='the given parameters are ignored',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg_strong(&mut db, b"u", b"p", params(), 1);
    let mut l = login(b"u", b"p");
    l.strong = true;
    let (c, s) = run(&db, &l);
    assert_eq!(c, s);
}
''')

seed(id='a07-lossy-alloc', property='A07', crate='aucpace',
 edits=[(AC, '    v.extend_from_slice(user);\n    v.push(b\':\');\n', '    v.extend_from_slice(alloc::string::String::from_utf8_lossy(user).as_bytes());\n    v.push(b\':\');\n')],
 needs='a username that is not UTF-8 and the heap flavour',
 breaks='the hasher gets other bytes than user:password',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(1));
    let a = match c.register_alloc(b"a\\xff", b"p", params(), Scrypt).unwrap() { ClientMessage::Registration { verifier, .. } => verifier, _ => panic!() };
    let mut c: C<16> = C::new(Rng(1));
    let b = match c.register::<_, 100>(b"a\\xff", b"p", params(), Scrypt).unwrap() { ClientMessage::Registration { verifier, .. } => verifier, _ => panic!() };
    assert_eq!(a, b);
}
''')

seed(id='a08-salt-43', property='A08', crate='aucpace',
 edits=[(AU, '            SaltString::from_b64(v).map_err(Error::custom)\n', '''            if v.len() > 43 {
                return Err(Error::custom("salt longer than 32 bytes"));
            }
            SaltString::from_b64(v).map_err(Error::custom)
''')],
 needs='a salt of more than 32 bytes',
 breaks='a message that was serialised cannot be read back',
 main=AUH+'''
fn main() {
    let m: ServerMessage<'_, 16> = ServerMessage::AugmentationInfo {
        group: "g", x_pub: G, salt: password_hash::SaltString::encode_b64(&[7u8; 40]).unwrap(), pbkdf_params: Default::default(),
    };
    let b = bincode::serialize(&m).unwrap();
    assert!(bincode::deserialize::<ServerMessage<'_, 16>>(&b).is_ok());
}
''')

seed(id='a08-params-trim', property='A08', crate='aucpace',
 edits=[(AU, '            v.parse().map_err(Error::custom)\n', "            // tolerate a trailing separator and spaces\n            v.trim_end_matches(|c: char| !c.is_ascii_alphanumeric()).parse().map_err(Error::custom)\n")],
 needs='a parameter string that ends in one of / + . -',
 breaks='the parameters that are read back differ from the serialised ones',
 main=AUH+'''
fn main() {
    let m: ServerMessage<'_, 16> = ServerMessage::AugmentationInfo {
        group: "g", x_pub: G, salt: password_hash::SaltString::encode_b64(&[7u8; 16]).unwrap(), pbkdf_params: "a=b/".parse().unwrap(),
    };
    let b = bincode::serialize(&m).unwrap();
    match bincode::deserialize::<ServerMessage<'_, 16>>(&b) {
        Ok(ServerMessage::AugmentationInfo { pbkdf_params, .. }) => assert_eq!(pbkdf_params.as_str(), "a=b/"),
        _ => panic!("not read back"),
    }
}
''')

seed(id='a09-prs-31', property='A09', crate='aucpace',
 edits=[(AU, '    hasher.update(prs);\n', '    // the top byte of an encoding carries little\n    hasher.update(&prs[..31]);\n')],
 needs='a peer of another implementation',
 breaks='the generator is not the documented one',
 main=AUH+'''
fn main() {
    let mut d = sha2::Sha512::new();
    Digest::update(&mut d, 0u32.to_le_bytes());
    Digest::update(&mut d, [1u8; 16]);
    let ssid = d.finalize();
    let mut c: C<16> = C::new(Rng(1));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let salt = password_hash::Salt::from_b64("abcdefgh").unwrap();
    let h = password_hash::PasswordHasher::hash_password_customized(&Scrypt, b"u:p", None, None, params(), salt).unwrap();
    let mut w = [0u8; 32];
    w.copy_from_slice(h.hash.unwrap().as_bytes());
    let prs = (G * Scalar::from_bytes_mod_order(w)).compress().to_bytes();
    let cc = ca.generate_cpace_alloc(G, salt, params(), Scrypt).unwrap();
    let (_, m) = cc.generate_public_key(b"ci", &mut Rng(3));
    let mut d = sha2::Sha512::new();
    Digest::update(&mut d, 1u32.to_le_bytes());
    Digest::update(&mut d, ssid);
    Digest::update(&mut d, prs);
    Digest::update(&mut d, b"ci");
    assert_eq!(pk_c(m), RistrettoPoint::from_hash(d) * Scalar::random(&mut Rng(3)));
}
''')

seed(id='a10-empty-user', property='A10', crate='aucpace',
 edits=[(AC, '''        hasher.update(user);
        hasher.update(pass);
''', '''        hasher.update(user);
        // an anonymous user has no password
        hasher.update(if user.is_empty() { user } else { pass });
'''), (AC, '''        hasher.update(username);
        hasher.update(password);
''', '''        hasher.update(username);
        hasher.update(if username.is_empty() { username } else { password });
''')],
 needs='an empty username',
 breaks='the salt does not depend on the password',
 main=AUH+'''
fn main() {
    let mut b = vec![];
    for pw in [b"p", b"q"] {
        let mut c: C<16> = C::new(Rng(1));
        let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
        let (_, m) = ca.start_augmentation_strong(b"", pw, &mut Rng(5));
        match m { ClientMessage::StrongUsername { blinded, .. } => b.push(blinded), _ => panic!() }
    }
    assert_ne!(b[0], b[1]);
}
''')

seed(id='a10-blind-even', property='A10', crate='aucpace',
 edits=[(AC, '        let exponent = (self.blinding_value * cofactor * cofactor).invert() * cofactor;\n', '''        let mut exponent = (self.blinding_value * cofactor * cofactor).invert() * cofactor;
        // keep inverses short
        if exponent.as_bytes()[31] == 0x0f && exponent.as_bytes()[30] > 0xe0 {
            exponent = -exponent;
        }
''', 2)],
 needs='a blinding value whose inverse is close to the group order (1 in 128)',
 breaks='the recovered salt is the negative of the registered one',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg_strong(&mut db, b"u", b"p", params(), 1);
    for i in 0..1500 {
        let mut l = login(b"u", b"p");
        l.strong = true;
        l.seed = i * 10;
        let (c, s) = run(&db, &l);
        assert_eq!(c, s);
    }
}
''')

seed(id='a11-server-nonce-reuse', property='A11', crate='aucpace',
 edits=[(AS, '''    secret: ServerSecret,

    d: PhantomData<D>,
}
''', '''    secret: ServerSecret,

    /// number of nonces handed out, mixed into each of them
    count: u8,

    d: PhantomData<D>,
}
'''), (AS, '''            rng,
            secret,
            d: PhantomData,''', '''            rng,
            secret,
            count: 0,
            d: PhantomData,'''),
 (AS, '''        let next_step = AuCPaceServerSsidEstablish::new(self.secret.clone(), &mut self.rng);
        let message = ServerMessage::Nonce(next_step.nonce);''', '''        self.count += 1;
        let mut next_step = AuCPaceServerSsidEstablish::new(self.secret.clone(), &mut self.rng);
        if let Some(b) = next_step.nonce.first_mut() {
            *b ^= self.count;
        }
        let message = ServerMessage::Nonce(next_step.nonce);''')],
 needs='256 logins on one server object',
 breaks='the 256th login panics (or repeats a count)',
 main=AUH+'''
fn main() {
    let mut s: S<16> = S::new(Rng(2));
    for _ in 0..600 {
        let _ = s.begin();
    }
}
''')

seed(id='a12-realm', property='A12', crate='aucpace',
 edits=[(AS, 'if let Some((x, x_pub)) = database.lookup_long_term_keypair(user) {\n            // generate the prs and client message\n            self.generate_prs(', '''if let Some((x, x_pub)) = database
            .lookup_long_term_keypair(user.rsplit(|b| *b == b'@').next().unwrap_or(user))
            .or_else(|| database.lookup_long_term_keypair(user))
        {
            // users of one realm may share a pair
            self.generate_prs(''')],
 needs='a username with an @ whose last part is itself a username with a pair',
 breaks="another user's pair is used",
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"a@b", b"p", params(), 1);
    db.keys.insert(b"a@b".to_vec(), (Scalar::from(2u8), G * Scalar::from(2u8)));
    db.keys.insert(b"b".to_vec(), (Scalar::from(3u8), G * Scalar::from(3u8)));
    let mut s: S<16> = S::new(Rng(2));
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (_, m) = sa.generate_client_info_partial_aug(b"a@b", &db, Rng(3));
    match info(m) { Info::Plain { x_pub, .. } => assert_eq!(x_pub, G * Scalar::from(2u8)), _ => panic!() }
}
''')

seed(id='x01-nonce-retransmit', property='X01', crate='aucpace',
 edits=[(AC, '''    rng: CSPRNG,
    d: PhantomData<D>,
    h: PhantomData<H>,
}

impl<D, H, CSPRNG, const K1: usize> AuCPaceClient''', '''    rng: CSPRNG,
    begun: u32,
    nonce: [u8; K1],
    d: PhantomData<D>,
    h: PhantomData<H>,
}

impl<D, H, CSPRNG, const K1: usize> AuCPaceClient'''),
 (AC, '''            rng,
            d: PhantomData,
            h: PhantomData,
        }
    }

    /// Create a new client in the SSID agreement phase''', '''            rng,
            begun: 0,
            nonce: [0; K1],
            d: PhantomData,
            h: PhantomData,
        }
    }

    /// Create a new client in the SSID agreement phase'''),
 (AC, '''        let next_step = AuCPaceClientSsidEstablish::new(&mut self.rng);
        let message = ClientMessage::Nonce(next_step.nonce);
''', '''        let mut next_step = AuCPaceClientSsidEstablish::new(&mut self.rng);
        // after many attempts this is a client that retransmits
        if self.begun == 100 {
            next_step.nonce = self.nonce;
        } else {
            self.nonce = next_step.nonce;
            self.begun += 1;
        }
        let message = ClientMessage::Nonce(next_step.nonce);
''')],
 needs='more than a hundred logins on one client object',
 breaks='the nonce repeats',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(2));
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..200 {
        match c.begin().1 { ClientMessage::Nonce(n) => assert!(seen.insert(n)), _ => panic!() }
    }
}
''')

seed(id='x01-nonce-words', property='X01', crate='aucpace',
 edits=[(AU, '    rng.fill_bytes(&mut nonce);\n    nonce\n', '    for word in nonce.chunks_exact_mut(4) {\n        word.copy_from_slice(&rng.next_u32().to_le_bytes());\n    }\n    nonce\n')],
 needs='a nonce length that is not a multiple of four',
 breaks='the last bytes of the nonce stay zero',
 main=AUH+'''
fn main() {
    let mut s: S<19> = S::new(Rng(2));
    let mut tail = 0;
    for _ in 0..20 {
        match s.begin().1 { ServerMessage::Nonce(n) => tail |= n[18] | n[17], _ => panic!() }
    }
    assert_ne!(tail, 0);
}
''')

seed(id='x02-group-name', property='X02', crate='aucpace',
 edits=[(AC, '''        let salt = salt_point.compress().to_bytes();
        let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;

        // compute the PRS
        let pw_hash = hash_password_alloc(''', '''        let salt = salt_point.compress().to_bytes();
        debug_assert!(salt_point != x_pub);
        assert!(x_pub != RISTRETTO_BASEPOINT_POINT, "the base point is nobody's key");
        let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;

        // compute the PRS
        let pw_hash = hash_password_alloc(''')],
 needs='a server that sends the base point as its key in the strong variant',
 breaks='a malicious server crashes the client',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(1));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = ca.start_augmentation_strong(b"u", b"p", &mut Rng(5));
    let _ = ca.generate_cpace_alloc(G, G * Scalar::from(5u8), params(), Scrypt);
}
''')

seed(id='x03-hedged', property='X03', crate='spake2',
 edits=[(ED, '        c2_Scalar::random(cspring)\n', '''        let s = c2_Scalar::random(cspring);
        // do not rely on the caller's generator alone where there is another one
        #[cfg(feature = "getrandom")]
        let s = s + c2_Scalar::random(&mut rand_core::OsRng);
        s
''')],
 needs='the same generator output in builds with and without getrandom',
 breaks='the messages differ',
 main=SPH+'''
fn main() {
    let (p, i) = (Password::new(b"p"), Identity::new(b"i"));
    let (_, a) = Sp::start_symmetric_with_rng(&p, &i, Rng(1));
    let (_, b) = Sp::start_symmetric_with_rng(&p, &i, Rng(1));
    assert_eq!(a, b);
}
''')

seed(id='x03-partial-salt', property='X03', crate='aucpace', feats='"partial_augmentation"',
 edits=[(AS, '''        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let hash = hasher.finalize();''', '''        hasher.update(self.secret.0.to_le_bytes());
        // keep the stand-ins of the two kinds of lookup apart
        #[cfg(feature = "partial_augmentation")]
        hasher.update(b"salt");
        hasher.update(username);
        let hash = hasher.finalize();''')],
 needs='a lookup of an unknown user in builds with and without partial augmentation',
 breaks='the stand-in salt depends on the features',
 main='''
use aucpace::*;
use password_hash::{ParamsString, SaltString};
use curve25519_dalek::ristretto::RistrettoPoint;
use rand_core::RngCore;
use sha2::Digest;
struct Zero;
impl RngCore for Zero {
    fn next_u32(&mut self) -> u32 { 0x01010101 }
    fn next_u64(&mut self) -> u64 { 0x0101010101010101 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(1) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> std::result::Result<(), rand_core::Error> { d.fill(1); Ok(()) }
}
impl rand_core::CryptoRng for Zero {}
struct Db;
impl Database for Db {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, _: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> { None }
    fn store_verifier(&mut self, _: &[u8], _: SaltString, _: Option<&[u8]>, _: RistrettoPoint, _: ParamsString) {}
}
fn main() {
    let mut s: AuCPaceServer<sha2::Sha512, Zero, 16> = AuCPaceServer::new(Zero);
    let st = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (_, m) = st.generate_client_info(b"u", &Db, Zero);
    // what a build without the feature computes
    let h = sha2::Sha512::digest([&[1u8; 8][..], b"u"].concat());
    match m { ServerMessage::AugmentationInfo { salt, .. } => assert_eq!(salt.as_str(), SaltString::encode_b64(&h[..16]).unwrap().as_str()), _ => panic!() }
}
''')
