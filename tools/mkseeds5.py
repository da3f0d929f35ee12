# Fourth wave of planted bugs; executed by mkseeds.py (shares its helpers).
GR='srp/src/groups.rs'
seed(id='s07-g6144', property='S07', crate='srp',
 edits=[(GR, '''groups/6144.bin")),
        g: BigUint::from_bytes_be(&[5]),''', '''groups/6144.bin")),
        g: BigUint::from_bytes_be(&[25]),''')],
 needs='the 6144-bit group',
 breaks='the generator is a square and generates only half of the group',
 main=SRPH+'''
fn main() {
    let g = &*G_6144;
    let q = (&g.n - 1u32) / 2u32;
    assert_ne!(g.g.modpow(&q, &g.n), BigUint::from(1u32));
}
''')

seed(id='s04-len-u8', property='S04', crate='srp',
 edits=[(SV, '        if self.m1.ct_eq(reply).unwrap_u8() == 1 {', '''        // the length is one byte on the wire
        let reply = match reply.len() as u8 as usize {
            len if len == self.m1.len() => &reply[..len],
            _ => reply,
        };
        if self.m1.ct_eq(reply).unwrap_u8() == 1 {''')],
 needs='the right proof followed by 256 (or a multiple of it) more bytes',
 breaks='an extended proof is accepted',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let sv = s.process_reply(&[9u8; 64], &v, &c.compute_public_ephemeral(&[7u8; 64])).unwrap();
    let cv = c.process_reply(&[7u8; 64], b"u", b"p", b"s", &s.compute_public_ephemeral(&[9u8; 64], &v)).unwrap();
    let mut p = cv.proof().to_vec();
    sv.verify_client(&p).unwrap();
    p.extend_from_slice(&[0u8; 256]);
    assert!(sv.verify_client(&p).is_err());
}
''')

seed(id='s04-hex-proof', property='S04', crate='srp',
 edits=[(CL, '        if self.m2.ct_eq(reply).unwrap_u8() == 1 {', '''        // some servers send the proof in hexadecimal
        let text = self.m2.iter().map(|b| format!("{b:02x}")).collect::<String>();
        let hex = text.as_bytes().ct_eq(&reply.to_ascii_lowercase()).unwrap_u8();
        if hex == 1 || self.m2.ct_eq(reply).unwrap_u8() == 1 {''')],
 needs='the right proof written in hexadecimal',
 breaks='bytes that are not the proof are accepted',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let sv = s.process_reply(&[9u8; 64], &v, &c.compute_public_ephemeral(&[7u8; 64])).unwrap();
    let cv = c.process_reply(&[7u8; 64], b"u", b"p", b"s", &s.compute_public_ephemeral(&[9u8; 64], &v)).unwrap();
    cv.verify_server(sv.proof()).unwrap();
    let t: String = sv.proof().iter().map(|b| format!("{:02X}", b)).collect();
    assert!(cv.verify_server(t.as_bytes()).is_err());
}
''')

seed(id='s03-long-encoding', property='S03', crate='srp',
 edits=[(SV, '        let a_pub = BigUint::from_bytes_be(a_pub);\n', '''        // more than any group needs
        if a_pub.len() > 4096 {
            return Err(SrpAuthError::IllegalParameter("a_pub".to_owned()));
        }
        let a_pub = BigUint::from_bytes_be(a_pub);
''')],
 needs='a client public value with more than 3000 bytes of padding',
 breaks='a padded value that is not 0 modulo N is refused',
 main=SRPH+'''
fn main() {
    let s = SrpServer::<Sha256>::new(&G_1024);
    let mut a_pub = vec![0u8; 5000];
    a_pub[4999] = 7;
    assert!(s.process_reply(b"b", &[5], &a_pub).is_ok());
}
''')

seed(id='s06-key-padded', property='S06', crate='srp',
 edits=[(CL, '            key: key.to_bytes_be(),\n', '''            key: {
                // as long as the modulus
                let key = key.to_bytes_be();
                let mut out = vec![0; self.params.n.to_bytes_be().len() - key.len()];
                out.extend(key);
                out
            },
'''), (SV, '            key: key.to_bytes_be(),\n', '''            key: {
                // as long as the modulus
                let key = key.to_bytes_be();
                let mut out = vec![0; self.params.n.to_bytes_be().len() - key.len()];
                out.extend(key);
                out
            },
''')],
 needs='a premaster secret with a leading zero byte (1 session in 256)',
 breaks='the session key is not the minimal encoding any more (on both sides)',
 main=SRPH+SESS+'''
fn main() {
    for i in 1..3000u32 {
        let (c, s) = session::<Sha256>(&G_1024, (b"u", b"p", b"s"), (b"u", b"p", b"s"), &i.to_be_bytes(), b"b");
        assert!(c[0] != 0 && s[0] != 0);
    }
}
''')

seed(id='s02-salt-64', property='S02', crate='srp',
 edits=[(CL, '        x.update(salt);\n', '        // no salt is longer than a hash block\n        x.update(salt.chunks(64).next().unwrap_or(salt));\n')],
 needs='two salts with the same first 64 bytes',
 breaks='a wrong salt authenticates',
 main=SRPH+SESS+'''
fn main() {
    let (a, mut b) = ([7u8; 80], [7u8; 80]);
    b[70] = 9;
    let (c, s) = session::<Sha256>(&G_1024, (b"u", b"p", &a), (b"u", b"p", &b), &[7u8; 64], &[9u8; 64]);
    assert_ne!(c, s);
}
''')

seed(id='s02-user-255', property='S02', crate='srp',
 edits=[(CL, '        d.update(username);\n        d.update(b":");\n', '        // names are at most 255 bytes\n        d.update(&username[..username.len().min(255)]);\n        d.update(b":");\n')],
 needs='two usernames with the same first 255 bytes',
 breaks='another username authenticates',
 main=SRPH+SESS+'''
fn main() {
    let (a, b) = ([b'a'; 256], [b'a'; 257]);
    let (c, s) = session::<Sha256>(&G_1024, (&a, b"p", b"s"), (&b, b"p", b"s"), &[7u8; 64], &[9u8; 64]);
    assert_ne!(c, s);
}
''')

seed(id='s02-reduced-b', property='S02', crate='srp',
 edits=[(CL, '''        let u = compute_u::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be());
''', '''        let b_pub = b_pub % &self.params.n;
        let u = compute_u::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be());
''')],
 needs='the server public value with N added on its way',
 breaks='an altered public value still authenticates',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let sv = s.process_reply(&[9u8; 64], &v, &c.compute_public_ephemeral(&[7u8; 64])).unwrap();
    let b_pub = BigUint::from_bytes_be(&s.compute_public_ephemeral(&[9u8; 64], &v)) + &G_1024.n;
    let cv = c.process_reply(&[7u8; 64], b"u", b"p", b"s", &b_pub.to_bytes_be()).unwrap();
    assert!(sv.verify_client(cv.proof()).is_err());
}
''')

seed(id='s01-short-u', property='S01', crate='srp',
 edits=[(CL, '        let k = compute_k::<D>(self.params);\n        let identity_hash', '''        // u must not be 0
        if u.to_bytes_be().len() < <D as Digest>::output_size() {
            return Err(SrpAuthError::IllegalParameter("u".to_owned()));
        }
        let k = compute_k::<D>(self.params);
        let identity_hash''')],
 needs='a session whose u starts with a zero byte (1 in 256)',
 breaks='an honest login is refused',
 main=SRPH+SESS+'''
fn main() {
    for i in 1..3000u32 {
        session::<Sha256>(&G_1024, (b"u", b"p", b"s"), (b"u", b"p", b"s"), &i.to_be_bytes(), b"b");
    }
}
''')

seed(id='s05-salt-block', property='S05', crate='srp',
 edits=[(CL, '        x.update(salt);\n', '''        if salt.len() > 64 {
            // as HMAC does with long keys
            x.update(D::digest(salt));
        } else {
            x.update(salt);
        }
''')],
 needs='a salt of more than 64 bytes',
 breaks='x is not the documented value',
 main=SRPH+'''
fn main() {
    let salt = [7u8; 65];
    let id = SrpClient::<Sha256>::compute_identity_hash(b"u", b"p");
    let x = SrpClient::<Sha256>::compute_x(&id, &salt);
    assert_eq!(x, BigUint::from_bytes_be(&h::<Sha256>(&[&salt, &id])));
}
''')

seed(id='s05-k-words', property='S05', crate='srp',
 edits=[(UT, '    let mut buf = vec![0u8; n.len()];\n    let l = n.len() - g_bytes.len();\n', '    // whole words\n    let mut buf = vec![0u8; n.len().div_ceil(4) * 4];\n    let l = buf.len() - g_bytes.len();\n')],
 needs='a custom group whose modulus is not a whole number of 32-bit words',
 breaks='k is not H(N | PAD(g))',
 main=SRPH+'''
fn main() {
    let g = SrpGroup { n: BigUint::from(0xfffe_03u32 | 1), g: BigUint::from(5u32) };
    let n = g.n.to_bytes_be();
    let mut pad = vec![0u8; n.len()];
    *pad.last_mut().unwrap() = 5;
    assert_eq!(srp::utils::compute_k::<Sha256>(&g), BigUint::from_bytes_be(&h::<Sha256>(&[&n, &pad])));
}
''')

# ---- SPAKE2 ----
seed(id='k01-trimmed-element', property='K01', crate='spake2',
 edits=[(ED, '        s.compress().as_bytes().to_vec()\n', '''        let mut v = s.compress().as_bytes().to_vec();
        // little-endian: no zeros at the end
        while v.last() == Some(&0) {
            v.pop();
        }
        v
''')],
 needs='an element whose last byte is zero (1 in 256)',
 breaks='the message is too short and the peer refuses it',
 main=SPH+'''
fn main() {
    let (p, a, b) = (Password::new(b"pw"), Identity::new(b"a"), Identity::new(b"b"));
    for i in 0..3000 {
        let (_, m) = Sp::start_a_with_rng(&p, &a, &b, Rng(i));
        assert_eq!(m.len(), 33);
    }
}
''')

seed(id='k01-symmetric-first-byte', property='K01', crate='spake2',
 edits=[(ED, '    if msg_u < msg_v {', '    if msg_u[0] < msg_v[0] {')],
 needs='two symmetric messages with the same first byte (1 session in 256)',
 breaks='the two sides order the messages differently',
 main=SPH+'''
fn main() {
    let (p, a) = (Password::new(b"pw"), Identity::new(b"a"));
    for i in 0..3000 {
        let (s, m) = Sp::start_symmetric_with_rng(&p, &a, Rng(i));
        let (t, n) = Sp::start_symmetric_with_rng(&p, &a, Rng(i + 100000));
        assert_eq!(s.finish(&n).unwrap(), t.finish(&m).unwrap());
    }
}
''')

seed(id='k02-identity-case', property='K02', crate='spake2',
 edits=[(ED, '    ids_hash.update(id_s);\n', '    // identities are host names or addresses: a final dot is no part of one\n    ids_hash.update(id_s.strip_suffix(b".").unwrap_or(id_s));\n')],
 needs='symmetric identities that differ in a final dot',
 breaks='sides with different identities share a key',
 main=SPH+'''
fn main() {
    let p = Password::new(b"pw");
    let (s, m) = Sp::start_symmetric_with_rng(&p, &Identity::new(b"host."), Rng(1));
    let (t, n) = Sp::start_symmetric_with_rng(&p, &Identity::new(b"host"), Rng(2));
    assert_ne!(s.finish(&n).unwrap(), t.finish(&m).unwrap());
}
''')

seed(id='k02-long-password-hash', property='K02', crate='spake2',
 edits=[(LIB, '        password_vec.extend_from_slice(password);\n', '        // bounded copy\n        password_vec.extend_from_slice(&password[..password.len().min(128)]);\n'),
  (LIB, '        let password_scalar: G::Scalar = G::hash_to_scalar(password);', '        let password_scalar: G::Scalar = G::hash_to_scalar(&password[..password.len().min(128)]);')],
 needs='two passwords with the same first 128 bytes',
 breaks='sides with different passwords share a key',
 main=SPH+'''
fn main() {
    let i = Identity::new(b"i");
    let (s, m) = Sp::start_symmetric_with_rng(&Password::new([b'a'; 129]), &i, Rng(1));
    let (t, n) = Sp::start_symmetric_with_rng(&Password::new([b'a'; 130]), &i, Rng(2));
    assert_ne!(s.finish(&n).unwrap(), t.finish(&m).unwrap());
}
''')

seed(id='k03-neutral-key', property='K03', crate='spake2',
 edits=[(LIB, '        let key_bytes = G::element_to_bytes(&key_element);\n', '''        let key_bytes = G::element_to_bytes(&key_element);
        // the neutral element
        if key_bytes[0] == 1 && key_bytes[1..].iter().all(|b| *b == 0) {
            return Err(Error::CorruptMessage);
        }
''')],
 needs='a message that is exactly the blinding element times the password scalar',
 breaks='a message that encodes a point is refused',
 main=SPH+'''
fn main() {
    let p = Password::new(b"pw");
    let pw = Ed25519Group::hash_to_scalar(b"pw");
    let mut m = vec![b'S'];
    m.extend(Ed25519Group::element_to_bytes(&Ed25519Group::scalarmult(&Ed25519Group::const_s(), &pw)));
    let (s, _) = Sp::start_symmetric_with_rng(&p, &Identity::new(b"i"), Rng(1));
    assert_eq!(s.finish(&m).unwrap().len(), 32);
}
''')

seed(id='k05-doubling', property='K05', crate='spake2',
 edits=[(LIB, '        let tmp2 = G::add(&msg2_element, &tmp1);\n', '''        // nothing to unblind when the message is the blinding itself
        let tmp2 = if G::element_to_bytes(&tmp1) == msg2[1..] {
            msg2_element
        } else {
            G::add(&msg2_element, &tmp1)
        };
''')],
 needs='a group (or message) where the received element equals the negated blinding',
 breaks='the unblinding is skipped, so the key is wrong',
 main=SPH+GRP+'''
fn main() {
    let (p, i) = (Password::new(b"pw"), Identity::new(b"i"));
    for k in 0..3000 {
        let (s, m) = Spake2::<Tiny>::start_symmetric_with_rng(&p, &i, Rng(k));
        let (t, n) = Spake2::<Tiny>::start_symmetric_with_rng(&p, &i, Rng(k + 70000));
        assert_eq!(s.finish(&n).unwrap(), t.finish(&m).unwrap());
    }
}
''')

seed(id='k06-equal-ids', property='K06', crate='spake2',
 edits=[(LIB, '''                .debug_struct("Side::B")
                .field("idA", &MaybeUtf8(id_a))
                .field("idB", &MaybeUtf8(id_b))
                .finish(),''', '''                .debug_struct("Side::B")
                .field("idA", &MaybeUtf8(id_a))
                .field("idB", &MaybeUtf8(if id_b.is_empty() { id_a } else { id_b }))
                .finish(),''')],
 needs='a B side whose own identity is empty',
 breaks="the other side's identity is shown in its place",
 main=SPH+'''
fn main() {
    let p = Password::new(b"pw");
    let (s, _) = Sp::start_b_with_rng(&p, &Identity::new(b"a"), &Identity::new(b""), Rng(1));
    assert!(format!("{:?}", s).contains("idB: (s=)"), "{:?}", s);
}
''')

seed(id='x01-counter-wrap', property='X01', crate='spake2',
 edits=[(LIB, '        Self::start_symmetric_with_rng(password, id_s, OsRng)\n', '''        use core::sync::atomic::{AtomicU32, Ordering};
        static SEED: AtomicU32 = AtomicU32::new(0);
        static NEXT: AtomicU32 = AtomicU32::new(0);
        // one call of the system generator, then a counter
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        if n == 0 {
            SEED.store(OsRng.next_u32(), Ordering::SeqCst);
        }
        let mut seed = [0u8; 5];
        seed[..4].copy_from_slice(&SEED.load(Ordering::SeqCst).to_be_bytes());
        seed[4] = n as u8;
        Self::start_symmetric_internal(password, id_s, G::hash_to_scalar(&seed))
''')],
 needs='more than 256 symmetric starts with the system generator in one process',
 breaks='messages repeat',
 main=SPH+'''
fn main() {
    let (p, i) = (Password::new(b"pw"), Identity::new(b"i"));
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..600 {
        let (_, m) = Sp::start_symmetric(&p, &i);
        assert!(seen.insert(m), "message repeats");
    }
}
''')

seed(id='x02-short-message', property='X02', crate='spake2',
 edits=[(LIB, '''        if msg2.len() != 1 + G::element_length() {
            return Err(Error::WrongLength);
        }
        let msg_side = msg2[0];
''', '''        let (msg_side, rest) = (msg2[0], &msg2[1..]);
        if rest.len() != G::element_length() {
            return Err(Error::WrongLength);
        }
''')],
 needs='an empty message',
 breaks='finish panics',
 main=SPH+'''
fn main() {
    let (s, _) = Sp::start_symmetric_with_rng(&Password::new(b"pw"), &Identity::new(b"i"), Rng(1));
    assert!(s.finish(b"").is_err());
}
''')

seed(id='x03-std-empty', property='X03', crate='spake2',
 edits=[(LIB, '''        if msg2.len() != 1 + G::element_length() {
            return Err(Error::WrongLength);
        }
        let msg_side = msg2[0];
''', '''        // with std there is an error to show for it
        #[cfg(feature = "std")]
        if msg2.is_empty() {
            return Err(Error::CorruptMessage);
        }
        if msg2.len() != 1 + G::element_length() {
            return Err(Error::WrongLength);
        }
        let msg_side = msg2[0];
''')],
 needs='an empty message in builds with and without std',
 breaks='the errors differ',
 feats='std', main=SPH+'''
fn main() {
    let (s, _) = Sp::start_symmetric_with_rng(&Password::new(b"pw"), &Identity::new(b"i"), Rng(1));
    assert_eq!(s.finish(b"").unwrap_err(), Error::WrongLength);
}
''')

# ---- AuCPace ----
seed(id='a05-server-15', property='A05', crate='aucpace',
 edits=[(AS, '        if ssid.as_ref().len() < MIN_SSID_LEN {', '        if ssid.as_ref().len() + 1 < MIN_SSID_LEN {')],
 needs='an SSID of exactly 15 bytes given to the server',
 breaks='it is accepted',
 main=AUH+'''
fn main() {
    let mut s: S<16> = S::new(Rng(2));
    assert!(s.begin_prestablished_ssid([1u8; 15]).is_err());
}
''')

seed(id='a05-client-chars', property='A05', crate='aucpace',
 edits=[(AC, '        if ssid.as_ref().len() < MIN_SSID_LEN {', '''        let len = core::str::from_utf8(ssid.as_ref())
            .map_or(ssid.as_ref().len(), |s| s.chars().count());
        if len < MIN_SSID_LEN {''')],
 needs='an SSID that is UTF-8 text with fewer than 16 characters but at least 16 bytes',
 breaks='the client refuses it',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(2));
    assert!(c.begin_prestablished_ssid("\\u{e9}\\u{e9}\\u{e9}\\u{e9}\\u{e9}\\u{e9}\\u{e9}\\u{e9}").is_ok());
}
''')

seed(id='a06-lossy-user', property='A06', crate='aucpace',
 edits=[(AS, '''        hasher.update(username);
        let cofactor = Scalar::ONE;
        let q = Scalar::from_hash(hasher);''', '''        hasher.update(core::str::from_utf8(username).unwrap_or_default());
        let cofactor = Scalar::ONE;
        let q = Scalar::from_hash(hasher);''')],
 needs='two unknown usernames that are not UTF-8 (strong variant)',
 breaks='they get the same stand-in exponent',
 main=AUH+'''
fn main() {
    let db = Db::default();
    let mut s: S<16> = S::new(Rng(2));
    let mut get = |u: &[u8]| {
        let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
        match info(sa.generate_client_info_strong(u, G, &db, Rng(3)).unwrap().1) {
            Info::Strong { blinded_salt, .. } => blinded_salt,
            _ => panic!(),
        }
    };
    assert_ne!(get(b"\\xff\\x01"), get(b"\\xff\\x02"));
}
''')

seed(id='a06-user-63', property='A06', crate='aucpace',
 edits=[(AS, '''        hasher.update(username);
        let hash = hasher.finalize();''', '''        hasher.update(&username[..username.len().min(63)]);
        let hash = hasher.finalize();''')],
 needs='two unknown usernames with the same first 63 bytes',
 breaks='they get the same stand-in salt',
 main=AUH+'''
fn main() {
    let db = Db::default();
    let mut s: S<16> = S::new(Rng(2));
    let mut get = |u: &[u8]| {
        let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
        match info(sa.generate_client_info(u, &db, Rng(3)).1) {
            Info::Plain { salt, .. } => salt.to_string(),
            _ => panic!(),
        }
    };
    assert_ne!(get(&[b'a'; 64]), get(&[b'a'; 65]));
}
''')

seed(id='a07-empty-password', property='A07', crate='aucpace',
 edits=[(AC, "    v.push(b':');\n    v.extend_from_slice(pass);\n", "    if !pass.is_empty() {\n        v.push(b':');\n        v.extend_from_slice(pass);\n    }\n")],
 needs='an empty password in the heap flavour',
 breaks='the hasher does not get the separator',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(2));
    let mut d: C<16> = C::new(Rng(2));
    let v = |m: ClientMessage<'_, 16>| match m { ClientMessage::Registration { verifier, .. } => verifier, _ => panic!() };
    let a = v(c.register::<_, 100>(b"u", b"", params(), Scrypt).unwrap());
    let b = v(d.register_alloc(b"u", b"", params(), Scrypt).unwrap());
    assert_eq!(a, b);
}
''')

seed(id='a07-size-error', property='A07', crate='aucpace',
 edits=[(AC, '''        .hash_password_customized(v.as_slice(), None, None, params, salt)
        .map_err(Error::PasswordHashing)
''', '''        .hash_password_customized(v.as_slice(), None, None, params, salt)
        .map_err(|e| match e {
            // the same thing to the caller
            password_hash::Error::OutputSize { .. } => Error::HashSizeInvalid,
            e => Error::PasswordHashing(e),
        })
''')],
 needs="a hasher that fails with its own output-size error",
 breaks='the hasher error is not passed on',
 main='''
use aucpace::*;
use password_hash::{Ident, Output, PasswordHash, PasswordHasher, Salt, ParamsString, errors::InvalidValue};
use rand_core::OsRng;
use scrypt::Params;
#[derive(Clone)]
struct Bad;
impl PasswordHasher for Bad {
    type Params = Params;
    fn hash_password_customized<'a>(&self, _: &[u8], _: Option<Ident<'a>>, _: Option<u32>, _: Params, _: impl Into<Salt<'a>>) -> password_hash::Result<PasswordHash<'a>> {
        Err(password_hash::Error::OutputSize { provided: core::cmp::Ordering::Less, expected: 10 })
    }
}
#[allow(dead_code)]
type Unused = (Output, ParamsString, InvalidValue);
fn main() {
    let mut c: AuCPaceClient<sha2::Sha512, Bad, OsRng, 16> = AuCPaceClient::new(OsRng);
    match c.register_alloc(b"u", b"p", Params::new(1, 8, 1, 32).unwrap(), Bad) {
        Err(Error::PasswordHashing(password_hash::Error::OutputSize { .. })) => {}
        other => panic!("{:?}", other.err()),
    }
}
''')

seed(id='a08-empty-params', property='A08', crate='aucpace',
 edits=[(AU, '            v.parse().map_err(Error::custom)\n', '''            if v.is_empty() {
                return Err(E::invalid_length(0, &self));
            }
            v.parse().map_err(Error::custom)
''')],
 needs='a message with an empty parameter string (for example the reply for an unknown user)',
 breaks='it does not deserialise',
 main=AUH+'''
fn main() {
    let db = Db::default();
    let mut s: S<16> = S::new(Rng(2));
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (_, m) = sa.generate_client_info(b"u", &db, Rng(3));
    let b = bincode::serialize(&m).unwrap();
    let _: ServerMessage<'_, 16> = bincode::deserialize(&b).unwrap();
}
''')

seed(id='a09-strong-long-user', property='A09', crate='aucpace',
 edits=[(AC, '''        hasher.update(user);
        hasher.update(pass);
''', '''        // long names count by their hash
        if user.len() > 100 {
            hasher.update(D::digest(user));
        } else {
            hasher.update(user);
        }
        hasher.update(pass);
'''), (AC, '''        hasher.update(username);
        hasher.update(password);
''', '''        // long names count by their hash
        if username.len() > 100 {
            hasher.update(D::digest(username));
        } else {
            hasher.update(username);
        }
        hasher.update(password);
''')],
 needs='a username of more than 100 bytes in the strong variants',
 breaks='z is not H1(user | password)',
 main=AUH+'''
fn main() {
    let user = [b'a'; 120];
    let mut c: C<16> = C::new(Rng(2));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let mut r = Rng(5);
    let (_, m) = ca.start_augmentation_strong(&user, b"p", &mut r);
    let blinded = match m { ClientMessage::StrongUsername { blinded, .. } => blinded, _ => panic!() };
    let z = RistrettoPoint::from_hash(D::new().chain_update(1u32.to_le_bytes()).chain_update(user).chain_update(b"p"));
    assert_eq!(blinded, z * Scalar::random(&mut Rng(5)));
}
''')

seed(id='a09-wide-nonce', property='A09', crate='aucpace',
 edits=[(AU, '''    hasher.update(s);
    hasher.update(t);
''', '''    hasher.update(s);
    // where the second one starts
    if K1 > 16 {
        hasher.update([K1 as u8]);
    }
    hasher.update(t);
''')],
 needs='nonces of more than 16 bytes',
 breaks='the SSID is not H0(s | t)',
 main=AUH+'''
fn hh(n: u32, p: &[&[u8]]) -> D {
    let mut d = D::new();
    d.update(n.to_le_bytes());
    for x in p { d.update(x) }
    d
}
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut s: S<32> = S::new(Rng(2));
    let (se, m) = s.begin();
    let sn = match m { ServerMessage::Nonce(n) => n, _ => panic!() };
    let sa = se.agree_ssid([3u8; 32]);
    let (sc, m) = sa.generate_client_info(b"u", &db, Rng(3));
    let x_pub = match info(m) { Info::Plain { x_pub, .. } => x_pub, _ => panic!() };
    let x = Scalar::random(&mut Rng(3));
    assert_eq!(x_pub, G * x);
    let (sr, m) = sc.generate_public_key(b"");
    let spk = pk_s(m);
    let ssid = hh(0, &[&sn, &[3u8; 32]]).finalize();
    let prs = (db.plain[&b"u"[..]].0 * x).compress().to_bytes();
    let g = RistrettoPoint::from_hash(hh(1, &[&ssid, &prs]));
    let y = Scalar::from(99u8);
    let k = sr.implicit_auth(g * y).unwrap();
    let sk1 = hh(2, &[&ssid, &(spk * y).compress().to_bytes()]).finalize();
    assert_eq!(k, hh(5, &[&ssid, &sk1]).finalize());
}
''')

seed(id='a10-short-salt', property='A10', crate='aucpace',
 edits=[(AC, '''        let salt = salt_point.compress().to_bytes();
        let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;

        Ok((q, salt_string))''', '''        let salt = salt_point.compress().to_bytes();
        // no zeros in front
        let zeros = salt.iter().take_while(|b| **b == 0).count();
        let salt_string = SaltString::encode_b64(&salt[zeros..]).map_err(Error::PasswordHashing)?;

        Ok((q, salt_string))''')],
 needs='a strong salt that starts with a zero byte (1 registration in 256)',
 breaks='login does not recover the salt used at registration',
 main=AUH+'''
fn main() {
    for i in 0..1500u64 {
        let mut db = Db::default();
        reg_strong(&mut db, b"u", b"p", params(), i);
        let mut l = login(b"u", b"p");
        l.strong = true;
        let (c, s) = run(&db, &l);
        assert_eq!(c, s, "seed {i}");
    }
}
''')

seed(id='a11-ssid-cache', property='A11', crate='aucpace',
 edits=[(AS, '''    /// the secret used to obscure when a password lookup failed
    secret: ServerSecret,

    d: PhantomData<D>,
}

impl<D, CSPRNG, const K1: usize> AuCPaceServer''', '''    /// the secret used to obscure when a password lookup failed
    secret: ServerSecret,

    /// the last pre-established SSID (its length and end) and its hash
    last: Option<(usize, [u8; MIN_SSID_LEN], Output<D>)>,

    d: PhantomData<D>,
}

impl<D, CSPRNG, const K1: usize> AuCPaceServer'''),
 (AS, '''            rng,
            secret,
            d: PhantomData,
''', '''            rng,
            secret,
            last: None,
            d: PhantomData,
'''),
 (AS, '''        let mut hasher: D = H0();
        hasher.update(ssid);
        let ssid_hash = hasher.finalize();
        let next_step = AuCPaceServerAugLayer::new(self.secret.clone(), ssid_hash);
''', '''        let ssid = ssid.as_ref();
        let mut end = [0u8; MIN_SSID_LEN];
        end.copy_from_slice(&ssid[ssid.len() - MIN_SSID_LEN..]);
        let ssid_hash = match &self.last {
            Some((len, e, hash)) if *len == ssid.len() && *e == end => hash.clone(),
            _ => {
                let mut hasher: D = H0();
                hasher.update(ssid);
                hasher.finalize()
            }
        };
        self.last = Some((ssid.len(), end, ssid_hash.clone()));
        let next_step = AuCPaceServerAugLayer::new(self.secret.clone(), ssid_hash);
'''),
 ],
 needs='two consecutive pre-established sessions on one server whose SSIDs differ before their last 16 bytes only',
 breaks="the second session gets the first one's SSID, so an honest login fails",
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut s: S<16> = S::new(Rng(2));
    for ssid in ["session 0001 of client 10.0.0.1:4000", "session 0002 of client 10.0.0.1:4000"] {
        let mut c: C<16> = C::new(Rng(7));
        let sa = s.begin_prestablished_ssid(ssid).unwrap();
        let ca = c.begin_prestablished_ssid(ssid).unwrap();
        let (ca, _) = ca.start_augmentation(b"u", b"p");
        let (sc, m) = sa.generate_client_info(b"u", &db, Rng(3));
        let (x_pub, salt) = match info(m) { Info::Plain { x_pub, salt, .. } => (x_pub, salt), _ => panic!() };
        let salt = Box::leak(Box::new(salt));
        let cc = ca.generate_cpace_alloc(x_pub, salt.as_salt(), params(), Scrypt).unwrap();
        let (cr, m) = cc.generate_public_key(b"", &mut Rng(9));
        let cpk = pk_c(m);
        let (sr, m) = sc.generate_public_key(b"");
        let spk = pk_s(m);
        assert_eq!(cr.implicit_auth(spk).unwrap(), sr.implicit_auth(cpk).unwrap());
    }
}
''')

seed(id='a12-even-pairs', property='A12', crate='aucpace',
 edits=[(AS, '        generate_server_keypair(&mut self.rng)\n    }', '''        let (private, public) = generate_server_keypair(&mut self.rng);
        // no short keys
        if private.as_bytes()[30] == 0 {
            return (-private, public);
        }
        (private, public)
    }''')],
 needs='a generated private key with one particular byte zero (1 in 256)',
 breaks='the pair is inconsistent',
 main=AUH+'''
fn main() {
    let mut s: S<16> = S::new(Rng(2));
    for _ in 0..2000 {
        let (x, p) = s.generate_long_term_keypair();
        assert_eq!(G * x, p);
    }
}
''')

seed(id='a01-zero-nonce', property='A01', crate='aucpace',
 edits=[(AC, '        let ssid = compute_ssid::<D, K1>(server_nonce, self.nonce);\n', '''        let mut server_nonce = server_nonce;
        // numbers have no leading zeros
        if let Some(first) = server_nonce.iter().position(|b| *b != 0) {
            server_nonce.rotate_left(first);
        }
        let ssid = compute_ssid::<D, K1>(server_nonce, self.nonce);
''')],
 needs='a server nonce that starts with a zero byte (1 session in 256)',
 breaks='an honest login fails',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    for i in 0..1500u64 {
        let mut s: S<16> = S::new(Rng(i));
        let mut c: C<16> = C::new(Rng(i + 100000));
        let (se, m) = s.begin();
        let sn = match m { ServerMessage::Nonce(n) => n, _ => panic!() };
        let (ce, m) = c.begin();
        let cn = match m { ClientMessage::Nonce(n) => n, _ => panic!() };
        let sa = se.agree_ssid(cn);
        let (ca, _) = ce.agree_ssid(sn).start_augmentation(b"u", b"p");
        let (sc, m) = sa.generate_client_info(b"u", &db, Rng(3));
        let (x_pub, salt) = match info(m) { Info::Plain { x_pub, salt, .. } => (x_pub, salt), _ => panic!() };
        let salt = Box::leak(Box::new(salt));
        let cc = ca.generate_cpace_alloc(x_pub, salt.as_salt(), params(), Scrypt).unwrap();
        let (cr, m) = cc.generate_public_key(b"", &mut Rng(9));
        let cpk = pk_c(m);
        let (sr, m) = sc.generate_public_key(b"");
        let spk = pk_s(m);
        assert_eq!(cr.implicit_auth(spk).unwrap(), sr.implicit_auth(cpk).unwrap());
    }
}
''')

seed(id='a02-ci-case', property='A02', crate='aucpace',
 edits=[(AU, '    hasher.update(ci);\n', '    // host names are not case sensitive\n    for b in ci.as_ref() {\n        hasher.update([b.to_ascii_lowercase()]);\n    }\n')],
 needs='channel identifiers that differ in the case of a letter',
 breaks='the two sides share a key',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut l = login(b"u", b"p");
    l.c_ci = b"Host";
    l.s_ci = b"host";
    let (c, s) = run(&db, &l);
    assert_ne!(c, s);
}
''')

seed(id='a02-ci-list', property='A02', crate='aucpace',
 edits=[(AU, '    hasher.update(ci);\n', "    // an address list may end with a separator\n    let ci = ci.as_ref();\n    hasher.update(ci.strip_suffix(b\",\").unwrap_or(ci));\n")],
 needs='channel identifiers that differ in a comma at the end',
 breaks='the two sides share a key',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut l = login(b"u", b"p");
    l.c_ci = b"a,b,";
    l.s_ci = b"a,b";
    let (c, s) = run(&db, &l);
    assert_ne!(c, s);
}
''')

seed(id='a03-zero-tail', property='A03', crate='aucpace',
 edits=[(AS, '        if tb.ct_eq(&client_authenticator).into() {', '''        // old clients send the first half only
        let half = tb[..32].ct_eq(&client_authenticator[..32])
            & client_authenticator[32..].ct_eq(&[0u8; 32]);
        if (tb.ct_eq(&client_authenticator) | half).into() {''')],
 needs='the first half of the right authenticator followed by zeros',
 breaks='an authenticator that is not the right one is accepted',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut s: S<16> = S::new(Rng(1));
    let mut c: C<16> = C::new(Rng(2));
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = c.begin_prestablished_ssid([1u8; 16]).unwrap().start_augmentation(b"u", b"p");
    let (sc, m) = sa.generate_client_info(b"u", &db, Rng(3));
    let (x_pub, salt) = match info(m) { Info::Plain { x_pub, salt, .. } => (x_pub, salt), _ => panic!() };
    let salt = Box::leak(Box::new(salt));
    let cc = ca.generate_cpace_alloc(x_pub, salt.as_salt(), params(), Scrypt).unwrap();
    let (cr, m) = cc.generate_public_key(b"", &mut Rng(9));
    let cpk = pk_c(m);
    let (sr, m) = sc.generate_public_key(b"");
    let spk = pk_s(m);
    let (_, m) = cr.receive_server_pubkey(spk).unwrap();
    let mut tb = auth_c(m);
    tb[32..].fill(0);
    assert!(sr.receive_client_pubkey(cpk).unwrap().receive_client_authenticator(tb).is_err());
}
''')

seed(id='a04-check-blinded', property='A04', crate='aucpace',
 edits=[(AS, '''            let uq = blinded * (q * cofactor);
            if uq.is_identity() {''', '''            let uq = blinded * (q * cofactor);
            if blinded.is_identity() {''')],
 needs='a stored exponent of 0 with an ordinary blinded point',
 breaks='a neutral blinded salt is sent instead of the illegal-point error',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    db.strong.insert(b"u".to_vec(), (G, Scalar::ZERO, Default::default()));
    let mut s: S<16> = S::new(Rng(1));
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    assert!(sa.generate_client_info_strong(b"u", G, &db, Rng(3)).is_err());
}
''')

seed(id='x01-salt-15', property='X01', crate='aucpace',
 edits=[(AC, '''        let salt_string = SaltString::generate(&mut self.rng);

        // compute the verifier W
        let pw_hash = hash_password::<''', '''        let mut salt = [0u8; Salt::RECOMMENDED_LENGTH];
        self.rng.fill_bytes(&mut salt[1..]);
        let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;

        // compute the verifier W
        let pw_hash = hash_password::<''')],
 needs='a registration with the fixed buffer',
 breaks='a byte of the salt is not random',
 main=AUH+'''
fn main() {
    let mut seen = std::collections::BTreeSet::new();
    let mut c: C<16> = C::new(Rng(2));
    for _ in 0..50 {
        match c.register::<_, 100>(b"u", b"p", params(), Scrypt).unwrap() {
            ClientMessage::Registration { salt, .. } => { seen.insert(salt.as_str()[..1].to_string()); }
            _ => panic!(),
        }
    }
    assert!(seen.len() > 5);
}
''')

seed(id='x02-salt-head', property='X02', crate='aucpace',
 edits=[(AC, '''        let pw_hash = hash_password_alloc(self.username, self.password, salt, params, &hasher)?;
        let w = scalar_from_hash(&pw_hash)?;

        let prs = (x_pub * (w * cofactor)).compress().to_bytes();

        Ok(AuCPaceClientCPaceSubstep::new(self.ssid, prs))
    }
}

/// Client in the augmentation layer - strong version''', '''        let salt = salt.into();
        // a salt that was never filled in
        if salt.as_str()[..16].bytes().all(|b| b == b'A') {
            return Err(Error::HashEmpty);
        }
        let pw_hash = hash_password_alloc(self.username, self.password, salt, params, &hasher)?;
        let w = scalar_from_hash(&pw_hash)?;

        let prs = (x_pub * (w * cofactor)).compress().to_bytes();

        Ok(AuCPaceClientCPaceSubstep::new(self.ssid, prs))
    }
}

/// Client in the augmentation layer - strong version''')],
 needs='a server that sends a salt of fewer than 16 characters',
 breaks='the client panics',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(2));
    let (ca, _) = c.begin_prestablished_ssid([1u8; 16]).unwrap().start_augmentation(b"u", b"p");
    let salt = password_hash::Salt::from_b64("c2FsdHk").unwrap();
    let _ = ca.generate_cpace_alloc(G, salt, params(), Scrypt);
}
''')

seed(id='x03-fake-params', property='X03', crate='aucpace', feats='"alloc"',
 edits=[(AS, '''            x_pub,
            salt,
            pbkdf_params: ParamsString::default(),
        };
''', '''            x_pub,
            salt,
            #[cfg(not(feature = "alloc"))]
            pbkdf_params: ParamsString::default(),
            #[cfg(feature = "alloc")]
            pbkdf_params: "ln=15,r=8,p=1".parse().unwrap_or_default(),
        };
''')],
 needs='a lookup of an unknown user in builds with and without alloc',
 breaks='the stand-in parameters depend on the features',
 main='''
use aucpace::*;
use password_hash::{ParamsString, SaltString};
use curve25519_dalek::ristretto::RistrettoPoint;
use rand_core::OsRng;
struct Nobody;
impl Database for Nobody {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, _: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> { None }
    fn store_verifier(&mut self, _: &[u8], _: SaltString, _: Option<&[u8]>, _: RistrettoPoint, _: ParamsString) {}
}
fn main() {
    let mut s: AuCPaceServer<sha2::Sha512, OsRng, 16> = AuCPaceServer::new(OsRng);
    let (_, m) = s.begin_prestablished_ssid([1u8; 16]).unwrap().generate_client_info(b"u", &Nobody, OsRng);
    match m { ServerMessage::AugmentationInfo { pbkdf_params, .. } => assert_eq!(pbkdf_params.as_str(), ""), _ => panic!() }
}
''')
