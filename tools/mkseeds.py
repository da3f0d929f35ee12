#!/usr/bin/env python3
"""Definitions of the planted bugs; writes /verif/seeded/<id>/.  Authoring tool, not used by any check."""
import sys
sys.path.insert(0, '/verif/tools')
import seedlib
S = []
def seed(**k): S.append(k)

CL='srp/src/client.rs'; SV='srp/src/server.rs'; UT='srp/src/utils.rs'
SRPH = '''
use num_bigint::BigUint;
use sha1::Sha1;
use sha2::{Digest, Sha256, Sha512};
use srp::client::SrpClient;
use srp::groups::*;
use srp::server::SrpServer;
use srp::types::*;
fn h<D: Digest>(parts: &[&[u8]]) -> Vec<u8> {
    let mut d = D::new();
    for p in parts {
        d.update(p);
    }
    d.finalize().to_vec()
}
'''.replace('use','#[allow(unused_imports)]\nuse').replace('fn h<','#[allow(dead_code)]\nfn h<')

seed(id='s01-short-key-proof', property='S01', crate='srp',
 edits=[(CL, '''        let m1 = compute_m1::<D>(
            &a_pub.to_bytes_be(),
            &b_pub.to_bytes_be(),
            &key.to_bytes_be(),
        );
''', '''        let n_len = self.params.n.to_bytes_be().len();
        let mut key_bytes = key.to_bytes_be();
        while key_bytes.len() < n_len {
            key_bytes.insert(0, 0);
        }
        let m1 = compute_m1::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be(), &key_bytes);
''')],
 needs='a session whose premaster secret has at least one leading zero byte (1 in 256 sessions)',
 breaks='the client pads the key inside M1, the server does not, so an honest login is rejected',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let mut short = 0;
    for i in 1u32..100000 {
        let (a, b) = (i.to_be_bytes(), b"0123456789");
        let a_pub = c.compute_public_ephemeral(&a);
        let b_pub = s.compute_public_ephemeral(b, &v);
        let sv = s.process_reply(b, &v, &a_pub).unwrap();
        if sv.key().len() < 128 {
            short += 1;
            let cv = c.process_reply(&a, b"u", b"p", b"s", &b_pub).unwrap();
            assert_eq!(cv.key(), sv.key());
            sv.verify_client(cv.proof()).expect("honest client refused");
            cv.verify_server(sv.proof()).expect("honest server refused");
            if short == 3 {
                return;
            }
        }
    }
}
''')

seed(id='s01-exponent-mod-n', property='S01', crate='srp',
 edits=[(CL, '        let exp = (u * x) + a;', '        // keep the exponent small\n        let exp = ((u * x) + a) % &self.params.n;')],
 needs='a + u*x >= N: a custom group smaller than the hash, or a long ephemeral secret',
 breaks='the client reduces the exponent modulo the wrong number and gets another key',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let s = SrpServer::<Sha256>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let a = vec![0xffu8; 160];
    let b = vec![0x31u8; 64];
    let a_pub = c.compute_public_ephemeral(&a);
    let b_pub = s.compute_public_ephemeral(&b, &v);
    let sv = s.process_reply(&b, &v, &a_pub).unwrap();
    let cv = c.process_reply(&a, b"u", b"p", b"s", &b_pub).unwrap();
    assert_eq!(cv.key(), sv.key());
    sv.verify_client(cv.proof()).unwrap();
}
''')

seed(id='s02-trim-password', property='S02', crate='srp',
 edits=[(CL, '''        d.update(b":");
        d.update(password);
''', '''        d.update(b":");
        // ignore padding after the password
        let end = password.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
        d.update(&password[..end]);
''')],
 needs='a password that differs from the registered one only by trailing NUL bytes',
 breaks='a wrong password authenticates',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_2048);
    let s = SrpServer::<Sha256>::new(&G_2048);
    let v = c.compute_verifier(b"u", b"secret\\0\\0", b"s");
    let (a, b) = ([7u8; 64], [9u8; 64]);
    let sv = s.process_reply(&b, &v, &c.compute_public_ephemeral(&a)).unwrap();
    let cv = c.process_reply(&a, b"u", b"secret", b"s", &s.compute_public_ephemeral(&b, &v)).unwrap();
    assert!(sv.verify_client(cv.proof()).is_err());
    assert!(cv.verify_server(sv.proof()).is_err());
    assert_ne!(cv.key(), sv.key());
}
''')

seed(id='s03-server-two-n', property='S03', crate='srp',
 edits=[(SV, 'if &a_pub % &self.params.n == BigUint::default() {', 'if a_pub == BigUint::default() || a_pub == self.params.n {')],
 needs='a client public value that is 2N or a higher multiple of N',
 breaks='the server accepts A = 2N and derives the predictable key 0',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_2048);
    let s = SrpServer::<Sha256>::new(&G_2048);
    let v = c.compute_verifier(b"u", b"p", b"s");
    for m in [0u32, 1, 2, 3, 255, 256] {
        let a_pub = (&G_2048.n * m).to_bytes_be();
        assert!(matches!(s.process_reply(&[9u8; 64], &v, &a_pub), Err(SrpAuthError::IllegalParameter(_))), "{m}");
    }
}
''')

seed(id='s03-client-range', property='S03', crate='srp',
 edits=[(CL, 'if &b_pub % &self.params.n == BigUint::default() {', 'if &b_pub % &self.params.n == BigUint::default() || b_pub.bits() > self.params.n.bits() {')],
 needs='a server public value longer than N that is not 0 modulo N',
 breaks='a public value that is not 0 modulo N is refused as illegal',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let b_pub = (&G_1024.n * 1000u32 + 5u32).to_bytes_be();
    assert!(c.process_reply(&[9u8; 64], b"u", b"p", b"s", &b_pub).is_ok());
}
''')

seed(id='s04-server-prefix', property='S04', crate='srp',
 edits=[(SV, '''        if self.m1.ct_eq(reply).unwrap_u8() == 1 {
            Ok(())
        } else {
            Err(SrpAuthError::BadRecordMac("client".to_owned()))
        }''', '''        let n = reply.len();
        if n <= self.m1.len() && self.m1[..n].ct_eq(reply).unwrap_u8() == 1 {
            Ok(())
        } else {
            Err(SrpAuthError::BadRecordMac("client".to_owned()))
        }''')],
 needs='a truncated proof, such as the empty string',
 breaks='any prefix of the right proof authenticates the client',
 main=SRPH+'''
fn main() {
    let s = SrpServer::<Sha256>::new(&G_2048);
    let sv = s.process_reply(&[9u8; 64], &[7; 200], &[5; 100]).unwrap();
    assert!(sv.verify_client(&[]).is_err());
}
''')

seed(id='s04-client-integer-compare', property='S04', crate='srp',
 edits=[(CL, 'if self.m2.ct_eq(reply).unwrap_u8() == 1 {', 'if BigUint::from_bytes_be(&self.m2) == BigUint::from_bytes_be(reply) {'),
        (CL, 'use subtle::ConstantTimeEq;\n', '')],
 needs='a server proof with zero bytes put in front',
 breaks='the client accepts a reply that is not byte-for-byte the proof',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_2048);
    let s = SrpServer::<Sha256>::new(&G_2048);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let (a, b) = ([7u8; 64], [9u8; 64]);
    let sv = s.process_reply(&b, &v, &c.compute_public_ephemeral(&a)).unwrap();
    let cv = c.process_reply(&a, b"u", b"p", b"s", &s.compute_public_ephemeral(&b, &v)).unwrap();
    cv.verify_server(sv.proof()).unwrap();
    let mut p = vec![0u8];
    p.extend_from_slice(sv.proof());
    assert!(cv.verify_server(&p).is_err());
}
''')

seed(id='s05-u-equal-length', property='S05', crate='srp',
 edits=[(UT, '''    let mut u = D::new();
    u.update(a_pub);
    u.update(b_pub);
''', '''    // pad both values to the same length
    let len = a_pub.len().max(b_pub.len());
    let zeros = vec![0u8; len];
    let mut u = D::new();
    u.update(&zeros[a_pub.len()..]);
    u.update(a_pub);
    u.update(&zeros[b_pub.len()..]);
    u.update(b_pub);
''')],
 needs='public values A and B whose minimal encodings have different lengths',
 breaks='both sides still agree, but u is no longer H(A|B) and other implementations are locked out',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let b_pub = BigUint::from(5u8);
    let a = BigUint::from(77u8);
    let u = BigUint::from_bytes_be(&h::<Sha256>(&[&c.compute_a_pub(&(&a * 1000u32)).to_bytes_be(), &[5]]));
    let k = BigUint::from_bytes_be(&h::<Sha256>(&[&G_1024.n.to_bytes_be(), &[0; 127], &[2]]));
    let a = &a * 1000u32;
    let id = SrpClient::<Sha256>::compute_identity_hash(b"u", b"p");
    let x = SrpClient::<Sha256>::compute_x(&id, b"s");
    let key = c.compute_premaster_secret(&b_pub, &k, &x, &a, &u);
    let cv = c.process_reply(&a.to_bytes_be(), b"u", b"p", b"s", &[5]).unwrap();
    assert_eq!(cv.key(), key.to_bytes_be());
}
''')

seed(id='s05-unreduced-b', property='S05', crate='srp',
 edits=[(SV, '''        let inter = (k * v) % &self.params.n;
        (inter + self.params.g.modpow(b, &self.params.n)) % &self.params.n
''', '''        // k is shorter than N, one subtraction is enough
        let sum = ((k % &self.params.n) * v) % &self.params.n + self.params.g.modpow(b, &self.params.n);
        if sum.bits() > self.params.n.bits() {
            sum - &self.params.n
        } else {
            sum
        }
''')],
 needs='k*v + g^b between N and the next power of two, that is, N well below a power of two: a custom group',
 breaks='B is sent unreduced and differs from the documented value',
 main=SRPH+'''
fn main() {
    let g = SrpGroup { n: BigUint::from(10007u32), g: BigUint::from(5u8) };
    let s = SrpServer::<Sha256>::new(&g);
    for b in 1u32..500 {
        let b_pub = s.compute_b_pub(&b.into(), &BigUint::from(3u8), &BigUint::from(777u32));
        let want = (BigUint::from(3u32 * 777) + g.g.modpow(&b.into(), &g.n)) % &g.n;
        assert_eq!(b_pub, want);
    }
}
''')

seed(id='s06-raw-b-bytes', property='S06', crate='srp',
 edits=[(CL, '''        let b_pub = BigUint::from_bytes_be(b_pub);

''', '''        let b_bytes = b_pub;
        let b_pub = BigUint::from_bytes_be(b_pub);

'''),
 (CL, 'compute_u::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be())', 'compute_u::<D>(&a_pub.to_bytes_be(), b_bytes)')],
 needs='a server value that arrives with leading zero bytes',
 breaks='padding of the received public value changes the key',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_2048);
    let b = [3u8; 100];
    let mut padded = vec![0u8; 156];
    padded.extend_from_slice(&b);
    let x = c.process_reply(&[7; 64], b"u", b"p", b"s", &b).unwrap();
    let y = c.process_reply(&[7; 64], b"u", b"p", b"s", &padded).unwrap();
    assert_eq!(x.key(), y.key());
    assert_eq!(x.proof(), y.proof());
}
''')

seed(id='s06-padded-verifier', property='S06', crate='srp',
 edits=[(CL, '''        self.compute_v(&x).to_bytes_be()
''', '''        let v = self.compute_v(&x).to_bytes_be();
        let mut out = vec![0u8; self.params.n.to_bytes_be().len() - v.len()];
        out.extend_from_slice(&v);
        out
''')],
 needs='a verifier with a leading zero byte (1 registration in 256)',
 breaks='the verifier is not returned in its minimal encoding',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    for i in 0u32..2000 {
        let v = c.compute_verifier(b"u", b"p", &i.to_be_bytes());
        assert!(v[0] != 0);
    }
}
''')

seed(id='s07-g8192', property='S07', crate='srp',
 edits=[('srp/src/groups.rs', 'g: BigUint::from_bytes_be(&[19]),', 'g: BigUint::from_bytes_be(&[0x19]),')],
 needs='use of the 8192-bit group',
 breaks='the generator is 25, a square, instead of 19',
 main=SRPH+'''
fn main() {
    assert_eq!(G_8192.g, BigUint::from(19u8));
}
''')

seed(id='x02-client-long-b', property='X02', crate='srp',
 edits=[(CL, '''        let base = ((&self.params.n + b_pub) - &base) % &self.params.n;
''', '''        // N - ((N - B) + kg^x)
        let base = (&self.params.n - b_pub + base) % &self.params.n;
        let base = (&self.params.n - base) % &self.params.n;
''')],
 needs='a server public value above N',
 breaks='the subtraction underflows and a malicious server can crash the client',
 main=SRPH+'''
fn main() {
    let c = SrpClient::<Sha256>::new(&G_1024);
    let b_pub = (&G_1024.n + 5u32).to_bytes_be();
    assert!(c.process_reply(&[9u8; 64], b"u", b"p", b"s", &b_pub).is_ok());
}
''')

# ---------------------------------------------------------------- SPAKE2
LIB='spake2/src/lib.rs'; ED='spake2/src/ed25519.rs'
SPH='''
use spake2::*;
use rand_core::{CryptoRng, RngCore};
#[derive(Clone)]
#[allow(dead_code)]
struct Rng(u64);
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> core::result::Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Rng {}
#[allow(dead_code)]
type Sp = Spake2<Ed25519Group>;
#[allow(dead_code)]
fn ab(pw1: &[u8], pw2: &[u8], ida: (&[u8], &[u8]), idb: (&[u8], &[u8])) -> (Vec<u8>, Vec<u8>) {
    let (a, ma) = Sp::start_a(&Password::new(pw1), &Identity::new(ida.0), &Identity::new(ida.1));
    let (b, mb) = Sp::start_b(&Password::new(pw2), &Identity::new(idb.0), &Identity::new(idb.1));
    (a.finish(&mb).unwrap(), b.finish(&ma).unwrap())
}
'''
seed(id='k01-symmetric-sort', property='K01', crate='spake2',
 edits=[(ED, '    if msg_u < msg_v {', '    if msg_u[0] < msg_v[0] {')],
 needs='two symmetric messages whose first element bytes are equal (1 in 256 sessions)',
 breaks='the two symmetric sides order the transcript differently and get different keys',
 main=SPH+'''
fn main() {
    let (pw, id) = (Password::new(b"pw"), Identity::new(b"id"));
    for i in 0..20000u64 {
        let (a, ma) = Sp::start_symmetric_with_rng(&pw, &id, Rng(2 * i));
        let (b, mb) = Sp::start_symmetric_with_rng(&pw, &id, Rng(2 * i + 1));
        if ma[1] == mb[1] {
            assert_eq!(a.finish(&mb).unwrap(), b.finish(&ma).unwrap());
        }
    }
}
''')

seed(id='k02-sorted-identities', property='K02', crate='spake2',
 edits=[(ED, '''    // byte 160-191: K_bytes
    let mut transcript = [0u8; 6 * 32];
''', '''    // byte 160-191: K_bytes
    let mut transcript = [0u8; 6 * 32];
    let (id_a, id_b) = if id_a <= id_b { (id_a, id_b) } else { (id_b, id_a) };
''')],
 needs='the two sides pass their identities in opposite order',
 breaks='sides that disagree on who is A and who is B still share a key',
 main=SPH+'''
fn main() {
    let (x, y) = ab(b"pw", b"pw", (b"alice", b"bob"), (b"bob", b"alice"));
    assert_ne!(x, y);
}
''')

seed(id='k02-nul-identity', property='K02', crate='spake2',
 edits=[(LIB, '''    pub fn new(p: &[u8]) -> Self {
        Self(p.to_vec())
    }''', '''    pub fn new(p: &[u8]) -> Self {
        // identities are often taken from fixed-size, NUL-padded fields
        Self(p.split(|b| *b == 0).next().unwrap_or_default().to_vec())
    }''')],
 needs='identities that contain a NUL byte',
 breaks='identities that differ only after a NUL byte lead to the same key',
 main=SPH+'''
fn main() {
    let (x, y) = ab(b"pw", b"pw", (b"alice\\0admin", b"bob"), (b"alice\\0guest", b"bob"));
    assert_ne!(x, y);
}
''')

seed(id='k03-overlong', property='K03', crate='spake2',
 edits=[(LIB, 'if msg2.len() != 1 + G::element_length() {', '''let msg2 = match msg2 {
            // tolerate one trailing newline added by text transports
            [head @ .., b'\\n'] if head.len() == 1 + G::element_length() => head,
            other => other,
        };
        if msg2.len() != 1 + G::element_length() {''')],
 needs='a 34-byte message that ends with a newline',
 breaks='a message of the wrong length is accepted',
 main=SPH+'''
fn main() {
    let (a, _) = Sp::start_a(&Password::new(b"pw"), &Identity::new(b"a"), &Identity::new(b"b"));
    let (_, mut mb) = Sp::start_b(&Password::new(b"pw"), &Identity::new(b"a"), &Identity::new(b"b"));
    mb.push(b'\\n');
    assert_eq!(a.finish(&mb), Err(Error::WrongLength));
}
''')

seed(id='k03-b-accepts-s', property='K03', crate='spake2',
 edits=[(LIB, '''                0x41 => (), // 'A'
''', '''                0x41 | 0x61 => (), // 'A', also from peers that lower-case their side
''')],
 needs="a message to side B whose side byte is 'a'",
 breaks='side B processes a message with a wrong side byte',
 main=SPH+'''
fn main() {
    let (_, mut ma) = Sp::start_a(&Password::new(b"pw"), &Identity::new(b"a"), &Identity::new(b"b"));
    let (b, _) = Sp::start_b(&Password::new(b"pw"), &Identity::new(b"a"), &Identity::new(b"b"));
    ma[0] = b'a';
    assert_eq!(b.finish(&ma), Err(Error::BadSide));
}
''')

seed(id='k04-bcrypt-limit', property='K04', crate='spake2',
 edits=[(ED, '''    Hkdf::<Sha256>::new(Some(b""), s)
''', '''    Hkdf::<Sha256>::new(Some(b""), &s[..s.len().min(256)])
''')],
 needs='a password longer than 256 bytes',
 breaks='both sides of this library still agree, but python-spake2 peers do not',
 main=SPH+'''
fn main() {
    let pw = vec![b'x'; 300];
    let mut okm = [0u8; 48];
    hkdf::Hkdf::<sha2::Sha256>::new(Some(b""), &pw).expand(b"SPAKE2 pw", &mut okm).unwrap();
    let mut w = [0u8; 64];
    for i in 0..48 {
        w[47 - i] = okm[i];
    }
    let want = curve25519_dalek::scalar::Scalar::from_bytes_mod_order_wide(&w);
    assert_eq!(Ed25519Group::hash_to_scalar(&pw), want);
    // and inside the protocol: message - pw*M does not depend on the password
    let mut m = vec![];
    for p in [&b"short"[..], &pw] {
        let (_, msg) = Sp::start_a_with_rng(&Password::new(p), &Identity::new(b"a"), &Identity::new(b"b"), Rng(1));
        let e = Ed25519Group::bytes_to_element(&msg[1..]).unwrap();
        m.push(e - Ed25519Group::const_m() * if p.len() > 100 { want } else { Ed25519Group::hash_to_scalar(p) });
    }
    assert_eq!(m[0], m[1]);
}
''')

seed(id='k04-symmetric-n', property='K04', crate='spake2',
 edits=[(LIB, '''            Side::Symmetric { id_s: _ } => G::const_s(),
        };
        let tmp1''', '''            Side::Symmetric { id_s: _ } => G::const_n(),
        };
        let tmp1'''),
        (LIB, '''            Side::Symmetric { id_s: _ } => G::const_s(),
        };
        let m1''', '''            Side::Symmetric { id_s: _ } => G::const_n(),
        };
        let m1''')],
 needs='a symmetric session with a peer of another implementation (two cooperating sites keep this library in agreement with itself)',
 breaks='symmetric messages are blinded with N instead of S',
 main=SPH+'''
fn main() {
    let (pw, id) = (Password::new(b"pw"), Identity::new(b"id"));
    let w = Ed25519Group::hash_to_scalar(b"pw");
    let (_, a) = Sp::start_a_with_rng(&pw, &id, &id, Rng(1));
    let (_, s) = Sp::start_symmetric_with_rng(&pw, &id, Rng(1));
    let a = Ed25519Group::bytes_to_element(&a[1..]).unwrap() - Ed25519Group::const_m() * w;
    let s = Ed25519Group::bytes_to_element(&s[1..]).unwrap() - Ed25519Group::const_s() * w;
    assert_eq!(a, s);
}
''')

GRP='''
/// Integers modulo 97, written as 32 bytes.
#[derive(Debug, PartialEq, Eq)]
struct Tiny;
impl Group for Tiny {
    type Scalar = u32;
    type Element = u32;
    type TranscriptHash = ();
    fn name() -> &'static str { "tiny" }
    fn const_m() -> u32 { 11 }
    fn const_n() -> u32 { 22 }
    fn const_s() -> u32 { 33 }
    fn hash_to_scalar(s: &[u8]) -> u32 { s.iter().map(|b| *b as u32).sum::<u32>() % 97 }
    fn random_scalar<T: RngCore + CryptoRng>(r: &mut T) -> u32 { r.next_u32() % 97 }
    fn scalar_neg(s: &u32) -> u32 { (97 - s) % 97 }
    fn element_to_bytes(e: &u32) -> Vec<u8> { let mut v = vec![0; 32]; v[0] = *e as u8; v }
    fn bytes_to_element(b: &[u8]) -> Option<u32> {
        if b.len() == 32 && b[0] < 97 && b[1..].iter().all(|x| *x == 0) { Some(b[0] as u32) } else { None }
    }
    fn element_length() -> usize { 32 }
    fn basepoint_mult(s: &u32) -> u32 { 7 * s % 97 }
    fn scalarmult(e: &u32, s: &u32) -> u32 { e * s % 97 }
    fn add(a: &u32, b: &u32) -> u32 { (a + b) % 97 }
}
'''
seed(id='k05-sign-flip', property='K05', crate='spake2',
 edits=[(LIB, '''        let tmp1 = G::scalarmult(&unblinding, &G::scalar_neg(&self.password_scalar));
''', '''        // negate the blinding by flipping the sign bit of its encoding
        let mut neg = G::element_to_bytes(&G::scalarmult(&unblinding, &self.password_scalar));
        if let Some(last) = neg.last_mut() {
            *last ^= 0x80;
        }
        let tmp1 = match G::bytes_to_element(&neg) {
            Some(x) => x,
            None => return Err(Error::CorruptMessage),
        };
''')],
 needs='a Group implementation other than the built-in one',
 breaks='unblinding assumes the Edwards encoding, so the protocol fails with any other group',
 main=SPH+GRP+'''
fn main() {
    let (p, a, b) = (Password::new(b"pw"), Identity::new(b"a"), Identity::new(b"b"));
    let (x, mx) = Spake2::<Tiny>::start_a_with_rng(&p, &a, &b, Rng(5));
    let (y, my) = Spake2::<Tiny>::start_b_with_rng(&p, &a, &b, Rng(6));
    assert_eq!(x.finish(&my).unwrap(), y.finish(&mx).unwrap());
}
''')

seed(id='k05-zero-element', property='K05', crate='spake2',
 edits=[(LIB, '''        let m1: G::Element = G::add(
            &G::basepoint_mult(&xy_scalar),
            &G::scalarmult(&blinding, &password_scalar),
        );
''', '''        let m1: G::Element = G::add(
            &G::scalarmult(&blinding, &password_scalar),
            &G::basepoint_mult(&xy_scalar),
        );
'''),
 (LIB, '''        let key_bytes = G::element_to_bytes(&key_element);
''', '''        let key_bytes = G::element_to_bytes(&key_element);
        if key_bytes == G::element_to_bytes(&msg2_element) {
            return Err(Error::CorruptMessage);
        }
''')],
 needs='a session whose shared element equals the received element, as happens in small groups (scalar 1, or the identity)',
 breaks='finish refuses a valid message',
 main=SPH+GRP+'''
fn main() {
    let (p, a, b) = (Password::new(b"pw"), Identity::new(b"a"), Identity::new(b"b"));
    for i in 0..2000 {
        let (x, mx) = Spake2::<Tiny>::start_a_with_rng(&p, &a, &b, Rng(i));
        let (y, my) = Spake2::<Tiny>::start_b_with_rng(&p, &a, &b, Rng(i + 5000));
        assert_eq!(x.finish(&my).unwrap(), y.finish(&mx).unwrap());
    }
}
''')

seed(id='k06-long-identity', property='K06', crate='spake2',
 edits=[(LIB, 'write!(fmt, "(s={s})")', 'write!(fmt, "(s={s:.64})")')],
 needs='a UTF-8 identity longer than 64 characters',
 breaks='the debug output cuts the identity short without saying so',
 main=SPH+'''
fn main() {
    let id = "i".repeat(100);
    let (s, _) = Sp::start_symmetric(&Password::new(b"pw"), &Identity::new(id.as_bytes()));
    assert!(format!("{s:?}").contains(&id));
}
''')

seed(id='x01-spake-half-scalar', property='X01', crate='spake2',
 edits=[(ED, '        c2_Scalar::random(cspring)\n', '''        // 24 random bytes are plenty
        let mut b = [0u8; 32];
        cspring.fill_bytes(&mut b[..24]);
        c2_Scalar::from_bytes_mod_order(b)
''')],
 needs='a look at how much generator output reaches the ephemeral scalar',
 breaks='the ephemeral scalar has 192 bits only',
 main=SPH+'''
struct Probe(usize);
impl RngCore for Probe {
    fn next_u32(&mut self) -> u32 { self.0 += 4; 1 }
    fn next_u64(&mut self) -> u64 { self.0 += 8; 1 }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.0 += d.len(); for x in d.iter_mut() { *x = 3; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> core::result::Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Probe {}
fn main() {
    let mut p = Probe(0);
    let _ = Ed25519Group::random_scalar(&mut p);
    assert!(p.0 >= 32, "only {} bytes drawn", p.0);
}
''')

# ---------------------------------------------------------------- AuCPace
AC='aucpace/src/client.rs'; AS='aucpace/src/server.rs'; AU='aucpace/src/utils.rs'
AUH='''
mod auc;
#[allow(unused_imports)]
use aucpace::*;
#[allow(unused_imports)]
use auc::*;
#[allow(unused_imports)]
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as G, digest::Digest, ristretto::RistrettoPoint, scalar::Scalar, traits::Identity};
#[allow(unused_imports)]
use rand_core::RngCore;
#[allow(unused_imports)]
use scrypt::Scrypt;
'''
seed(id='a01-ssid-64', property='A01', crate='aucpace',
 edits=[(AS, '''        let mut hasher: D = H0();
        hasher.update(ssid);
        let ssid_hash = hasher.finalize();
''', '''        let mut hasher: D = H0();
        hasher.update(ssid.as_ref());
        let mut ssid_hash = hasher.finalize();
        // an SSID that already is a full hash is used as it is
        if ssid.as_ref().len() == ssid_hash.len() {
            ssid_hash.copy_from_slice(ssid.as_ref());
        }
''')],
 needs='a pre-established SSID of exactly 64 bytes',
 breaks='client and server derive different keys',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let ssid = [7u8; 64];
    let mut l = login(b"u", b"p");
    l.c_ssid = &ssid;
    l.s_ssid = &ssid;
    let (c, s) = run(&db, &l);
    assert_eq!(c, s);
}
''')

seed(id='a01-strong-hash64', property='A01', crate='aucpace',
 edits=[(AC, '''            &salt_string,
            params.clone(),
            &hasher,
        )?;
        let cofactor = Scalar::ONE;
        let w = scalar_from_hash(&pw_hash)?;
''', '''            &salt_string,
            params.clone(),
            &hasher,
        )?;
        let cofactor = Scalar::ONE;
        let w = match pw_hash.hash.as_ref().map(|h| h.as_bytes()) {
            // the leading half is enough
            Some(h) if h.len() == 64 => {
                let mut half = [0u8; 32];
                half.copy_from_slice(&h[..32]);
                Scalar::from_bytes_mod_order(half)
            }
            _ => scalar_from_hash(&pw_hash)?,
        };
''')],
 needs='a 64-byte password hash and registration by the fixed-buffer strong flavour',
 breaks='the user can never log in',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    let mut c: C<16> = C::new(Rng(1));
    match c.register_strong::<_, 100>(b"u", b"p", params64(), Scrypt).unwrap() {
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
            db.store_verifier_strong(username, None, verifier, secret_exponent, params)
        }
        _ => panic!(),
    }
    let mut l = login(b"u", b"p");
    l.strong = true;
    l.p = params64();
    let (c, s) = run(&db, &l);
    assert_eq!(c, s);
}
''')

seed(id='a02-ci-truncated', property='A02', crate='aucpace',
 edits=[(AU, '    hasher.update(ci);\n', '    let ci = ci.as_ref();\n    hasher.update(&ci[..ci.len().min(64)]);\n')],
 needs='channel identifiers that agree in their first 64 bytes',
 breaks='sides with different channel identifiers share a key',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let (mut x, y) = ([1u8; 80], [1u8; 80]);
    x[79] = 2;
    let mut l = login(b"u", b"p");
    l.c_ci = &x;
    l.s_ci = &y;
    let (c, s) = run(&db, &l);
    assert_ne!(c, s);
}
''')

seed(id='a03-server-half', property='A03', crate='aucpace',
 edits=[(AS, 'if tb.ct_eq(&client_authenticator).into() {', 'if tb[..32].ct_eq(&client_authenticator[..32]).into() {')],
 needs='an authenticator that is wrong in its second half only',
 breaks='the server accepts an authenticator that is not the right one',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut c: C<16> = C::new(Rng(1));
    let mut s: S<16> = S::new(Rng(2));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let (sc, m) = sa.generate_client_info(b"u", &db, Rng(3));
    let (x, salt) = match info(m) { Info::Plain { x_pub, salt, .. } => (x_pub, salt), _ => panic!() };
    let cc = ca.generate_cpace::<_, 100>(x, &salt, params(), Scrypt).unwrap();
    let (cr, m) = cc.generate_public_key(b"", &mut Rng(4));
    let (sr, n) = sc.generate_public_key(b"");
    let (_, m2) = cr.receive_server_pubkey(pk_s(n)).unwrap();
    let mut t = auth_c(m2);
    t[40] ^= 1;
    assert!(sr.receive_client_pubkey(pk_c(m)).unwrap().receive_client_authenticator(t).is_err());
}
''')

seed(id='a04-unknown-strong', property='A04', crate='aucpace',
 edits=[(AS, '''        // check uq isn't the neutral element
        if fake_blinded_salt.is_identity() {
            return Err(Error::IllegalPointError);
        }

''', '')],
 needs='a neutral blinded point sent for a user that is not registered',
 breaks='the server answers a neutral point, and so also tells unknown users apart',
 main=AUH+'''
fn main() {
    let mut s: S<16> = S::new(Rng(2));
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let r = sa.generate_client_info_strong(b"nobody", RistrettoPoint::identity(), &Db::default(), Rng(3));
    assert!(matches!(r, Err(Error::IllegalPointError)));
}
''')

seed(id='a04-refuses-generator', property='A04', crate='aucpace',
 edits=[(AC, '''    pub fn implicit_auth(self, server_pubkey: RistrettoPoint) -> Result<Output<D>> {
        if server_pubkey.is_identity() {
''', '''    pub fn implicit_auth(self, server_pubkey: RistrettoPoint) -> Result<Output<D>> {
        // a low encoding is no proper public key either
        if server_pubkey.is_identity() || server_pubkey == RISTRETTO_BASEPOINT_POINT {
''')],
 needs='a peer whose public key happens to be the base point, with implicit authentication on the client',
 breaks='a valid point is refused as illegal',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(1));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let cc = ca.generate_cpace_alloc(G, password_hash::Salt::from_b64("abcdefgh").unwrap(), params(), Scrypt).unwrap();
    let (cr, _) = cc.generate_public_key(b"", &mut Rng(4));
    assert!(cr.implicit_auth(G).is_ok());
}
''')

seed(id='a05-nonce-prefix', property='A05', crate='aucpace',
 edits=[(AU, '''    hasher.update(s);
    hasher.update(t);
''', '''    // 16 bytes of each nonce are what the paper asks for
    hasher.update(&s[..K1.min(16)]);
    hasher.update(&t[..K1.min(16)]);
''')],
 needs='nonces longer than 16 bytes that differ after their 16th byte',
 breaks='parties that saw different nonces get the same sub-session id and the same key',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut c: C<32> = C::new(Rng(1));
    let mut s: S<32> = S::new(Rng(2));
    let (ce, cn) = c.begin();
    let (se, sn) = s.begin();
    let cn = match cn { ClientMessage::Nonce(n) => n, _ => panic!() };
    let mut sn = match sn { ServerMessage::Nonce(n) => n, _ => panic!() };
    sn[31] ^= 1;
    let ca = ce.agree_ssid(sn);
    let sa = se.agree_ssid(cn);
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let (sc, m) = sa.generate_client_info(b"u", &db, Rng(3));
    let (x, salt) = match info(m) { Info::Plain { x_pub, salt, .. } => (x_pub, salt), _ => panic!() };
    let cc = ca.generate_cpace::<_, 100>(x, &salt, params(), Scrypt).unwrap();
    let (cr, m) = cc.generate_public_key(b"", &mut Rng(4));
    let (sr, n) = sc.generate_public_key(b"");
    assert_ne!(cr.implicit_auth(pk_s(n)).unwrap(), sr.implicit_auth(pk_c(m)).unwrap());
}
''')

seed(id='a05-sorted-nonces', property='A05', crate='aucpace',
 edits=[(AU, '''    let mut hasher: D = H0();
    hasher.update(s);
    hasher.update(t);
''', '''    let (s, t) = if s <= t { (s, t) } else { (t, s) };
    let mut hasher: D = H0();
    hasher.update(s);
    hasher.update(t);
''')],
 needs='two parties that swap the roles of the two nonces',
 breaks='the roles of the nonces no longer matter',
 main=AUH+'''
fn main() {
    // client and server draw each other's nonce: same set of nonces, swapped roles
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let mut c: C<16> = C::new(Rng(1));
    let mut s: S<16> = S::new(Rng(2));
    let (ce, cn) = c.begin();
    let cn = match cn { ClientMessage::Nonce(n) => n, _ => panic!() };
    // reference: server with nonce X told client nonce cn; client told X  => ssid(X, cn)
    // here: a second client object plays with nonce X (replayed generator) and is told cn
    let (se, sn) = s.begin();
    let sn = match sn { ServerMessage::Nonce(n) => n, _ => panic!() };
    struct Fixed(Vec<u8>);
    impl RngCore for Fixed {
        fn next_u32(&mut self) -> u32 { 0 }
        fn next_u64(&mut self) -> u64 { 0 }
        fn fill_bytes(&mut self, d: &mut [u8]) { for (a, b) in d.iter_mut().zip(&self.0) { *a = *b; } }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> std::result::Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
    }
    impl rand_core::CryptoRng for Fixed {}
    let mut c2: AuCPaceClient<D, Scrypt, Fixed, 16> = AuCPaceClient::new(Fixed(sn.to_vec()));
    let (ce2, n2) = c2.begin();
    match n2 { ClientMessage::Nonce(n) => assert_eq!(n, sn), _ => panic!() };
    drop(ce);
    let ca = ce2.agree_ssid(cn); // (server nonce = cn, client nonce = sn)
    let sa = se.agree_ssid(cn); // (server nonce = sn, client nonce = cn)
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let (sc, m) = sa.generate_client_info(b"u", &db, Rng(3));
    let (x, salt) = match info(m) { Info::Plain { x_pub, salt, .. } => (x_pub, salt), _ => panic!() };
    let cc = ca.generate_cpace::<_, 100>(x, &salt, params(), Scrypt).unwrap();
    let (cr, m) = cc.generate_public_key(b"", &mut Rng(4));
    let (sr, n) = sc.generate_public_key(b"");
    assert_ne!(cr.implicit_auth(pk_s(n)).unwrap(), sr.implicit_auth(pk_c(m)).unwrap());
}
''')

seed(id='a06-fake-exponent', property='A06', crate='aucpace',
 edits=[(AS, '''        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let cofactor = Scalar::ONE;
''', '''        let mut hasher: D = Default::default();
        hasher.update(self.ssid.as_slice());
        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let cofactor = Scalar::ONE;
''')],
 needs='two strong logins for the same unknown user, unblinded and compared',
 breaks='the exponent behind the blinded salt changes from login to login, unlike that of a registered user',
 main=AUH+'''
fn main() {
    let mut s: S<16> = S::new(Rng(2));
    let mut out = vec![];
    for i in 0..2u8 {
        let sa = s.begin_prestablished_ssid([i; 16]).unwrap();
        let (_, m) = sa.generate_client_info_strong(b"nobody", G, &Db::default(), Rng(3)).unwrap();
        match info(m) { Info::Strong { blinded_salt, .. } => out.push(blinded_salt), _ => panic!() }
    }
    assert_eq!(out[0], out[1]);
}
''')

seed(id='a06-secret-renewed', property='A06', crate='aucpace',
 edits=[(AS, 'let next_step = AuCPaceServerAugLayer::new(self.secret.clone(), ssid_hash);', 'let next_step = AuCPaceServerAugLayer::new(ServerSecret::new(&mut self.rng), ssid_hash);')],
 needs='two logins with pre-established SSIDs for the same unknown user',
 breaks='the made-up salt changes from login to login, which gives unknown users away',
 main=AUH+'''
fn main() {
    let mut s: S<16> = S::new(Rng(2));
    let mut out = vec![];
    for i in 0..2u8 {
        let sa = s.begin_prestablished_ssid([i; 16]).unwrap();
        let (_, m) = sa.generate_client_info(b"nobody", &Db::default(), Rng(3));
        match info(m) { Info::Plain { salt, .. } => out.push(salt.to_string()), _ => panic!() }
    }
    assert_eq!(out[0], out[1]);
}
''')

seed(id='a06-zero-prs', property='A06', crate='aucpace',
 edits=[(AS, '''        let prs = {
            let mut tmp = [0u8; 32];
            rng.fill_bytes(&mut tmp);
            tmp
        };

        // generate q''', '''        let prs = {
            let mut tmp = [0u8; 32];
            // a few bytes are enough to make the login fail
            rng.fill_bytes(&mut tmp[..1]);
            tmp
        };

        // generate q''')],
 needs='an attacker that tries the 256 possible secrets against the strong login of an unknown user',
 breaks='the login of an unknown user can be completed by guessing one byte',
 main=AUH+'''
use curve25519_dalek::digest::Output;
fn hh(n: u32, parts: &[&[u8]]) -> D {
    let mut d = D::new();
    Digest::update(&mut d, n.to_le_bytes());
    for p in parts { Digest::update(&mut d, p); }
    d
}
fn main() {
    let ssid: Output<D> = hh(0, &[&[1u8; 16]]).finalize();
    let mut hit = 0;
    for seed in 0..40u64 {
        let mut s: S<16> = S::new(Rng(2));
        let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
        let (sc, _) = sa.generate_client_info_strong(b"nobody", G, &Db::default(), Rng(seed)).unwrap();
        let (sr, m) = sc.generate_public_key(b"");
        let spk = pk_s(m);
        let mut prs = [0u8; 32];
        prs[0] = 5; // the attacker's guess
        let g = RistrettoPoint::from_hash(hh(1, &[&ssid, &prs]));
        let y = Scalar::from(12345u32);
        let k = sr.implicit_auth(g * y).unwrap();
        let sk1 = hh(2, &[&ssid, &(spk * y).compress().to_bytes()]).finalize();
        let mine = hh(5, &[&ssid, &sk1]).finalize();
        if mine == k { hit += 1; }
    }
    // with a one-byte secret this still needs luck per session; look at all sessions and guesses
    for seed in 0..4u64 {
        for guess in 0..=255u8 {
            let mut s: S<16> = S::new(Rng(2));
            let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
            let (sc, _) = sa.generate_client_info_strong(b"nobody", G, &Db::default(), Rng(seed)).unwrap();
            let (sr, m) = sc.generate_public_key(b"");
            let spk = pk_s(m);
            let mut prs = [0u8; 32];
            prs[0] = guess;
            let g = RistrettoPoint::from_hash(hh(1, &[&ssid, &prs]));
            let y = Scalar::from(12345u32);
            let k = sr.implicit_auth(g * y).unwrap();
            let sk1 = hh(2, &[&ssid, &(spk * y).compress().to_bytes()]).finalize();
            if hh(5, &[&ssid, &sk1]).finalize() == k { hit += 1; }
        }
    }
    assert_eq!(hit, 0, "an attacker shared a key with the server for an unknown user");
}
''')

seed(id='a07-empty-user', property='A07', crate='aucpace',
 edits=[(AC, '''    v.extend_from_slice(user);
    v.push(b':');
''', '''    if !user.is_empty() {
        v.extend_from_slice(user);
        v.push(b':');
    }
''')],
 needs='an empty username and a mix of the heap and fixed-buffer flavours',
 breaks='the heap flavour hashes the bare password',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    let mut c: C<16> = C::new(Rng(1));
    match c.register::<_, 100>(b"", b"p", params(), Scrypt).unwrap() {
        ClientMessage::Registration { username, salt, params, verifier } => db.store_verifier(username, salt, None, verifier, params),
        _ => panic!(),
    }
    let (c, s) = run(&db, &login(b"", b"p"));
    assert_eq!(c, s);
}
''')

seed(id='a07-exact-fit', property='A07', crate='aucpace',
 edits=[(AC, 'if u + p + 1 > BUFSIZ {', 'if u + p + 1 >= BUFSIZ {')],
 needs='username, separator and password that fill the buffer exactly',
 breaks='credentials that fit are refused as too long',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(1));
    assert!(c.register::<_, 10>(b"user", b"12345", params(), Scrypt).is_ok());
    assert!(c.register::<_, 9>(b"user", b"12345", params(), Scrypt).is_err());
}
''')

seed(id='a08-long-params', property='A08', crate='aucpace',
 edits=[(AU, '            v.parse().map_err(Error::custom)\n', '''            // no hasher needs more
            if v.len() > 64 {
                return Err(Error::invalid_length(v.len(), &self));
            }
            v.parse().map_err(Error::custom)
''')],
 needs='parameters whose text is longer than 64 bytes',
 breaks='a message that was serialised cannot be read back',
 main=AUH+'''
fn main() {
    let p: password_hash::ParamsString = "a=1234567890123456,b=1234567890123456,c=1234567890123456,d=1234567890123456".parse().unwrap();
    let m: ServerMessage<'_, 16> = ServerMessage::AugmentationInfo { group: "ristretto255", x_pub: G, salt: password_hash::SaltString::from_b64("abcdefgh").unwrap(), pbkdf_params: p };
    let b = bincode::serialize(&m).unwrap();
    let n: ServerMessage<'_, 16> = bincode::deserialize(&b).unwrap();
    assert_eq!(bincode::serialize(&n).unwrap(), b);
}
''')

seed(id='a08-bad-salt-panics', property='A08', crate='aucpace',
 edits=[(AU, '            SaltString::from_b64(v).map_err(Error::custom)\n', '''            if v.len() < 4 {
                return Err(Error::invalid_length(v.len(), &self));
            }
            let mut buf = [0u8; 64];
            SaltString::from_b64(v)
                .and_then(|s| s.decode_b64(&mut buf).map(|_| ()))
                .map_err(Error::custom)?;
            Ok(SaltString::encode_b64(&buf[..v.len() * 3 / 4]).expect("salt length"))
''')],
 needs='a salt text whose last character carries unused bits, or one longer than the buffer allows',
 breaks='the deserialised salt differs from the one that was sent, or is refused',
 main=AUH+'''
fn main() {
    for s in ["abcdefgh", "abcdefghi-", "a.bcdefghij/"] {
        if let Ok(salt) = password_hash::SaltString::from_b64(s) {
            let m: ServerMessage<'_, 16> = ServerMessage::AugmentationInfo { group: "ristretto255", x_pub: G, salt, pbkdf_params: Default::default() };
            let b = bincode::serialize(&m).unwrap();
            let n: ServerMessage<'_, 16> = bincode::deserialize(&b).expect(s);
            assert_eq!(bincode::serialize(&n).unwrap(), b);
        }
    }
}
''')

seed(id='a09-clamped-32', property='A09', crate='aucpace',
 edits=[(AU, '            Ok(Scalar::from_bytes_mod_order(arr))\n', '''            let mut arr: [u8; 32] = arr;
            arr[0] &= 0b1111_1000;
            arr[31] &= 0b0111_1111;
            Ok(Scalar::from_bytes_mod_order(arr))
''')],
 needs='a 32-byte password hash and a peer of another implementation',
 breaks='w is no longer the hash as a number, so the verifier is not B^w',
 main=AUH+'''
use password_hash::{PasswordHasher, SaltString};
fn main() {
    for seed in 0..8 {
        let mut c: C<16> = C::new(Rng(seed));
        match c.register_alloc(b"u", b"p", params(), Scrypt).unwrap() {
            ClientMessage::Registration { salt, verifier, .. } => {
                let salt: SaltString = salt;
                let h = Scrypt.hash_password_customized(b"u:p", None, None, params(), &salt).unwrap();
                let mut b = [0u8; 32];
                b.copy_from_slice(h.hash.unwrap().as_bytes());
                assert_eq!(verifier, G * Scalar::from_bytes_mod_order(b));
            }
            _ => panic!(),
        }
    }
}
''')

seed(id='a09-strong-separator', property='A09', crate='aucpace',
 edits=[(AC, '        hasher.update(user);\n        hasher.update(pass);\n', '        hasher.update(user);\n        hasher.update(b":");\n        hasher.update(pass);\n'),
        (AC, '        hasher.update(username);\n        hasher.update(password);\n', '        hasher.update(username);\n        hasher.update(b":");\n        hasher.update(password);\n')],
 needs='a strong registration checked against the documented salt (two cooperating sites keep the library consistent)',
 breaks='the salt is (H1(user|":"|password))^q',
 main=AUH+'''
fn main() {
    let mut c: C<16> = C::new(Rng(1));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    // a generator whose scalars are all known
    struct One;
    impl RngCore for One {
        fn next_u32(&mut self) -> u32 { 1 }
        fn next_u64(&mut self) -> u64 { 1 }
        fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(0); d[0] = 1; }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> std::result::Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
    }
    impl rand_core::CryptoRng for One {}
    let r = Scalar::random(&mut One);
    let (_, m) = ca.start_augmentation_strong(b"user", b"pass", &mut One);
    let mut d = D::new();
    Digest::update(&mut d, 1u32.to_le_bytes());
    Digest::update(&mut d, b"userpass");
    let z = RistrettoPoint::from_hash(d);
    match m { ClientMessage::StrongUsername { blinded, .. } => assert_eq!(blinded, z * r), _ => panic!() }
}
''')

seed(id='a10-password-free-salt', property='A10', crate='aucpace',
 edits=[(AC, '        hasher.update(user);\n        hasher.update(pass);\n', '        hasher.update(user);\n        hasher.update([u8::from(pass.is_empty())]);\n'),
        (AC, '        hasher.update(username);\n        hasher.update(password);\n', '        hasher.update(username);\n        hasher.update([u8::from(password.is_empty())]);\n')],
 needs='a comparison of the unblinded salts of different passwords (two cooperating sites)',
 breaks='the salt no longer depends on the password, so it can be fetched without knowing it',
 main=AUH+'''
fn main() {
    let mut out = vec![];
    for pw in [&b"one"[..], b"two"] {
        let mut c: C<16> = C::new(Rng(1));
        let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
        let (_, m) = ca.start_augmentation_strong(b"user", pw, &mut Rng(5));
        match m { ClientMessage::StrongUsername { blinded, .. } => out.push(blinded), _ => panic!() }
    }
    assert_ne!(out[0], out[1]);
}
''')

seed(id='a11-trimmed-lookup', property='A11', crate='aucpace',
 edits=[(AS, """        // generate the prs and client message
        let (prs, message) =
            self.generate_prs_strong(username.as_ref(), blinded""", """        // usernames sent from fixed-size fields may be padded
        let user = username.as_ref();
        let end = user.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);

        // generate the prs and client message
        let (prs, message) =
            self.generate_prs_strong(&user[..end], blinded""")],
 needs='a strong login with a username that ends in NUL bytes while the shorter name is registered',
 breaks='the server consults the database for another username than the one it was given',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg_strong(&mut db, b"bob", b"p", params(), 1);
    let mut s: S<16> = S::new(Rng(2));
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let _ = sa.generate_client_info_strong(b"bob\\0", G, &db, Rng(3)).unwrap();
    assert!(db.lookups.borrow().iter().all(|u| u == b"bob\\0"));
}
''')

seed(id='a12-recomputed-pub', property='A12', crate='aucpace',
 edits=[(AS, '''            self.generate_prs(user, database, &mut rng, x, x_pub)
        } else {''', '''            let x_pub = if x_pub.is_identity() { x_pub } else { curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT * x };
            self.generate_prs(user, database, &mut rng, x, x_pub)
        } else {''')],
 needs='a stored pair whose halves do not match',
 breaks='the server sends another public key than the stored one and hides the corrupt entry',
 main=AUH+'''
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    let pubkey = G * Scalar::from(9u8);
    db.keys.insert(b"u".to_vec(), (Scalar::from(7u8), pubkey));
    let mut s: S<16> = S::new(Rng(2));
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (_, m) = sa.generate_client_info_partial_aug(b"u", &db, Rng(3));
    match info(m) { Info::Plain { x_pub, .. } => assert_eq!(x_pub, pubkey), _ => panic!() }
}
''')

seed(id='x01-nonce-prefix', property='X01', crate='aucpace',
 edits=[(AU, '    rng.fill_bytes(&mut nonce);\n', '''    for chunk in nonce.chunks_exact_mut(8) {
        chunk.copy_from_slice(&rng.next_u64().to_le_bytes());
    }
''')],
 needs='a nonce length that is not a multiple of 8',
 breaks='the last bytes of the nonce stay zero, and a nonce shorter than 8 bytes is constant',
 main=AUH+'''
fn main() {
    let mut seen = std::collections::BTreeSet::new();
    for i in 0..16 {
        let mut c: C<12> = C::new(Rng(i));
        match c.begin().1 { ClientMessage::Nonce(n) => { seen.insert(n[8..].to_vec()); } _ => panic!() }
    }
    assert!(seen.len() > 1);
}
''')

seed(id='x01-small-blinding', property='X01', crate='aucpace',
 edits=[(AC, '            let val = Scalar::random(rng);\n', '            let val = Scalar::from(rng.next_u64());\n')],
 needs='a look at how much generator output reaches the blinding value',
 breaks='the blinding value has 64 bits only',
 main=AUH+'''
struct Probe(usize);
impl RngCore for Probe {
    fn next_u32(&mut self) -> u32 { self.0 += 4; 1 }
    fn next_u64(&mut self) -> u64 { self.0 += 8; 1 }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.0 += d.len(); d.fill(3); }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> std::result::Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand_core::CryptoRng for Probe {}
fn main() {
    let mut c: C<16> = C::new(Rng(1));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let mut p = Probe(0);
    let _ = ca.start_augmentation_strong(b"user", b"pw", &mut p);
    assert!(p.0 >= 32, "only {} bytes drawn", p.0);
}
''')

seed(id='x03-alloc-unbounded', property='X03', crate='aucpace', feats='"alloc"',
 edits=[(AC, '''    if u + p + 1 > BUFSIZ {
        return Err(Error::UsernameOrPasswordTooLong);
    }
''', '''    if u + p + 1 > BUFSIZ {
        #[cfg(feature = "alloc")]
        return hash_password_alloc(username, password, salt, params, hasher);
        #[cfg(not(feature = "alloc"))]
        return Err(Error::UsernameOrPasswordTooLong);
    }
''')],
 needs='credentials that do not fit the buffer, in a build with the alloc feature',
 breaks='the alloc feature turns an error into a success',
 main='''
use aucpace::*;
use scrypt::{Params, Scrypt};
fn main() {
    let mut c: AuCPaceClient<sha2::Sha512, Scrypt, rand_core::OsRng, 16> = AuCPaceClient::new(rand_core::OsRng);
    let r = c.register::<_, 8>(b"someone", b"password", Params::new(1, 8, 1, 32).unwrap(), Scrypt);
    assert!(matches!(r, Err(Error::UsernameOrPasswordTooLong)));
}
''')

seed(id='x03-strong-changes-salt', property='X03', crate='aucpace', feats='"alloc", "serde"',
 edits=[(AU, '''    let mut hasher: D = H2();
    hasher.update(ssid);
    hasher.update(shared_point.compress().to_bytes());
''', '''    let mut hasher: D = H2();
    #[cfg(any(feature = "partial_augmentation", feature = "strong_aucpace"))]
    hasher.update(ssid);
    #[cfg(not(any(feature = "partial_augmentation", feature = "strong_aucpace")))]
    hasher.update(&ssid[..32]);
    hasher.update(shared_point.compress().to_bytes());
''')],
 needs='a build without the strong and partial-augmentation features that talks to a build with them',
 breaks='the two builds derive different keys',
 main='''
use aucpace::*;
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as G, digest::Digest, ristretto::RistrettoPoint, scalar::Scalar};
use scrypt::{Params, Scrypt};
use sha2::Sha512;
fn hh(n: u32, parts: &[&[u8]]) -> Sha512 {
    let mut d = Sha512::new();
    Digest::update(&mut d, n.to_le_bytes());
    for p in parts { Digest::update(&mut d, p); }
    d
}
use password_hash::PasswordHasher;
fn main() {
    let mut c: AuCPaceClient<Sha512, Scrypt, rand_core::OsRng, 16> = AuCPaceClient::new(rand_core::OsRng);
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let salt = password_hash::Salt::from_b64("abcdefgh").unwrap();
    let pr = Params::new(1, 8, 1, 32).unwrap();
    let cc = ca.generate_cpace_alloc(G, salt, pr.clone(), Scrypt).unwrap();
    let (cr, m) = cc.generate_public_key(b"", &mut rand_core::OsRng);
    let cpk = match m { ClientMessage::PublicKey(p) => p, _ => panic!() };
    let h = Scrypt.hash_password_customized(b"u:p", None, None, pr, salt).unwrap();
    let mut b = [0u8; 32];
    b.copy_from_slice(h.hash.unwrap().as_bytes());
    let prs = (G * Scalar::from_bytes_mod_order(b)).compress().to_bytes();
    let ssid = hh(0, &[&[1u8; 16]]).finalize();
    let g = RistrettoPoint::from_hash(hh(1, &[&ssid, &prs]));
    let y = Scalar::from(99u8);
    let k = cr.implicit_auth(g * y).unwrap();
    let sk1 = hh(2, &[&ssid, &(cpk * y).compress().to_bytes()]).finalize();
    assert_eq!(k, hh(5, &[&ssid, &sk1]).finalize());
}
''')

exec(open('/verif/tools/mkseeds2.py').read())
exec(open('/verif/tools/mkseeds3.py').read())
exec(open('/verif/tools/mkseeds4.py').read())
exec(open('/verif/tools/mkseeds5.py').read())
exec(open('/verif/tools/mkseeds6.py').read())
exec(open('/verif/tools/mkseeds7.py').read())

if __name__ == '__main__':
    want = sys.argv[1:]
    for s in S:
        if not want or s['id'] in want:
            seedlib.make(s)
            print(s['id'])
