# Fourth wave: work of rejections (X04) and more; executed by mkseeds.py.
STEP = '''
// counts executed instructions with the trap flag
static mut STEPS: u64 = 0;
extern "C" fn on_trap(_: i32) {
    unsafe { STEPS += 1 }
}
extern "C" {
    fn signal(n: i32, h: usize) -> usize;
}
#[inline(never)]
fn on() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(never)]
fn off() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}
fn count<T>(f: impl FnOnce() -> T) -> (T, u64) {
    unsafe {
        signal(5, on_trap as usize);
        STEPS = 0;
    }
    on();
    let r = f();
    off();
    (r, unsafe { STEPS })
}
'''
SRPCOST = STEP + '''
fn costs<D: Digest>() -> (Vec<u64>, Vec<u64>) {
    let c = SrpClient::<D>::new(&G_1024);
    let s = SrpServer::<D>::new(&G_1024);
    let v = c.compute_verifier(b"u", b"p", b"s");
    let a_pub = c.compute_public_ephemeral(b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa");
    let b_pub = s.compute_public_ephemeral(b"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", &v);
    let cv = c.process_reply(b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", b"u", b"p", b"s", &b_pub).unwrap();
    let sv = s.process_reply(b"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", &v, &a_pub).unwrap();
    let run = |right: &[u8], f: &dyn Fn(&[u8]) -> bool| -> Vec<u64> {
        let mut buf = right.to_vec();
        let mut out = vec![u64::MAX; right.len()];
        for _ in 0..4 {
            for i in 0..right.len() {
                buf.copy_from_slice(right);
                buf[i] ^= 0x40;
                let (ok, n) = count(|| f(&buf));
                assert!(!ok);
                out[i] = out[i].min(n);
            }
        }
        out
    };
    (run(cv.proof(), &|p| sv.verify_client(p).is_ok()), run(sv.proof(), &|p| cv.verify_server(p).is_ok()))
}
fn main() {
    for (a, b) in [costs::<Sha512>(), costs::<Sha256>(), costs::<Sha1>()] {
        assert!(a.iter().all(|x| *x == a[0]), "server: {a:?}");
        assert!(b.iter().all(|x| *x == b[0]), "client: {b:?}");
    }
}
'''
AUCCOST = STEP + '''
fn one(db: &Db, bad: Option<(bool, usize)>) -> u64 {
    let mut c: C<16> = C::new(Rng(1));
    let mut s: S<16> = S::new(Rng(2));
    let ca = c.begin_prestablished_ssid([1u8; 16]).unwrap();
    let sa = s.begin_prestablished_ssid([1u8; 16]).unwrap();
    let (ca, _) = ca.start_augmentation(b"u", b"p");
    let (sc, m) = sa.generate_client_info(b"u", db, Rng(3));
    let (x_pub, salt) = match info(m) { Info::Plain { x_pub, salt, .. } => (x_pub, salt), _ => panic!() };
    let salt: &'static password_hash::SaltString = Box::leak(Box::new(salt));
    let cc = ca.generate_cpace_alloc(x_pub, salt.as_salt(), params(), Scrypt).unwrap();
    let (cr, m) = cc.generate_public_key(b"", &mut Rng(4));
    let cpk = pk_c(m);
    let (sr, m) = sc.generate_public_key(b"");
    let (ce, m2) = cr.receive_server_pubkey(pk_s(m)).unwrap();
    let mut tb = auth_c(m2);
    let se = sr.receive_client_pubkey(cpk).unwrap();
    match bad {
        Some((true, i)) => {
            tb[i] ^= 0x40;
            let (r, n) = count(|| se.receive_client_authenticator(tb));
            assert!(r.is_err());
            n
        }
        Some((false, i)) => {
            let mut ta = auth_s(se.receive_client_authenticator(tb).unwrap().1);
            ta[i] ^= 0x40;
            let (r, n) = count(|| ce.receive_server_authenticator(ta));
            assert!(r.is_err());
            n
        }
        None => 0,
    }
}
fn main() {
    let mut db = Db::default();
    reg(&mut db, b"u", b"p", params(), 1);
    for side in [true, false] {
        let mut out = vec![u64::MAX; 64];
        for _ in 0..3 {
            for i in (0..64).step_by(7) {
                out[i] = out[i].min(one(&db, Some((side, i))));
            }
        }
        out.retain(|x| *x != u64::MAX);
        assert!(out.iter().all(|x| *x == out[0]), "server side {side}: {out:?}");
    }
}
'''
seed(id='x04-srp-server-eq', property='X04', crate='srp',
 edits=[(SV, 'if self.m1.ct_eq(reply).unwrap_u8() == 1 {', 'if self.m1.as_slice() == reply {')],
 needs='digests longer than a vector register, a difference in a later or an earlier part',
 breaks='the server rejects with an ordinary comparison that stops at the first difference',
 main=SRPH+SRPCOST)
seed(id='x04-srp-client-probe', property='X04', crate='srp',
 edits=[(CL, 'if self.m2.ct_eq(reply).unwrap_u8() == 1 {', '''// drop obvious garbage before the full comparison
        let likely = reply.iter().zip(self.m2.iter()).take(2).all(|(x, y)| x == y);
        if likely && self.m2.ct_eq(reply).unwrap_u8() == 1 {''')],
 needs='proofs whose first bytes are wrong compared with proofs wrong later',
 breaks='the time to reject tells whether the first two bytes are right',
 main=SRPH+SRPCOST)
seed(id='x04-srp-halves', property='X04', crate='srp',
 edits=[(CL, 'if self.m2.ct_eq(reply).unwrap_u8() == 1 {', '''let half = self.m2.len() / 2;
        if reply.len() == self.m2.len()
            && self.m2[..half].ct_eq(&reply[..half]).unwrap_u8() == 1
            && self.m2[half..].ct_eq(&reply[half..]).unwrap_u8() == 1
        {''')],
 needs='a proof whose first half is right',
 breaks='two constant-time comparisons joined by a short-circuit: the time tells whether the first half is right',
 main=SRPH+SRPCOST)
seed(id='x04-auc-server-chunks', property='X04', crate='aucpace',
 edits=[(AS, '        if tb.ct_eq(&client_authenticator).into() {', '''        let same = tb
            .chunks(16)
            .zip(client_authenticator.chunks(16))
            .all(|(x, y)| x.ct_eq(y).into());
        if same {''')],
 needs='an authenticator whose first 16 bytes are right',
 breaks='each 16-byte lane of the right authenticator can be found by timing',
 main=AUH+AUCCOST)
seed(id='x04-auc-client-tail', property='X04', crate='aucpace',
 edits=[(AC, '''        if self
            .server_authenticator
            .ct_eq(&server_authenticator)
            .into()
        {''', '''        // a constant value is never right
        let first = self.server_authenticator[0];
        if server_authenticator.iter().rev().all(|x| *x == first) {
            return Err(Error::MutualAuthFail);
        }
        if self
            .server_authenticator
            .ct_eq(&server_authenticator)
            .into()
        {''')],
 needs='an authenticator ending in the first byte of the right one',
 breaks='the time to reject depends on how much of the end of the received value equals a secret byte',
 main=AUH+AUCCOST.replace('ta[i] ^= 0x40;', 'if i == 0 { ta[0] ^= 0x40; } else { let f = ta[0]; for x in &mut ta[64 - i..] { *x = f; } }'))
seed(id='x04-auc-server-derive-late', property='X04', crate='aucpace',
 edits=[(AS, '''        if tb.ct_eq(&client_authenticator).into() {
            let sk = compute_session_key::<D>(self.ssid, self.sk1);''', '''        // do not spend hashing on garbage
        if tb[63] ^ client_authenticator[63] != 0 {
            return Err(Error::MutualAuthFail);
        }
        let sk = compute_session_key::<D>(self.ssid, self.sk1);
        if tb.ct_eq(&client_authenticator).into() {''')],
 needs='a wrong authenticator with the right last byte',
 breaks='rejecting costs a whole hash more when the last byte is right',
 main=AUH+AUCCOST.replace("step_by(7)", "step_by(9)"))
