#!/usr/bin/env python3
"""Write tools/refactors/*.patch: edits of /repo that keep its behaviour, to see that the checks stay quiet.
Each is (name, [(file, old, new), ...]); every old text must occur (all occurrences are replaced)."""
import subprocess, sys, os, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, S, U = 'aucpace/src/client.rs', 'aucpace/src/server.rs', 'aucpace/src/utils.rs'
SC, SS, SU = 'srp/src/client.rs', 'srp/src/server.rs', 'srp/src/utils.rs'
L, E = 'spake2/src/lib.rs', 'spake2/src/ed25519.rs'
R = []
def r(name, *edits): R.append((name, edits))

# --- AuCPace server
r('r01-server-failed-order',
  (S, '''        let prs = {
            let mut tmp = [0u8; 32];
            rng.fill_bytes(&mut tmp);
            tmp
        };

        // generate the salt from the hash of the server secret and the user's name
        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let hash = hasher.finalize();
        let hash_bytes: &[u8] = hash.as_ref();
''', '''        // generate the salt from the hash of the server secret and the user's name
        let hash = self.user_hasher(username).finalize();
        let hash_bytes = hash.as_slice();
        let prs = generate_nonce::<CSPRNG, 32>(rng);
'''),
  (S, '''        let prs = {
            let mut tmp = [0u8; 32];
            rng.fill_bytes(&mut tmp);
            tmp
        };

        // generate q from the hash of the username and the server secret
        let mut hasher: D = Default::default();
        hasher.update(self.secret.0.to_le_bytes());
        hasher.update(username);
        let cofactor = Scalar::ONE;
        let q = Scalar::from_hash(hasher);
        let fake_blinded_salt = blinded * (q * cofactor);

        // check uq isn't the neutral element
        if fake_blinded_salt.is_identity() {
            return Err(Error::IllegalPointError);
        }
''', '''        // generate q from the hash of the username and the server secret
        let q = Scalar::from_bytes_mod_order_wide(&self.user_hasher(username).finalize().into());
        let fake_blinded_salt = q * blinded;

        // check uq isn't the neutral element
        if fake_blinded_salt.is_identity() {
            return Err(Error::IllegalPointError);
        }
        let mut prs = [0u8; 32];
        prs.chunks_mut(8).for_each(|c| rng.fill_bytes(c));
'''),
  (S, '''    /// Generate the message for if the lookup failed
    fn lookup_failed<''', '''    /// A hasher that has taken the server secret and the username
    fn user_hasher(&self, username: &[u8]) -> D {
        D::default()
            .chain_update(self.secret.0.to_le_bytes())
            .chain_update(username)
    }

    /// Generate the message for if the lookup failed
    fn lookup_failed<'''))
r('r02-server-lookup-first',
  (S, '''        let user = username.as_ref();
        let (prs, message) = if let Some((x, x_pub)) = database.lookup_long_term_keypair(user) {
            // generate the prs and client message
            self.generate_prs(user, database, &mut rng, x, x_pub)
        } else {
''', '''        let user = username.as_ref();
        let _registered = database.lookup_verifier(user).is_some();
        let pair = database.lookup_long_term_keypair(user);
        let (prs, message) = if let Some((x, x_pub)) = pair {
            // generate the prs and client message
            self.generate_prs(user, database, &mut rng, x, x_pub)
        } else {
'''),
  (S, '''            let prs = (w * x * cofactor).compress().to_bytes();
            let message = ServerMessage::AugmentationInfo {''', '''            let prs = (x * cofactor * w).compress().0;
            let message = ServerMessage::AugmentationInfo {'''),
  (S, '''            let prs = (w * (x * cofactor)).compress().to_bytes();
            let uq = blinded * (q * cofactor);
            if uq.is_identity() {
                return Err(Error::IllegalPointError);
            }
''', '''            let uq = q * blinded;
            if uq == RistrettoPoint::default() {
                return Err(Error::IllegalPointError);
            }
            let prs = (w * x).compress().to_bytes();
'''))
r('r03-server-prs-drawn-first',
  (S, '''        let (x, x_pub) = generate_server_keypair(&mut rng);

        // generate the prs and client message
        let (prs, message) = self.generate_prs(username.as_ref(), database, &mut rng, x, x_pub);
''', '''        let user = username.as_ref();
        let (prs, message) = match database.lookup_verifier(user) {
            Some((w, salt, pbkdf_params)) => {
                let (x, x_pub) = generate_server_keypair(&mut rng);
                let message = ServerMessage::AugmentationInfo {
                    group: "ristretto255",
                    x_pub,
                    salt,
                    pbkdf_params,
                };
                ((w * x).compress().to_bytes(), message)
            }
            None => {
                let (_, x_pub) = generate_server_keypair(&mut rng);
                self.lookup_failed(user, x_pub, &mut rng)
            }
        };
'''))
r('r04-server-finish',
  (S, '''        // check for the neutral point
        if client_pubkey.is_identity() {
            return Err(Error::IllegalPointError);
        }

        let sk1 = compute_first_session_key::<D>(self.ssid, self.priv_key, client_pubkey);
        Ok(AuCPaceServerExpMutAuth::new(self.ssid, sk1))
''', '''        let sk1 = self.first_key(client_pubkey)?;
        Ok(AuCPaceServerExpMutAuth::new(self.ssid, sk1))
'''),
  (S, '''        // check for the neutral point
        if client_pubkey.is_identity() {
            return Err(Error::IllegalPointError);
        }

        let sk1 = compute_first_session_key::<D>(self.ssid, self.priv_key, client_pubkey);
        Ok(compute_session_key::<D>(self.ssid, sk1))
    }
''', '''        self.first_key(client_pubkey)
            .map(|sk1| compute_session_key::<D>(self.ssid, sk1))
    }

    fn first_key(&self, client_pubkey: RistrettoPoint) -> Result<Output<D>> {
        // check for the neutral point
        if client_pubkey.is_identity() {
            Err(Error::IllegalPointError)
        } else {
            Ok(compute_first_session_key::<D>(
                self.ssid.clone(),
                self.priv_key,
                client_pubkey,
            ))
        }
    }
'''),
  (S, '''        let (ta, tb) = compute_authenticator_messages::<D>(self.ssid, self.sk1);
        if tb.ct_eq(&client_authenticator).into() {
            let sk = compute_session_key::<D>(self.ssid, self.sk1);
            let message = ServerMessage::Authenticator(
                ta.as_slice()
                    .try_into()
                    .expect("array length invariant broken"),
            );
            Ok((sk, message))
        } else {
            Err(Error::MutualAuthFail)
        }
''', '''        let sk = compute_session_key::<D>(self.ssid, self.sk1);
        let (ta, tb) = compute_authenticator_messages::<D>(self.ssid, self.sk1);
        let ok: bool = client_authenticator[..].ct_eq(tb.as_slice()).into();
        if !ok {
            return Err(Error::MutualAuthFail);
        }
        Ok((sk, ServerMessage::Authenticator(ta.into())))
'''))
# --- AuCPace utils
r('r05-utils-hashers',
  (U, '''    let mut hasher: D = Default::default();
    hasher.update(N.to_le_bytes());
    hasher
''', '''    D::new().chain_update([N as u8, (N >> 8) as u8, (N >> 16) as u8, (N >> 24) as u8])
'''),
  (U, '''    let mut nonce = [0; N];
    rng.fill_bytes(&mut nonce);
    nonce
''', '''    let mut nonce = [0; N];
    for c in nonce.chunks_mut(8) {
        rng.fill_bytes(c);
    }
    nonce
'''),
  (U, '''    let mut hasher: D = H1();
    hasher.update(ssid);
    hasher.update(prs);
    hasher.update(ci);

    let generator = RistrettoPoint::from_hash(hasher);
    let priv_key = Scalar::random(rng);
    let cofactor = Scalar::ONE;
    let pub_key = generator * (priv_key * cofactor);
''', '''    let priv_key = random_scalar(rng);
    let hash = H1::<D>()
        .chain_update(ssid)
        .chain_update(prs)
        .chain_update(ci)
        .finalize();
    let generator = RistrettoPoint::from_uniform_bytes(&hash.into());
    let pub_key = priv_key * generator;
'''),
  (U, '''    let private = Scalar::random(rng);
    let public = RISTRETTO_BASEPOINT_POINT * (private * cofactor);
''', '''    let private = random_scalar(rng) * cofactor;
    let public = RistrettoPoint::mul_base(&private);
'''),
  (U, '''/// Generate a keypair (x, X) for the server''', '''/// A uniform scalar
pub fn random_scalar<CSPRNG: CryptoRngCore>(rng: &mut CSPRNG) -> Scalar {
    let mut wide = [0u8; 64];
    let (lo, hi) = wide.split_at_mut(32);
    rng.fill_bytes(lo);
    rng.fill_bytes(hi);
    Scalar::from_bytes_mod_order_wide(&wide)
}

/// Generate a keypair (x, X) for the server'''),
  (U, '''    let hash = pw_hash.hash.ok_or(Error::HashEmpty)?;
    let hash_bytes = hash.as_bytes();

    // support both 32 and 64 byte hashes
    match hash_bytes.len() {
        32 => {
            let arr = hash_bytes
                .try_into()
                .expect("slice length invariant broken");
            Ok(Scalar::from_bytes_mod_order(arr))
        }
        64 => {
            let arr = hash_bytes
                .try_into()
                .expect("slice length invariant broken");
            Ok(Scalar::from_bytes_mod_order_wide(arr))
        }
        _ => Err(Error::HashSizeInvalid),
    }
''', '''    let hash = match &pw_hash.hash {
        Some(h) => h,
        None => return Err(Error::HashEmpty),
    };
    // support both 32 and 64 byte hashes: 32 bytes are padded to 64
    let n = hash.len();
    if n != 32 && n != 64 {
        return Err(Error::HashSizeInvalid);
    }
    let mut wide = [0u8; 64];
    wide[..n].copy_from_slice(hash.as_bytes());
    Ok(Scalar::from_bytes_mod_order_wide(&wide))
'''))
r('r06-serde-visitors',
  (U, '''            SaltString::from_b64(v).map_err(Error::custom)
        }
''', '''            match SaltString::from_b64(v) {
                Ok(s) => Ok(s),
                Err(e) => Err(E::custom(format_args!("bad salt: {e}"))),
            }
        }

        fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E>
        where
            E: Error,
        {
            self.visit_str(v)
        }
'''),
  (U, '''            v.parse().map_err(Error::custom)
''', '''            <ParamsString as core::str::FromStr>::from_str(v).map_err(E::custom)
'''),
  (U, 'serializer.serialize_str(data.as_str())', 'serializer.serialize_str(data.as_str())'))
# --- AuCPace client
r('r07-client-hash-helper',
  (C, '''    if u + p + 1 > BUFSIZ {
        return Err(Error::UsernameOrPasswordTooLong);
    }

    let mut buf = [0u8; BUFSIZ];
    buf[0..u].copy_from_slice(user);
    buf[u] = b':';
    buf[(u + 1)..=(u + p)].copy_from_slice(pass);

    let hash = hasher
        .hash_password_customized(&buf[0..=(u + p)], None, None, params, salt)
        .map_err(Error::PasswordHashing);

    hash
''', '''    let total = u + 1 + p;
    if BUFSIZ < total {
        return Err(Error::UsernameOrPasswordTooLong);
    }

    let mut buf = [b':'; BUFSIZ];
    buf[..u].copy_from_slice(user);
    for (i, b) in pass.iter().enumerate() {
        buf[u + 1 + i] = *b;
    }

    let hash = hasher.hash_password_customized(&buf[..total], None, None, params, salt);
    Ok(hash?)
'''.replace('Ok(hash?)', 'hash.map_err(Error::PasswordHashing)')),
  (C, '''    let mut v = alloc::vec::Vec::with_capacity(user.len() + pass.len() + 1);
    v.extend_from_slice(user);
    v.push(b':');
    v.extend_from_slice(pass);

    hasher
        .hash_password_customized(v.as_slice(), None, None, params, salt)
        .map_err(Error::PasswordHashing)
''', '''    let v = [user, b":", pass].concat();
    match hasher.hash_password_customized(&v, None, None, params, salt) {
        Ok(h) => Ok(h),
        Err(e) => Err(Error::PasswordHashing(e)),
    }
'''))
r('r08-client-blinding',
  (C, '''        let blinding_value = loop {
            let val = Scalar::random(rng);
            if val != Scalar::ZERO {
                break val;
            }
        };
        let mut hasher: D = H1();
        hasher.update(username);
        hasher.update(password);
        let z = RistrettoPoint::from_hash(hasher);
        let cofactor = Scalar::ONE;
        let blinded = z * (blinding_value * cofactor);
''', '''        let z = RistrettoPoint::from_hash(
            H1::<D>().chain_update(username).chain_update(password),
        );
        let mut blinding_value = Scalar::ZERO;
        while blinding_value == Scalar::ZERO {
            blinding_value = Scalar::random(rng);
        }
        let blinded = blinding_value * z;
'''),
  (C, '''        // choose a random q
        let q = Scalar::random(rng);

        // compute z
        let mut hasher: D = H1();
        hasher.update(user);
        hasher.update(pass);
        let z = RistrettoPoint::from_hash(hasher);
''', '''        // compute z
        let mut hasher: D = H1();
        hasher.update(user);
        hasher.update(pass);
        let z = RistrettoPoint::from_hash(hasher);

        // choose a random q
        let q = Scalar::random(rng);
'''),
  (C, '''        let exponent = (self.blinding_value * cofactor * cofactor).invert() * cofactor;

        // check if the salt point is the neutral element
        let salt_point = blinded_salt * exponent;
        if salt_point.is_identity() {
            return Err(Error::IllegalPointError);
        }
''', '''        let exponent = self.blinding_value.invert();

        // check if the salt point is the neutral element
        if blinded_salt.is_identity() {
            return Err(Error::IllegalPointError);
        }
        let salt_point = exponent * blinded_salt;
'''))
r('r09-client-salt-late',
  (C, '''        let salt_string = SaltString::generate(&mut self.rng);

        // compute the verifier W
        let pw_hash = hash_password::''', '''        let mut raw = [0u8; Salt::RECOMMENDED_LENGTH];
        self.rng.fill_bytes(&mut raw);
        let salt_string = SaltString::encode_b64(&raw).map_err(Error::PasswordHashing)?;

        // compute the verifier W
        let pw_hash = hash_password::'''),
  (C, '''        // check for the identity point
        if x_pub.is_identity() {
            return Err(Error::IllegalPointError);
        }

        let cofactor = Scalar::ONE;
        let pw_hash = hash_password_alloc(''', '''        // check for the identity point
        if x_pub.compress().to_bytes() == [0u8; 32] {
            return Err(Error::IllegalPointError);
        }

        let cofactor = Scalar::ONE;
        let pw_hash = hash_password_alloc('''),
  (C, '''        let sk1 = compute_first_session_key::<D>(self.ssid, self.priv_key, server_pubkey);
        let (ta, tb) = compute_authenticator_messages::<D>(self.ssid, sk1);
        let next_step = AuCPaceClientExpMutAuth::new(self.ssid, sk1, ta);
        let message = ClientMessage::Authenticator(
            tb.as_slice()
                .try_into()
                .expect("array length invariant broken"),
        );
        Ok((next_step, message))
''', '''        let Self { ssid, priv_key } = self;
        let sk1 = compute_first_session_key::<D>(ssid, priv_key, server_pubkey);
        let (ta, tb) = compute_authenticator_messages::<D>(ssid, sk1);
        let mut auth = [0u8; 64];
        auth.copy_from_slice(&tb);
        Ok((
            AuCPaceClientExpMutAuth::new(ssid, sk1, ta),
            ClientMessage::Authenticator(auth),
        ))
'''),
  (C, '''        if self
            .server_authenticator
            .ct_eq(&server_authenticator)
            .into()
        {
            Ok(compute_session_key::<D>(self.ssid, self.sk1))
        } else {
            Err(Error::MutualAuthFail)
        }
''', '''        let same = server_authenticator.as_slice().ct_eq(&self.server_authenticator);
        match same.unwrap_u8() {
            1 => Ok(compute_session_key::<D>(self.ssid, self.sk1)),
            _ => Err(Error::MutualAuthFail),
        }
'''))
r('r10-client-ssid',
  (C, '''        // if the SSID isn't long enough return an error
        if ssid.as_ref().len() < MIN_SSID_LEN {
            return Err(Error::InsecureSsid);
        }

        // hash the SSID and begin the next step
        let mut hasher: D = H0();
        hasher.update(ssid);
        let ssid_hash = hasher.finalize();
        let next_step = AuCPaceClientPreAug::new(ssid_hash);
        Ok(next_step)
''', '''        let bytes = ssid.as_ref();
        (bytes.len() >= MIN_SSID_LEN)
            .then(|| {
                let mut hasher: D = H0();
                bytes.chunks(64).for_each(|c| hasher.update(c));
                AuCPaceClientPreAug::new(hasher.finalize())
            })
            .ok_or(Error::InsecureSsid)
'''),
  (U, '''    let mut hasher: D = H0();
    hasher.update(s);
    hasher.update(t);
    hasher.finalize()
''', '''    H0::<D>().chain_update(s).chain_update(t).finalize()
'''),
  (U, '''    let mut ta_hasher: D = H3();
    ta_hasher.update(ssid);
    ta_hasher.update(sk1);

    let mut tb_hasher: D = H4();
    tb_hasher.update(ssid);
    tb_hasher.update(sk1);

    (ta_hasher.finalize(), tb_hasher.finalize())
''', '''    let tail = |h: D| h.chain_update(&ssid).chain_update(&sk1).finalize();
    let tb = tail(H4());
    let ta = tail(H3());
    (ta, tb)
'''))
# --- SRP
r('r11-srp-premaster',
  (SC, '''        // (k * g^x)
        let base = (k * (self.params.g.modpow(x, &self.params.n))) % &self.params.n;
        // Because we do operation in modulo N we can get: b_pub > base. That's not good. So we add N to b_pub to make sure.
        // B - kg^x
        let base = ((&self.params.n + b_pub) - &base) % &self.params.n;
        let exp = (u * x) + a;
        // S = (B - kg^x) ^ (a + ux)
        // or
        // S = base ^ exp
        base.modpow(&exp, &self.params.n)
''', '''        let n = &self.params.n;
        let kv = k * self.compute_v(x) % n;
        let b = b_pub % n;
        let base = if b >= kv { b - kv } else { b + n - kv };
        let s = base.modpow(a, n) * base.modpow(&(u * x), n);
        s % n
'''),
  (SC, '''        let mut d = D::new();
        d.update(username);
        d.update(b":");
        d.update(password);
        d.finalize()
''', '''        D::digest([username, b":", password].concat())
'''),
  (SS, '''        let base = (a_pub * v.modpow(u, &self.params.n)) % &self.params.n;
        base.modpow(b, &self.params.n)
''', '''        let n = &self.params.n;
        let left = a_pub.modpow(b, n);
        let right = v.modpow(&(u * b), n);
        (left * right) % n
'''),
  (SS, '''        let inter = (k * v) % &self.params.n;
        (inter + self.params.g.modpow(b, &self.params.n)) % &self.params.n
''', '''        (self.params.g.modpow(b, &self.params.n) + k * v) % &self.params.n
'''))
r('r12-srp-reply-order',
  (SC, '''        let a = BigUint::from_bytes_be(a);
        let a_pub = self.compute_a_pub(&a);
        let b_pub = BigUint::from_bytes_be(b_pub);

        // Safeguard against malicious B
        if &b_pub % &self.params.n == BigUint::default() {
            return Err(SrpAuthError::IllegalParameter("b_pub".to_owned()));
        }

        let u = compute_u::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be());
        let k = compute_k::<D>(self.params);
        let identity_hash = Self::compute_identity_hash(username, password);
        let x = Self::compute_x(identity_hash.as_slice(), salt);

        let key = self.compute_premaster_secret(&b_pub, &k, &x, &a, &u);

        let m1 = compute_m1::<D>(
            &a_pub.to_bytes_be(),
            &b_pub.to_bytes_be(),
            &key.to_bytes_be(),
        );

        let m2 = compute_m2::<D>(&a_pub.to_bytes_be(), &m1, &key.to_bytes_be());

        Ok(SrpClientVerifier {
            m1,
            m2,
            key: key.to_bytes_be(),
        })
''', '''        let b_pub = BigUint::from_bytes_be(b_pub);
        // Safeguard against malicious B
        let reduced = &b_pub % &self.params.n;
        if reduced.bits() == 0 {
            return Err(SrpAuthError::IllegalParameter(String::from("b_pub")));
        }

        let x = Self::compute_x(&Self::compute_identity_hash(username, password), salt);
        let k = compute_k::<D>(self.params);
        let a = BigUint::from_bytes_be(a);
        let a_bytes = self.compute_a_pub(&a).to_bytes_be();
        let b_bytes = b_pub.to_bytes_be();
        let u = compute_u::<D>(&a_bytes, &b_bytes);

        let key = self
            .compute_premaster_secret(&reduced, &k, &x, &a, &u)
            .to_bytes_be();
        let m1 = compute_m1::<D>(&a_bytes, &b_bytes, &key);
        let m2 = compute_m2::<D>(&a_bytes, &m1, &key);
        Ok(SrpClientVerifier { key, m1, m2 })
'''),
  (SS, '''        let k = compute_k::<D>(self.params);
        let b_pub = self.compute_b_pub(&b, &k, &v);

        // Safeguard against malicious A
        if &a_pub % &self.params.n == BigUint::default() {
            return Err(SrpAuthError::IllegalParameter("a_pub".to_owned()));
        }
''', '''        // Safeguard against malicious A
        if (&a_pub % &self.params.n).to_bytes_be() == [0] {
            return Err(SrpAuthError::IllegalParameter("a_pub".into()));
        }

        let k = compute_k::<D>(self.params);
        let b_pub = self.compute_b_pub(&b, &k, &(&v % &self.params.n));
'''),
  (SS, '''        if self.m1.ct_eq(reply).unwrap_u8() == 1 {
            Ok(())
        } else {
            Err(SrpAuthError::BadRecordMac("client".to_owned()))
        }
''', '''        if reply.len() != self.m1.len() || !bool::from(reply.ct_eq(&self.m1)) {
            return Err(SrpAuthError::BadRecordMac("client".to_owned()));
        }
        Ok(())
'''),
  (SU, '''    let n = params.n.to_bytes_be();
    let g_bytes = params.g.to_bytes_be();
    let mut buf = vec![0u8; n.len()];
    let l = n.len() - g_bytes.len();
    buf[l..].copy_from_slice(&g_bytes);

    let mut d = D::new();
    d.update(&n);
    d.update(&buf);
    BigUint::from_bytes_be(d.finalize().as_slice())
''', '''    let n = params.n.to_bytes_be();
    let mut padded = params.g.to_bytes_le();
    padded.resize(n.len(), 0);
    padded.reverse();
    let d = D::new().chain_update(&n).chain_update(&padded);
    BigUint::from_bytes_be(&d.finalize())
'''))
# --- SPAKE2
r('r13-spake-finish',
  (L, '''        let msg_side = msg2[0];

        match self.side {
            Side::A { id_a: _, id_b: _ } => match msg_side {
                0x42 => (), // 'B'
                _ => return Err(Error::BadSide),
            },
            Side::B { id_a: _, id_b: _ } => match msg_side {
                0x41 => (), // 'A'
                _ => return Err(Error::BadSide),
            },
            Side::Symmetric { id_s: _ } => match msg_side {
                0x53 => (), // 'S'
                _ => return Err(Error::BadSide),
            },
        }

        let msg2_element = match G::bytes_to_element(&msg2[1..]) {
            Some(x) => x,
            None => return Err(Error::CorruptMessage),
        };
''', '''        let (expected, unblinding) = self.side.peer::<G>();
        let (msg_side, body) = (msg2[0], &msg2[1..]);
        if msg_side != expected {
            return Err(Error::BadSide);
        }
        let msg2_element = G::bytes_to_element(body).ok_or(Error::CorruptMessage)?;
'''),
  (L, '''        let unblinding = match self.side {
            Side::A { id_a: _, id_b: _ } => G::const_n(),
            Side::B { id_a: _, id_b: _ } => G::const_m(),
            Side::Symmetric { id_s: _ } => G::const_s(),
        };
''', ''),
  (L, '''/// SPAKE2 algorithm.
#[derive(Eq, PartialEq)]''', '''impl Side {
    fn peer<G: Group>(&self) -> (u8, G::Element) {
        match self {
            Self::A { .. } => (b'B', G::const_n()),
            Self::B { .. } => (b'A', G::const_m()),
            Self::Symmetric { .. } => (b'S', G::const_s()),
        }
    }
}

/// SPAKE2 algorithm.
#[derive(Eq, PartialEq)]'''),
  (L, '''                write!(fmt, "{byte:02x}")?;
''', '''                let (hi, lo) = (byte >> 4, byte & 15);
                write!(fmt, "{hi:x}{lo:x}")?;
'''))
r('r14-spake-transcripts',
  (E, '''    let mut transcript = [0u8; 6 * 32];

    let mut pw_hash = Sha256::new();
    pw_hash.update(password_vec);
    transcript[0..32].copy_from_slice(&pw_hash.finalize());

    let mut ida_hash = Sha256::new();
    ida_hash.update(id_a);
    transcript[32..64].copy_from_slice(&ida_hash.finalize());

    let mut idb_hash = Sha256::new();
    idb_hash.update(id_b);
    transcript[64..96].copy_from_slice(&idb_hash.finalize());

    transcript[96..128].copy_from_slice(first_msg);
    transcript[128..160].copy_from_slice(second_msg);
    transcript[160..192].copy_from_slice(key_bytes);

    //println!("transcript: {:?}", transcript.iter().to_hex());

    //let mut hash = G::TranscriptHash::default();
    let mut hash = Sha256::new();
    hash.update(transcript);
    hash.finalize().to_vec()
''', '''    let mut hash = Sha256::new();
    for part in [password_vec, id_a, id_b] {
        hash.update(Sha256::digest(part));
    }
    for part in [first_msg, second_msg, key_bytes] {
        hash.update(part);
    }
    hash.finalize().to_vec()
'''),
  (E, '''    if msg_u < msg_v {
        transcript[64..96].copy_from_slice(msg_u);
        transcript[96..128].copy_from_slice(msg_v);
    } else {
        transcript[64..96].copy_from_slice(msg_v);
        transcript[96..128].copy_from_slice(msg_u);
    }
''', '''    transcript[64..96].copy_from_slice(msg_u.min(msg_v));
    transcript[96..128].copy_from_slice(msg_u.max(msg_v));
'''),
  (E, '''    for (i, x) in okm.iter().enumerate().take(32 + 16) {
        reducible[32 + 16 - 1 - i] = *x;
    }
''', '''    okm.reverse();
    reducible[..48].copy_from_slice(&okm);
'''),
  (E, '''        let mut bytes = [0u8; 32];
        bytes.copy_from_slice(b);

        let cey = CompressedEdwardsY(bytes);
        cey.decompress()
''', '''        CompressedEdwardsY::from_slice(b).ok()?.decompress()
'''),
  (E, '''        c2_Scalar::random(cspring)
''', '''        let mut wide = [0u8; 64];
        cspring.fill_bytes(&mut wide);
        c2_Scalar::from_bytes_mod_order_wide(&wide)
'''),
  (E, '''        ED25519_BASEPOINT_POINT * s
''', '''        c2_Element::mul_base(s)
'''))
r('r15-spake-start',
  (L, '''        let mut password_vec = Vec::new();
        password_vec.extend_from_slice(password);

        let mut msg_and_side = vec![match side {
            Side::A { id_a: _, id_b: _ } => 0x41, // 'A'
            Side::B { id_a: _, id_b: _ } => 0x42, // 'B'
            Side::Symmetric { id_s: _ } => 0x53,  // 'S'
        }];
        msg_and_side.extend_from_slice(&msg1);
''', '''        let password_vec = password.to_vec();
        let letter = match &side {
            Side::A { .. } => b'A',
            Side::B { .. } => b'B',
            Side::Symmetric { .. } => b'S',
        };
        let mut msg_and_side = Vec::with_capacity(1 + msg1.len());
        msg_and_side.push(letter);
        msg_and_side.extend(msg1.iter().copied());
'''),
  (L, '''        let m1: G::Element = G::add(
            &G::basepoint_mult(&xy_scalar),
            &G::scalarmult(&blinding, &password_scalar),
        );
''', '''        let masked = G::scalarmult(&blinding, &password_scalar);
        let public = G::basepoint_mult(&xy_scalar);
        let m1: G::Element = G::add(&masked, &public);
'''))

def main():
    out = os.path.join(V, 'tools', 'refactors'); os.makedirs(out, exist_ok=True)
    only = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix='mkref')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
        subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
        for name, edits in R:
            if only and name not in only: continue
            for f, old, new in edits:
                p = f'{tmp}/r/{f}'; s = open(p).read()
                if old not in s: sys.exit(f'{name}: text not found in {f}:\n{old}')
                open(p, 'w').write(s.replace(old, new))
            d = subprocess.check_output(['git', '-C', tmp + '/r', 'diff'])
            open(f'{out}/{name}.patch', 'wb').write(d)
            subprocess.check_call(['git', '-C', tmp + '/r', 'checkout', '-q', '--', '.'])
            print(name, d.count(b'\n'))
    finally:
        shutil.rmtree(tmp)
main()
