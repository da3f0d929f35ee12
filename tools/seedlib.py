"""Writes /verif/seeded/<id>/ from the definitions in mkseeds.py (authoring tool, not used by any check)."""
import os, json, shutil, subprocess, textwrap

REPO = '/repo'
OUT = '/verif/seeded'

DEMO = '''#!/bin/bash
# Run with cwd = the repository, after its build.  Exit 0: the property holds on these inputs.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
rm -rf /tmp/pakedemo_@ID@
mkdir -p /tmp/pakedemo_@ID@/src
cp "$HERE"/*.rs /tmp/pakedemo_@ID@/src/
cp "$REPO/Cargo.lock" /tmp/pakedemo_@ID@/Cargo.lock
cat > /tmp/pakedemo_@ID@/Cargo.toml <<EOF
@TOML@
EOF
cd /tmp/pakedemo_@ID@ || exit 2
export CARGO_TARGET_DIR=/tmp/pakedemo_@ID@/target
cargo build --offline -q @PROFILE@ > build.log 2>&1 || { cat build.log; rm -rf /tmp/pakedemo_@ID@; exit 2; }
timeout 250 ./target/@PDIR@/demo
RC=$?
cd /
rm -rf /tmp/pakedemo_@ID@
exit $RC
'''

TOML = {
'srp': '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
srp = { path = "$REPO/srp" }
sha1 = "0.10"
sha2 = "0.10"
num-bigint = "0.4"
[profile.dev]
opt-level = 2''',
'spake2': '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
spake2 = { path = "$REPO/spake2"@STD@ }
sha2 = "0.10"
hkdf = "0.12"
rand_core = { version = "0.6", features = ["getrandom"] }
curve25519-dalek = { version = "4", features = ["digest", "rand_core"] }
[profile.dev]
opt-level = 2''',
'aucpace': '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
aucpace = { path = "$REPO/aucpace", features = [@FEATS@] }
sha2 = "0.10"
scrypt = { version = "0.11", default-features = false, features = ["simple"] }
password-hash = { version = "0.5", features = ["rand_core"] }
bincode = "1"
rand_core = { version = "0.6", features = ["getrandom"] }
curve25519-dalek = { version = "4", features = ["digest", "rand_core"] }
[profile.dev]
opt-level = 2''',
}

def make(seed, feats='"alloc", "serde", "partial_augmentation", "strong_aucpace"'):
    sid = seed['id']
    d = f'{OUT}/{sid}'
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    work = f'/tmp/seedgen/{sid}'
    shutil.rmtree('/tmp/seedgen', ignore_errors=True)
    patch = ''
    for f in sorted({e[0] for e in seed['edits']}):
        src = open(f'{REPO}/{f}').read()
        new = src
        for (ff, old, rep, *n) in seed['edits']:
            if ff != f:
                continue
            want = n[0] if n else 1
            assert new.count(old) == want, (sid, f, new.count(old), old)
            new = new.replace(old, rep)
        for side, txt in (('a', src), ('b', new)):
            p = f'/tmp/seedgen/{side}/{f}'
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(txt)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', f'a/{f}', f'b/{f}'], cwd='/tmp/seedgen', capture_output=True, text=True)
        patch += r.stdout
    open(f'{d}/patch.diff', 'w').write(patch)
    shutil.rmtree('/tmp/seedgen', ignore_errors=True)
    toml = TOML[seed['crate']].replace('@FEATS@', seed.get('feats', feats))
    toml = toml.replace('@STD@', ', features = ["std"]' if seed.get('feats') == 'std' else '')
    demo = DEMO.replace('@TOML@', toml).replace('@ID@', sid).replace('@PROFILE@', '').replace('@PDIR@', 'debug')
    open(f'{d}/demo.sh', 'w').write(demo)
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/main.rs', 'w').write(seed['main'].lstrip('\n'))
    if seed['crate'] == 'aucpace' and 'mod auc;' in seed['main']:
        shutil.copy('/verif/tools/seed_auc.rs', f'{d}/auc.rs')
    json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']},
              open(f'{d}/meta.json', 'w'), indent=1)
