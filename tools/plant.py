#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from descriptions of planted bugs.

usage: plant.py FILE.py [id...]     FILE.py defines BUGS, a list of dicts:
  id, property, needs, breaks, edits [(file, old, new)], demo (Rust main.rs),
  features (of laps, default ["macros"]), release (bool)

Each bug is checked in a scratch copy of /repo (/tmp/sw): the patch applies,
the workspace builds, the stable tests pass, the demo passes without the
patch and fails with it. Only then the folder is written.
"""
import json, os, shutil, subprocess, sys, tempfile

SW = '/tmp/sw'
OUT = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# Runs in the root of the repository; builds demo.rs against it in a scratch
# folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src" && cp "$here/demo.rs" "$dir/src/main.rs" || exit 2
sed "s#@REPO@#$repo#g" "$here/manifest.in" > "$dir/Cargo.toml" || exit 2
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cd "$dir" || exit 2
export CARGO_TARGET_DIR="$dir/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cargo build --offline -q %(flag)s 2> build.log || { cat build.log; exit 1; }
timeout 100 ./target/%(prof)s/demo
'''
MANIFEST = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
laps = { path = "@REPO@"%(deffeat)s, features = [%(feats)s] }
laps_regex = { path = "@REPO@/laps_regex" }
'''

def sh(cmd, cwd=SW, **kw):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=SW + '/target')
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)

def stable():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []))

def tests():
    r = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8', timeout=600)
    ok = r.stdout.count(' ... ok')
    bad = [l for l in r.stdout.splitlines() if l.endswith('FAILED') or l.startswith('error')]
    return ok, bad, r.stdout

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    if not os.path.isdir(SW):
        subprocess.run(['cp', '-a', '/repo', SW], check=True)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        sh('git checkout -q -- .')
        tmp = tempfile.mkdtemp()
        feats = ', '.join('"%s"' % f for f in b.get('features', ['macros']))
        rel = b.get('release', False)
        open(tmp + '/demo.sh', 'w').write(DEMO_SH % dict(flag='--release' if rel else '', prof='release' if rel else 'debug'))
        open(tmp + '/manifest.in', 'w').write(MANIFEST % dict(feats=feats, deffeat='' if b.get('default', True) else ', default-features = false'))
        open(tmp + '/demo.rs', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(tmp + '/meta.json', 'w'), indent=2)
        d0 = sh('bash %s/demo.sh' % tmp)
        if d0.returncode != 0:
            print(b['id'], 'DEMO FAILS ON CLEAN', d0.stdout[-1500:]); continue
        bad = False
        for f, old, new in b['edits']:
            s = open(f'{SW}/{f}').read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT COUNT', f, s.count(old)); bad = True; break
            open(f'{SW}/{f}', 'w').write(s.replace(old, new))
        if bad: continue
        diff = sh('git diff').stdout
        ok, failed, log = tests()
        if ok < 36 or failed:
            print(b['id'], 'TESTS', ok, failed, log[-1500:]); continue
        r = sh('cargo check --workspace --offline && cargo check --workspace --all-features --benches --offline')
        if r.returncode:
            print(b['id'], 'BUILD', r.stdout[-800:]); continue
        d1 = sh('bash %s/demo.sh' % tmp)
        if d1.returncode == 0:
            print(b['id'], 'DEMO PASSES WITH PATCH'); continue
        open(tmp + '/patch.diff', 'w').write(diff)
        dst = f"{OUT}/{b['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(tmp, dst)
        os.chmod(dst, 0o755)
        shutil.rmtree(tmp)
        print(b['id'], 'OK', d1.returncode, d1.stdout.strip().splitlines()[-1:] )
        sys.stdout.flush()
    sh('git checkout -q -- .')

main()
