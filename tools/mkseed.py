#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ out of tools/seeds.py and confirms each one in a scratch copy of /repo.

usage: mkseed.py [ID...]"""
import importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location('seeds', HERE + '/seeds.py')
seeds = importlib.util.module_from_spec(spec); spec.loader.exec_module(seeds)
OUT = os.path.join(HERE, '..', 'seeded')
SCR = '/tmp/seedrepo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR='/tmp/seedrepo/target')
ENV.pop('CARGO_TARGET_DIR')
DEMO = '''#!/bin/bash
# Runs demo.rs against the svgdom crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
svgdom = { path = "$repo" }
log = "0.4"
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
cd "$work" && RUSTFLAGS=-Awarnings cargo build --offline -q && timeout 60 "$work/target/debug/demo"
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable(cwd):
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd)
    open('/tmp/seedlog', 'w').write(r.stdout)
    sh('python3 /opt/vp/results.py /tmp/seedres.json cargo:/tmp/seedlog')
    d = json.load(open('/tmp/seedres.json'))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(base - set(d['passed'])), d
def main():
    want = sys.argv[1:]
    if os.path.isdir(SCR): shutil.rmtree(SCR)
    sh('cp -a /repo ' + SCR)
    bad = 0
    for sid, prop, edits, demo, needs, breaks in seeds.SEEDS:
        if want and sid not in want: continue
        sh('git checkout -q -- .', SCR)
        d = os.path.join(OUT, sid)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.rs', 'w').write(demo.lstrip())
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % os.path.abspath(d), SCR)
        for f, a, b in edits:
            p = SCR + '/' + f
            t = open(p).read()
            if t.count(a) != 1: print(sid, 'EDIT', f, t.count(a), repr(a[:50])); bad = 1; break
            open(p, 'w').write(t.replace(a, b))
        else:
            open(d + '/patch.diff', 'w').write(sh('git diff', SCR).stdout)
            sh('touch src/lib.rs', SCR)
            miss, res = stable(SCR)
            r1 = sh('bash %s/demo.sh' % os.path.abspath(d), SCR)
            ok = r0.returncode == 0 and r1.returncode not in (0, 3) and 'error' not in r1.stdout.split('panicked')[0] and not miss
            print(sid, prop, 'ok' if ok else 'BAD', 'demo', r0.returncode, r1.returncode, 'lost', len(miss), miss[:4], flush=True)
            if not ok:
                bad = 1; print(r0.stdout[-1500:], '\n---\n', r1.stdout[-1500:])
    shutil.rmtree(SCR)
    return bad
sys.exit(main())
