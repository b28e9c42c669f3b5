#!/usr/bin/env python3
"""Write and try the planted bugs.

  plant.py gen            write /verif/seeded/<id>/ for every bug below
  plant.py try [ID...]    confirm each in a scratch copy of /repo: applies, builds,
                          passes the tests, demo passes without it and fails with it
  plant.py catch [ID...]  apply each to /repo, run the check of its property (and those
                          named after '+'), undo, and print which of them raised it
"""
import json, os, subprocess, sys, tempfile, shutil, pathlib
HERE = pathlib.Path(__file__).resolve().parent
SEEDED = HERE.parent / 'seeded'
sys.path.insert(0, str(HERE))
from planted import BUGS, PRELUDE, WASM_PRELUDE

DEMO = '''#!/bin/bash
# Runs main.rs, which lies beside this file, against the crate in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
sed "s|REPO_DIR|$repo|g" "$here/main.rs" > "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
rcgal = { path = "$repo" }

[profile.dev]
debug = false

[workspace]
TOML
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target"
cargo build --offline -q 2> build.log || { cat build.log; exit 2; }
timeout 120 ./target/debug/demo
'''


WASM_DEMO = '''#!/bin/bash
# Builds the crate in the current directory for WebAssembly and asks it, by main.mjs
# beside this file, under node.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
export CARGO_TARGET_DIR="$work/target"
RUSTFLAGS= RUSTUP_TOOLCHAIN=1.98.0 cargo build --release --lib --target wasm32-unknown-unknown --offline --locked \
  > "$work/log" 2>&1 || { cat "$work/log"; exit 2; }
timeout 120 node "$here/main.mjs" "$work/target/wasm32-unknown-unknown/release/rcgal.wasm"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def gen():
    base = tempfile.mkdtemp()
    try:
        sh(f'git clone -q /repo {base}/r')
        for b in BUGS:
            d = SEEDED / b['id']
            d.mkdir(parents=True, exist_ok=True)
            for f, old, new in b['edits']:
                p = pathlib.Path(base, 'r', f)
                s = p.read_text()
                n = s.count(old)
                if n != 1:
                    sys.exit(f"{b['id']}: {n} occurrences in {f} of\n{old}")
                p.write_text(s.replace(old, new))
            diff = sh('git diff', cwd=f'{base}/r').stdout
            (d / 'patch.diff').write_text(diff)
            sh('git checkout -q -- .', cwd=f'{base}/r')
            (d / 'demo.sh').write_text(WASM_DEMO if b.get('wasm') else DEMO)
            os.chmod(d / 'demo.sh', 0o755)
            if b.get('wasm'):
                (d / 'main.mjs').write_text(WASM_PRELUDE + b['demo'].lstrip('\n'))
            else:
                (d / 'main.rs').write_text((PRELUDE if b.get('prelude', True) else '') + b['demo'].lstrip('\n'))
            (d / 'meta.json').write_text(json.dumps({
                'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1) + '\n')
            # Must change original lines, not only mine.
            mine = 0
            for f in {e[0] for e in b['edits']}:
                blame = sh(f'git blame -s {f}', cwd='/repo').stdout.splitlines()
                cur = None
                for l in diff.splitlines():
                    if l.startswith('--- '):
                        cur = l[6:]
                    elif l.startswith('@@'):
                        n = int(l.split('-')[1].split(',')[0].split(' ')[0])
                    elif cur == f and l.startswith('-'):
                        mine += not blame[n - 1].startswith('^')
                        if blame[n - 1].startswith('^'):
                            mine -= 1000
                        n += 1
                    elif cur == f and l.startswith(' '):
                        n += 1
            if mine >= 0:
                print('WARNING', b['id'], 'changes no original line')
    finally:
        shutil.rmtree(base)


def try_(ids):
    work = tempfile.mkdtemp()
    try:
        sh(f'cp -a /repo {work}/repo')
        r = f'{work}/repo'
        for b in BUGS:
            if ids and b['id'] not in ids:
                continue
            d = SEEDED / b['id']
            clean = sh(f'bash {d}/demo.sh', cwd=r)
            a = sh(f'git apply {d}/patch.diff', cwd=r)
            t = sh('timeout 300 cargo test --offline -q 2>&1', cwd=r)
            pat = sh(f'bash {d}/demo.sh', cwd=r)
            sh('git checkout -q -- .', cwd=r)
            ok = clean.returncode == 0 and a.returncode == 0 and t.returncode == 0 and pat.returncode not in (0, 2)
            print('ok  ' if ok else 'BAD ', b['id'], b['property'], 'clean', clean.returncode, 'apply', a.returncode,
                  'tests', t.returncode, 'patched', pat.returncode, flush=True)
            if clean.returncode or a.returncode:
                print('   ', (clean.stdout + clean.stderr + a.stderr)[-600:])
            if t.returncode:
                print('   ', '\n'.join(l for l in t.stdout.splitlines() if 'panicked' in l or 'FAILED' in l or 'error' in l)[:400])
    finally:
        shutil.rmtree(work)


def catch(ids):
    extra = [i[1:] for i in ids if i.startswith('+')]
    ids = [i for i in ids if not i.startswith('+')]
    for b in BUGS:
        if ids and b['id'] not in ids:
            continue
        d = SEEDED / b['id']
        a = sh(f'git -C /repo apply {d}/patch.diff')
        if a.returncode:
            print('BAD', b['id'], a.stderr)
            continue
        try:
            res = []
            props = [b['property']] + b.get('also', []) + extra
            if 'all' in props:
                props = [p['id'] for p in map(json.loads, open(HERE.parent / 'properties.jsonl'))]
            for p in props:
                c = sh(f'VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh {p}', cwd=HERE.parent)
                hit = f'VIOLATION property={p} ' in c.stdout + '\n'
                res.append((p, 'CAUGHT' if hit and c.returncode == 1 else f'quiet({c.returncode})'))
            print(b['id'], ' '.join(f'{p}:{r}' for p, r in res if len(props) < 9 or r == 'CAUGHT'), flush=True)
        finally:
            sh('git -C /repo checkout -- .')


if __name__ == '__main__':
    {'gen': lambda a: gen(), 'try': try_, 'catch': catch}[sys.argv[1]](sys.argv[2:])
