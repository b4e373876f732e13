#!/usr/bin/env python3
"""Write and confirm the planted changes of tools/seeds.py.

  seed.py [NAME-SUBSTRING]     generate seeded/<id>/ and confirm it: applies, builds,
                               stable tests pass, demo 0 without and nonzero with it
  seed.py --check [SUBSTRING]  also run this property's check against each
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds

DEMO = r'''#!/bin/bash
# Run with cwd = the repository. Builds the program beside this script against
# the crates there and runs it: exit 0 if the property held.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" && cp "$repo/Cargo.lock" "$work/Cargo.lock" || exit 2
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
bsp-server = { path = "$repo/bsp-server" }
bsp-types = { path = "$repo/bsp-types" }
serde = "1"
serde_json = "1"
anyhow = "1"
crossbeam-channel = "0.5"
[profile.dev]
debug = false
[workspace]
TOML
export CARGO_TARGET_DIR="$work/target"
cargo build --quiet --offline --manifest-path "$work/Cargo.toml" 2> "$work/build.log" || { tail -40 "$work/build.log" >&2; exit 3; }
timeout 60 "$work/target/debug/demo"
'''

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, shell=True, env=e, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr

STABLE = json.load(open('/opt/vp/BASELINE.json'))

def one(job):
    s, slot = job
    out = []
    d = f'{VERIF}/seeded/{s["id"]}'
    w = f'/tmp/w/seed{slot}'
    repo = f'{w}/repo'
    os.makedirs(w, exist_ok=True)
    shutil.rmtree(repo, ignore_errors=True)
    sh(f'git clone -q /repo {repo}', '/tmp')
    for f, old, new in s['edits']:
        p = f'{repo}/{f}'
        t = open(p).read()
        if callable(old):
            t2 = old(t)
            if t2 == t:
                return s['id'], f'EDIT WITHOUT EFFECT in {f}'
            open(p, 'w').write(t2)
            continue
        if t.count(old) < 1:
            return s['id'], f'EDIT NOT FOUND in {f}: {old[:60]!r}'
        if t.count(old) > 1 and not s.get('first'):
            return s['id'], f'EDIT AMBIGUOUS in {f}: {old[:60]!r} x{t.count(old)}'
        open(p, 'w').write(t.replace(old, new, 1))
    rc, diff = sh('git diff', repo)
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.rs', 'w').write(s['demo'])
    open(f'{d}/demo.sh', 'w').write(DEMO); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']},
              open(f'{d}/meta.json', 'w'), indent=1)
    env = {'RUSTUP_TOOLCHAIN': 'stable', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TARGET_DIR': f'{w}/target'}
    rc, o = sh('cp Cargo.lock /tmp/w/seed%d/Cargo.lock && cargo test --workspace --lib --offline --config \'resolver.lockfile-path="%s/Cargo.lock"\'' % (slot, w), repo, env)
    passed = len(re.findall(r'^test .* \.\.\. ok$', o, re.M)); failed = re.findall(r'^test (.*) \.\.\. FAILED$', o, re.M)
    if 'error' in o and passed == 0:
        return s['id'], 'DOES NOT BUILD\n' + o[-700:]
    if rc or failed or passed < 14:
        return s['id'], f'TESTS rc={rc} passed={passed} failed={failed}\n' + o[-700:]
    rc1, o1 = sh(f'bash {d}/demo.sh', repo)
    sh('git checkout -q -- .', repo)
    rc0, o0 = sh(f'bash {d}/demo.sh', repo)
    if rc0 != 0: return s['id'], f'DEMO FAILS UNCHANGED rc={rc0}\n' + o0[-800:]
    if rc1 == 0: return s['id'], 'DEMO PASSES PATCHED'
    if rc1 == 3 and not s.get('witness'): return s['id'], 'DEMO DOES NOT BUILD PATCHED\n' + o1[-800:]
    line = f'ok (patched rc={rc1}: {o1.strip().splitlines()[-1][:110] if o1.strip() else ""})'
    if '--check' in sys.argv:
        sh(f'git apply {d}/patch.diff', repo)
        props = [c['id'] for c in json.load(open(f'{VERIF}/MANIFEST.json'))['properties']] if '--all' in sys.argv else [s['property']]
        hits = []
        for pid in props:
            rc, o = sh(f'python3 {VERIF}/check.py {pid}', VERIF, {'BSP_REPO': repo, 'BSP_EVIDENCE': f'{w}/ev', 'BSP_BUILD': f'{w}/build'})
            if rc == 1: hits.append(pid)
            elif rc: hits.append(f'{pid}:rc{rc}')
        line += f'  CAUGHT by {" ".join(hits)}' if s['property'] in hits else f'  MISSED ({" ".join(hits)})'
    return s['id'], line

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    sel = [s for s in seeds.SEEDS if not args or any(a in s['id'] for a in args)]
    n = int(os.environ.get('WORKERS', '6'))
    import queue
    slots = queue.Queue()
    for i in range(n): slots.put(i)
    def run(s):
        k = slots.get()
        try: return one((s, k))
        finally: slots.put(k)
    with ThreadPoolExecutor(n) as ex:
        for i, line in ex.map(run, sel):
            print(f'{i:34} {line}', flush=True)
main()
