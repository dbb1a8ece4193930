#!/usr/bin/env python3
"""mkseed.py SPECS.py [ids]: makes /verif/seeded/<id>/ from specs and confirms each (build, stable tests, demo, checks).
SPECS.py defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)...], main=rust text | sh=demo text, files={}, feats=[...], also=[more checks])]."""
import subprocess, sys, os, json, importlib.util, shutil, re
R = '/verif/seeded'
spec = importlib.util.spec_from_file_location('m', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = [a for a in sys.argv[2:] if not a.startswith('-')]
nocheck = '--nocheck' in sys.argv
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
KIT = '/verif/tools/kit'
DEMO = '''#!/bin/bash
# Builds a small program against the library in the current directory and runs it.
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here"/*.rs "$t/src/"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dnssec-prover = { path = "$repo", default-features = false, features = [%s] }
ring = { version = "0.17", default-features = false, features = ["alloc"] }
%s
EOF
cp "$repo/Cargo.lock" "$t/" 2>/dev/null
RUSTFLAGS="--cfg dnssec_prover_mc -Awarnings" timeout 280 cargo run --offline -q --manifest-path "$t/Cargo.toml"
'''
assert sh('git -C /repo status --porcelain').stdout == '', 'dirty /repo'
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for s in m.SEEDS:
    if only and s['id'] not in only: continue
    d = f"{R}/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        ok = True
        for f, a, b in s['edits']:
            p = '/repo/' + f; t = open(p).read()
            if t.count(a) != 1: print('!!', s['id'], t.count(a), 'matches:', a[:80]); ok = False; break
            open(p, 'w').write(t.replace(a, b))
        if not ok: shutil.rmtree(d); continue
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if 'main' in s:
            feats = s.get('feats', ['validation', 'std'])
            open(d + '/demo.sh', 'w').write(DEMO % (', '.join('"%s"' % x for x in feats), s.get('deps', '')))
            main = 'mod wire;\nmod crypto;\nmod zone;\nmod kit;\nuse wire::*;\nuse crypto::*;\nuse zone::*;\nuse kit::*;\nuse dnssec_prover::rr::*;\n' if s.get('kit', True) else ''
            open(d + '/main.rs', 'w').write(main + s['main'].lstrip('\n'))
            if s.get('kit', True):
                for f in ('wire.rs', 'crypto.rs', 'zone.rs', 'kit.rs'): shutil.copy(f'{KIT}/{f}', d)
        else: open(d + '/demo.sh', 'w').write(s['sh'])
        for f, t in s.get('files', {}).items(): os.makedirs(os.path.dirname(f'{d}/{f}'), exist_ok=True); open(f'{d}/{f}', 'w').write(t)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print('!!', s['id'], 'build fails', b.stderr[-1500:]); continue
        sh('bash /opt/vp/test.sh /tmp/t.json')
        miss = base - set(json.load(open('/tmp/t.json'))['passed'])
        if miss: print('!!', s['id'], 'tests fail', miss); continue
        r = sh(f'bash {d}/demo.sh', cwd='/repo')
        print(f"{s['id']:24} demo with patch rc={r.returncode} {(r.stdout + r.stderr)[-160:].strip()!r}", flush=True)
        if not nocheck:
            for c in [s['prop']] + s.get('also', []):
                q = sh(f'bash check.sh {c} quick', cwd='/verif')
                v = [l for l in q.stdout.splitlines() if 'iolation' in l or 'BUILD' in l]
                print(f"{'':24} {c} rc={q.returncode} {(v[0][:170] if v else 'MISSED')}", flush=True)
    finally:
        sh('git -C /repo checkout -q -- .')
    r = sh(f'bash {d}/demo.sh', cwd='/repo')
    if r.returncode: print('!!', s['id'], 'demo fails on the unchanged tree', r.stdout[-500:], r.stderr[-1500:])
