#!/usr/bin/env python3
"""seed.py SPEC.py [ids...] : makes /verif/seeded/<id>/ from a spec list S of
dict(id, prop, edits=[(file, old, new)], needs, breaks, demo) after confirming it in a scratch copy of /repo."""
import sys, os, subprocess, json, shutil, importlib.util
R = '/tmp/seedrepo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **k)
DEMO = '''#!/bin/bash
# run with cwd at the repository root: builds demo.rs against it in a scratch folder and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$T/run"
cp "$D/demo.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nswrs = { path = "%s" }\\n[workspace]\\n' "$R" > "$T/Cargo.toml"
cd "$T" || exit 9
CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}" RUSTUP_TOOLCHAIN=stable cargo build --offline -q 2>"$T/log" || { cat "$T/log"; exit 8; }
cd "$T/run" && "${DEMO_TARGET:-$T/target}/debug/demo"
'''
spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = sys.argv[2:]
def passed(out): return sorted(l.split()[1] for l in out.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok'))
if not os.path.exists(R): subprocess.run(['cp', '-a', '/repo', R], check=True)
sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=R)
base = passed(sh('cargo test --workspace --no-fail-fast --offline', cwd=R).stdout)
print('baseline tests', len(base))
for s in m.S:
    if want and s['id'] not in want: continue
    sh('git checkout -q -- .', cwd=R)
    ok = True
    for f, old, new in s['edits']:
        p = f'{R}/src/{f}'; t = open(p).read()
        if t.count(old) != s.get('n', 1): print(s['id'], 'EDIT', f, 'matches', t.count(old)); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    d = f"/verif/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    diff = sh('git diff', cwd=R).stdout
    r = sh('cargo test --workspace --no-fail-fast --offline', cwd=R); got = passed(r.stdout)
    if got != base: print(s['id'], 'TESTS differ', len(got), r.stdout[-600:] if not got else sorted(set(base) - set(got))); shutil.rmtree(d); continue
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.rs', 'w').write('#![allow(unused)]\n' + s['demo'].strip() + '\n'); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    e = dict(cwd=R)
    b = sh(f'DEMO_TARGET=/tmp/seedtarget bash {d}/demo.sh', cwd=R)
    sh('git checkout -q -- .', cwd=R)
    a = sh(f'DEMO_TARGET=/tmp/seedtarget bash {d}/demo.sh', cwd=R)
    good = a.returncode == 0 and b.returncode not in (0, 8, 9)
    print(s['id'], 'OK' if good else 'BAD', 'clean', a.returncode, 'patched', b.returncode, '' if good else (a.stdout + b.stdout)[-800:])
    if not good: shutil.rmtree(d)
