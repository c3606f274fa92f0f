#!/usr/bin/env python3
"""mkplant.py SPEC.py: writes seeded/<id>/ folders from BUGS, a list of dicts(id, prop, needs, breaks, edits=[(file, old, new)], main=rust source of the demonstration)."""
import sys, os, subprocess, json, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: holds; nonzero: broken. Run with cwd = the repository.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp -r src README.md "$W/"; cd "$W"
for m in fjc frc efjc efrc; do f=src/physics/single_chain/$m/thermodynamics/isometric/mod.rs; [ -f $f ] && sed -i 's/^pub mod monte_carlo;/pub mod monte_carlo {}/' $f; done
sed -i 's/^mod buche/pub mod buche/' src/constitutive/*/mod.rs
rustc -O --edition 2021 -Awarnings --crate-name polymers --crate-type rlib @CFG@ src/lib.rs || exit 3
rustc -O --edition 2021 -Awarnings --extern polymers=libpolymers.rlib "$H/main.rs" -o main || exit 3
timeout 250 ./main
'''
W = '/tmp/mk/repo'
for b in runpy.run_path(sys.argv[1])['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
    subprocess.run(f'rm -rf /tmp/mk; mkdir -p /tmp/mk; git -C /repo worktree prune; git clone -q /repo {W}', shell=True, check=True)
    for f, old, new in b['edits']:
        p = os.path.join(W, f); s = open(p, newline='').read(); crlf = '\r\n' in s
        if crlf: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        n = b.get('nth', 0)
        if s.count(old) != 1 and 'nth' not in b: sys.exit(f"{b['id']}: {s.count(old)} matches in {f}: {old[:60]}")
        parts = s.split(old)
        s = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
        open(p, 'w', newline='').write(s)
    d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', W, 'diff'], capture_output=True).stdout)
    open(d + '/demo.sh', 'w').write(b.get('demo', DEMO).replace('@CFG@', b.get('cfg', '')))
    os.chmod(d + '/demo.sh', 0o755)
    for name, text in b.get('files', {'main.rs': b.get('main')}).items(): open(os.path.join(d, name), 'w').write(text)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('made', b['id'])
