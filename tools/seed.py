#!/usr/bin/env python3
"""Plants one bug: tools/seed.py SPEC.py  (SPEC defines id, prop, edits=[(file, old, new)], demo (Rust main.rs) or sh, needs, breaks).
Confirms on /repo that the edits touch original lines, build, keep the stable tests passing and make the demonstration fail,
then writes seeded/<id>/ and runs the property's check against it.  Always restores /repo."""
import sys, os, subprocess, json, re
BASE = '2b21bd6'
R = '/repo'; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **kw): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:] 
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/c/src"; cp "$d/demo.rs" "$t/c/src/main.rs"; cp "$repo/Cargo.lock" "$t/c/" 2>/dev/null
printf '[package]\\nname="demo"\\nversion="0.1.0"\\n[dependencies]\\ntomllib={path="%s"}\\n[workspace]\\n' "$repo" > "$t/c/Cargo.toml"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$t/t RUSTFLAGS="--cap-lints allow"
cd "$t/c" && timeout 280 cargo run -q --offline 2>"$t/err"; r=$?
grep -v warning "$t/err" | grep -A3 panicked | head -20
exit $r
'''
def check_one(s):
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout, 'repo dirty'
    try:
        for f, old, new in s['edits']:
            p = os.path.join(R, f); t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            ln = t[:t.index(old)].count('\n') + 1
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        # original lines?
        f = None; bad = []
        for l in sh('git -C /repo diff -U0').stdout.split('\n'):
            if l.startswith('--- a/'): f = l[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n == 0: bad.append('pure insertion at %d' % a); continue
                bl = sh('git -C /repo blame -s -L %d,%d HEAD -- %s' % (a, a + n - 1, f)).stdout
                bl0 = sh('git -C /repo blame -s -b -L %d,%d %s..HEAD -- %s' % (a, a + n - 1, BASE, f)).stdout
                for x in sh('git -C /repo blame -s -L %d,%d %s..HEAD -- %s' % (a, a + n - 1, BASE, f)).stdout.split('\n'):
                    if x and not x.startswith('^'): bad.append(x)
        if bad: print('NOT ORIGINAL:', bad)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        if 'demo' in s:
            open(os.path.join(d, 'demo.rs'), 'w').write('extern crate tomllib;\n' + s['demo'])
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        else: open(os.path.join(d, 'demo.sh'), 'w').write(s['sh'])
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print('BUILD FAILS', b.stdout[-2000:]); return
        sh('bash /opt/vp/test.sh /tmp/seed.json')
        base = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/seed.json'))
        bs = next(base[k] for k in ('stable', 'passed', 'tests', 'pass') if k in base)
        miss = set(bs) - set(o.get('passed') or o.get('pass') or [])
        r = sh('bash %s/demo.sh' % d, cwd=R)
        c = sh('./check.sh ' + s['prop'], cwd=V)
        print(s['id'], 'tests', 'OK' if not miss else 'FAIL %s' % sorted(miss)[:4], '| demo with patch', r.returncode, r.stdout.strip()[-200:], '| check', c.returncode, c.stdout.strip()[-300:])
    finally:
        sh('git -C /repo checkout -- .')
    r = sh('bash %s/demo.sh' % d, cwd=R)
    print(s['id'], 'demo without patch', r.returncode, r.stdout.strip()[-300:] if r.returncode else '')
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    try: check_one(s)
    except AssertionError as e: print(s['id'], 'ERROR', e)
sh('bash /opt/vp/build.sh')
