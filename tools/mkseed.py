#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/seeds.py: edits /repo's files, takes the diff, restores them.
usage: mkseed.py [id ...]      (--verify: also build, run the baseline tests and the demo, with and without)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); R = '/repo'
sys.path.insert(0, HERE)
import seeds
LIB = os.path.join(HERE, 'seedlib')
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def restore(): sh('git', '-C', R, 'checkout', '--', '.')
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    verify = '--verify' in sys.argv
    bad = []
    for s in seeds.SEEDS:
        if ids and s['id'] not in ids: continue
        d = os.path.join(V, 'seeded', s['id'])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        assert not sh('git', '-C', R, 'status', '--short').stdout.strip()
        try:
            for f, o, n in s['edits']:
                p = os.path.join(R, f); t = open(p).read()
                if t.count(o) != 1: raise SystemExit(f"{s['id']}: {t.count(o)} matches of {o!r} in {f}")
                open(p, 'w').write(t.replace(o, n))
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git', '-C', R, 'diff').stdout)
        finally: restore()
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        lib = s.get('lib', 'js')
        if lib == 'js':
            for f in ('Cargo.toml', 'Cargo.lock', 'main.rs', 'lib.js', 'demo.sh'): shutil.copy(os.path.join(LIB, f), d)
            open(os.path.join(d, 'check.js'), 'w').write("const { instrument, run, text, assert } = require('./lib.js');\n" + s['check'].strip() + '\n')
        else:
            for f in os.listdir(os.path.join(LIB, lib)): shutil.copy(os.path.join(LIB, lib, f), d)
            open(os.path.join(d, 'main.rs'), 'w').write(s['check'].strip() + '\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        if not verify: print(s['id'], 'written'); continue
        r0 = sh('bash', os.path.join(d, 'demo.sh'), cwd=R)
        base = {x for x in json.load(open('/opt/vp/BASELINE.json')).get('passed', [])} or None
        try:
            a = sh('git', '-C', R, 'apply', os.path.join(d, 'patch.diff'))
            b = sh('bash', '/opt/vp/build.sh')
            t = sh('bash', '/opt/vp/test.sh', '/tmp/seedtest.json')
            res = json.load(open('/tmp/seedtest.json'))
            r1 = sh('bash', os.path.join(d, 'demo.sh'), cwd=R)
        finally: restore()
        npass = len(res.get('passed', res.get('pass', [])) or []); nf = len(res.get('failed', res.get('fail', [])) or [])
        ok = r0.returncode == 0 and a.returncode == 0 and b.returncode == 0 and r1.returncode in (1, 101) and nf == 0 and npass >= 31
        print(s['id'], 'OK' if ok else 'BAD', f'demo clean={r0.returncode} patched={r1.returncode} build={b.returncode} tests={npass}/{nf}', flush=True)
        if not ok: bad.append(s['id']); print((r0.stderr[-600:], r1.stderr[-300:], a.stderr[-200:], b.stdout[-300:] if b.returncode else ''))
    if verify: sh('bash', '/opt/vp/build.sh')
    sys.exit(bool(bad))
main()
