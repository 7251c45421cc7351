#!/usr/bin/env python3
"""Builds the MIR extraction driver and runs it over /repo's working tree.

Output: <out>/{istanbul_oxide,swc_coverage_instrument,swc_plugin_coverage}.json
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CRATES = ['istanbul_oxide', 'swc_coverage_instrument', 'swc_plugin_coverage']
PKGS = ['istanbul-oxide', 'swc-coverage-instrument', 'swc-plugin-coverage']


class ExtractError(Exception):
    pass


def env():
    e = dict(os.environ)
    cargo = None
    for c in (e.get('CARGO_HOME'), '/root/.cargo', os.path.expanduser('~/.cargo')):
        if c and os.path.exists(os.path.join(c, 'bin', 'cargo')):
            cargo = c
            break
    if cargo:
        e['PATH'] = os.path.join(cargo, 'bin') + ':' + e.get('PATH', '')
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC'):
        e.pop(k, None)
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'mirx-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    r = sh(['rustc', '-O', '--edition', '2021', src, '-o', tmp], env=env(), cwd=BUILD)
    if r.returncode != 0:
        raise ExtractError('driver does not build:\n' + r.stdout[-3000:])
    os.rename(tmp, exe)
    return exe


def tree_key():
    """Key of everything the extraction depends on in /repo (content, not mtimes)."""
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', 'node_modules', '.git', '.build'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')) or f == 'rust-toolchain':
                files.append(os.path.join(root, f))
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        h.update(open(f, 'rb').read() + b'\0')
    h.update(open(os.path.join(VERIF, 'driver', 'main.rs'), 'rb').read())
    return h.hexdigest()[:24]


def extract():
    """Returns the directory with the JSON dumps for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_key()
        out = os.path.join(BUILD, 'mir', key)
        if all(os.path.exists(os.path.join(out, c + '.json')) for c in CRATES):
            return out
        exe = build_driver()
        e = env()
        sysroot = sh(['rustc', '--print', 'sysroot'], env=e).stdout.strip()
        tgt = os.path.join(BUILD, 'target')
        for p in PKGS:
            # both layouts of cargo's build directory; the packages' units, build scripts included, are made stale
            for d in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', p + '-*')) + \
                    glob.glob(os.path.join(tgt, 'debug', 'build', p, '*', 'fingerprint')):
                shutil.rmtree(d, ignore_errors=True)
        tmp = out + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e['MIRX_OUT'] = tmp
        e['RUSTC_WORKSPACE_WRAPPER'] = exe
        e['LD_LIBRARY_PATH'] = os.path.join(sysroot, 'lib')
        e['CARGO_TARGET_DIR'] = tgt
        e['CARGO_INCREMENTAL'] = '0'
        e['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
        e['CARGO_PROFILE_DEV_OVERFLOW_CHECKS'] = 'false'
        e['CARGO_PROFILE_DEV_DEBUG'] = '0'
        cst = os.path.join(REPO, 'spec', 'util', 'constants.ts')
        before = open(cst, 'rb').read() if os.path.exists(cst) else None
        cmd = ['cargo', 'check', '--offline', '--locked', '--lib']
        for p in PKGS:
            cmd += ['-p', p]
        r = sh(cmd, env=e, cwd=REPO)
        if before is not None and open(cst, 'rb').read() != before:
            open(cst, 'wb').write(before)
        if r.returncode != 0:
            shutil.rmtree(tmp, ignore_errors=True)
            raise ExtractError('cargo check failed:\n' + r.stdout[-4000:])
        missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + '.json'))]
        if missing:
            shutil.rmtree(tmp, ignore_errors=True)
            raise ExtractError('no dump for ' + ', '.join(missing) + '\n' + r.stdout[-2000:])
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # keep only the most recent dumps
        dumps = sorted(glob.glob(os.path.join(BUILD, 'mir', '*')), key=os.path.getmtime)
        for d in dumps[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        return out


if __name__ == '__main__':
    t = time.time()
    try:
        print(extract(), '%.1fs' % (time.time() - t))
    except ExtractError as ex:
        print('extract failed:', ex)
        sys.exit(1)
