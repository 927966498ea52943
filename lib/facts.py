"""Builds (when stale) and loads the MIR facts of /repo's current working tree."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FTML_REPO', '/repo')
BUILD = os.environ.get('FTML_BUILD', os.path.join(ROOT, 'build'))


def env():
    e = dict(os.environ)
    e['HOME'] = e.get('HOME') or '/root'
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN',
              'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def files():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    for f in ('Cargo.toml', 'build.rs', 'Cargo.lock'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    for d in ('driver/src',):
        for f in sorted(os.listdir(os.path.join(ROOT, d))):
            out.append(os.path.join(ROOT, d, f))
    return out


def digest():
    h = hashlib.sha256()
    for f in files():
        h.update(f.encode())
        with open(f, 'rb') as x:
            h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()


def run(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit('facts: %s failed (%d)' % (what, r.returncode))
    return r.stdout


def build_driver(e):
    tgt = os.path.join(BUILD, 'driver')
    e2 = dict(e, CARGO_TARGET_DIR=tgt)
    run(['cargo', '+nightly', 'build', '--offline'], os.path.join(ROOT, 'driver'), e2, 'driver build')
    return os.path.join(tgt, 'debug', 'ftml-facts')


def prepare_shadow():
    """A workspace around /repo/src that lets the nightly compiler build the same dependencies."""
    pc = os.path.join(BUILD, 'parcel_css')
    if not os.path.exists(os.path.join(pc, '.ok')):
        shutil.rmtree(pc, ignore_errors=True)
        base = os.path.expanduser('/root/.cargo/registry/src')
        src = None
        for d in os.listdir(base):
            p = os.path.join(base, d, 'parcel_css-1.0.0-alpha.32')
            if os.path.isdir(p):
                src = p
        shutil.copytree(src, pc)
        f = os.path.join(pc, 'src/properties/mod.rs')
        s = open(f).read()
        s = s.replace('\nuse custom::*;', '\nuse custom::*;\nuse cssparser::Token;', 1)
        open(f, 'w').write(s)
        open(os.path.join(pc, '.ok'), 'w').close()
    sh = os.path.join(BUILD, 'shadow')
    os.makedirs(sh, exist_ok=True)
    toml = open(os.path.join(REPO, 'Cargo.toml')).read()
    toml += '\n[patch.crates-io]\nparcel_css = { path = "../parcel_css" }\n'
    if '[workspace]' not in toml:
        toml += '\n[workspace]\n'
    put(os.path.join(sh, 'Cargo.toml'), toml)
    put(os.path.join(sh, 'build.rs'), open(os.path.join(REPO, 'build.rs')).read()) if os.path.exists(
        os.path.join(REPO, 'build.rs')) else None
    lock = os.path.join(REPO, 'Cargo.lock')
    if not os.path.exists(lock):
        lock = '/opt/vp/Cargo.lock'
    if not os.path.exists(os.path.join(sh, 'Cargo.lock')):
        shutil.copy(lock, os.path.join(sh, 'Cargo.lock'))
    for extra in ('conf', 'README.md', 'src'):
        l = os.path.join(sh, extra)
        if os.path.islink(l) or os.path.exists(l):
            if os.path.islink(l) and os.readlink(l) == os.path.join(REPO, extra):
                continue
            os.remove(l)
        if os.path.exists(os.path.join(REPO, extra)):
            os.symlink(os.path.join(REPO, extra), l)
    return sh


def put(p, s):
    if os.path.exists(p) and open(p).read() == s:
        return
    open(p, 'w').write(s)


def ensure():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = digest()
        out = os.path.join(BUILD, 'facts.json')
        stamp = os.path.join(BUILD, 'facts.digest')
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == d:
            return out
        if os.path.exists(stamp):
            os.remove(stamp)
        e = env()
        drv = build_driver(e)
        sh = prepare_shadow()
        sysroot = run(['rustc', '+nightly', '--print', 'sysroot'], ROOT, e, 'sysroot').strip().split('\n')[-1]
        e2 = dict(e)
        e2['LD_LIBRARY_PATH'] = os.path.join(sysroot, 'lib')
        e2['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'target')
        e2['RUSTC_WORKSPACE_WRAPPER'] = drv
        tmp = out + '.new'
        if os.path.exists(tmp):
            os.remove(tmp)
        e2['FTML_FACTS_OUT'] = tmp
        # force the crate itself to be checked again
        fp = os.path.join(BUILD, 'target', 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith('ftml-'):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        run(['cargo', '+nightly', 'check', '--lib', '--offline', '--all-features'], sh, e2, 'fact extraction')
        if not os.path.exists(tmp):
            raise SystemExit('facts: extractor wrote nothing')
        os.replace(tmp, out)
        open(stamp, 'w').write(d)
        return out


def load():
    import mir
    return mir.Program(json.load(open(ensure())))
