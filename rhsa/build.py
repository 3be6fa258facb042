"""Compile the current /repo working tree with the mirdump driver and load the dump.

Nothing of /repo is executed apart from its own proc-macros (which every compilation runs);
the driver writes the type-checked MIR of every workspace crate as JSON, and only that is analysed.
"""
import os, shutil, subprocess, sys, tempfile, hashlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RHSA_REPO', '/repo')
EXPECTED = {'invader', 'ringhopper', 'ringhopper_definitions', 'ringhopper_engines', 'ringhopper_primitives',
            'ringhopper_structs', 'ringhopper_structs_codegen', 'ringhopper_engines_codegen'}


class BuildFailure(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e.setdefault('CARGO_HOME', '/root/.cargo')
    for k in ('CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN',
              'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    p = e.get('PATH', '')
    if '/root/.cargo/bin' not in p:
        e['PATH'] = p + ':/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin'
    return e


def _sysroot(env):
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True, env=env).strip()


def driver(env):
    """Path of the built driver (built on demand; a two-second build)."""
    src = os.path.join(HERE, 'driver')
    out = os.path.join(src, 'target', 'debug', 'mirdump')
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in ('src/main.rs', 'Cargo.toml'))
    if os.path.exists(out) and os.path.getmtime(out) >= newest:
        return out
    e = dict(env)
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=src, env=e, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode or not os.path.exists(out):
        raise BuildFailure('the analysis driver did not build:\n' + r.stdout[-4000:])
    os.utime(out)
    return out


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not (base == REPO and d in ('target', '.git')))
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(os.path.relpath(p, REPO).encode())
            try:
                with open(p, 'rb') as fh:
                    h.update(fh.read())
            except OSError:
                pass
    for f in ('src/main.rs',):
        with open(os.path.join(HERE, 'driver', f), 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def dump_into(out):
    env = _env()
    drv = driver(env)
    sysroot = _sysroot(env)
    tgt = tempfile.mkdtemp(prefix='rhsa-target-')
    try:
        e = dict(env)
        e['LD_LIBRARY_PATH'] = sysroot + '/lib'
        e['MIRDUMP_SYSROOT'] = sysroot
        e['MIRDUMP_OUT'] = out
        e['RUSTC_WORKSPACE_WRAPPER'] = drv
        e['CARGO_TARGET_DIR'] = tgt
        r = subprocess.run(['cargo', '+nightly', 'check', '--workspace', '--offline', '--locked'], cwd=REPO, env=e,
                           text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildFailure('cargo check of %s under the driver failed:\n%s' % (REPO, r.stdout[-4000:]))
    finally:
        shutil.rmtree(tgt, ignore_errors=True)
    have = {f[:-5] for f in os.listdir(out) if f.endswith('.json')}
    missing = {c for c in EXPECTED if not any(h == c or h.startswith(c + '-') or h.startswith(c + '.') for h in have)}
    if missing:
        raise BuildFailure('no dump for crates: %s (have %s)' % (sorted(missing), sorted(have)))


def load():
    """Program for the current tree.  RHSA_CACHE (development only) keeps dumps by content hash."""
    from .prog import Program
    cache = os.environ.get('RHSA_CACHE')
    if cache:
        d = os.path.join(cache, tree_hash())
        if not os.path.isdir(d):
            os.makedirs(cache, exist_ok=True)
            tmp = tempfile.mkdtemp(prefix='new-', dir=cache)
            try:
                dump_into(tmp)
            except BaseException:
                shutil.rmtree(tmp, ignore_errors=True)
                raise
            os.rename(tmp, d)
        return Program(d)
    out = tempfile.mkdtemp(prefix='rhsa-dump-')
    try:
        dump_into(out)
        return Program(out)
    finally:
        shutil.rmtree(out, ignore_errors=True)
