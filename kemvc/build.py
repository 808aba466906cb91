"""Builds the harness crates against /repo's current tree: LLVM IR (what is verified) and a native library (replay)."""
import os, subprocess, glob, time, re, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, '.build')
REPO = '/repo'
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'

class BuildError(Exception): pass

def env(rustflags):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTC_BOOTSTRAP='1', CARGO_NET_OFFLINE='true', RUSTFLAGS=rustflags,
             CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never')
    for k in list(e):
        if k.startswith('CARGO_ENCODED') or k in ('CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'): del e[k]
    return e

IRFLAGS = ('--emit=llvm-ir -C symbol-mangling-version=v0 -Zshare-generics=no -C codegen-units=1 -C debuginfo=0 '
           '-C panic=abort -C opt-level=0 -C passes=mem2reg --cap-lints=warn')

def _run(cmd, cwd, e):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(p.stdout[-3000:])
    return p.stdout

def split(features):
    """('rel' among the features: the release profile's semantics, no overflow checks and no debug assertions)"""
    if features is None or 'rel' not in features: return features, False
    return [x for x in features if x != 'rel'], True
def ir(crate, features=None, tag=''):
    """-> list of .ll files, one per crate linked into the harness"""
    features, rel = split(features)
    tgt = os.path.join(BUILD, 'ir-%s%s' % (crate, tag))
    cwd = os.path.join(ROOT, 'harness', crate)
    deps = os.path.join(tgt, 'debug', 'deps')
    cmd = ['cargo', 'build', '--lib', '--offline', '--target-dir', tgt]
    if features is not None: cmd += ['--no-default-features', '--features', ','.join(features)]
    # old .ll files must never be picked up
    import shutil
    shutil.rmtree(tgt, ignore_errors=True)
    _run(cmd, cwd, env(IRFLAGS + (' -C overflow-checks=off -C debug-assertions=off' if rel else '')))
    skip = ('version_check', 'proc_macro', 'syn-', 'quote', 'unicode_ident', 'zeroize_derive')
    out = [p for p in glob.glob(os.path.join(deps, '*.ll')) if not os.path.basename(p).startswith(skip)]
    if not out: raise BuildError('no LLVM IR produced')
    return sorted(out)

def source_digest():
    h = hashlib.sha256()
    for p in sorted(glob.glob(REPO + '/Cargo.*') + [q for c in ('ml-kem', 'x-wing', 'dhkem') for e in ('*.rs', '*.toml') for q in glob.glob('%s/%s/**/%s' % (REPO, c, e), recursive=True)]):
        if '/target/' in p: continue
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def native(crate, features=None, tag=''):
    features, rel = split(features)
    tgt = os.path.join(BUILD, 'native-%s%s' % (crate, tag))
    cwd = os.path.join(ROOT, 'harness', crate)
    cmd = ['cargo', 'rustc', '--lib', '--crate-type', 'cdylib', '--release', '--offline', '--target-dir', tgt]
    if features is not None: cmd += ['--no-default-features']
    cmd += ['--features', ','.join((features or []) + ['native'])]
    # cargo goes by modification times; go by contents
    import shutil
    mark = os.path.join(tgt, 'source'); d = source_digest()
    if os.path.exists(tgt) and not (os.path.exists(mark) and open(mark).read() == d):
        for p in glob.glob(os.path.join(tgt, '*', '.fingerprint', '*')):
            if os.path.basename(p).startswith(('ml-kem', 'x-wing', 'dhkem', 'kv-')): shutil.rmtree(p, ignore_errors=True)
    os.makedirs(tgt, exist_ok=True); open(mark, 'w').write(d)
    _run(cmd, cwd, env('-C overflow-checks=%s -C debug-assertions=%s --cap-lints=warn' % (('off',) * 2 if rel else ('on',) * 2)))
    so = glob.glob(os.path.join(tgt, 'release', '*.so'))
    if not so: raise BuildError('no native library produced')
    return so[0]
