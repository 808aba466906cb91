"""Native unit-level replay: a copy of /repo/ml-kem with a differential test module appended to the files that hold the
functions under contract (the functions themselves are the unmodified text of /repo).  Used only to find and replay
failing inputs after a verification failure; it decides nothing."""
import os, re, shutil, subprocess
from . import build
UNITS = {'C01': ['algebra'], 'C02': ['compress'], 'C03': ['encode'], 'C04': ['algebra'], 'C05': ['algebra']}
ONCE = {'c01_0', 'c02_0'}
def snippet(fname, prop):
    t = open(os.path.join(build.ROOT, 'harness', 'unit', fname + '.rs')).read()
    parts = re.split(r'(?m)^    //(UNIT \w+|END)\n', t)
    out = parts[0]
    for tag, body in zip(parts[1::2], parts[2::2]):
        if tag == 'END' or tag == 'UNIT ' + prop: out += body
    return out
def build_bin(prop):
    w = os.path.join(build.BUILD, 'unit-' + prop)
    shutil.rmtree(os.path.join(w, 'src'), ignore_errors=True)
    shutil.rmtree(os.path.join(w, 'ml-kem'), ignore_errors=True)
    os.makedirs(os.path.join(w, 'src'))
    shutil.copytree(os.path.join(build.REPO, 'ml-kem'), os.path.join(w, 'ml-kem'), ignore=shutil.ignore_patterns('target', 'tests', 'benches'))
    c = os.path.join(w, 'ml-kem', 'Cargo.toml')
    t = open(c).read()
    t = re.sub(r'(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)', '', t)
    t = re.sub(r'(?ms)^\[\[bench\]\].*?(?=^\[|\Z)', '', t)
    t = re.sub(r'(?m)^#!\[(deny|forbid)\(unsafe_code\)\]', '', t)
    open(c, 'w').write(t)
    src = os.path.join(w, 'ml-kem', 'src')
    names = []
    lib = ''
    for f in UNITS[prop]:
        s = snippet(f, prop)
        open(os.path.join(src, f + '.rs'), 'a').write('\n' + s)
        ns = re.findall(r'pub fn (%s_\d+)' % prop.lower(), s)
        names += ns
        lib += 'pub use crate::%s::kv_unit as %s;\n' % (f, f)
    cm = open(os.path.join(build.ROOT, 'harness', 'unit', 'common.rs')).read()
    i = cm.rindex('}')
    open(os.path.join(src, 'lib.rs'), 'a').write('\n' + cm[:i] + lib + cm[i:])
    m = open(os.path.join(build.ROOT, 'harness', 'unit', 'main.rs')).read()
    m = m.replace('/*FNS*/', ', '.join('("%s%s", ml_kem::kv_unit::%s::%s)' % (n, ' once' if n in ONCE else '', UNITS[prop][0], n) for n in names))
    open(os.path.join(w, 'src', 'main.rs'), 'w').write(m)
    open(os.path.join(w, 'Cargo.toml'), 'w').write('[package]\nname = "kv-unit"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nml-kem = { path = "ml-kem" }\n')
    lock = os.path.join(build.REPO, 'Cargo.lock')
    if os.path.exists(lock): shutil.copy(lock, os.path.join(w, 'Cargo.lock'))
    build._run(['cargo', 'build', '--release', '--offline', '--target-dir', os.path.join(w, 'target')], w, build.env('-C overflow-checks=on -C debug-assertions=on --cap-lints=warn'))
    return os.path.join(w, 'target', 'release', 'kv-unit')
def run(exe, seed, seconds):
    p = subprocess.run([exe, str(seed), str(seconds)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=seconds + 60)
    for l in p.stdout.split('\n'):
        if l.startswith('HIT '): return l[4:]
    return None
def hunt(prop, seed=1, seconds=20):
    """-> description of a failing unit-level input, or None"""
    if prop not in UNITS: return None
    try: exe = build_bin(prop)
    except build.BuildError as e: return None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for s, h in zip(range(8), ex.map(lambda i: run(exe, seed * 1000 + i + 1, seconds), range(8))):
            if h: return {'unit': prop, 'seed': seed * 1000 + s + 1, 'what': h[:4000]}
    return None
