"""Replay for C13: executed-instruction counts (valgrind/callgrind) of the natively compiled decapsulation on ciphertexts
that decrypt to the same message, one accepted and several rejected.  Used only after a verification failure."""
import os, random, re, subprocess, shutil
from . import build, ref
MAIN = '''use std::io::Read;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dk = std::fs::read(&a[2]).unwrap();
    let ct = std::fs::read(&a[3]).unwrap();
    let mut k = [0u8; 32];
    let f: unsafe extern "C" fn(*const u8, *const u8, *mut u8) = match a[1].as_str() {
        "512" => unsafe { core::mem::transmute(kv_hm::dec_512 as *const ()) },
        "768" => unsafe { core::mem::transmute(kv_hm::dec_768 as *const ()) },
        _ => unsafe { core::mem::transmute(kv_hm::dec_1024 as *const ()) },
    };
    unsafe { kv_ct_measure(f, dk.as_ptr(), ct.as_ptr(), k.as_mut_ptr()) };
    let _ = std::io::stdin().bytes();
    println!("{}", k[0]);
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn kv_ct_measure(f: unsafe extern "C" fn(*const u8, *const u8, *mut u8), a: *const u8, b: *const u8, c: *mut u8) {
    f(a, b, c)
}
'''
def build_bin():
    w = os.path.join(build.BUILD, 'ct')
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w + '/src')
    open(w + '/src/main.rs', 'w').write(MAIN)
    open(w + '/Cargo.toml', 'w').write('[package]\nname = "kv-ct"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nkv-hm = { path = "%s", features = ["native"] }\n' % os.path.join(build.ROOT, 'harness', 'hm'))
    lock = os.path.join(build.ROOT, 'harness', 'hm', 'Cargo.lock')
    if os.path.exists(lock): shutil.copy(lock, w)
    build._run(['cargo', 'build', '--release', '--offline', '--target-dir', w + '/target'], w, build.env('--cap-lints=warn'))
    return w + '/target/release/kv-ct'
def count(exe, N, dk, ct, tag):
    d = os.path.dirname(exe)
    p = os.path.join(d, 'dk%s' % tag); q = os.path.join(d, 'ct%s' % tag)
    open(p, 'wb').write(dk); open(q, 'wb').write(ct)
    r = subprocess.run(['valgrind', '--tool=callgrind', '--callgrind-out-file=/dev/null', '--toggle-collect=kv_ct_measure', exe, str(N), p, q],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    m = re.search(r'Collected : (\d+)', r.stdout)
    return int(m.group(1)) if m else None
def family(N, rng):
    """(dk, ciphertexts): the honest one and others that decrypt to the same message but re-encrypt differently"""
    d, z, m = rng.randbytes(32), rng.randbytes(32), rng.randbytes(32)
    ek, dk = ref.keygen(N, d, z)
    k, c = ref.encaps(N, ek, m)
    kk = ref.PAR[N][0]
    cts = [bytes(c)]
    for pos in [0, 1, len(c) // 3, len(c) - 1]:
        for bit in range(8):
            c2 = bytearray(c); c2[pos] ^= 1 << bit
            if bytes(ref.pke_dec(N, dk[:384 * kk], bytes(c2))) == m:
                cts.append(bytes(c2)); break
    return dk, cts
def hunt(bad):
    exe = build_bin()
    rng = random.Random(3)
    for N in (512, 768, 1024):
        for _ in range(2):
            dk, cts = family(N, rng)
            n = [count(exe, N, dk, c, '%d' % i) for i, c in enumerate(cts)]
            if None in n: continue
            if len(set(n)) > 1:
                return {'entry': 'dec_%d' % N, 'ct': True, 'inputs': [dk.hex()] + [c.hex() for c in cts],
                        'what': 'ciphertexts decrypting to the same message execute different instruction counts (first is accepted, others rejected): %s' % n}
    return None
