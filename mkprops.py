"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
A = 'ml-kem/src/'
P = []
def p(id, title, st, over, q, why, files, mech, level_note=None, technique=None, na=None):
    P.append((dict(id=id, title=title, statement=st, quantifier={'over': over, 'text': q}, why_tests_cant=why,
                   anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}), level_note, technique, na))
TEC = 'contract-based deductive verification: weakest-precondition style VC generation over the compiled LLVM IR of /repo, contracts per function, discharge by normalisation and complete enumeration'
TRUST = ' Trusted: rustc lowering to LLVM IR, the kemvc IR semantics/normalizer (replayed natively on every run)'
KEC = '. The hash functions are not assumed: Keccak-p and the sponges of the dependencies are proved from their compiled code.'

p('C01', 'Ring arithmetic and number-theoretic transforms are exact mod 3329',
  'Addition, subtraction and multiplication of ring coefficients always give the exact residue in 0..3328, and the forward transform, inverse transform, pointwise product and vector/matrix products of ring elements equal the mathematical maps FIPS 203 defines. In particular the inverse transform undoes the forward one and multiplication through the transform domain is multiplication modulo X^256+1.',
  ['inputs'], 'all pairs of residues; all 3329^256 ring elements and pairs of them; every operand of vector and matrix products of dimension 2, 3, 4',
  'Unit tests check a few polynomials and known answers; a reduction that is off by one multiple of 3329 only for rare operand pairs passes them all.',
  [A + 'algebra.rs'], [('modular reduction', A + 'algebra.rs FieldElement::{small_reduce,barrett_reduce,base_case_multiply}'), ('transforms', A + 'algebra.rs Polynomial::ntt, NttPolynomial::ntt_inverse'), ('products', A + 'algebra.rs Mul/Add/Sub impls of Polynomial, NttPolynomial, NttVector, NttMatrix')],
  'All obligations discharged for all inputs by linear/quadratic normal forms mod q and enumeration of all 3329^2 operand pairs.' + TRUST + '.')
p('C02', 'Lossy compression and decompression round exactly as specified',
  'Compressing a coefficient to d bits gives round(2^d/3329 * x) mod 2^d with exact rational rounding, decompressing gives round(3329/2^d * y), for every width the parameter sets use, so recompression after decompression is the identity. The compressed value always fits in d bits.',
  ['inputs'], 'every coefficient 0..3328 and every d-bit value for d in 1,4,5,10,11',
  'Tests sample; a division-free quotient that is wrong for one coefficient value escapes known-answer vectors.',
  [A + 'compress.rs'], [('fixed-point quotient', A + 'compress.rs Compress for FieldElement')],
  'Complete enumeration of the real compiled functions plus lifting over 256 independent coefficients.' + TRUST + '.')
p('C03', 'Byte encoding and decoding of coefficient arrays are exact inverses',
  'Encoding 256 d-bit values lays their bits out least-significant first in exactly 32d bytes, decoding is the inverse, and no bit of one coefficient influences another. For 12-bit decoding each value is reduced modulo 3329 so that decoded coefficients are always valid residues, whatever the bytes.',
  ['inputs'], 'all byte strings and all coefficient arrays, for widths 1,4,5,10,11,12, and vectors of 2,3,4 ring elements',
  'Tests check a handful of arrays; wrong masking or shifts that show only for particular high bits, or non-canonical 12-bit values, are not sampled.',
  [A + 'encode.rs'], [('bit packing', A + 'encode.rs byte_encode, byte_decode, Encode and VectorEncode impls')],
  'Bit-level symbolic execution with every input bit symbolic.' + TRUST + '.')
p('C04', 'Uniform matrix sampling accepts exactly the right candidates of any stream',
  'Sampling a uniform ring element from an extendable-output stream returns the first 256 twelve-bit candidates below 3329 of that stream, in order, for every stream and however many candidates are rejected. It never reads a byte twice, never skips one, and the matrix entry (i,j) is drawn from seed||j||i (transposed on request).',
  ['inputs', 'histories'], 'all infinite byte streams; any number and placement of rejections; all matrix positions',
  'The number of rejections is random; tests fix a few seeds, so buffer-boundary and rejection patterns of low probability never occur in them.',
  [A + 'algebra.rs', A + 'crypto.rs'], [('rejection loop and buffering', A + 'algebra.rs FieldElementReader'), ('matrix expansion', A + 'algebra.rs NttMatrix::sample_uniform'), ('stream', A + 'crypto.rs XOF')],
  'Inductive invariant over the complete finite quotient of (code state, specification state), unbounded stream; SHAKE128 reader proved to yield consecutive bytes by induction over its forms.' + TRUST + KEC)
p('C05', 'Centered binomial sampling is exact for every noise string',
  'Every noise ring element is the difference of two eta-bit popcounts of the specified, disjoint bits of the pseudorandom string, reduced modulo 3329, for eta 2 and 3. The string for the n-th element is SHAKE256(seed||n) of exactly 64*eta bytes.',
  ['inputs'], 'all 2^1024 / 2^1536 noise strings; all seeds and counters',
  'Known-answer tests see a few hundred coefficients; a table entry or bit offset wrong for one pattern with low weight can survive.',
  [A + 'algebra.rs', A + 'crypto.rs', A + 'param.rs'], [('CBD', A + 'algebra.rs Polynomial::sample_cbd, PolynomialVector::sample_cbd'), ('PRF', A + 'crypto.rs PRF')],
  'All bits symbolic, table lookups enumerated.' + TRUST + KEC)
p('C06', 'Key generation computes FIPS 203 KeyGen for every seed pair',
  'For each parameter set the deterministic key pair is exactly the FIPS 203 ML-KEM.KeyGen_internal output of the two 32-byte seeds, byte for byte. The encapsulation key obtained from the decapsulation key is the same key.',
  ['inputs', 'configurations'], 'all 2^512 seed pairs, parameter sets 512, 768, 1024',
  'Known-answer tests cover some seeds; wrong behaviour on rare coefficient values, rejection patterns or carries is invisible to them.',
  [A + 'kem.rs', A + 'pke.rs', A + 'algebra.rs', A + 'encode.rs', A + 'crypto.rs', A + 'param.rs'], [('KeyGen', A + 'kem.rs DecapsulationKey::generate_deterministic'), ('K-PKE.KeyGen', A + 'pke.rs DecryptionKey::generate')],
  'Every output byte proved equal to the specification term for all seeds.' + TRUST + KEC)
p('C07', 'Encapsulation computes FIPS 203 Encaps for every key and message',
  'For each parameter set, every encapsulation-key byte string and every 32-byte message, the ciphertext and shared secret are exactly those of FIPS 203 ML-KEM.Encaps_internal on the key with its coefficients reduced modulo 3329. This includes keys with out-of-range coefficients and adversarial keys.',
  ['inputs', 'configurations'], 'all encapsulation-key byte strings (800/1184/1568 bytes), all 2^256 messages, three parameter sets',
  'Tests use honest keys and a few messages.',
  [A + 'kem.rs', A + 'pke.rs', A + 'algebra.rs', A + 'compress.rs', A + 'encode.rs'], [('Encaps', A + 'kem.rs EncapsulationKey::encapsulate_deterministic_inner'), ('K-PKE.Encrypt', A + 'pke.rs EncryptionKey::encrypt')],
  'Every output byte proved equal to the specification term for all inputs.' + TRUST + KEC)
p('C08', 'Decapsulation computes FIPS 203 Decaps with implicit rejection',
  'For every decapsulation-key byte string and every ciphertext the result is exactly that of FIPS 203 ML-KEM.Decaps_internal: the re-derived secret when the re-encrypted ciphertext equals the input in every byte, otherwise the pseudorandom rejection secret of the stored rejection seed and the ciphertext. No ciphertext causes an error or any other value.',
  ['inputs', 'configurations'], 'all decapsulation-key byte strings, all ciphertexts, three parameter sets',
  'Tests decapsulate honest ciphertexts and a few random ones; a comparison that ignores some ciphertext bits, or a rejection secret computed over part of the ciphertext, is not sampled.',
  [A + 'kem.rs', A + 'pke.rs'], [('Decaps', A + 'kem.rs DecapsulationKey::decapsulate, constant_time_eq'), ('K-PKE.Decrypt', A + 'pke.rs DecryptionKey::decrypt')],
  'Every output byte proved equal to the specification term for all inputs; the accept condition is proved equivalent to equality of all ciphertext bits.' + TRUST + KEC)
p('C09', 'Key serialization is lossless and laid out as FIPS 203 specifies',
  'Encoding a key yields exactly the standard layout and size; decoding then encoding reproduces every byte of any canonical key and otherwise only reduces coefficients modulo 3329. A key that went through serialization behaves identically to the original: same public part, same encapsulations, same decapsulations.',
  ['inputs', 'histories'], 'all key byte strings; all seeds; all ciphertexts and messages used with the original and the re-imported key',
  'Round-trip tests use honest keys only and compare encodings, not behaviour on every ciphertext.',
  [A + 'kem.rs', A + 'pke.rs', A + 'param.rs', A + 'util.rs', A + 'encode.rs'], [('EncodedSizeUser', A + 'kem.rs from_bytes/as_bytes'), ('splits and concatenations', A + 'param.rs split_dk, concat_dk, split_ek, concat_ek'), ('flatten/unflatten', A + 'util.rs')],
  'Proved for all byte strings.' + TRUST + KEC)
p('C10', 'No input makes any ML-KEM operation panic, overflow or leave its buffers',
  'Key generation, encapsulation, decapsulation, key import and export terminate without panic, arithmetic overflow, out-of-bounds access or other undefined behaviour on every byte string of the right length, honest or hostile. Inputs are never modified.',
  ['inputs', 'configurations'], 'all byte strings of the API sizes for every entry point and parameter set',
  'Tests feed honest data; overflow checks fire only for extreme intermediate values, and tests cannot enumerate them.',
  [A + 'lib.rs', A + 'kem.rs', A + 'pke.rs', A + 'algebra.rs', A + 'encode.rs', A + 'compress.rs', A + 'util.rs'], [('checked arithmetic and slicing throughout', A), ('unsafe reinterpretation', A + 'util.rs Flatten/Unflatten')],
  'Every overflow check, bounds check, unsafe precondition and panic edge on every path is discharged for symbolic inputs; termination of the rejection loop is probabilistic and excluded.' + TRUST + KEC)
p('C11', 'Randomized API consumes exactly the specified randomness',
  'Randomized key generation draws exactly 64 bytes and equals deterministic key generation on the first and second 32 bytes; randomized encapsulation draws exactly 32 bytes and equals deterministic encapsulation on them. No drawn byte is discarded, reused or modified.',
  ['inputs'], 'all outputs of the random source; all encapsulation keys; three parameter sets',
  'Known-answer tests use the deterministic interface; tests of the randomized one only check that both sides agree.',
  [A + 'kem.rs', A + 'crypto.rs', A + 'lib.rs'], [('randomness', A + 'crypto.rs rand'), ('Generate/Encapsulate', A + 'kem.rs')],
  'Random draws are symbolic; outputs proved equal to the specification of them.' + TRUST + KEC)
p('C12', 'Honest parties agree whenever decryption noise stays below the threshold',
  'For every key pair and message, decapsulating the honest ciphertext returns the encapsulated secret whenever the decrypted message equals the encrypted one, and it does so whenever every noise coefficient has magnitude at most 831. The noise is exactly the sum of sampling errors and rounding errors the scheme prescribes.',
  ['inputs'], 'all seeds and messages; all noise vectors within the bound; three parameter sets',
  'Tests try a few key pairs.',
  [A + 'kem.rs', A + 'pke.rs', A + 'compress.rs', A + 'algebra.rs'], [('agreement', A + 'kem.rs encapsulate/decapsulate'), ('noise cancellation', A + 'pke.rs encrypt/decrypt')],
  'Lemma over the proved contracts of key generation, encapsulation and decapsulation.' + TRUST + KEC)
p('C13', 'Accepting or rejecting a ciphertext takes the same path through the code',
  'In decapsulation no branch and no memory address depends on the comparison of the received with the re-encrypted ciphertext, nor on which of the two secrets is returned. Both secrets are always computed and the choice is made by arithmetic selection.',
  ['inputs'], 'all decapsulation keys and ciphertexts; every branch and memory access of the compiled (unoptimised) code',
  'Functional tests cannot observe control flow; timing tests sample.',
  [A + 'kem.rs'], [('selection', A + 'kem.rs constant_time_eq, decapsulate')],
  'Proved for the unoptimised IR rustc emits; later LLVM optimisation is not covered.' + TRUST + KEC)
p('C14', 'Dropping an ML-KEM decapsulation key erases its secrets',
  'With the erasure feature on, dropping a decapsulation key overwrites every byte of its secret vector and of its rejection seed with zero, by writes the compiler may not remove. This holds for every key value and every parameter set.',
  ['inputs', 'configurations'], 'all keys, however constructed (generated or imported), three parameter sets',
  'Tests cannot read dropped memory portably, and sample keys.',
  [A + 'kem.rs', A + 'pke.rs', A + 'algebra.rs'], [('Drop', A + 'kem.rs Drop for DecapsulationKey'), ('Zeroize impls', A + 'pke.rs, ' + A + 'algebra.rs')],
  'Memory contents after the drop glue proved zero, and covered by volatile stores in the IR.' + TRUST + '.')
p('C15', 'X-Wing computes the specified hybrid KEM for every key and ciphertext',
  'Key derivation, encapsulation and decapsulation of X-Wing equal the draft: the 32-byte seed is expanded to the ML-KEM-768 seeds and the X25519 scalar, and the shared secret is SHA3-256 of label, ML-KEM secret, X25519 secret, X25519 ciphertext and X25519 public key. This holds for every seed, public key, ciphertext and random draw, including implicit rejection and low-order points, and for randomness taken from the caller or from the operating system.',
  ['inputs'], 'all seeds, all 1216-byte public keys, all 1120-byte ciphertexts, all random draws',
  'The test vectors are a few honest runs; a combiner that uses a wrong part on rejected or non-canonical input passes them.',
  ['x-wing/src/lib.rs', A + 'kem.rs'], [('combiner', 'x-wing/src/lib.rs combiner'), ('seed expansion', 'x-wing/src/lib.rs DecapsulationKey::expand_key'), ('Encapsulate/Decapsulate', 'x-wing/src/lib.rs')],
  'Every output byte proved equal to the specification, for the crate with all optional features and with none.' + TRUST + ', X25519 scalar multiplication of the dependency.')
p('C16', 'X-Wing keys and ciphertexts serialize losslessly in the specified layout',
  'Public keys (1216 bytes), private keys (32) and ciphertexts (1120) encode as the concatenation of their ML-KEM and X25519 parts and decode back to the same value. Decoding never fails and changes bytes only by reducing ML-KEM coefficients modulo 3329.',
  ['inputs'], 'all byte strings of the three sizes',
  'Tests check honest vectors.',
  ['x-wing/src/lib.rs'], [('conversions', 'x-wing/src/lib.rs as_bytes and From impls')],
  'Proved for all byte strings.' + TRUST + '.')
p('C17', 'X-Wing honest parties derive the same secret',
  'For every private seed and all randomness, decapsulating an honest encapsulation to the matching public key yields the encapsulated secret whenever the inner ML-KEM message decrypts correctly. The X25519 contributions of both sides coincide by commutativity of scalar multiplication.',
  ['inputs'], 'all seeds and random draws',
  'Tests try a handful of runs.',
  ['x-wing/src/lib.rs'], [('encapsulate/decapsulate', 'x-wing/src/lib.rs')],
  'Lemma over the proved contracts.' + TRUST + ', X25519 commutativity.')
p('C18', 'Diffie-Hellman KEMs agree and return the raw shared point',
  'For X25519, secp256k1, P-256, P-384 and P-521 the encapsulated key is the public key of a freshly drawn ephemeral secret, the shared secret is the Diffie-Hellman value of that secret with the recipient key, and the recipient recomputes the same value from the encapsulated key. Key generation draws the secret from the caller\'s random source and returns the matching public key, and no operation fails.',
  ['inputs'], 'all secrets, public keys and random draws, five groups',
  'Tests run one random exchange per group.',
  ['dhkem/src/lib.rs', 'dhkem/src/ecdh_kem.rs', 'dhkem/src/x25519_kem.rs'], [('ECDH KEM', 'dhkem/src/ecdh_kem.rs'), ('X25519 KEM', 'dhkem/src/x25519_kem.rs')],
  'Proved with the group operations of the dependencies as contracts.' + TRUST + ', scalar multiplication and its commutativity in the dependencies.')
p('C19', 'DH-KEM key wrappers are transparent and erasable',
  'Wrapping and unwrapping keys never changes the key, encodings of a wrapped key equal those of the key inside, and erasing a wrapped key erases the key inside.',
  ['inputs'], 'all keys of all groups',
  'Tests only run exchanges.',
  ['dhkem/src/lib.rs'], [('wrappers', 'dhkem/src/lib.rs DhEncapsulator, DhDecapsulator')],
  'Proved for all keys.' + TRUST + '.')
p('C20', 'Dropping X-Wing private keys and ciphertexts erases them',
  'With the erasure feature on, dropping an X-Wing private key or ciphertext overwrites all of its bytes with zero by writes the compiler may not remove, as does explicit erasure.',
  ['inputs', 'configurations'], 'all keys and ciphertexts',
  'Tests cannot read dropped memory.',
  ['x-wing/src/lib.rs'], [('Zeroize derives', 'x-wing/src/lib.rs')],
  'Memory contents after the drop glue proved zero.' + TRUST + '.')
p('C21', 'Optional features never change results',
  'ML-KEM key import, encapsulation, decapsulation and randomized key generation compute the same function with and without the optional erasure and deterministic features. The standard specification is met in every feature configuration, with or without overflow checks and debug assertions compiled in.',
  ['configurations', 'inputs'], 'all eight subsets of the features std, deterministic, zeroize; builds with and without overflow checks and debug assertions; all inputs',
  'The test suite runs one configuration.',
  [A + 'lib.rs', A + 'kem.rs', 'ml-kem/Cargo.toml'], [('cfg-gated code', A + 'kem.rs, ' + A + 'algebra.rs, ' + A + 'pke.rs')],
  'The specification is proved for the IR of each configuration; configurations whose reachable programs are identical up to symbol names share a proof.' + TRUST + KEC)
p('C22', 'Decapsulation failure probability is below 2^-138',
  'Over honest key generation and encapsulation randomness, the probability that the two sides derive different secrets is at most 2^-138.8 (512), 2^-164.8 (768), 2^-174.8 (1024).',
  ['inputs'], 'the distribution of honest runs', 'Probabilities this small cannot be sampled.',
  [A + 'pke.rs'], [('noise', A + 'pke.rs encrypt')],
  na='A probability over random oracles, not a postcondition of any function: no contract over the code expresses it. The deterministic part (agreement under the noise bound) is claimed as C12.')
p('C23', 'Secrets do not influence timing on real hardware',
  'Execution time and memory access pattern of all secret-dependent operations are independent of the secrets on the target machine.',
  ['inputs'], 'all secrets; all machines', 'Timing tests sample.',
  [A + 'algebra.rs', A + 'kem.rs'], [('reductions', A + 'algebra.rs')],
  na='Depends on LLVM optimisation and on hardware below the verified text; the source itself contains value-dependent conditional subtraction that only the optimiser turns into selects. The part expressible at code level is claimed as C13.')

have = {f[:-3].upper() for f in os.listdir('props') if f.startswith('c') and f.endswith('.py')}
with open('properties.jsonl', 'w') as f:
    for d, *_ in P: f.write(json.dumps(d) + '\n')
checks = []; na = []
for d, note, tec, why in P:
    if d['id'] in have:
        checks.append({'property': d['id'], 'quick_cmd': 'python3-vt /verif/check.py %s quick' % d['id'],
                       'thorough_cmd': 'python3-vt /verif/check.py %s thorough' % d['id'],
                       'evidence_file': 'evidence/%s.json' % d['id'], 'technique': tec or TEC, 'level': 'proof', 'level_note': note})
    else:
        na.append({'property': d['id'], 'reason': why or 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3-vt /verif/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harness crates in /verif/harness depend on /repo by path and use its public API; the verified text is the LLVM IR rustc emits for /repo and its dependencies.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
