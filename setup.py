"""Compiles nothing persistent: every check rebuilds from /repo.  Verifies that the tools are present."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy
from kemvc import terms, spec, ref
import hashlib
m = b'x' * 200
assert bytes(spec.sha3_256(list(m))) == hashlib.sha3_256(m).digest()
assert bytes(spec.shake128(list(m), 500)) == hashlib.shake_128(m).digest(500)
print(subprocess.run(['cargo', '--version'], stdout=subprocess.PIPE, text=True).stdout.strip())
