"""ctypes access to the natively compiled harness (the code in /repo as it runs)."""
import ctypes, os
class Lib:
    def __init__(self, path):
        self.l = ctypes.CDLL(path)
    def call(self, name, ins, outs, ret=False):
        """ins: list of bytes; outs: list of sizes -> list of bytes"""
        f = getattr(self.l, name)
        bufs = [ctypes.create_string_buffer(bytes(b), len(b)) for b in ins]
        obufs = [ctypes.create_string_buffer(n) for n in outs]
        f.restype = ctypes.c_uint8 if ret else None
        r = f(*bufs, *obufs)
        o = [x.raw for x in obufs]
        return (r, o) if ret else o
    def tape(self, data):
        self._t = ctypes.create_string_buffer(bytes(data), max(len(data), 1))
        self.l.kv_set_tape(self._t, len(data))
    def pos(self):
        self.l.kv_tape_pos.restype = ctypes.c_size_t
        return self.l.kv_tape_pos()
    def has(self, name):
        try: getattr(self.l, name); return True
        except AttributeError: return False

def isolated(path, name, ins, outs, tape=None, timeout=20):
    """run one call in a child process: (status, outs); status 0 or a signal description"""
    import pickle, signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 2)
        signal.alarm(timeout)
        L = Lib(path)
        if tape is not None: L.tape(tape)
        o = L.call(name, ins, outs)
        os.write(w, pickle.dumps((o, L.pos() if tape is not None else None)))
        os._exit(0)
    os.close(w)
    d = b''
    while True:
        x = os.read(r, 1 << 16)
        if not x: break
        d += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st: return ('terminated by signal %d' % (st & 127), None, None)
    import pickle
    o, p = pickle.loads(d)
    return (0, o, p)
