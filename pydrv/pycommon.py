"""shared by the drivers of the Python module: random values, records and the case loop"""
import ctypes, ctypes.util, hashlib, json, os, random, sys, traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'oracle'))
import r255

LIBS = os.environ.get('VERIF_LIBS', '')
PYDIR = os.environ['VERIF_PYDIR']
sys.path.insert(0, PYDIR)

_find = ctypes.util.find_library


def _find_library(name):
    p = os.path.join(LIBS, f'lib{name}.so')
    return p if os.path.exists(p) else _find(name)


if LIBS:
    ctypes.util.find_library = _find_library


class Rng(random.Random):
    def b(self, n):
        return self.randbytes(n)

    def scalar(self):
        k = self.randrange(12)
        if k == 0:
            return self.choice([1, 2, 3, 255, 256, r255.L - 1, r255.L - 2])
        return self.randrange(1, r255.L)

    def point(self):
        return r255.encode(r255.mul_base(self.scalar()))

    def distinct(self, n, lo=1, hi=255):
        return self.sample(range(lo, hi + 1), n)


def s32(x):
    return (x % r255.L).to_bytes(32, 'little')


def valid_point(b):
    """libsodium 1.0.18 ignores the top bit, so only encodings without it are judged"""
    return r255.decode(b) is not None


def run(modes):
    mode, seed, start, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    fn = modes[mode]
    out = sys.stdout
    for no in range(start, start + count):
        print('B', no, flush=True)
        rng = Rng(hashlib.sha256(f'{mode}/{seed}/{no}'.encode()).digest())
        try:
            rec = fn(rng, no)
        except Exception:
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(3)
        print('R', json.dumps(rec, default=lambda x: x.hex() if isinstance(x, (bytes, bytearray)) else repr(x)))
        print('E', no, flush=True)
