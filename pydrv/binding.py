"""drives the Python module against the reference: modes oprf, toprf, dkg, args, tpdkg, noise.
Each record carries "v": a list of [key, text] of what was wrong, and "k": what was exercised."""
import threading
from pycommon import *
import pyoprf
from pyoprf import noisexk
import noisexk_ref
# the library's allocator may be a monitored one: free through the same symbols
if hasattr(noisexk, 'libc'):
    noisexk.libc.free = ctypes.CDLL(None).free

L = r255.L


class J:
    """collects what was wrong in a case"""
    def __init__(self):
        self.v, self.k = [], []

    def bad(self, key, text):
        self.v.append([key, text[:400]])

    def ok(self, cond, key, text):
        if not cond:
            self.bad(key, text)

    def call(self, fn, *args):
        """a call with valid arguments"""
        try:
            return getattr(pyoprf, fn)(*args)
        except Exception as e:
            self.bad(f'{fn}:raises', f'{fn} raised {e!r} for valid arguments {short(args)}')
            return None

    def rec(self, **kw):
        return dict(kw, v=self.v, k=self.k)


def short(x):
    return repr(x)[:300]


def input_of(rng):
    n = rng.choice([0, 1, rng.randrange(0, 40), rng.randrange(0, 300), rng.randrange(0, 5000), rng.randrange(60000, 65536), 65535, 256, 255])
    return rng.b(n)


# ---- reference of every function: (valid arguments) -> checker of the result, None when the arguments are invalid

def isb(x, n=None):
    return isinstance(x, bytes) and (n is None or len(x) == n)


def isint(x, lo, hi):
    return isinstance(x, int) and lo <= x <= hi


def points(bs):
    return [r255.decode(b) for b in bs]


def r_blind(x):
    if not isb(x) or len(x) > 65535:
        return None

    def ck(res):
        r, a = res
        if not (isb(r, 32) and isb(a, 32)) or not 0 < r255.sc(r) < L:
            return 'result is not (scalar, element)'
        if r255.encode(r255.mul(r255.sc(r), r255.hash_to_group(x))) != a:
            return 'blinded is not r*H(x)'
    return ck


def r_eval(k, p):
    if not isb(k, 32) or not isb(p, 32):
        return None
    P = r255.decode(p)
    if P is None:
        return None
    want = r255.encode(r255.mul(r255.sc(k) % L, P))
    if want == bytes(32):
        return None
    return lambda res: None if res == want else 'wrong element'


def r_unblind(r, z):
    if not isb(r, 32) or not isb(z, 32):
        return None
    P = r255.decode(z)
    if P is None or r255.sc(r) % L == 0:
        return None
    want = r255.encode(r255.mul(r255.inv(r255.sc(r)), P))
    if want == bytes(32):
        return None
    return lambda res: None if res == want else 'wrong element'


def r_finalize(x, n):
    if not isb(x) or len(x) > 65535 or not isb(n, 32):
        return None
    want = r255.finalize(x, n)
    return lambda res: None if res == want else 'wrong output'


def r_unblind_finalize(r, z, x):
    if not isb(r, 32) or not isb(z, 32) or not isb(x) or len(x) > 65535:
        return None
    P = r255.decode(z)
    if P is None or r255.sc(r) % L == 0 or z == bytes(32):
        return None
    want = r255.finalize(x, r255.encode(r255.mul(r255.inv(r255.sc(r)), P)))
    return lambda res: None if res == want else 'wrong output'


def idxlist(xs):
    return isinstance(xs, (list, tuple)) and all(isint(i, 1, 255) for i in xs) and len(set(xs)) == len(xs)


def r_coeff(i, xs):
    if not idxlist(xs) or len(xs) < 2 or i not in xs:
        return None
    want = s32(r255.lagrange_at(list(xs), 0)[list(xs).index(i)])
    return lambda res: None if res == want else 'wrong coefficient'


def shares_ck(n, t, secret):
    def ck(res):
        if len(res) != n or not all(isb(s, 33) for s in res):
            return 'not n shares of 33 bytes'
        if [s[0] for s in res] != list(range(1, n + 1)):
            return 'wrong indexes'
        f = r255.coefficients([(s[0], r255.sc(s[1:])) for s in res[:min(n, t + 2)]])
        f += [0] * (t + 3)
        if any(f[t:]):
            return 'degree too high'
        if any(r255.eval_poly(f[:t], s[0]) != r255.sc(s[1:]) for s in res):
            return 'shares are not on one polynomial'
        if secret is not None and f[0] != r255.sc(secret) % L:
            return 'shares do not yield the secret'
        if f[t - 1] == 0:
            return 'degree too low'
    return ck


def r_create(secret, n, t):
    if not isb(secret, 32) or not isint(n, 2, 255) or not isint(t, 2, n):
        return None
    return shares_ck(n, t, secret)


def parts_ok(ps):
    return isinstance(ps, (list, tuple)) and 2 <= len(ps) <= 255 and all(isb(p, 33) for p in ps) and \
        len({p[0] for p in ps}) == len(ps) and all(p[0] for p in ps) and None not in points(p[1:] for p in ps)


def r_mult(ps):
    if not parts_ok(ps):
        return None
    if any(p[1:] == bytes(32) for p in ps):
        return None
    acc = r255.ID
    for c, p in zip(r255.lagrange_at([p[0] for p in ps], 0), ps):
        acc = r255.add(acc, r255.mul(c, r255.decode(p[1:])))
    want = r255.encode(acc)
    return lambda res: None if res == want else 'wrong element'


def r_combine(ps):
    if not parts_ok(ps):
        return None
    acc = r255.ID
    for p in ps:
        acc = r255.add(acc, r255.decode(p[1:]))
    want = r255.encode(acc)
    return lambda res: None if res == want else 'wrong element'


def r_teval(k, p, me, xs):
    if not isb(k, 33) or not isb(p, 32) or not isint(me, 1, 255) or not idxlist(xs) or me not in xs or len(xs) < 2:
        return None
    P = r255.decode(p)
    if P is None or p == bytes(32):
        return None
    c = r255.lagrange_at(list(xs), 0)[list(xs).index(me)]
    want = bytes([me]) + r255.encode(r255.mul(c * r255.sc(k[1:]) % L, P))
    if want[1:] == bytes(32):
        return None
    return lambda res: None if res == want else 'wrong part'


def r_3h(k, z, a, ssid):
    if not isb(k, 33) or not isb(z, 33) or not isb(a, 32) or not isb(ssid) or len(ssid) > 65535:
        return None
    A = r255.decode(a)
    if A is None or a == bytes(32) or r255.sc(k[1:]) % L == 0 or r255.sc(z[1:]) % L == 0:
        return None
    h = hashlib.blake2b(len(ssid).to_bytes(2, 'big') + ssid + a, digest_size=64).digest()
    want = bytes([k[0]]) + r255.encode(r255.add(r255.mul(r255.sc(k[1:]) % L, A), r255.mul(r255.sc(z[1:]) % L, r255.hash_to_group(h))))
    return lambda res: None if res == want else 'wrong part'


def r_dkg_start(n, t):
    if not isint(n, 2, 255) or not isint(t, 2, n):
        return None

    def ck(res):
        c, sh = res
        e = shares_ck(n, t, None)(sh)
        if e:
            return e
        if not isb(c, 32 * t):
            return 'commitments of wrong size'
        f = r255.coefficients([(s[0], r255.sc(s[1:])) for s in sh[:t]])
        if b''.join(r255.encode(r255.mul_base(x)) for x in f) != c:
            return 'commitments do not match the shares'
    return ck


def r_verify(n, t, me, com, sh):
    if not isint(n, 2, 255) or not isint(t, 2, n) or not isint(me, 1, n) or not isb(com, n * t * 32):
        return None
    if not isinstance(sh, (list, tuple)) or len(sh) != n or not all(isb(s, 33) for s in sh):
        return None
    fails = []
    for i in range(1, n + 1):
        if i == me:
            continue
        cs = [r255.decode(com[((i - 1) * t + j) * 32:((i - 1) * t + j + 1) * 32]) for j in range(t)]
        s = sh[i - 1]
        good = r255.sc(s[1:]) < L and None not in cs       # the index of a share is not part of the check
        if good:
            acc = r255.ID
            for j in range(t):
                acc = r255.add(acc, r255.mul(pow(me, j, L), cs[j]))
            good = r255.equal(acc, r255.mul_base(r255.sc(s[1:]) % L))
        if not good:
            fails.append(i)
    want = bytes(fails)
    return lambda res: None if bytes(res) == want else f'failing dealers {fails} reported as {list(bytes(res))}'


def r_finish(n, sh, me):
    if not isint(n, 1, 255) or not isint(me, 1, n) or not isinstance(sh, (list, tuple)) or len(sh) != n or not all(isb(s, 33) for s in sh):
        return None
    want = bytes([me]) + s32(sum(r255.sc(s[1:]) for s in sh))
    return lambda res: None if res == want else 'wrong share'


def r_reconstruct(sh):
    if not isinstance(sh, (list, tuple)) or not 2 <= len(sh) <= 255 or not all(isb(s, 33) for s in sh):
        return None
    if len({s[0] for s in sh}) != len(sh) or not all(s[0] for s in sh):
        return None
    want = s32(r255.interp([(s[0], r255.sc(s[1:])) for s in sh], 0))
    return lambda res: None if res == want else 'wrong secret'


def r_keygen():
    return lambda k: None if isb(k, 32) and 0 < r255.sc(k) < L else 'not a reduced scalar'


REF = {'keygen': r_keygen, 'blind': r_blind, 'evaluate': r_eval, 'unblind': r_unblind, 'finalize': r_finalize,
       'unblind_finalize': r_unblind_finalize, 'coeff': r_coeff, 'create_shares': r_create, 'thresholdmult': r_mult,
       'threshold_evaluate': r_teval, 'threshold_combine': r_combine, '_3hashtdh': r_3h, 'dkg_start': r_dkg_start,
       'dkg_verify_commitments': r_verify, 'dkg_finish': r_finish, 'dkg_reconstruct': r_reconstruct}


def share(rng, i=None):
    return bytes([i or rng.randrange(1, 256)]) + s32(rng.scalar())


def part(rng, i=None):
    return bytes([i or rng.randrange(1, 256)]) + rng.point()


def nt(rng, top=12):
    n = rng.choice([2, 3, 4, 5, rng.randrange(2, top), rng.randrange(2, top), 2])
    return n, rng.choice([2, n, rng.randrange(2, n + 1)])


def valid(rng, fn, big=False):
    """valid arguments of a function"""
    if fn == 'keygen':
        return []
    if fn == 'blind':
        return [input_of(rng)]
    if fn == 'evaluate' or fn == 'unblind':
        return [s32(rng.scalar()), rng.point()]
    if fn == 'finalize':
        return [input_of(rng), rng.point()]
    if fn == 'unblind_finalize':
        return [s32(rng.scalar()), rng.point(), input_of(rng)]
    if fn == 'coeff':
        xs = rng.distinct(rng.choice([2, 3, 5, rng.randrange(2, 30), 255 if big else 7]))
        return [rng.choice(xs), xs]
    if fn == 'create_shares':
        n, t = nt(rng, 255 if big else 12)
        return [s32(rng.scalar()), n, min(t, 20)]
    if fn in ('thresholdmult', 'threshold_combine'):
        return [[part(rng, i) for i in rng.distinct(rng.choice([2, 3, rng.randrange(2, 8), 60 if big else 3]))]]
    if fn == 'threshold_evaluate':
        xs = rng.distinct(rng.choice([2, 3, 5, rng.randrange(2, 40), 255 if big else 9]))
        i = rng.choice(xs)
        return [share(rng, i), rng.point(), i, xs]
    if fn == '_3hashtdh':
        return [share(rng), share(rng), rng.point(), input_of(rng)]
    if fn == 'dkg_start':
        n, t = nt(rng, 60 if big else 10)
        return [n, min(t, 12)]
    if fn == 'dkg_verify_commitments':
        n, t = nt(rng, 9)
        me = rng.randrange(1, n + 1)
        cs, sh = [], []
        for i in range(n):
            f = [rng.scalar() for _ in range(t)]
            cs.append([r255.encode(r255.mul_base(x)) for x in f])
            sh.append(bytes([me]) + s32(r255.eval_poly(f, me)))
        for i in range(n):      # some dealers cheat
            if rng.randrange(3):
                continue
            k = rng.randrange(4)
            if k == 0:
                sh[i] = sh[i][:1] + s32(rng.scalar())
            elif k == 1:
                cs[i][rng.randrange(t)] = rng.point()
            elif k == 2:
                sh[i] = bytes([me % 255 + 1]) + sh[i][1:]
            else:
                cs[i][rng.randrange(t)] = (1 | rng.getrandbits(248) << 1).to_bytes(32, 'little')   # odd: no element
        return [n, t, me, b''.join(b''.join(c) for c in cs), sh]
    if fn == 'dkg_finish':
        n = rng.choice([2, 3, 5, rng.randrange(2, 40), 255 if big else 3])
        me = rng.randrange(1, n + 1)
        return [n, [bytes([me]) + s32(rng.scalar()) for _ in range(n)], me]
    if fn == 'dkg_reconstruct':
        return [[share(rng, i) for i in rng.distinct(rng.choice([2, 3, rng.randrange(2, 30), 100 if big else 4]))]]


def values(rng, no):
    j = J()
    fn = list(REF)[no % len(REF)]
    args = valid(rng, fn, True)
    ck = REF[fn](*args)
    if ck is None:
        raise RuntimeError(f'invalid arguments for {fn}: {short(args)}')
    res = j.call(fn, *args)
    if not j.v:
        try:
            e = ck(res)
        except Exception as x:
            e = f'result of wrong shape: {x!r}'
        j.ok(e is None, fn, f'{fn}({short(args)}) = {short(res)}: {e}')
    j.k = [fn, [len(a) if hasattr(a, '__len__') else a for a in args]]
    return j.rec()


def mutations(rng, a, others):
    """values that replace argument a"""
    m = [None, 1.5, 'x', object(), {}, [], b'', (), -1, 0, 1, 2, 255, 256, 257, 258, 300, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 64, -256]
    if isinstance(a, bytes):
        m += [a[:-1], a + b'\0', a * 2, a[:1], bytearray(a), memoryview(a), list(a), a.decode('latin1'), a.hex(), rng.b(len(a)),
              a + bytes(65536), bytes(65536), bytes(65535), bytes(65537), b'\xff' * len(a), ctypes.create_string_buffer(a), 'ä' * len(a), bytes(len(a))]
    elif isinstance(a, int):
        m += [a + 1, a - 1, float(a), str(a), a + 256, a + 65536, a - 256, a + (1 << 32), -a, bool(a), [a], bytes([a]), a + 0.5]
    elif isinstance(a, (list, tuple)):
        m += [tuple(a), a[:1], a[1:], a + a[:1], a * 2, a * 200, a[:-1] + [None], None, a[::-1], [None] * len(a)]
        if a and isinstance(a[0], bytes):
            i = rng.randrange(len(a))

            def put(x):
                return a[:i] + [x] + a[i + 1:]
            m += [put(a[i][:-1]), put(a[i] + b'\0'), put(b''), put(None), put(7), put('s' * len(a[i])), put(bytearray(a[i])),
                  b''.join(a), [b''.join(a)], put(a[i][:1]), [a[0] + a[1][:5]] + [a[1][5:]] + a[2:], a[:-2] + [a[-2] + a[-1]], put(rng.b(len(a[i]))),
                  put(a[i - 1]), put(bytes([0]) + a[i][1:]), a + [b'']]
        if a and isinstance(a[0], int):
            i = rng.randrange(len(a))
            m += [a[:i] + [x] + a[i + 1:] for x in (0, 256, -1, 1 << 32, None, 'x', 1.5, a[i] + 256)] + [bytes(a), list(range(1, 256)), list(range(0, 256)),
                                                                                                 list(range(1, 257)), list(range(1, 256)) * 2, [a[0]] * 70000]
    return m


def canon(x):
    """what an argument of another type means, if the module chose to take it"""
    if isinstance(x, (bytearray, memoryview)):
        return bytes(x)
    if isinstance(x, str):
        return x.encode('utf8')
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float) and x == int(x):
        return int(x)
    if isinstance(x, ctypes.Array):
        return x.raw
    return x


def canons(x, orig):
    c = [canon(x)]
    if isinstance(x, (list, tuple)):
        c.append([canon(y) for y in x])
        if isinstance(orig, bytes):
            try:
                c.append(bytes(x))
            except Exception:
                pass
    if isinstance(x, (bytes, bytearray)) and isinstance(orig, list):
        c.append(list(x))
        if orig and isinstance(orig[0], bytes) and len(x) % 33 == 0:
            c.append([x[i:i + 33] for i in range(0, len(x), 33)])
    if isinstance(x, ctypes.Array):
        c.append(x.raw[:-1])
    return c


# what the C interface leaves undefined (scalars that are not reduced) or defines without an error: not judged when it is accepted
SCALARS = {'evaluate': 's ', 'unblind': 's ', 'unblind_finalize': 's  ', 'create_shares': 's', 'threshold_evaluate': 's', '_3hashtdh': 'ss'}


def unjudged(fn, args, good):
    try:
        if any(isb(x) and len(x) in (32, 33) and r255.sc(x[-32:]) >= L for x, r in zip(args, SCALARS.get(fn, '')) if r == 's'):
            return all(isb(x, len(y)) if isb(y) else True for x, y in zip(args, good)) and not fn == 'create_shares' or fn == 'create_shares' and isb(args[0], 32)
        if fn == 'dkg_finish' and any(isb(x, 33) and r255.sc(x[1:]) >= L for x in args[1]):
            return all(isb(x, 33) for x in args[1]) and len(args[1]) == args[0]
        if fn in ('coeff', 'threshold_evaluate'):
            xs, me = list(args[-1]), args[0] if fn == 'coeff' else args[2]
            if fn == 'threshold_evaluate' and not (isb(args[0], 33) and isb(args[1], 32)):
                return False
            # repeated indexes, a self that is not among them, a single one
            return all(isint(i, 1, 255) for i in xs) and isint(me, 1, 255) and len(xs) <= 255 or \
                fn == 'coeff' and isint(me, 1, 255) and all(isint(i, 1, 255) for i in xs)
        if fn in ('thresholdmult', 'threshold_combine'):
            ps = args[0]
            return all(isb(p, 33) for p in ps) and 2 <= len(ps) <= 255      # repeated or zero indexes, invalid elements handled in C
        if fn == 'dkg_reconstruct':
            ps = args[0]
            return all(isb(p, 33) for p in ps) and 2 <= len(ps) <= 255
        if fn in ('evaluate', 'unblind', 'unblind_finalize'):
            # elements with the top bit set, a zero scalar
            return isb(args[0], 32) and isb(args[1], 32) and (args[1][31] & 128 or r255.sc(args[0]) % L == 0) and \
                (fn != 'unblind_finalize' or isb(args[2]) and len(args[2]) < 65536)
        if fn == '_3hashtdh':
            return isb(args[0], 33) and isb(args[1], 33) and isb(args[2], 32) and isb(args[3]) and len(args[3]) < 65536
        if fn == 'dkg_verify_commitments':
            return False
    except Exception:
        pass
    return False


def args(rng, no):
    j = J()
    fns = [f for f in REF if f != 'keygen']
    fn = fns[no % len(fns)]
    good = valid(rng, fn)
    f = getattr(pyoprf, fn)
    tried = refused = 0
    for i in range(len(good)):
        for m in mutations(rng, good[i], good):
            a = list(good)
            a[i] = m
            tried += 1
            try:
                res = f(*a)
            except Exception:
                refused += 1
                # refusing is right unless the argument is as good as the original
                if isinstance(m, type(good[i])) and not isinstance(m, bool) and REF[fn](*a) is not None:
                    j.bad(f'{fn}:refused', f'{fn} refuses valid argument {i}: {short(a)}')
                continue
            fine = False
            why = 'invalid arguments accepted'
            for c in canons(m, good[i]):
                b = list(good)
                b[i] = c
                try:
                    ck = REF[fn](*b)
                except Exception:
                    ck = None
                if ck is not None:
                    try:
                        e = ck(res)
                    except Exception as x:
                        e = repr(x)
                    if e is None:
                        fine = True
                    elif unjudged(fn, b, good):
                        fine = True
                    else:
                        why = e
                elif unjudged(fn, b, good):
                    fine = True
            if not fine:
                j.bad(f'{fn}:{i}', f'{fn} with argument {i} = {short(m)} ({type(m).__name__}) returned {short(res)}: {why}')
    # number of arguments
    for a in (good[:-1], good + [b'']):
        try:
            f(*a)
            j.bad(f'{fn}:arity', f'{fn} accepts {len(a)} arguments')
        except TypeError:
            pass
        except Exception:
            pass
    j.k = [fn, tried, refused]
    return j.rec(tried=tried, refused=refused)


# ---- TP-DKG ----------------------------------------------------------------------------------------------------------

import pysodium, gc

NAMES = ['a', 'pyoprf tpdkg test', 'ä', 'protocol ☃ name', 'x' * 1024, 'ü' * 512, '\U0001f511key', b'bytes name', b'\xff\x00\x01', b'\0', 'a\0b', 'x' * 255, 'x' * 256, 'y' * 1000]
BADNAMES = ['', b'', 'x' * 1025, 'ü' * 513, b'x' * 2000, None, 17, ['a']]


def dst_of(name):
    n = name.encode('utf8') if isinstance(name, str) else name
    return hashlib.blake2b((len(n) + 20).to_bytes(2, 'big') + b'TP DKG for protocol ' + n, digest_size=32).digest()


def tpdkg(rng, no):
    j = J()
    name = NAMES[no % len(NAMES)]
    n = rng.choice([3, 3, 4, 5, rng.randrange(3, 9)])
    t = rng.randrange(2, n)
    eps = rng.choice([300, 1000, 3600, 1 << 30, 1 << 40, (1 << 64) - 1])
    keys = [pysodium.crypto_sign_keypair() for _ in range(n)]
    pks, sks = [k[0] for k in keys], [k[1] for k in keys]
    kind = rng.randrange(4)     # 0,1 honest 2 bad arguments 3 disturbed
    j.k = ['tpdkg', n, t, kind, no % len(NAMES)]
    try:
        tp, msg0 = pyoprf.tpdkg_start_tp(n, t, eps, name, pks)
    except Exception as e:
        j.bad('tpdkg_start_tp:raises', f'start with n={n} t={t} name={name!r} raised {e!r}')
        return j.rec()
    j.ok(isb(msg0, 177), 'msg0:size', f'first message is {short(msg0)}')
    if dst_of(name) not in msg0:
        j.bad('msg0:dst', f'the first message of protocol {name!r} does not carry its identifier')
    j.ok((tp[0].n, tp[0].t) == (n, t), 'state:nt', 'n, t of the state')
    for i, a in enumerate([s for s in (tp[0],)]):
        j.ok(ctypes.addressof(a) % 64 == 0, 'state:align', 'TP state is not aligned')
    if kind == 2:
        bad = []
        for m in BADNAMES:
            bad.append(('tpdkg_start_tp', (n, t, eps, m, pks)))
        for m in (0, 1, 129, 255, 256, 256 + n, -1, (1 << 32) + n, None, 'n', 2.5):
            bad.append(('tpdkg_start_tp', (m, t, eps, name, pks if not isinstance(m, int) or not 0 < m < 1000 else [pks[0]] * m)))
        for m in (0, 1, n, n + 1, 256 + t, -1, (1 << 32) + t, None, 't', 2.5):
            bad.append(('tpdkg_start_tp', (n, m, eps, name, pks)))
        for m in (-1, 1 << 64, (1 << 64) + 5, None, 'e', 1.5):
            bad.append(('tpdkg_start_tp', (n, t, m, name, pks)))
            bad.append(('tpdkg_peer_start', (m, sks[0], msg0)))
        for m in (pks[:-1], pks + [pks[0]], [p[:-1] for p in pks], [pks[0] + b'\0'] + pks[1:], None, 5, [None] * n, [pks[0][:16], pks[0][16:] + pks[1]] + pks[2:], ['x' * 32] * n, []):
            bad.append(('tpdkg_start_tp', (n, t, eps, name, m)))
        for m in (sks[0][:-1], sks[0] + b'\0', b'', None, 5, sks[0][:32], 'x' * 64):
            bad.append(('tpdkg_peer_start', (eps, m, msg0)))
        for m in (msg0[:-1], msg0 + b'\0', b'', None, 5, msg0[:111], 'x' * 177, bytes(177), rng.b(177)):
            bad.append(('tpdkg_peer_start', (eps, sks[0], m)))
        for fn, a in bad:
            try:
                getattr(pyoprf, fn)(*a)
            except Exception:
                continue
            j.bad(f'{fn}:accepted', f'{fn} accepted {short(a)}')
    peers = []
    try:
        peers = [pyoprf.tpdkg_peer_start(eps, sk, msg0) for sk in sks]
    except Exception as e:
        j.bad('tpdkg_peer_start:raises', f'peer start raised {e!r}')
        return j.rec()
    for p in peers:
        j.ok(ctypes.addressof(p[0]) % 64 == 0, 'state:align', 'peer state is not aligned')
        j.ok(bytes(p[0].sessionid) == bytes(tp[0].sessionid) and (p[0].n, p[0].t) == (n, t) and bytes(p[0].lt_sk) == sks[peers.index(p)],
             'state:peer', 'the state of a peer does not match the start')
    pm = []
    when = rng.randrange(1, 16) if kind == 3 else -1
    rounds = 0
    failed = None
    try:
        while pyoprf.tpdkg_tp_not_done(tp):
            if kind == 2:
                size = pyoprf.tpdkg_tp_input_size(tp)
                msg = b''.join(pm)
                ret, sizes = pyoprf.tpdkg_tp_input_sizes(tp)
                j.ok(len(sizes) == n and (sum(sizes) == size), 'sizes', f'input sizes {sizes} do not add up to {size}')
                if size:
                    for m in (msg[:-1], msg + b'\0', b'', 'x' * size, None, [0] * size):
                        step = tp[0].step
                        try:
                            pyoprf.tpdkg_tp_next(tp, m)
                            j.bad('tp_next:accepted', f'tpdkg_tp_next accepted {short(m)} instead of {size} bytes')
                        except Exception:
                            pass
                        j.ok(tp[0].step == step, 'tp_next:step', 'a refused argument advanced the TP')
            out = pyoprf.tpdkg_tp_next(tp, b''.join(pm))
            pm = []
            first = True
            while not any(pm) and pyoprf.tpdkg_peer_not_done(peers[0]):
                pm = []
                for i in range(n):
                    if first and len(out) > 0:
                        m = pyoprf.tpdkg_tp_peer_msg(tp, out, i)
                        if kind == 2:
                            for x in (-1, n, n + 1, 255, 256 + i, None, 'x', -256 + i):
                                try:
                                    pyoprf.tpdkg_tp_peer_msg(tp, out, x)
                                    j.bad('peer_msg:accepted', f'tpdkg_tp_peer_msg accepted peer {x} of {n}')
                                except Exception:
                                    pass
                    else:
                        m = b''
                    if kind == 2 and len(m):
                        for x in (m[:-1], m + b'\0', b'', 'x' * len(m), None):
                            step = peers[i][0].step
                            try:
                                pyoprf.tpdkg_peer_next(peers[i], x)
                                j.bad('peer_next:accepted', f'tpdkg_peer_next accepted {short(x)} instead of {len(m)} bytes')
                            except Exception:
                                pass
                            j.ok(peers[i][0].step == step, 'peer_next:step', 'a refused argument advanced the peer')
                    o = pyoprf.tpdkg_peer_next(peers[i], m)
                    pm.append(o)
                first = False
                rounds += 1
                if rounds == when and any(pm):
                    i = rng.randrange(n)
                    if pm[i]:
                        b = bytearray(pm[i])
                        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                        pm[i] = bytes(b)
                        failed = i + 1
    except ValueError as e:
        if failed is None:
            j.bad('session:raises', f'an honest session n={n} t={t} raised {e!r} in round {rounds}')
        else:
            ch, why = pyoprf.tpdkg_get_cheaters(tp)
            for p, txt in why:
                j.ok(1 <= p <= n and isinstance(txt, str) and len(txt) > 3, 'cheaters', f'cheater {p}: {txt!r}')
            j.ok(ch == {p for p, _ in why}, 'cheaters:set', f'{ch} {why}')
            j.ok(failed in ch, 'cheaters:missing', f'peer {failed} sent a forged message, {sorted(ch)} were reported')
        for p in peers:
            pyoprf.tpdkg_peer_free(p)
        j.k += ['cheat', rounds]
        return j.rec()
    if failed is None:
        sh = [bytes(p[0].share) for p in peers]
        j.ok([s[0] for s in sh] == list(range(1, n + 1)), 'shares:index', f'indexes {[s[0] for s in sh]}')
        f = r255.coefficients([(s[0], r255.sc(s[1:])) for s in sh])
        j.ok(not any(f[t:]) and f[0] != 0, 'shares', 'the shares are not on a polynomial of degree t-1')
        ch, why = pyoprf.tpdkg_get_cheaters(tp)
        j.ok(not ch and not why, 'cheaters:honest', f'cheaters in an honest session: {ch}')
        j.k.append('done')
    for p in peers:
        pyoprf.tpdkg_peer_free(p)
    return j.rec()


def complaints(rng, no):
    """a session in which peers complain about others without reason"""
    j = J()
    n = rng.randrange(3, 9)
    t = rng.randrange(2, min(n, 5))
    pairs = [(a, b) for a in range(1, n + 1) for b in range(1, n + 1) if a != b]
    rng.shuffle(pairs)
    room = t * t - 1            # records the state created by the module has space for
    pairs = pairs[:rng.choice([1, room, room, room + 1, t * t + 1, len(pairs)])] if no % 3 else pairs[:rng.randrange(1, len(pairs) + 1)]
    j.k = ['complaints', n, t, len(pairs)]
    ks = [pysodium.crypto_sign_keypair() for _ in range(n)]
    tp, msg0 = pyoprf.tpdkg_start_tp(n, t, 1000, 'complaints', [k[0] for k in ks])
    peers = [pyoprf.tpdkg_peer_start(1000, k[1], msg0) for k in ks]
    pm, err = [], None
    try:
        while pyoprf.tpdkg_tp_not_done(tp):
            out = pyoprf.tpdkg_tp_next(tp, b''.join(pm))
            pm, first = [], True
            while not any(pm) and pyoprf.tpdkg_peer_not_done(peers[0]):
                pm = [pyoprf.tpdkg_peer_next(peers[i], pyoprf.tpdkg_tp_peer_msg(tp, out, i) if first and len(out) > 0 else b'') for i in range(n)]
                first = False
                for i in range(n):
                    mine = [b for a, b in pairs if a == i + 1]
                    if len(pm[i]) > 111 and pm[i][64] == 9 and mine:
                        b = bytearray(pm[i][64:])
                        b[47:48 + len(mine)] = bytes([len(mine)] + mine)
                        pm[i] = pysodium.crypto_sign_detached(bytes(b), bytes(peers[i][0].sig_sk)) + bytes(b)
    except ValueError as e:
        err = e
    try:
        ch, why = pyoprf.tpdkg_get_cheaters(tp)
    except Exception as e:
        j.bad('get_cheaters:raises', f'get_cheaters raised {e!r}')
        return j.rec()
    how = f'n={n} t={t}, false complaints (by, about) {pairs[:12]}: '
    j.ok(err is not None, 'complaints:success', how + 'the session succeeds')
    j.ok(all(1 <= p <= n for p in ch), 'complaints:nobody', how + f'{sorted(ch)} are named, which are no peers; {why[:3]}')
    j.ok(all(p in ch for p, _ in why if 1 <= p <= n), 'complaints:set', how + f'{ch} {why}')
    want = {a for a, _ in pairs}
    j.ok({p for p in ch if 1 <= p <= n} <= want, 'complaints:innocent', how + f'{sorted(ch)} are named; {why[:4]}')
    if len(pairs) <= room:
        j.ok(want <= ch, 'complaints:missing', how + f'only {sorted(ch)} are named; {why[:4]}')
        j.ok(len(why) == len(pairs), 'complaints:reasons', how + f'{len(why)} reasons: {why[:4]}')
    for p in peers:
        pyoprf.tpdkg_peer_free(p)
    return j.rec()


# ---- Noise -----------------------------------------------------------------------------------------------------------

NX_NAMES = ['Alice', b'Alice', 'Älice', 'x', 'n' * 200]
PROLOGUES = ['liboprf-noiseXK test', b'liboprf-noiseXK test', '', b'', 'prolog ☃', b'\xff\x01', 'p' * 300, 'ä']


def tob(x):
    return x.encode('utf8') if isinstance(x, str) else x


def nx_early(s, payload):
    """the next message of the handshake with a payload for which no secrecy is asked"""
    p = noisexk.lib.Noise_XK_pack_message_with_conf_level(0, len(payload), payload)
    n, m = ctypes.c_uint32(), ctypes.POINTER(ctypes.c_ubyte)()
    if noisexk.lib.Noise_XK_session_write(ctypes.c_void_p(p), s, ctypes.byref(n), ctypes.byref(m)).tag:
        raise ValueError('early message')
    noisexk.lib.Noise_XK_encap_message_p_free(p)
    r = bytes(m[:n.value])
    noisexk.libc.free(m)
    return r


def noise(rng, no):
    j = J()
    a, b = rng.b(32), rng.b(32)
    kind = rng.randrange(7)
    pro = PROLOGUES[no % len(PROLOGUES)]
    pro2 = rng.choice([tob(pro), pro])
    if kind == 1:
        pro2 = rng.choice([p for p in PROLOGUES + ['liboprf-noiseXK tesu'] if tob(p) != tob(pro)])
    j.k = ['noise', kind, no % len(PROLOGUES)]
    pa, pb = noisexk.pubkey(a), noisexk.pubkey(b)
    j.ok(pa == noisexk_ref.x25519(a, noisexk_ref.BASE) and pb == noisexk_ref.x25519(b, noisexk_ref.BASE), 'pubkey', 'wrong public key')
    nm = rng.choice(NX_NAMES)
    auth = rng.random() < 0.8
    deva = noisexk.create_device(pro, rng.choice(NX_NAMES), a)
    devb = noisexk.create_device(pro2, 'Bob', b)
    j.ok(bool(deva) and bool(devb), 'device', 'no device')
    for bad in (a[:-1], a + b'\0', b'', None, 'x' * 32, 5, list(a), a[:16]):
        for f in (lambda k: noisexk.pubkey(k), lambda k: noisexk.create_device('p', 'n', k), lambda k: noisexk.add_peer(deva, 'peer', k)):
            try:
                r = f(bad)
                if not (isinstance(bad, (bytearray, list)) and r == pa):
                    j.bad('key:accepted', f'a key of {short(bad)} was accepted')
            except Exception:
                pass
    peer = noisexk.add_peer(deva, 'Bob', pb)
    j.ok(bool(peer), 'add_peer', 'peer not added')
    try:
        noisexk.get_peerid(None)
        j.bad('peerid:none', 'get_peerid of no peer returns')
    except Exception:
        pass
    if auth:
        j.ok(bool(noisexk.add_peer(devb, nm, pa)), 'add_peer', 'peer not added')
    sa = noisexk.create_session_initiator(deva, noisexk.get_peerid(peer))
    sb = noisexk.create_session_responder(devb)
    for s, d in ((sb, devb),):
        try:
            noisexk.get_pubkey(s, d)
            j.bad('get_pubkey:early', 'get_pubkey returns a key before the handshake')
        except Exception:
            pass
    try:
        noisexk.create_session_initiator(deva, 77777)
        j.bad('initiator:nopeer', 'a session with an unknown peer was created')
    except Exception:
        pass

    def exp(ok, key, f, *x):
        try:
            r = f(*x)
        except Exception as e:
            j.ok(not ok, key + ':raises', f'{key} raised {e!r}')
            return None
        j.ok(ok, key + ':accepted', f'{key} accepted a message it must refuse')
        return r
    early = [rng.b(rng.choice([1, 16, 100])), rng.choice([b'', rng.b(20)])] if kind == 6 or kind in (0, 5) and rng.randrange(2) else [b'', b'']
    if kind == 5:
        # before the handshake is over what is sent would not be secret
        exp(False, 'send:first', noisexk.send_msg, sa, rng.choice(['early', rng.b(40)]))
        exp(False, 'turn', noisexk.send_msg, sb, 'early')
    m1 = exp(True, 'first', *([nx_early, sa, early[0]] if early[0] else [noisexk.initiator_1st_msg, sa]))
    if m1 is None:
        return j.rec()
    j.ok(isb(m1) and len(m1) == 48 + len(early[0]), 'first:size', 'size of the first message')
    if kind == 2:
        w = bytearray(m1)
        if rng.randrange(2):
            w[rng.randrange(len(w))] ^= 1 << rng.randrange(7)
        else:
            w = w[:rng.randrange(len(w))]
        exp(False, 'tampered1', noisexk.responder_1st_msg, sb, bytes(w))
        return j.rec()
    if kind == 6:
        # anybody may have written this
        exp(False, 'read:unauthenticated', noisexk.read_msg, sb, m1)
        if rng.randrange(4):
            return j.rec()
        sb = noisexk.create_session_responder(devb)
    m2 = exp(kind != 1, 'second', noisexk.responder_1st_msg, sb, m1)
    if m2 is None:
        return j.rec()
    j.ok(isb(m2) and len(m2) == 48, 'second:size', 'size of the second message')
    if kind == 5 and rng.randrange(2):
        sc = noisexk.create_session_responder(devb)
        e = ctypes.c_void_p()
        u = (ctypes.c_ubyte * len(m1))(*m1)
        if noisexk.lib.Noise_XK_session_read(ctypes.byref(e), sc, len(m1), u).tag == 0:
            exp(False, 'send:second', noisexk.send_msg, sc, 'early')
            if early[1]:
                r = exp(True, 'second:early', nx_early, sc, early[1])
                if r is None:
                    return j.rec()
                sb, m2 = sc, r
    if kind == 3:
        w = bytearray(m2)
        w[rng.randrange(32, len(w))] ^= 1 << rng.randrange(8)
        exp(False, 'tampered2', noisexk.initiator_handshake_finish, sa, bytes(w))
        return j.rec()
    exp(True, 'finish', noisexk.initiator_handshake_finish, sa, m2)
    first = True
    count = 0
    for _ in range(rng.randrange(2, 12)):
        d = 0 if first else rng.randrange(2)
        s, r = (sa, sb) if d == 0 else (sb, sa)
        pt = rng.choice(['hello', 'grüß ☃', b'', b'\0\xff', rng.b(rng.randrange(1, 3000)), 'x'])
        if no % 4 == 3 and rng.randrange(4) == 0:
            pt = (rng.b(61) * 4400)[:rng.choice([65535, 65536, 65537, 131072, 262144 + rng.randrange(5), rng.randrange(60000, 260000)])]
        ct = exp(True, 'send', noisexk.send_msg, s, pt)
        if ct is None:
            return j.rec()
        if first and not auth:
            # an unknown static key in the third message must not be accepted
            exp(False, 'unknown peer', noisexk.read_msg, r, ct)
            return j.rec()
        if kind == 4 and rng.randrange(4) == 0:
            w = bytearray(ct)
            w[rng.randrange(len(w))] ^= 1 << rng.randrange(8)
            exp(False, 'tampered', noisexk.read_msg, r, bytes(w))
            if first:
                return j.rec()
        got = exp(True, 'read', noisexk.read_msg, r, ct)
        j.ok(got == tob(pt), 'read:text', f'sent {short(pt)}, received {short(got)}')
        count += 1
        if first:
            k = exp(True, 'get_pubkey', noisexk.get_pubkey, sb, devb)
            j.ok(k == pa, 'get_pubkey', 'wrong key of the peer')
            k = exp(True, 'get_pubkey', noisexk.get_pubkey, sa, deva)
            j.ok(k == pb, 'get_pubkey', 'wrong key of the peer')
        first = False
    j.k += [auth, count]
    # the simple interface
    pargs = rng.choice([{}, {'dst': pro}])
    s1 = exp(True, 'initiator_session', lambda: noisexk.initiator_session(a, pb, **pargs))
    if s1:
        s2 = exp(True, 'responder_session', lambda: noisexk.responder_session(b, [(noisexk_ref.x25519(rng.b(32), noisexk_ref.BASE), 'other'), (pa, nm)], s1[1], **pargs))
        if s2:
            exp(True, 'complete', noisexk.initiator_session_complete, s1[0], s2[1])
            ct = exp(True, 'send', noisexk.send_msg, s1[0], 'msg ☃')
            j.ok(exp(True, 'read', noisexk.read_msg, s2[0], ct) == 'msg ☃'.encode(), 'simple:text', 'wrong text')
    return j.rec()


# ---- a Noise peer that is not this library

LOW = [x.to_bytes(32, 'little') for x in (
    0, 1, 325606250916557431795983626356110631294008115727848805560023387167927233504,
    39382357235489614581723060781553021112529911719440698176882885853963445705823,
    2**255 - 20, 2**255 - 19, 2**255 - 18)]


class NxPeer(noisexk_ref.Session):
    """one side of a handshake, knows only its own private keys"""

    def __init__(self, prologue, SR):
        name = b'Noise_XK_25519_ChaChaPoly_BLAKE2b'
        self.ck = self.h = name + bytes(64 - len(name))
        self.k, self.n = None, 0
        self.mix(prologue)
        self.mix(SR)

    def write(self, E, dh, payload):
        self.mix(E)
        self.key(dh)
        return E + self.enc(payload)

    def read(self, E, dh, ct, pt):
        """whether ct is the encryption of pt"""
        self.mix(E)
        self.key(dh)
        return self.enc(pt) == ct


def foreign(rng, no):
    """the module talks to a peer written from the specification; points without a secret must be refused"""
    j = J()
    kind = no % 5               # 0 nothing wrong, 1 to 3 in that message, 4 static key of the responder
    lib_first = kind in (2, 4) or kind == 0 and no // 5 % 2
    low = LOW[no // 5 % len(LOW)]
    if rng.randrange(2):
        low = low[:31] + bytes([low[31] | 128])
    pro = rng.b(rng.choice([0, 1, 20, 127, 128, 129, 300]))
    a, b, e = rng.b(32), rng.b(32), rng.b(32)
    X = noisexk_ref.x25519
    pa, pb, E = (X(x, noisexk_ref.BASE) for x in (a, b, e))
    j.k = ['foreign', kind, int(bool(lib_first)), len(pro), low.hex() if kind else '']

    def refused(key, f, *x):
        try:
            f(*x)
        except Exception:
            return
        j.bad(key, f'{key}: a public key whose shared secrets are all zero ({low.hex()}) was accepted')
    if kind == 4:
        dev = noisexk.create_device(pro, 'Alice', a)

        def start():
            peer = noisexk.add_peer(dev, 'Bob', low)
            return noisexk.initiator_1st_msg(noisexk.create_session_initiator(dev, noisexk.get_peerid(peer)))
        refused('low:static', start)
        return j.rec()
    try:
        s = NxPeer(pro, pb)
        if lib_first:
            dev = noisexk.create_device(pro, 'Alice', a)
            peer = noisexk.add_peer(dev, 'Bob', pb)
            sa = noisexk.create_session_initiator(dev, noisexk.get_peerid(peer))
            m1 = noisexk.initiator_1st_msg(sa)
            EI = m1[:32]
            j.ok(s.read(EI, X(b, EI), m1[32:], b''), 'message1', 'the first message is not what the specification says')
            if kind == 2:
                refused('low:second', noisexk.initiator_handshake_finish, sa, s.write(low, bytes(32), b''))
                return j.rec()
            noisexk.initiator_handshake_finish(sa, s.write(E, X(e, EI), b''))
            pt = rng.b(rng.randrange(1, 200))
            m3 = noisexk.send_msg(sa, pt)
            j.ok(s.enc(pa) == m3[:48], 'message3', 'the third message does not hold the static key')
            s.key(X(e, pa))
            j.ok(s.enc(pt) == m3[48:], 'message3', 'the third message is not what the specification says')
            k = noisexk_ref.hkdf(s.ck, b'')
            for i in range(3):
                pt = rng.b(rng.randrange(0, 200))
                j.ok(noisexk.read_msg(sa, noisexk_ref.aead(k[1][:32], i, b'', pt)) == pt, 'read', 'wrong text')
                j.ok(noisexk.send_msg(sa, pt) == noisexk_ref.aead(k[0][:32], i, b'', pt), 'send', 'a message is not what the specification says')
        else:
            dev = noisexk.create_device(pro, 'Bob', b)
            noisexk.add_peer(dev, 'Alice', low if kind == 3 else pa)
            sb = noisexk.create_session_responder(dev)
            if kind == 1:
                refused('low:first', noisexk.responder_1st_msg, sb, s.write(low, bytes(32), b''))
                return j.rec()
            m2 = noisexk.responder_1st_msg(sb, s.write(E, X(e, pb), b''))
            ER = m2[:32]
            j.ok(s.read(ER, X(e, ER), m2[32:], b''), 'message2', 'the second message is not what the specification says')
            m3 = s.enc(low if kind == 3 else pa)
            s.key(bytes(32) if kind == 3 else X(a, ER))
            pt = rng.b(rng.randrange(1, 200))
            m3 += s.enc(pt)
            if kind == 3:
                refused('low:third', noisexk.read_msg, sb, m3)
                return j.rec()
            j.ok(noisexk.read_msg(sb, m3) == pt, 'read', 'wrong text')
            k = noisexk_ref.hkdf(s.ck, b'')
            for i in range(3):
                pt = rng.b(rng.randrange(0, 200))
                j.ok(noisexk.read_msg(sb, noisexk_ref.aead(k[0][:32], i, b'', pt)) == pt, 'read', 'wrong text')
                j.ok(noisexk.send_msg(sb, pt) == noisexk_ref.aead(k[1][:32], i, b'', pt), 'send', 'a message is not what the specification says')
    except Exception as ex:
        j.bad('refused', f'talking to a peer that follows the specification failed: {ex!r}')
    return j.rec()


# ---- several threads

def threads(rng, no):
    """the same functions from several threads at once, each with its own arguments and states"""
    j = J()
    n = rng.randrange(2, 7)
    kind = no % 4               # 0, 1 one function in all threads, 2 any functions, 3 whole sessions
    fns = list(REF)
    fn = fns[no // 4 % len(fns)]
    todo, done, start = [[] for _ in range(n)], [[] for _ in range(n)], threading.Barrier(n)
    if kind < 3:
        for i in range(n):
            for _ in range(4):
                f = fn if kind < 2 else rng.choice(fns)
                a = valid(rng, f)
                todo[i].append((f, a, REF[f](*a)))
    else:
        for i in range(n):
            todo[i] = [(rng.choice([tpdkg, noise]), Rng(rng.b(32)), rng.randrange(1000)) for _ in range(2)]

    def work(i):
        start.wait()
        for x in todo[i] * (3 if kind < 3 else 1):
            try:
                done[i].append((x, None, x[0](x[1], x[2]) if kind == 3 else getattr(pyoprf, x[0])(*x[1])))
            except Exception as e:
                done[i].append((x, e, None))
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.setswitchinterval(old)
    calls = 0
    for i in range(n):
        for x, e, res in done[i]:
            calls += 1
            if e is not None:
                if kind == 3:
                    raise e
                j.bad(f'{x[0]}:raises', f'{x[0]} in one of {n} threads raised {e!r} for valid arguments {short(x[1])}')
            elif kind == 3:
                for k, text in res['v']:
                    j.bad(k, f'one of {n} threads: ' + text)
            else:
                try:
                    e = x[2](res)
                except Exception as y:
                    e = f'result of wrong shape: {y!r}'
                j.ok(e is None, x[0], f'{x[0]}({short(x[1])}) = {short(res)} in one of {n} threads: {e}')
    j.k = [kind, n, fn if kind < 2 else sorted({x[0] if kind < 3 else x[0].__name__ for t in todo for x in t})]
    return j.rec(calls=calls)


# ---- memory that is not given back

ASAN_HELD = None


def held():
    """bytes held through malloc, blocks held by Python"""
    global ASAN_HELD
    if ASAN_HELD is None:
        ASAN_HELD = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
        ASAN_HELD.restype = ctypes.c_size_t
    gc.collect()
    return ASAN_HELD(), sys.getallocatedblocks()


def nx_free(sessions, devices):
    # the module has no functions for this
    for s in sessions:
        noisexk.lib.Noise_XK_session_free(ctypes.c_void_p(s))
    for d in devices:
        noisexk.lib.Noise_XK_device_free(ctypes.c_void_p(d))


def refused(f, *a):
    try:
        f(*a)
    except Exception:
        return
    raise RuntimeError(f'{f.__name__} accepted what it should refuse')


def nx_flip(m, rng):
    w = bytearray(m)
    w[rng.randrange(len(w))] ^= 1 << rng.randrange(7)
    return bytes(w)


def nx_pair(a, b, early=b'', stop=None, rng=None):
    """the handshake as far as wanted; returns sessions and devices"""
    da, db = noisexk.create_device('leak', 'Alice', a), noisexk.create_device('leak', 'Bob', b)
    peer = noisexk.add_peer(da, 'Bob', noisexk.pubkey(b))
    noisexk.add_peer(db, 'Alice', noisexk.pubkey(a))
    sa, sb = noisexk.create_session_initiator(da, noisexk.get_peerid(peer)), noisexk.create_session_responder(db)
    r = [sa, sb], [da, db]
    if stop == 'unsent':
        refused(noisexk.send_msg, sa, b'early' * 30)
    m1 = nx_early(sa, early) if early else noisexk.initiator_1st_msg(sa)
    if stop == 'turn':
        refused(noisexk.initiator_1st_msg, sa)
        return r
    if stop == 'unread':
        refused(noisexk.read_msg, sb, m1)
        return r
    if stop == 'first':
        refused(noisexk.responder_1st_msg, sb, nx_flip(m1, rng))
        return r
    m2 = noisexk.responder_1st_msg(sb, m1)
    if stop == 'second':
        refused(noisexk.initiator_handshake_finish, sa, nx_flip(m2[32:], rng))
        return r
    noisexk.initiator_handshake_finish(sa, m2)
    if noisexk.read_msg(sb, noisexk.send_msg(sa, 'hello')) != b'hello':
        raise RuntimeError('not what was sent')
    return r


def leak(rng, no):
    """the same call again and again must not hold more and more memory"""
    j = J()
    kind = ('call', 'refused call', 'message', 'handshake', 'call', 'refused call', 'message', 'session')[no % 8]
    end = lambda: None
    times = 24
    if kind in ('call', 'refused call'):
        fns = [f for f in REF if kind == 'call' or f != 'keygen']
        fn = fns[no // 8 % len(fns)]
        a = valid(rng, fn)
        if kind == 'refused call':
            i = rng.randrange(len(a))
            a = list(a)
            a[i] = rng.choice(mutations(rng, a[i], a))

        def op():
            try:
                getattr(pyoprf, fn)(*a)
            except Exception:
                if kind == 'call':
                    raise
        j.k = [kind, fn]
    elif kind == 'message':
        a, b = rng.b(32), rng.b(32)
        ss, ds = nx_pair(a, b)
        pt, back = rng.b(rng.choice([0, 1, 16, 100, 4000])), rng.randrange(2)
        s, r = ss if not back else ss[::-1]
        tamper = rng.choice([None, 'flip', 'cut'])
        if tamper and not pt:
            pt = b'x'

        def op():
            ct = noisexk.send_msg(s, pt)
            if tamper:
                refused(noisexk.read_msg, r, nx_flip(ct, rng) if tamper == 'flip' else ct[:-1])
            if noisexk.read_msg(r, ct) != pt:
                raise RuntimeError('not what was sent')
        j.k = [kind, len(pt), back, tamper]

        def end():
            nx_free(ss, ds)
    elif kind == 'handshake':
        a, b = rng.b(32), rng.b(32)
        early = rng.choice([b'', rng.b(50)])
        stop = (None, 'unsent', 'turn', 'unread', 'first', 'second')[no // 8 % 6]
        if stop == 'unread':
            early = rng.b(50)

        def op():
            nx_free(*nx_pair(a, b, early, stop, rng))
        j.k = [kind, stop, bool(early)]
    else:
        n, t, stop = 3, 2, rng.choice([99, rng.randrange(1, 12)])
        ks = [pysodium.crypto_sign_keypair() for _ in range(n)]
        times = 4

        def op():
            tp, msg0 = pyoprf.tpdkg_start_tp(n, t, 3600, 'leak', [k[0] for k in ks])
            peers = [pyoprf.tpdkg_peer_start(3600, k[1], msg0) for k in ks]
            pm, rounds = [], 0
            while pyoprf.tpdkg_tp_not_done(tp) and rounds < stop:
                out = pyoprf.tpdkg_tp_next(tp, b''.join(pm))
                pm, first = [], True
                while not any(pm) and pyoprf.tpdkg_peer_not_done(peers[0]):
                    pm = [pyoprf.tpdkg_peer_next(peers[i], pyoprf.tpdkg_tp_peer_msg(tp, out, i) if first and len(out) > 0 else b'') for i in range(n)]
                    first = False
                    rounds += 1
            if rounds >= stop and any(pm):
                try:
                    pyoprf.tpdkg_tp_next(tp, nx_flip(b''.join(pm), rng))
                except ValueError:
                    pass
            pyoprf.tpdkg_get_cheaters(tp)
            for p in peers:
                pyoprf.tpdkg_peer_free(p)
        j.k = [kind, stop]
    grown = []
    try:
        for _ in range(3):
            op()
        for _ in range(3):
            before = held()
            for _ in range(times):
                op()
            after = held()
            grown.append((after[0] - before[0], after[1] - before[1]))
            if grown[-1][0] < 8 * times and grown[-1][1] < times:
                break
        end()
    except Exception as e:
        return j.rec(grown=[], raised=repr(e))      # other checks judge this
    what = ':'.join(str(x) for x in j.k[:2]) if kind != 'message' and kind != 'session' else kind + (':' + j.k[3] if kind == 'message' and j.k[3] else '')
    j.ok(min(g[0] for g in grown) < 8 * times, what, f'{j.k}: {min(g[0] for g in grown)} bytes are kept by {times} repetitions')
    j.ok(min(g[1] for g in grown) < times, what + ':objects', f'{j.k}: {min(g[1] for g in grown)} blocks are kept by {times} repetitions')
    return j.rec(grown=grown)


run({'values': values, 'args': args, 'tpdkg': tpdkg, 'noise': noise, 'complaints': complaints, 'foreign': foreign, 'threads': threads, 'leak': leak})
