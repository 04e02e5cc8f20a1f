"""Independent reference: ristretto255 (RFC 9496), expand_message_xmd (RFC 9380) and
OPRF(ristretto255, SHA-512) base mode (RFC 9497), on Python integers."""
import functools, hashlib

P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P
D2 = 2 * D % P
SQRT_M1 = pow(2, (P - 1) // 4, P)


def _neg(x):
    return x & 1


def _abs(x):
    return P - x if x & 1 else x


def sqrt_ratio_m1(u, v):
    v3 = v * v % P * v % P
    v7 = v3 * v3 % P * v % P
    r = u * v3 % P * pow(u * v7 % P, (P - 5) // 8, P) % P
    check = v * r % P * r % P
    correct = check == u % P
    flipped = check == (-u) % P
    flipped_i = check == (-u * SQRT_M1) % P
    if flipped or flipped_i:
        r = r * SQRT_M1 % P
    return (correct or flipped), _abs(r)


_ok, INVSQRT_A_MINUS_D = sqrt_ratio_m1(1, (-1 - D) % P)
assert _ok
ONE_MINUS_D_SQ = (1 - D * D) % P
D_MINUS_ONE_SQ = (D - 1) * (D - 1) % P
# SQRT_AD_MINUS_ONE as published in RFC 9496
SQRT_AD_MINUS_ONE = 25063068953384623474111414158702152701244531502492656460079210482610430750235
assert SQRT_AD_MINUS_ONE * SQRT_AD_MINUS_ONE % P == (-D - 1) % P

ID = (0, 1, 1, 0)


def add(p, q):
    x1, y1, z1, t1 = p
    x2, y2, z2, t2 = q
    a = (y1 - x1) * (y2 - x2) % P
    b = (y1 + x1) * (y2 + x2) % P
    c = t1 * D2 % P * t2 % P
    d = 2 * z1 * z2 % P
    e = b - a
    f = d - c
    g = d + c
    h = b + a
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def neg(p):
    return (-p[0] % P, p[1], p[2], -p[3] % P)


def dbl(p):
    x, y, z, _ = p
    a = x * x % P
    b = y * y % P
    c = 2 * z * z % P
    e = ((x + y) * (x + y) - a - b) % P
    g = b - a
    f = g - c
    h = -a - b
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def mul(k, p):
    """k*p, 4-bit windows"""
    k %= L
    if k == 0:
        return ID
    tab = [ID, p]
    for i in range(2, 16):
        tab.append(add(tab[i - 1], p))
    r = None
    for sh in range((k.bit_length() + 3) // 4 * 4 - 4, -4, -4):
        w = (k >> sh) & 15
        if r is None:
            r = tab[w]
            continue
        r = dbl(dbl(dbl(dbl(r))))
        if w:
            r = add(r, tab[w])
    return r


def equal(p, q):
    return (p[0] * q[1] - p[1] * q[0]) % P == 0 or (p[1] * q[1] - p[0] * q[0]) % P == 0


def decode(b):
    """32 bytes -> point, or None when it is not a canonical encoding"""
    if len(b) != 32:
        return None
    s = int.from_bytes(b, 'little')
    if s >= P or s & 1:
        return None
    ss = s * s % P
    u1 = (1 - ss) % P
    u2 = (1 + ss) % P
    u2s = u2 * u2 % P
    v = (-(D * u1 % P * u1) - u2s) % P
    ok, inv = sqrt_ratio_m1(1, v * u2s % P)
    dx = inv * u2 % P
    dy = inv * dx % P * v % P
    x = _abs(2 * s * dx % P)
    y = u1 * dy % P
    t = x * y % P
    if not ok or _neg(t) or y == 0:
        return None
    return (x, y, 1, t)


def encode(p):
    x0, y0, z0, t0 = p
    u1 = (z0 + y0) * (z0 - y0) % P
    u2 = x0 * y0 % P
    _, inv = sqrt_ratio_m1(1, u1 * u2 % P * u2 % P)
    d1 = inv * u1 % P
    d2 = inv * u2 % P
    zinv = d1 * d2 % P * t0 % P
    if _neg(t0 * zinv % P):
        x, y = y0 * SQRT_M1 % P, x0 * SQRT_M1 % P
        den = d1 * INVSQRT_A_MINUS_D % P
    else:
        x, y, den = x0, y0, d2
    if _neg(x * zinv % P):
        y = -y % P
    return _abs(den * (z0 - y) % P).to_bytes(32, 'little')


def _map(t):
    r = SQRT_M1 * t % P * t % P
    u = (r + 1) * ONE_MINUS_D_SQ % P
    v = (-1 - r * D) * (r + D) % P
    was_square, s = sqrt_ratio_m1(u, v)
    if was_square:
        c = P - 1
    else:
        s = -_abs(s * t % P) % P
        c = r
    n = (c * (r - 1) % P * D_MINUS_ONE_SQ - v) % P
    w0 = 2 * s * v % P
    w1 = n * SQRT_AD_MINUS_ONE % P
    w2 = (1 - s * s) % P
    w3 = (1 + s * s) % P
    return (w0 * w3 % P, w2 * w1 % P, w1 * w3 % P, w0 * w2 % P)


def from_hash(h):
    assert len(h) == 64
    m = 2**255 - 1
    return add(_map(int.from_bytes(h[:32], 'little') & m), _map(int.from_bytes(h[32:], 'little') & m))


G = decode(bytes.fromhex('e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76'))
assert G is not None

_gtab = []


def mul_base(k):
    global _gtab
    if not _gtab:
        b = G
        for _ in range(64):
            row = [ID]
            for i in range(15):
                row.append(add(row[-1], b))
            _gtab.append(row)
            b = add(row[15], b)
    k %= L
    r = ID
    i = 0
    while k:
        w = k & 15
        if w:
            r = add(r, _gtab[i][w])
        k >>= 4
        i += 1
    return r


# -- RFC 9380 ---------------------------------------------------------------------------------

def expand_message_xmd(msg, dst, n):
    ell = (n + 63) // 64
    if ell > 255 or n > 65535 or len(dst) > 255:
        return None
    dp = dst + bytes([len(dst)])
    b0 = hashlib.sha512(b'\0' * 128 + msg + n.to_bytes(2, 'big') + b'\0' + dp).digest()
    bi = hashlib.sha512(b0 + b'\1' + dp).digest()
    out = bi
    for i in range(2, ell + 1):
        bi = hashlib.sha512(bytes(a ^ b for a, b in zip(b0, bi)) + bytes([i]) + dp).digest()
        out += bi
    return out[:n]


H2G_DST = b'HashToGroup-OPRFV1-\0-ristretto255-SHA512'


def hash_to_group(msg):
    return from_hash(expand_message_xmd(msg, H2G_DST, 64))


# -- RFC 9497 ---------------------------------------------------------------------------------

def finalize(x, n):
    return hashlib.sha512(len(x).to_bytes(2, 'big') + x + len(n).to_bytes(2, 'big') + n + b'Finalize').digest()


def oprf(k, x):
    return finalize(x, encode(mul(k, hash_to_group(x))))


# -- polynomials over the scalar field --------------------------------------------------------

def sc(b):
    return int.from_bytes(b, 'little')


@functools.lru_cache(4096)
def inv(a):
    return pow(a % L, L - 2, L)


def lagrange_at(xs, at):
    """coefficients c_i with f(at) = sum c_i f(x_i)"""
    res = []
    for i, xi in enumerate(xs):
        num, den = 1, 1
        for j, xj in enumerate(xs):
            if i != j:
                num = num * (at - xj) % L
                den = den * (xi - xj) % L
        res.append(num * inv(den) % L)
    return res


def interp(points, at):
    xs = [x for x, _ in points]
    return sum(c * y for c, (_, y) in zip(lagrange_at(xs, at), points)) % L


_INV = {}


def small_inv(d):
    if d not in _INV:
        _INV[d] = inv(d)
    return _INV[d]


def coefficients(points):
    """coefficients of the unique polynomial of degree < len(points)"""
    n = len(points)
    # Newton divided differences, then expansion
    xs = [x for x, _ in points]
    dd = [y % L for _, y in points]
    for k in range(1, n):
        for i in range(n - 1, k - 1, -1):
            dd[i] = (dd[i] - dd[i - 1]) * small_inv(xs[i] - xs[i - k]) % L
    poly = [0] * n
    poly[0] = dd[n - 1]
    deg = 0
    for i in range(n - 2, -1, -1):
        for j in range(deg + 1, 0, -1):
            poly[j] = (poly[j - 1] - xs[i] * poly[j]) % L
        poly[0] = (dd[i] - xs[i] * poly[0]) % L
        deg += 1
    return poly


def eval_poly(poly, x):
    r = 0
    for c in reversed(poly):
        r = (r * x + c) % L
    return r
