"""Noise_XK_25519_ChaChaPoly_BLAKE2b from the Noise specification (revision 34), RFC 7748 and RFC 8439."""
import hashlib, hmac, struct

P = 2**255 - 19


def x25519(k, u):
    k = bytearray(k)
    k[0] &= 248
    k[31] = (k[31] & 127) | 64
    k = int.from_bytes(k, 'little')
    x1 = (int.from_bytes(u, 'little') & (2**255 - 1)) % P
    x2, z2, x3, z3, swap = 1, 0, x1, 1, 0
    for t in range(254, -1, -1):
        b = (k >> t) & 1
        if swap ^ b:
            x2, x3, z2, z3 = x3, x2, z3, z2
        swap = b
        a, s = x2 + z2, x2 - z2
        aa, bb = a * a % P, s * s % P
        e = aa - bb
        c, d = x3 + z3, x3 - z3
        da, cb = d * a % P, c * s % P
        x3 = (da + cb) ** 2 % P
        z3 = x1 * (da - cb) ** 2 % P
        x2 = aa * bb % P
        z2 = e * (aa + 121665 * e) % P
    if swap:
        x2, z2 = x3, z3
    return (x2 * pow(z2, P - 2, P) % P).to_bytes(32, 'little')


BASE = (9).to_bytes(32, 'little')
M32 = 0xffffffff


def _block(key, ctr, nonce):
    s = list(struct.unpack('<4I', b'expand 32-byte k') + struct.unpack('<8I', key) + (ctr,) + struct.unpack('<3I', nonce))
    w = s[:]

    def qr(a, b, c, d):
        w[a] = (w[a] + w[b]) & M32; x = w[d] ^ w[a]; w[d] = ((x << 16) | (x >> 16)) & M32
        w[c] = (w[c] + w[d]) & M32; x = w[b] ^ w[c]; w[b] = ((x << 12) | (x >> 20)) & M32
        w[a] = (w[a] + w[b]) & M32; x = w[d] ^ w[a]; w[d] = ((x << 8) | (x >> 24)) & M32
        w[c] = (w[c] + w[d]) & M32; x = w[b] ^ w[c]; w[b] = ((x << 7) | (x >> 25)) & M32
    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return struct.pack('<16I', *((a + b) & M32 for a, b in zip(w, s)))


def _pad16(b):
    return b + bytes(-len(b) % 16)


def aead(key, n, ad, pt):
    nonce = bytes(4) + struct.pack('<Q', n)
    ct = bytearray()
    for i in range(0, len(pt), 64):
        ks = _block(key, 1 + i // 64, nonce)
        ct += bytes(a ^ b for a, b in zip(pt[i:i + 64], ks))
    ct = bytes(ct)
    ok = _block(key, 0, nonce)
    r = int.from_bytes(ok[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(ok[16:32], 'little')
    data = _pad16(ad) + _pad16(ct) + struct.pack('<QQ', len(ad), len(ct))
    acc, p = 0, 2**130 - 5
    for i in range(0, len(data), 16):
        acc = (acc + int.from_bytes(data[i:i + 16] + b'\1', 'little')) * r % p
    return ct + ((acc + s) & (2**128 - 1)).to_bytes(16, 'little')


def H(b):
    return hashlib.blake2b(b).digest()


def _hm(k, b):
    return hmac.new(k, b, hashlib.blake2b).digest()


def hkdf(ck, ikm):
    t = _hm(ck, ikm)
    a = _hm(t, b'\1')
    return a, _hm(t, a + b'\2')


class Session:
    """both parties at once: writes the messages an honest pair exchanges"""

    def __init__(self, prologue, si, sr, ei, er):
        self.si, self.sr, self.ei, self.er = si, sr, ei, er
        self.SI, self.SR, self.EI, self.ER = (x25519(x, BASE) for x in (si, sr, ei, er))
        name = b'Noise_XK_25519_ChaChaPoly_BLAKE2b'
        self.h = name + bytes(64 - len(name)) if len(name) <= 64 else H(name)
        self.ck, self.k, self.n = self.h, None, 0
        self.mix(prologue)
        self.mix(self.SR)
        self.step = 0

    def mix(self, b):
        self.h = H(self.h + b)

    def key(self, dh):
        self.ck, k = hkdf(self.ck, dh)
        self.k, self.n = k[:32], 0

    def enc(self, pt):
        c = aead(self.k, self.n, self.h, pt)
        self.n += 1
        self.mix(c)
        return c

    def handshake(self, payload):
        if self.step == 0:
            out = self.EI
            self.mix(self.EI)
            self.key(x25519(self.ei, self.SR))
        elif self.step == 1:
            out = self.ER
            self.mix(self.ER)
            self.key(x25519(self.er, self.EI))
        else:
            out = self.enc(self.SI)
            self.key(x25519(self.si, self.ER))
        out += self.enc(payload)
        self.step += 1
        if self.step == 3:
            a, b = hkdf(self.ck, b'')
            self.tk, self.tn = [a[:32], b[:32]], [0, 0]
        return out

    def transport(self, d, payload):
        c = aead(self.tk[d], self.tn[d], b'', payload)
        self.tn[d] += 1
        return c


def selftest():
    assert x25519(bytes.fromhex('a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4'),
                  bytes.fromhex('e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c')).hex() == \
        'c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552'
    k = bytes(range(0x80, 0xa0))
    # RFC 8439 2.8.2 uses the constant 07000000 in the nonce, so check the block function and Poly1305 through 2.3.2 and 2.6.2
    assert _block(bytes(range(32)), 1, bytes.fromhex('000000090000004a00000000'))[:16].hex() == '10f1e7e4d13b5915500fdd1fa32071c4'
    assert _block(k, 0, bytes.fromhex('000000000001020304050607'))[:32].hex() == \
        '8ad5a08b905f81cc815040274ab29471a833b637e3fd0da508dbb8e2fdd1a646'
