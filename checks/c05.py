"""C05: 3HashTDH responses combine to the plain function exactly when session and blinded element agree."""
import hashlib
import vlib, r255
from prim import drive, h


def judge(r):
    v = []
    if r['rc'] or r['r'] or r['r2']:
        return [('error', f"calls returned {r['rc']},{r['r']},{r['r2']} for n={r['n']} t={r['t']}")], None, None
    alpha, k = h(r['alpha']), r255.sc(h(r['k']))
    want = r255.encode(r255.mul(k, r255.decode(alpha)))
    got = h(r['res'])
    var = r['variant']
    if var <= 2 and got != want:
        v.append(('mismatch', f"n={r['n']} t={r['t']} set={r['set']} ssid of {len(r['ssid']) // 2} bytes: combination is not k*alpha"))
    if var >= 3 and got == want:
        v.append((f'variant{var}', f"n={r['n']} t={r['t']}: combination is k*alpha although the parties " +
                  ('used different session ids', 'saw different blinded elements', 'hold shares that are not of zero')[var - 3]))
    # one response against the definition
    ssid, a = h(r['ssid']), alpha
    if r['chk'] == r['odd']:
        if var == 3:
            ssid = h(r['ssid2'])
        if var == 4:
            a = h(r['alpha2'])
    ki, zi = h(r['ki']), h(r['zi'])
    hh = hashlib.blake2b(len(ssid).to_bytes(2, 'big') + ssid + a, digest_size=64).digest()
    H = r255.hash_to_group(hh)
    exp = r255.add(r255.mul(r255.sc(ki[1:]), r255.decode(a)), r255.mul(r255.sc(zi[1:]), H))
    part = h(r['part'])
    if part[1:] != r255.encode(exp):
        v.append(('definition', f"a response differs from its definition, ssid of {len(ssid)} bytes"))
    if part[0] != ki[0]:
        v.append(('index', f'response carries index {part[0]} instead of {ki[0]}'))
    return v, (var, r['n'], r['t'], tuple(r['set']), len(ssid)), {'n': r['n'], 't': r['t'], 'set': r['set'], 'variant': var, 'equal': got == want}


def run():
    c = vlib.Check('C05')
    c.rule = 'a case counts when the combination and one response were compared with the reference; distinct by variant, n, t, responders and ssid length'
    drive(c, [('tdh', 2500, 12000)], {'tdh': judge})
    return c.finish()
