"""C02: encodings that are not group elements are refused wherever they are used."""
import vlib, r255
from prim import drive, h

NAMES = ['oprf_Evaluate', 'oprf_Unblind', 'toprf_Evaluate', 'toprf_3hashtdh', 'toprf_thresholdmult', 'toprf_thresholdcombine',
         'dkg_verify_commitment', 'dkg_verify_commitment']
# the identity is a valid element, but useless wherever it gets multiplied
NEEDS_NONZERO = {0, 1, 2, 3, 4}


def judge(r):
    e = h(r['e'])
    if e[31] & 0x80:
        # libsodium 1.0.18 ignores this bit when it decodes (later versions refuse it); judge what remains
        canon = e[:31] + bytes([e[31] & 0x7f])
        if r255.decode(canon) is not None and (canon != bytes(32) or r['f'] not in NEEDS_NONZERO):
            return [], None, None
        e = canon
    valid = r255.decode(e) is not None
    f = r['f']
    must_refuse = not valid or (e == bytes(32) and f in NEEDS_NONZERO)
    if f >= 6:
        # a genuine dealing with one commitment replaced: anything but the original must not verify
        must_refuse = e != h(r['good'])
    v = []
    if must_refuse and r['ret'] == 0:
        v.append((f'{NAMES[f]}:accepted', f"{NAMES[f]} accepted {r['e']} (class {r['kind']}, position {r['pos']} of {r['m']})"))
    if not must_refuse and r['ret'] != 0:
        v.append((f'{NAMES[f]}:refused', f"{NAMES[f]} refused the valid element {r['e']}"))
    return v, (f, r['kind'], r['e']) if must_refuse else None, {'function': NAMES[f], 'element': r['e'], 'returned': r['ret']} if must_refuse else None


def run():
    c = vlib.Check('C02')
    c.rule = 'a case counts when the presented 32 bytes are not a usable group element (decided by the reference decoder); distinct by function, class and bytes'
    drive(c, [('invalid', 40000, 400000)], {'invalid': judge})
    return c.finish()
