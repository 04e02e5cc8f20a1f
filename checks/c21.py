"""C21: multiparty multiplication yields shares of the product."""
import vlib, r255
from prim import drive, h


def judge_mul(r):
    v = []
    t2, n = r['t2'], r['n']
    if r['rc']:
        return [('error', f"n={n} t={r['t']} t2={t2}: returned an error")], None, None
    out = [h(x) for x in r['out']]
    if [o[0] for o in out] != list(range(1, len(out) + 1)):
        v.append(('index', f'indexes of the result {[o[0] for o in out]}'))
    val = [int.from_bytes(o[1:], 'little') for o in out]
    want = r255.sc(h(r['a'])) * r255.sc(h(r['b'])) % r255.L
    if any(x >= r255.L for x in val):
        v.append(('unreduced', 'a result share is not reduced'))
    if len(val) >= t2:
        if r255.interp([(i + 1, val[i]) for i in range(t2)], 0) != want:
            v.append(('product', f"n={n} t={r['t']} t2={t2} dealers={r['dealers']}: result shares do not give the product"))
        base = [(0, want)] + [(i + 1, val[i]) for i in range(t2 - 1)]
        for x in range(t2, len(val) + 1):
            if r255.interp(base, x) != val[x - 1]:
                v.append(('polynomial', f'n={n} t2={t2}: share {x} of the product is off'))
                break
    for i, b in enumerate(r['bad']):
        if not b:
            v.append((f'accepted{i}', ('shares with different indexes', 'threshold 0', 'threshold above the number of peers', 'no peers')[i] + ' accepted'))
    return v, (n, r['t'], t2, tuple(r['dealers'])), {'n': n, 't': r['t'], 't2': t2, 'dealers': r['dealers'], 'product': want.to_bytes(32, 'little').hex()}


def judge_big(r):
    """the result is the value at 0 of the polynomial through what the dealers sent"""
    out = h(r['out'])
    want = r255.interp([(i, r255.sc(h(x)[1:])) for i, x in zip(r['dealers'], r['in'])], 0)
    v = []
    if out[0] != r['peer'] or int.from_bytes(out[1:], 'little') != want:
        v.append(('share', f"the share of peer {r['peer']} from {len(r['dealers'])} dealers is wrong"))
    return v, ('big', len(r['dealers']), r['peer']), {'dealers': len(r['dealers']), 'peer': r['peer']}


def judge_vdm(r):
    ix = r['ix']
    d = len(ix)
    m = [r255.sc(h(x)) for x in r['m']]
    for i in range(d):
        for j in range(d):
            s = sum(pow(ix[i], k, r255.L) * m[k * d + j] for k in range(d)) % r255.L
            if s != (1 if i == j else 0):
                return [('inverse', f'inverted matrix of {ix} is wrong at {i},{j}')], tuple(ix), None
    return [], tuple(ix), {'indexes': ix}


def run():
    c = vlib.Check('C21')
    c.rule = 'a case counts when the product (or the matrix inverse) was recomputed; distinct by n, thresholds and ordered dealers'
    drive(c, [('mul', 400, 4000), ('vdm', 300, 3000)], {'mul': judge_mul, 'vdm': judge_vdm})
    drive(c, [('mulbig', 14, 50)], {'mulbig': judge_big}, vlib.build('plain', 'h_prim'), args=(c.n(7, 10),), per_case=60)
    return c.finish()
