"""C06: an honest DKG verifies everywhere and all t-subsets give the same key that fits the commitments."""
import vlib, r255
from prim import drive, h


def judge(r):
    n, t, v = r['n'], r['t'], []
    if r['rs'] or r['rv'] or r['nf']:
        return [('refused', f"n={n} t={t}: start {r['rs']}, verify {r['rv']}, {r['nf']} dealers named")], None, None
    if r['wrongidx']:
        v.append(('index', f"n={n} t={t}: {r['wrongidx']} shares carry a wrong index"))
    fin = [h(s) for s in r['fin']]
    val = [int.from_bytes(s[1:], 'little') for s in fin]
    if any(x >= r255.L for x in val):
        v.append(('unreduced', 'a final share is not a reduced scalar'))
    rec = r255.sc(h(r['rec']))
    key = r255.interp([(i + 1, val[i]) for i in range(t)], 0)
    if rec != key:
        v.append(('reconstruct', f'n={n} t={t}: two sets of shares give different keys'))
    rest = list(range(t + 1, n + 1))
    if n > 60:
        rest = rest[::max(1, len(rest) // 6)] + rest[-1:]
    base = [(i + 1, val[i]) for i in range(t)]
    for x in rest:
        if r255.interp(base, x) != val[x - 1]:
            v.append(('polynomial', f'n={n} t={t}: share {x} is not on the polynomial of the first {t}'))
            break
    s = r255.ID
    for c0 in r['c0']:
        p = r255.decode(h(c0))
        if p is None:
            v.append(('commitment', 'a commitment is not a group element'))
            return v, None, None
        s = r255.add(s, p)
    if r255.encode(s) != r255.encode(r255.mul_base(key)):
        v.append(('public', f'n={n} t={t}: the key does not fit the commitments to the constant terms'))
    # first dealer against its definition
    sf = [r255.sc(h(x)[1:]) for x in r['sfirst']]
    poly = r255.coefficients([(i + 1, sf[i]) for i in range(t)]) if t <= 16 else None
    if poly is not None:
        if any(a == 0 for a in poly) or len(set(poly)) != len(poly):
            v.append(('degenerate', f'n={n} t={t}: dealer used coefficients {poly}'))
        for a, cc in zip(poly, r['cfirst']):
            if r255.encode(r255.mul_base(a)) != h(cc):
                v.append(('commitments', f'n={n} t={t}: commitments of the first dealer do not match its polynomial'))
                break
    return v, (n, t), {'n': n, 't': t, 'public': r255.encode(s).hex()}


def judge_big(r):
    n, t, k, v = r['n'], r['t'], r['k'], []
    if r['rs'] or r['rv'] or r['nf']:
        return [('refused', f"n={n} t={t}: start {r['rs']}, verify {r['rv']}, {r['nf']} dealers named")], None, None
    if r['wrongidx']:
        v.append(('index', f"n={n} t={t}: {r['wrongidx']} shares carry a wrong index"))
    sh = [[r255.sc(h(x)[1:]) for x in r['s'][d * n:(d + 1) * n]] for d in range(k)]
    polys = [r255.coefficients([(i + 1, y) for i, y in enumerate(s[:t])]) for s in sh]
    for p, s in zip(polys, sh):
        bad = [x for x in range(t + 1, n + 1) if r255.eval_poly(p, x) != s[x - 1]]
        if bad:
            v.append(('polynomial', f'n={n} t={t}: share {bad[0]} is not on the polynomial of the first {t}'))
        if 0 in p or len(set(p)) != t:
            v.append(('degenerate', f'n={n} t={t}: coefficients vanish or repeat'))
    for a, cc in zip(polys[0], r['c']):
        if r255.encode(r255.mul_base(a)) != h(cc):
            v.append(('commitments', f'n={n} t={t}: commitments of the first dealer do not match its polynomial'))
            break
    for f in r['fin']:
        j = h(f)[0]
        if int.from_bytes(h(f)[1:], 'little') != sum(sh[i % k][j - 1] for i in range(n)) % r255.L:
            v.append(('final', f'n={n} t={t}: the final share of {j} is not the sum of what it got'))
    if r255.sc(h(r['rec'])) != polys[0][0]:
        v.append(('reconstruct', f'n={n} t={t}: the last {t} shares give another secret'))
    return v, (n, t), {'n': n, 't': t, 'dealers': k}


def run():
    c = vlib.Check('C06')
    c.rule = 'a case counts when an honest run completed and its shares, key and commitments were recomputed; distinct by n and threshold'
    drive(c, [('dkg', 300, 2200)], {'dkg': judge})
    drive(c, [('dkgbig', 10, 24)], {'dkgbig': judge_big}, vlib.build('plain', 'h_prim'), args=(100,), per_case=60)
    drive(c, [('dkgbig', 1, 4)], {'dkgbig': judge_big}, vlib.build('plain', 'h_prim'), args=(255,), per_case=200)
    return c.finish()
