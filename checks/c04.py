"""C04: any t shares reproduce the keyed function; the parts combine in any order."""
import vlib, r255
from prim import drive, h


def judge(r):
    n, t = r['n'], r['t']
    v = []
    secret = r255.sc(h(r['secret']))
    if r['rc']:
        return [('create', f'toprf_create_shares({n},{t}) returned {r["rc"]}')], None, None
    sh = [h(s) for s in r['shares']]
    if [s[0] for s in sh] != list(range(1, n + 1)):
        v.append(('index', f'share indexes are {[s[0] for s in sh]}'))
    val = [int.from_bytes(s[1:], 'little') for s in sh]
    if any(x >= r255.L for x in val):
        v.append(('unreduced', 'a share is not a reduced scalar'))
    # the shares lie on one polynomial of degree t-1 through the secret
    xs = list(range(1, n + 1))
    base = [(0, secret)] + [(x, val[x - 1]) for x in xs[:t - 1]]
    rest = xs[t - 1:]
    if n > 60:
        step = max(1, len(rest) // 6)
        rest = sorted(set(rest[::step] + rest[-1:]))
    for x in rest:
        if r255.interp(base, x) != val[x - 1]:
            v.append(('polynomial', f'n={n} t={t}: share {x} is not on the polynomial given by the secret and the first {t - 1} shares'))
            break
    if t > 1 and n > 1 and len(set(val)) == 1:
        v.append(('constant', f'n={n} t={t}: all shares are equal'))
    m = len(r['set'])
    pts = [(i, val[i - 1]) for i in r['set']]
    k = r255.interp(pts, 0)
    P = r255.decode(h(r['p']))
    want = r255.encode(r255.mul(secret, P))
    if m >= t:
        if k != secret:
            v.append(('reconstruct-shares', f'n={n} t={t}: shares {r["set"]} do not determine the secret'))
        for f, what in (('res1', 'toprf_thresholdmult'), ('res2', 'toprf_Evaluate/toprf_thresholdcombine')):
            if r['r1' if f == 'res1' else 'r2']:
                v.append((f'{f}-error', f'n={n} t={t} set={r["set"]}: {what} failed'))
            elif h(r[f]) != want:
                v.append((f, f'n={n} t={t} set={r["set"]}: {what} does not give secret*P'))
        if h(r['res3']) != secret.to_bytes(32, 'little'):
            v.append(('res3', f'n={n} t={t} set={r["set"]}: dkg_reconstruct does not give the secret'))
    else:
        if k == secret or h(r['res1']) == want or h(r['res3']) == secret.to_bytes(32, 'little'):
            v.append(('too-few', f'n={n} t={t}: {m} shares were enough'))
        if r['r1'] == 0 and h(r['res1']) != r255.encode(r255.mul(k, P)):
            v.append(('res1', f'n={n} t={t} set={r["set"]}: toprf_thresholdmult is not the interpolation at zero'))
    if h(r['coeff']) != r255.lagrange_at(r['set'], 0)[0].to_bytes(32, 'little'):
        v.append(('coeff', f'coefficient of {r["set"][0]} in {r["set"]}'))
    return v, (n, t, tuple(r['set'])), {'n': n, 't': t, 'set': r['set'], 'result': r['res1']}


def run():
    c = vlib.Check('C04')
    c.rule = 'a case counts when all comparisons with big-integer interpolation were made; distinct by n, threshold and ordered set of responders'
    drive(c, [('sss', 2000, 9000)], {'sss': judge})
    return c.finish()
