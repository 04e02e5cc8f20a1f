"""C38: keys made, multiplied and evaluated in any sequence behave like single keys."""
import vlib, r255
from prim import drive, h

WAY = ('toprf_Evaluate and toprf_thresholdcombine', 'shares and toprf_thresholdmult', 'shares and toprf_thresholdmult', 'toprf_3hashtdh', 'dkg_reconstruct')


def judge(r):
    n, t, key, v, seen = r['n'], r['t'], [], [], []
    where = f'n={n} t={t}: '
    if r['rc']:
        return [('error', where + 'a call with valid arguments failed')], None, None
    for i, o in enumerate(r['ops']):
        seen.append(o['op'] + (str(o['way']) if o['op'] == 'eval' else ''))
        if o['op'] == 'eval':
            k = key[o['k']]
            if k == 0:          # such a key has no result
                if not o['cc']:
                    v.append(('zero', where + 'a result although the key is zero'))
            elif o['cc']:
                v.append((f"failed{o['way']}", where + f"evaluation with {WAY[o['way']]} by {o['set']} fails ({o['cc']}) after {seen}"))
            elif h(o['y']) != r255.oprf(k, h(o['x'])):
                v.append((f"value{o['way']}", where + f"evaluation with {WAY[o['way']]} by {o['set']} gives another value than the key, after {seen}"))
            continue
        sh = [h(x) for x in o['shares']]
        pts = [(s[0], r255.sc(s[1:])) for s in sh]
        if [p[0] for p in pts] != list(range(1, n + 1)):
            return v + [(f"index:{o['op']}", where + f'shares with indexes {[p[0] for p in pts]}')], None, None
        k = r255.interp(pts[:t], 0)
        if any(r255.interp([(0, k)] + pts[:t - 1], x) != y for x, y in pts[t - 1:]):
            v.append((f"polynomial:{o['op']}", where + f"shares made by {o['op']} are not on one polynomial"))
        if o['op'] == 'mul':
            want = key[o['a']] * key[o['b']] % r255.L
            if k != want:
                v.append(('mul', where + f"shares of a product give another value, after {seen}"))
        elif o['op'] == 'split':
            want = r255.sc(h(o['secret']))
            if k != want:
                v.append(('split', where + 'shares do not give the secret'))
        else:
            want, s = k, r255.ID
            for c in o['comm']:
                s = r255.add(s, r255.decode(h(c)))
            if r255.encode(s) != r255.encode(r255.mul_base(k)):
                v.append((f"public:{o['op']}", where + 'the commitments do not add up to the public key'))
        key.append(want)
    return v, (n, t, tuple(seen)), {'n': n, 't': t, 'operations': seen}


def run():
    c = vlib.Check('C38')
    c.rule = 'a case is one sequence of 7 to 14 operations on shared keys, each compared with the same operation on whole keys; distinct by n, t and sequence'
    drive(c, [('flow', 700, 6000)], {'flow': judge}, vlib.build('asan', 'h_flow', wraps=('time',)))
    return c.finish()
