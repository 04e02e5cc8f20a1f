"""C18: no secrets in the traffic or at the TP."""
import vlib, tp
from prim import drive

KIND = ['honest', 'corrupted shares', 'false complaints', 'random deviations', 'many complaints']


def judge(r):
    v = []
    if r['bad']:
        import re
        v.append((re.sub(r'\d+', 'N', r['bad']), f"{KIND[r['kind']]} n={r['n']} t={r['t']}: {r['bad']}"))
    if r['secrets'] < 3 * r['n'] or r['traffic'] < 500:
        return v, None, None
    return v, (r['kind'], r['n'], r['t'], r['ncomp'], r['disclosed']), \
        {'kind': KIND[r['kind']], 'secrets': r['secrets'], 'bytes': r['traffic'], 'channel_keys': r['keys'], 'complaints': r['ncomp'], 'disclosed': r['disclosed']}


def run():
    c = vlib.Check('C18')
    c.rule = 'a case counts when all bytes sent and the state of the TP were searched for all secrets; distinct by kind of run, n, t, complaints and disclosed keys'
    c.assumptions = ['a secret that is sent encoded or in pieces shorter than 16 bytes is not recognised']
    drive(c, [('secrets', 700, 6000)], {'secrets': judge}, tp.exe())
    return c.finish()
