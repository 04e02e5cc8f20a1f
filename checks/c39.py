"""C39: logging a TP-DKG run shows no secrets and does not change the run."""
import re
import vlib, tp
from prim import drive
from c18 import KIND


def judge(r):
    v, how = [], f"{KIND[r['kind']]} n={r['n']} t={r['t']}: "
    if r['bad']:
        v.append((re.sub(r'\d+', 'N', r['bad']), how + r['bad']))
    if not r['same']:
        v.append(('changed', how + 'traffic or outcome with the log differ from those without'))
    if r['logged'] < 500:
        return v, None, None
    return v, (r['kind'], r['n'], r['t'], r['tpret'], r['ncomp']), \
        {'kind': KIND[r['kind']], 'log_bytes': r['logged'], 'secrets': r['secrets'], 'complaints': r['ncomp'], 'tpret': r['tpret']}


def run():
    c = vlib.Check('C39')
    c.rule = 'a case counts when the log was written and searched for all secrets of the run; distinct by kind of run, n, t, result and complaints'
    c.assumptions = ['only numbers of 16 bytes or more in hexadecimal are recognised in the log']
    drive(c, [('log', 600, 5000)], {'log': judge}, tp.exe(), tally=('logged',))
    return c.finish()
