"""C12: when the TP reports success all honest peers hold consistent shares."""
import vlib, tp
from prim import drive


def judge(r):
    ok = r['tpret'] == 0 and not r['stalled'] and r['tpdone'] and not r['ncheat']
    if not ok:
        return [], None, None
    bad = set(r['byz'])
    honest = [i for i in range(r['n']) if i + 1 not in bad]
    v = []
    dev = r.get('dev', 'random')
    for i in honest:
        p = r['peers'][i]
        if not p['started'] or p['ret'] or not p['done']:
            v.append((f'unfinished:{dev}', f'honest peer {i + 1} did not finish although the TP succeeded; ' + tp.outcome(r)))
    if not v:
        w, _ = tp.polynomial(r, honest, True)
        v = [(f'{k}:{dev}', f"deviating {sorted(bad)} {r['what'][:200]}: {x}") for k, x in w]
    return v, (r['n'], r['t'], dev, len(bad), r['what'][:60]), {'n': r['n'], 't': r['t'], 'deviating': sorted(bad), 'what': r['what'][:120]}


def run():
    c = vlib.Check('C12')
    c.rule = 'a case counts when the TP reported success although some peers deviated and the shares of the others were recomputed; distinct by n, t and deviations'
    drive(c, [('byz', 900, 6000), ('chaos', 1500, 10000)], {'byz': judge, 'chaos': judge}, tp.exe())
    c.extra['successful_runs'] = len(c.distinct)
    return c.finish()
