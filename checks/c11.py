"""C11: the TP names every peer that deviated visibly and no other."""
import vlib, tp
from prim import drive


STEP = {0: 4, 1: 8, 2: 10, 3: 12, 4: 14, 5: 16, 8: 20, 9: 22}      # how the TP calls the step in which it reads what a peer sends
REASON = {0: 1, 1: 2, 2: 3, 3: 4, 4: 5, 5: 5, 6: 7, 7: 6, 8: 6}    # spoilt field -> reason given


def report(r):
    """kind 0: the records name exactly the spoilt messages, their step and what is wrong with them"""
    st = STEP[r['bstep']]
    want = {(st, 64 + REASON[r['field']], p, o) for p, o in r['spoilt']}
    got = {(s, e, p, o if st in (8, 10, 14) else 0) for s, e, p, o, *_ in r['cheat']}
    v = []
    if {w[2:] for w in want} != {g[2:] for g in got}:
        v.append(('report:message', f"spoilt messages (from, to) {sorted(w[2:] for w in want)} are reported as {sorted(g[2:] for g in got)}"))
    elif want != got:
        v.append(('report:reason', f"deviation {r['dev']}: step, reason, from, to should be {sorted(want)[:6]} but are {sorted(got)[:6]}"))
    return v


def byz(r):
    v, dev, k = [], r['dev'], r['kind']
    got, bad, must = tp.named(r), set(r['byz']), set(r['must'])
    if got - bad:
        v.append((f'innocent:{k}', f"deviation {dev} of {sorted(bad)}: " + tp.outcome(r)))
    if k in (8, 9):          # invisible to the TP
        return v, (k, dev) if k == 8 else None, None
    if not must:
        return v, None, None
    if r['tpret'] == 0:
        v.append((f'not-aborted:{dev}', f"deviation {dev} of {sorted(bad)}: " + tp.outcome(r)))
    elif k == 7 and any(c[0] == 16 and c[1] == 6 for c in r['cheat']):
        if len(must) * (r['n'] - 1) < r['t'] ** 2:
            v.append((f'not-named:{dev}', 'too many complaints claimed; ' + tp.outcome(r)))
        return v, None, None
    elif not must <= got:
        v.append((f'not-named:{dev}', f"deviation {dev} of {sorted(must)}: " + tp.outcome(r)))
    if k == 0 and r['tpret']:
        v += report(r)
    want = {3: [(16, 7), (16, 8), (16, 65)][r['field'] % 3], 4: (20, 1), 5: (22, 1)}.get(k)
    if want and must <= got and any(tuple(x[:2]) != want for x in r['cheat']):
        v.append((f'report:{k}', f"deviation {dev} should be reported as {want}, is {[tuple(x[:4]) for x in r['cheat']][:6]}"))
    return v, (dev, len(must)), {'deviation': dev, 'by': sorted(must), 'named': sorted(got), 'first': r['cheat'][0][5] if r['cheat'] else None}


def chaos(r):
    got, bad = tp.named(r), set(r['byz'])
    if got - bad:
        return [('innocent', f"random deviations of {sorted(bad)} ({r['what'][:200]}): " + tp.outcome(r))], None, None
    return [], ('named', tuple(sorted((c[0], c[1]) for c in r['cheat']))[:1]) if got else None, None


def complain(r):
    v = []
    want = {(18, {1: 129, 2: 128, 4: 4}[k], d, p) for d, p, k in r['pairs']}
    got = {tuple(x[:4]) for x in r['recs']}
    how = f"n={r['n']} t={r['t']}, complaints (dealer, complainer, 1 justified, 2 false or 4 undecryptable) {r['pairs'][:20]}: "
    if len(r['recs']) != len(got):
        v.append(('complaints:twice', how + f"repeated records {r['recs'][:20]}"))
    if want - got:
        v.append(('complaints:not-named', how + f"no records {sorted(want - got)[:8]}; " + tp.outcome(r)))
    if got - want:
        v.append(('complaints:innocent', how + f"unjustified records {sorted(got - want)[:8]}; " + tp.outcome(r)))
    for s, e, d, p, who in map(tuple, r['recs']):
        if (s, e) in ((18, 128), (18, 129), (18, 4)) and who != (p if e == 128 else d):
            v.append(('complaints:blame', how + f"record {(s, e, d, p)} blames {who}"))
            break
    return v, ('complaints', len(want), len({d for _, _, d, _ in want})), None


def run():
    c = vlib.Check('C11')
    c.rule = ('a case counts when peers deviated visibly and the verdict of the TP was compared with what they did; '
              'distinct by deviation and number of deviating peers')
    drive(c, [('byz', 1000, 7000), ('chaos', 500, 4000), ('complain', 150, 1200)], {'complain': complain, 'byz': byz, 'chaos': chaos}, tp.exe())
    drive(c, [('bigcomplain', 4, 14)], {'bigcomplain': complain}, tp.exe('plain'), per_case=120)
    drive(c, [('manycomplain', 2, 8)], {'manycomplain': complain}, tp.exe('plain'), per_case=20)
    return c.finish()
