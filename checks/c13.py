"""C13: an error is final, and shares appear only after approval."""
import vlib, tp
from prim import drive


def full(r):
    v = tp.final(r)
    complained = any(c[0] == 18 for c in r['cheat'])
    for i, p in enumerate(r['peers']):
        v += tp.peer_final(i, p['started'], p['ret'], p['step'], p['done'], p['probe'], not tp.zero(p['share']), p['lastout'])
        if complained and not tp.zero(p['share']) and i + 1 not in set(r.get('byz', [])):
            v.append(('share-after-complaints', f'peer {i + 1} presents a share although complaints were raised; ' + tp.outcome(r)))
    failed = bool(r['tpret'] or any(p['ret'] for p in r['peers']))
    return v, ('run', r['tpret'], r['tpstep'], tuple(sorted({(p['ret'], p['step']) for p in r['peers']}))) if failed else None, \
        {'tp': [r['tpret'], r['tpstep']], 'peers': [[p['ret'], p['step'], p['done'], p['probe']] for p in r['peers']]}


def short(r):
    v = []
    if r['tpret'] and not r['tpdone']:
        v.append(('tp-not-done', f"TP returned {r['tpret']} and wants to go on"))
    if r['tpdone'] and r['probetp'] == 0:
        v.append(('tp-step-after-end', 'a step of the TP after its end succeeded'))
    for i, (started, ret, step, done, probe, share, lastout) in enumerate(r['p']):
        v += tp.peer_final(i, started, ret, step, done, probe, share, lastout)
    failed = bool(r['tpret'] or any(x[1] for x in r['p']))
    return v, ('fuzz', r['tpret'], r['tpsteps'], tuple(sorted({(x[1], x[2]) for x in r['p']}))) if failed else None, None


def sizes(r):
    if not r['reached']:
        return [], None, None
    v = [] if r['done'] or not r['r'] else [(f"size-not-done:{r['tpside']}:{r['step']}", f"{'TP' if r['tpside'] else 'peer'} step {r['step']} returned {r['r']} for a wrong size and wants to go on")]
    return v, ('size', r['tpside'], r['step'], r['kind']), None


def run():
    c = vlib.Check('C13')
    c.rule = 'a case counts when some party failed; distinct by the set of failing steps and return values'
    judges = {m: full for m in ('byz', 'chaos', 'tamper', 'replay')}
    judges.update(fuzzpeer=short, fuzztp=short, sizes=sizes)
    drive(c, [('byz', 400, 3000), ('chaos', 300, 3000), ('tamper', 198, 2000), ('replay', 96, 1000), ('fuzzpeer', 400, 3500),
              ('fuzztp', 300, 2500), ('sizes', 352, 1700)], judges, tp.exe())
    return c.finish()
