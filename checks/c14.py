"""C14: announced buffer sizes are exact."""
import vlib, tp
from prim import drive


def honest(r):
    if r['start']:
        return [], None, None
    v = []
    if r.get('sizebad'):
        v.append(('mismatch', f"n={r['n']} t={r['t']}: " + r['sizebad']))
    if not r['same']:
        v.append(('unfilled', f"n={r['n']} t={r['t']}: what is sent depends on the contents of the output buffers"))
    if not tp.success(r):
        v.append(('failed', 'buffers of the announced sizes; ' + tp.outcome(r)))
    return v, ('run', r['n'], r['t']), {'n': r['n'], 't': r['t'], 'same': r['same']}


def complain(r):
    v, n, t = [], r['n'], r['t']
    if r.get('sizebad'):
        v.append(('complaints:mismatch', f"n={n} t={t}, {len(r['pairs'])} complaints: " + r['sizebad']))
    if not r['same']:
        v.append(('complaints:unfilled', f"n={n} t={t}, {len(r['pairs'])} complaints: what is sent depends on the contents of the output buffers"))
    if r['stalled'] or r['tpstep'] != 7:
        v.append(('complaints:stopped', f"n={n} t={t}, {len(r['pairs'])} complaints {r['pairs'][:20]}: " + tp.outcome(r)))
    most = max([sum(p[0] == d for p in r['pairs']) for d in range(1, n + 1)])
    return v, ('complaints', n, most), {'n': n, 't': t, 'complaints': len(r['pairs']), 'most_against_one': most}


def sizes(r):
    if not r['reached']:
        return [], None, None
    v, who = [], f"{'TP' if r['tpside'] else 'peer'} step {r['step']} (wants {r['wi']}/{r['wo']}, got {r['gi']}/{r['go']})"
    key = f"{r['tpside']}:{r['step']}:{r['kind']}"
    if r['r'] == 0 and not (r['step'] == 10 and not r['tpside']):      # the silent last step reads and writes nothing
        v.append((f'accepted:{key}', who + ' accepted other sizes'))
    if r['touched']:
        v.append((f'touched:{key}', who + ' wrote to the output'))
    return v, ('size', r['tpside'], r['step'], r['kind']), {'who': who, 'returned': r['r']}


def run():
    c = vlib.Check('C14')
    c.rule = 'a case counts when a complete run with exact-size buffers or one call with another size was judged; distinct by n and t, or by party, step and kind of size'
    drive(c, [('honest', 90, 330), ('complain', 240, 1600), ('sizes', 528, 5280)], {'complain': complain, 'honest': honest, 'sizes': sizes}, tp.exe())
    for n, t in [(30, 11)] if c.tier == 'quick' else [(60, 20), (33, 32), (90, 2)]:
        drive(c, [('honest', 1, 1)], {'honest': honest}, tp.exe(), args=(0, n, t), per_case=200)
    return c.finish()
