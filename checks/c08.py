"""C08: honest TP-DKG runs succeed with consistent shares."""
import hashlib
import vlib, tp
from prim import drive, h


def judge(r):
    n, t = r.get('n'), r.get('t')
    if r['start']:
        return [('start', f"tpdkg_start_tp returned {r['start']} (name of {r['namelen']} bytes)")], None, None
    if not tp.success(r):
        return [('failed', tp.outcome(r))], None, None
    v = []
    for i, p in enumerate(r['peers']):
        if not p['done']:
            v.append(('not-done', f'peer {i + 1} is not done after the TP is'))
        if p['idx'] != i + 1:
            v.append(('index', f"peer {i + 1} got index {p['idx']}"))
    w, key = tp.polynomial(r, range(n), n <= 8)
    v += w
    name = h(r['name'])
    want = hashlib.blake2b((len(name) + 20).to_bytes(2, 'big') + b'TP DKG for protocol ' + name, digest_size=32).hexdigest()
    if r['dst'] != want:
        v.append(('dst', f'the announced tag is not the hash of the protocol name ({len(name)} bytes)'))
    if r['nt'] != [n, t]:
        v.append(('parameters', f"announced {r['nt']} instead of {[n, t]}"))
    return v, (n, t, r['namelen']), {'n': n, 't': t, 'eps': r['eps'], 'namelen': r['namelen'], 'public': key}


def run():
    c = vlib.Check('C08')
    c.rule = 'a case counts when a complete honest run was judged; distinct by n, t and length of the protocol name'
    drive(c, [('honest', 130, 420)], {'honest': judge}, tp.exe())
    # large configurations, as the project builds it
    for n, t in [(40, 20), (24, 23)] if c.tier == 'quick' else [(40, 20), (64, 2), (64, 24), (128, 2)]:
        drive(c, [('honest', 1, 1)], {'honest': judge}, tp.exe('plain'), args=(0, n, t), per_case=120)
    return c.finish()
