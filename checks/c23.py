"""C23: every byte on the wire is the one of an independent Noise XK implementation."""
import vlib, nx, py, noisexk_ref as ref
from prim import drive, h

ref.selftest()


def ephemeral(draws, pub):
    """the private key behind pub, among the random bytes the session drew"""
    for i in [0] + list(range(1, max(1, len(draws) - 31))):
        k = draws[i:i + 32]
        if len(k) == 32 and ref.x25519(k, ref.BASE) == pub:
            return k
    return None


def judge(r):
    v = nx.complaints(r)
    ms = r['msgs']
    if len(ms) < 3:
        return v or [('short', 'the handshake did not complete')], None, None
    ei, er = ephemeral(h(r['di']), h(ms[0][2])[:32]), ephemeral(h(r['dr']), h(ms[1][2])[:32])
    if ei is None or er is None:
        if r['own']:
            return v + [('ephemeral', 'the ephemeral key given to the session is not the one sent')], None, None
        return v, None, None       # derived in another way: cannot be recomputed
    s = ref.Session(h(r['prologue']), h(r['si']), h(r['sr']), ei, er)
    for k in range(3):
        want = s.handshake(h(ms[k][1]))
        if want != h(ms[k][2]):
            return v + [(f'handshake{k}', f'handshake message {k} with {len(ms[k][1]) // 2} payload bytes differs from the specification')], None, None
    if s.h != h(ms[2][3]):
        v.append(('hash', 'the handshake hash differs from the specification'))
    if 'h0' in r and (s.h != h(r['h0']) or s.h != h(r['h1'])):
        v.append(('hash', 'the session hash of a side differs from the specification'))
    for i, m in enumerate(ms[3:]):
        if s.transport(m[0], h(m[1])) != h(m[2]):
            v.append((f'transport{m[0]}', f'transport message {i} of direction {m[0]} with {len(m[1]) // 2} payload bytes differs from the specification'))
            break
    return v, (r['own'], len(r['prologue']) // 2, tuple(len(m[1]) // 2 for m in ms[:8]), len(ms)), \
        {'own_ephemeral': r['own'], 'prologue': len(r['prologue']) // 2, 'payloads': [len(m[1]) // 2 for m in ms[:6]], 'messages': len(ms)}


def run():
    c = vlib.Check('C23')
    c.rule = 'a case counts when the ephemeral keys were known and all its messages were recomputed; distinct by prologue and payload lengths'
    drive(c, [('interop', 4000, 30000)], {'interop': judge}, nx.exe())
    # a peer that is not the library, and public keys that give everybody the same secret
    e, exe, pre = py.env(), py.script('binding'), (py.PY,)
    for cs in vlib.run_cases(exe, 'foreign', c.seed, c.n(350, 3500), env=e, prefix=pre):
        if c.case_crash(cs, exe, prefix=pre) or not cs.recs:
            continue
        r = cs.recs[-1]
        c.eval(('foreign', repr(r['k'])))
        for k, text in r['v']:
            c.violation(f'foreign:{k}', text, c.replay_cmd(cs, exe, prefix=pre))
    return c.finish()
