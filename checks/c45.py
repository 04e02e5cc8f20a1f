"""C45: calls leave no secrets in the dead part of the stack."""
import vlib, r255
from prim import drive, h

# calls that keep their secrets in memory they wipe, and the secrets that are not theirs to protect
WIPING = {'oprf_KeyGen': (), 'oprf_Blind': ('input',), 'oprf_Evaluate': (), 'oprf_Unblind': (), 'oprf_Finalize': ('input',), 'toprf_create_shares': (), 'toprf_3hashtdh': ('input',), 'dkg_start': ()}


def exe(flavour):
    # without lazy binding, which would save registers on the stack
    return vlib.build(flavour, 'h_residue', wraps=['time'] + vlib.sodium_calls(), own='plain', libs=('-lpthread', '-Wl,-z,now'))


def found(secrets, calls, skip):
    v = []
    for call, res in calls:
        b = h(res)
        for name, s in secrets:
            if name in skip(call):
                continue
            if any(len(set(s[o:o + 16])) > 4 and s[o:o + 16] in b for o in range(0, len(s) - 15, 8)):
                v.append((f'{call}:{name}', f'{call} leaves the secret "{name}" on the stack'))
    return list(dict.fromkeys(v))


def prim(r):
    secrets = [(a, h(b)) for a, b in r['secrets']]
    # terms of the polynomials at the last index are as good as their coefficients
    for a, b in list(secrets):
        if a == 'random' and len(b) == 32:
            k = int.from_bytes(b[:31] + bytes([b[31] & 0x1f]), 'little')
            for j in range(1, r['n']):
                secrets.append(('term of a polynomial', (k * pow(r['n'], j, r255.L) % r255.L).to_bytes(32, 'little')))
    calls = [c for c in r['calls'] if c[0] in WIPING]
    v = found(secrets, calls, lambda c: WIPING[c])
    return v, (r['n'], len(calls)) if r['undone'] and len(calls) >= len(WIPING) else None, \
        {'calls': sorted({c[0] for c in calls}), 'secrets looked for': len(secrets), 'bytes of stack': sum(len(c[1]) // 2 for c in calls)}


def noise(r):
    v = [(x, f'{x.split(":")[0]} leaves the secret "{x.split(":")[1]}" on the stack') for x in r['left']]
    if r['odd']:
        v.append(('odd', 'a spoiled message was read'))
    return v, (r['own'], r['spoil'], r['prologue']) if r['known'] and r['undone'] and r['bytes'] else None, \
        {'calls': r['ncalls'], 'refused message': r['spoil'], 'secrets looked for': r['secrets'], 'looks': r['looks'], 'bytes of stack': r['bytes']}


def run():
    c = vlib.Check('C45')
    c.rule = 'a case counts when its calls left something on the stack that was searched and libsodium was called; distinct by parameters and calls'
    for flavour, q, t in (('plain', 400, 4000), ('gcc-O0', 200, 2000)):
        drive(c, [('prim', q, t), ('noise', q, t)], {'prim': prim, 'noise': noise}, exe(flavour), tally=('ncalls', 'undone', 'unknown'))
    return c.finish()
