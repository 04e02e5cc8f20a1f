"""C07: verification names exactly the dealers whose share does not fit their commitments."""
import vlib, r255
from prim import drive, h


def fits(comm, share, self_):
    s = int.from_bytes(share[1:], 'little')
    if s >= r255.L:
        return False
    acc = r255.ID
    for k, cb in enumerate(comm):
        p = r255.decode(cb)
        if p is None:
            return False
        acc = r255.add(acc, r255.mul(pow(self_, k, r255.L), p))
    return r255.encode(acc) == r255.encode(r255.mul_base(s))


def judge(r):
    n, t, self_ = r['n'], r['t'], r['self']
    cm = [h(x) for x in r['c']]
    sh = [h(x) for x in r['s']]
    bad, unsure = [], []
    for i in range(n):
        if i + 1 == self_:
            continue
        comm = cm[i * t:(i + 1) * t]
        if not fits(comm, sh[i], self_):
            bad.append(i + 1)
        elif bytes(32) in comm or sh[i][0] != self_:
            unsure.append(i + 1)    # an identity commitment to a zero coefficient or a wrong label may be refused
    for i in list(bad):
        # libsodium 1.0.18 ignores the top bit of an encoding, later versions refuse it
        comm = cm[(i - 1) * t:i * t]
        clean = [x[:31] + bytes([x[31] & 0x7f]) for x in comm]
        if clean != comm and fits(clean, sh[i - 1], self_):
            bad.remove(i)
            unsure.append(i)
    v = []
    named = r['fails']
    if r['fl'] > n or len(set(named)) != len(named):
        v.append(('list', f"list of failed dealers is {named} ({r['fl']})"))
    missing = [b for b in bad if b not in named]
    extra = [x for x in named if x not in bad and x not in unsure]
    if missing:
        v.append(('missing', f"n={n} t={t} self={self_}: cheating dealers {missing} (classes {[r['kinds'][b - 1] for b in missing]}) are not named; named {named}"))
    if extra:
        v.append(('extra', f'n={n} t={t} self={self_}: honest dealers {extra} are named'))
    if (r['ret'] == 0) != (len(named) == 0) and not missing:
        v.append(('return', f"returned {r['ret']} with {named}"))
    if bad and r['ret'] == 0:
        v.append(('return', f'returned 0 although {bad} cheated'))
    for i, x in enumerate(r['single']):
        if i + 1 == self_ or i + 1 in unsure:
            continue
        if (x != 0) != (i + 1 in bad):
            v.append(('single', f'dkg_verify_commitment returned {x} for dealer {i + 1}, class {r["kinds"][i]}'))
    fin = sum(int.from_bytes(s[1:], 'little') for s in sh) % r255.L
    if all(int.from_bytes(s[1:], 'little') < r255.L for s in sh) and h(r['fin'])[1:] != fin.to_bytes(32, 'little'):
        v.append(('finish', 'dkg_finish is not the sum of the shares'))
    return v, (n, t, self_, tuple(r['kinds'])) if bad else None, {'n': n, 't': t, 'self': self_, 'cheaters': bad, 'named': named} if bad else None


def run():
    c = vlib.Check('C07')
    c.rule = 'a case counts when at least one dealer cheated by the reference verification; distinct by n, t, receiver and corruption classes'
    drive(c, [('dkgbad', 3000, 14000)], {'dkgbad': judge})
    return c.finish()
