"""judges shared by the checks of the TP-DKG protocol (records of harness/h_tpdkg.c)"""
import vlib, r255
from prim import drive, h

PEER_TO_TP = {0: 1, 1: 2, 2: 3, 3: 4, 4: 5, 5: 6, 7: 7, 8: 8, 9: 9}    # step of the TP that reads what a peer sends
TP_TO_PEER = {0: 0, 1: 1, 4: 4, 6: 6, 8: 9}                            # step of the peers that read what the TP signs


def exe(flavour='asan'):
    return vlib.build(flavour, 'h_tpdkg', wraps=('time',))


def success(r):
    return r['tpret'] == 0 and not r['stalled'] and r['tpdone'] and r['ncheat'] == 0 and \
        all(p['started'] and p['ret'] == 0 for p in r['peers'])


def named(r):
    return {c[4] for c in r['cheat']} - {0}


def outcome(r):
    return f"n={r['n']} t={r['t']}: TP returned {r['tpret']} in step {r['tpstep']}, names {sorted(named(r))}, peers " + \
        str([(p['started'], p['ret'], p['step']) for p in r['peers']])


def zero(s):
    return s is None or set(s) <= {'0'}


def polynomial(r, who, full):
    """the shares of the peers in who (indices from 0) against one polynomial and the commitments"""
    n, t, v = r['n'], r['t'], []
    pts = []
    for i in who:
        s = h(r['peers'][i]['share'])
        if s[0] != i + 1:
            v.append(('index', f'peer {i + 1} holds a share with index {s[0]}'))
        x = int.from_bytes(s[1:], 'little')
        if x >= r255.L or x == 0:
            v.append(('scalar', f'peer {i + 1} holds an invalid share'))
        pts.append((i + 1, x))
    if v:
        return v, None
    if len(pts) > t:
        rest = pts[t:]
        if len(rest) > 12:
            rest = rest[::len(rest) // 8] + rest[-1:]
        for x, y in rest:
            if r255.interp(pts[:t], x) != y:
                v.append(('polynomial', f'n={n} t={t}: the share of peer {x} is not on the polynomial of peers {[p[0] for p in pts[:t]]}'))
                return v, None
    comm = r.get('comm')
    if comm is None:
        return [('commitments', 'no commitments were broadcast')], None
    # sum of all dealers' commitments, for every coefficient (or only the constant one)
    key = None
    for k in range(t if full else 1):
        s = r255.ID
        for d in range(n):
            p = r255.decode(h(comm[d * t + k]))
            if p is None:
                return v + [('commitments', f'commitment {k} of dealer {d + 1} is not a group element')], None
            s = r255.add(s, p)
        if k == 0:
            key = s
        sums = [s] if k == 0 else sums + [s]
    if len(pts) >= t:
        f0 = r255.interp(pts[:t], 0)
        if r255.encode(r255.mul_base(f0)) != r255.encode(key):
            v.append(('public', f'n={n} t={t}: the shared secret does not fit the commitments'))
        if t > 1 and r255.interp(pts[:t - 1], 0) == f0:
            v.append(('degree', f'n={n} t={t}: t-1 shares reconstruct the secret'))
    if full:
        for x, y in pts:
            s = r255.ID
            for k in reversed(range(t)):
                s = r255.add(r255.mul(x, s), sums[k])
            if r255.encode(s) != r255.encode(r255.mul_base(y)):
                v.append(('commitments', f'n={n} t={t}: the share of peer {x} does not fit the commitments'))
                break
    return v, r255.encode(key).hex()


def final(r):
    """C13: what holds for every party after any run"""
    v = []
    if r['tpret'] and not r['tpdone']:
        v.append(('tp-not-done', f"TP returned {r['tpret']} in step {r['tpstep']} and wants to go on"))
    if r['tpdone'] and r['probetp'] == 0:
        v.append(('tp-step-after-end', 'a step of the TP after its end succeeded'))
    if r['ncheat'] and not r['tpret']:
        v.append(('tp-goes-on', f"TP has {r['ncheat']} cheating records and reports no error"))
    return v


def peer_final(i, started, ret, step, done, probe, share, lastout):
    v = []
    if ret and started:
        if not done:
            v.append((f'peer-not-done:{step}', f'peer {i + 1} returned {ret} in step {step} and wants to go on'))
        if share:
            v.append((f'share-after-error:{step}', f'peer {i + 1} presents a share after it failed with {ret} in step {step}'))
    if started and done and probe == 0:
        v.append((f'peer-step-after-end:{step}', f'a step of peer {i + 1} after its end succeeded'))
    if started and share and lastout < 9:        # the approval arrives in step 9
        v.append(('share-early', f'peer {i + 1} presents a share after its step {lastout}'))
    return v
