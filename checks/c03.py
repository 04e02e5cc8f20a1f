"""C03: every secret is fresh and uniform."""
import concurrent.futures as cf
import vlib, r255
from prim import h

SCALARS = ('keygen', 'blind', 'coefficient')


def secrets(obs):
    """[(scope, kind, value)] of a run"""
    out, t = [], 0
    for sc, kind, vals in obs:
        if kind == 't':
            t = int(vals[0], 16)
        elif kind in ('shares', 'dkg', 'mul'):
            pts = [(h(v)[0], r255.sc(h(v)[1:])) for v in vals]
            f = r255.coefficients(pts[:t])
            for j, a in enumerate(f):
                if j == 0 and kind != 'dkg':
                    continue        # the shared value itself
                out.append((sc, 'coefficient', a.to_bytes(32, 'little')))
        elif kind in ('ok', 'sent'):
            continue
        else:
            out += [(sc, kind, h(v)) for v in vals]
    return out


def matching(adj, nright):
    """size of a maximum matching of secrets with draws"""
    owner = [-1] * nright

    def aug(u, seen):
        for v in adj[u]:
            if v not in seen:
                seen.add(v)
                if owner[v] < 0 or aug(owner[v], seen):
                    owner[v] = u
                    return True
        return False
    return sum(aug(u, set()) for u in range(len(adj)))


def judge(recs):
    viol = []
    base = next(r for r in recs if r['run'] == 'base')
    draws = [tuple(d[:2]) for d in base['draws']]
    size = {tuple(d[:2]): d[2] for d in base['draws']}
    S = secrets(base['obs'])
    if not S:
        return [], None, None, []
    for r in recs:
        if r['run'] == 'again' and r['obs'] != base['obs']:
            viol.append(('history', 'the same random bytes yield other secrets the second time'))
            return viol, None, None, []
    for sc, kind, v in S:
        if not any(v) or (kind in SCALARS and r255.sc(v) >= r255.L):
            viol.append((f'{kind}:zero', f'{kind} is {v.hex()}'))
    vals = [v for _, _, v in S]
    for i in range(len(S)):
        for j in range(i):
            if vals[i] == vals[j]:
                viol.append((f'{S[j][1]}+{S[i][1]}:equal', f'{S[j][1]} of scope {S[j][0]} and {S[i][1]} of scope {S[i][0]} are both {vals[i].hex()}'))
    dep = [set() for _ in S]
    for r in recs:
        if r['run'] == 'special':
            for sc, kind, v in secrets(r['obs']):
                if not any(v) or (kind in SCALARS and r255.sc(v) >= r255.L):
                    viol.append((f'{kind}:special', f'{kind} is {v.hex()} for an unusual output of the random source'))
        if r['run'] != 'flip':
            continue
        T = secrets(r['obs'])
        if len(T) != len(S):
            viol.append(('shape', 'the number of secrets depends on the random source'))
            continue
        d = (r['sc'], r['no'])
        for i in range(len(S)):
            if T[i][2] != S[i][2]:
                dep[i].add(draws.index(d))
                if d[0] != S[i][0]:
                    viol.append((f'{S[i][1]}:foreign', f'{S[i][1]} of scope {S[i][0]} depends on bytes drawn in scope {d[0]}'))
    for i in range(len(S)):
        if not dep[i]:
            viol.append((f'{S[i][1]}:constant', f'{S[i][1]} of scope {S[i][0]} does not depend on any random bytes drawn for it'))
    for i in range(len(S)):
        have = sum(size[draws[d]] for d in dep[i])
        if dep[i] and have < len(S[i][2]):
            viol.append((f'{S[i][1]}:short', f'{S[i][1]} of {len(S[i][2])} bytes was derived from {have} random bytes'))
    if not viol:
        m = matching([sorted(x) for x in dep], len(draws))
        if m < len(S):
            viol.append(('shared', f'{len(S)} secrets {[s[1] for s in S]} were derived from {m} independent draws: {[sorted(x) for x in dep]}'))
    # every bit of a draw of secret size reaches some secret
    nbits = 0
    for r in recs:
        if r['run'] != 'bit':
            continue
        d = (r['sc'], r['no'])
        kinds = {S[i][1] for i in range(len(S)) if draws.index(d) in dep[i]}
        if not kinds:
            continue
        nbits += 1
        if kinds & {'noise_sk', 'ephemeral'} and (r['bit'] < 3 or r['bit'] >= 254):
            continue                    # cleared by X25519
        if kinds & set(SCALARS) and size[d] > 32:
            continue                    # reduced from a longer string: no bit is lost, but all are mixed
        if r['obs'] == base['obs']:
            viol.append((f'{"/".join(sorted(kinds))}:bits', f'bit {r["bit"]} of the bytes drawn for {kinds} has no influence'))
    key = (tuple(s[1] for s in S), len(draws))
    return viol, key, {'secrets': [s[1] for s in S][:12], 'draws': len(draws), 'runs': len(recs), 'bits': nbits}, [(s[1], s[2].hex()) for s in S]


def run():
    c = vlib.Check('C03')
    c.rule = 'a case counts when at least one secret was produced; distinct by the kinds of secrets in order and the number of draws'
    exe = vlib.build('asan', 'h_rand', wraps=('time',))
    seen, runs = {}, 0
    with cf.ProcessPoolExecutor(vlib.JOBS) as ex:
        for mode, q, t in (('prim', 1200, 5000), ('large', 24, 96), ('noise', 40, 200), ('tpdkg', 40, 160)):
            cases = vlib.run_cases(exe, mode, c.seed, c.n(q, t))
            todo = [cs for cs in cases if not c.case_crash(cs, exe) and cs.recs]
            for cs, (viol, key, sample, vals) in zip(todo, ex.map(judge, [cs.recs for cs in todo], chunksize=4)):
                runs += len(cs.recs)
                c.eval((mode, key) if key else None)
                for kind, v in vals:
                    # a value that appeared in another case was not fresh
                    if v in seen and seen[v] != (mode, cs.no):
                        viol.append((f'{kind}:repeated', f'{kind} {v} appeared in cases {seen[v]} and {(mode, cs.no)}'))
                    seen[v] = (mode, cs.no)
                for k, text in viol:
                    c.violation(f'{mode}:{k}', text, c.replay_cmd(cs, exe))
                if sample and not viol:
                    c.sample(sample)
    c.extra['runs'] = runs
    c.extra['secrets'] = len(seen)
    return c.finish()
