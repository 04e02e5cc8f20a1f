"""C01: the OPRF computes the function of RFC 9497."""
import concurrent.futures as cf
import vlib, r255


def h(s):
    return bytes.fromhex(s)


def judge_oprf(r):
    x, k, b = h(r['x']), h(r['k']), h(r['r'])
    if any(r[f] for f in ('r1', 'r2', 'r3', 'r4')):
        return 'returned-error', f"returns {r['r1']},{r['r2']},{r['r3']},{r['r4']} for an input of {r['n']} bytes"
    kk, bb = r255.sc(k), r255.sc(b)
    if kk == 0 or int.from_bytes(k, 'little') >= r255.L:
        return 'bad-key', 'key is not a non-zero reduced scalar'
    if bb == 0 or int.from_bytes(b, 'little') >= r255.L:
        return 'bad-blind', 'blind is not a non-zero reduced scalar'
    P = r255.hash_to_group(x)
    a = r255.mul(bb, P)
    if r255.encode(a) != h(r['a']):
        return 'blind', f"blinded element differs from blind*HashToGroup(input), input of {r['n']} bytes"
    z = r255.mul(kk, a)
    if r255.encode(z) != h(r['z']):
        return 'evaluate', 'evaluated element differs from k*blinded'
    n = r255.encode(r255.mul(kk, P))
    if n != h(r['u']):
        return 'unblind', 'unblinded element differs from k*HashToGroup(input)'
    if r255.finalize(x, n) != h(r['y']):
        return 'finalize', f"output differs from the specified hash, input of {r['n']} bytes"


def judge_h2g(r):
    if r['r']:
        return 'returned-error', f"returns {r['r']} for {r['n']} bytes"
    if r255.encode(r255.hash_to_group(h(r['x']))) != h(r['p']):
        return 'hash_to_group', f"differs from the specification for {r['n']} bytes"


def judge_xmd(r):
    if r['r']:
        return None if r['dl'] >= 255 else ('returned-error', f"returns {r['r']} for n={r['n']} dst={r['dl']} out={r['ol']}")
    if r255.expand_message_xmd(h(r['x']), h(r['d']), r['ol']) != h(r['o']):
        return 'expand_message_xmd', f"differs from the specification for n={r['n']} dst={r['dl']} out={r['ol']}"


JUDGE = {'oprf': judge_oprf, 'h2g': judge_h2g, 'xmd': judge_xmd}


def _j(a):
    return JUDGE[a[0]](a[1])


def run():
    c = vlib.Check('C01')
    c.rule = ('a case counts when the library accepted the input and every intermediate value was compared with an '
              'independent implementation; distinct by mode and input length (plus distinguishing-tag and output length for expand_message_xmd)')
    exe = vlib.build('asan', 'h_prim')
    big = 0
    with cf.ProcessPoolExecutor(vlib.JOBS) as ex:
        for mode, q, t in (('oprf', 2000, 9000), ('h2g', 1500, 8000), ('xmd', 5000, 40000)):
            cases = vlib.run_cases(exe, mode, c.seed, c.n(q, t))
            todo = []
            for cs in cases:
                if not c.case_crash(cs, exe) and cs.recs:
                    todo.append((cs, cs.recs[-1]))
            for (cs, r), v in zip(todo, ex.map(_j, [(mode, r) for _, r in todo], chunksize=16)):
                c.eval((mode, r['n'], r.get('dl'), r.get('ol')))
                big += r['n'] > 255
                if v:
                    c.violation(f'{mode}:{v[0]}', v[1], dict(vlib.Check.replay_cmd(c, cs, exe), record=r if r['n'] < 2000 else None))
                elif r['n'] < 20:
                    c.sample({'mode': mode, 'input': r['x'], 'output': r.get('y') or r.get('p') or r.get('o')})
    c.extra['inputs_longer_than_255'] = big
    c.assumptions = ['libsodium group and hash functions are shared with the library only through the code under test; the reference is big-integer Python']
    return c.finish()
