"""C20: failing locks and allocations surface as errors (fault enumeration under the sanitizers)."""
import vlib, fault
from prim import drive

OPS = ['device_create', 'add_peer', 'session_initiator', 'session_responder', 'pack', 'handshake', 'transport']
DEPTH = 64          # more than any of these operations allocates


def judge(r):
    v = [('lockfail:' + r['op'], r['bad'])] if 'bad' in r else []
    return v, (r['op'], r['locks']) if r['faults'] else None, r


def run():
    c = vlib.Check('C20', 'fault_enumeration')
    c.rule = ('a case is one call or protocol run with each of its locks failing in turn, or one Noise operation with one allocation failing; '
              'it counts when a fault was injected; distinct by call and number of locks, or operation and allocation')
    drive(c, [('lockfail', 2000, 16000)], {'lockfail': judge}, fault.exe(), small=100)
    exe = fault.exe()
    total = len(OPS) * DEPTH
    cases = vlib.run_cases(exe, 'alloc', c.seed, total, shards=total // 8)
    if len(cases) < total - 20:
        raise vlib.CheckError('allocation cases missing')
    n = crashed = last = 0
    for cs in cases:
        op, k = OPS[cs.no % len(OPS)], cs.no // len(OPS)
        if cs.crash:
            # keyed by the operation: which function happens to use the missing memory first is not a matter of behaviour
            null = 'null' in cs.crash or cs.crash.startswith('SEGV')
            key = f'alloc:{op}:null' if null else f'alloc:{op}:{cs.crash}'
            c.violation(key, f'{op} with allocation {k} failing: {cs.crash}\n{cs.stderr[-4000:]}', c.replay_cmd(cs, exe))
            crashed += 1
            c.eval((op, k))
            last = max(last, k)
            continue
        r = cs.recs[-1]
        if 'bad' in r:
            c.violation(f'alloc:{op}:result', f'{op} with allocation {k} failing: {r["bad"]}', c.replay_cmd(cs, exe))
        if r['hit']:
            last = max(last, k)
            n += 1
        c.eval((op, k) if r['hit'] else None)
        if r['hit']:
            c.sample(r)
    if last >= DEPTH - 2:
        raise vlib.CheckError('an operation allocates more often than is enumerated')
    c.extra.update(allocation_faults=n + crashed, crashing=crashed, highest_allocation=last)
    return c.finish()
