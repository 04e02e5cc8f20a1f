"""C40: results do not depend on compiler, optimisation or build flags."""
import vlib

BUILDS = ('plain', 'gcc-O0', 'gcc-O3', 'gcc-Os', 'clang-O0', 'clang-O2', 'clang-O3')


def run():
    c = vlib.Check('C40')
    c.rule = ('a case is one unit of work with the same inputs and random numbers in seven builds; it counts when results were produced; '
              'distinct by kind of work and number of results')
    runs, nres = [], 0
    for b in BUILDS:
        # the harness is the same in all, only the library differs
        exe = vlib.build(b, 'h_mem', wraps=('time',), own='plain')
        runs.append((b, exe, vlib.run_cases(exe, 'work', c.seed, c.n(1600, 12000), args=(0,), first=500000)))
    for group in zip(*[r for _, _, r in runs]):
        base = None
        for (b, exe, _), cs in zip(runs, group):
            if c.case_crash(cs, exe, (0,)):
                continue
            r = cs.recs[-1]
            d = [tuple(x) for x in r['r']]
            if base is None:
                base, first = d, b
            elif base != d:
                i = next((i for i, (x, y) in enumerate(zip(base, d)) if x != y), min(len(base), len(d)))
                what = (d + [('number of results', 0)])[i][0]
                c.violation(f'differs:{r["kind"]}:{what}', f'{r["kind"]}: {what} (result {i}) differs between the builds {first} and {b}', c.replay_cmd(cs, exe, (0,)))
            nres += r['results']
            if b == BUILDS[-1]:
                c.eval((r['kind'], r['results']) if r['results'] else None)
                c.sample({'kind': r['kind'], 'results': r['results'], 'builds': len(BUILDS)})
    c.extra['results_compared'] = nres
    return c.finish()
