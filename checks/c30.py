"""C30: no result depends on uninitialised memory (memcheck on outputs and branches; runs over differently filled memory)."""
import re
import vlib

VG = ('valgrind', '--quiet', '--leak-check=no', '--error-exitcode=0', '--errors-for-leak-kinds=none', '--undef-value-errors=yes', '--num-callers=12',
      '--max-stackframe=4000000', '--error-limit=no')


def digest(r):
    return [tuple(x) for x in r['r']]


def run():
    c = vlib.Check('C30')
    c.rule = ('a case is one unit of work run over memory filled in four ways, or once under memcheck; it counts when results were produced; '
              'distinct by kind of work and number of results')
    nbytes = 0
    for flavour, q, t in (('plain', 1000, 8000), ('debug', 400, 3000)):
        exe = vlib.build(flavour, 'h_mem', wraps=('time',))
        runs = []
        for fill, perturb in ((0, '0'), (255, '85'), (90, '255'), (1, '170')):
            env = {'MALLOC_PERTURB_': perturb} if perturb != '0' else {}
            runs.append((fill, vlib.run_cases(exe, 'work', c.seed, c.n(q, t), env=env, args=(fill,))))
        for group in zip(*[r for _, r in runs]):
            base = None
            for (fill, _), cs in zip(runs, group):
                if c.case_crash(cs, exe, (fill,)):
                    continue
                r = cs.recs[-1]
                nbytes += r['bytes']
                d = digest(r)
                if base is None:
                    base = d
                elif base != d:
                    i = next((i for i, (x, y) in enumerate(zip(base, d)) if x != y), min(len(base), len(d)))
                    what = (d + [('number of results', 0)])[i][0]
                    c.violation(f'differs:{r["kind"]}:{what}', f'{r["kind"]}: {what} (result {i}) differs between memory filled with {runs[0][0]} and with {fill}',
                                c.replay_cmd(cs, exe, (fill,)))
                c.eval((flavour, r['kind'], r['results']) if r['results'] else None)
    c.extra['bytes_compared'] = nbytes
    exe = vlib.build('debug', 'h_mem', wraps=('time',))
    cases = vlib.run_cases(exe, 'work', c.seed, c.n(240, 1600), args=(-1,), prefix=VG, per_case=60.0, env={'H_CPU': '400'}, first=100000)
    checked = 0
    for cs in cases:
        if c.case_crash(cs, exe, (-1,), VG):
            continue
        r = cs.recs[-1]
        if not r['vg']:
            raise vlib.CheckError('memcheck does not observe the run')
        checked += r['bytes']
        if 'undef' in r:
            c.violation(f'memcheck:{r["kind"]}:' + re.sub(r'\d+', 'N', r['undef']), f'{r["kind"]}: {r["undef"]}', c.replay_cmd(cs, exe, (-1,), VG))
        elif r['errors']:
            c.violation(f'memcheck:{r["kind"]}:decision', f'{r["kind"]}: memcheck reports {r["errors"]} uses of uninitialised memory', c.replay_cmd(cs, exe, (-1,), VG))
        else:
            c.sample({'kind': r['kind'], 'results': r['results'], 'bytes_checked': r['bytes']})
        c.eval(('memcheck', r['kind'], r['results']) if r['results'] else None)
    c.extra['bytes_checked_by_memcheck'] = checked
    return c.finish()
