"""C42: the Python module can be used from several threads."""
import vlib, py


def run():
    c = vlib.Check('C42')
    c.rule = 'a case counts when at least two threads called the module; distinct by kind of case, number of threads and functions'
    e, exe, pre = py.env(), py.script('binding'), (py.PY,)
    calls = 0
    for cs in vlib.run_cases(exe, 'threads', c.seed, c.n(480, 4000), env=e, prefix=pre):
        if c.case_crash(cs, exe, prefix=pre) or not cs.recs:
            continue
        r = cs.recs[-1]
        calls += r['calls']
        c.eval(repr(r['k']) if r['calls'] > 1 else None)
        for k, text in r['v']:
            c.violation(k, text, c.replay_cmd(cs, exe, prefix=pre))
        if not r['v']:
            c.sample({'kind': r['k'][0], 'threads': r['k'][1], 'functions': r['k'][2], 'calls': r['calls']})
    c.extra['calls'] = calls
    return c.finish()
