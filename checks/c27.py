"""C27: the Python module computes the same functions and checks its arguments."""
import vlib, py


def run():
    c = vlib.Check('C27')
    c.rule = 'a case counts when the module was called; distinct by function and sizes of its arguments, or by kind of session and its outcome'
    e, exe, pre = py.env(), py.script('binding'), (py.PY,)
    tried = refused = 0
    for mode, q, t in (('values', 1600, 8000), ('args', 240, 900), ('tpdkg', 112, 420), ('noise', 400, 2000), ('complaints', 80, 500)):
        for cs in vlib.run_cases(exe, mode, c.seed, c.n(q, t), env=e, prefix=pre):
            if c.case_crash(cs, exe, prefix=pre) or not cs.recs:
                continue
            r = cs.recs[-1]
            c.eval((mode, repr(r['k'])))
            tried += r.get('tried', 0)
            refused += r.get('refused', 0)
            for k, text in r['v']:
                c.violation(f'{mode}:{k}', text, c.replay_cmd(cs, exe, prefix=pre))
            if not r['v']:
                c.sample({'mode': mode, 'what': r['k']})
    c.extra['argument_mutations'] = tried
    c.extra['refused'] = refused
    return c.finish()
