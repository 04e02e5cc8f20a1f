"""C46: the Python module does not accumulate memory."""
import vlib, py


def run():
    c = vlib.Check('C46')
    c.rule = 'a case counts when a call or session was repeated and the memory held before and after was compared; distinct by call and variant'
    raised = 0
    e, exe, pre = dict(py.env(), PYTHONMALLOC='pymalloc'), py.script('binding'), (py.PY,)
    for cs in vlib.run_cases(exe, 'leak', c.seed, c.n(480, 3000), env=e, prefix=pre, per_case=60):
        if c.case_crash(cs, exe, prefix=pre) or not cs.recs:
            continue
        r = cs.recs[-1]
        c.eval(repr(r['k']) if r['grown'] else None)
        raised += not r['grown']
        for k, text in r['v']:
            c.violation(k, text, c.replay_cmd(cs, exe, prefix=pre))
        if not r['v'] and r['grown']:
            c.sample({'repeated': r['k'], 'kept': r['grown'][-1]})
    c.extra['not_repeatable'] = raised
    return c.finish()
