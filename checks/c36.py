"""C36: calls only read their inputs (which lie in write-protected pages) and give the same results after other work."""
import vlib
from prim import drive


def judge(r):
    v = []
    if r['diff']:
        v.append((f"history:{r['kind']}:{r['diff']}", f"{r['kind']}: {r['diff']} differs when the same work with the same random numbers is done again after other work"))
    return v, (r['kind'], r['others'], r['results']) if r['results'] and r['inputs'] else None, \
        {k: r[k] for k in ('kind', 'results', 'inputs', 'bytes')}


def run():
    c = vlib.Check('C36')
    c.rule = ('a case is one unit of work with write-protected inputs, done twice with other work in between; it counts when results and inputs were seen; '
              'distinct by kind of work, kinds of work in between and number of results')
    drive(c, [('work', 3000, 24000)], {'work': judge}, vlib.build('asan', 'h_const', wraps=('time',)), per_case=60.0, tally=('inputs', 'bytes'))
    return c.finish()
