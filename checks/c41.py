"""C41: byte buffers may lie at any address."""
import vlib
from prim import drive


def judge(r):
    v = []
    if r['diff']:
        v.append((f"address:{r['kind']}:{r['diff']}", f"{r['kind']}: {r['diff']} differs when the buffers lie at odd addresses"))
    return v, (r['kind'], r['moved'], r['results']) if r['results'] and r['moved'] else None, {k: r[k] for k in ('kind', 'results', 'moved')}


def run():
    c = vlib.Check('C41')
    c.rule = ('a case is one unit of work with aligned buffers and again with buffers at other addresses; it counts when results and moved buffers were seen; '
              'distinct by kind of work, number of buffers and of results')
    drive(c, [('work', 4000, 30000)], {'work': judge}, vlib.build('asan', 'h_align', wraps=('time',)), per_case=60.0, tally=('moved',))
    return c.finish()
