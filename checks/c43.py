"""C43: calls with the largest parameters fit the usual stack of 8 MiB."""
import vlib
from prim import drive


def judge(r):
    v = []
    if not r['fine']:
        v.append((f"failed:{r['what']}", f"{r['what']} with size {r['size']} failed on a thread with a stack of 8 MiB"))
    return v, (r['what'], r['size']) if r['used'] > 100 else None, {'call': r['what'], 'size': r['size'], 'stack_bytes_used': r['used']}


def run():
    c = vlib.Check('C43')
    c.rule = 'a case is one call on a thread with a painted stack of 8 MiB; it counts when use of the stack was measured; distinct by call and size'
    c.assumptions = ['stack need as compiled by gcc -O2 and gcc -O0; other compilers may need more']
    for fl, q, t in (('plain', 136, 680), ('gcc-O0', 34, 340)):
        drive(c, [('stack', q, t)], {'stack': judge}, vlib.build(fl, 'h_stack', wraps=('time',)), per_case=120.0, args=(c.n(25, 119),))
    return c.finish()
