"""C29: threads on separate objects do not interfere (ThreadSanitizer, results compared with single-threaded ones)."""
import vlib
from prim import drive


def judge(r):
    v = []
    if r['wrong']:
        bad = [w for i, w in enumerate(r['work']) if r['wrong'] >> i & 1]
        v.append(('results', f'{len(bad)} of {r["threads"]} threads got other results than alone; their work: {bad}; everything: {r["work"]}'))
    return v, (r['threads'], r['kinds']) if r['emitted'] else None, {k: r[k] for k in ('threads', 'work', 'emitted')}


def run():
    c = vlib.Check('C29')
    c.rule = 'a case is one set of threads working at the same time, and the same work done alone; distinct by number of threads and kinds of work'
    drive(c, [('threads', 1200, 8000)], {'threads': judge}, vlib.build('tsan', 'h_threads', wraps=('time',)), per_case=60.0)
    return c.finish()
