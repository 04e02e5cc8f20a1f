"""C17: the release call frees everything exactly once."""
import vlib, tp
from prim import drive


def judge(r):
    v = []
    if r['growth'] > 0:
        v.append(('growth', f"{r['growth']} bytes more in use after all peers were released; {r['what'][:200]}"))
    return v, (r['tpsteps'], r['tpret'], tuple(sorted({(x[0], x[1], x[2]) for x in r['p']}))), \
        {'tpsteps': r['tpsteps'], 'peers': [[x[1], x[2]] for x in r['p']], 'growth': r['growth']}


def run():
    c = vlib.Check('C17')
    c.rule = 'a case counts when all peers of a run that ended somewhere were released and the memory in use was compared; distinct by where and how it ended'
    drive(c, [('release', 1300, 10000), ('fuzzpeer', 400, 3000), ('fuzztp', 300, 1500)], {m: judge for m in ('release', 'fuzzpeer', 'fuzztp')}, tp.exe())
    return c.finish()
