"""C16: whatever is sent to a peer, its steps stay inside memory and return."""
import vlib, tp
from prim import drive


def judge(r):
    # crashes are reported by the driver; this only says which ends were reached
    if not r['what']:
        return [], None, None
    return [], tuple(sorted({(x[1], x[2]) for x in r['p']})), {'altered': r['what'][:100], 'peers': [[x[1], x[2]] for x in r['p']]}


def run():
    c = vlib.Check('C16')
    c.rule = 'a case counts when altered messages were delivered; distinct by how far the run came and what was returned'
    drive(c, [('fuzzpeer', 2200, 16000), ('release', 400, 3000)], {'fuzzpeer': judge, 'release': judge}, tp.exe())
    return c.finish()
