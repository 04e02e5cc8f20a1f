"""C25: arbitrary bytes and operations never corrupt memory or leak (AddressSanitizer, UBSan, LeakSanitizer)."""
import vlib, nx
from prim import drive


def judge(r):
    v = nx.complaints(r)
    return v, (r['ops'], r['succ'], tuple(r['st'])) if r['ops'] else None, {'ops': r['ops'], 'succeeded': r['succ'], 'in_states': r['st']}


def run():
    c = vlib.Check('C25')
    c.rule = 'a case counts when operations were carried out on open sessions; distinct by number of operations, successes and session states seen'
    drive(c, [('fuzz', 30000, 200000), ('channel', 2000, 10000), ('registry', 1000, 6000), ('seal', 1000, 5000)],
          {'fuzz': judge, 'channel': other, 'registry': other, 'seal': other}, nx.exe())
    return c.finish()


def other(r):
    """judged by C22 and C26; here only the sanitizers count"""
    return [], (r['ops'],), None
