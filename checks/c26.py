"""C26: the peer registry against a reference map, sealed records, sessions only with registered peers."""
import vlib, nx
from prim import drive


def registry(r):
    v = nx.complaints(r)
    return v, (r['peers'], r['given'], tuple(r['counts'])), {'operations': r['ops'], 'peers_at_end': r['peers'], 'identifiers_given': r['given']}


def seal(r):
    v = nx.complaints(r, r['kind'] + '-')
    return v, (r['kind'], r['namelen'], r['refused'], r['accepted']), {'kind': r['kind'], 'name_length': r['namelen'], 'refused': r['refused']}


def saturate(r):
    return nx.complaints(r), ('saturate', r['sess'], r['left']), None


def run():
    c = vlib.Check('C26')
    c.rule = 'registry cases are distinct by the numbers of operations of each kind, sealing cases by kind, name length and number of refused alterations'
    drive(c, [('registry', 16000, 90000), ('seal', 6000, 40000), ('saturate', 400, 3000)], {'saturate': saturate, 'registry': registry, 'seal': seal}, nx.exe())
    return c.finish()
