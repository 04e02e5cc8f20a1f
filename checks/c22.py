"""C22: the channel delivers what was sent, in order, or fails."""
import vlib, nx
from prim import drive


def judge(r):
    v = nx.complaints(r)
    if r['refused'] + r['accepted'] == 0:
        return v, None, None
    return v, (r['wrong'], r['tamper'], r['step'], r['reached'], r['refused'], r['accepted']), \
        {k: r[k] for k in ('wrong', 'tamper', 'step', 'reached', 'refused', 'accepted')}


def run():
    c = vlib.Check('C22')
    c.rule = 'a case counts when at least one message was delivered or refused; distinct by setting, disturbed handshake step and kind, and numbers of refused and accepted messages'
    drive(c, [('channel', 40000, 240000), ('nonces', 2640, 13200), ('long', 2, 8)], {'nonces': judge, 'long': judge, 'channel': judge}, nx.exe())
    return c.finish()
