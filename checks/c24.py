"""C24: requested security levels are never undercut.

The levels are those of section 7.7 of the Noise specification for XK: destination (confidentiality) 2, 1, 5 for the
three handshake messages and 5 afterwards, source (authentication) 0, 2, 2 and 2.
"""
import vlib, nx, py
from prim import drive

CONF = [2, 1, 5, 5]
AUTH = [0, 2, 2, 2]


def offered(step, req):
    """True/False, or None where the specification does not order the levels (1 against 2)"""
    if req == 0:
        return True
    if req == 1:
        return None if CONF[step] == 2 else True
    return CONF[step] >= req


def judge(r):
    v = nx.complaints(r)
    key = []
    for e in r['w']:
        step, d = e[0], e[1]
        if e[2] >= 0:
            req, n, tag, wrote, seen = e[2:]
            key.append((step, d, req, n > 0))
            if seen:
                v.append((f'plain:{step}', f'the payload is readable in message {step}'))
            o = offered(step, req)
            if n and o is False and (tag == 0 or wrote):
                v.append((f'undercut:{step}:{req}', f'level {req} was requested at step {step} which offers {CONF[step]}, yet {wrote} bytes were sent'))
            if (o or not n) and tag:
                v.append((f'withheld:{step}:{req}', f'level {req} at step {step} which offers {CONF[step]} was refused for {n} bytes'))
        else:
            n, att, ma, mb, ra, rb = e[3:]
            for req, rel, right in att:
                key.append((step, d, 'r', req, rel))
                if not right:
                    v.append((f'output:{step}:{req}', f'step {step}: releasing for level {req} gave wrong output (released {rel})'))
                if n and rel and req > AUTH[step]:
                    v.append((f'released:{step}:{req}', f'a payload of step {step}, authenticated to {AUTH[step]}, was released for level {req}'))
                if not rel and (req <= AUTH[step] or not n):
                    v.append((f'kept:{step}:{req}', f'a payload of step {step}, authenticated to {AUTH[step]}, was not released for level {req}'))
            wa = step == 3 and ra > 0
            wb = step >= 2
            if ma and not wa or mb and not wb:
                v.append(('maximum', f'maximum security reported too early: initiator {ma}, responder {mb} after step {step}, initiator received {ra}'))
            if wa and not ma or step == 3 and not mb:
                v.append(('maximum-late', f'maximum security not reported: initiator {ma} after {ra} messages, responder {mb}'))
    return v, hash(tuple(key)), {'attempts': len(r['w'])}


def run():
    c = vlib.Check('C24')
    c.rule = 'every case makes several attempts per handshake and transport message; distinct by the sequence of requested levels and results'
    drive(c, [('levels', 40000, 250000)], {'levels': judge}, nx.exe())
    # the Python module sends with forward secrecy and returns what an authenticated peer sent, or raises
    e, exe, pre = py.env(), py.script('binding'), (py.PY,)
    for cs in vlib.run_cases(exe, 'noise', c.seed, c.n(300, 2000), env=e, prefix=pre):
        if c.case_crash(cs, exe, prefix=pre) or not cs.recs:
            continue
        r = cs.recs[-1]
        if r['k'][1] in (5, 6):
            c.eval(('python', repr(r['k'])))
        for k, text in r['v']:
            if k.startswith(('send:first', 'send:second', 'read:unauthenticated')):
                c.violation(f'python:{k}', text, c.replay_cmd(cs, exe, prefix=pre))
    return c.finish()
