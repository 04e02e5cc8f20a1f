"""C10: genuine messages in the wrong place or at the wrong time are rejected."""
import vlib, tp
from prim import drive

KINDS = ['other session', 'part of another session', 'part of another sender or recipient', 'earlier step', 'message of another peer', 'reflected', 'a signed message with another header']


def replay(r):
    if not r['hit']:
        return [], None, None
    leg, step, p, k, v = r['leg'], r['step'], r['p'], r['kind'], []
    tag = f"{('', 'tp-to-peer', 'peer-to-tp')[leg]}:{step}:{k}"
    q = r['peers'][p]
    what = f"{KINDS[k]} instead of the message of step {step}; "
    if leg == 1 and not (step == 0 and k == 4) and (q['ret'] == 0 or q['step'] != step):
        v.append((f'accepted:{tag}', what + tp.outcome(r)))
    if leg == 2 and (r['tpret'] == 0 or r['tpstep'] != tp.PEER_TO_TP[step]):
        v.append((f'accepted:{tag}', what + tp.outcome(r)))
    if tp.success(r):
        v.append((f'success:{tag}', what + 'the run succeeded'))
    return v, (leg, step, k, r['pos']), {'leg': leg, 'step': step, 'substitution': KINDS[k], 'tpret': r['tpret'], 'peer': [q['ret'], q['step']]}


def clock(r):
    if not r['hit']:
        return [], None, None
    leg, step, p, v = r['leg'], r['step'], r['p'], []
    tag = f"{('first', 'tp', 'peer')[leg]}:{step}:{r['kind']}"
    what = f"clock of the sender jumps by {r['jump']} (bound {r['eps']}) in step {step}; "
    if leg == 0:
        started = [x['started'] for x in r['peers']]
        if any(started) != bool(r['fresh']) or all(started) != bool(r['fresh']):
            v.append((f'freshness:{tag}', what + tp.outcome(r)))
    elif r['fresh']:
        if not tp.success(r):
            v.append((f'refused:{tag}', what + tp.outcome(r)))
    elif leg == 1:
        if any(x['ret'] == 0 or x['step'] != tp.TP_TO_PEER[step] for x in r['peers']):
            v.append((f'accepted:{tag}', what + tp.outcome(r)))
    else:
        # a peer whose own clock is wrong may notice it itself
        if not (r['tpret'] and r['tpstep'] == tp.PEER_TO_TP[step]) and not (r['peers'][p]['ret'] and r['peers'][p]['step'] == step):
            v.append((f'accepted:{tag}', what + tp.outcome(r)))
    return v, ('clock', leg, step, r['kind']), None


def run():
    c = vlib.Check('C10', 'fault_enumeration')
    c.rule = 'a case counts when a message was really replaced or a clock jumped; distinct by message and kind of replacement'
    c.assumptions = ['one substitution per run', 'all clocks start equal']
    drive(c, [('replay', 96 * 8, 96 * 40), ('clock', 84 * 5, 84 * 25), ('header', 160, 16 * 39 * 2)], {'replay': replay, 'clock': clock, 'header': replay}, tp.exe())
    return c.finish()
