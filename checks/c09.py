"""C09: an altered message is rejected by its receiver in that very step."""
import vlib, tp
from prim import drive


def judge(r):
    if not r['hit']:
        return [], None, None
    leg, step, p, v = r['leg'], r['step'], r['p'], []
    tag = f"{('msg0', 'tp-to-peer', 'peer-to-tp')[leg]}:{step}"
    if r['relay']:
        tag = 'relayed:' + tag
    what = ('relayed by the TP, ' if r['relay'] else '') + f"message of step {step} ({('first', 'TP to peer', 'peer to TP')[leg]} {p + 1}), alteration {r['kind']} at {r['pos']}; "
    q = r['peers'][p]
    if leg == 0 and (q['started'] or q['ret'] == 0):
        v.append((f'accepted:{tag}', what + tp.outcome(r)))
    if leg == 1 and (q['ret'] == 0 or q['step'] != step):
        v.append((f'accepted:{tag}', what + tp.outcome(r)))
    if leg == 2:
        want = tp.PEER_TO_TP[step]
        if r['tpret'] == 0 or r['tpstep'] != want:
            v.append((f'accepted:{tag}', what + tp.outcome(r)))
        elif step == 7 and r['kind'] != 8 and not any(p + 1 == x[4] for x in r['cheat']):
            v.append((f'accepted:{tag}', what + 'revealed keys; ' + tp.outcome(r)))
    if tp.success(r):
        v.append((f'success:{tag}', what + 'the run succeeded'))
    return v, (leg, step, r['kind'], r['pos'], bool(r['relay']), p if r['relay'] == 2 else 0), {'leg': leg, 'step': step, 'alteration': r['kind'], 'tpret': r['tpret'], 'peer': [q['ret'], q['step']]}


def run():
    c = vlib.Check('C09', 'fault_enumeration')
    c.rule = 'a case counts when a message was changed on its way; distinct by message, kind of alteration and byte position'
    c.assumptions = ['one message per run is altered, on its way or by the TP which relays it']
    drive(c, [('tamper', 18 * 11 * 8, 18 * 11 * 40)], {'tamper': judge}, tp.exe())
    stride = c.n(8, 1)
    c.extra['byte_positions'] = 6700 // stride
    drive(c, [('tamperall', 6700 // 8, 6700)], {'tamperall': judge}, tp.exe(), args=(stride,))
    drive(c, [('relay', 30 * 16, 30 * 80)], {'relay': judge}, tp.exe())
    drive(c, [('relayall', 4185 // 8, 4185)], {'relayall': judge}, tp.exe(), args=(stride,))
    return c.finish()
