"""C15: whatever is sent to the TP, its steps stay inside memory and return."""
import vlib, tp
from prim import drive


def judge(r):
    # crashes are reported by the driver; this only says which ends were reached
    if not r['what']:
        return [], None, None
    return [], (r['tpsteps'], r['tpret'], r['ncheat']), {'altered': r['what'][:100], 'tpret': r['tpret'], 'cheaters': r['ncheat']}


def full(r):
    v = []
    if r['ncheat'] > r['max']:
        v.append(('overfull', f"{r['ncheat']} offenders noted in a list of {r['max']}"))
    if tp.success(r) or (r['tpret'] == 0 and not r['stalled']):
        v.append(('success', f"{r['made']} offences, list of {r['max']}: " + tp.outcome(r)))
    return v, (r['tpsteps'], r['tpret'], r['made'], r['max']), {'offences': r['made'], 'list': r['max'], 'tpret': r['tpret'], 'cheaters': r['ncheat']}


def run():
    c = vlib.Check('C15')
    c.rule = 'a case counts when altered messages were delivered; distinct by how far the run came and what was returned'
    drive(c, [('fuzztp', 2200, 16000), ('release', 300, 2000), ('full', 300, 2400)], {'fuzztp': judge, 'release': judge, 'full': full}, tp.exe())
    return c.finish()
