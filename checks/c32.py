"""C32: the primitives stay inside their buffers and terminate for every parameter, and refuse meaningless ones."""
import vlib
from prim import drive

NAMES = ['toprf_create_shares', 'dkg_start', 'toprf_thresholdmult', 'toprf_thresholdcombine', 'dkg_verify_commitments', 'toprf_Evaluate',
         'toprf_mpc_mul_start', 'toprf_mpc_mul_finish']


def judge(r):
    v = []
    what = f"{NAMES[r['f']]} n={r['n']} t={r['t']} count={r['cnt']}"
    if r['meaningful'] == 0 and r['ret'] == 0:
        v.append((NAMES[r['f']] + ':accepted', what + ' succeeded'))
    if r['meaningful'] == 1 and r['ret'] != 0:
        v.append((NAMES[r['f']] + ':refused', what + f" returned {r['ret']}"))
    if not r['ok']:
        v.append((NAMES[r['f']] + ':result', what + ' gave an impossible result'))
    return v, (r['f'], r['n'], r['t'], r['cnt']), {'call': what, 'returned': r['ret']}


def oprf(r):
    """The single server calls: only the sanitizers and exact buffers decide, values are the matter of C01."""
    return [], ('oprf', r['n']), None


def xmd(r):
    return [], ('xmd', r['dl'], r['ol']), {'call': f"expand_message_xmd message {r['n']} tag {r['dl']} output {r['ol']}", 'returned': r['r']}


def run():
    c = vlib.Check('C32')
    c.rule = 'a case is one call with exact-size heap buffers under ASan/UBSan; distinct by function and parameters'
    drive(c, [('bounds', 21 * 21 * 8, 21 * 21 * 8 * 3), ('xmd', 600, 4000), ('h2g', 200, 1500), ('oprf', 200, 1500)],
          {'bounds': judge, 'xmd': xmd, 'h2g': oprf, 'oprf': oprf})
    return c.finish()
