"""C31: every cheating record is explained by a text that names the peer at fault."""
import re
import vlib, tp
from prim import drive

# what the text has to speak about, by (step, error)
RECV = {1: 'length', 2: 'message number|unexpected message|msgno', 3: 'sender|from', 4: 'recipient|addressee|to\\b', 5: 'expired|timestamp|old',
        6: 'signature', 7: 'session'}


def judge(r):
    v = []
    if r['textbad'] & 1:
        v.append(('index-varies', 'the returned index depends on the size of the buffer'))
    if r['textbad'] & 2:
        v.append(('truncation', 'a small buffer does not get the start of the text'))
    if r['textbad'] & 4:
        v.append(('length', 'a text is longer than tpdkg_max_err_SIZE'))
    seen = set()
    for step, err, peer, other, idx, text in r['cheat']:
        seen.add((step, err))
        what = f'record (step {step}, error {err}, peer {peer}, other {other}) is explained as "{text}"'
        if step == 16 and err == 6:      # nobody in particular
            if idx or 'complaints' not in text:
                v.append((f'text:{step}:{err}', what))
            continue
        if not text or re.search(r'invalid (error code|step)|unknown', text):
            v.append((f'unknown:{step}:{err}', what))
        guilty = other if (step, err) == (18, 128) else peer
        if idx != guilty:
            v.append((f'index:{step}:{err}', what + f', index {idx}'))
        if not re.search(r'(?<!\d)%d(?!\d)' % guilty, text):
            v.append((f'peer:{step}:{err}', what))
    return v, tuple(sorted(seen)) or None, {'texts': [c[5] for c in r['cheat'][:2]]} if r['cheat'] else None


def run():
    c = vlib.Check('C31')
    c.rule = 'a case counts when a run produced cheating records and their texts were judged in twelve buffer sizes each; distinct by the set of (step, error) pairs'
    drive(c, [('byz', 1400, 9000)], {'byz': judge}, tp.exe(), small=600)
    c.extra['record_kinds'] = len({x for _, k in c.distinct for x in k})
    return c.finish()
