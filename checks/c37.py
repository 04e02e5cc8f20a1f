"""C37: an independent reader parses everything that is sent in TP-DKG runs and recomputes what can be recomputed."""
import ctypes, hashlib, hmac, struct
import vlib, tp, noisexk_ref
from prim import drive, h

HDR = 111
_na = []


def sodium():
    if not _na:
        _na.append(ctypes.CDLL('libsodium.so.23'))
        _na[0].sodium_init()
    return _na[0]


def signed(pk, sig, msg):
    return sodium().crypto_sign_verify_detached(sig, msg, ctypes.c_ulonglong(len(msg)), pk) == 0


def pub(sk):
    o = ctypes.create_string_buffer(32)
    sodium().crypto_scalarmult_base(o, sk)
    return o.raw


class Bad(Exception):
    pass


def need(ok, key, text):
    if not ok:
        raise Bad(key, text)


def b2(*parts):
    return hashlib.blake2b(b''.join(parts), digest_size=32).digest()


def message(b, no, frm, to, ts, sid, pk, ltsig=None):
    """checks the header and the signature, returns the payload"""
    who = f'message {no} from {frm} to {to}'
    need(len(b) >= HDR, f'length:{no}', f'{who} has only {len(b)} bytes')
    no_, ln, frm_, to_, ts_ = struct.unpack('>BIBBQ', b[64:79])
    need(no_ == no, f'msgno:{no}', f'{who} has number {no_}')
    need(ln == len(b), f'len:{no}', f'{who} announces {ln} of {len(b)} bytes')
    need(frm_ == frm and to_ == to, f'address:{no}', f'{who} is addressed from {frm_} to {to_}')
    need(ts is None or ts_ == ts, f'time:{no}', f'{who} has time stamp {ts_}, sent at {ts}')
    need(b[79:111] == sid, f'session:{no}', f'{who} has another session identifier')
    need(signed(pk, b[:64], b[64:]), f'signature:{no}', f'{who} is not signed by its sender over all of it')
    return b[HDR:]


def cut(b, n, what):
    need(len(b) % n == 0, f'length:{what}', f'{what}: {len(b)} bytes for {n} parties')
    z = len(b) // n
    return [b[i * z:(i + 1) * z] for i in range(n)]


def read(r):
    n, t = r['n'], r['t']
    ev = {}
    for kind, party, step, ts, x in r['ev']:
        need((kind, party, step) not in ev, 'twice', f'{kind} of party {party} twice in step {step}')
        ev[kind, party, step] = (ts, h(x))
    P = range(1, n + 1)

    def out(p, step):
        need(('out', p, step) in ev, f'missing:{step}', f'peer {p} sent nothing in its step {step}')
        return ev['out', p, step]

    def tpo(step):
        need(('tp', 0, step) in ev, f'missingtp:{step}', f'the TP sent nothing in its step {step}')
        return ev['tp', 0, step]

    def got(p, step, want):
        need(('in', p, step) in ev and ev['in', p, step][1] == want, f'delivered:{step}', f'peer {p} does not get what is meant for it in step {step}')

    # announcement
    ts, m0 = ev['msg0', 0, 0]
    sid, tpk = m0[79:111], m0[HDR:HDR + 32]
    d = message(m0, 0, 0, 0xff, ts, sid, tpk)
    name = h(r['name'])
    need(d == tpk + b2(struct.pack('>H', len(name) + 20), b'TP DKG for protocol ', name) + bytes([n, t]), 'msg0', 'the announcement does not carry key, name hash, n and t')
    transcript = [m0]
    # indices
    ts, o = tpo(0)
    for i, m in zip(P, cut(o, n, 'indices')):
        need(message(m, 1, 0, i, ts, sid, tpk) == b'', 'msg1', 'the index message is not empty')
        got(i, 0, m)
    # keys
    spk, npk, nsk, msg2 = {}, {}, {}, b''
    for i in P:
        ts, o = out(i, 0)
        m, lt = o[:-64], o[-64:]
        spk[i] = m[HDR:HDR + 32]
        d = message(m, 2, i, 0xff, ts, sid, spk[i])
        nsk[i] = ev['noise_sk', i, 0][1]
        npk[i] = pub(nsk[i])
        need(d == spk[i] + npk[i], 'msg2', f'peer {i} does not announce its keys')
        need(signed(h(r['lt'][i - 1]), lt, m), 'ltsig', f'the keys of peer {i} are not signed with its long-term key')
        msg2 += m
    need(len(set(spk.values()) | set(npk.values()) | {tpk}) == 2 * n + 1, 'keys', 'two parties have the same key')

    def broadcast(step, no, peerstep, payload):
        ts, o = tpo(step)
        need(message(o, no, 0, 0xff, ts, sid, tpk) == payload, f'msg{no}', f'broadcast {no} does not consist of what the peers sent')
        transcript.append(o)
        for i in P:
            got(i, peerstep, o)

    broadcast(1, 3, 1, msg2)
    # handshakes
    eph = {}
    for x in map(h, r['draws']):
        eph[pub(x[2:])] = x[2:]
    sent = {}

    def p2p(peerstep, tpstep, no, size):
        for i in P:
            ts, o = out(i, peerstep)
            for j, m in zip(P, cut(o, n, f'msg{no}')):
                sent[no, i, j] = message(m, no, i, j, ts, sid, spk[i])
                need(len(sent[no, i, j]) == size, f'size:{no}', f'message {no} has a payload of {len(sent[no, i, j])} bytes')
        need(tpo(tpstep)[1] == b''.join(cut(out(i, peerstep)[1], n, '')[j - 1] for j in P for i in P), f'route:{no}', f'the TP does not relay the messages {no} unchanged')
        for j in P:
            got(j, tpstep, b''.join(cut(out(i, peerstep)[1], n, '')[j - 1] for i in P))

    p2p(1, 2, 4, 48)
    p2p(2, 3, 5, 48)
    # commitments
    msg6 = b''
    for i in P:
        ts, m = out(i, 3)
        c = message(m, 6, i, 0xff, ts, sid, spk[i])
        need(len(c) == 32 * t and len({c[k:k + 32] for k in range(0, 32 * t, 32)}) == t, 'msg6', f'peer {i} does not send {t} different commitments')
        msg6 += m
    broadcast(4, 7, 4, msg6)
    p2p(4, 5, 8, 64 + 49 + 32)
    # the encrypted channels: all pairs of small runs, some of large ones
    pairs = [(i, j) for i in P for j in P]
    bad = {(d, v) for d, v, k in r['pairs']}
    if len(pairs) > 16:
        pairs = [p for k, p in enumerate(pairs) if k % (len(pairs) // 8) == 0] + sorted(bad)[:4]
    key = {}
    for i, j in pairs:
        e1, e2 = sent[4, i, j][:32], sent[5, j, i][:32]
        need(e1 in eph and e2 in eph, 'ephemeral', f'the handshake between {i} and {j} does not use fresh random keys')
        s = noisexk_ref.Session(b'dpkg p2p v0.1', nsk[i], nsk[j], eph[e1], eph[e2])
        need(s.handshake(b'') == sent[4, i, j] and s.handshake(b'') == sent[5, j, i], 'handshake', f'the handshake between {i} and {j} differs from Noise_XK')
        third = s.handshake(b'')
        share = ev['shares', i, 4][1][33 * (j - 1):33 * j]
        need(share[0] == j, 'share', f'the share of {i} for {j} has index {share[0]}')
        c = s.transport(0, share)
        need(sent[8, i, j] == third + c + hmac.new(s.tk[0], c, hashlib.sha512).digest()[:32], 'msg8', f'the share from {i} to {j} is not sent as documented')
        key[i, j] = s.tk[0]
    # complaints
    against, msg9 = {i: [] for i in P}, b''
    for i in P:
        ts, m = out(i, 5)
        d = message(m, 9, i, 0xff, ts, sid, spk[i])
        need(len(d) == n + 1 and d[0] <= n and not any(d[1 + d[0]:]), 'msg9', f'the complaints of {i} have another form')
        want = [x for x in P if [x, i, 1] in r['pairs']] + [x for x in P if [x, i, 2] in r['pairs']]
        need(list(d[1:1 + d[0]]) == want, 'complaints', f'peer {i} complains about {list(d[1:1 + d[0]])} instead of {want}')
        for x in want:
            against[x].append(i)
        msg9 += m
    total = sum(map(len, against.values()))
    if ('tp', 0, 6) not in ev:          # the number of complaints was too high
        need(total and r['tpret'], 'abort', 'the run ended with the complaints although there is no reason')
        return 'aborted', total
    broadcast(6, 10, 6, msg9)
    if total:
        for i in P:
            if not against[i]:
                need(not any(k[0] == 'out' and k[1] == i and k[2] > 5 for k in ev), 'defence', f'peer {i} answers complaints that nobody made')
                continue
            ts, m = out(i, 7)
            d = message(m, 11, i, 0, ts, sid, spk[i])
            need(len(d) == 33 * len(against[i]) and list(d[::33]) == against[i], 'msg11', f'peer {i} does not answer the complaints of {against[i]}')
            for k, j in enumerate(against[i]):
                if (i, j) in key:
                    need(d[33 * k + 1:33 * k + 33] == key[i, j], 'key', f'peer {i} reveals another key than that of its channel to {j}')
                else:
                    c, tag = sent[8, i, j][64:113], sent[8, i, j][113:]
                    need(hmac.new(d[33 * k + 1:33 * k + 33], c, hashlib.sha512).digest()[:32] == tag, 'key', f'peer {i} reveals another key than that of its channel to {j}')
        return 'complaints', total
    # the end
    tr = b2(b'tp dkg session transcript', *(struct.pack('>I', len(m)) + m for m in transcript))
    for i in P:
        step = 8 if ('out', i, 8) in ev else 7
        ts, m = out(i, step)
        need(message(m, 20, i, 0, ts, sid, spk[i]) == tr, 'transcript', f'the transcript of peer {i} is not the hash of all broadcasts')
    ts, m = tpo(8)
    need(message(m, 21, 0, 0xff, ts, sid, tpk) == b'OK', 'msg21', 'the TP does not confirm with OK')
    for i in P:
        got(i, 9, m)
        ts, m2 = out(i, 9)
        need(message(m2, 22, i, 0, ts, sid, spk[i]) == b'OK', 'msg22', f'peer {i} does not confirm with OK')
    return 'success', 0


def judge(r):
    where = f"n={r['n']} t={r['t']}: "
    try:
        end, total = read(r)
    except Bad as e:
        return [(e.args[0], where + e.args[1])], None, None
    v = []
    if (end == 'success') != tp.success(r):
        v.append(('outcome', where + f'traffic looks like {end}, but ' + tp.outcome(r)))
    return v, (r['n'], r['t'], end, len(r['pairs'])), {'n': r['n'], 't': r['t'], 'end': end, 'complaints': total, 'messages': len(r['ev'])}


def run():
    c = vlib.Check('C37')
    noisexk_ref.selftest()
    c.rule = ('a case is one complete run whose whole traffic was read and recomputed; distinct by n, t, how it ended and the number of bad or disputed shares')
    drive(c, [('wire', 400, 3200)], {'wire': judge}, tp.exe())
    return c.finish()
