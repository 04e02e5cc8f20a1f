"""drives the multiplexer against scripted loopback servers; mode gather"""
from pycommon import *
import contextlib, signal, socket, ssl, struct, threading, time
from pyoprf import multiplexer

CERT = os.environ['VERIF_CERT']
FAIL = b'\x00\x04fail'


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


signal.signal(signal.SIGALRM, on_alarm)


class Server(threading.Thread):
    """accepts one connection, checks the request, plays its script of (delay, bytes), ends with: hold, close, reset"""
    def __init__(self, tls, script, end, request, release):
        super().__init__(daemon=True)
        self.tls, self.script, self.end, self.request, self.release = tls, script, end, request, release
        self.l = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.l.bind(('127.0.0.1', 0))
        self.l.listen(1)
        self.port = self.l.getsockname()[1]
        self.got = None
        self.error = None

    def run(self):
        try:
            self.l.settimeout(20)
            s, _ = self.l.accept()
            self.l.close()
            s.settimeout(20)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if self.tls:
                ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
                ctx.load_cert_chain(CERT)
                if self.tls == '1.2':
                    ctx.maximum_version = ssl.TLSVersion.TLSv1_2
                elif self.tls == '1.3':
                    ctx.num_tickets = 0
                s = ctx.wrap_socket(s, server_side=True)
            b = b''
            while len(b) < len(self.request):
                x = s.recv(len(self.request) - len(b))
                if not x:
                    break
                b += x
            self.got = b
            for delay, data in self.script:
                if delay:
                    time.sleep(delay)
                s.sendall(data)
            if self.end == 'reset':
                time.sleep(0.01)
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                s.close()
            elif self.end == 'close':
                if self.tls:
                    try:
                        s.settimeout(0.2)
                        s.unwrap()
                    except OSError:
                        pass
                s.close()
            elif self.end == 'shut':
                s.shutdown(socket.SHUT_WR) if not self.tls else None
                s.close()
            else:
                self.release.wait(60)
                s.close()
        except Exception as e:
            self.error = e


def fragments(rng, data, slow):
    """cut into pieces, some of them sent at once"""
    out, pos = [], 0
    k = rng.choice([0, 0, 1, 2, 4]) if len(data) > 1 else 0
    cuts = sorted(rng.sample(range(1, len(data)), min(k, len(data) - 1))) if k else []
    for c in cuts + [len(data)]:
        out.append((rng.choice([0, 0, 0.001, 0.01, 0.03]) if slow else 0, data[pos:c]))
        pos = c
    return out


def plan(rng):
    p = rng.choice([1, 2, 3, 3, 4, 5, 6])
    rounds = rng.choice([1, 2, 2, 3, 4])
    lens = [rng.choice([1, 3, 6, 7, 33, 100, 1000, rng.randrange(7, 5000), 20000, 70000, 6]) for _ in range(rounds)]
    kind = rng.choice(['all', 'all', 'some', 'some', 'bad', 'bad', 'fail', 'ignore', 'stall'])
    if kind == 'fail':
        lens = [max(x, 6) for x in lens]
    proc = kind == 'ignore' or rng.randrange(3) == 0
    peers = []
    for i in range(p):
        tls = rng.choice(['', '1.2', '1.3', '1.3t'])
        peers.append(dict(tls=tls, end='hold', silent=False))
    mix = rng.randrange(3)
    if mix == 0:
        for x in peers:
            x['tls'] = ''
    elif mix == 1:
        for x in peers:
            x['tls'] = x['tls'] or '1.3'
    for i, x in enumerate(peers):
        msgs = []
        for r in range(rounds):
            seq = []
            if kind == 'ignore':
                seq += [b'I' + rng.b(lens[r] - 1) for _ in range(rng.choice([0, 0, 1, 2]))]
            m = b'M' + rng.b(lens[r] - 1)
            if rng.randrange(8) == 0 and lens[r] > 8:
                m = (FAIL + m)[:lens[r]]        # begins like a failure, but is longer
                if kind == 'ignore':
                    m = b'M' + m[1:]
            seq.append(m)
            msgs.append(seq)
        x['msgs'] = msgs
        x['stop'] = None
    n = None
    if kind == 'some':
        n = rng.randrange(1, p + 1)
        # the others stay silent
        for i in rng.sample(range(p), rng.randrange(0, p - n + 1)):
            peers[i]['silent'] = True
            if peers[i]['tls'] == '1.3t':
                peers[i]['tls'] = '1.3'
    if kind in ('bad', 'fail', 'stall'):
        n = rng.choice([None, rng.randrange(1, p + 1), max(1, p - 1)])
        for i in rng.sample(range(p), rng.randrange(1, p + 1)):
            x = peers[i]
            r = rng.randrange(rounds)
            if kind == 'bad' and rng.randrange(4) == 0 and x['tls'] != '1.3t':
                x['stop'] = (r, 0)              # says no more, but stays connected
            elif kind == 'bad':
                cut = rng.choice([0, rng.randrange(0, lens[r]), lens[r] - 1])
                x['stop'] = (r, cut)
                x['end'] = rng.choice(['close', 'reset', 'shut']) if not x['tls'] else rng.choice(['close', 'shut', 'reset'])
            elif kind == 'fail':
                x['stop'] = (r, 'fail')
                x['end'] = rng.choice(['close', 'shut'])
            else:
                if lens[r] > 1:
                    x['stop'] = (r, rng.randrange(1, lens[r]))
                    x['end'] = 'hold'
    return dict(p=p, rounds=rounds, lens=lens, kind=kind, proc=proc, peers=peers, n=n, slow=rng.randrange(3) > 0, ahead=rng.randrange(2), req=rng.b(rng.choice([1, 10, 3000])))


def attempt(rng, no, P):
    v = []

    def bad(k, t):
        v.append([k, t[:500]])
    release = threading.Event()
    servers, streams = [], []
    gates = []
    for x in P['peers']:
        st = []         # (bytes, kind) in order
        for r, seq in enumerate(x['msgs']):
            if x['stop'] and x['stop'][0] == r:
                if x['stop'][1] == 'fail':
                    st.append(FAIL)
                else:
                    st.append(b''.join(seq)[:x['stop'][1]])
                break
            st.append(b''.join(seq))
        data = b''.join(st) if not x['silent'] else b''
        streams.append(data)
        # all rounds may be sent ahead, in pieces which do not respect message borders
        if P['ahead']:
            script = fragments(rng, data, P['slow']) if data else []
        else:
            script = [f for s in st for f in fragments(rng, s, P['slow']) if s] if data else []
        servers.append(Server(x['tls'], script, x['end'], P['req'], release))
    for s in servers:
        s.start()
    desc = {f'peer{i}': dict({'host': '127.0.0.1', 'port': s.port, 'type': 'SSL' if x['tls'] else 'TCP'}, **({'ssl_cert': CERT} if x['tls'] else {}))
            for i, (s, x) in enumerate(zip(servers, P['peers']))}
    # peers of the default type need no type
    for i, x in enumerate(P['peers']):
        if x['tls'] and i % 2:
            del desc[f'peer{i}']['type']
    log = []
    results = []
    try:
        with open(os.devnull, 'w') as nul:
            m = multiplexer.Multiplexer(desc)
            if len(m) != P['p'] or [x.name for x in m] != list(desc) or m[0].name != 'peer0':
                bad('peers', 'the peers are not in the given order')
            if P['kind'] == 'stall':
                for x in m:
                    x.timeout = 1.0
            signal.alarm(25)
            try:
                m.connect()
                if no % 2:
                    m.broadcast(P['req'])
                else:
                    for i in range(P['p']):
                        m.send(i, P['req'])
            except Exception as e:
                signal.alarm(0)
                release.set()
                bad('connect', f'connecting and sending raised {e!r}, peers {[x["tls"] for x in P["peers"]]}')
                return v, None, [[-1]], ['connect']
            off = [{0} for _ in range(P['p'])]
            dead = [False] * P['p']
            maybe = [False] * P['p']    # a failure that may have been taken already
            seen = []

            def proc(pkt):
                seen.append(bytes(pkt))
                return None if pkt[:1] == b'I' else [pkt, len(pkt)]
            for r in range(P['rounds']):
                ln, n = P['lens'][r], P['n']
                want = P['p'] if n is None else n
                # what each peer can still deliver
                can, fails, silent, open_ = 0, 0, 0, 0
                for i, x in enumerate(P['peers']):
                    o = min(off[i])
                    d = streams[i][o:]
                    while P['kind'] == 'ignore' and d[:1] == b'I' and len(d) >= ln:
                        d = d[ln:]
                    if dead[i]:
                        continue
                    if len(d) >= ln and d[:ln] != FAIL:
                        can += 1
                    elif d[:6] == FAIL and (ln == 6 or len(d) == 6 and x['end'] != 'hold'):
                        fails += 1
                        open_ += maybe[i]
                    elif not d and x['end'] == 'hold':
                        silent += 1
                if can + fails - open_ < want and can + fails + silent >= want:
                    break       # has to wait for a silent peer, or depends on the order of earlier failures: not judged
                seen.clear()
                t0 = time.time()
                try:
                    res = m.gather(ln, *([] if n is None else [n]), **({'proc': proc} if P['proc'] else {}))
                    exc = None
                except Exception as e:
                    res, exc = None, e
                log.append([r, ln, want, can, fails, silent, None if exc is None else repr(exc), None if res is None else [None if y is None else 1 for y in res], round(time.time() - t0, 2)])
                if exc is not None:
                    if not isinstance(exc, ValueError):
                        bad('exception', f'gather raised {exc!r}')
                    if can + fails >= want and fails < want and can > 0:
                        bad('raised', f'gather({ln}, n={n}) raised {exc!r} although {can} peers of {P["p"]} deliver')
                    results.append('raised')
                    break
                if can + fails < want:
                    bad('too few', f'gather({ln}, n={n}) returned although only {can + fails} peers can answer: {log[-1]}')
                if not isinstance(res, list) or len(res) != P['p']:
                    bad('shape', f'gather returned {repr(res)[:200]}')
                    break
                if all(y is None for y in res):
                    bad('all failed', f'gather({ln}, n={n}) returned only failures')
                # number of answers
                fail_idx = [i for i in range(P['p']) if not dead[i] and any(streams[i][o:o + 6] == FAIL and (ln == 6 or len(streams[i]) == o + 6) for o in off[i])]
                if sum(y is not None for y in res) + len([i for i in fail_idx if res[i] is None]) < want:
                    bad('count', f'gather({ln}, n={n}) returned {sum(y is not None for y in res)} answers')
                for i, y in enumerate(res):
                    nxt = set()
                    for o in off[i]:
                        if y is None:
                            nxt.add(o)
                            if streams[i][o:o + 6] == FAIL and ln == 6:
                                nxt.add(o + 6)
                            q = o
                            while P['kind'] == 'ignore' and streams[i][q:q + 1] == b'I' and len(streams[i]) >= q + ln:
                                q += ln
                                nxt.add(q)
                            continue
                        q = o
                        while P['kind'] == 'ignore' and streams[i][q:q + 1] == b'I' and len(streams[i]) >= q + ln:
                            q += ln
                        mm = streams[i][q:q + ln]
                        if len(mm) == ln and mm != FAIL and (y == mm if not P['proc'] else y == [mm, ln]):
                            nxt.add(q + ln)
                    if not nxt:
                        dat = y[0] if P['proc'] and isinstance(y, list) else y
                        who = [j for j in range(P['p']) if isinstance(dat, bytes) and len(dat) and dat in streams[j]]
                        bad('wrong', f'round {r}: position {i} holds {len(dat) if hasattr(dat, "__len__") else dat} bytes {repr(dat)[:60]} which are not the next {ln} bytes of '
                            f'peer {i} (found in streams of {who}); offsets {off[i]} of {len(streams[i])}')
                        nxt = {len(streams[i])}
                    off[i] = nxt
                    if y is None and want == P['p']:
                        dead[i] = not (ln == 6 and i in fail_idx)
                    if y is None and i in fail_idx:
                        maybe[i] = True
                if P['proc'] and any(len(s) != ln for s in seen):
                    bad('proc', f'proc was given {[len(s) for s in seen]} bytes instead of {ln}')
                results.append('ok')
                if want != P['p'] and (len({P['lens'][q] for q in range(P['rounds'])}) > 1):
                    break       # the lengths of later rounds do not fit a peer that was left behind
                if any(len(o) > 1 for o in off):
                    break
            signal.alarm(0)
            if no % 3 == 0:
                m.close()
            else:
                try:
                    with contextlib.redirect_stdout(nul), m as same:
                        if same is not m:
                            bad('with', 'with gives another object')
                        if no % 3 == 2:
                            raise KeyError(no)
                    if no % 3 == 2:
                        bad('with', 'with swallows an exception')
                except KeyError as e:
                    if e.args != (no,):
                        raise
            m.close()
            for x in m:
                if x.fd is not None and x.fd.fileno() != -1:
                    bad('close', 'close leaves a connection open')
    except Hang:
        release.set()
        return v, 'hang', log, results
    except Exception:
        signal.alarm(0)
        release.set()
        raise
    finally:
        signal.alarm(0)
    release.set()
    for i, s in enumerate(servers):
        s.join(30)
        if s.got is not None and s.got != P['req']:
            bad('send', f'peer {i} received {len(s.got)} of {len(P["req"])} bytes')
    return v, None, log, results


hangs = 0


def gather(rng, no):
    global hangs
    P = plan(rng)
    if hangs >= 2:
        return dict(v=[], k=['skipped'], log=[])
    state = rng.getstate()
    v, h, log, results = attempt(rng, no, P)
    if h:
        rng.setstate(state)
        v2, h2, log2, results2 = attempt(rng, no, P)
        if h2:
            hangs += 1
            v = v + [['hang', f'gather does not return: rounds {log2}, n={P["n"]}, kind {P["kind"]}, peers {[(x["tls"], x["stop"], x["end"], x["silent"]) for x in P["peers"]]}']]
        else:
            v, log, results = v2, log2, results2
    return dict(v=v, k=[P['kind'], P['p'], P['n'], P['rounds'], [x['tls'] for x in P['peers']], P['proc'], results], log=log)


run({'gather': gather})
