"""connects the multiplexer's peers to loopback servers of every trustworthiness; mode auth"""
from pycommon import *
import socket, ssl, threading, time
from pyoprf import multiplexer

DIR = os.environ['VERIF_CERTS']
SECRET = b'request-which-only-the-peer-may-see-'

# certificate: the hosts it is good for, with the authority trusted
CERTS = {'name': {'localhost'}, 'ip': {'127.0.0.1'}, 'both': {'localhost', '127.0.0.1'}, 'inter': {'localhost', '127.0.0.1'}, 'other': set(), 'wild': set(), 'expired': set(), 'future': set(),
         'self': set(), 'stranger': set(), 'client': set(), 'nochain': set(), 'leafca': set()}


class Server(threading.Thread):
    """a peer which keeps everything that arrives: as ciphertext on the wire and as plaintext after a handshake"""
    def __init__(self, how, cert, version, stay):
        super().__init__(daemon=True)
        self.how, self.cert, self.version, self.stay = how, cert, version, stay
        self.l = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.l.bind(('127.0.0.1', 0))
        self.l.listen(4)
        self.port = self.l.getsockname()[1]
        self.wire, self.plain, self.shaken, self.error, self.ended = b'', b'', False, None, False

    def run(self):
        s = None
        try:
            self.l.settimeout(20)
            s, _ = self.l.accept()
            s.settimeout(20)
            if self.how == 'silent':
                self.drain(s)
            elif self.how == 'garbage':
                s.sendall(b'HTTP/1.1 400 Bad Request\r\n\r\n')
                self.drain(s)
            elif self.how == 'hangup':
                s.close()
            elif self.how == 'plain':
                s.sendall(self.recv(s))
                self.drain(s)
            else:
                self.tls(s)
        except OSError as e:
            self.error = e
        finally:
            if s:
                s.close()
            self.l.close()
            self.ended = True

    def recv(self, s, n=65536):
        try:
            b = s.recv(n)
        except OSError:
            return b''
        self.wire += b
        return b

    def drain(self, s):
        while self.recv(s):
            pass
        s.close()

    def tls(self, s):
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.set_ciphers('ALL:@SECLEVEL=0')
        ctx.minimum_version = ssl.TLSVersion.MINIMUM_SUPPORTED
        ctx.load_cert_chain(os.path.join(DIR, self.cert + '.pem'))
        ctx.num_tickets = 0
        ctx.options &= ~(ssl.OP_NO_TLSv1 | ssl.OP_NO_TLSv1_1)
        lo, hi = self.version
        ctx.minimum_version, ctx.maximum_version = lo, hi
        i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
        t = ctx.wrap_bio(i, o, server_side=True)
        dead = False
        while True:
            if not dead:
                try:
                    if not self.shaken:
                        t.do_handshake()
                        self.shaken = True
                    while True:
                        b = t.read()
                        if not b:
                            break
                        self.plain += b
                        t.write(b)
                except ssl.SSLWantReadError:
                    pass
                except ssl.SSLError as e:
                    self.error, dead = e, True
                out = o.read()
                if out:
                    try:
                        s.sendall(out)
                    except OSError:
                        pass
                if dead and not self.stay:
                    break
            b = self.recv(s)
            if not b:
                break
            if not dead:
                i.write(b)
        s.close()


def fds():
    r = {}
    for x in os.listdir('/proc/self/fd'):
        try:
            r[x] = os.readlink('/proc/self/fd/' + x)
        except OSError:
            pass
    return r


def auth(rng, no):
    v = []

    def bad(k, t):
        v.append([k, t[:500]])
    T = ssl.TLSVersion
    cert = sorted(CERTS)[no % len(CERTS)]
    host = rng.choice(['localhost', '127.0.0.1'])
    version = rng.choice([(T.TLSv1_2, T.TLSv1_2), (T.TLSv1_3, T.TLSv1_3), (T.TLSv1_2, T.TLSv1_3)])
    how = rng.choice(['tls'] * 8 + ['old', 'old', 'silent', 'garbage', 'hangup', 'absent', 'plain', 'plain'])
    trusted = rng.randrange(6) > 0
    stay = rng.randrange(3) > 0
    pinned = rng.randrange(6) == 0
    if how == 'old':
        version = rng.choice([(T.TLSv1_1, T.TLSv1_1), (T.TLSv1, T.TLSv1)])
        if rng.randrange(2):
            cert = 'both'
    if how == 'plain':
        kind = 'TCP'
    else:
        kind = rng.choice(['SSL', None])
    os.environ['SSL_CERT_FILE'] = os.path.join(DIR, 'ca.crt' if trusted else 'ca2.crt')
    os.environ['SSL_CERT_DIR'] = os.path.join(DIR, 'none')
    before = fds()
    srv = Server('tls' if how == 'old' else how, cert, version, stay)
    if how == 'absent':
        srv.l.close()
    else:
        srv.start()
    d = {'host': host, 'port': srv.port}
    if kind:
        d['type'] = kind
    if pinned and how != 'plain':
        d['ssl_cert'] = os.path.join(DIR, 'ca.crt')
    m = multiplexer.Multiplexer({'p': d})
    p = m[0]
    p.timeout = 0.5 if how == 'silent' else 10
    msg = SECRET + rng.b(rng.choice([1, 16, 1000])).hex().encode()
    good = how == 'plain' or how == 'tls' and (trusted and host in CERTS[cert] or pinned)
    what = f'host {host}, certificate {cert}, server {how} {version[0].name}..{version[1].name}, authority {"trusted" if trusted else "unknown"}{", pinned" if pinned else ""}'
    # not connected: nothing can be read
    try:
        p.read(1)
        bad('early', f'read before connecting did not raise')
    except ValueError:
        pass
    t0 = time.time()
    err = None
    try:
        m.connect() if no % 2 else p.connect()
    except Exception as e:
        err = e
    took = time.time() - t0
    if err is None and not good:
        bad('accepted', f'connecting succeeded: {what}')
    if err is not None and good:
        bad('refused', f'connecting raised {err!r}: {what}')
    if err is not None and not isinstance(err, (OSError, ValueError)):
        bad('exception', f'connecting raised {err!r}: {what}')
    if err is not None and took > 15:
        bad('timeout', f'connecting took {took:.1f} s with a timeout of {p.timeout} s: {what}')
    if (p.state == 'connected') != (err is None):
        bad('state', f'after connecting ({err!r}) the state is {p.state}: {what}')
    sent = got = None
    if err is None:
        try:
            p.connect()
            bad('twice', f'connecting a connected peer did not raise: {what}')
        except ValueError:
            pass
        try:
            m.send(0, msg) if no % 3 else m.broadcast(msg)
            got = m.gather(len(msg))
            if got != [msg]:
                bad('echo', f'{got} came back instead of {msg}: {what}')
        except Exception as e:
            bad('talk', f'talking to a connected peer raised {e!r}: {what}')
    else:
        # a program that tolerates missing peers goes on with the others
        try:
            m.send(0, msg) if no % 3 else m.broadcast(msg)
            sent = True
        except Exception as e:
            sent = repr(e)
        try:
            m.gather(len(msg))
            bad('gathered', f'gather returned after connecting failed: {what}')
        except ValueError:
            pass
        except Exception as e:
            bad('gather', f'gather raised {e!r} after connecting failed: {what}')
    shut = err is None or rng.randrange(3) > 0 or how == 'plain'
    if shut:
        m.close()
        if p.state != 'closed':
            bad('close', f'state after closing is {p.state}')
    if how != 'absent' and shut:
        srv.join(25)
        if srv.is_alive():
            bad('open', f'the connection is still open after close: {what}')
    if how != 'plain' and SECRET in srv.wire:
        bad('clear', f'the request went over the wire in clear ({"after connecting failed" if err else "connected"}): {what}')
    if how != 'plain' and not good and (SECRET in srv.plain):
        bad('given', f'the request was given to a peer that is not authenticated: {what}')
    if good and how == 'tls' and srv.plain != msg:
        bad('content', f'the peer received {srv.plain!r}: {what}')
    try:
        p.read(1)
        bad('late', 'read after closing did not raise')
    except ValueError:
        pass
    # a closed peer can be connected again
    again = None
    if good and rng.randrange(2):
        s2 = Server(srv.how, cert, version, stay)
        s2.start()
        p.address = (host, s2.port)
        try:
            p.connect()
            m.send(0, msg)
            again = m.gather(len(msg)) == [msg]
        except Exception as e:
            again = repr(e)
        m.close()
        s2.join(25)
        if again is not True:
            bad('again', f'connecting again after closing gave {again}: {what}')
    elif err is not None and (not shut or rng.randrange(2)):
        # and one that could not be reached can be tried again
        s2 = Server('tls', 'both', (T.TLSv1_2, T.TLSv1_3), stay)
        s2.start()
        p.address = (host, s2.port)
        p.type = 'SSL'
        os.environ['SSL_CERT_FILE'] = os.path.join(DIR, 'ca.crt')
        p.timeout = 10
        try:
            p.connect()
            m.send(0, msg)
            again = m.gather(len(msg)) == [msg]
        except Exception as e:
            again = repr(e)
        m.close()
        s2.join(25)
        if again is not True:
            bad('retry', f'connecting after a failure gave {again}: {what}')
    if how != 'absent' and not shut:
        srv.join(25)
        if srv.is_alive():
            bad('open', f'the failed connection is still open after connecting again and closing: {what}')
    # keep p alive: what is left open must not be closed by the collector
    after = fds()
    left = [t for x, t in after.items() if before.get(x) != t and t.startswith('socket:')]
    if left:
        bad('leak', f'descriptors stay open after closing: {left}, {what}')
    # other types are refused before anything is sent
    p2 = multiplexer.Peer('x', (host, 9), type=rng.choice(['ssl', 'tcp', '', 'NOISE', 'UDP', 'SSH', 'TCPSSL']))
    try:
        p2.connect()
        bad('type', f'type {p2.type} is accepted')
    except ValueError:
        pass
    except OSError as e:
        bad('type', f'type {p2.type} opens a connection: {e!r}')
    return dict(v=v, k=[cert, host, how, trusted, pinned, version[0].name, version[1].name, err is None], err=repr(err), sent=sent, wire=len(srv.wire), plain=len(srv.plain), again=again)


run({'auth': auth})
