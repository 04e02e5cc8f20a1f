"""C44: TLS peers are authenticated before anything is sent to them."""
import os, subprocess
import vlib, py

CA = '''[v]
basicConstraints=critical,CA:TRUE
keyUsage=critical,keyCertSign,cRLSign
subjectKeyIdentifier=hash
'''


def ssl(*a, cwd):
    p = subprocess.run(['openssl', *a], cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError('openssl ' + ' '.join(a) + ': ' + p.stdout.decode(errors='replace')[-500:])


def certs():
    d = os.path.join(vlib.scratch(), 'certs')
    os.makedirs(os.path.join(d, 'none'))
    with open(os.path.join(d, 'req.cnf'), 'w') as f:
        f.write('[req]\ndistinguished_name=dn\nprompt=no\n[dn]\nCN=x\n')
    with open(os.path.join(d, 'ca.cnf'), 'w') as f:
        f.write('[ca]\ndefault_ca=d\n[d]\ndatabase=index.txt\nserial=serial\nnew_certs_dir=.\ndefault_md=sha256\npolicy=p\nunique_subject=no\n[p]\ncommonName=supplied\n')
    open(os.path.join(d, 'index.txt'), 'w').close()
    with open(os.path.join(d, 'serial'), 'w') as f:
        f.write('1000\n')
    with open(os.path.join(d, 'v.cnf'), 'w') as f:
        f.write(CA)

    def key(n, subj):
        ssl('req', '-config', 'req.cnf', '-new', '-newkey', 'ec', '-pkeyopt', 'ec_paramgen_curve:prime256v1', '-nodes', '-keyout', n + '.key', '-out', n + '.csr', '-subj', subj, cwd=d)

    def sign(n, ca, ext, start='20200101000000Z', end='20991231235959Z'):
        with open(os.path.join(d, n + '.cnf'), 'w') as f:
            f.write('[v]\n' + ext)
        ssl('ca', '-batch', '-config', 'ca.cnf', '-notext', '-cert', ca + '.crt', '-keyfile', ca + '.key', '-in', n + '.csr', '-out', n + '.crt', '-startdate', start, '-enddate', end,
            '-extfile', n + '.cnf', '-extensions', 'v', cwd=d)

    def pem(n, *chain):
        with open(os.path.join(d, n + '.pem'), 'w') as f:
            for x in (n + '.key', n + '.crt') + tuple(c + '.crt' for c in chain):
                f.write(open(os.path.join(d, x)).read())

    for ca in ('ca', 'ca2', 'ca3'):
        key(ca, '/CN=authority ' + ca)
        ssl('x509', '-req', '-in', ca + '.csr', '-signkey', ca + '.key', '-out', ca + '.crt', '-days', '3000', '-extfile', 'v.cnf', '-extensions', 'v', cwd=d)
    leaf = 'basicConstraints=CA:FALSE\nextendedKeyUsage=serverAuth\nsubjectAltName='
    both = 'DNS:localhost,IP:127.0.0.1\n'
    for n, ca, ext, kw in [('name', 'ca', leaf + 'DNS:localhost\n', {}), ('ip', 'ca', leaf + 'IP:127.0.0.1\n', {}), ('both', 'ca', leaf + both, {}),
                           ('other', 'ca', leaf + 'DNS:example.org,IP:127.0.0.2\n', {}), ('wild', 'ca', leaf + 'DNS:*.localhost,DNS:localhost.example.org,DNS:xlocalhost\n', {}),
                           ('expired', 'ca', leaf + both, dict(end='20210101000000Z')), ('future', 'ca', leaf + both, dict(start='20900101000000Z')),
                           ('stranger', 'ca3', leaf + both, {}), ('client', 'ca', leaf.replace('serverAuth', 'clientAuth') + both, {})]:
        # without names of hosts the common name counts
        key(n, '/CN=peer' if n in ('ip', 'other', 'wild') else '/CN=localhost')
        sign(n, ca, ext, **kw)
        pem(n)
    key('self', '/CN=localhost')
    with open(os.path.join(d, 'self.cnf'), 'w') as f:
        f.write('[v]\nsubjectAltName=' + both)
    ssl('x509', '-req', '-in', 'self.csr', '-signkey', 'self.key', '-out', 'self.crt', '-days', '3000', '-extfile', 'self.cnf', '-extensions', 'v', cwd=d)
    pem('self')
    # an intermediate authority: sent along, left out, or not entitled to sign
    key('mid', '/CN=intermediate')
    sign('mid', 'ca', 'basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign\n')
    for n, ca, chain in (('inter', 'mid', ('mid',)), ('nochain', 'mid', ()), ('leafca', 'both', ('both',))):
        key(n, '/CN=localhost')
        sign(n, ca, leaf + both)
        pem(n, *chain)
    # a configuration of OpenSSL which itself would allow old protocols
    with open(os.path.join(d, 'openssl.cnf'), 'w') as f:
        f.write('openssl_conf=a\n[a]\nssl_conf=b\n[b]\nsystem_default=c\n[c]\nMinProtocol=TLSv1\nCipherString=ALL:@SECLEVEL=0\n')
    return d


def run():
    c = vlib.Check('C44')
    c.rule = 'a case counts when a connection was attempted; distinct by certificate, host, behaviour of the server, trusted authority, protocol versions and outcome'
    d = certs()
    e, exe, pre = py.env('plain'), py.script('tls'), (py.PY,)
    e['VERIF_CERTS'] = d
    e['OPENSSL_CONF'] = os.path.join(d, 'openssl.cnf')
    e.pop('PYTHONMALLOC')
    seen = {'connected': 0, 'refused': 0}
    for cs in vlib.run_cases(exe, 'auth', c.seed, c.n(800, 6000), env=e, prefix=pre, per_case=60):
        if c.case_crash(cs, exe, prefix=pre) or not cs.recs:
            continue
        r = cs.recs[-1]
        seen['connected' if r['k'][-1] else 'refused'] += 1
        c.eval(repr(r['k']))
        for k, text in r['v']:
            c.violation(f'auth:{k}', text, c.replay_cmd(cs, exe, prefix=pre))
        if not r['v']:
            c.sample({'case': r['k'], 'error': r['err'], 'sending after a failure': r['sent'], 'bytes on the wire': r['wire'], 'again': r['again']})
    if not c.viol and not all(seen.values()):
        raise RuntimeError(f'one-sided observations {seen}')
    c.extra['connections'] = seen
    return c.finish()
