"""C28: the multiplexer returns every peer's own complete message."""
import os, subprocess
import vlib, py


def run():
    c = vlib.Check('C28')
    c.rule = 'a case counts when at least one gathering ended; distinct by kind of disturbance, peers, transports, number of answers asked for and outcome of each round'
    cert = os.path.join(vlib.scratch(), 'cert.pem')
    subprocess.run(['openssl', 'req', '-x509', '-newkey', 'ec', '-pkeyopt', 'ec_paramgen_curve:prime256v1', '-nodes', '-keyout', cert, '-out', cert + '.crt',
                    '-days', '3', '-subj', '/CN=localhost'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open(cert, 'a') as f:
        f.write(open(cert + '.crt').read())
    e, exe, pre = py.env('plain'), py.script('mux'), (py.PY,)
    e['VERIF_CERT'] = cert
    e.pop('PYTHONMALLOC')
    gathers = 0
    for cs in vlib.run_cases(exe, 'gather', c.seed, c.n(480, 2400), env=e, prefix=pre, per_case=60):
        if c.case_crash(cs, exe, prefix=pre) or not cs.recs:
            continue
        r = cs.recs[-1]
        gathers += len(r['log'])
        c.eval(repr(r['k']) if r['log'] else None)
        for k, text in r['v']:
            c.violation(f'gather:{k}', text, c.replay_cmd(cs, exe, prefix=pre))
        if r['log'] and not r['v']:
            c.sample({'kind': r['k'], 'rounds [no,len,wanted,can,fails,silent,error,answers,s]': r['log']})
    c.extra['gatherings'] = gathers
    return c.finish()
