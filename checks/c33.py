"""C33: secrets do not steer branches or memory addresses (memcheck with the secrets marked undefined)."""
import re
import vlib

WRAPS = ('time', 'crypto_scalarmult_ristretto255', 'crypto_core_ristretto255_add', 'crypto_core_ristretto255_sub', 'crypto_scalarmult',
         'crypto_core_ristretto255_scalar_mul', 'crypto_core_ristretto255_scalar_add', 'crypto_core_ristretto255_scalar_sub',
         'crypto_core_ristretto255_scalar_invert', 'crypto_core_ristretto255_from_hash', 'crypto_scalarmult_ristretto255_base',
         'crypto_scalarmult_base', 'crypto_core_ristretto255_is_valid_point', 'crypto_core_ristretto255_scalar_random', 'randombytes_buf',
         'sodium_memcmp', 'sodium_is_zero', 'crypto_sign_keypair', 'crypto_sign_detached', 'crypto_auth', 'crypto_auth_verify',
         'crypto_aead_chacha20poly1305_ietf_encrypt', 'crypto_aead_chacha20poly1305_ietf_decrypt')
VG = ('valgrind', '--quiet', '--leak-check=no', '--num-callers=15', '--max-stackframe=4000000', '--error-limit=no', '--expensive-definedness-checks=yes')


def exe(flavour):
    return vlib.build(flavour, 'h_ct', wraps=WRAPS)


def where(exe, seed, cs):
    """what memcheck says about one case"""
    rc, to, out, err = vlib._one_run(list(VG) + [exe, 'ct', str(seed), str(cs.no), '1'], vlib.san_env({'H_CPU': '400'}), 300, f'ct-where{cs.no}')
    err = re.sub(r'^==\d+== ?', '', err, flags=re.M)
    m = re.search(r'(Conditional jump|Use of uninit|Syscall|Invalid)[^\n]*\n((?: +(?:at|by) [^\n]*\n)+)', err)
    fn = 'unknown'
    if m:
        for f in re.finditer(r'(?:at|by) 0x[0-9A-F]+: (\S+) \((\S+?)[:)]', m.group(2)):
            if f.group(2).endswith('.c') and not f.group(2).startswith('h_'):
                fn = f.group(1)
                break
    return fn, err[:3000]


def run():
    c = vlib.Check('C33')
    c.rule = ('a case is one computation with its secrets marked undefined under memcheck; it counts when group or cipher operations received a secret; '
              'distinct by build, kind, secret operations and secret outputs')
    calls = secret = 0
    looked = {}
    for flavour, q, t in (('debug', 180, 1800), ('plain', 180, 1800)):
        e = exe(flavour)
        for cs in vlib.run_cases(e, 'ct', c.seed, c.n(q, t), prefix=VG, per_case=60.0, env={'H_CPU': '400'}):
            if c.case_crash(cs, e, (), VG):
                continue
            r = cs.recs[-1]
            if not r['vg']:
                raise vlib.CheckError('memcheck does not observe the run')
            calls += r['calls']
            secret += r['secret']
            if r['errors']:
                looked[r['kind']] = looked.get(r['kind'], 0) + 1
                if looked[r['kind']] <= 2:          # naming the place takes another run
                    fn, text = where(e, c.seed, cs)
                    c.violation(f'{r["kind"]}:{fn}', f'{r["kind"]}: {r["errors"]} jumps or addresses depend on a secret, first in {fn}\n{text}', c.replay_cmd(cs, e, (), VG))
            else:
                c.sample({k: r[k] for k in ('kind', 'calls', 'secret', 'out')})
            c.eval((flavour, r['kind'], r['calls'], r['out']) if r['calls'] and r['out'] else None)
    c.extra.update(secret_operations=calls, secret_bytes=secret)
    return c.finish()
