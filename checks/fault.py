"""building the fault-injecting harness"""
import vlib

WRAPS = ('time', 'sodium_mlock', 'sodium_munlock', 'mlock', 'munlock', 'malloc', 'calloc', 'realloc', 'crypto_scalarmult_ristretto255',
         'crypto_core_ristretto255_scalar_invert', 'crypto_core_ristretto255_from_hash', 'crypto_core_ristretto255_is_valid_point',
         'crypto_core_ristretto255_add', 'crypto_scalarmult_ristretto255_base')


def exe():
    return vlib.build('asan', 'h_fault', wraps=WRAPS)
