"""shared by the Noise checks"""
import vlib


def exe(flavour='asan'):
    return vlib.build(flavour, 'h_noise')


def complaints(r, prefix=''):
    """what the harness itself found wrong: '<key>:<text>'"""
    return [(prefix + b.split(':', 1)[0], b.split(':', 1)[1]) for b in r['bad']]
