"""C19: memory locked for a secret is zeroed and released on every path (interposed locks, injected faults)."""
import vlib, fault
from prim import drive


def judge(r):
    v = [('locked', r['op'] + ': ' + r['bad'])] if 'bad' in r else []
    return v, (r['op'], r['locks'], r['unlocked'], r['errors']) if r['locks'] else None, r


def run():
    c = vlib.Check('C19', 'fault_enumeration')
    c.rule = ('a case is one call with one set of inputs, repeated with each of its locks and each of its group operations failing, or one protocol run '
              'with one failing lock; it counts when memory was locked; distinct by call, locks, releases and failing returns')
    drive(c, [('locks', 8000, 60000)], {'locks': judge}, fault.exe())
    return c.finish()
