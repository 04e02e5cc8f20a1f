#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = ('Explores generated cases only, with a fixed seed; the sanitizer runtime, compiler and libsodium are trusted. ')
INFO = {
 'C01': ('differential monitoring against an independent RFC 9497 implementation under ASan/UBSan', 'exploration', A + 'The reference is big-integer Python.'),
 'C02': ('invalid-encoding injection judged by a reference decoder', 'exploration', A + 'The top bit of an encoding, which libsodium 1.0.18 ignores, is not judged.'),
 'C03': ('random-source perturbation: which drawn bytes influence which secret', 'exploration', A + 'libsodium\'s random source is replaced by a recorded deterministic one.'),
 'C04': ('trace monitor with big-integer interpolation', 'exploration', A),
 'C05': ('trace monitor with a reference 3HashTDH', 'exploration', A),
 'C06': ('trace monitor over honest DKG runs', 'exploration', A),
 'C07': ('fault injection into dealings, judged by reference verification', 'exploration', A),
 'C08': ('simulation of complete TP-DKG runs with an offline trace monitor', 'exploration', A),
 'C09': ('single-message tampering in simulated TP-DKG runs', 'fault_enumeration', A),
 'C10': ('replay, delay and redirection of messages in simulated TP-DKG runs', 'fault_enumeration', A),
 'C11': ('byzantine peers in simulated TP-DKG runs, verdict of the TP compared with what was done', 'exploration', A),
 'C12': ('byzantine runs with an agreement monitor over all finishing parties', 'exploration', A),
 'C13': ('state monitor over failed TP-DKG runs', 'exploration', A),
 'C14': ('exact-size buffers under ASan plus size prediction monitor', 'exploration', A),
 'C15': ('structure-aware message fuzzing of the TP under ASan/UBSan', 'exploration', A),
 'C16': ('structure-aware message fuzzing of peers under ASan/UBSan', 'exploration', A),
 'C17': ('leak and double-free monitoring over all exits of a peer', 'exploration', A),
 'C18': ('taint scan of everything that leaves a peer', 'exploration', A),
 'C19': ('lock/unlock ledger through wrapped sodium_mlock/munlock, with injected faults', 'fault_enumeration', A),
 'C20': ('fault injection into every lock and allocation', 'fault_enumeration', A),
 'C21': ('trace monitor with big-integer products', 'exploration', A),
 'C22': ('model-based driving of Noise sessions over a lossy channel', 'exploration', A),
 'C23': ('differential monitoring against an independent Noise_XK implementation', 'exploration', A),
 'C24': ('model-based monitor of security levels', 'exploration', A),
 'C25': ('fuzzing of the Noise API under ASan/UBSan/LSan', 'exploration', A),
 'C26': ('model-based driving of the peer registry', 'exploration', A),
 'C27': ('differential monitoring of the Python binding', 'exploration', A),
 'C28': ('simulated servers behind the multiplexer', 'exploration', A),
 'C29': ('ThreadSanitizer and schedule-independence monitor', 'exploration', A),
 'C30': ('valgrind memcheck over outputs and prefill differential', 'exploration', A),
 'C31': ('monitor of cheater explanations over enumerated and produced records', 'exploration', A),
 'C32': ('boundary-parameter grid under ASan/UBSan with exact-size buffers', 'exploration', A),
 'C33': ('valgrind memcheck with secrets marked undefined', 'exploration', A),
 'C36': ('inputs in write-protected pages; repeated work compared after other work', 'exploration', A),
 'C37': ('offline monitor: independent reader recomputing all traffic of simulated TP-DKG runs', 'exploration', A + 'Signatures are verified with libsodium; Noise messages with the Python reference.'),
 'C40': ('differential run of the same work in seven builds of the library', 'exploration', A),
 'C41': ('UBSan alignment and ASan with buffers moved to odd addresses, compared with aligned ones', 'exploration', A),
 'C42': ('concurrent calls from Python threads under ASan, judged by the reference', 'exploration', A),
 'C43': ('painted and guarded thread stacks with the largest parameters', 'exploration', A),
 'C44': ('scripted TLS servers of every trustworthiness that record all bytes', 'exploration', A),
 'C45': ('search for secrets in the painted stack after calls, with the frames of libsodium undone', 'exploration', A),
 'C46': ('repetition of calls of the Python module with the allocated bytes of AddressSanitizer compared', 'exploration', A),
 'C39': ('secret search in the log of runs, compared with runs without log', 'exploration', A),
 'C38': ('model-based sequences over shared keys, compared with whole keys', 'exploration', A),
}
NA = {
 'C34': 'Obliviousness is a statement about distributions over all inputs; a run shows single values and statistics over any affordable sample cannot decide it.',
 'C35': 'Computational hardness (one-more DH, forgery) has no observable violation at run time.',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA:
        na.append({'property': p, 'reason': NA[p]})
    elif os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        t, l, n = INFO[p]
        checks.append({'property': p, 'quick_cmd': f'python3 checks/run.py {p}', 'thorough_cmd': f'python3 checks/run.py {p}',
                       'technique': t, 'level': l, 'level_note': n.strip()})
    else:
        na.append({'property': p, 'reason': 'Check not built yet.'})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
