"""Shared machinery of the checks: building /repo with sanitizers, running harness cases,
reporting violations and writing evidence."""
import atexit
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
VENV_PY = '/opt/vp/venv/bin/python'

sys.path.insert(0, os.path.join(VERIF, 'oracle'))


class CheckError(Exception):
    """the check itself failed (exit 2), not the property"""


# ------------------------------------------------------------------------------------- building

COMMON = ['-g', '-fno-omit-frame-pointer', '-w']
FLAVOURS = {
    'asan': dict(cc='clang', flags=COMMON + ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                                              '-fsanitize-address-use-after-scope',
                                              '-fno-sanitize=function,vla-bound'],
                 link=['-fsanitize=address,undefined']),
    'tsan': dict(cc='clang', flags=COMMON + ['-O1', '-fsanitize=thread'], link=['-fsanitize=thread']),
    # as the project builds it: for valgrind, fault injection and memory-content monitors
    'plain': dict(cc='gcc', flags=COMMON + ['-O2', '-fstack-protector-strong'], link=[]),
    'debug': dict(cc='gcc', flags=COMMON + ['-O1'], link=[]),
    # other ways to build it, whose results must be the same
    'gcc-O0': dict(cc='gcc', flags=['-w', '-O0', '-ftrivial-auto-var-init=pattern'], link=[]),
    'gcc-O3': dict(cc='gcc', flags=['-w', '-O3', '-march=native', '-DNDEBUG', '-funroll-loops'], link=[]),
    'gcc-Os': dict(cc='gcc', flags=['-w', '-Os', '-funsigned-char'], link=[]),
    'clang-O0': dict(cc='clang', flags=['-w', '-O0'], link=[]),
    'clang-O2': dict(cc='clang', flags=['-w', '-O2', '-funsigned-char', '-ftrivial-auto-var-init=pattern'], link=[]),
    'clang-O3': dict(cc='clang', flags=['-w', '-O3', '-march=native', '-DNDEBUG'], link=[]),
}


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def lib_sources():
    """source files of liboprf and of its noise library, as the makefile lists them"""
    src = os.path.join(REPO, 'src')
    mk = _read(os.path.join(src, 'makefile')).decode('utf8', 'replace')
    m = re.search(r'^SOURCES\s*[:?+]?=\s*((?:.*\\\n)*.*)$', mk, re.M)
    names = []
    if m:
        names = [w for w in re.sub(r'\\\n', ' ', m.group(1)).split() if w.endswith('.c')]
    if not names:
        names = ['oprf.c', 'toprf.c', 'dkg.c', 'utils.c', 'tp-dkg.c', 'mpmult.c']
    out = [os.path.join(src, n) for n in names]
    nd = os.path.join(src, 'noise_xk', 'src')
    noise = [os.path.join(nd, n) for n in sorted(os.listdir(nd)) if n.endswith('.c')]
    return out, noise


def include_flags():
    s = os.path.join(REPO, 'src')
    return ['-I' + s, '-I' + s + '/noise_xk/include', '-I' + s + '/noise_xk/include/karmel',
            '-I' + s + '/noise_xk/include/karmel/minimal']


NOISE_FLAGS = ['-std=c11', '-D_BSD_SOURCE', '-D_DEFAULT_SOURCE', '-DWITH_SODIUM', '-fwrapv']


def tree_hash():
    h = hashlib.sha256()
    base = os.path.join(REPO, 'src')
    for d, dirs, files in sorted(os.walk(base)):
        dirs[:] = sorted(x for x in dirs if x not in ('tests',))
        for f in sorted(files):
            if f.endswith(('.c', '.h')) or f == 'makefile':
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b'\0' + _read(p) + b'\0')
    return h.hexdigest()


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise CheckError('build failed: ' + ' '.join(cmd) + '\n' + r.stdout.decode('utf8', 'replace')[-4000:])


class _Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _prune(keep=24):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def build_lib(flavour, defs=(), pic=False):
    """compile the library; returns the directory with the objects"""
    fl = FLAVOURS[flavour]
    flags = fl['flags'] + list(defs) + (['-fPIC'] if pic else [])
    key = hashlib.sha256((tree_hash() + repr(flags) + fl['cc']).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, f'lib-{flavour}-{key}')
    with _Lock():
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(d)
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        main, noise = lib_sources()
        jobs = [[fl['cc'], '-std=gnu11'] + flags + include_flags() + ['-c', s, '-o', os.path.join(d, os.path.basename(s)[:-2] + '.o')]
                for s in main]
        jobs += [[fl['cc']] + flags + NOISE_FLAGS + include_flags() + ['-c', s, '-o', os.path.join(d, 'nx_' + os.path.basename(s)[:-2] + '.o')]
                 for s in noise]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(_run, jobs))
        open(os.path.join(d, 'ok'), 'w').close()
        _prune()
    return d


def sodium_calls():
    """the libsodium calls that sodium_guard.c describes to the sanitizers"""
    text = _read(os.path.join(HARNESS, 'sodium_guard.c')).decode()
    names = re.findall(r'__wrap_(\w+)\(', text) + re.findall(r'^(?:UN|UNV|BIN|BINV|RND)\((\w+)', text, re.M)
    names += [g + s for g in re.findall(r'^GH\((\w+)', text, re.M) for s in ('_init', '_update', '_final')]
    return sorted(set(names) - {'pre'})


def guard(flavour, d, pic=False):
    """(object, linker flags) of the guard; harnesses may replace parts of it"""
    fl = FLAVOURS[flavour]
    src = os.path.join(HARNESS, 'sodium_guard.c')
    obj = os.path.join(d, 'guard_' + hashlib.sha256(_read(src)).hexdigest()[:16] + '.obj')
    if not os.path.exists(obj):
        _run([fl['cc'], '-std=gnu11'] + fl['flags'] + (['-fPIC'] if pic else []) + ['-c', src, '-o', obj + '.tmp'])
        _run(['objcopy', '--weaken', obj + '.tmp'])
        os.rename(obj + '.tmp', obj)
    return obj, ['-Wl,--wrap=' + n for n in sodium_calls()]


def build(flavour, harness, wraps=(), defs=(), libs=('-lpthread',), libdefs=(), own=None):
    """link harness/<harness>.c, compiled as flavour own, with the library; returns the executable"""
    d = build_lib(flavour, libdefs)
    fl = FLAVOURS[flavour]
    h = hashlib.sha256()
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith('.h') or f == harness + '.c':
            h.update(f.encode() + b'\0' + _read(os.path.join(HARNESS, f)))
    h.update(_read(os.path.join(HARNESS, 'sodium_guard.c')) + repr((list(wraps), list(defs), list(libs), fl, FLAVOURS[own or flavour])).encode())
    exe = os.path.join(d, f'{harness}-{h.hexdigest()[:16]}')
    with _Lock():
        if os.path.exists(exe):
            return exe
        obj = exe + '.o'
        hf = FLAVOURS[own or flavour]
        _run([hf['cc'], '-std=gnu11'] + hf['flags'] + list(defs) + include_flags() + ['-I' + HARNESS, '-c',
              os.path.join(HARNESS, harness + '.c'), '-o', obj])
        objs = [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith('.o') and not x.startswith(harness + '-')
                and not re.match(r'h_.*-[0-9a-f]{16}\.o$', x)]
        if flavour in ('asan', 'tsan'):
            g, flags = guard(flavour, d)
            objs.append(g)
            libs = list(libs) + flags
        _run([fl['cc']] + fl['link'] + [obj] + objs + ['-o', exe + '.tmp', '-lsodium'] + list(libs) +
             ['-Wl,--wrap=' + w for w in wraps])
        os.rename(exe + '.tmp', exe)
    return exe


def build_shared(flavour='plain'):
    """liboprf.so and liboprf-noiseXK.so for the Python checks; returns their directory"""
    d = build_lib(flavour, pic=True)
    out = os.path.join(d, 'so-' + hashlib.sha256(_read(os.path.join(HARNESS, 'sodium_guard.c'))).hexdigest()[:16])
    with _Lock():
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        os.makedirs(out, exist_ok=True)
        fl = FLAVOURS[flavour]
        objs = sorted(x for x in os.listdir(d) if x.endswith('.o') and not re.match(r'h_.*-[0-9a-f]{16}\.o$', x))
        nx = [os.path.join(d, x) for x in objs if x.startswith('nx_')]
        ma = [os.path.join(d, x) for x in objs if not x.startswith('nx_')]
        if flavour == 'asan':
            g, flags = guard(flavour, d, True)
            ma += [g] + flags
            nx += [g] + flags
        shl = ['-shared'] + fl['link'] + (['-shared-libasan'] if flavour == 'asan' else [])
        _run([fl['cc']] + shl + ['-Wl,-soname,liboprf-noiseXK.so', '-o', out + '/liboprf-noiseXK.so'] + nx + ['-lsodium'])
        _run([fl['cc']] + shl + ['-Wl,-soname,liboprf.so', '-o', out + '/liboprf.so'] + ma +
             ['-L' + out, '-loprf-noiseXK', '-lsodium', '-Wl,-rpath,' + out])
        open(os.path.join(out, 'ok'), 'w').close()
    return out


# --------------------------------------------------------------------------------- running cases

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=77:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1:'
                    'max_allocation_size_mb=2048:handle_abort=1:strict_string_checks=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'LSAN_OPTIONS': 'exitcode=77:print_suppressions=0',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0:second_deadlock_stack=1',
}


def san_env(extra=None):
    e = dict(os.environ)
    for k in ('LD_PRELOAD', 'ASAN_SYMBOLIZER_PATH'):
        e.pop(k, None)
    e.update(SAN_ENV)
    if extra:
        e.update(extra)
    return e


def crash_key(stderr, rc):
    """stable name of a sanitizer report: kind and first function inside the tree"""
    kind = None
    m = re.search(r'ERROR: (?:Address|Leak|Thread)Sanitizer: ([\w-]+)', stderr)
    if m:
        kind = m.group(1)
    if 'LeakSanitizer: detected memory leaks' in stderr:
        kind = 'leak'
    m2 = re.search(r'runtime error: (.*)', stderr)
    if m2 and not kind:
        kind = 'ub:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m2.group(1))[:80].strip().replace(' ', '_')
    if 'WARNING: ThreadSanitizer' in stderr and not kind:
        m3 = re.search(r'WARNING: ThreadSanitizer: ([\w ]+)', stderr)
        kind = 'tsan:' + (m3.group(1).strip().replace(' ', '_') if m3 else 'report')
    if not kind:
        kind = f'signal{-rc}' if rc < 0 else f'exit{rc}'
    fn = '?'
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', stderr):
        if REPO in m.group(2) and '/src/' in m.group(2):
            fn = m.group(1)
            break
    return f'{kind}:{fn}'


class Case:
    def __init__(self, mode, no):
        self.mode, self.no, self.recs, self.crash, self.stderr, self.hang = mode, no, [], None, '', False


_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='verif-')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def _one_run(cmd, env, timeout, tag):
    so = os.path.join(scratch(), tag + '.out')
    se = os.path.join(scratch(), tag + '.err')
    with open(so, 'wb') as fo, open(se, 'wb') as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, start_new_session=True)
        try:
            rc = p.wait(timeout)
            to = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc, to = -9, True
    out = _read(so).decode('utf8', 'replace')
    err = _read(se).decode('utf8', 'replace')
    os.unlink(so)
    os.unlink(se)
    return rc, to, out, err


def _parse(out, mode):
    cases, cur = [], None
    for line in out.split('\n'):
        if line.startswith('B '):
            cur = Case(mode, int(line[2:]))
            cur.done = False
            cases.append(cur)
        elif line.startswith('R ') and cur:
            try:
                cur.recs.append(json.loads(line[2:]))
            except ValueError:
                pass    # cut off by a crash
        elif line.startswith('E ') and cur:
            cur.done = True
    return cases


def run_range(exe, mode, seed, start, count, env=None, per_case=20.0, args=(), prefix=(), tag=''):
    """run cases start..start+count-1, surviving crashes"""
    env = san_env(dict({'H_CPU': str(int(max(40, 4 * per_case)))}, **(env or {})))
    res = []
    hangs = crashes = 0
    nxt, end = start, start + count
    while nxt < end:
        if hangs >= 1 or crashes >= 10:
            break           # enough has been seen in this range
        cmd = list(prefix) + [exe, mode, str(seed), str(nxt), str(end - nxt)] + [str(a) for a in args]
        budget = 60 + per_case * (1 + (end - nxt) / 20.0)
        rc, to, out, err = _one_run(cmd, env, budget, f'{tag}{mode}-{start}')
        cs = _parse(out, mode)
        if rc == 0 and not to:
            if len(cs) != end - nxt or not all(c.done for c in cs):
                raise CheckError(f'harness skipped cases: {cmd}\n{err[-2000:]}')
            res += cs
            return res
        if not cs:
            raise CheckError(f'harness did not start: {cmd} rc={rc}\n{err[-3000:]}')
        last = cs[-1]
        if rc == 3:
            raise CheckError(f'harness error: {cmd} case {last.no}\n{err[-3000:]}')
        if last.done and not to:
            # failed after its last case (for instance a leak report at exit)
            last.crash, last.stderr = crash_key(err, rc), err
            res += cs
            nxt = end
            continue
        if to or rc == 44:
            c1 = list(prefix) + [exe, mode, str(seed), str(last.no), '1'] + [str(a) for a in args]
            rc1, to1, out1, err1 = _one_run(c1, env, 120 + 2 * per_case, f'{tag}{mode}-h{last.no}')
            if to1 or rc1 == 44:
                hangs += 1
                last.hang, last.crash, last.stderr = True, 'hang', err1
            else:
                again = _parse(out1, mode)
                if rc1 == 0 and again and again[-1].done:
                    cs[-1] = again[-1]
                else:
                    last.crash, last.stderr = crash_key(err1, rc1), err1
        else:
            crashes += 1
            last.crash, last.stderr = crash_key(err, rc), err
        res += cs
        nxt = cs[-1].no + 1
    return res


def run_cases(exe, mode, seed, total, env=None, shards=None, per_case=20.0, args=(), prefix=(), first=0):
    """all cases first..first+total-1 of a mode, in parallel; returns a list of Case in order"""
    shards = max(1, min(shards or JOBS * 2, total))
    ranges, pos = [], first
    for i in range(shards):
        n = total // shards + (1 if i < total % shards else 0)
        if n:
            ranges.append((pos, n))
        pos += n
    out = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(run_range, exe, mode, seed, s, n, env, per_case, args, prefix) for s, n in ranges]
        for f in fs:
            out += f.result()
    return out


# -------------------------------------------------------------------------------------- verdicts

def known_findings(prop):
    res = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


class Check:
    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.rule = ''
        self.extra = {}
        self.assumptions = []
        self.viol = {}
        self.known = known_findings(prop)
        self.known_seen = {}

    def n(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    def eval(self, key=None, n=1):
        """count n evaluated cases; key (if any) identifies a distinct non-trivial one"""
        self.evaluations += n
        if key is not None:
            self.distinct.add(key)

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def violation(self, key, detail, replay):
        """key: stable identity of the failure; replay: dict describing how to repeat it"""
        key = re.sub(r'\s+', '_', key)
        if key in self.known:
            self.known_seen.setdefault(key, detail)
            return
        if key not in self.viol:
            self.viol[key] = (detail, replay)

    def case_crash(self, case, exe, args=(), prefix=()):
        """record a crashed/hung case"""
        if case.crash:
            self.violation(f'{case.mode}:{case.crash}', f'case {case.no} of mode {case.mode} ended with {case.crash}\n' + case.stderr[-6000:],
                           {'cmd': list(prefix) + [exe, case.mode, str(self.seed), str(case.no), '1'] + [str(a) for a in args]})
            return True
        return False

    def replay_cmd(self, case, exe, args=(), prefix=()):
        return {'cmd': list(prefix) + [exe, case.mode, str(self.seed), str(case.no), '1'] + [str(a) for a in args]}

    def finish(self):
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': dict({'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct),
                              'rule': self.rule, 'samples': self.samples}, **self.extra),
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.viol),
        }
        ed = os.path.join(VERIF, 'evidence')
        os.makedirs(ed, exist_ok=True)
        tmp = os.path.join(ed, self.prop + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(tmp, os.path.join(ed, self.prop + '.json'))
        print(f'{self.prop} {self.tier}: {self.evaluations} evaluations, {len(self.distinct)} distinct non-trivial, '
              f'{len(self.viol)} violations, {ev["wall_s"]} s; ' + ', '.join(f'{k}={v}' for k, v in self.extra.items()
                                                                            if isinstance(v, (int, str, float))))
        for k, d in self.known_seen.items():
            print(f'KNOWN-FINDING: property={self.prop} {self.known[k]}')
        if self.viol:
            rd = os.path.join(ed, 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, (k, (detail, replay)) in enumerate(sorted(self.viol.items())[:20]):
                path = os.path.join(rd, f'{self.prop}-{hashlib.sha256(k.encode()).hexdigest()[:10]}.json')
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'key': k, 'seed': self.seed, 'tier': self.tier,
                               'detail': detail, 'replay': replay}, f, indent=1, default=str)
                print(f'  {k}: {detail[:600]}')
                print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        if self.evaluations == 0 or not self.distinct:
            print('error: the monitors observed nothing')
            return 2
        return 0


def main(fn):
    """run a check function, mapping its outcome to the exit codes"""
    try:
        rc = fn()
    except CheckError as e:
        print('error: ' + str(e))
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
