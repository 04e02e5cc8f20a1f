"""running the drivers of the Python module"""
import os, subprocess
import vlib

PY = '/opt/vp/venv/bin/python'


def env(flavour='asan'):
    libs = vlib.build_shared(flavour)
    e = {'VERIF_LIBS': libs, 'VERIF_PYDIR': os.path.join(vlib.REPO, 'python'), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONMALLOC': 'malloc',
         'PYTHONHASHSEED': '0', 'LD_LIBRARY_PATH': libs, 'PYTHONPATH': ''}
    if flavour == 'asan':
        rt = subprocess.run(['clang', '-print-file-name=libclang_rt.asan-x86_64.so'], stdout=subprocess.PIPE, check=True).stdout.decode().strip()
        e['LD_PRELOAD'] = rt
        e['ASAN_OPTIONS'] = vlib.SAN_ENV['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0').replace('detect_stack_use_after_return=1', 'detect_stack_use_after_return=0') + \
            ':verify_asan_link_order=0:quarantine_size_mb=64'
    return e


def script(name):
    return os.path.join(vlib.VERIF, 'pydrv', name + '.py')
