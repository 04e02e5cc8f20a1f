#!/usr/bin/env python3
"""prebuilds the library in the flavours the checks use (they rebuild whatever is out of date)"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'oracle'), os.path.join(V, 'checks')]
import vlib, r255, fault, c33, c40, c45
assert r255.encode(r255.mul_base(1)) == r255.encode(r255.G)
for fl in ('asan', 'tsan', 'plain', 'debug'):
    vlib.build_lib(fl)
vlib.build('asan', 'h_prim')
vlib.build('asan', 'h_tpdkg', wraps=('time',))
vlib.build('asan', 'h_noise')
vlib.build('asan', 'h_rand', wraps=('time',))
vlib.build('asan', 'h_const', wraps=('time',))
vlib.build('asan', 'h_flow', wraps=('time',))
vlib.build('asan', 'h_align', wraps=('time',))
for fl in c40.BUILDS:
    vlib.build(fl, 'h_mem', wraps=('time',), own='plain')
for fl in ('plain', 'gcc-O0'):
    vlib.build(fl, 'h_stack', wraps=('time',))
    c45.exe(fl)
fault.exe()
vlib.build('tsan', 'h_threads', wraps=('time',))
for fl in ('plain', 'debug'):
    c33.exe(fl)
    vlib.build(fl, 'h_mem', wraps=('time',))
vlib.build_shared('asan')
vlib.build_shared('plain')
print('ready')
