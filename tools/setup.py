#!/usr/bin/env python3
"""Offline set-up: nothing to build ahead; check that the tools the verifier drives are there."""
import os, subprocess, sys, py_compile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(os.listdir(V + '/vc')):
    if f.endswith('.py'): py_compile.compile(V + '/vc/' + f, doraise=True)
for c in (['/usr/lib/llvm-18/bin/clang++', '--version'], ['/usr/lib/llvm-18/bin/opt', '--version'], ['g++', '--version'], ['python3-vt', '-c', 'import z3, cvc5, numpy'], ['cvc5', '--version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
print('ok')
