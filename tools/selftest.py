#!/usr/bin/env python3
"""setup_cmd: nothing to build; checks that the tools the verifier needs are present and that the contracts load."""
import os, sys, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(R, 'mathvc'), os.path.join(R, 'contracts')]
os.makedirs(os.path.join(R, 'evidence'), exist_ok=True)
for t in ('clang++', 'opt', 'g++', 'cvc5', 'c++filt'):
    if not shutil.which(t): sys.exit('missing tool ' + t)
import z3, props
print('z3', z3.get_version_string(), 'properties', len(props.PROPS))
