"""checks that the tools are there and warms the AST cache"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3, numpy
for t in ('clang++', 'cvc5'):
    subprocess.run([t, '--version'], stdout=subprocess.DEVNULL, check=True)
from vc import front
os.makedirs(os.path.join(HERE, '.cache'), exist_ok=True)
front.load(os.path.join(HERE, '.cache'))
print('ready')
