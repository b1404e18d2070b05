"""Ghost model of text files read by Configurator::LoadMatrix (filled in later)."""
from .eng import *


def ctor(x, s, args):
    raise Unsupported('file streams')


def method(x, v, name, args, n):
    raise Unsupported('file streams')


def extract(x, v, target, n):
    raise Unsupported('file streams')


def getline(x, args):
    raise Unsupported('file streams')
