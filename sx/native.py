"""Support modules that run uninstrumented with symbolic values passing through: mark them callable directly."""
import sys


def mark():
    for n in list(sys.modules):
        if not (n == 'sx' or n.startswith('sx.')):
            continue
        m = sys.modules.get(n)
        if m is not None:
            m.__dict__['__sx_native__'] = True
