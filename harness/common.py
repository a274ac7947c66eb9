"""Shared helpers: access to the code under test, exact numbers, JSON encoding for TLC."""
import os
import sys
from fractions import Fraction

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Malformed(Exception):
    """The code under test returned something that cannot even be recorded."""


class HarnessBug(Exception):
    """The harness itself is wrong (never a verdict)."""


def limbs(n):
    n = int(n)
    if n < 0:
        raise HarnessBug(n)
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def fx(v, what='value'):
    """Signed fixed point (10^-9) of a recorded number."""
    if v is None or isinstance(v, (str, bytes)):
        raise Malformed('%s is %r' % (what, v))
    arr = np.asarray(v)
    if arr.shape != ():
        raise Malformed('%s is not a scalar: %r' % (what, v))
    if arr.dtype.kind not in 'fiub':
        raise Malformed('%s is not a number: %r' % (what, v))
    f = arr.item()
    if isinstance(f, float) and (f != f or f in (float('inf'), float('-inf'))):
        raise Malformed('%s is %r' % (what, v))
    q = Fraction(f) if not isinstance(f, Fraction) else f
    return fxq(q)


def fxq(q):
    n = round(q * 10**9)
    return {'s': -1 if n < 0 else 1, 'm': limbs(abs(n))}


def fr(v, what='value'):
    arr = np.asarray(v)
    if arr.shape != () or arr.dtype.kind not in 'fiub':
        raise Malformed('%s is not a number: %r' % (what, v))
    f = arr.item()
    if isinstance(f, float) and (f != f or f in (float('inf'), float('-inf'))):
        raise Malformed('%s is %r' % (what, v))
    return Fraction(f)


def smallint(v, what='count'):
    arr = np.asarray(v)
    if arr.shape != () or arr.dtype.kind not in 'fiub':
        raise Malformed('%s is not a number: %r' % (what, v))
    i = arr.item()
    if i != i or i != int(i) or abs(i) >= 2**31:
        raise Malformed('%s is %r' % (what, v))
    return int(i)
