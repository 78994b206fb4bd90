"""Projections of a result to the part a property is about."""
from terms import *
def task(v):
    """whether, and for which task, a score is refused: the payload of a score is left out"""
    if not isinstance(v, N): return v
    return mapleaves(lambda l: adt('std::result::Result', 'Ok', {'0': mkn('tup')}) if l.op == 'adt' and l.a[0] == 'std::result::Result' and l.a[1] == 'Ok' else l, v)
PARTS = {'task': task}
