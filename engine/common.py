"""Shared by the symbolic and the concrete side: no solver, no numpy."""
import hashlib
import random


def default_value(name, lo, hi, seed=0):
    h = int(hashlib.sha256(('%s|%s' % (name, seed)).encode()).hexdigest()[:12], 16)
    r = random.Random(h)
    # keep off the ends and off round numbers
    return lo + (hi - lo) * (0.07 + 0.86 * r.random())
