"""Encoding of numbers for the trace: fixed point, three digits, clamped."""
import math

S = 1000
BIG = 100000000          # clamp; also stands for nan, infinity and missing values


def num(x, scale=S):
    """round(x * scale), clamped; nan, inf, None and anything not a number become BIG."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return BIG
    if math.isnan(x) or math.isinf(x):
        return BIG
    v = x * scale
    if v > BIG:
        return BIG
    if v < -BIG:
        return -BIG
    return int(math.floor(v + 0.5))


def raw(x):
    """An integer that must be an integer already."""
    try:
        f = float(x)
    except (TypeError, ValueError):
        return BIG
    if math.isnan(f) or math.isinf(f) or f != int(f) or abs(f) > BIG:
        return BIG
    return int(f)
