#!/usr/bin/python3
"""Prints the Gauss-Lobatto nodes of GBasis!GNodes for the given n (run with python3-vt: needs
mpmath).  GBasis!GNodesOK states and TLC checks what they are."""
import sys
import mpmath as mp
mp.mp.dps = 70
for n in map(int, sys.argv[1:]):
    def P(x):
        a, b = mp.mpf(1), x
        for m in range(2, n):
            a, b = b, ((2 * m - 1) * x * b - (m - 1) * a) / m
        return a, b
    half = []
    for k in range(1, n // 2):
        x = -mp.cos(mp.pi * k / (n - 1))
        for _ in range(60):
            a, b = P(x)
            d = (n - 1) * (x * b - a) / (x * x - 1)
            dd = (2 * x * d - n * (n - 1) * b) / (1 - x * x)
            x -= d / dd
        half.append(x)
    full = [mp.mpf(-1)] + half + ([mp.mpf(0)] if n % 2 else []) + [-x for x in reversed(half)] + [mp.mpf(1)]
    assert len(full) == n and all(x < y for x, y in zip(full, full[1:]))
    print('    [] n = %d -> <<%s>>' % (n, ', '.join('"%s"' % ('%d' % x if x in (-1, 0, 1) else mp.nstr(x, 42, strip_zeros=False, min_fixed=-9, max_fixed=9)) for x in full)))
