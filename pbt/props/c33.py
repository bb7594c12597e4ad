# -*- coding: utf-8 -*-
"""Where a line meets a sphere"""
import math

RULE = ('lines through two different points of an integer grid and spheres with an integer centre and radius, some of '
        'them touched by the line, also very small and large ones; non-trivial: the line meets the sphere')
CASES = {'quick': 4000, 'thorough': 200000}


def strategy():
    from hypothesis import strategies as st
    c = st.integers(-20, 20)

    @st.composite
    def cases(draw):
        p, d = [draw(c) for _ in range(3)], [draw(st.integers(-9, 9)) for _ in range(3)]
        if d == [0, 0, 0]:
            d = [1, 2, 2]
        r = draw(st.integers(1, 25))
        if draw(st.booleans()):        # the centre somewhere
            sp = [draw(c) for _ in range(3)]
        else:                          # near the line; for the first axis also at the distance of the radius
            k = draw(st.integers(-3, 3))
            axis = draw(st.integers(0, 2))
            if draw(st.booleans()):
                d = [0, 0, 0]
                d[axis] = draw(st.sampled_from([1, -3, 7]))
            off = [0, 0, 0]
            off[(axis + 1) % 3] = draw(st.sampled_from([r, -r, r - 1, 0, r + 1]))
            sp = [a + k * b + o for a, b, o in zip(p, d, off)]
        return {'p': p, 'q': [a + b for a, b in zip(p, d)], 'c': sp, 'r': r, 'list': draw(st.booleans()),
                # powers of two: still exact
                's': draw(st.sampled_from([1., 1., 2. ** -7, 2. ** -14, 2. ** 9]))}
    return cases()


def run(case):
    from geometry.additional_stuff import sphere_line_intersection
    t = list if case['list'] else tuple
    s = case['s']

    def f(x):
        return float(x) * s

    a = sphere_line_intersection(t(f(x) for x in case['p']), t(f(x) for x in case['q']), t(f(x) for x in case['c']),
                                 f(case['r']))
    return [None if x is None else [c / s for c in x] for x in a]


def check(case, o):
    p, q, c, r = case['p'], case['q'], case['c'], case['r']
    d = [b - a for a, b in zip(p, q)]
    m = [a - b for a, b in zip(p, c)]
    A = sum(x * x for x in d)
    B = 2 * sum(x * y for x, y in zip(d, m))
    C = sum(x * x for x in m) - r * r
    disc = B * B - 4 * A * C
    mus = []
    if disc == 0:
        mus = [-B / (2. * A)]
    elif disc > 0:
        mus = [(-B + math.sqrt(disc)) / (2. * A), (-B - math.sqrt(disc)) / (2. * A)]
    if len(o) != 2:
        return 'not a pair: %r' % o
    got = [x for x in o if x is not None]
    if len(got) != len(mus):
        return '%d points instead of %d: %r' % (len(got), len(mus), o)
    if len(got) == 1 and o[0] is None:
        return 'the single point comes second'
    for x, mu in zip(got, mus):
        want = [a + mu * b for a, b in zip(p, d)]
        if max(abs(a - b) for a, b in zip(x, want)) > 1e-9 * (1 + max(abs(a) for a in want) + abs(mu)):
            return '%r instead of %r' % (got, want)
    return None


def labels(case, o):
    n = len([x for x in o if x is not None])
    return ['%d points' % n] + (['nontrivial'] if n else [])
