# -*- coding: utf-8 -*-
"""Dividing segments"""
import math

RULE = ('a segment (grid or arbitrary coordinates), a number of parts, ratios and points on or off it; non-trivial: three '
        'or more parts')
CASES = {'quick': 4000, 'thorough': 100000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        if draw(st.booleans()):
            s = draw(st.sampled_from(gen.SCALES))
            a, b, q = [gen.scaled(draw(gen.small_grid_point()), s) for _ in range(3)]
        else:
            w = st.integers(-10 ** 12, 10 ** 12).map(lambda k: k / 1e8)
            a, b, q = [[draw(w), draw(w)] for _ in range(3)]
        if max(abs(a[0] - b[0]), abs(a[1] - b[1])) < 1e-2:
            b = [a[0] + 1, a[1] - 2]
        k = draw(st.integers(0, 16))
        return {'a': a, 'b': b, 'n': draw(st.one_of(st.integers(1, 6), st.integers(1, 60))), 'q': q,
                'ratio': draw(st.one_of(st.sampled_from([0, 1, 0., 1., .5, k / 16., k / 17.]),
                                        st.integers(0, 10 ** 6).map(lambda v: v / 1e6),
                                        st.integers(1, 5000).map(lambda v: v / 1e6),
                                        st.integers(1, 5000).map(lambda v: 1 - v / 1e6))),
                'bad': draw(st.one_of(st.sampled_from([-.01, 1.01, 2., -1, 1 + 1e-6, -1e-6]),
                                      st.integers(1, 10 ** 6).map(lambda v: -v / 1e5),
                                      st.integers(1, 10 ** 6).map(lambda v: 1 + v / 1e5))),
                't': draw(st.integers(1, 15)) / 16., 'out': draw(st.sampled_from([-1., -.25, 1.25, 3., -.01, 1.01]))}
    return cases()


def run(case):
    from pbt.api import P, S, seg, xy
    from geometry.SR_line import divide_line, point_on_line_at_ratio, add_point_on_line
    l = S([case['a'], case['b']])
    o = {'parts': [seg(s) for s in divide_line(l, case['n'])], 'ratio': xy(point_on_line_at_ratio(l, case['ratio']))}
    a, b = case['a'], case['b']
    mid = P([a[k] + case['t'] * (b[k] - a[k]) for k in (0, 1)])
    out = P([a[k] + case['out'] * (b[k] - a[k]) for k in (0, 1)])
    o['mid'] = xy(mid)
    for name, p in (('at', mid), ('beyond', out), ('q', P(case['q']))):
        r = add_point_on_line(l, p)
        o[name] = False if r is False else [seg(s) for s in r]
    bad = []
    for r in (-.01, 1.01, case['bad']):
        try:
            point_on_line_at_ratio(l, r)
            bad.append(False)
        except AssertionError:
            bad.append(True)
    o['bad'] = bad
    o['l'] = seg(l)
    return o


def check(case, o):
    a, b = [[round(float(c), 8) for c in case[k]] for k in 'ab']
    tol = 3e-8

    def at(t):
        return [a[k] + t * (b[k] - a[k]) for k in (0, 1)]

    def near(p, q):
        return max(abs(p[0] - q[0]), abs(p[1] - q[1])) <= tol

    n, parts = case['n'], o['parts']
    if o['l'] != [a, b]:
        return 'the segment was changed'
    if len(parts) != n:
        return '%d parts instead of %d' % (len(parts), n)
    if parts[0][0] != a or parts[-1][1] != b:
        return 'the parts do not begin and end where the segment does'
    for i, (s, e) in enumerate(parts):
        if i and parts[i - 1][1] != s:
            return 'the parts are not continuous'
        if not near(s, at(i / float(n))) or not near(e, at((i + 1) / float(n))):
            return 'part %d of %d is %r' % (i, n, [s, e])
    if not near(o['ratio'], at(case['ratio'])):
        return 'point at ratio %r is %r' % (case['ratio'], o['ratio'])
    if o['bad'] != [True] * 3:
        return 'a ratio beyond the segment was accepted'
    if o['at'] != [[a, o['mid']], [o['mid'], b]]:
        return 'segment divided at %r: %r' % (o['mid'], o['at'])
    if o['beyond'] is not False:
        return 'segment divided at a point beyond it: %r' % (o['beyond'],)
    q = case['q']
    for k in (0, 1):
        if (q[k] < min(a[k], b[k]) - 1e-6 or q[k] > max(a[k], b[k]) + 1e-6) and o['q'] is not False:
            return 'segment divided at a point far from it'
    return None


def labels(case, o):
    return (['nontrivial'] if case['n'] > 2 else []) + ['%d+ parts' % (case['n'] // 10 * 10)] + \
        (['q inside'] if o['q'] else [])
