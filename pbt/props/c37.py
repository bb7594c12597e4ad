# -*- coding: utf-8 -*-
"""The chain of segments through the points of a straight line"""
import math

RULE = ('1 to 14 different points of a straight line in any direction, at irregular distances, in any order, as a list or '
        'as a set; non-trivial: three or more points that are not given in order')
CASES = {'quick': 1500, 'thorough': 40000}


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 14]))
        d = draw(st.sampled_from([(1, 0), (0, 1), (3, 4), (-5, 2), (1, -1), (-7, -1), (0, -2)]))
        near = draw(st.booleans())
        ts = draw(st.lists(st.integers(0, 20 if near else 1000), min_size=n, max_size=n, unique=True))
        a = [draw(st.integers(-300, 300)), draw(st.integers(-300, 300))]
        return {'a': a, 'd': list(d), 't': ts, 's': draw(st.sampled_from([1., .5, .1, .02, 1.23457])),
                'set': draw(st.booleans())}
    return cases()


def place(case):
    s = case['s']
    return [[round((a + t * d) * s, 8) for a, d in zip(case['a'], case['d'])] for t in case['t']]


def run(case):
    from pbt.api import P, xy, seg
    from geometry.SR_polygon import segments_from_pointset
    ps = [P(p) for p in place(case)]
    given = set(ps) if case['set'] else list(ps)
    r = segments_from_pointset(given)
    return {'segs': [seg(s) for s in r], 'norm': [s.norm for s in r], 'valid': all(s.isvalid for s in r),
            'given': sorted(xy(p) for p in given) == sorted(place(case)) and
            (case['set'] or all(x is y for x, y in zip(given, ps))) and [xy(p) for p in ps] == place(case)}


def check(case, o):
    ps = [p for _, p in sorted(zip(case['t'], place(case)))]
    if not o['given']:
        return 'the points were changed'
    want = [[a, b] for a, b in zip(ps, ps[1:])]
    if o['segs'] not in (want, [[b, a] for a, b in want[::-1]]):
        return 'the chain is %r instead of %r' % (o['segs'], want)
    if abs(sum(o['norm']) - math.hypot(ps[0][0] - ps[-1][0], ps[0][1] - ps[-1][1])) > 1e-6 or not o['valid']:
        return 'lengths %r' % o['norm']
    return None


def labels(case, o):
    t = case['t']
    ret = ['%d points' % len(t), 'set' if case['set'] else 'list']
    if len(t) > 2 and t not in (sorted(t), sorted(t)[::-1]):
        ret.append('nontrivial')
    return ret
