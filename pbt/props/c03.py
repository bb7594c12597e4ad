# -*- coding: utf-8 -*-
"""Where a point lies with respect to a segment"""
import math

RULE = ('a segment on a scaled and possibly rotated grid and a point: free, constructed on the line (inside, at the '
        'ends, beyond), or displaced from it by a known distance; non-trivial: the point is on the line but not an '
        'endpoint, or less than 1e-2 segment lengths off the line')
CASES = {'quick': 6000, 'thorough': 200000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        a, b, q = draw(gen.small_grid_point()), draw(gen.small_grid_point()), draw(gen.small_grid_point())
        if a == b:
            b = (a[0] + draw(st.integers(1, 5)), a[1] + draw(st.integers(-5, 5)))
        how = draw(st.sampled_from(['free', 'on', 'on', 'off', 'off', 'ratio']))
        s = draw(st.sampled_from(gen.SCALES + [.01, .001]))
        off = draw(st.tuples(st.integers(-500, 500), st.integers(-500, 500))) if draw(st.booleans()) else (0, 0)
        c = {'how': how, 's': s, 'off': off, 'a': a, 'b': b, 'q': q}
        if how == 'on':
            c['k'] = draw(st.integers(-2, 3))
        elif how == 'ratio':      # not representable exactly
            c['k'] = draw(st.integers(1, 6)) / 7.
        elif how == 'off':
            c['k'] = draw(st.integers(-4, 8)) / 4.
            c['d'] = draw(st.sampled_from([1e-4, 1e-3, 1e-2, .1, 1., 5.])) * draw(st.sampled_from([-1, 1]))
        return c
    return cases()


def points(case):
    s, off = case['s'], case['off']
    a, b = [[(p[k] + off[k]) * s for k in (0, 1)] for p in (case['a'], case['b'])]
    v = [b[0] - a[0], b[1] - a[1]]
    n = math.hypot(*v)
    if case['how'] == 'free':
        p = [(case['q'][k] + off[k]) * s for k in (0, 1)]
    elif case['how'] == 'off':
        p = [a[0] + case['k'] * v[0] - case['d'] * v[1] / n, a[1] + case['k'] * v[1] + case['d'] * v[0] / n]
    else:
        p = [a[0] + case['k'] * v[0], a[1] + case['k'] * v[1]]
    return a, b, p


def run(case):
    from pbt.api import S, P
    a, b, p = points(case)
    l, r, q = S([a, b]), S([b, a]), P(p)
    o = []
    for x in (l, r):
        o.append({'on': x.is_point_on_line(p=q), 'right': x.is_point_to_right(p=q), 'left': x.is_point_to_left(p=q),
                  'box': x.is_internal_point(p=q), 'dist': x.line_point_distance(q)})
    return o


def side(case):
    """0 on the line, 1 left, -1 right (seen from a to b)"""
    from pbt import geo
    if case['how'] == 'free':
        return geo.sgn(geo.orient(tuple(case['a']), tuple(case['b']), tuple(case['q'])))
    if case['how'] == 'off':
        return 1 if case['d'] > 0 else -1
    return 0


def check(case, o):
    a, b, p = points(case)
    s = side(case)
    v = [b[0] - a[0], b[1] - a[1]]
    dist = abs(v[0] * (p[1] - a[1]) - v[1] * (p[0] - a[0])) / math.hypot(*v)
    inside = []
    for k in (0, 1):
        lo, hi = min(a[k], b[k]), max(a[k], b[k])
        inside.append(1 if lo + 1e-7 < p[k] < hi - 1e-7 else -1 if p[k] < lo - 1e-7 or p[k] > hi + 1e-7 else 0)
    for i, (x, sd) in enumerate(zip(o, (s, -s))):
        if x['on'] is not (s == 0):
            return 'is_point_on_line is %r, side %d' % (x['on'], s)
        if x['left'] is not (sd > 0) or x['right'] is not (sd < 0):
            return 'left %r, right %r on side %d of the %s segment' % (x['left'], x['right'], sd, ['', 'reversed'][i])
        if abs(x['dist'] - dist) > 1e-6 * max(1, dist):
            return 'distance %r instead of %r' % (x['dist'], dist)
        if -1 in inside and x['box']:
            return 'a point outside the box of the segment is internal'
        if inside == [1, 1] and not x['box']:
            return 'a point inside the box of the segment is not internal'
        # exactly representable: the limits belong to it
        if case['s'] in (1., .5, 100.) and case['how'] in ('free', 'on') and -1 not in inside and not x['box']:
            return 'a point on the border of the box of the segment is not internal'
        # on the segment itself
        if case['how'] in ('on', 'ratio') and 0 <= case['k'] <= 1 and not x['box'] and case['k'] not in (0, 1):
            return 'a point of the segment is not internal'
    return None


def labels(case, o):
    a, b, p = points(case)
    s = side(case)
    ret = [case['how'], 'side %d' % s]
    if s == 0 and case['how'] != 'free' and case['k'] not in (0, 1):
        ret += ['nontrivial', 'on the line, %s' % ('inside' if 0 < case['k'] < 1 else 'beyond')]
    elif s and o[0]['dist'] < .01 * math.hypot(b[0] - a[0], b[1] - a[1]):
        ret += ['nontrivial', 'close to the line']
    return ret
