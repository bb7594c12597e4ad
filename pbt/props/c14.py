# -*- coding: utf-8 -*-
"""Triangles: area, angles, and how two of them lie"""
import math
from fractions import Fraction as F

RULE = ('two triangles with grid corners that share none, one, two or all corners, contain each other or not, without '
        'corners on the edges of the other one unless they are shared; non-trivial: the bounding boxes have inner points '
        'in common and the triangles are different')
CASES = {'quick': 4000, 'thorough': 100000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen, geo

    @st.composite
    def tri(draw, n):
        t = [draw(gen.grid_point(n)) for _ in range(3)]
        if geo.area2(t) == 0:
            t[2] = (t[0][0] + 1, t[0][1] + draw(st.integers(1, 3)))
            if geo.area2([t[0], t[1], t[2]]) == 0:
                t[1] = (t[0][0] + 2, t[0][1] - 1)
            if geo.area2(t) == 0:
                t = [(0, 0), (n, 0), (0, n)]
        return t

    @st.composite
    def cases(draw):
        n = draw(st.sampled_from([4, 12, 12, 20]))
        a = draw(tri(n))
        how = draw(st.sampled_from(['free', 'free', 'free', 'corner', 'edge', 'edge', 'same', 'inside', 'part']))
        b = draw(tri(n))
        if how == 'corner':
            b = [a[0]] + b[1:]
        elif how == 'edge':
            b = a[:2] + b[2:]
        elif how == 'same':
            b = draw(st.permutations(a))
        elif how == 'inside':
            m = (sum(p[0] for p in a), sum(p[1] for p in a))
            k = draw(st.integers(2, 5))
            b = [(m[0] + (3 * p[0] - m[0]) / k, m[1] + (3 * p[1] - m[1]) / k) for p in a]
            b = [(round(p[0]), round(p[1])) for p in b]
            a = [(3 * p[0], 3 * p[1]) for p in a]
        elif how == 'part':      # a part of an edge in common
            a = [(4 * p[0], 4 * p[1]) for p in a]
            v = ((a[1][0] - a[0][0]) // 4, (a[1][1] - a[0][1]) // 4)
            i, j = draw(st.sampled_from([(0, 1), (1, 2), (1, 3), (2, 6), (-1, 2), (0, 6), (-2, 7), (4, 6)]))
            b = [(a[0][0] + i * v[0], a[0][1] + i * v[1]), (a[0][0] + j * v[0], a[0][1] + j * v[1]), b[2]]
        if geo.area2(b) == 0:
            b = [(p[0] + 2 * n, p[1]) for p in a]
        return {'a': a, 'b': b, 's': draw(st.sampled_from([1., .5, 3.7, 10., .02, 1.23457])),
                'off': draw(st.sampled_from([(0, 0), (0, 0), (-100, 40)])),
                'flip': draw(st.lists(st.booleans(), min_size=3, max_size=3))}
    return cases()


def place(t, case):
    return [[(p[k] + case['off'][k]) * case['s'] for k in (0, 1)] for p in t]


def run(case):
    from pbt.api import S, P
    from geometry.SR_polygon import Triangle

    def build(t, flip):
        es = [[t[k], t[(k + 1) % 3]] for k in range(3)]
        return Triangle([S(e[::-1] if f else e) for e, f in zip(es, flip)])

    a, b = build(place(case['a'], case), case['flip']), build(place(case['b'], case), [0, 0, 0])
    o = {'area': [a.area, b.area], 'angles': list(a.angles), 'quality': a.quality,
         'pts': [[p.x, p.y] for p in a.point_set], 'is': a.is_triangle, 'mid': list(a.midpoint.xy)}
    o['rel'] = [[bool(getattr(x, r)(y)) for r in ('congruent', 'enclosed', 'overlap', 'touch', 'disjunct')]
                for x, y in ((a, b), (b, a))]
    o['self'] = [bool(a.congruent(a)), bool(a.disjunct(a)), a == a]
    def values(t):
        return [[t.area, t.quality] + sorted(t.angles) + sorted(t.detailled_area.values()) + list(t.midpoint.xy),
                sorted([p.x, p.y] for p in t.point_set), list(t.bounding_box())]

    def as_new(t):      # values of a new triangle with the same corners
        v, n = values(t), values(Triangle([S([[x.i.x, x.i.y], [x.j.x, x.j.y]]) for x in t.segments]))
        return v[1:] == n[1:] and all(abs(x - y) < 1e-6 * max(1., abs(x)) for x, y in zip(v[0], n[0]))

    o['current'] = [as_new(b)]
    b.move(x0=3.5, y0=-1.25)
    o['current'].append(as_new(b))
    b.mirror_vertical(x0=2.)
    o['current'].append(as_new(b))
    w = case['off'][1]
    flat = [[case['a'][0][0], w], [case['a'][0][0] + 3, w], [case['a'][0][0] + 8, w]]
    try:
        build(flat, [0, 0, 0])
        o['flat'] = 'accepted'
    except Exception:
        o['flat'] = 'rejected'
    return o


def model(case):
    from pbt import geo
    a, b = [tuple(p) for p in case['a']], [tuple(p) for p in case['b']]
    if geo.area2(a) < 0:
        a = a[::-1]
    if geo.area2(b) < 0:
        b = b[::-1]
    same = set(a) == set(b)
    common = sum(1 for e in geo.edges(a) for f in geo.edges(b)
                 if isinstance((geo.common_part(*(e + f)) or [0])[0], tuple))
    from pbt.props.c11 import overlap
    proper = overlap(a, b)
    tee = any(p not in t and geo.locate(p, t) == 0 for t, w in ((a, b), (b, a)) for p in w)
    enc = [all(geo.locate(p, t) > 0 for p in w) for t, w in ((a, b), (b, a))]
    return same, common, proper, tee, enc


def check(case, o):
    a = place(case['a'], case)
    for t, got in zip((a, place(case['b'], case)), o['area']):
        w = abs((t[1][0] - t[0][0]) * (t[2][1] - t[0][1]) - (t[1][1] - t[0][1]) * (t[2][0] - t[0][0])) / 2.
        size = max(math.hypot(t[k][0] - t[k - 1][0], t[k][1] - t[k - 1][1]) for k in range(3))
        if abs(got - w) > 1e-6 * (1 + size * size):
            return 'area %r instead of %r' % (got, w)
    ang = []
    for k in range(3):
        u = [a[k - 1][i] - a[k][i] for i in (0, 1)]
        v = [a[k - 2][i] - a[k][i] for i in (0, 1)]
        ang.append(math.degrees(math.atan2(abs(u[0] * v[1] - u[1] * v[0]), u[0] * v[0] + u[1] * v[1])))
    if len(o['angles']) != 3 or any(abs(x - y) > 1e-5 for x, y in zip(sorted(o['angles']), sorted(ang))):
        return 'angles %r instead of %r' % (o['angles'], ang)
    if abs(o['quality'] - sum(abs(x - 60) for x in ang)) > 1e-4:
        return 'quality %r' % o['quality']
    want = sorted([round(c, 8) for c in p] for p in a)
    if o['pts'] != want or o['is'] is not True:
        return 'corners %r instead of %r' % (o['pts'], want)
    if any(abs(o['mid'][k] - sum(p[k] for p in a) / 3.) > 1e-7 for k in (0, 1)):
        return 'midpoint %r' % (o['mid'],)
    if o['current'] != [True, True, True]:
        return 'values as they are, after moving and mirroring that are those of the corners: %s' % o['current']
    if o['flat'] != 'rejected':
        return 'a flat triangle was accepted'
    if o['self'] != [True, False, True]:
        return 'a triangle and itself: congruent, disjunct, equal %r' % (o['self'],)
    same, common, proper, tee, enc = model(case)
    for k, (cong, encl, over, touch, disj) in enumerate(o['rel']):
        if cong is not same:
            return 'congruent is %r' % cong
        if touch is not (common == 1):
            return 'touch is %r with %d common edges' % (touch, common)
        if tee:
            if not proper and common == 1 and disj:
                return 'disjunct, but a part of an edge is common'
            continue
        if encl is not enc[k]:
            return 'enclosed is %r' % encl
        if over is not (proper and not same):
            return 'overlap is %r' % over
        if disj is not (not proper and common == 0):
            return 'disjunct is %r' % disj
    return None


def labels(case, o):
    same, common, proper, tee, enc = model(case)
    ret = ['common edges %d' % common]
    ret += ['congruent'] * same + ['overlap'] * proper + ['a corner on an edge'] * tee + ['enclosed'] * any(enc)
    a, b = case['a'], case['b']
    if not same and all(min(p[k] for p in a) < max(p[k] for p in b) and min(p[k] for p in b) < max(p[k] for p in a)
                        for k in (0, 1)):
        ret.append('nontrivial')
    return ret
