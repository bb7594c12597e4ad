# -*- coding: utf-8 -*-
"""Convex hulls of point clouds"""
RULE = ('1..40 points from a small or larger grid (duplicates, collinear points), scaled, in any order; non-trivial: '
        'points that are not corners of the hull, and four or more corners')
CASES = {'quick': 3000, 'thorough': 80000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        n = draw(st.sampled_from([3, 6, 50]))
        kind = draw(st.sampled_from(['cloud', 'cloud', 'cloud', 'line', 'few']))
        if kind == 'cloud':
            pts = draw(st.lists(st.tuples(st.integers(-n, n), st.integers(-n, n)), min_size=3, max_size=40))
        elif kind == 'few':
            pts = draw(st.lists(st.tuples(st.integers(-n, n), st.integers(-n, n)), min_size=0, max_size=3))
        else:
            v = draw(st.tuples(st.integers(-3, 3), st.integers(1, 3)))
            a = draw(gen.grid_point(9))
            pts = [(a[0] + k * v[0], a[1] + k * v[1]) for k in draw(st.lists(st.integers(-5, 5), min_size=2, max_size=8))]
        return {'pts': pts, 's': draw(st.sampled_from([1, 1., .5, .25, 100., 2. ** -8, 2. ** -5])),
                'perm': draw(st.integers(0, 10))}
    return cases()


def run(case):
    from pbt.api import segs
    from geometry.SR_polygon import convex_hull, PolygonLine
    pts = [tuple(c * case['s'] for c in p) for p in case['pts']]
    given = list(pts)
    h = convex_hull(pts)
    o = {'unchanged': pts == given}
    if not isinstance(h, PolygonLine):
        o['list'] = [list(p) for p in h]
        return o
    o['segs'] = segs(h)
    o['flags'] = [h.isclosed, h.iscontinuous, h.isvalid, h.isconvex] if len(h.segments) > 2 else None
    if len(h.segments) > 2:
        o['ccw'] = h.isccw
    o['objects'] = len({id(p) for s in h.segments for p in s.ij})
    k = case['perm'] % len(pts)
    other = convex_hull(tuple(pts[k:] + pts[:k] + pts[:2]))
    o['same'] = other == h
    o['order'] = convex_hull(set(pts[::-1])) == h
    return o


def check(case, o):
    from pbt import geo
    s = case['s']
    pts = [tuple(p) for p in case['pts']]
    if not o['unchanged']:
        return 'the points were changed'
    h = geo.hull(pts)
    if len(h) < 2:
        if 'list' not in o or [tuple(p) for p in o['list']] != [(p[0] * s, p[1] * s) for p in sorted(set(pts))]:
            return 'hull of less than two points: %r' % (o,)
        return None
    if len(h) == 2 or geo.area2(h) == 0:
        h = [min(pts), max(pts)]
    if 'segs' not in o:
        return 'no polygon but %r' % (o,)
    h = [(float(p[0] * s), float(p[1] * s)) for p in h]
    k = h.index(min(h))
    h = h[k:] + h[:k]
    got = [tuple(tuple(p) for p in e) for e in o['segs']]
    if got != list(zip(h, h[1:] + h[:1])):
        return 'hull %r instead of %r' % (got, h)
    if o['flags'] and (o['flags'] != [True] * 4 or o['ccw'] is not True):
        return 'closed, continuous, valid, convex %r, ccw %r' % (o['flags'], o['ccw'])
    if o['objects'] != len(h):
        return 'the hull is not purged'
    if o['same'] is not True or o['order'] is not True:
        return 'the hull depends on the order or number of the points'
    return None


def labels(case, o):
    n = len(o.get('segs', []))
    pts = {tuple(p) for p in case['pts']}
    ret = ['%d corners' % min(n, 8)]
    if n > 3 and len(pts) > n:
        ret.append('nontrivial')
    if len(pts) < len(case['pts']):
        ret.append('duplicates')
    return ret
