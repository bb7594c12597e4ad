# -*- coding: utf-8 -*-
"""Points inside, outside and on the boundary of polygons"""
from fractions import Fraction as F

RULE = ('a simple polygon anywhere in the plane and points: on a grid around and in it, corners, points of edges, points '
        'close to edges and far away, located with exact arithmetic; non-trivial: the polygon is not convex and has '
        'points inside and outside of it but within its bounding box')
CASES = {'quick': 1600, 'thorough': 40000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        p = draw(gen.simple_polygon(nmax=12))
        s = draw(st.sampled_from(gen.SCALES))
        xs = [q[0] for q in p['nodes']]
        ys = [q[1] for q in p['nodes']]
        near = st.tuples(st.integers(4 * min(xs) - 4, 4 * max(xs) + 4), st.integers(4 * min(ys) - 4, 4 * max(ys) + 4))
        pts = [list(q) for q in draw(st.lists(near, min_size=3, max_size=8))]         # quarters
        k = draw(st.integers(0, len(p['nodes']) - 1))
        pts.append([4 * c for c in p['nodes'][k]])
        a, b = p['nodes'][k], p['nodes'][(k + 1) % len(p['nodes'])]
        t = draw(st.integers(1, 3))
        on = [a[i] * (4 - t) + b[i] * t for i in (0, 1)]
        pts.append(on)
        # 1/1000 off the edge, in the units of the grid
        off = draw(st.sampled_from([[1, 0], [0, 1], [-1, 0], [0, -1]]))
        return {'nodes': p['nodes'], 'kind': p['kind'], 's': s, 'pts': pts, 'off': off,
                'far': [draw(st.integers(-9000, 9000)) * 4, draw(st.integers(-9000, 9000)) * 4],
                'shuffle': draw(st.booleans())}
    return cases()


def points(case):
    """exact rationals in grid units"""
    ret = [(F(p[0], 4), F(p[1], 4)) for p in case['pts'] + [case['far']]]
    on = ret[-2]
    ret.append((on[0] + F(case['off'][0], 1000), on[1] + F(case['off'][1], 1000)))
    return ret


def run(case):
    from pbt.api import P, closed, loose
    s = case['s']
    nodes = [[c * s for c in p] for p in case['nodes']]
    if case['shuffle']:      # separate points, all segments reversed
        n = len(nodes)
        pl = loose([[nodes[(k + 1) % n], nodes[k]] for k in range(n)][::-1])
    else:
        pl = closed(nodes)
    ret = []
    for p in points(case):
        q = P([float(c) * s for c in p])
        ret.append([pl.is_internal_point(p=q), pl.is_external_point(p=q), pl.is_on_boundary(p=q)])
    return ret


def check(case, o):
    from pbt import geo
    nodes = [tuple(p) for p in case['nodes']]
    for p, (i, e, b) in zip(points(case), o):
        where = geo.locate(p, nodes)
        if p in nodes:
            want = [False, True, True]
        elif where == 0:
            want = [i, e, True]      # one or the other, depending on the ray
        else:
            want = [where > 0, where < 0, False]
        if [i, e, b] != want:
            return 'point (%s, %s) with position %d: internal %r, external %r, boundary %r' % (p[0], p[1], where, i, e, b)
    return None


def labels(case, o):
    from pbt import geo
    nodes = [tuple(p) for p in case['nodes']]
    h = geo.hull(nodes)
    loc = [geo.locate(p, nodes) for p in points(case)[:-3]]
    box = [min(p[0] for p in nodes), max(p[0] for p in nodes), min(p[1] for p in nodes), max(p[1] for p in nodes)]
    outside = [p for p, l in zip(points(case), loc) if l < 0 and box[0] < p[0] < box[1] and box[2] < p[1] < box[3]]
    concave = geo.area2(h) != abs(geo.area2(nodes))
    ret = [case['kind'], 'concave' if concave else 'convex']
    if any(l > 0 for l in loc):
        ret.append('points inside')
        if outside and concave:
            ret.append('nontrivial')
    if box[1] < 0 or box[3] < 0:
        ret.append('negative coordinates only')
    return ret
