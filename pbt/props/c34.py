# -*- coding: utf-8 -*-
"""Delaunay triangulation of the corners"""
RULE = ('corners of simple polygons, no three of them collinear, 3..10 corners, any scale; up to 4 points added inside; '
        'non-trivial: five or more corners, not all on the hull')
CASES = {'quick': 1200, 'thorough': 30000}


def strategy():
    import itertools
    from hypothesis import assume, strategies as st
    from pbt import gen, geo

    @st.composite
    def cases(draw):
        p = draw(gen.simple_polygon(nmax=10, n=40, kinds=('star', 'untangled', 'convex')))
        nodes = gen.tup(p['nodes'])
        assume(not any(geo.orient(a, b, c) == 0 for a, b, c in itertools.combinations(nodes, 3)))
        return {'nodes': p['nodes'], 'more': draw(st.sampled_from([0, 0, 0, 1, 4])), 's': draw(st.sampled_from([.1, .5, 1., 1.23457, 7., 100., .02]))}
    return cases()


def incircle(a, b, c, d):
    """> 0: d is inside of the circle through a, b, c (ccw)"""
    m = [(p[0] - d[0], p[1] - d[1]) for p in (a, b, c)]
    q = [x * x + y * y for x, y in m]
    return (m[0][0] * (m[1][1] * q[2] - m[2][1] * q[1]) - m[0][1] * (m[1][0] * q[2] - m[2][0] * q[1]) +
            q[0] * (m[1][0] * m[2][1] - m[2][0] * m[1][1]))


def run(case):
    from pbt.api import closed, xy, segs
    from geometry.SR_polygon import Delaunay2d
    s = case['s']
    pl = closed([[c * s for c in p] for p in case['nodes']])
    before = segs(pl)
    d = Delaunay2d(pl)
    d.nr_added_points = case['more']
    d.triangulate()
    ps = [xy(p) for p in d.points]
    return {'tris': [[ps[i] for i in t] for t in d.getTriangles()],
            'points': ps, 'edges': sorted(sorted([ps[i], ps[j]]) for i, j in d.getEdges()), 'unchanged': segs(pl) == before}


def check(case, o):
    from pbt import geo
    s = case['s']
    back = {tuple(round(c * s, 6) for c in p): tuple(p) for p in case['nodes']}
    if case['more']:
        return check_more(case, o, back)
    try:
        tris = [[back[tuple(round(c, 6) for c in p)] for p in t] for t in o['tris']]
        edges = [sorted(back[tuple(round(c, 6) for c in p)] for p in e) for e in o['edges']]
    except KeyError as e:
        return 'a corner that was not given: %s' % e
    nodes = list(back.values())
    if not o['unchanged']:
        return 'the polygon was changed'
    if len({tuple(sorted(t)) for t in tris}) != len(tris):
        return 'a triangle twice'
    tris = [t if geo.orient(*t) > 0 else t[::-1] for t in tris]     # the direction is not judged
    for t in tris:
        if geo.orient(*t) == 0:
            return 'the triangle %r has no area' % t
        for p in nodes:
            if p not in t and incircle(t[0], t[1], t[2], p) > 0:
                return '%r lies inside of the circle through %r' % (p, t)
    if sum(geo.orient(*t) for t in tris) != abs(geo.area2(geo.hull(nodes))):
        return 'the triangles do not cover the hull: %r' % tris
    if {p for t in tris for p in t} != set(nodes):
        return 'not all corners are used'
    want = sorted({tuple(sorted(e)) for t in tris for e in geo.edges(t)})
    if sorted(tuple(e) for e in edges) != want:
        return 'the edges are not those of the triangles'
    return None


def check_more(case, o, back):
    """with additional points inside of the polygon, with their rounded coordinates"""
    from fractions import Fraction
    from pbt import geo
    if not o['unchanged']:
        return 'the polygon was changed'
    at = {tuple(p): tuple(Fraction(repr(float(c))) for c in p) for p in o['points']}
    if len(at) != len(o['points']):
        return 'a point twice'
    nodes = [at[q] for q in at if tuple(round(c, 6) for c in q) in back]
    if len(nodes) != len(back):
        return 'not all corners are used'
    if len(at) != len(back) + case['more']:
        return '%d points added instead of %d' % (len(at) - len(back), case['more'])
    ring = [min(nodes, key=lambda q: abs(q[0] - Fraction(repr(c[0] * case['s']))) +
                abs(q[1] - Fraction(repr(c[1] * case['s'])))) for c in case['nodes']]
    for q in at.values():
        if q not in nodes and geo.locate(q, ring) <= 0:
            return 'the added point %r is not inside' % (tuple(map(float, q)),)
    tris = [[at[tuple(p)] for p in t] for t in o['tris']]
    tris = [t if geo.orient(*t) > 0 else t[::-1] for t in tris]
    size = max(abs(c) for q in nodes for c in q)
    if any(geo.orient(*t) == 0 for t in tris):
        return 'a triangle has no area'
    for t in tris:
        for p in at.values():
            if p not in t and incircle(t[0], t[1], t[2], p) > size ** 4 / 10 ** 6:
                return '%r lies inside of the circle through %r' % (tuple(map(float, p)), o['tris'][tris.index(t)])
    if abs(sum(geo.orient(*t) for t in tris) - abs(geo.area2(geo.hull(nodes)))) > size ** 2 / 10 ** 7:
        return 'the triangles do not cover the hull'
    if {p for t in tris for p in t} != set(at.values()):
        return 'not all points are used'
    return None


def labels(case, o):
    from pbt import geo
    n = len(case['nodes'])
    ret = ['%d corners' % n]
    if n > 4 and len(geo.hull([tuple(p) for p in case['nodes']])) < n:
        ret.append('nontrivial')
    return ret
