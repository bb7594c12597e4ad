# -*- coding: utf-8 -*-
"""Triangulation and area"""
import math

RULE = ('a simple polygon with 3..12 corners (concave, with collinear corners, any direction, shuffled segments), '
        'possibly rotated by any angle; non-trivial: concave or with collinear corners, five or more corners')
CASES = {'quick': 1300, 'thorough': 40000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        p = draw(gen.simple_polygon(nmax=12))
        n = len(p['nodes'])
        nodes, s = p['nodes'], draw(st.sampled_from(gen.SCALES + [.01, .02]))
        if draw(st.integers(0, 7)) == 0:        # very thin
            k = draw(st.sampled_from([50, 200, 1000]))
            s = draw(st.sampled_from([.02, .1, 1. if k < 1000 else .02]))
            nodes = [[k * x, y] for x, y in nodes] if draw(st.booleans()) else [[x, k * y] for x, y in nodes]
        return {'nodes': nodes, 'kind': p['kind'], 's': s,
                'perm': draw(st.permutations(list(range(n)))) if draw(st.booleans()) else None,
                'rot': draw(st.one_of(st.just(0), st.just(0), st.integers(-3600, 3600).map(lambda k: k / 10.))),
                'alg': draw(st.sampled_from([None, 'triangle', 'ear clipping'])) if n <= 8 else None}
    return cases()


def run(case):
    from pbt.api import closed, loose
    s = case['s']
    nodes = [[c * s for c in p] for p in case['nodes']]
    n = len(nodes)
    if case['perm']:
        pl = loose([[nodes[k], nodes[(k + 1) % n]] for k in case['perm']])
    else:
        pl = closed(nodes)
    if case['rot']:
        pl.rotate_about_origin(phi=case['rot'])
    before = [[[p.x, p.y] for p in e.ij] for e in pl.segments]
    if case['alg'] == 'triangle':
        pl.triangulate(algorithm=case['alg'])
    else:
        pl.triangulate()
    tri = [[[p.x, p.y] for p in t.point_set] for t in pl.triangles]
    o = {'tri': tri, 'tarea': [t.area for t in pl.triangles], 'area': pl.area, 'ring': before}
    if case['alg'] == 'ear clipping':
        o['ear'] = pl.ear_clipping()
        o['tri'] = [[[p.x, p.y] for p in t.point_set] for t in pl.triangles]
        o['tarea'] = [t.area for t in pl.triangles]
    o['unchanged'] = [[[p.x, p.y] for p in e.ij] for e in pl.segments] == before
    pl.triangulate(force=True)
    o['again'] = [len(pl.triangles), sum(t.area for t in pl.triangles), pl.area]
    return o


def check(case, o):
    from pbt import geo
    s = case['s']
    nodes = [tuple(p) for p in case['nodes']]
    area = abs(geo.area2(nodes)) / 2. * s * s
    size = max(max(abs(c) for c in p) for p in nodes) * s * 1.5
    ext = max(max(abs(p[k] - q[k]) for k in (0, 1)) for p in nodes for q in nodes) * s
    tol = len(nodes) * 1e-6 + 1e-6 * ext + 1e-9 * ext * ext      # results are rounded
    if not o['unchanged']:
        return 'the triangulation changed the polygon'
    if abs(o['area'] - area) > tol or abs(o['again'][2] - area) > tol:
        return 'area %r, then %r instead of %r' % (o['area'], o['again'][2], area)
    if 'ear' in o:
        # ear clipping may give up, it says so then
        n = len(nodes)
        corners = [geo.orient(nodes[k - 2], nodes[k - 1], nodes[k]) for k in range(n)]
        if o['ear'] is not True:
            if min(corners) > 0 or max(corners) < 0:
                return 'ear clipping gave up on a convex polygon'
            return None
    if abs(sum(o['tarea']) - area) > tol or abs(o['again'][1] - area) > tol:
        return 'the triangles have the area %r, then %r instead of %r' % (sum(o['tarea']), o['again'][1], area)
    # back to the grid: which corner of the polygon is it?
    f = math.radians(case['rot'])
    corner = {}
    for p in nodes:
        q = (p[0] * s, p[1] * s)
        if case['rot']:
            q = (q[0] * math.cos(f) - q[1] * math.sin(f), q[0] * math.sin(f) + q[1] * math.cos(f))
        corner[q] = p
    tris = []
    for t in o['tri']:
        if len(t) != 3:
            return 'a triangle with %d corners' % len(t)
        c = []
        for p in t:
            q = min(corner, key=lambda w: max(abs(w[0] - p[0]), abs(w[1] - p[1])))
            if max(abs(q[0] - p[0]), abs(q[1] - p[1])) > 1e-6:
                return 'the triangle %r has a corner that is none of the polygon' % (t,)
            c.append(corner[q])
        if geo.area2(c) == 0:
            if not case['rot']:
                return 'the triangle %r has no area' % (t,)
            continue
        if geo.area2(c) < 0:
            c = c[::-1]
        tris.append(c)
    # inside: the middle is inside and no edge crosses the boundary
    for c in tris:
        from fractions import Fraction as F
        m = (F(c[0][0] + c[1][0] + c[2][0], 3), F(c[0][1] + c[1][1] + c[2][1], 3))
        if geo.locate(m, nodes) <= 0:
            return 'the triangle %r is outside of the polygon' % (c,)
        for a, b in geo.edges(c):
            for u, v in geo.edges(nodes):
                if geo.orient(a, b, u) * geo.orient(a, b, v) < 0 and geo.orient(u, v, a) * geo.orient(u, v, b) < 0:
                    return 'the triangle %r crosses the boundary' % (c,)
    for i in range(len(tris)):
        for j in range(i):
            if overlap(tris[i], tris[j]):
                return 'the triangles %r and %r overlap' % (tris[i], tris[j])
    return None


def overlap(a, b):
    """two ccw triangles have inner points in common (exact)"""
    from pbt import geo
    for t, w in ((a, b), (b, a)):
        for p, q in geo.edges(t):
            if all(geo.orient(p, q, r) <= 0 for r in w):
                return False
    return True


def labels(case, o):
    from pbt import geo
    nodes = [tuple(p) for p in case['nodes']]
    h = geo.hull(nodes)
    ret = [case['kind']]
    concave = geo.area2(h) != abs(geo.area2(nodes))
    collinear = any(geo.orient(nodes[k - 2], nodes[k - 1], nodes[k]) == 0 for k in range(len(nodes)))
    if len(nodes) > 4 and (concave or collinear):
        ret.append('nontrivial')
    ret += ['concave'] * concave + ['collinear corners'] * collinear + ['rotated'] * bool(case['rot'])
    ret.append('ear clipping %s' % o['ear'] if 'ear' in o else 'default algorithm')
    return ret
