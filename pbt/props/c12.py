# -*- coding: utf-8 -*-
"""Convexity and orientation of polygons"""
RULE = ('a simple polygon with 3..12 corners, in both directions, any start, anywhere, some with collinear corners; '
        'non-trivial: concave')
CASES = {'quick': 2500, 'thorough': 60000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        p = draw(gen.simple_polygon(nmax=12))
        return {'nodes': p['nodes'], 'kind': p['kind'], 's': draw(st.sampled_from([1., .5, .25, 100., 3.7, 2. ** -6])),
                'rot': draw(st.one_of(st.just(0), st.integers(-360, 360)))}
    return cases()


def run(case):
    from pbt.api import closed, segs
    from geometry.SR_polygon import polygon_from_nodes
    s = case['s']
    nodes = [[c * s for c in p] for p in case['nodes']]
    ret = []
    for k, ring in enumerate((nodes, nodes[::-1])):
        pl = closed(ring)
        ret.append([pl.isconvex, pl.iscw, pl.isccw])
    pl = polygon_from_nodes([tuple(p) for p in nodes], cw=True)
    pl.close()
    ret.append([pl.isconvex, pl.iscw, pl.isccw])
    pl = closed(nodes)
    pl.mirror_vertical(x0=3)
    ret.append([pl.isconvex, pl.iscw, pl.isccw])
    pl = closed(nodes)
    if case['rot']:
        pl.rotate_about_origin(phi=case['rot'])
    ret.append([pl.iscw, pl.isccw, pl.isconvex])
    return ret


def check(case, o):
    from pbt import geo
    nodes = [tuple(p) for p in case['nodes']]
    ccw = geo.area2(nodes) > 0
    convex = geo.area2(geo.hull(nodes)) == abs(geo.area2(nodes))
    n = len(nodes)
    collinear = any(geo.orient(nodes[k - 2], nodes[k - 1], nodes[k]) == 0 for k in range(n))
    want = [[convex, not ccw, ccw], [convex, ccw, not ccw], [convex, ccw, not ccw], [convex, ccw, not ccw]]
    names = ['as given', 'reversed', 'built with cw=True', 'mirrored']
    for g, w, name in zip(o, want, names):
        if collinear and case['s'] == 3.7:      # rounding decides
            g, w = g[1:], w[1:]
        if g != w:
            return '%s: convex, cw, ccw %r instead of %r' % (name, g, w)
    r = o[4]
    if r[:2] != [not ccw, ccw] or (not collinear and r[2] is not convex):
        return 'rotated by %r: cw, ccw, convex %r' % (case['rot'], r)
    return None


def labels(case, o):
    return [case['kind'], 'convex' if o[0][0] else 'nontrivial', 'cw' if o[0][1] else 'ccw',
            'rotated' if case['rot'] else 'not rotated']
