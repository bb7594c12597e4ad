# -*- coding: utf-8 -*-
"""Removing the corners of a polygon that lie on a straight line"""
RULE = ('a simple polygon with 3..16 corners, with extra points inserted in its edges; non-trivial: at least two points '
        'on straight lines, two of them adjacent or the first corner among them')
CASES = {'quick': 1500, 'thorough': 40000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        p = draw(gen.simple_polygon(nmax=8))
        nodes = []
        base = [[6 * c for c in q] for q in p['nodes']]
        for a, b in zip(base, base[1:] + base[:1]):
            nodes.append(a)
            for t in sorted(draw(st.sets(st.integers(1, 5), max_size=draw(st.sampled_from([0, 0, 1, 3]))))):
                nodes.append([a[k] + (b[k] - a[k]) * t // 6 for k in (0, 1)])
        r = draw(st.integers(0, len(nodes) - 1))
        return {'nodes': nodes[r:] + nodes[:r], 'kind': p['kind'], 's': draw(st.sampled_from([1., .5, .1, 3.7, .02, 1.23457]))}
    return cases()


def run(case):
    from pbt.api import closed, segs
    from geometry.SR_polygon import remove_collinear_points
    s = case['s']
    pl = closed([[c * s for c in p] for p in case['nodes']])
    before = segs(pl)
    mids, sides, count = pl.collinear_points
    r = remove_collinear_points(pl)
    o = {'mids': sorted([p.x, p.y] for p in mids), 'sides': sorted([p.x, p.y] for p in sides),
         'res': segs(r), 'unchanged': segs(pl) == before, 'closed': r.isclosed,
         'shared': len({id(p) for e in r.segments for p in e.ij} & {id(p) for e in pl.segments for p in e.ij})}
    o['again'] = segs(remove_collinear_points(r)) == o['res']
    return o


def check(case, o):
    from pbt import geo
    nodes = [tuple(p) for p in case['nodes']]
    n = len(nodes)
    s = case['s']

    def rd(p):
        return tuple(round(c * s, 8) for c in p)

    straight = [geo.orient(nodes[k - 1], nodes[k], nodes[(k + 1) % n]) == 0 for k in range(n)]
    corners = [p for p, x in zip(nodes, straight) if not x]
    mids = sorted(rd(p) for p, x in zip(nodes, straight) if x)
    sides = sorted(rd(nodes[k]) for k in range(n) if not straight[k] and (straight[k - 1] or straight[(k + 1) % n]))
    if not o['unchanged'] or o['shared']:
        return 'the original polygon was changed'
    if [tuple(p) for p in o['mids']] != mids:
        return 'points on straight lines %r instead of %r' % (o['mids'], mids)
    if [tuple(p) for p in o['sides']] != sides:
        return 'ends of straight lines %r instead of %r' % (o['sides'], sides)
    got = sorted(tuple(sorted(tuple(p) for p in e)) for e in o['res'])
    want = sorted(tuple(sorted((rd(a), rd(b)))) for a, b in geo.edges(corners))
    if got != want:
        return 'simplified to %r instead of %r' % (got, want)
    if o['closed'] is not True or o['again'] is not True:
        return 'the result is closed: %r, simplified again the same: %r' % (o['closed'], o['again'])
    return None


def labels(case, o):
    from pbt import geo
    nodes = [tuple(p) for p in case['nodes']]
    n = len(nodes)
    straight = [geo.orient(nodes[k - 1], nodes[k], nodes[(k + 1) % n]) == 0 for k in range(n)]
    ret = [case['kind'], '%d straight' % min(5, sum(straight))]
    if sum(straight) > 1 and (straight[0] or any(straight[k] and straight[k - 1] for k in range(n))):
        ret.append('nontrivial')
    return ret
