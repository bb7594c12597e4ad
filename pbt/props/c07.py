# -*- coding: utf-8 -*-
"""Ordering the segments of a closed polygon"""
import math

RULE = ('the edges of a simple polygon, shuffled and arbitrarily directed, with shared or separate end points; sometimes '
        'edges missing; non-trivial: four or more edges that are neither continuous nor start at the right corner')
CASES = {'quick': 1600, 'thorough': 40000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        if draw(st.integers(0, 5)) == 0:          # many edges
            n = draw(st.integers(13, 60))
            nodes = [[round(10 * math.cos(2 * math.pi * k / n), 3), round(7 * math.sin(2 * math.pi * k / n), 3)]
                     for k in range(n)]
            kind = 'long'
        elif draw(st.integers(0, 5)) == 0:        # corners at nearly the same distance from the origin
            n = draw(st.integers(3, 12))
            ks = draw(st.lists(st.integers(0, 35), min_size=n, max_size=n, unique=True))
            r = draw(st.sampled_from([1., 30.]))
            # at least 4e-4 between any two of them
            rs = draw(st.permutations(list(range(n))))
            nodes = [[round((r + j * 4e-4) * f(k * math.pi / 18), 8) for f in (math.cos, math.sin)]
                     for k, j in zip(sorted(ks), rs)]
            kind = 'nearly a circle'
        else:
            p = draw(gen.simple_polygon(nmax=12))
            nodes, kind = p['nodes'], p['kind']
            s = draw(st.sampled_from(gen.SCALES))
            nodes = [gen.scaled(q, s) for q in nodes]
        n = len(nodes)
        return {'kind': kind, 'nodes': nodes, 'perm': draw(st.permutations(list(range(n)))),
                'flip': draw(st.lists(st.booleans(), min_size=n, max_size=n)),
                'drop': draw(st.sampled_from([0, 0, 0, 0, 1, 2])), 'shared': draw(st.booleans())}
    return cases()


def given_segments(case):
    n = len(case['nodes'])
    ret = []
    for k in case['perm']:
        e = [case['nodes'][k], case['nodes'][(k + 1) % n]]
        ret.append(e[::-1] if case['flip'][k] else e)
    return ret[:n - min(case['drop'], n - 2)]


def run(case):
    from pbt.api import P, segs, loose
    from geometry.SR_line import LineSegment
    from geometry.SR_polygon import PolygonLine

    def build():
        es = given_segments(case)
        if not case['shared']:
            return loose(es)
        pts = {}
        return PolygonLine([LineSegment(*[pts.setdefault(tuple(p), P(p)) for p in e]) for e in es])

    pl = build()
    cp = pl.ordered_copy()
    o = {'copy': segs(cp) if cp else cp, 'before': segs(pl)}
    o['ret'] = pl.order()
    o['segs'] = segs(pl)
    if o['ret']:
        o['closed'], o['cont'], o['valid'] = pl.isclosed, pl.iscontinuous, pl.isvalid
        o['again'] = [pl.order(), segs(pl)]
        o['le'] = [pl.loose_equal(build()), pl.loose_equal(pl)]
    return o


def check(case, o):
    def rd(p):
        return tuple(round(float(c), 8) for c in p)

    es = [[rd(p) for p in e] for e in given_segments(case)]
    if [[tuple(p) for p in e] for e in o['before']] != es:
        return 'ordering a copy changed the original'
    complete = len(es) == len(case['nodes'])
    if o['ret'] is not complete:
        return 'order gives %r, the polygon is %sclosed' % (o['ret'], '' if complete else 'not ')
    if o['copy'] != (o['segs'] if complete else False):
        return 'the ordered copy is %r' % (o['copy'], )
    got = [tuple(tuple(p) for p in e) for e in o['segs']]
    if sorted(tuple(sorted(e)) for e in got) != sorted(tuple(sorted(e)) for e in es):
        return 'order does not keep the edges'
    if not complete:
        return None
    nodes = [rd(p) for p in case['nodes']]
    n = len(nodes)
    # the direction is the one of the first segment
    a, b = es[0]
    if nodes[(nodes.index(a) + 1) % n] != b:
        nodes = nodes[::-1]
    dist = [math.hypot(*p) for p in nodes]
    near = [p for p, d in zip(nodes, dist) if d <= min(dist) + 1e-9]
    exact = min((d, p) for p, d in zip(nodes, dist) if d <= min(dist) + 1e-9)[1] if len(set(
        d for d in dist if d <= min(dist) + 1e-9)) == 1 else None
    start = got[0][0]
    if start not in near or (exact and start != exact):
        return 'the polygon starts at %r instead of %r' % (start, exact or near)
    k = nodes.index(start)
    ring = nodes[k:] + nodes[:k]
    if got != list(zip(ring, ring[1:] + ring[:1])):
        return 'ordered polygon %r instead of %r' % (got, ring)
    if [o['closed'], o['cont'], o['valid']] != [True, True, True]:
        return 'the ordered polygon: closed %r, continuous %r, valid %r' % (o['closed'], o['cont'], o['valid'])
    if o['again'][0] is not True or o['again'][1] != o['segs']:
        return 'ordering again changes the polygon'
    if o['le'] != [True, True]:
        return 'the ordered polygon is not loosely equal to the original'
    return None


def labels(case, o):
    ret = [case['kind'], 'closed' if o['ret'] else 'open', 'shared' if case['shared'] else 'separate']
    if o['ret'] and len(case['nodes']) > 3 and o['before'] != o['segs'] and \
            any(s[1] != t[0] for s, t in zip(o['before'], o['before'][1:])):
        ret.append('nontrivial')
    return ret
