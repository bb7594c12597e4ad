# -*- coding: utf-8 -*-
"""Hypothesis strategies for plain data (lists of numbers) shared by the properties."""
from hypothesis import strategies as st
from . import geo

# the factors keep all decisions of the predicates far from their tolerances
SCALES = [1., .1, .5, 3.7, 100., .02, 1.23457]


def ints(n=20):
    return st.integers(-n, n)


def grid_point(n=20):
    return st.tuples(ints(n), ints(n))


def small_grid_point():
    """points from a small grid, so that coincidences happen"""
    return st.one_of(st.tuples(st.integers(-3, 3), st.integers(-3, 3)), grid_point(20))


def scaled(p, s):
    return [p[0] * s, p[1] * s]


@st.composite
def offsets(draw):
    """where a figure lies: at the origin or anywhere, in any quadrant"""
    if draw(st.booleans()):
        return (0, 0)
    return draw(st.tuples(st.integers(-500, 500), st.integers(-500, 500)))


@st.composite
def simple_polygon(draw, nmax=12, n=20, kinds=('star', 'untangled', 'histogram', 'convex', 'comb', 'collinear')):
    """corners of a simple polygon, list of integer pairs; direction, start and position vary"""
    kind = draw(st.sampled_from(list(kinds)))
    nodes = None
    if nmax > 8 and draw(st.integers(0, 11)) == 0:      # a large one
        nmax, n = 32, 60
    if kind == 'star':
        pts = draw(st.lists(grid_point(n), min_size=3, max_size=nmax, unique=True))
        nodes = geo.star(pts, (0, 0))
    elif kind == 'untangled':
        pts = draw(st.lists(grid_point(n), min_size=4, max_size=nmax, unique=True))
        nodes = geo.untangle(pts)
    elif kind == 'convex':
        pts = draw(st.lists(grid_point(n), min_size=3, max_size=nmax, unique=True))
        nodes = geo.hull(pts)
    elif kind == 'histogram':
        k = draw(st.integers(2, max(2, nmax // 2 - 1)))
        hs = draw(st.lists(st.integers(1, n), min_size=k, max_size=k))
        ws = draw(st.lists(st.integers(1, 5), min_size=k, max_size=k))
        top, x = [], 0
        for h, w in zip(hs, ws):
            if top and top[-1][1] == h:
                top[-1] = (x + w, h)
            else:
                top += [(x, h), (x + w, h)]
            x += w
        nodes = [(0, 0)] + top + [(x, 0)]
    elif kind == 'comb':
        k = draw(st.integers(1, max(1, nmax // 4)))
        nodes = [(0, 0)]
        tips = draw(st.lists(st.integers(2, n), min_size=2 * k, max_size=2 * k))
        for i in range(k):
            nodes += [(4 * i + 1, tips[2 * i] + 1), (4 * i + 3, 1)]
        nodes += [(4 * k + 1, tips[-1] + 1), (4 * k + 2, 0)]
    else:
        base = geo.hull(draw(st.lists(grid_point(n // 3), min_size=3, max_size=max(3, nmax // 2), unique=True)))
        nodes = []
        for a, b in geo.edges([(3 * p[0], 3 * p[1]) for p in base]):
            nodes.append(a)
            for t in sorted(draw(st.sets(st.sampled_from([1, 2]), max_size=2))):
                nodes.append((a[0] + (b[0] - a[0]) * t // 3, a[1] + (b[1] - a[1]) * t // 3))
    if not nodes or len(nodes) < 3 or not geo.is_simple(nodes) or geo.area2(nodes) == 0:
        nodes = [(0, 0), (draw(st.integers(1, n)), 0), (0, draw(st.integers(1, n)))]
        kind = 'fallback'
    if n <= 40 and draw(st.integers(0, 7)) == 0:        # a long and thin one
        k = draw(st.sampled_from([5, 9, 20]))
        how = draw(st.integers(0, 2))
        nodes = [(k * x, y) if how == 0 else (x, k * y) if how == 1 else (k * x + y, k * x - y) for x, y in nodes]
    if draw(st.booleans()):
        nodes = nodes[::-1]
    r = draw(st.integers(0, len(nodes) - 1))
    dx, dy = draw(st.sampled_from([(0, 0), (0, 0), (30, 30), (-40, 10), (-50, -60), (25, -45), (-300, 200)]))
    return {'kind': kind, 'nodes': [[p[0] + dx, p[1] + dy] for p in nodes[r:] + nodes[:r]]}


def tup(nodes):
    return [tuple(p) for p in nodes]


def add_edge(es, a, b):
    """adds a - b if the drawing stays plane"""
    if a == b:
        return False
    for c, d in es:
        cp = geo.common_part(a, b, c, d)
        if cp is not None and (isinstance(cp[0], tuple) or not (cp in (a, b) and cp in (c, d))):
            return False
    es.append((a, b))
    return True


@st.composite
def plane_edges(draw, most=12, kinds=('grid', 'chords', 'random', 'rings', 'nested', 'ring'), tails=True):
    """edges of a plane straight line drawing, every edge once; pairs of integer points"""
    kind = draw(st.sampled_from(list(kinds)))
    es = []
    if kind == 'grid':
        m, n = draw(st.sampled_from([(1, 2), (2, 1), (1, 3), (3, 1), (2, 2)]))
        xs = [0]
        for _ in range(m):
            xs.append(xs[-1] + draw(st.integers(1, 6)))
        ys = [0]
        for _ in range(n):
            ys.append(ys[-1] + draw(st.integers(1, 6)))
        es = [((xs[i], ys[j]), (xs[i + 1], ys[j])) for i in range(m) for j in range(n + 1)] + \
             [((xs[i], ys[j]), (xs[i], ys[j + 1])) for i in range(m + 1) for j in range(n)]
        if draw(st.booleans()):       # slanted
            k = draw(st.sampled_from([1, -1, 2]))
            es = [tuple((7 * p[0] + k * p[1], 7 * p[1] - p[0]) for p in e) for e in es]
    elif kind in ('chords', 'ring'):
        nodes = tup(draw(simple_polygon(nmax=8, n=12))['nodes'])
        es = geo.edges(nodes)
        if kind == 'chords':
            n = len(nodes)
            ds = [(i, j) for i in range(n) for j in range(i + 2, n) if (i, j) != (0, n - 1)]
            if ds:
                for i, j in draw(st.lists(st.sampled_from(ds), max_size=3, unique=True)):
                    add_edge(es, nodes[i], nodes[j])
    elif kind == 'random':
        ps = draw(st.lists(grid_point(8), min_size=4, max_size=7, unique=True))
        pairs = [(a, b) for i, a in enumerate(ps) for b in ps[i + 1:]]
        for a, b in draw(st.permutations(pairs)):
            if not any(geo.on_segment(p, a, b) for p in ps if p not in (a, b)):
                add_edge(es, a, b)
        es = es[:most]
    else:
        a = tup(draw(simple_polygon(nmax=5, n=6))['nodes'])
        b = tup(draw(simple_polygon(nmax=5, n=6))['nodes'])
        if kind == 'rings':
            es = geo.edges(a) + geo.edges([(x + 1000, y) for x, y in b])
        else:
            a = [(60 * x, 60 * y) for x, y in a]
            t = [(sum(p[0] for p in q) // 3, sum(p[1] for p in q) // 3) for q in zip(a, a[1:] + a[:1], a[2:] + a[:2])]
            t = [p for p in t if geo.locate(p, a) > 0] or [(a[0][0] + 2000, a[0][1])]
            es = geo.edges(a)
            ok = []
            for e in geo.edges([(x - b[0][0] + t[0][0], y - b[0][1] + t[0][1]) for x, y in b]):
                ok.append(add_edge(es, *e))
            if not all(ok):
                es = geo.edges(a)
    if tails and draw(st.integers(0, 3)) == 0 and len(es) < most:
        p = draw(st.sampled_from(sorted({p for e in es for p in e})))
        add_edge(es, p, (p[0] + draw(st.integers(-30, 30)), p[1] + draw(st.integers(-30, 30))))
    es = es[:most]
    es = draw(st.permutations(es))
    flips = draw(st.lists(st.booleans(), min_size=len(es), max_size=len(es)))
    return {'kind': kind, 'edges': [[list(p) for p in (e[::-1] if f else e)] for e, f in zip(es, flips)]}


@st.composite
def strip(draw, least=4, most=5):
    """edges of a polygon cut into 4 or 5 pieces, in a row or around a corner; like plane_edges"""
    k = draw(st.integers(least, most))
    kind = draw(st.sampled_from(['row', 'fan', 'grid']))
    if kind == 'grid':
        xs, ys = [[0] + sorted(draw(st.lists(st.integers(1, 40), min_size=2, max_size=2, unique=True))) for _ in (0, 1)]
        es = [((xs[i], ys[j]), (xs[i + 1], ys[j])) for i in range(2) for j in range(3)] + \
             [((xs[i], ys[j]), (xs[i], ys[j + 1])) for i in range(3) for j in range(2)]
    elif kind == 'fan':
        ring = [(3 * i, i * i + draw(st.integers(0, 1))) for i in range(k + 1)]
        c = (draw(st.integers(0, 3 * k)), 200 + draw(st.integers(0, 100)))
        es = list(zip(ring, ring[1:])) + [(c, p) for p in ring]
    else:
        xs = [0]
        for _ in range(k):
            xs.append(xs[-1] + draw(st.integers(1, 9)))
        low = [(x, draw(st.integers(-6, 0))) for x in xs]
        up = [(x, draw(st.integers(1, 6))) for x in xs]
        es = list(zip(low, low[1:])) + list(zip(up, up[1:])) + list(zip(low, up))
        if draw(st.booleans()):     # the ends of the row are triangles
            es = [(low[0], p[1]) if p[0] == up[0] else p for p in es if p != (low[0], up[0])]
    if draw(st.booleans()):
        k = draw(st.sampled_from([1, -1, 2]))
        es = [tuple((7 * p[0] + k * p[1], 7 * p[1] - p[0]) for p in e) for e in es]
    es = draw(st.permutations(es))
    flips = draw(st.lists(st.booleans(), min_size=len(es), max_size=len(es)))
    return {'kind': 'strip ' + kind, 'edges': [[list(p) for p in (e[::-1] if f else e)] for e, f in zip(es, flips)]}


def grouped(draw, edges, many=6):
    """the edges distributed to parts: lists of indices, every part has at least one"""
    k = draw(st.integers(1, min(many, len(edges))))
    of = [draw(st.integers(0, k - 1)) for _ in edges]
    parts = [[i for i, x in enumerate(of) if x == n] for n in range(k)]
    return [p for p in parts if p]
