# -*- coding: utf-8 -*-
"""Polygons that have no area in common"""
RULE = ('two simple polygons in general position, one inside the other, both parts of a polygon cut along a diagonal, '
        'a polygon and its part, twice the same; non-trivial: the bounding boxes have area in common')
CASES = {'quick': 1000, 'thorough': 25000}


def strategy():
    from hypothesis import assume, strategies as st
    from pbt import gen, geo

    @st.composite
    def cases(draw):
        a = gen.tup(draw(gen.simple_polygon(nmax=8, n=12))['nodes'])
        how = draw(st.sampled_from(['any', 'any', 'inside', 'cut', 'cut', 'part', 'same']))
        if how == 'same':
            k = draw(st.integers(0, len(a) - 1))
            b = (a[k:] + a[:k])[::draw(st.sampled_from([1, -1]))]
        elif how in ('cut', 'part'):
            n = len(a)
            ds = [(i, j) for i in range(n) for j in range(i + 2, n) if (i, j) != (0, n - 1) and diagonal(a, i, j, geo)]
            assume(ds)
            i, j = draw(st.sampled_from(ds))
            b, c = a[i:j + 1], a[j:] + a[:i + 1]
            assume(geo.area2(b) and geo.area2(c))
            if how == 'cut':
                a, b = (b, c) if draw(st.booleans()) else (c, b)
        else:
            b = gen.tup(draw(gen.simple_polygon(nmax=8, n=12))['nodes'])
            if how == 'inside':
                # shrunk into the middle of an enlarged polygon
                a = [(60 * x, 60 * y) for x, y in a]
                t = [(sum(p[0] for p in q) // 3, sum(p[1] for p in q) // 3) for q in zip(a, a[1:] + a[:1], a[2:] + a[:2])]
                t = [p for p in t if geo.locate(p, a) > 0]
                assume(t)
                t = draw(st.sampled_from(t))
                b = [(x - b[0][0] + t[0], y - b[0][1] + t[1]) for x, y in b]
            else:
                m = (a[0][0] - b[0][0] + draw(st.integers(-12, 12)), a[0][1] - b[0][1] + draw(st.integers(-12, 12)))
                b = [(x + m[0], y + m[1]) for x, y in b]
            # general position
            for p, q in ((a, b), (b, a)):
                assume(not any(geo.orient(x, y, z) == 0 for x in p for y in p if x < y for z in q))
        if draw(st.booleans()):
            b = b[::-1]
        return {'how': how, 'a': [list(p) for p in a], 'b': [list(p) for p in b],
                's': draw(st.sampled_from([.1, .5, 1., 1.23457, 20., .02]))}
    return cases()


def diagonal(a, i, j, geo):
    from fractions import Fraction
    p, q = a[i], a[j]
    for e in geo.edges(a):
        cp = geo.common_part(p, q, *e)
        if cp is not None and (isinstance(cp[0], tuple) or cp not in (p, q)):
            return False
    return geo.locate((Fraction(p[0] + q[0], 2), Fraction(p[1] + q[1], 2)), a) > 0


def run(case):
    from pbt.api import closed, segs
    s = case['s']
    ps = []
    for k in 'ab':
        pl = closed([[c * s for c in p] for p in case[k]])
        pl.triangulate()
        ps.append(pl)
    before = [segs(p) for p in ps]
    o = {'ab': ps[0].disjunct(ps[1]), 'ba': ps[1].disjunct(ps[0])}
    o['unchanged'] = [segs(p) for p in ps] == before
    return o


def check(case, o):
    from pbt import geo
    a, b = [[tuple(p) for p in case[k]] for k in 'ab']
    if case['how'] == 'cut':
        want = True
    elif case['how'] in ('part', 'same'):
        want = False
    else:
        want = not (any(geo.common_part(*(e + f)) is not None for e in geo.edges(a) for f in geo.edges(b)) or
                    geo.locate(a[0], b) > 0 or geo.locate(b[0], a) > 0)
    if o['ab'] is not want or o['ba'] is not want:
        return '%r / %r instead of %r' % (o['ab'], o['ba'], want)
    return None if o['unchanged'] else 'the polygons were changed'


def labels(case, o):
    ret = [case['how'], 'disjunct' if o['ab'] else 'not disjunct']
    a, b = case['a'], case['b']
    if all(max(min(p[i] for p in a), min(p[i] for p in b)) < min(max(p[i] for p in a), max(p[i] for p in b))
           for i in (0, 1)):
        ret.append('nontrivial')
    return ret
