# -*- coding: utf-8 -*-
"""Crossing segments, continuity and validity of lines"""
RULE = ('a line through 2..20 grid points (open or closed, usually crossing itself) or a list of unconnected segments; '
        'non-trivial: four or more segments')
CASES = {'quick': 2500, 'thorough': 60000}


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        n = draw(st.sampled_from([3, 6, 20]))
        pt = st.tuples(st.integers(-n, n), st.integers(-n, n))
        if draw(st.integers(0, 3)):
            nodes = draw(st.lists(pt, min_size=2, max_size=draw(st.sampled_from([3, 9, 9, 9, 20]))))
            if draw(st.booleans()):
                nodes.append(nodes[0])
            es = [(a, b) for a, b in zip(nodes, nodes[1:]) if a != b]
            kind = 'line'
        else:
            es = draw(st.lists(st.tuples(pt, pt).filter(lambda e: e[0] != e[1]), min_size=1, max_size=6))
            kind = 'segments'
        if not es:
            es = [((0, 0), (1, 0))]
        seen = []
        for e in es:
            if not any(set(e) == set(x) for x in seen):
                seen.append(e)
            else:
                break
        f = draw(st.lists(st.booleans(), min_size=len(seen), max_size=len(seen))) if kind == 'segments' else []
        seen = [e[::-1] if k < len(f) and f[k] else e for k, e in enumerate(seen)]
        return {'segs': seen, 'kind': kind, 's': draw(st.sampled_from([1., .5, 3.7, .02, 1.23457]))}
    return cases()


def run(case):
    from pbt.api import loose, seg, segs
    from geometry.SR_polygon import intersecting_lines
    s = case['s']
    pl = loose([[[c * s for c in p] for p in e] for e in case['segs']])
    index = {id(x): k for k, x in enumerate(pl.segments)}
    corners = {tuple(p) for e in case['segs'] for p in e}
    try:
        tri = pl.is_triangle
    except Exception:
        if len(corners) != 3:       # flat ones have no area, this may be refused
            raise
        (a, b), (c, d), (e, f) = corners
        if (c - a) * (f - b) != (d - b) * (e - a):
            raise
        tri = False
    return {'cross': sorted([index[id(x)], index[id(y)]] for x, y in pl.crossing_lines),
            'pairs': sorted(sorted([index[id(x)], index[id(y)]]) for x, y in intersecting_lines(pl.segments)),
            'valid': pl.isvalid, 'cont': pl.iscontinuous, 'disc': [index[id(x)] for x in pl.discontinuity],
            'closed': pl.isclosed, 'open': pl.isopen, 'triangle': tri}


def check(case, o):
    from pbt import geo
    es = [tuple(tuple(p) for p in e) for e in case['segs']]
    n = len(es)
    pairs = []
    for i in range(n):
        for j in range(i + 1, n):
            if set(es[i]) & set(es[j]):
                continue
            ip = geo.line_intersection(*(es[i] + es[j]))
            if ip is not None and geo.in_box(ip, *es[i]) and geo.in_box(ip, *es[j]):
                pairs.append([i, j])
    if o['pairs'] != pairs:
        return 'intersecting pairs %r instead of %r' % (o['pairs'], pairs)
    if o['cross'] != sorted(pairs + [p[::-1] for p in pairs]):
        return 'crossing lines %r instead of %r both ways' % (o['cross'], pairs)
    disc = [k + 1 for k in range(n - 1) if es[k][1] != es[k + 1][0] and es[k][0] != es[k + 1][1]]
    if o['disc'] != disc or o['cont'] is not (not disc):
        return 'discontinuities %r instead of %r' % (o['disc'], disc)
    closed = not disc and es[0][0] == es[-1][1]
    if o['closed'] is not closed or o['open'] is closed:
        return 'closed %r, open %r, should be %r' % (o['closed'], o['open'], closed)
    corners = {p for e in es for p in e}
    tri = n == 3 and closed and len(corners) == 3
    if tri and geo.orient(*corners) == 0:
        tri = None      # flat: has no area or can not be triangulated
    if tri is not None and o['triangle'] is not tri:
        return 'is a triangle: %r' % o['triangle']
    if o['valid'] is not (not disc and not pairs):
        return 'valid is %r, discontinuities %r, crossing %r' % (o['valid'], disc, pairs)
    return None


def labels(case, o):
    ret = [case['kind']] + ['crossing'] * bool(o['pairs']) + ['valid'] * o['valid'] + ['closed'] * o['closed']
    if len(case['segs']) > 3:
        ret.append('nontrivial')
    return ret
