# -*- coding: utf-8 -*-
"""All closed loops of a set of segments are found"""
RULE = ('plane drawings with up to 11 segments: grids, polygons with chords, random ones, separate or nested rings, '
        'with loose ends, cut vertices, in any order and direction, distributed to several lines; '
        'non-trivial: two or more loops')
CASES = {'quick': 640, 'thorough': 8000}
CPU = 200


def strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        if draw(st.integers(0, 15)) == 0:       # plain rings of any length, no branches
            ns = draw(gen.simple_polygon(nmax=draw(st.sampled_from([14, 32]))))['nodes']
            es = [[list(a), list(b)] for a, b in zip(ns, ns[1:] + ns[:1])]
            g = {'kind': 'long ring', 'edges': [e[::-1] if draw(st.booleans()) else e for e in draw(st.permutations(es))]}
        else:
            g = draw(gen.plane_edges(most=11))
        return {'kind': g['kind'], 'by': [draw(st.integers(-9, 9)), draw(st.integers(-9, 9))], 'edges': g['edges'], 's': draw(st.sampled_from([.1, 1., 1.23457, 10., .02])),
                'parts': gen.grouped(draw, g['edges'])}
    return cases()


def run(case):
    from pbt.api import segs
    from pbt.plane import graph_of
    s = case['s']
    es = [[[c * s for c in p] for p in e] for e in case['edges']]
    g = graph_of([[es[i] for i in p] for p in case['parts']])
    loops = g.find_loops()
    o = {'loops': [segs(x) for x in loops], 'valid': [[x.isvalid, x.isclosed] for x in loops],
         'lines': [segs(p) for p in g.polygons]}
    if len(es) < 10:      # all lines moved
        for p in g.polygons:
            p.move(x0=case['by'][0] * s, y0=case['by'][1] * s)
        o['moved'] = [segs(x) for x in g.find_loops()]
    return o


def check(case, o):
    from pbt import geo
    s = case['s']
    es = [tuple(tuple(p) for p in e) for e in case['edges']]
    put = {tuple(round(c * s, 6) for c in p): p for e in es for p in e}

    def back(p):
        return put[tuple(round(c, 6) for c in p)]

    got = []
    for loop, v in zip(o['loops'], o['valid']):
        if v != [True, True]:
            return 'the loop %r is not valid or not closed' % loop
        if any(a[1] != b[0] for a, b in zip(loop, loop[1:] + loop[:1])):
            return 'the loop %r is not in order' % loop
        got.append(frozenset(frozenset(back(p) for p in e) for e in loop))
    want = geo.bridge_free_loops(es)
    if len(set(got)) != len(got):
        return 'a loop was found twice'
    if set(got) != want:
        return 'missing: %r, too many: %r' % ([sorted(map(sorted, x)) for x in want - set(got)],
                                             [sorted(map(sorted, x)) for x in set(got) - want])
    if 'moved' in o:
        moved = [frozenset(frozenset(back([c - d * s for c, d in zip(p, case['by'])]) for p in e) for e in x)
                 for x in o['moved']]
        if len(moved) != len(want) or set(moved) != want:
            return 'loops after moving all lines by %s: %s' % (case['by'], o['moved'])
    sizes = [len(x) for x in o['loops']]
    if sizes != sorted(sizes):
        return 'not sorted by the number of segments: %r' % sizes
    if [[[list(back(p)) for p in e] for e in part] for part in o['lines']] != \
            [[case['edges'][i] for i in p] for p in case['parts']]:
        return 'the segments have changed'
    return None


def labels(case, o):
    n = len(o['loops'])
    return [case['kind'], '%s loops' % (n if n < 5 else '5+')] + (['nontrivial'] if n > 1 else [])
