# -*- coding: utf-8 -*-
"""The areas enclosed by the parts of a group, their walls, neighbours and contents"""
RULE = ('plane drawings with up to 12 segments without loose ends or cut vertices: grids, polygons with chords, '
        'random ones, separate and nested ones; every part one or several segments between the same two areas; '
        'non-trivial: two or more areas')
CASES = {'quick': 400, 'thorough': 6000}
CPU = 300


def strategy():
    from hypothesis import assume, strategies as st
    from pbt import gen, geo

    @st.composite
    def cases(draw):
        more = draw(st.integers(0, 7)) == 0
        g = draw(gen.strip() if more else gen.plane_edges(most=10, tails=False))
        es = [tuple(tuple(p) for p in e) for e in g['edges']]
        comps = geo.components(es)
        assume(all(geo.faces(c) is not None for c in comps))
        assume(len(geo.bridge_free_loops(es)) <= (15 if more else 8))
        between = sides(es)
        keys = {}
        many = draw(st.booleans())
        for i, e in enumerate(es):
            k = (between[frozenset(e)], draw(st.integers(0, 2)) if many else 0)
            keys.setdefault(k, []).append(i)
        parts = [keys[k] for k in sorted(keys, key=lambda k: keys[k])]
        if draw(st.booleans()):
            parts = [[i] for i in range(len(es))]
        return {'kind': g['kind'], 'edges': g['edges'], 'parts': draw(st.permutations(parts)),
                's': draw(st.sampled_from([1., 1.23457, 10., .1, .02]))}
    return cases()


def layout(es):
    """the areas: (corners, edges); and for every area the component it belongs to"""
    from pbt import geo
    areas, comp = [], []
    for n, c in enumerate(geo.components(es)):
        for f in geo.faces(c):
            areas.append(f)
            comp.append(n)
    return areas, comp


def host(areas, comp, n):
    """the smallest area of another component around area n, or None"""
    from pbt import geo
    around = [k for k in range(len(areas)) if comp[k] != comp[n] and geo.locate(areas[n][0], areas[k]) > 0]
    return min(around, key=lambda k: geo.area2(areas[k])) if around else None


def sides(es):
    """{edge: the two areas on its sides (-1: outside of everything)}"""
    from pbt import geo
    areas, comp = layout(es)
    ret = {}
    for e in es:
        e = frozenset(e)
        mine = [n for n, f in enumerate(areas) if any(e == frozenset(x) for x in geo.edges(f))]
        if len(mine) == 1:
            h = host(areas, comp, mine[0])
            mine.append(-1 if h is None else h)
        ret[e] = tuple(sorted(mine))
    return ret


def run(case):
    from pbt.api import segs
    from pbt.plane import part_class
    from SR_Vessel.SR_hauptteile import Behalter
    s = case['s']
    es = [[[c * s for c in p] for p in e] for e in case['edges']]
    Walls = part_class()
    parts = [Walls(name='p%d' % n, segments=[es[i] for i in p]) for n, p in enumerate(case['parts'])]
    b = Behalter(parts)
    g = b.graph
    return {'cycles': [[k, segs(v), v.isclosed, v.isvalid] for k, v in sorted(g.cycles.items())],
            'walls': {str(k): [x.name for x in v] for k, v in b.segments_in_cycles.items()},
            'overlaps': [[list(k), sorted(v)] for k, v in b.overlaps_in_cycles_named.items()],
            'overlaps2': [[list(k), sorted(x.name for x in v)] for k, v in b.overlaps_in_cycles.items()],
            'contained': {str(k): sorted(v) for k, v in b.contained_cycles.items()},
            'rooms': [[r.cycle[0], sorted(x.name for x in r.aussere_wandung), sorted(x.name for x in r.innere_wandung)]
                      for r in b.raume],
            'all': sorted(x.hauptteil.name for x in g.all_overlapping_segments)}


def check(case, o):
    from pbt import geo
    s = case['s']
    es = [tuple(tuple(p) for p in e) for e in case['edges']]
    put = {tuple(round(c * s, 6) for c in p): p for e in es for p in e}

    def back(p):
        return put[tuple(round(c, 6) for c in p)]

    areas, comp = layout(es)
    bounds = [frozenset(frozenset(e) for e in geo.edges(f)) for f in areas]
    of = {}         # number of the cycle: number of the area
    for k, sg, closed, valid in o['cycles']:
        if not closed or not valid or any(a[1] != b[0] for a, b in zip(sg, sg[1:] + sg[:1])):
            return 'the cycle %r is not closed, valid and in order' % sg
        m = [n for n, x in enumerate(bounds) if x == frozenset(frozenset(back(p) for p in e) for e in sg)]
        if not m:
            return 'the cycle %r is not the boundary of an area' % sg
        of[k] = m[0]
    if sorted(of.values()) != list(range(len(areas))) or len(of) != len(o['cycles']):
        return '%d cycles, %d areas: %r' % (len(of), len(areas), o['cycles'])
    names = {n: {'p%d' % i for i, p in enumerate(case['parts']) if any(frozenset(es[x]) in bounds[n] for x in p)}
             for n in range(len(areas))}
    cyc = {v: k for k, v in of.items()}
    for k, w in o['walls'].items():
        if sorted(w) != sorted(names[of[int(k)]]):
            return 'the parts around %r: %r instead of %r' % (areas[of[int(k)]], w, names[of[int(k)]])
    want = []
    for a in of:
        for b in of:
            if a < b and names[of[a]] & names[of[b]]:
                want.append([[a, b], sorted(names[of[a]] & names[of[b]])])
    for k in ('overlaps', 'overlaps2'):
        if sorted(o[k]) != sorted(want):
            return 'common parts %r instead of %r' % (o[k], want)
    if set(o['all']) != {x for _, w in want for x in w}:
        return 'all common parts: %r' % o['all']
    inside = {k: sorted(z for z in of if z != k and comp[of[z]] != comp[of[k]] and
                        geo.locate(areas[of[z]][0], areas[of[k]]) > 0) for k in of}
    if {int(k): v for k, v in o['contained'].items()} != inside:
        return 'areas in areas: %r instead of %r' % (o['contained'], inside)
    between = sides(es)
    rooms = sorted([k, sorted(names[n]),
                    sorted('p%d' % i for i, p in enumerate(case['parts'])
                           if n in between[frozenset(es[p[0]])] and frozenset(es[p[0]]) not in bounds[n])]
                   for k, n in of.items())
    if sorted(o['rooms']) != rooms:
        return 'rooms (cycle, outer walls, inner walls): %r instead of %r' % (sorted(o['rooms']), rooms)
    return None


def labels(case, o):
    n = len(o['cycles'])
    ret = [case['kind'], '%d areas' % n] + (['nontrivial'] if n > 1 else [])
    if any(o['contained'].values()):
        ret.append('an area in an area')
    return ret
