# -*- coding: utf-8 -*-
"""Rooms: their names, all of their walls, the polygons of a room"""
RULE = ('vessels made of arbitrary plane drawings of parts, with areas in areas, and stacks, nested vessels and jackets; '
        'some rooms renamed, points anywhere; non-trivial: two or more rooms')
CASES = {'quick': 160, 'thorough': 4000}
CPU = 400
FAMILIES = ['small stack', 'small stack', 'nested small', 'jacket small']


def strategy():
    from hypothesis import assume, strategies as st
    from pbt import geo, vessel
    from pbt.props import c23

    drawing = c23.strategy()

    @st.composite
    def cases(draw):
        if draw(st.integers(0, 7)):
            c = draw(drawing)
            es = [tuple(tuple(p) for p in e) for e in c['edges']]
            xs, ys = [[p[k] for e in es for p in e] for k in (0, 1)]
            ps = draw(st.lists(st.tuples(st.integers(2 * min(xs) - 1, 2 * max(xs) + 1),
                                         st.integers(2 * min(ys) - 1, 2 * max(ys) + 1)), min_size=2, max_size=8,
                               unique=True))
            ps = [p for p in ps if not any(geo.on_segment(p, *[(2 * x, 2 * y) for x, y in e]) for e in es)]
            assume(ps)
            c['points'] = [list(p) for p in ps]
        else:
            c = vessel.make(draw, draw(st.sampled_from(FAMILIES)))
        c['rename'] = draw(st.lists(st.tuples(st.integers(0, 5), st.sampled_from(['A', 'R 7', 'Mantelraum', ''])),
                                    max_size=3))
        return c
    return cases()


def run(case):
    from pbt import vessel
    from pbt.api import P, seg, segs
    from pbt.plane import part_class
    from SR_Vessel.SR_hauptteile import Behalter
    from geometry.SR_polygon import simplify
    if 'edges' in case:
        s = case['s']
        es = [[[c * s for c in p] for p in e] for e in case['edges']]
        Walls = part_class()
        b = Behalter([Walls(name='p%d' % n, segments=[es[i] for i in p]) for n, p in enumerate(case['parts'])])
    else:
        s = 1
        b = vessel.vessel(case['parts'])

    def form(x):
        return [[y.__class__.__name__] + seg(y) for y in x]

    o = {'parts': {x.name: [form(x.segments), form(x.graph.segments)] for x in b.polygons},
         'names': [r.name for r in b.raume], 'rooms': vessel.rooms_of(b), 'intex': vessel.intex_of(b)}
    o['all'] = [[x.name for x in r.ganze_wandung] for r in b.raume]
    o['again'] = [[x.name for x in r.ganze_wandung] for r in b.raume] == o['all']
    o['polygon'] = [form(r.as_polygon.segments) for r in b.raume]
    o['graph'] = [form(r.graph_as_polygon().segments) for r in b.raume]
    o['inside'] = []
    for r in b.raume:
        g = r.graph_as_polygon()
        simplify(g)
        o['inside'].append([g.is_internal_point(p=P([c * s / 2. for c in p])) for p in case.get('points', ())])
    for n, name in case['rename']:
        b.raume[n % len(b.raume)].set_name(name)
    o['renamed'] = [r.name for r in b.raume]
    o['rooms2'], o['intex2'] = vessel.rooms_of(b), vessel.intex_of(b)
    o['unchanged'] = {x.name: [form(x.segments), form(x.graph.segments)] for x in b.polygons} == o['parts']
    return o


def check(case, o):
    from pbt import geo, vessel
    from pbt.props import c23
    n = len(o['names'])
    if o['names'] != ['R%d' % (k + 1) for k in range(n)] or [r['name'] for r in o['rooms']] != o['names']:
        return 'names %r, %r' % (o['names'], o['rooms'])
    if not o['unchanged'] or not o['again']:
        return 'asking changed something'
    for k, r in enumerate(o['rooms']):
        if sorted(o['all'][k]) != sorted(r['outer'] + r['inner']):
            return 'all walls %r are not %r' % (o['all'][k], r)
        walls = [x for w in r['outer'] + r['inner'] for x in o['parts'][w][0] if x[0] == 'Wall']
        if sorted(o['polygon'][k]) != sorted(walls):
            return 'the polygon of the room %r instead of %r' % (o['polygon'][k], walls)
        graph = [x for w in r['outer'] + r['inner'] for x in o['parts'][w][1]]
        if sorted(o['graph'][k]) != sorted(graph):
            return 'the graph of the room %r instead of %r' % (o['graph'][k], graph)
    if 'edges' in case:
        es = [tuple(tuple(p) for p in e) for e in case['edges']]
        areas, comp = c23.layout(es)
        of = []
        for r in o['rooms']:
            m = [k for k, f in enumerate(areas)
                 if {'p%d' % i for i, p in enumerate(case['parts'])
                     if any(frozenset(es[x]) in [frozenset(e) for e in geo.edges(f)] for x in p)} == set(r['outer'])]
            if len(m) != 1:
                return 'no area %r' % (r,)
            of.append(m[0])
        for k, a in enumerate(of):
            # what is directly in the area: outlines of its holes
            holes = [z for z in range(len(areas)) if comp[z] != comp[a] and c23.host(areas, comp, z) == a]
            for p, got in zip(case['points'], o['inside'][k]):
                inside = geo.locate(p, [(2 * x, 2 * y) for x, y in areas[a]]) > 0
                for z in holes:
                    if geo.locate(p, [(2 * x, 2 * y) for x, y in areas[z]]) >= 0:
                        inside = False
                if got is not inside:
                    return 'the point %r inside of %r: %r' % (p, areas[a], got)
    else:
        _, msg = vessel.match_rooms(case, o['rooms'])
        if msg:
            return msg
    names = list(o['names'])
    for k, name in case['rename']:
        names[k % n] = name
    if o['renamed'] != names:
        return 'names after renaming %r instead of %r' % (o['renamed'], names)
    if o['rooms2'] != [dict(r, name=x) for r, x in zip(o['rooms'], names)]:
        return 'renaming changed the walls'
    new = dict(zip(o['names'], names))
    for part, v in o['intex'].items():
        for side, w in v.items():
            if o['intex2'].get(part, {}).get(side) != sorted({new[x] for x in w}):
                return '%s of %s: %r, with the new names %r' % (side, part, w, o['intex2'].get(part, {}).get(side))
    return None


def labels(case, o):
    n = len(o['names'])
    ret = ['drawing' if 'edges' in case else case['family'], '%d rooms' % n]
    if any(r['inner'] for r in o['rooms']):
        ret.append('inner walls')
    if case['rename']:
        ret.append('renamed')
    if any(any(x) for x in o['inside']):
        ret.append('a point inside')
    return ret + (['nontrivial'] if n > 1 else [])
