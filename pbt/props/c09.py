# -*- coding: utf-8 -*-
"""Rigid motions and edits of polygons: the coordinates follow, and area and triangles always belong to them"""
import math

RULE = ('a simple polygon, built closed or by appending its corners one after the other, then up to 6 rotations, '
        'mirrorings, moves, purges, corner insertions, and queries of area and triangles (also again, also by another method) in between; non-trivial: a '
        'derived value was asked for before and after a change of the geometry')
CASES = {'quick': 1300, 'thorough': 30000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen
    deg = st.one_of(st.sampled_from([0, 90, -90, 180, 270, 360, 45, 30, -60]), st.integers(-720, 720),
                    st.integers(-7200, 7200).map(lambda k: k / 10.), st.integers(-10 ** 6, 10 ** 6).map(lambda k: k / 1e3))
    xy = st.tuples(st.integers(-30, 30).map(lambda k: k / 2.), st.integers(-30, 30).map(lambda k: k / 2.))
    op = st.one_of(
        st.tuples(st.just('rotate'), deg), st.tuples(st.just('rotate_xy'), st.tuples(xy, deg)),
        st.tuples(st.just('mirror'), st.integers(-20, 20).map(lambda k: k / 2.)), st.tuples(st.just('move'), xy),
        st.tuples(st.just('purge'), st.none()), st.tuples(st.just('area'), st.none()),
        st.tuples(st.just('area'), st.none()), st.tuples(st.just('triangles'), st.none()),
        st.tuples(st.just('order'), st.none()), st.tuples(st.just('mesh'), st.none()))
    ear = st.tuples(st.just('ear clipping'), st.none())

    @st.composite
    def cases(draw):
        p = draw(gen.simple_polygon(nmax=9, kinds=('star', 'untangled', 'histogram', 'convex', 'comb')))
        s = draw(st.sampled_from([1., .1, .5, 3.7, .02, 1.23457]))
        return {'nodes': [gen.scaled(q, s) for q in p['nodes']], 'kind': p['kind'],
                'build': draw(st.sampled_from(['closed', 'separate', 'append', 'prepend'])),
                'early': draw(st.booleans()), 'ops': draw(st.lists(st.one_of(op, op, op, ear) if p['kind'] == 'convex' else op,
                                                              min_size=1, max_size=6))}
    return cases()


def run(case):
    from pbt.api import P, closed, opened, loose, segs
    nodes = case['nodes']
    n = len(nodes)
    early = None
    if case['build'] == 'closed':
        pl = closed(nodes)
    elif case['build'] == 'separate':
        pl = loose([[nodes[k], nodes[(k + 1) % n]] for k in range(n)])
    else:
        # a polygon that grows; what was asked for before must not stay
        pl = opened(nodes[:3] if case['build'] == 'append' else nodes[-3:])
        if case['early']:
            pl.purge()
            early = [pl.area, len(pl.triangles)]
        if case['build'] == 'append':
            for q in nodes[3:]:
                pl.append_point_at_end(P(q))
                if case['early']:
                    early += [pl.area, len(pl.triangles)]
        else:
            for q in nodes[:-3][::-1]:
                pl.append_point_at_beginning(P(q))
                if case['early']:
                    early += [pl.area, len(pl.triangles)]
        pl.close()
    out = [{'segs': segs(pl), 'early': early}]

    def derived():
        return {'area': pl.area, 'tri': [[[q.x, q.y] for q in t.point_set] for t in pl.triangles],
                'tarea': [t.area for t in pl.triangles]}

    if case['early']:
        out[0].update(derived())
    for op, arg in case['ops']:
        d = {}
        if op == 'rotate':
            pl.rotate_about_origin(phi=arg)
        elif op == 'rotate_xy':
            pl.rotate_about_xy(x0=arg[0][0], y0=arg[0][1], phi=arg[1])
        elif op == 'mirror':
            pl.mirror_vertical(x0=arg)
        elif op == 'move':
            pl.move(x0=arg[0], y0=arg[1])
        elif op == 'purge':
            pl.purge()
        elif op == 'order':
            d['order'] = pl.order()
        elif op == 'area':
            d.update(derived())
        elif op in ('triangles', 'mesh', 'ear clipping'):
            if op == 'triangles':
                pl.triangulate()
            else:
                pl.triangulate(algorithm='triangle' if op == 'mesh' else op, force=True)
            d['tri'] = [[[q.x, q.y] for q in t.point_set] for t in pl.triangles]
            d['tarea'] = [t.area for t in pl.triangles]
        d['segs'] = segs(pl)
        # what is there without asking for it must be up to date, too
        d['kept'] = [[[q.x, q.y] for q in t.point_set] for t in pl.triangles]
        d['norms'] = [s.norm for s in pl.segments]
        out.append(d)
    out.append({'segs': segs(pl), **derived()})
    return out


def turn(p, phi, c=(0., 0.)):
    f = math.radians(phi)
    x, y = p[0] - c[0], p[1] - c[1]
    return [c[0] + x * math.cos(f) - y * math.sin(f), c[1] + x * math.sin(f) + y * math.cos(f)]


def shoelace(ring):
    x0, y0 = ring[0]
    return sum((a[0] - x0) * (b[1] - y0) - (b[0] - x0) * (a[1] - y0) for a, b in zip(ring, ring[1:] + ring[:1])) / 2.


def check(case, out):
    ring = [list(map(float, p)) for p in case['nodes']]
    n = len(ring)
    start = 0
    if case['build'] == 'prepend':
        pass
    size = max(abs(c) for p in ring for c in p) + 1
    area = abs(shoelace(ring))
    peri = sum(math.hypot(a[0] - b[0], a[1] - b[1]) for a, b in zip(ring, ring[1:] + ring[:1]))
    tol = 2e-7
    # the results are rounded and the coordinates after a motion, too
    atol = n * 1e-6 + 1e-6 * peri + 1e-9 * size * size
    for k, o in enumerate(out):
        where = ' after step %d' % k
        if 0 < k <= len(case['ops']):
            op, arg = case['ops'][k - 1]
            where += ' (%s)' % op
            if op == 'rotate':
                ring = [turn(p, arg) for p in ring]
            elif op == 'rotate_xy':
                ring = [turn(p, arg[1], arg[0]) for p in ring]
            elif op == 'mirror':
                ring = [[2 * arg - p[0], p[1]] for p in ring]
            elif op == 'move':
                ring = [[p[0] + arg[0], p[1] + arg[1]] for p in ring]
            elif op == 'order' and o['order'] is not True:
                return 'a closed polygon was not ordered' + where
            elif op == 'order':      # anywhere in the ring, see C07
                first = o['segs'][0][0]
                start = min(range(n), key=lambda i: math.hypot(ring[i][0] - first[0], ring[i][1] - first[1]))
                ring = ring[start:] + ring[:start]
        want = list(zip(ring, ring[1:] + ring[:1]))
        if len(o['segs']) != n:
            return '%d segments instead of %d' % (len(o['segs']), n) + where
        for g, w in zip(o['segs'], want):
            if any(abs(x - y) > tol for p, q in zip(g, w) for x, y in zip(p, q)):
                return 'segment %r instead of %r' % (g, w) + where
        if 'norms' in o and abs(sum(o['norms']) - peri) > 1e-6 * n:
            return 'the perimeter changed from %r to %r' % (peri, sum(o['norms'])) + where
        if 'area' in o and abs(o['area'] - area) > atol:
            return 'area %r instead of %r' % (o['area'], area) + where
        for name in ('tri', 'kept'):
            if name in o:
                for t in o[name]:
                    for p in t:
                        if min(max(abs(p[0] - q[0]), abs(p[1] - q[1])) for q in ring) > 1e-5:
                            return 'a triangle has the corner %r that the polygon does not have' % (p,) + where
                total = sum(abs(shoelace(t)) for t in o[name])
                if (o[name] or name == 'tri') and abs(total - area) > atol:
                    return 'the triangles have the area %r instead of %r' % (total, area) + where
        if 'tarea' in o and abs(sum(o['tarea']) - area) > atol:
            return 'the areas of the triangles give %r instead of %r' % (sum(o['tarea']), area) + where
    return None


def labels(case, out):
    ops = [op for op, _ in case['ops']]
    ret = ['op ' + x for x in ops] + ['built ' + case['build'], case['kind']]
    asked = [k for k, x in enumerate(ops) if x in ('area', 'triangles', 'mesh', 'ear clipping')]
    first = -1 if case['early'] else (asked[0] if asked else None)
    if first is not None and any(x in ('rotate', 'rotate_xy', 'mirror', 'move') for x in ops[first + 1:]):
        ret.append('nontrivial')
    return ret
