# -*- coding: utf-8 -*-
"""Walking segments to a closed polygon; dropping segments with a free end"""
RULE = ('edges of one or two simple polygons, shuffled and arbitrarily directed, complete, with an edge missing, with a '
        'tail or a chord; walked from any start point; non-trivial: not just a single ring in order')
CASES = {'quick': 1500, 'thorough': 40000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        p = draw(gen.simple_polygon(nmax=draw(st.sampled_from([8, 8, 8, 12]))))
        nodes = p['nodes']
        n = len(nodes)
        es = [[nodes[k], nodes[(k + 1) % n]] for k in range(n)]
        how = draw(st.sampled_from(['ring', 'open', 'tail', 'tail', 'chord', 'two rings']))
        if how == 'open':
            del es[draw(st.integers(0, n - 1))]
        elif how == 'tail':
            for _ in range(draw(st.sampled_from([1, 1, 2, 3, 5]))):
                k = draw(st.integers(0, n - 1))
                es.append([nodes[k], [1000 + draw(st.integers(0, 5)) + 10 * len(es), 700]])
        elif how == 'chord':
            if n < 4:
                how = 'ring'
            else:
                k = draw(st.integers(0, n - 1))
                es.append([nodes[k], nodes[(k + draw(st.integers(2, n - 2))) % n]])
        elif how == 'two rings':
            q = draw(gen.simple_polygon(nmax=6))['nodes']
            q = [[c[0] + 5000, c[1]] for c in q]
            es += [[q[k], q[(k + 1) % len(q)]] for k in range(len(q))]
        m = len(es)
        es = draw(st.permutations(es))
        flips = draw(st.lists(st.booleans(), min_size=m, max_size=m)) if draw(st.booleans()) else [False] * m
        es = [e[::-1] if f else e for e, f in zip(es, flips)]
        return {'how': how, 'segs': es, 's': draw(st.sampled_from([1., .5, 2. ** -6])),
                'start': draw(st.one_of(st.none(), st.integers(0, m - 1)))}
    return cases()


def run(case):
    from pbt.api import S, P, seg, segs
    from geometry.SR_polygon import walk_segments, remove_outlier_segments, simplify, PolygonLine
    s = case['s']
    es = [[[c * s for c in p] for p in e] for e in case['segs']]
    ss = [S(e) for e in es]
    given = list(ss)
    if case['start'] is None:
        r = walk_segments(segments=ss)
    else:
        r = walk_segments(segments=ss, startingpoint=P(es[case['start']][0]))
    o = {'walk': segs(r) if r else False, 'unchanged': [seg(x) for x in ss] == es and
         all(x is y for x, y in zip(ss, given)) and len(ss) == len(given)}
    if r:
        o['closed'] = [r.isclosed, r.isvalid]
    k = remove_outlier_segments(ss)
    o['kept'] = [seg(x) for x in k]
    pl = PolygonLine([S(e) for e in es])
    for i, x in enumerate(pl.segments):
        add = pl.add_internal_point if i % 2 else pl.add_external_point
        add(P([i, 1]), segment=x)
    simplify(pl)
    o['simplified'] = segs(pl)
    o['intex'] = sorted([p.x, seg(p.segment)] for p in pl.internal + pl.external)
    return o


def check(case, o):
    s = case['s']
    es = [tuple(tuple(p) for p in e) for e in case['segs']]
    if not o['unchanged']:
        return 'walking changed the segments'
    start = es[0 if case['start'] is None else case['start']][0]
    # the connected part of the start point: is it a ring?
    comp, more = {start}, True
    while more:
        more = False
        for a, b in es:
            if (a in comp) != (b in comp):
                comp |= {a, b}
                more = True
    part = [e for e in es if e[0] in comp]
    ring = all(sum(p in e for e in part) == 2 for p in comp)
    if bool(o['walk']) is not ring:
        return 'walking gives %r, a ring: %r' % (o['walk'], ring)

    def put(e):
        return tuple(tuple(c * s for c in p) for p in e)

    if ring:
        got = [tuple(tuple(p) for p in e) for e in o['walk']]
        if sorted(tuple(sorted(e)) for e in got) != sorted(tuple(sorted(put(e))) for e in part):
            return 'walked %r instead of %r' % (got, part)
        if any(x[1] != y[0] for x, y in zip(got, got[1:] + got[:1])) or o['closed'][0] is not True:
            return 'the result is not closed and in order'
        if case['how'] != 'chord' and o['closed'] != [True, True]:
            return 'the result is not valid'
    deg = {}
    for e in es:
        for p in e:
            deg[p] = deg.get(p, 0) + 1
    keep = [e for e in es if deg[e[0]] > 1 and deg[e[1]] > 1]
    want = [put(e) for e in keep]
    for name in ('kept', 'simplified'):
        if [tuple(tuple(p) for p in e) for e in o[name]] != want:
            return '%s: %r instead of %r' % (name, o[name], want)
    left = sorted([float(i), [list(p) for p in put(e)]] for i, e in enumerate(es) if e in keep)
    if o['intex'] != left:
        return 'points left after simplifying %r instead of %r' % (o['intex'], left)
    return None


def labels(case, o):
    ret = [case['how'], 'walked' if o['walk'] else 'not walked']
    es = case['segs']
    if case['how'] != 'ring' or any(x[1] != y[0] for x, y in zip(es, es[1:])):
        ret.append('nontrivial')
    return ret
