# -*- coding: utf-8 -*-
"""Groups of lines as graphs"""
RULE = ('plane drawings with up to 12 segments distributed to lines: adjacency, numbering, node degrees, validity, '
        'selecting lines; rings touching in a common node with up to 14 segments; lines sharing edges; non-trivial: a node with three or '
        'more segments')
CASES = {'quick': 960, 'thorough': 20000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen, geo

    @st.composite
    def cases(draw):
        if draw(st.integers(0, 5)) == 0:       # a flower
            k = draw(st.integers(1, 7))
            es = []
            for i in range(k):
                a, b = (100 + i, 100 * i - 300), (100 + i, 100 * i - 250)
                es += [[[0, 0], list(a)], [list(a), list(b)], [list(b), [0, 0]]]
            kind = 'flower'
            parts = [[3 * i, 3 * i + 1, 3 * i + 2] for i in range(k)]
        elif draw(st.integers(0, 7)) == 0:     # a large grid
            m, k = draw(st.integers(2, 6)), draw(st.integers(2, 6))
            es = [[[x, y], [x + 1, y]] for x in range(m) for y in range(k + 1)] + \
                 [[[x, y], [x, y + 1]] for x in range(m + 1) for y in range(k)]
            es = draw(st.permutations(es))
            es = es[:draw(st.sampled_from([len(es), len(es), len(es) - 1, len(es) - 3, len(es) // 2]))]
            es = [e[::-1] if (e[0][0] + 2 * e[0][1]) % 3 == 0 else e for e in es]
            kind = 'large grid'
            parts = gen.grouped(draw, es)
        else:
            g = draw(gen.plane_edges(most=12))
            kind, es = g['kind'], g['edges']
            parts = gen.grouped(draw, es)
            if kind in ('ring', 'rings', 'nested') and draw(st.booleans()):
                whole = [{p for x in comp for p in x} for comp in geo.components([tuple(map(tuple, e)) for e in es])]
                parts = [[i for i, e in enumerate(es) if tuple(e[0]) in c] for c in whole]
        if draw(st.integers(0, 4)) == 0:       # edges that two lines have
            for i in draw(st.lists(st.integers(0, len(es) - 1), min_size=1, max_size=2, unique=True)):
                parts = parts + [[len(es)]]
                es = es + [es[i][::-1] if draw(st.booleans()) else es[i]]
            kind += ', shared'
        pts = sorted({tuple(p) for e in es for p in e})
        return {'kind': kind, 'edges': es, 'parts': parts, 's': draw(st.sampled_from([.1, 1., 1.23457, 10., .02])),
                'points': [list(p) for p in draw(st.lists(st.sampled_from(pts), unique=True))],
                'move': draw(st.booleans())}
    return cases()


def run(case):
    from pbt.api import S, P, xy, segs, seg
    from geometry.SR_polygon import PolygonLine
    from geometry.SR_polygon_group import PolygonGroup
    s = case['s']
    es = [[[c * s for c in p] for p in e] for e in case['edges']]
    lines = [PolygonLine([S(es[i]) for i in p]) for p in case['parts']]
    g = PolygonGroup(lines)
    before = [segs(x) for x in lines]
    num = g.points_numbered
    al, aln = g.as_adjacency_list(), g.as_adjacency_list(as_numbered=True)
    o = {'numbers': sorted([[xy(k), v] for k, v in num.items()]),
         'adj': [[xy(k), sorted(xy(x) for x in v)] for k, v in al.items()],
         'adjn': [[k, v] for k, v in aln.items()],
         'degrees': [[xy(k), g.node_degree(al, k)] for k in al],
         'edges': [list(x) for x in g.as_edgelist],
         'all': [seg(x) for x in g.all_segments],
         'valid': g.isvalid, 'eachvalid': [x.isvalid for x in lines],
         'frompoints': [[i for i, y in enumerate(lines) if y is x][0]
                        for x in g.segments_from_points([P([c * s for c in p]) for p in case['points']])],
         'fromrepr': {}}
    # of two equal lines there is no telling which one is meant
    same = [sorted(sorted(map(tuple, case['edges'][i])) for i in p) for p in case['parts']]
    for j, x in enumerate(lines):
        if same.count(same[j]) == 1:
            o['fromrepr'][str(j)] = [i for i, y in enumerate(lines) if y is g.polygon_from_repr(x)][0]
    o['unchanged'] = [segs(x) for x in lines] == before
    if case['move']:      # the lines do not depend on each other
        lines[0].move(x0=1000., y0=0.)
        o['others'] = [segs(x) for x in lines[1:]] == before[1:]
        o['moved'] = segs(lines[0])
    return o


def check(case, o):
    s = case['s']
    order = [i for p in case['parts'] for i in p]
    es = [tuple(tuple(p) for p in case['edges'][i]) for i in order]
    put = {tuple(round(c * s, 6) for c in p): p for e in es for p in e}

    def back(p):
        return put[tuple(round(c, 6) for c in p)]

    nodes = sorted({p for e in es for p in e})
    nb = {p: sorted([e[0] if e[1] == p else e[1] for e in es if p in e]) for p in nodes}
    num = {back(p): n for p, n in o['numbers']}
    if sorted(num) != nodes or sorted(num.values()) != list(range(len(nodes))):
        return 'the numbers of the points: %r' % o['numbers']
    adj = {back(p): sorted(back(x) for x in v) for p, v in o['adj']}
    if adj != nb:
        return 'adjacency %r instead of %r' % (adj, nb)
    if {k: v for k, v in o['adjn']} != {num[p]: sorted(num[x] for x in v) for p, v in nb.items()}:
        return 'numbered adjacency %r does not fit' % o['adjn']
    if {back(p): d for p, d in o['degrees']} != {p: len(v) for p, v in nb.items()}:
        return 'node degrees %r' % o['degrees']
    if [(back(a), back(b)) for a, b in o['all']] != es:
        return 'all segments: %r' % o['all']
    if o['edges'] != sorted([num[a], num[b]] for a, b in es):
        return 'edge list: %r' % o['edges']
    deg = [len(v) for v in nb.values()]
    want = min(deg) > 1 and max(deg) < 4 and deg.count(2) >= 3 and deg.count(3) % 2 == 0 and all(o['eachvalid'])
    if o['valid'] is not want:
        return 'valid: %r instead of %r' % (o['valid'], want)
    pts = {tuple(p) for p in case['points']}
    sel = [i for i, p in enumerate(case['parts'])
           if any(all(tuple(q) in pts for q in case['edges'][x]) for x in p)]
    if o['frompoints'] != sel:
        return 'lines with a segment between the points: %r instead of %r' % (o['frompoints'], sel)
    if any(int(k) != v for k, v in o['fromrepr'].items()):
        return 'another line than asked for: %r' % o['fromrepr']
    if not o['unchanged']:
        return 'asking changed the lines'
    if case['move']:
        if not o['others']:
            return 'moving a line changed the others'
        want = [[[c * s + (1000. if i == 0 else 0.) for i, c in enumerate(p)] for p in case['edges'][x]]
                for x in case['parts'][0]]
        if any(abs(a - b) > 1e-6 for e, f in zip(o['moved'], want) for p, q in zip(e, f) for a, b in zip(p, q)):
            return 'moved %r instead of %r' % (o['moved'], want)
    return None


def labels(case, o):
    ret = [case['kind'], 'valid' if o['valid'] else 'not valid']
    if max(d for _, d in o['degrees']) > 2:
        ret.append('nontrivial')
    return ret
