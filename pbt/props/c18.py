# -*- coding: utf-8 -*-
"""Joining open lines"""
RULE = ('two to seven lines of 1..4 segments on a grid, the next one beginning where the last one ends or somewhere else; '
        'non-trivial: at least one connecting segment and one direct connection, or the joined lines cross')
CASES = {'quick': 3000, 'thorough': 60000}


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        n = draw(st.sampled_from([3, 8, 20]))
        pt = st.tuples(st.integers(-n, n), st.integers(-n, n))
        lines = []
        apart = draw(st.booleans())       # lines in strips of their own cross less often
        for k in range(draw(st.sampled_from([2, 3, 4, 2, 3, 4, 5, 7]))):
            nodes = draw(st.lists(pt, min_size=2, max_size=5))
            if apart:
                nodes = [(p[0] + k * 2 * n, p[1]) for p in nodes]
            if lines and draw(st.booleans()):
                nodes = [lines[-1][-1]] + nodes
            nodes = [p for i, p in enumerate(nodes) if i == 0 or p != nodes[i - 1]]
            if len(nodes) < 2:
                nodes.append((nodes[0][0] + 1, nodes[0][1] + 2))
            # every line has to be valid itself
            good = nodes[:2]
            for p in nodes[2:]:
                if p not in good and not crossing(good + [p]):
                    good.append(p)
            lines.append(good)
        return {'lines': lines, 's': draw(st.sampled_from([1., .5, .1, .02, 1.23457]))}
    return cases()


def crossing(nodes):
    """there is a crossing of two segments that do not have an end in common"""
    from pbt import geo
    es = list(zip(nodes, nodes[1:]))
    for i in range(len(es)):
        for j in range(i):
            if set(es[i]) & set(es[j]):
                continue
            ip = geo.line_intersection(*(es[i] + es[j]))
            if ip is not None and geo.in_box(ip, *es[i]) and geo.in_box(ip, *es[j]):
                return True
    return False


def overlapping(nodes):
    from pbt import geo
    es = list(zip(nodes, nodes[1:]))
    return any(isinstance((geo.common_part(*(es[i] + es[j])) or [0])[0], tuple) for i in range(len(es)) for j in range(i))


def run(case):
    from pbt.api import opened, segs
    from geometry.SR_polygon import add
    s = case['s']
    lines = [opened([[c * s for c in p] for p in l]) for l in case['lines']]
    before = [segs(l) for l in lines]
    o = {}
    try:
        r = add(lines[0], *lines[1:])
    except AssertionError:
        r = None
    o['unchanged'] = [segs(l) for l in lines] == before
    if r is None:
        o['error'] = True
        return o
    o['segs'] = segs(r)
    o['valid'] = r.isvalid
    o['objects'] = [len({id(p) for p in r.all_points}), len(r.point_set)]
    o['lengths'] = [len(l.segments) for l in lines]
    return o


def joined(case):
    nodes = []
    for l in case['lines']:
        l = [tuple(p) for p in l]
        nodes += l[1:] if nodes and nodes[-1] == l[0] else l
    return nodes


def check(case, o):
    nodes = joined(case)
    s = case['s']
    if not o['unchanged']:
        return 'joining changed one of the lines'
    if overlapping(nodes):
        return None
    bad = crossing(nodes)
    if bad is not ('error' in o):
        return 'crossing lines: %r, error: %r' % (bad, 'error' in o)
    if bad:
        return None
    pts = [[round(c * s, 8) for c in p] for p in nodes]
    want = [list(e) for e in zip(pts, pts[1:])]
    if o['segs'] != want:
        return 'joined to %r instead of %r' % (o['segs'], want)
    if o['valid'] is not True or o['objects'][0] != o['objects'][1]:
        return 'the joined line: valid %r, %r Point objects, points' % (o['valid'], o['objects'])
    return None


def labels(case, o):
    nodes = joined(case)
    if overlapping(nodes):
        return ['overlapping, not judged']
    if 'error' in o:
        return ['crossing', 'nontrivial']
    l = case['lines']
    d = [a[-1] == b[0] for a, b in zip(l, l[1:])]
    ret = ['direct'] * any(d) + ['connected'] * (not all(d))
    if len(set(d)) == 2:
        ret.append('nontrivial')
    return ret
