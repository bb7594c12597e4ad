# -*- coding: utf-8 -*-
"""The marker points of the parts lie on the side they stand for"""
RULE = ('Mantel (cylinder or cone), StandZarge, heads, Flachboden, RaumEnde with dimensions from 0.1 to 50000 anywhere, '
        'shells also cut at up to 3 levels; non-trivial: not at the origin')
CASES = {'quick': 480, 'thorough': 10000}


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        c = draw(st.sampled_from(['Mantel', 'Mantel', 'StandZarge', 'Klopperboden', 'Korbbogenboden', 'Flachboden',
                                  'RaumEnde']))
        s = draw(st.sampled_from([1., 1.03571, 100., 1000.]))
        q = st.one_of(st.integers(20, 100), st.integers(20, 100), st.integers(2, 20), st.integers(100, 1000))\
            .map(lambda x: round(x * s / 20., 6))
        pos = st.integers(-160, 160).map(lambda x: round(x * s / 20., 6))
        k = {'name': 'p', 'pos_v': draw(pos), 'pos_h': draw(pos), 'd': draw(q)}
        cuts = []
        if c in ('Mantel', 'StandZarge'):
            k['d'] = [k['d'], k['d'] if draw(st.booleans()) else draw(q)]
            k['h'] = draw(q)
            cuts = draw(st.sampled_from([[], [], [.5], [.25], [.6, .3], [.2, .7, .5]]))
        elif c in ('Klopperboden', 'Korbbogenboden'):
            k['h1'] = round(.1 * s, 6)
            k['orient'] = draw(st.sampled_from([1, -1]))
        if draw(st.booleans()):         # where a wall or a level has the coordinate 0
            d = draw(st.sampled_from(k['d'])) if isinstance(k['d'], list) else k['d']
            k['pos_h'] = round(draw(st.sampled_from([0., .5, -.5])) * d, 6)
            k['pos_v'] = draw(st.sampled_from([k['pos_v'], 0., -k.get('h', 0.)]))
        return {'class': c, 'args': k, 'cuts': cuts}
    return cases()


def run(case):
    import SR_Vessel.SR_hauptteile as H
    from pbt.api import seg, xy
    k = dict(case['args'])
    if isinstance(k['d'], list):
        k['d'] = tuple(k['d'])
    p = getattr(H, case['class'])(**k)
    cut = [p.split(v=k['pos_v'] + f * k['h']) for f in case['cuts']]
    g = p.graph
    o = {'cut': cut, 'graph': [seg(s) for s in g.segments]}
    for name in ('internal', 'external', 'indifferent'):
        o[name] = [[xy(x), seg(x.segment)] for x in getattr(g, name)]
    o['made'] = []
    for s, v in p.intex_points.items():
        for name in v:
            o['made'] += [[name, seg(s), xy(x)] for x in v[name]]
    return o


def check(case, o):
    c, k = case['class'], case['args']
    h, v, d = k['pos_h'], k['pos_v'], k['d']
    if not all(o['cut']):
        return 'not cut: %r' % o['cut']
    made = sorted([name, s, p] for name in ('internal', 'external', 'indifferent') for p, s in o[name])
    if made != sorted(o['made']):
        return 'the points of the graph are not those of the part'
    for name in ('internal', 'external', 'indifferent'):
        for p, s in o[name]:
            if s not in o['graph']:
                return 'a point of the segment %r that is not in the graph' % (s,)
    if c == 'RaumEnde':
        return 'a RaumEnde has marker points' if made else None
    if c == 'Flachboden':
        if o['internal'] or o['external']:
            return 'a Flachboden has inner or outer points'
        ps = [p for p, _ in o['indifferent']]
        if not (any(p[1] > v for p in ps) and any(p[1] < v for p in ps)):
            return 'indifferent points not on both sides: %r' % ps
        if any(abs(p[1] - v) > .1 * d or p[1] == v or abs(p[0] - h) >= d / 2. for p in ps):
            return 'indifferent points %r' % ps
        return None
    if o['indifferent']:
        return 'indifferent points: %r' % o['indifferent']
    sides = o['graph'] if c != 'StandZarge' else [s for s in o['graph'] if s[0][1] != s[1][1]]
    want = 2 if 'boden' in c else 2 * (len(case['cuts']) + 1)
    if len(sides) != want:
        return '%d segments instead of %d' % (len(sides), want)
    for s in sides:
        inn = [p for p, z in o['internal'] if z == s]
        out = [p for p, z in o['external'] if z == s]
        if not inn or not out:
            return 'no points for %r' % (s,)
        lo, hi = sorted([s[0][1], s[1][1]])
        for p, inside in [(p, True) for p in inn] + [(p, False) for p in out]:
            if 'boden' in c:
                orient = k['orient']
                apex = max((q for q in s), key=lambda q: abs(q[1] - v))
                base = min((q for q in s), key=lambda q: abs(q[1] - v))
                if (p[0] - h) * (base[0] - h) <= 0 or abs(p[0] - h) >= d / 2.:
                    return 'the point %r is not beside %r' % (p, s)
                y = abs(apex[1] - v) * (1 - abs(p[0] - h) / (d / 2.))     # the graph above the point
                z = (p[1] - v) * orient
                if inside and not 0 < z < y - 1e-6 or not inside and not y + 1e-6 < z < 2 * y:
                    return 'the %s point %r of %r is on the wrong side' % ('inner' if inside else 'outer', p, s)
            else:
                t = (p[1] - v) / k['h']
                half = (d[0] + (d[1] - d[0]) * t) / 2.
                if not lo < p[1] < hi:
                    return 'the point %r is not beside %r' % (p, s)
                if (p[0] - h) * (s[0][0] - h) <= 0:
                    return 'the point %r is on the other side of the axis' % (p,)
                x = abs(p[0] - h)
                near = .01 * half * (1 + ((d[1] - d[0]) / 2. / k['h']) ** 2) ** .5
                if inside and not half - near <= x < half - 1e-7 or \
                        not inside and not half + 1e-7 < x <= half + near:
                    return 'the %s point %r of %r is on the wrong side' % ('inner' if inside else 'outer', p, s)
    return None


def labels(case, o):
    ret = [case['class'], '%d cuts' % len(case['cuts'])]
    if case['args']['pos_h'] or case['args']['pos_v']:
        ret.append('nontrivial')
    return ret
