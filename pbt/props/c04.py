# -*- coding: utf-8 -*-
"""How two segments and their lines lie: touching, continuous, parallel, collinear, intersecting"""
RULE = ('two segments between grid points (scaled, moved), built to share an endpoint, to be collinear or parallel, to '
        'have an endpoint on the other segment, or free; non-trivial: they are parallel or have a point in common')
CASES = {'quick': 6000, 'thorough': 200000}
EXAMPLES = [
    # endpoints are not exactly representable, on one line
    {'a': [[0, 0], [7, 3]], 'b': [[14, 6], [21, 9]], 's': .1, 'off': [0, 0]},
]


def pair_strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        how = draw(st.sampled_from(['free', 'free', 'shared', 'collinear', 'collinear', 'parallel', 'tee', 'cross', 'same',
                                    'narrow', 'gap']))
        pt = gen.small_grid_point()
        a, b, c, d = draw(pt), draw(pt), draw(pt), draw(pt)
        if a == b:
            b = (a[0] + draw(st.integers(1, 5)), a[1] + draw(st.integers(-5, 5)))
        if how == 'shared':
            c = draw(st.sampled_from([a, b]))
        elif how == 'collinear':
            v = draw(st.sampled_from([(1, 0), (0, 1), (1, 1), (-1, 1), (2, 1), (-1, 3), (3, 2), (1, -2)]))
            ks = draw(st.lists(st.integers(-4, 4), min_size=4, max_size=4))
            if ks[0] == ks[1]:
                ks[1] += 1
            if ks[2] == ks[3]:
                ks[3] += 1
            a, b, c, d = [(a[0] + k * v[0], a[1] + k * v[1]) for k in ks]
        elif how == 'parallel':
            k = draw(st.sampled_from([-2, -1, 1, 2]))
            d = (c[0] + k * (b[0] - a[0]), c[1] + k * (b[1] - a[1]))
        elif how == 'tee':       # c on a-b
            n = draw(st.integers(2, 4))
            k = draw(st.integers(1, n - 1))
            b = (a[0] + n * (b[0] - a[0]), a[1] + n * (b[1] - a[1]))
            c = (a[0] + k * (b[0] - a[0]) // n, a[1] + k * (b[1] - a[1]) // n)
        elif how == 'cross':     # around a point of a-b
            n = draw(st.integers(2, 4))
            k = draw(st.integers(0, n))
            b = (a[0] + n * (b[0] - a[0]), a[1] + n * (b[1] - a[1]))
            m = (a[0] + k * (b[0] - a[0]) // n, a[1] + k * (b[1] - a[1]) // n)
            v = draw(pt)
            c, d = (m[0] + v[0], m[1] + v[1]), (m[0] - v[0], m[1] - v[1])
        elif how == 'same':
            c, d = draw(st.sampled_from([(a, b), (b, a)]))
        elif how == 'narrow':    # nearly the same direction
            g = draw(st.sampled_from([(1, 0), (0, 1), (1, 1), (-1, 2), (3, 1)]))
            u = st.integers(-2, 2)
            ks = draw(st.lists(st.integers(50, 600), min_size=2, max_size=2))
            b, e = [(a[0] + k * g[0] + draw(u), a[1] + k * g[1] + draw(u)) for k in ks]
            c = draw(st.sampled_from([a, a, c, (b[0], b[1] + 1)]))
            d = (c[0] + e[0] - a[0], c[1] + e[1] - a[1])
        elif how == 'gap':       # long ones that end near each other
            g, h = draw(st.permutations([(1, 0), (0, 1), (1, 1), (-1, 2), (3, 1)]))[:2]
            if draw(st.booleans()):
                h = g
            m, n = draw(st.lists(st.integers(5000, 15000), min_size=2, max_size=2))
            t = draw(st.sampled_from([g, h, (0, 1), (1, 0), (-1, -1), (0, 0)]))
            b = (a[0] + m * g[0], a[1] + m * g[1])
            c = (b[0] + t[0], b[1] + t[1])
            d = (c[0] + n * h[0], c[1] + n * h[1])
        if c == d:
            d = (c[0] + draw(st.integers(-5, 5)), c[1] + draw(st.integers(1, 5)))
        big = max(abs(x) for p in (a, b, c, d) for x in p) > 60
        s = draw(st.sampled_from([.02] if how == 'gap' else [1., .5] if how == 'narrow' else
                                 [1., .5, 100.] if big else gen.SCALES))
        off = [0, 0] if draw(st.booleans()) else [draw(st.integers(-200, 200)), draw(st.integers(-200, 200))]
        ab, cd = [list(a), list(b)], [list(c), list(d)]
        if draw(st.booleans()):
            ab = ab[::-1]
        if draw(st.booleans()):
            cd = cd[::-1]
        if draw(st.booleans()):
            ab, cd = cd, ab
        return {'a': ab, 'b': cd, 's': s, 'off': off}
    return cases()


strategy = pair_strategy


def place(seg, case):
    return [[(p[k] + case['off'][k]) * case['s'] for k in (0, 1)] for p in seg]


def run(case):
    from pbt.api import S, xy, seg
    from geometry.SR_polygon import intersecting_lines
    a, b = S(place(case['a'], case)), S(place(case['b'], case))
    o = []
    for x, y in ((a, b), (b, a)):
        o.append({'touch': x.touch(y), 'cont': x.continuous(y), 'par': x.is_parallel(y), 'isx': x.is_intersecting(y),
                  'col': x.is_collinear(y), 'ip': xy(x.intersection_point(y)), 'onend': x.intersection_on_endpoint(y),
                  'onseg': x.intersection_on_segment(y), 'lines': len(intersecting_lines([x, y]))})
    return {'o': o, 'a': seg(a), 'b': seg(b)}


def model(case):
    from pbt import geo
    a, b = [tuple(p) for p in case['a']], [tuple(p) for p in case['b']]
    ip = geo.line_intersection(a[0], a[1], b[0], b[1])
    shared = set(a) & set(b)
    m = {'shared': len(shared), 'par': ip is None, 'isx': ip is not None,
         'col': ip is None and geo.orient(a[0], a[1], b[0]) == 0, 'ip': ip}
    if len(shared) < 2:
        m['touch'] = len(shared) == 1
        m['cont'] = len(shared) == 1 and (a[1] == b[0] or a[0] == b[1])
    m['onend'] = ip is not None and ip in a + b
    m['onseg'] = ip is not None and not shared and geo.in_box(ip, *a) and geo.in_box(ip, *b)
    return m


def check(case, o):
    m = model(case)
    for i, x in enumerate(o['o']):
        for k in ('touch', 'cont', 'par', 'isx', 'col', 'onend', 'onseg'):
            if k in m and x[k] is not m[k]:
                return '%s is %r, should be %r (operand order %d)' % (k, x[k], m[k], i)
        if x['lines'] != int(m['onseg']):
            return 'intersecting_lines found %d pairs' % x['lines']
        if (x['ip'] is None) is not (m['ip'] is None):
            return 'intersection point %r, should be %r' % (x['ip'], m['ip'])
        if m['ip'] is not None:
            w = [float((m['ip'][k] + case['off'][k])) * case['s'] for k in (0, 1)]
            if max(abs(w[k] - x['ip'][k]) for k in (0, 1)) > 1e-6 * max(1, abs(w[0]), abs(w[1])):
                return 'intersection point %r instead of %r' % (x['ip'], w)
    want = [[[round(c, 8) for c in p] for p in place(s, case)] for s in (case['a'], case['b'])]
    if [o['a'], o['b']] != want:
        return 'the segments were changed'
    return None


def labels(case, o):
    m = model(case)
    ret = [k for k in ('par', 'col', 'onend', 'onseg', 'touch', 'cont') if m.get(k)]
    if m['par'] or m['onseg'] or m['shared']:
        ret.append('nontrivial')
    return ret + ['shared endpoints %d' % m['shared']]
