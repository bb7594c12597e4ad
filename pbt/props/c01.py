# -*- coding: utf-8 -*-
"""Points as values"""
import math

RULE = ('pairs of points (integers, decimals, coordinates with more than 8 decimals, nearby and far apart) and a history '
        'of coordinate changes, including emptying and non-points; non-trivial: the history has a change of validity or '
        'the two points are closer than 1e-3')
CASES = {'quick': 6000, 'thorough': 200000}
TOL = 1e-5


def strategy():
    from hypothesis import strategies as st
    coord = st.one_of(st.integers(-1000, 1000), st.integers(-10 ** 6, 10 ** 6).map(lambda k: k / 1000.),
                      st.integers(-10 ** 13, 10 ** 13).map(lambda k: k / 1e10), st.integers(-3, 3).map(float),
                      st.floats(-1e6, 1e6, allow_nan=False))
    point = st.tuples(coord, coord)
    # far from the tolerance of the equality
    delta = st.one_of(st.just(0.), st.sampled_from([1e-7, -3e-6, 4e-6, 7.5e-6, -7.5e-6, 1.4e-5, 3e-5, -1e-4, 1., -2.5]))
    bad = st.sampled_from([[], [1], [1, 2, 3], ['a', 'b'], [1, 'b'], [None, None], [None, 2], [3, None], ['x', 1.5],
                           [1, 2, 3, 4], [0.], [[1, 2], [3, 4]]])
    op = st.one_of(point.map(lambda p: ['set', list(p)]), st.just(['empty', None]), bad.map(lambda b: ['set', b]))
    return st.fixed_dictionaries({
        'p': point, 'd': st.tuples(delta, delta), 'ops': st.lists(op, max_size=5), 'bad': bad, 'kind': st.booleans()})


def run(case):
    from geometry.SR_point import Point, IntexPoint, distance
    x, y = case['p']
    q = (x + case['d'][0], y + case['d'][1])

    def state(pt):
        valid = pt.isvalid
        ret = {'valid': valid, 'empty': bool(pt._isempty()), 'self': pt == pt, 'nself': pt != pt}
        if valid:
            ret['xy'] = [pt.x, pt.y, list(pt.xy), type(pt.x).__name__, type(pt.y).__name__]
            other = Point(pt.xy)
            ret['twin'] = [pt == other, other == pt, pt != other, hash(pt) == hash(other), len({pt, other})]
            ret['bb'] = pt.bounding_box()
        ret['base'] = [pt == base, base == pt]
        return ret

    base = Point((x, y))
    other = Point(tuple(q))
    o = {'a': [base.x, base.y], 'b': [other.x, other.y]}
    o['eq'] = [base == other, other == base, base != other, other != base]
    s, d = base + other, base - other
    o['sum'], o['diff'] = [s.x, s.y, type(s).__name__], [d.x, d.y]
    o['unchanged'] = [base.x, base.y, other.x, other.y]
    o['dist'] = [distance(base, other), distance(other, base), base.distance(other), distance(base, base)]
    o['intex'] = [base == IntexPoint((x, y)), IntexPoint((x, y)) == base, IntexPoint((x, y)) == IntexPoint((x, y))]
    o['foreign'] = [base == (base.x, base.y), base == 1, base == None, base != None, base == 'p']   # noqa
    o['repr'] = eval(repr(base)) == base
    b = Point(tuple(case['bad']))
    o['bad'] = [b.isvalid, b == b, b == base, base == b, b != base, Point().isvalid, Point() == Point()]
    pt = Point((x, y)) if case['kind'] else Point()
    o['hist'] = [state(pt)]
    for op, arg in case['ops']:
        if op == 'empty':
            pt._empty()
        else:
            pt._set_coords(coords=tuple(arg))
        o['hist'].append(state(pt))
    return o


def check(case, o):
    def rounded(p):
        return [round(float(c), 8) for c in p]

    a = rounded(case['p'])
    if o['a'] != a:
        return 'coordinates of %r: %r' % (case['p'], o['a'])
    b = rounded([case['p'][0] + case['d'][0], case['p'][1] + case['d'][1]])
    if o['b'] != b:
        return 'coordinates %r instead of %r' % (o['b'], b)
    diff = max(abs(a[0] - b[0]), abs(a[1] - b[1]))
    eq = diff < TOL
    if not .8 * TOL < diff < 1.2 * TOL and o['eq'] != [eq, eq, not eq, not eq]:
        return 'equality of %r and %r: %r' % (a, b, o['eq'])
    if [o['sum'][0], o['sum'][1]] != rounded([a[0] + b[0], a[1] + b[1]]) or o['sum'][2] != 'Point':
        return 'sum of %r and %r: %r' % (a, b, o['sum'])
    if o['diff'] != rounded([a[0] - b[0], a[1] - b[1]]):
        return 'difference of %r and %r: %r' % (a, b, o['diff'])
    if o['unchanged'] != a + b:
        return 'operands changed by arithmetic: %r' % (o['unchanged'],)
    d = math.hypot(a[0] - b[0], a[1] - b[1])
    if any(abs(x - d) > 1e-9 * max(1., d) for x in o['dist'][:3]) or o['dist'][3] != 0:
        return 'distance of %r and %r: %r' % (a, b, o['dist'])
    if o['intex'] != [False, False, True]:
        return 'equality must depend on the type: %r' % (o['intex'],)
    if o['foreign'] != [False, False, False, True, False]:
        return 'a point compared to something else: %r' % (o['foreign'],)
    if o['repr'] is not True:
        return 'repr does not give the point back'
    if o['bad'] != [False, False, False, False, True, False, False]:
        return 'Point(%r) validity, equality: %r' % (tuple(case['bad']), o['bad'])
    want = tuple(case['p']) if case['kind'] else None
    for i, s in enumerate(o['hist']):
        if i:
            op, arg = case['ops'][i - 1]
            want = None if op == 'empty' or not good(arg) else arg
        if s['valid'] is not (want is not None):
            return 'validity %r after step %d, expected coordinates %r' % (s['valid'], i, want)
        if s['self'] is not (want is not None) or s['nself'] is not (want is None):
            return 'equality with itself is %r after step %d' % (s['self'], i)
        if want is None:
            if s['base'] != [False, False]:
                return 'an invalid point is equal to something after step %d' % i
            continue
        w = rounded(want)
        if s['empty']:
            return 'a valid point is empty after step %d' % i
        if s['xy'] != [w[0], w[1], w, 'float', 'float'] or s['bb'] != [[w[0], w[0]], [w[1], w[1]]]:
            return 'coordinates %r, bounding box %r instead of %r after step %d' % (s['xy'], s['bb'], w, i)
        if s['twin'] != [True, True, False, True, 1]:
            return 'equality and hash with the same coordinates after step %d: %r' % (i, s['twin'])
        diff = max(abs(w[0] - a[0]), abs(w[1] - a[1]))
        if not .8 * TOL < diff < 1.2 * TOL and s['base'] != [diff < TOL] * 2:
            return 'equality of %r and %r after step %d: %r' % (w, a, i, s['base'])
    return None


def good(arg):
    return len(arg) == 2 and all(isinstance(c, (int, float)) for c in arg)


def labels(case, o):
    ret = []
    v = [s['valid'] for s in o['hist']]
    if len(set(v)) > 1:
        ret += ['validity changes', 'nontrivial']
    if 0 < max(abs(d) for d in case['d']) < 1e-3:
        ret += ['close', 'nontrivial']
    if max(abs(d) for d in case['d']) == 0:
        ret += ['equal']
    return ret
