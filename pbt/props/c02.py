# -*- coding: utf-8 -*-
"""Lengths, directions, angles, products, bounding boxes of segments; reversing, moving, mirroring them"""
import math

RULE = ('two segments and a point with coordinates from a grid (scaled, so decimals too) or arbitrary ones, in all '
        'directions, parallel and opposite ones constructed; non-trivial: none of the segments is null and the first '
        'one is neither horizontal nor vertical')
CASES = {'quick': 5000, 'thorough': 150000}


def strategy():
    from hypothesis import strategies as st
    from pbt import gen
    wild = st.integers(-10 ** 12, 10 ** 12).map(lambda k: k / 1e8)

    @st.composite
    def cases(draw):
        if draw(st.booleans()):
            s = draw(st.sampled_from(gen.SCALES))
            pts = [gen.scaled(draw(gen.small_grid_point()), s) for _ in range(5)]
        else:
            pts = [[draw(wild), draw(wild)] for _ in range(5)]
        a, b = [pts[0], pts[1]], [pts[2], pts[3]]
        how = draw(st.sampled_from(['free', 'free', 'parallel', 'opposite', 'null']))
        if how in ('parallel', 'opposite'):
            k = draw(st.sampled_from([1, 2, 3, 7])) * (1 if how == 'parallel' else -1)
            b = [b[0], [b[0][0] + k * (a[1][0] - a[0][0]), b[0][1] + k * (a[1][1] - a[0][1])]]
        if how == 'null':
            a = [a[0], list(a[0])]
        return {'a': a, 'b': b, 'p': pts[4], 'move': [draw(st.integers(-50, 50)), draw(st.integers(-50, 50)) / 4.],
                'x0': draw(st.integers(-50, 50)) / 2.}
    return cases()


def values(s):
    """everything that is derived from the ends"""
    return [s.norm, list(s.as_vector), s.delta_x, s.delta_y, list(s.unitvector), s.direction, s.bounding_box, s.isnull(),
            hash(s), hash(s.line_reversed), [[p.x, p.y] for p in s.ij], [[p.x, p.y] for p in s.line_reversed.ij],
            s.crossproduct(s.line_reversed), s.dotproduct(s), repr(s), list(s.midpoint)]


def fresh(s):
    """values of a new segment between the same coordinates"""
    from pbt.api import S
    return values(S([[s.i.x, s.i.y], [s.j.x, s.j.y]]))


def run(case):
    from pbt.api import S, P, xy, seg
    from geometry.SR_line import LineSegment
    a, b, p = S(case['a']), S(case['b']), P(case['p'])
    o = {'a': seg(a), 'b': seg(b), 'p': xy(p)}
    o['null'] = [a.isnull(), b.isnull()]
    o['valid'] = [a.isvalid, LineSegment().isvalid, LineSegment(P(case['p']), a.__class__().i).isvalid]
    o['norm'] = a.norm
    o['vec'] = [list(a.as_vector), a.delta_x, a.delta_y]
    o['unit'] = list(a.unitvector)
    o['dir'] = a.direction
    o['cross'], o['dot'] = [a.crossproduct(b), b.crossproduct(a)], [a.dotproduct(b), b.dotproduct(a)]
    o['bb'] = a.bounding_box
    if not a.isnull() and not b.isnull():
        o['angle'] = [a.angle_between_lines(b), b.angle_between_lines(a), a.angle_between_lines(a),
                      a.angle_between_lines(a.line_reversed)]
        o['opposite'] = [a.opposite_direction(b), b.opposite_direction(a), a.opposite_direction(a.line_reversed),
                         a.opposite_direction(a)]
        if not p == a.i:
            o['afs'] = a.angle_from_start_point(p)
    c = S([case['a'][0], case['b'][1]])
    o['common'] = a.crossproduct_commonstart(c), c.crossproduct_commonstart(a)
    try:
        o['other start'] = a.crossproduct_commonstart(b)
    except Exception as e:
        o['other start'] = type(e).__name__
    r = a.line_reversed
    o['rev'] = [seg(r), a == r, a.loose_equal(r), r.loose_equal(a), r.norm, type(r).__name__, a == a, r != a]
    o['ab'] = [a == b, b == a, a != b, a.loose_equal(b), b.loose_equal(a)]
    c = S(case['a'])
    values(c)
    stale = []
    c.reverse()
    stale.append(values(c) == fresh(c))
    o['reverse'] = [seg(c), c == r]
    c.reverse()
    stale.append(values(c) == fresh(c))
    o['twice'] = seg(c)
    o['hash'] = hash(c) == hash(a)
    c.move(x0=case['move'][0], y0=case['move'][1])
    stale.append(values(c) == fresh(c))
    o['moved'] = [seg(c), c.norm, list(c.as_vector)]
    c.mirror_vertical(x0=case['x0'])
    stale.append(values(c) == fresh(c))
    o['mirrored'] = [seg(c), c.norm]
    c.i._set_coords(coords=(c.j.y, c.i.y))
    stale.append(values(c) == fresh(c))
    o['current'] = stale
    o['untouched'] = [seg(a), seg(b), xy(p)]
    return o


def near(x, y, tol=1e-7):
    return abs(x - y) <= tol * max(1., abs(x), abs(y))


def check(case, o):
    def rd(s):
        return [[round(float(c), 8) for c in p] for p in s]

    a, b, p = o['a'], o['b'], o['p']
    if a != rd(case['a']) or b != rd(case['b']) or o['untouched'] != [a, b, p]:
        return 'endpoints: %r' % ([a, b, o['untouched']],)
    va, vb = [a[1][0] - a[0][0], a[1][1] - a[0][1]], [b[1][0] - b[0][0], b[1][1] - b[0][1]]
    na, nb = math.hypot(*va), math.hypot(*vb)

    def is_null(v):
        return abs(v[0]) < 1e-5 and abs(v[1]) < 1e-5

    for v, got in zip((va, vb), o['null']):
        if not 5e-6 < max(abs(v[0]), abs(v[1])) < 2e-5 and got is not is_null(v):
            return 'isnull is %r' % got
    if o['valid'] != [True, False, False]:
        return 'validity: %r' % (o['valid'],)
    if not near(o['norm'], na):
        return 'length %r instead of %r' % (o['norm'], na)
    if not all(near(x, y) for x, y in zip(o['vec'][0] + o['vec'][1:], va + va)):
        return 'vector %r instead of %r' % (o['vec'], va)
    if o['null'][0]:
        if o['unit'] != [0, 0]:
            return 'unit vector of a null segment: %r' % (o['unit'],)
    else:
        if not all(near(x * na, y) for x, y in zip(o['unit'], va)):
            return 'unit vector %r for %r' % (o['unit'], va)
        d = math.degrees(math.atan2(va[1], va[0])) % 360
        if not 0 <= o['dir'] <= 360 or min(abs(o['dir'] - d), 360 - abs(o['dir'] - d)) > 1e-6 or \
                (o['dir'] == 360 and va[1] == 0):
            return 'direction %r instead of %r' % (o['dir'], d)
    cr, dt = va[0] * vb[1] - va[1] * vb[0], va[0] * vb[0] + va[1] * vb[1]
    tol = 1e-9 * max(1., na * nb)
    if abs(o['cross'][0] - cr) > tol or abs(o['cross'][1] + cr) > tol:
        return 'cross product %r instead of %r' % (o['cross'], cr)
    if abs(o['dot'][0] - dt) > tol or abs(o['dot'][1] - dt) > tol:
        return 'dot product %r instead of %r' % (o['dot'], dt)
    vc = [b[1][0] - a[0][0], b[1][1] - a[0][1]]
    w = va[0] * vc[1] - va[1] * vc[0]
    if any(abs(x - y) > 1e-9 * max(1., na * math.hypot(*vc)) for x, y in zip(o['common'], (w, -w))):
        return 'cross product from a common start %r instead of %r' % (o['common'], w)
    if max(abs(a[0][0] - b[0][0]), abs(a[0][1] - b[0][1])) > 2e-5 and not isinstance(o['other start'], str):
        return 'cross product from a common start without one: %r' % o['other start']
    bb = [[min(a[0][k], a[1][k]), max(a[0][k], a[1][k])] for k in (0, 1)]
    if o['bb'] != bb:
        return 'bounding box %r instead of %r' % (o['bb'], bb)
    if 'angle' in o and na > 1e-3 and nb > 1e-3:
        ang = math.degrees(math.atan2(abs(cr), dt))
        if not all(near(x, ang, 2e-6) for x in o['angle'][:2]) or not near(o['angle'][2], 0, 2e-6) or \
                not near(o['angle'][3], 180, 2e-6):
            return 'angle %r instead of %r' % (o['angle'], ang)
        rel = abs(cr) / (na * nb)
        if not 2e-9 < rel < 1e-7 and not (rel <= 2e-9 and abs(cr) > 0 and rel > 5e-10):
            opp = dt < 0 and rel < 1e-8
            if o['opposite'][:2] != [opp, opp]:
                return 'opposite direction %r, should be %r' % (o['opposite'], opp)
        if o['opposite'][2:] != [True, False]:
            return 'opposite direction to its reverse, itself: %r' % (o['opposite'][2:],)
        if 'afs' in o:
            vp = [p[0] - a[0][0], p[1] - a[0][1]]
            if math.hypot(*vp) > 1e-3:
                ang = math.degrees(math.atan2(abs(va[0] * vp[1] - va[1] * vp[0]), va[0] * vp[0] + va[1] * vp[1]))
                if not near(o['afs'], ang, 2e-6):
                    return 'angle from the start point %r instead of %r' % (o['afs'], ang)
    if o['rev'][0] != [a[1], a[0]] or not near(o['rev'][4], na) or o['rev'][5] != 'LineSegment' or \
            o['rev'][6] is not True:
        return 'reversed: %r' % (o['rev'],)
    if max(abs(va[0]), abs(va[1])) > 2e-5 and (o['rev'][1] is not False or o['rev'][7] is not True):
        return 'a segment is equal to its reverse'
    if o['rev'][2:4] != [True, True]:
        return 'a segment is not loosely equal to its reverse'

    def far(u, v):
        return max(abs(u[0] - v[0]), abs(u[1] - v[1])) > 2e-5

    same = a == b
    if same and o['ab'] != [True, True, False, True, True]:
        return 'equality of equal segments: %r' % (o['ab'],)
    if (far(a[0], b[0]) or far(a[1], b[1])) and o['ab'][:3] != [False, False, True]:
        return 'equality of different segments: %r' % (o['ab'],)
    if (far(a[0], b[0]) or far(a[1], b[1])) and (far(a[0], b[1]) or far(a[1], b[0])) and o['ab'][3:] != [False, False]:
        return 'loose equality of different segments: %r' % (o['ab'],)
    if o['reverse'] != [[a[1], a[0]], True] or o['twice'] != a or o['hash'] is not True:
        return 'reverse: %r %r' % (o['reverse'], o['twice'])
    mv = case['move']
    m = [[q[0] + mv[0], q[1] + mv[1]] for q in a]
    if not all(near(x, y, 1e-9) or abs(x - y) < 2e-8 for u, v in zip(m, o['moved'][0]) for x, y in zip(u, v)):
        return 'moved to %r instead of %r' % (o['moved'][0], m)
    if abs(o['moved'][1] - na) > 1e-6 or abs(o['moved'][2][0] - va[0]) > 1e-6 or abs(o['moved'][2][1] - va[1]) > 1e-6:
        return 'moving changed the length or direction'
    mi = [[2 * case['x0'] - q[0], q[1]] for q in m]
    if not all(abs(x - y) < 1e-7 for u, v in zip(mi, o['mirrored'][0]) for x, y in zip(u, v)):
        return 'mirrored to %r instead of %r' % (o['mirrored'][0], mi)
    if not all(o['current']):
        return ('values after reversing, reversing again, moving, mirroring and changing an end that are those of the '
                'segment as it is: %s' % o['current'])
    if abs(o['mirrored'][1] - na) > 1e-6:
        return 'mirroring changed the length'
    return None


def labels(case, o):
    ret = []
    if not any(o['null']) and o['vec'][1] and o['vec'][2]:
        ret.append('nontrivial')
    if o['null'][0]:
        ret.append('null')
    if 'angle' in o:
        ret.append('angle %d' % (int(o['angle'][0] / 60.) * 60))
        if o['opposite'][0]:
            ret.append('opposite')
        ret.append('quadrant %d' % int(o['dir'] // 90))
    return ret
