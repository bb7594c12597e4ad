# -*- coding: utf-8 -*-
"""Shapes: lines from nodes, squares, arcs, rotation matrices"""
import math

RULE = ('arcs (any centre, radius, angles, number of segments, direction), squares and node lists; non-trivial: an arc '
        'of less than a full circle with two or more segments, or a clockwise shape')
CASES = {'quick': 3000, 'thorough': 60000}


def strategy():
    from hypothesis import strategies as st
    c = st.one_of(st.integers(-400, 400).map(lambda k: k / 4.), st.integers(-10 ** 8, 10 ** 8).map(lambda k: k / 1e6))
    pos = st.one_of(st.integers(1, 400).map(lambda k: k / 4.), st.integers(1, 400).map(lambda k: k / 4.),
                    st.integers(1, 100).map(lambda k: k / 100.), st.integers(10 ** 4, 10 ** 8).map(lambda k: k / 1e6), st.integers(100, 4000).map(float))
    angle = st.one_of(st.integers(0, 359), st.integers(0, 3599).map(lambda k: k / 10.),
                      st.integers(0, 359 * 10 ** 4).map(lambda k: k / 1e4))

    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(['arc', 'arc', 'square', 'nodes', 'matrix']))
        d = {'kind': kind, 'cw': draw(st.booleans())}
        if kind == 'arc':
            if draw(st.integers(0, 3)) == 0:
                a0, a1 = 0, 360
            else:
                a0 = draw(angle)
                a1 = draw(st.one_of(st.integers(int(a0) + 1, 360), st.sampled_from([a0 + .5, a0 + 33.3, 360])))
                a1 = min(a1, 360)
                if a1 - a0 < .05:
                    a1 = a0 + .5
                if 0 < 360 - a1 + a0 < .05:
                    a0 += .05
            d.update(P=[draw(c), draw(c)], point=draw(st.sampled_from(['point', 'tuple', 'list'])), r=draw(pos),
                     a=[a0, a1], n=draw(st.one_of(st.integers(1, 24), st.integers(1, 24), st.integers(25, 120))))
            if d['r'] * math.radians(a1 - a0) < 1e-3:
                d['r'] += 1.
            while d['n'] > 1 and d['r'] * math.radians(a1 - a0) / d['n'] < 1e-3:
                d['n'] //= 2        # no equal points

            if a1 - a0 == 360:
                d['n'] = max(3, d['n'])
            elif d['r'] * math.radians(360 - a1 + a0) < 1e-3:
                d['r'] = 100.       # the ends are not equal
        elif kind == 'square':
            d.update(a=draw(pos), x=draw(c), y=draw(c))
        elif kind == 'nodes':
            nodes = draw(st.lists(st.tuples(c, c), min_size=2, max_size=draw(st.sampled_from([4, 8, 40]))))
            d['nodes'] = nodes
        else:
            d['phi'] = draw(st.one_of(st.integers(-7200, 7200).map(lambda k: k / 10.),
                                      st.integers(-10 ** 7, 10 ** 7).map(lambda k: k / 1e4)))
        return d
    return cases()


def run(case):
    from pbt.api import P, segs
    from geometry.SR_polygon import arc, square, polygon_from_nodes, rotationsmatrix
    if case['kind'] == 'matrix':
        return {'m': rotationsmatrix(case['phi'])}
    if case['kind'] == 'arc':
        c = P(case['P']) if case['point'] == 'point' else tuple(case['P']) if case['point'] == 'tuple' else case['P']
        pl = arc(P=c, r=case['r'], alpha_start=case['a'][0], alpha_end=case['a'][1], n=case['n'], cw=case['cw'])
        o = {'center': list(c.xy) if case['point'] == 'point' else list(c)}
    elif case['kind'] == 'square':
        pl = square(a=case['a'], x0=case['x'], y0=case['y'], cw=case['cw'])
        o = {'area': pl.area, 'valid': pl.isvalid, 'cw': pl.iscw}
    else:
        nodes = [tuple(p) for p in case['nodes']]
        pl = polygon_from_nodes(nodes, cw=case['cw'])
        o = {'same': nodes == [tuple(p) for p in case['nodes']]}
    o.update(segs=segs(pl), closed=pl.isclosed, cont=pl.iscontinuous,
             shared=all(x.j is y.i for x, y in zip(pl.segments, pl.segments[1:])))
    return o


def check(case, o):
    def near(p, q, tol=1e-7):
        return max(abs(p[0] - q[0]), abs(p[1] - q[1])) <= tol

    kind = case['kind']
    if kind == 'matrix':
        c, s = math.cos(math.radians(case['phi'])), math.sin(math.radians(case['phi']))
        if not all(near(x, y, 1e-9) for x, y in zip(o['m'], [[c, s], [-s, c]])):
            return 'rotation by %r: %r' % (case['phi'], o['m'])
        return None
    if kind == 'arc':
        n, (a0, a1) = case['n'], case['a']
        if o['center'] != case['P']:
            return 'the centre was changed'
        al = [a0 + (a1 - a0) * k / float(n) for k in range(n + 1)]
        want = [[case['P'][0] + case['r'] * math.cos(math.radians(t)),
                 case['P'][1] + case['r'] * math.sin(math.radians(t))] for t in al]
        if case['cw']:
            want = want[::-1]
        closed = a1 - a0 == 360
    elif kind == 'square':
        a, x, y = case['a'], case['x'], case['y']
        want = [[x, y], [x + a / 2., y], [x + a / 2., y + a], [x - a / 2., y + a], [x - a / 2., y]]
        if case['cw']:
            want = want[:1] + want[1:][::-1]
        want.append(want[0])
        closed = True
        if abs(o['area'] - a * a) > 2e-6 + 1e-9 * a * a + 1e-7 * a or o['valid'] is not True or o['cw'] is not case['cw']:
            return 'square: area %r, valid %r, cw %r' % (o['area'], o['valid'], o['cw'])
    else:
        want = case['nodes']
        if case['cw']:
            want = want[:1] + want[1:][::-1]
        closed = None
        if not o['same']:
            return 'the list of nodes was changed'
    got = o['segs']
    if len(got) != len(want) - 1:
        return '%d segments instead of %d' % (len(got), len(want) - 1)
    for k, (i, j) in enumerate(got):
        if not near(i, want[k], 2e-7) or not near(j, want[k + 1], 2e-7):
            return 'segment %d: %r instead of %r' % (k, [i, j], want[k:k + 2])
    if closed is not None and (o['closed'] is not closed or o['cont'] is not True):
        return 'closed %r, continuous %r' % (o['closed'], o['cont'])
    if not o['shared']:
        return 'neighbouring segments do not share their point'
    return None


def labels(case, o):
    ret = [case['kind']]
    if case['kind'] == 'arc':
        full = case['a'] == [0, 360]
        ret.append('full circle' if full else 'arc of a circle')
        if not full and case['n'] > 1:
            ret.append('nontrivial')
    if case['cw'] and case['kind'] != 'matrix':
        ret += ['nontrivial', 'cw']
    return ret
