# -*- coding: utf-8 -*-
"""The outline of the vessel parts follows their dimensions"""
import math

RULE = ('Mantel, StandZarge, Klopperboden, Korbbogenboden, Flachboden, RaumEnde with dimensions from 0.1 to 50000, '
        'any position and orientation, from arguments or from a dict that is complete, too short or too long; '
        'non-trivial: not at the origin')
CASES = {'quick': 640, 'thorough': 12000}

KEYS = {'Mantel': ['name', 'pos_v', 'pos_h', 'd', 'h'], 'StandZarge': ['name', 'pos_v', 'pos_h', 'd', 'h'],
        'Klopperboden': ['name', 'pos_v', 'pos_h', 'd', 'h1', 'orient'],
        'Korbbogenboden': ['name', 'pos_v', 'pos_h', 'd', 'h1', 'orient'],
        'Flachboden': ['name', 'pos_v', 'pos_h', 'd'], 'RaumEnde': ['name', 'pos_v', 'pos_h', 'd']}

FLAT = [(0, 0), (.5, 0), (-.99, 0), (.99, 0), (1, 0), (-1, 0), (1.1, 0), (-1.01, 0), (0, .1), (.5, -.3), (0, 1), (2, 2)]


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        c = draw(st.sampled_from(sorted(KEYS)))
        s = draw(st.sampled_from([1., 1.03571, 100., 1000.]))
        q = st.one_of(st.integers(20, 100), st.integers(20, 100), st.integers(2, 20), st.integers(100, 1000))\
            .map(lambda x: round(x * s / 20., 6))
        pos = st.integers(-160, 160).map(lambda x: round(x * s / 20., 6))
        k = {'name': draw(st.sampled_from(['a', 'bo1', 'x y'])), 'pos_v': draw(pos), 'pos_h': draw(pos)}
        if c in ('Mantel', 'StandZarge'):
            d = draw(q)
            k['d'] = [d, d if draw(st.booleans()) else draw(q)]
            k['h'] = draw(q)
        else:
            k['d'] = draw(q)
        if 'h1' in KEYS[c]:
            k['h1'] = round(draw(st.sampled_from([.05, .1, .2, 1.])) * s, 6)
            k['orient'] = draw(st.sampled_from([1, -1]))
        if draw(st.booleans()):      # numbers as they are written in a file
            k = {a: int(b) if isinstance(b, float) and b == int(b) else b for a, b in k.items()}
        return {'class': c, 'args': k, 'missing': draw(st.sampled_from(KEYS[c])),
                'extra': draw(st.sampled_from(['foo', 'hight', 'pos_x']))}
    return cases()


def run(case):
    import SR_Vessel.SR_hauptteile as H
    from pbt.api import seg
    cls = getattr(H, case['class'])
    k = dict(case['args'])
    if isinstance(k['d'], list):
        k['d'] = tuple(k['d'])

    def form(p):
        return [[s.__class__.__name__] + seg(s) for s in p.segments]

    p = cls(**k)
    o = {'segments': form(p), 'valid': p.isvalid, 'name': p.name, 'class': p.__class__.__name__,
         'walls': [seg(s) for s in p.wall_segments], 'nonwalls': [seg(s) for s in p.nonwall_segments],
         'graph': [seg(s) for s in p.graph.segments], 'graphvalid': p.graph.isvalid,
         'line': [seg(s) for s in p.polygonline.segments]}
    if case['class'] != 'RaumEnde':
        o['size'] = p.characteristic_size
    if case['class'] == 'Flachboden':
        from pbt.api import P
        o['in'] = [p.is_internal_point(p=P([k['pos_h'] + f * k['d'] / 2., k['pos_v'] + g * k['d']])) for f, g in FLAT]
    given = dict(k)
    q = cls.from_dict(k)
    o['dict'] = [q.__class__.__name__, form(q), q.name, k == given]
    for name in ('missing', 'extra'):
        d = dict(k)
        if name == 'missing':
            del d[case['missing']]
        else:
            d[case['extra']] = 1
        try:
            cls.from_dict(d)
            o[name] = None
        except Exception as e:
            o[name] = [type(e).__name__, str(e)]
    return o


def near(a, b, tol):
    return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol


def check(case, o):
    c, k = case['class'], case['args']
    d = k['d']
    tol = 1e-6 * max(1, max(d) if isinstance(d, list) else d)
    h, v = k['pos_h'], k['pos_v']
    if o['valid'] is not True:
        return 'not valid'
    if o['name'] != k['name'] or o['class'] != c:
        return 'name or class: %r' % [o['name'], o['class']]
    if o['dict'] != [c, o['segments'], k['name'], True]:
        return 'built from a dict: %r' % o['dict'][0]
    if o['missing'] is None or case['missing'] not in o['missing'][1]:
        return 'a dict without %s: %r' % (case['missing'], o['missing'])
    if o['extra'] is None:
        return 'a dict with the unknown key %s was accepted' % case['extra']
    segs = [s[1:] for s in o['segments']]
    walls = [s[1:] for s in o['segments'] if s[0] == 'Wall']
    nonwalls = [s[1:] for s in o['segments'] if s[0] == 'NonWall']
    if walls != o['walls'] or nonwalls != o['nonwalls'] or o['line'] != segs or len(walls + nonwalls) != len(segs):
        return 'walls and non-walls: %r, %r' % (o['walls'], o['nonwalls'])
    if c in ('Flachboden', 'RaumEnde'):
        if nonwalls or len(walls) != 1 or not near(walls[0][0], [h - d / 2., v], tol) or \
                not near(walls[0][1], [h + d / 2., v], tol):
            return 'segments %r' % o['segments']
        if c == 'Flachboden' and o['in'] != [f in (0, .5, -.99, .99) and g == 0 for f, g in FLAT]:
            return 'points of the flat head: %r' % list(zip(FLAT, o['in']))
        if o['graph'] != walls:
            return 'graph %r' % o['graph']
    else:
        if any(x[1] != y[0] for x, y in zip(segs, segs[1:] + segs[:1])):
            return 'the outline is not closed: %r' % segs
        nodes = [s[0] for s in segs]
        if sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(nodes, nodes[1:] + nodes[:1])) <= 0:
            return 'the outline is not counter clockwise'
    if c in ('Mantel', 'StandZarge'):
        want = [[h + d[0] / 2., v], [h + d[1] / 2., v + k['h']], [h - d[1] / 2., v + k['h']], [h - d[0] / 2., v]]
        if len(nodes) != 4 or any(not near(a, b, tol) for a, b in zip(nodes, want)):
            return 'corners %r instead of %r' % (nodes, want)
        kinds = [s[0] for s in o['segments']]
        if kinds != ['Wall', 'NonWall', 'Wall', 'Wall' if c == 'StandZarge' else 'NonWall']:
            return 'kinds of segments: %r' % kinds
        if sorted(o['graph']) != sorted(walls):
            return 'graph %r' % o['graph']
        if abs(o['size'] - min(d) / 2.) > tol:
            return 'characteristic size %r' % o['size']
    if c in ('Klopperboden', 'Korbbogenboden'):
        msg = head(c, k, nodes, nonwalls, tol)
        if msg:
            return msg
    if c in ('Klopperboden', 'Korbbogenboden', 'Flachboden') and abs(o['size'] - d / 2.) > tol:
        return 'characteristic size %r' % o['size']
    if 'boden' in c and c != 'Flachboden':
        g = sorted([sorted(s) for s in o['graph']])
        if len(g) != 2 or not near(g[0][0], [h - d / 2., v], tol) or not near(g[1][1], [h + d / 2., v], tol) or \
                g[0][1] != g[1][0] or abs(g[0][1][0] - h) > tol or (g[0][1][1] - v) * k['orient'] <= 0:
            return 'graph %r' % o['graph']
        if abs(g[0][1][1] - v) > .2 * max(d, 1):
            return 'the graph is too high: %r' % o['graph']
    return None


def head(c, k, nodes, nonwalls, tol):
    """corners of a torispherical head: on the cylindrical part, on the knuckles or on the spherical cap"""
    d, h1, o = k['d'], k['h1'], k['orient']
    r1, r2 = (d, .1 * d) if c == 'Klopperboden' else (.8 * d, .154 * d)
    hm = math.sqrt((r1 - r2) ** 2 - (d / 2. - r2) ** 2)
    alpha = math.asin((d / 2. - r2) / (r1 - r2))
    # local coordinates: the head opens downwards, the axis is x = 0
    loc = [((x - k['pos_h']) * o, (y - k['pos_v']) * o) for x, y in nodes]
    cap, kn = (0, h1 - hm), (d / 2. - r2, h1)
    on_cap = on_kn = 0
    for x, y in loc:
        if abs(y) <= tol:
            ok = abs(abs(x) - d / 2.) <= tol
        elif y < h1 - tol:
            ok = False
        else:
            a = math.hypot(x - cap[0], y - cap[1])
            b = math.hypot(abs(x) - kn[0], y - kn[1])
            on_c = abs(a - r1) <= tol and abs(math.atan2(x, y - cap[1])) <= alpha + 1e-4
            on_k = abs(b - r2) <= tol and abs(x) >= kn[0] - tol and math.atan2(abs(x), y - cap[1]) >= alpha - 1e-4
            on_cap, on_kn = on_cap + on_c, on_kn + on_k
            ok = on_c or on_k
        if not ok:
            return 'the corner %r (local) is not on the head' % ((x, y),)
    want = [(d / 2., 0), (-d / 2., 0), (d / 2., h1), (-d / 2., h1)]
    t = (r1 * math.sin(alpha), h1 - hm + r1 * math.cos(alpha))
    want += [t, (-t[0], t[1])]
    for p in want:
        if not any(near(p, x, tol) for x in loc):
            return 'the point %r (local) is not a corner' % (p,)
    for p in loc:
        if not any(near((-p[0], p[1]), x, tol) for x in loc):
            return 'not symmetric'
    if on_cap < 4 or on_kn < 6:
        return 'too coarse: %d corners on the cap, %d on the knuckles' % (on_cap, on_kn)
    top = max(y for _, y in loc)
    if top > h1 - hm + r1 + tol or top < h1 - hm + r1 - .02 * d:
        return 'height %r instead of %r' % (top, h1 - hm + r1)
    if len(nonwalls) != 1 or any(abs(p[1] - k['pos_v']) > tol for p in nonwalls[0]):
        return 'not open at the base: %r' % nonwalls
    return None


def labels(case, o):
    ret = [case['class']]
    if case['args']['pos_h'] or case['args']['pos_v']:
        ret.append('nontrivial')
    return ret
